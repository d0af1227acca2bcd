// Small deterministic network for the demonstrations: the library's system calls are wrapped (ld --wrap), so that each
// demonstration controls the clock, what arrives when, and how much each write accepts.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "reliable_multicast.h"
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define OK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
enum { K_FREE, K_UDP, K_LISTEN, K_TCP };
typedef struct { uint8_t *b; int n, cap; } Buf;
static void badd(Buf* q, const void* p, int n) { if (q->n + n > q->cap) { q->cap = (q->n + n) * 2; q->b = realloc(q->b, q->cap); } memcpy(q->b + q->n, p, n); q->n += n; }
static void bpop(Buf* q, int n) { memmove(q->b, q->b + n, q->n - n); q->n -= n; }
typedef struct { int len; uint32_t ip; uint8_t* d; } Dgm;
typedef struct {
    int kind, stream, owner, peer, state;   // peer: other simulated fd or -1 (driven by the demonstration); state (tcp): 1 connecting 2 up 3 peer closed 4 reset
    Buf in, out;                            // tcp: bytes to read / bytes written (when peer < 0)
    Dgm dg[64]; int ndg;                    // udp: datagrams to read
    int room;                               // tcp: bytes that can still be written, -1 unlimited
    int rmax;                               // at most this many bytes per read (0: no limit)
    int backlog[16], nback;
    uint32_t lip, rip; uint16_t lport, rport; int member;
} Sfd;
#define NF 400
#define FD0 100
static Sfd F[NF];
static int64_t sim_now = 1000000;
static int sim_who, sim_fail_errno, sim_open, sim_bad_close;   // who is calling; error for the next call named sim_fail
static const char* sim_fail = "";
static int sim_drop;                                           // the next n multicast datagrams are lost
typedef struct { int len; uint8_t d[66000]; } Sent;
static Sent sim_sent[512]; static int sim_nsent;               // every datagram multicast
static int fails(const char* c) { if (!strcmp(sim_fail, c)) { sim_fail = ""; errno = sim_fail_errno; return 1; } return 0; }
static Sfd* S_(int fd) { if (fd < FD0 || fd >= FD0 + NF || !F[fd - FD0].kind) { errno = EBADF; return 0; } return &F[fd - FD0]; }
static int newfd(int kind) { for (int i = 0; i < NF; ++i) if (!F[i].kind) { memset(&F[i], 0, sizeof F[i]); F[i].kind = kind; F[i].room = -1; F[i].peer = -1; F[i].owner = sim_who; ++sim_open; return FD0 + i; } errno = EMFILE; return -1; }
int __wrap_socket(int d, int t, int p) { if (fails("socket")) return -1; int st = (t & 15) == SOCK_STREAM; int f = newfd(st ? K_TCP : K_UDP); return f; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) { if (fails("bind")) return -1; Sfd* s = S_(fd); if (!s) return -1; s->lip = ntohl(((struct sockaddr_in*)a)->sin_addr.s_addr); s->lport = ntohs(((struct sockaddr_in*)a)->sin_port); return 0; }
int __wrap_listen(int fd, int b) { if (fails("listen")) return -1; Sfd* s = S_(fd); if (!s) return -1; s->kind = K_LISTEN; return 0; }
static int sim_wmax;                                           // at most this many bytes per write (0: no limit)
static uint32_t sim_join_if;                                   // interface of the last group membership
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (fails("setsockopt")) return -1; Sfd* s = S_(fd); if (!s) return -1; if (l == IPPROTO_IP && o == IP_ADD_MEMBERSHIP) { s->member = 1; sim_join_if = ntohl(((const struct ip_mreq*)v)->imr_interface.s_addr); } return 0; }
int __wrap_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { Sfd* s = S_(fd); if (!s) return -1; *(int*)v = s->state == 4 ? ECONNREFUSED : 0; return 0; }
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l) { Sfd* s = S_(fd); if (!s) return -1; struct sockaddr_in* i = (struct sockaddr_in*)a; memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(s->lip); i->sin_port = htons(s->lport ? s->lport : 4711); return 0; }
int __wrap_fcntl(int fd, int c, ...) { return S_(fd) ? 0 : -1; }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) {
    if (fails("connect")) return -1;
    Sfd* s = S_(fd); if (!s) return -1; s->rip = ntohl(((struct sockaddr_in*)a)->sin_addr.s_addr); s->rport = ntohs(((struct sockaddr_in*)a)->sin_port); s->lport = 30000 + fd; s->lip = 0x7f000001; s->state = 1;
    for (int i = 0; i < NF; ++i) if (F[i].kind == K_LISTEN && F[i].lport == s->rport) { F[i].backlog[F[i].nback++] = fd; s->state = 2; }
    errno = EINPROGRESS; return -1;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l) {
    if (fails("accept")) return -1;
    Sfd* s = S_(fd); if (!s) return -1; if (!s->nback) { errno = EAGAIN; return -1; }
    int c = s->backlog[0]; memmove(s->backlog, s->backlog + 1, 60); s->nback--;
    int n = newfd(K_TCP); Sfd *x = S_(n), *y = S_(c); x->state = 2; x->rip = y->lip; x->rport = y->lport; x->lport = S_(fd)->lport; x->peer = c; y->peer = n;
    struct sockaddr_in* i = (struct sockaddr_in*)a; if (i) { memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(x->rip); i->sin_port = htons(x->rport); }
    return n;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l); }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) { return do_accept(fd, a, l); }
static void udp_in(int fd, const void* d, int n, uint32_t ip) { Sfd* s = S_(fd); Dgm* g = &s->dg[s->ndg++]; g->len = n; g->ip = ip; g->d = malloc(n + 1); memcpy(g->d, d, n); }
static ssize_t mcast(const uint8_t* b, int n) {
    if (sim_nsent < 512) { sim_sent[sim_nsent].len = n; memcpy(sim_sent[sim_nsent++].d, b, n); }
    if (sim_drop > 0) { --sim_drop; return n; }
    for (int i = 0; i < NF; ++i) if (F[i].kind == K_UDP && F[i].member && F[i].owner != sim_who) udp_in(FD0 + i, b, n, 0x7f000001);
    return n;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl) { if (fails("sendmsg")) return -1; static uint8_t b[70000]; int n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) { memcpy(b + n, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); n += m->msg_iov[i].iov_len; } return mcast(b, n); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if (fails("sendmsg")) return -1; return mcast(b, n); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
    if (fails("recvfrom")) return -1;
    Sfd* s = S_(fd); if (!s) return -1; if (!s->ndg) { errno = EAGAIN; return -1; }
    Dgm g = s->dg[0]; memmove(s->dg, s->dg + 1, sizeof(Dgm) * --s->ndg); int k = g.len < (int)n ? g.len : (int)n; memcpy(b, g.d, k); free(g.d);
    struct sockaddr_in* i = (struct sockaddr_in*)a; if (i) { memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(g.ip); i->sin_port = htons(1234); }
    return k;
}
static ssize_t do_read(int fd, const struct iovec* v, int c) {
    if (fails("read")) return -1;
    Sfd* s = S_(fd); if (!s) return -1; if (!s->in.n) { if (s->state == 3) return 0; if (s->state == 4) { errno = ECONNRESET; return -1; } errno = EAGAIN; return -1; }
    int n = 0; for (int i = 0; i < c; ++i) { int k = v[i].iov_len; if (s->rmax && n + k > s->rmax) k = s->rmax - n; if (k > s->in.n) k = s->in.n; memcpy(v[i].iov_base, s->in.b, k); bpop(&s->in, k); n += k; }
    return n;
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { return do_read(fd, v, c); }
ssize_t __wrap_read(int fd, void* b, size_t n) { struct iovec v = { b, n }; return do_read(fd, &v, 1); }
static ssize_t do_write(int fd, const struct iovec* v, int c) {
    if (fails("write")) return -1;
    Sfd* s = S_(fd); if (!s) return -1; if (s->state >= 3) { errno = s->state == 3 ? EPIPE : ECONNRESET; return -1; }
    int n = 0; for (int i = 0; i < c; ++i) { int k = v[i].iov_len; if (s->room >= 0 && k > s->room) k = s->room; if (sim_wmax && k > sim_wmax - n) k = sim_wmax - n; badd(s->peer >= 0 ? &S_(s->peer)->in : &s->out, v[i].iov_base, k); if (s->room >= 0) s->room -= k; n += k; }
    if (!n) { errno = EAGAIN; return -1; } return n;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { return do_write(fd, v, c); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { struct iovec v = { (void*)b, n }; return do_write(fd, &v, 1); }
int __wrap_shutdown(int fd, int h) { return 0; }
int __wrap_close(int fd) { Sfd* s = S_(fd); if (!s) { ++sim_bad_close; return -1; } if (s->kind == K_TCP && s->peer >= 0 && S_(s->peer)) { S_(s->peer)->state = 3; S_(s->peer)->peer = -1; } s->kind = K_FREE; --sim_open; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = sim_now / 1000000; t->tv_nsec = sim_now % 1000000 * 1000; return 0; }

// ---- contexts and event loop.  Node 0 is the publisher, nodes 1.. are subscribers.
typedef struct { int used, fd, mask; rmc_index_t idx; int who; } Reg;
static Reg R[NF]; static int reg_errors;
static rmc_pub_context_t* pub; static rmc_sub_context_t* sub[4];
static Reg* reg_of(int who, int fd) { for (int i = 0; i < NF; ++i) if (R[i].used && R[i].fd == fd && R[i].who == who) return &R[i]; return 0; }
static void cb_add(user_data_t u, int d, rmc_index_t i, rmc_poll_action_t m) { if (reg_of(sim_who, d)) { ++reg_errors; return; } for (int k = 0; k < NF; ++k) if (!R[k].used) { R[k] = (Reg){ 1, d, m, i, sim_who }; return; } }
static void cb_mod(user_data_t u, int d, rmc_index_t i, rmc_poll_action_t o, rmc_poll_action_t n) { Reg* r = reg_of(sim_who, d); if (!r) { ++reg_errors; return; } r->mask = n; }
static void cb_rem(user_data_t u, int d, rmc_index_t i) { Reg* r = reg_of(sim_who, d); if (!r) { ++reg_errors; return; } r->used = 0; }
static int readable(Sfd* s) { return s->kind == K_UDP ? s->ndg > 0 : s->kind == K_LISTEN ? s->nback > 0 : s->kind == K_TCP ? s->state >= 2 && (s->in.n || s->state >= 3) : 0; }
static int writable(Sfd* s) { return s->kind == K_UDP ? 1 : s->kind == K_TCP ? s->state >= 2 && (s->room != 0 || s->state >= 3) : 0; }
static int do_event(int who, rmc_index_t idx, int wr) { uint8_t op; sim_who = who; return who ? (wr ? rmc_sub_write(sub[who], idx, &op) : rmc_sub_read(sub[who], idx, &op)) : (wr ? rmc_pub_write(pub, idx, &op) : rmc_pub_read(pub, idx, &op)); }
static int pump_(int who) {     // deliver every event that is polled for until nothing happens; returns the number of events
    int n = 0, any = 1;
    while (any && n < 500) { any = 0; for (int k = 0; k < NF; ++k) { Reg r = R[k]; if (!r.used || (who >= 0 && r.who != who)) continue; Sfd* s = S_(r.fd); if (!s) continue;
        if ((r.mask & RMC_POLLREAD) && readable(s)) { do_event(r.who, r.idx, 0); any = 1; ++n; }
        else if ((r.mask & RMC_POLLWRITE) && writable(s)) { do_event(r.who, r.idx, 1); any = 1; ++n; } } }
    return n;
}
static int pump(void) { return pump_(-1); }
static int freed[256], nfreed; static void* last_freed_ptr; static user_data_t last_freed_ud;
static void pay_free(void* p, payload_len_t l, user_data_t u) { if (p && ((uint8_t*)p)[0] < 255 && l) freed[((uint8_t*)p)[0]]++; ++nfreed; last_freed_ptr = p; last_freed_ud = u; free(p); }
static int sub_alloc, sub_freed;
static void* s_alloc(payload_len_t l, user_data_t u) { ++sub_alloc; return malloc(l ? l : 1); }
static void s_free(void* p, payload_len_t l, user_data_t u) { ++sub_freed; free(p); }
static void mkpub(int maxsub) { sim_who = 0; OK(!rmc_pub_init_context(&pub, 77, "239.0.0.1", 4723, "127.0.0.1", "127.0.0.1", 4711, user_data_u64(0xABCD), cb_add, cb_mod, cb_rem, maxsub, pay_free), "pub init"); OK(!rmc_pub_activate_context(pub), "pub activate"); }
static void mksub(int i, int maxpub) { sim_who = i; OK(!rmc_sub_init_context(&sub[i], 100 + i, "239.0.0.1", 4723, "127.0.0.1", user_data_u64(0x5678), cb_add, cb_mod, cb_rem, maxpub, s_alloc, s_free), "sub init"); OK(!rmc_sub_activate_context(sub[i]), "sub activate"); }
static int listener(void) { for (int i = 0; i < NF; ++i) if (F[i].kind == K_LISTEN) return FD0 + i; return -1; }
static int mcast_rx(int who) { for (int i = 0; i < NF; ++i) if (F[i].kind == K_UDP && F[i].owner == who) return FD0 + i; return -1; }
static int fake_sub(void) {     // a subscriber driven by the demonstration connects; returns the publisher's descriptor for it
    int before[NF]; for (int i = 0; i < NF; ++i) before[i] = F[i].kind;
    int f = newfd(K_TCP); --sim_open; Sfd* s = S_(f); s->owner = 9; s->lip = 0x0a000001; s->lport = 20000 + f; F[listener() - FD0].backlog[F[listener() - FD0].nback++] = f; pump_(0);
    for (int i = 0; i < NF; ++i) if (F[i].kind == K_TCP && F[i].peer == f) { F[i].peer = -1; F[f - FD0].kind = K_FREE; return FD0 + i; }
    FAIL("connection was not accepted");
}
static uint8_t* pay(int tag, int n) { uint8_t* p = malloc(n ? n : 1); for (int i = 0; i < n; ++i) p[i] = tag + i * 7; if (n) p[0] = tag; return p; }
static int queue(int tag, int n) { sim_who = 0; return rmc_pub_queue_packet(pub, pay(tag, n), n, 0); }
static void ack(int fd, uint64_t a, uint64_t b) { uint8_t m[17]; m[0] = 2; memcpy(m + 1, &a, 8); memcpy(m + 9, &b, 8); badd(&S_(fd)->in, m, 17); }
static int mkhdr(uint8_t* b, uint64_t pid, uint32_t node, int len, uint32_t ip, uint16_t port, int tag) { uint16_t l = len; memcpy(b, &pid, 8); memcpy(b + 8, &node, 4); memcpy(b + 12, &l, 2); memcpy(b + 14, &ip, 4); memcpy(b + 18, &port, 2); for (int i = 0; i < len; ++i) b[20 + i] = tag + i * 7; if (len) b[20] = tag; return 20 + len; }
static void pub_to(void) { sim_who = 0; rmc_pub_timeout_process(pub); }
static void sub_to(int i) { sim_who = i; rmc_sub_timeout_process(sub[i]); }
static int64_t pub_next(void) { usec_timestamp_t t = -7; rmc_pub_timeout_get_next(pub, &t); return t; }
static int64_t sub_next(int i) { usec_timestamp_t t = -7; rmc_sub_timeout_get_next(sub[i], &t); return t; }
// a publisher driven by the demonstration: its announcement and data datagrams, and its end of the connection
static void fp_data(int who, uint64_t pid, uint16_t port, int tag, int len) { static uint8_t b[66000]; int n = mkhdr(b, pid, 500 + port, len, 0x0a000000 + port, port, tag); udp_in(mcast_rx(who), b, n, 0x0a000000 + port); }
static void fp_tcp(int fd, uint64_t pid, uint16_t port, int tag, int len) { static uint8_t b[66000]; b[0] = 1; int n = mkhdr(b + 1, pid, 500 + port, len, 0x0a000000 + port, port, tag); badd(&S_(fd)->in, b, n + 1); }
static int fp_connect(int who, uint16_t port) { fp_data(who, 0, port, 0, 0); pump_(who); for (int i = 0; i < NF; ++i) if (F[i].kind == K_TCP && F[i].owner == who && F[i].rport == port && F[i].state == 1) { F[i].state = 2; F[i].peer = -1; pump_(who); return FD0 + i; } return -1; }
static int next_tag(int who, int* len) { rmc_sub_packet_t* p = rmc_sub_get_next_dispatch_ready(sub[who]); if (!p) return -1; int l = rmc_sub_packet_payload_len(p); int t = l ? ((uint8_t*)rmc_sub_packet_payload(p))[0] : 0; if (len) *len = l; sim_who = who; rmc_sub_packet_dispatched(sub[who], p); return t; }
