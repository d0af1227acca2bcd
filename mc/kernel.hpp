// Simulated kernel: the system calls the library makes, with model hooks.
#pragma once
#include "world.hpp"
#include "models.hpp"
#include <netinet/tcp.h>
#include <sys/ioctl.h>

static bool fault(u8 kind, int* err) {
    if (W.flt.kind != kind) return false;
    if (W.flt.skip) { W.flt.skip--; return false; }
    *err = W.flt.err; W.flt.kind = F_NONE; W.flt.err = 0; W.t.faulted = kind; COUNT("faults_injected");
    return true;
}
static int fd_new(u8 kind) {
    for (int i = 3; i < NFD; ++i) if (!W.fd[i].kind) { rawset(&W.fd[i], 0, sizeof(Fd)); W.fd[i].kind = kind; W.fd[i].owner = W.cur; return i; }
    return -1;
}
static Fd* fdp(int fd) { if (fd < 0 || fd >= NFD || !W.fd[fd].kind) return 0; return &W.fd[fd]; }
static Fd* use_fd(int fd, const char* what) {
    Fd* f = fdp(fd);
    if (!f) { viol("P24,P12,P16,P15", "%s on descriptor %d which is not open", what, fd); errno = EBADF; return 0; }
    if (f->owner != W.cur) viol("P24,P12,P16,P15", "%s on descriptor %d which belongs to another context", what, fd);
    return f;
}
static Stream* inbound(Fd* f) { return f->side == 0 ? &W.conn[f->conn].s2c : &W.conn[f->conn].c2s; }
static Stream* outbound(Fd* f) { return f->side == 0 ? &W.conn[f->conn].c2s : &W.conn[f->conn].s2c; }
static void stream_pop(Stream* s, u32 n, u8* out) {
    if (out) rawcpy(out, s->d, n);
    memmove(s->d, s->d + n, s->len - n);
    rawset(s->d + s->len - n, 0, n);
    s->len -= n;
}
static void stream_push(Stream* s, const u8* d, u32 n) { if (s->len + n > SCAP) harness_bug("stream overflow"); rawcpy(s->d + s->len, d, n); s->len += n; }
static bool peer_gone(Conn& c, int side) { return side == 0 ? (c.acc || c.sfake ? !c.sopen : c.rst) : !c.copen; }
static void conn_maybe_free(int ci) { Conn& c = W.conn[ci]; if (c.st && !c.copen && !c.sopen) rawset(&c, 0, sizeof c); }
static int conn_new() { for (int i = 0; i < NCONN; ++i) if (!W.conn[i].st) { rawset(&W.conn[i], 0, sizeof(Conn)); W.conn[i].seq = ++W.conn_seq; return i; } harness_bug("out of connections"); return -1; }
static void end_close(int ci, int side, bool reset) {
    Conn& c = W.conn[ci];
    if (side == 0) { if (c.s2c.len) reset = true; c.copen = 0; c.cfd = 0; c.c2s.fin = 1; rawset(c.s2c.d, 0, c.s2c.len); c.s2c.len = 0; }
    else { if (c.c2s.len) reset = true; c.sopen = 0; c.sfd = 0; c.s2c.fin = 1; rawset(c.c2s.d, 0, c.c2s.len); c.c2s.len = 0; }
    if (reset) c.rst = 1;
    conn_maybe_free(ci);
}
static u8 ready_bits(int fd) {
    Fd& f = W.fd[fd]; u8 r = 0;
    switch (f.kind) {
    case FD_MCAST_TX: if (!W.stalled_udp) r |= RMC_POLLWRITE; if (f.junk) r |= RMC_POLLREAD; break;
    case FD_MCAST_RX: if (W.S[f.owner - NPUB].nrx) r |= RMC_POLLREAD; break;
    case FD_LISTEN: for (auto& c : W.conn) if (c.st == 3 && !c.sfake && c.srv == f.owner && !c.acc && c.sopen) r |= RMC_POLLREAD; break;
    case FD_TCP: {
        Conn& c = W.conn[f.conn];
        if (c.st == 1) break;
        if (c.st == 2) { r = RMC_POLLREAD | RMC_POLLWRITE; break; }
        Stream* i = inbound(&f);
        if (i->len || i->fin || c.rst) r |= RMC_POLLREAD;
        if (outbound(&f)->len < C.tcpcap || c.rst || peer_gone(c, f.side)) r |= RMC_POLLWRITE;
        break; }
    }
    return r;
}
static int find_listener(u32 ip, u16 port) {
    for (int i = 0; i < NFD; ++i) if (W.fd[i].kind == FD_LISTEN && W.fd[i].listening && W.fd[i].port == port && (W.fd[i].ip == 0 || W.fd[i].ip == ip) && pub_ip(W.fd[i].owner) == ip) return i;
    return -1;
}

extern "C" {
int vp_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = W.now / 1000000; t->tv_nsec = (W.now % 1000000) * 1000; return 0; }
int vp_gettimeofday(struct timeval* t, void*) { t->tv_sec = W.now / 1000000; t->tv_usec = W.now % 1000000; return 0; }
time_t vp_time(time_t* t) { time_t v = W.now / 1000000; if (t) *t = v; return v; }
void (*vp_signal(int sig, void (*h)(int)))(int) { if (sig == SIGPIPE && h == SIG_IGN) W.sigpipe_ign = 1; return SIG_DFL; }
int vp_sigaction(int sig, const struct sigaction* a, struct sigaction*) { if (sig == SIGPIPE && a && a->sa_handler == SIG_IGN) W.sigpipe_ign = 1; return 0; }
int vp_usleep(useconds_t us) { W.now += us; return 0; }
int vp_nanosleep(const struct timespec*, struct timespec*) { return 0; }
unsigned vp_sleep(unsigned s) { W.now += s * 1000000ll; return 0; }
int vp_rand(void) { return 1234567; }
int vp_rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (*s >> 8) & 0x7fffffff; }
long vp_random(void) { return 7654321; }

int vp_socket(int dom, int type, int) {
    int e; 
    if (fault(F_SOCKET, &e)) { errno = e; return -1; }
    int fd = fd_new((type & 0xff) == SOCK_STREAM ? FD_TCP0 : FD_UDP0);
    if (fd < 0) { errno = EMFILE; return -1; }
    if (type & SOCK_NONBLOCK) W.fd[fd].nonblock = 1;
    (void)dom; return fd;
}
int vp_bind(int fd, const struct sockaddr* a, socklen_t) {
    int e; Fd* f = use_fd(fd, "bind"); if (!f) return -1;
    if (fault(F_BIND, &e)) { errno = e; return -1; }
    const sockaddr_in* s = (const sockaddr_in*)a;
    for (auto& g : W.fd) if (&g != f && f->kind == FD_UDP0 && g.kind == FD_MCAST_RX && g.bound && g.port == ntohs(s->sin_port) && !(g.reuse && f->reuse)) { errno = EADDRINUSE; return -1; }
    // Connections closed a moment ago keep the port busy for a socket without SO_REUSEADDR.
    if (f->kind != FD_UDP0 && f->owner < NPUB && W.P[f->owner].acts && !f->reuse && ntohs(s->sin_port)) { errno = EADDRINUSE; return -1; }
    f->ip = ntohl(s->sin_addr.s_addr); f->port = ntohs(s->sin_port); f->bound = 1;
    if (!f->port && f->kind != FD_UDP0) f->port = C.port0 ? pub_port(f->owner < NPUB ? f->owner : 0) : 45678;
    if (f->kind == FD_UDP0) f->kind = FD_MCAST_RX;
    return 0;
}
int vp_listen(int fd, int) {
    int e; Fd* f = use_fd(fd, "listen"); if (!f) return -1;
    if (fault(F_LISTEN, &e)) { errno = e; return -1; }
    f->kind = FD_LISTEN; f->listening = 1; if (!f->port) f->port = C.port0 ? pub_port(f->owner < NPUB ? f->owner : 0) : 45678; return 0;
}
int vp_setsockopt(int fd, int level, int opt, const void* v, socklen_t) {
    int e; Fd* f = use_fd(fd, "setsockopt"); if (!f) return -1;
    if (fault(F_SETSOCKOPT, &e)) { errno = e; return -1; }
    if (level == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP) { f->member = ((const ip_mreq*)v)->imr_multiaddr.s_addr == htonl(GROUP_IP) ? 1 : 2; f->ifip = ntohl(((const ip_mreq*)v)->imr_interface.s_addr); f->kind = FD_MCAST_RX; }
    if (level == IPPROTO_IP && opt == IP_MULTICAST_IF) { f->kind = FD_MCAST_TX; f->mif = 1; f->ifip = ntohl(((const in_addr*)v)->s_addr); }
    if (level == IPPROTO_IP && opt == IP_MULTICAST_TTL) f->ttl = *(const u8*)v;
    if (level == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && *(const int*)v) f->reuse = 1;
    return 0;
}
int vp_getsockopt(int fd, int level, int opt, void* v, socklen_t* l) {
    int e; Fd* f = use_fd(fd, "getsockopt"); if (!f) return -1;
    if (fault(F_GETSOCKOPT, &e)) { errno = e; return -1; }
    int r = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR && f->kind == FD_TCP) { Conn& c = W.conn[f->conn]; if (c.st == 2) r = c.err ? c.err : ECONNREFUSED; else if (c.st == 1) r = 0; else if (c.rst) r = ECONNRESET; }
    rawcpy(v, &r, *l < 4 ? *l : 4); *l = 4; return 0;
}
static int name_of(sockaddr* a, socklen_t* l, u32 ip, u16 port) {
    sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(ip); s.sin_port = htons(port);
    if (a) { rawcpy(a, &s, *l < sizeof s ? *l : sizeof s); }
    if (l) *l = sizeof s;
    return 0;
}
int vp_getsockname(int fd, struct sockaddr* a, socklen_t* l) {
    int e; Fd* f = use_fd(fd, "getsockname"); if (!f) return -1;
    if (fault(F_GETSOCKNAME, &e)) { errno = e; return -1; }
    return name_of(a, l, f->ip, f->port);
}
int vp_getpeername(int fd, struct sockaddr* a, socklen_t* l) {
    Fd* f = use_fd(fd, "getpeername"); if (!f || f->kind != FD_TCP) { errno = ENOTCONN; return -1; }
    Conn& c = W.conn[f->conn]; return f->side ? name_of(a, l, c.cip, c.cport) : name_of(a, l, c.dip, c.dport);
}
int vp_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    int e; Fd* f = use_fd(fd, "fcntl"); if (!f) return -1;
    if (fault(F_FCNTL, &e)) { errno = e; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) ? 1 : 0; return 0; }
    return 0;
}
int vp_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); int* p = va_arg(ap, int*); va_end(ap);
    Fd* f = use_fd(fd, "ioctl"); if (!f) return -1;
    if (req == FIONBIO) f->nonblock = *p ? 1 : 0;
    return 0;
}
int vp_accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
    int e; Fd* f = use_fd(fd, "accept"); if (!f) return -1;
    if (f->kind != FD_LISTEN) { errno = EINVAL; return -1; }
    if (fault(F_ACCEPT, &e)) { errno = e; return -1; }
    int best = -1;
    for (int i = 0; i < NCONN; ++i) { Conn& c = W.conn[i]; if (c.st == 3 && !c.sfake && c.srv == f->owner && !c.acc && c.sopen && (best < 0 || (u8)(c.seq - W.conn[best].seq) > 127)) best = i; }
    if (best < 0) { if (!f->nonblock) viol("P18,P12", "accept() would block the application: no connection is pending"); errno = EAGAIN; return -1; }
    int n = fd_new(FD_TCP); if (n < 0) { errno = EMFILE; return -1; }
    Conn& c = W.conn[best]; c.acc = 1; c.sfd = n; W.fd[n].conn = best; W.fd[n].side = 1; if (flags & SOCK_NONBLOCK) W.fd[n].nonblock = 1;
    name_of(a, l, c.cip, c.cport);
    m_pub_accepted(f->owner, best, n);
    return n;
}
int vp_accept(int fd, struct sockaddr* a, socklen_t* l) { return vp_accept4(fd, a, l, 0); }
int vp_connect(int fd, const struct sockaddr* a, socklen_t) {
    int e; Fd* f = use_fd(fd, "connect"); if (!f) return -1;
    const sockaddr_in* s = (const sockaddr_in*)a; u32 ip = ntohl(s->sin_addr.s_addr); u16 port = ntohs(s->sin_port);
    if (!f->nonblock) viol("P18,P11", "connect() on a blocking socket would block the application");
    int sub = f->owner - NPUB;
    m_sub_connect(sub, ip, port);
    if (fault(F_CONNECT, &e)) { errno = e; m_sub_connect_failed(sub); return -1; }
    int ci = conn_new(); Conn& c = W.conn[ci];
    c.cli = sub; c.copen = 1; c.sopen = 1; c.cfd = fd; c.cip = sub_ip(sub); c.cport = 40000 + c.seq; c.dip = ip; c.dport = port; c.srv = NOPUB;
    f->kind = FD_TCP; f->conn = ci; f->side = 0;
    int L = find_listener(ip, port);
    if (L >= 0) { c.srv = W.fd[L].owner; c.st = C.syn ? 1 : 3; }
    else {
        int g = -1; for (int p = C.rp; p < npub(); ++p) if (pub_ip(p) == ip && pub_port(p) == port) g = p;
        if (g >= 0) { c.srv = g; c.sfake = 1; c.acc = 1; c.st = 1; }
        else { c.sopen = 0; c.st = 2; c.err = ECONNREFUSED; }
    }
    if (C.conn0 && c.st == 3) { errno = EAGAIN; return 0; }
    errno = EINPROGRESS; return -1;
}
static ssize_t do_writev(int fd, const iovec* iov, int n, int flags = 0);
static ssize_t do_readv(int fd, const iovec* iov, int n, int flags = 0);
static ssize_t do_sendmsg(int fd, const iovec* iov, int n, const sockaddr_in* to, int flags = 0) {
    int e; Fd* f = use_fd(fd, "sendmsg"); if (!f) return -1;
    if (f->kind == FD_UDP0) f->kind = FD_MCAST_TX;
    if (f->kind == FD_TCP) return do_writev(fd, iov, n, flags);
    if (f->kind != FD_MCAST_TX) { errno = ENOTCONN; return -1; }
    if (W.stalled_udp) { errno = EAGAIN; return -1; }
    if (fault(F_SENDMSG, &e)) { errno = e; return -1; }
    static u8 buf[70000]; u32 len = 0;
    for (int i = 0; i < n; ++i) { if (len + iov[i].iov_len > 65507) { errno = EMSGSIZE; return -1; } if (iov[i].iov_len) memcpy(buf + len, iov[i].iov_base, iov[i].iov_len); len += iov[i].iov_len; }
    m_pub_datagram(f->owner, buf, len, to ? ntohl(to->sin_addr.s_addr) : 0, to ? ntohs(to->sin_port) : 0);
    return len;
}
ssize_t vp_sendmsg(int fd, const struct msghdr* m, int fl) { return do_sendmsg(fd, m->msg_iov, m->msg_iovlen, (const sockaddr_in*)m->msg_name, fl); }
ssize_t vp_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* to, socklen_t) { iovec v{(void*)b, n}; return do_sendmsg(fd, &v, 1, (const sockaddr_in*)to, fl); }
static ssize_t do_recvfrom(int fd, iovec* iov, int n, int flags, sockaddr* a, socklen_t* l) {
    int e; Fd* f = use_fd(fd, "recvfrom"); if (!f) return -1;
    if (f->kind == FD_TCP) return do_readv(fd, iov, n, flags);
    if (fault(F_RECVFROM, &e)) { errno = e; return -1; }
    if (f->kind == FD_MCAST_TX) {
        if (!f->junk) { if (!(flags & MSG_DONTWAIT) && !f->nonblock) viol("P18,P12", "blocking recvfrom() on the multicast socket with nothing to read"); errno = EAGAIN; return -1; }
        f->junk--; u8 z = 0x7f; if (n && iov[0].iov_len) memcpy(iov[0].iov_base, &z, 1); name_of(a, l, 0x01020304, 99); return 1;
    }
    if (f->kind != FD_MCAST_RX) { errno = EINVAL; return -1; }
    int s = f->owner - NPUB; SubM& m = W.S[s];
    if (!m.nrx) { if (!(flags & MSG_DONTWAIT) && !f->nonblock) viol("P18,P12", "recvfrom() would block the application"); errno = EAGAIN; return -1; }
    RxEnt r = m.rx[0]; bool peek = flags & MSG_PEEK;
    if (!peek) { memmove(m.rx, m.rx + 1, sizeof(RxEnt) * (NRX - 1)); rawset(&m.rx[NRX - 1], 0, sizeof(RxEnt)); m.nrx--; }
    static u8 buf[70000]; u32 len = dgram_bytes(s, r, buf);
    u32 off = 0; for (int i = 0; i < n && off < len; ++i) { u32 k = std::min((u32)iov[i].iov_len, len - off); if (k) memcpy(iov[i].iov_base, buf + off, k); off += k; }
    name_of(a, l, pub_ip(r.src), 3333);
    if (!peek) { m_sub_datagram(s, r.src, buf, off); if (r.type == 1) dg_release(r.x); }
    return flags & MSG_TRUNC ? len : off;
}
ssize_t vp_recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) { iovec v{b, n}; return do_recvfrom(fd, &v, 1, flags, a, l); }
static ssize_t do_readv(int fd, const iovec* iov, int n, int flags) {
    int e; Fd* f = use_fd(fd, "readv"); if (!f) return -1;
    if (f->kind == FD_MCAST_RX || f->kind == FD_MCAST_TX) return do_recvfrom(fd, (iovec*)iov, n, flags, 0, 0);
    if (f->kind != FD_TCP) { errno = ENOTCONN; return -1; }
    Conn& c = W.conn[f->conn]; Stream* s = inbound(f);
    if (fault(F_READV, &e)) { errno = e; if (e != EAGAIN && e != EINTR && e != EWOULDBLOCK) { W.t.mustclose |= KB(f->conn); W.t.mayclose |= KB(f->conn); } return -1; }
    if (c.st != 3) { errno = ENOTCONN; return -1; }
    u32 want = 0; for (int i = 0; i < n; ++i) want += iov[i].iov_len;
    if (!want) return 0;
    if (c.rst) { errno = ECONNRESET; { W.t.mustclose |= KB(f->conn); W.t.mayclose |= KB(f->conn); } return -1; }
    if (!s->len) { if (s->fin) { { W.t.mustclose |= KB(f->conn); W.t.mayclose |= KB(f->conn); } return 0; } if (!f->nonblock && !(flags & MSG_DONTWAIT)) viol("P18,P12", "readv() would block the application"); errno = EAGAIN; return -1; }
    u32 k = std::min(want, s->len); if (W.rlim && k > W.rlim) k = W.rlim;
    static u8 buf[SCAP]; if (flags & MSG_PEEK) memcpy(buf, s->d, k); else stream_pop(s, k, buf);
    u32 off = 0; for (int i = 0; i < n && off < k; ++i) { u32 x = std::min((u32)iov[i].iov_len, k - off); if (x) memcpy(iov[i].iov_base, buf + off, x); off += x; }
    if (flags & MSG_PEEK) return k;
    if (f->side) m_pub_stream(f->owner, f->idx, buf, k); else m_sub_stream(f->owner - NPUB, f->idx, buf, k);
    return k;
}
ssize_t vp_readv(int fd, const struct iovec* v, int n) { return do_readv(fd, v, n); }
ssize_t vp_read(int fd, void* b, size_t n) { iovec v{b, n}; return do_readv(fd, &v, 1); }
ssize_t vp_recv(int fd, void* b, size_t n, int fl) { iovec v{b, n}; Fd* f = fdp(fd); if (f && f->kind != FD_TCP) return do_recvfrom(fd, &v, 1, fl, 0, 0); return do_readv(fd, &v, 1, fl); }
ssize_t vp_recvmsg(int fd, struct msghdr* m, int fl) { Fd* f = fdp(fd); if (f && f->kind != FD_TCP) return do_recvfrom(fd, m->msg_iov, m->msg_iovlen, fl, (sockaddr*)m->msg_name, m->msg_name ? &m->msg_namelen : 0); return do_readv(fd, m->msg_iov, m->msg_iovlen, fl); }
static ssize_t do_writev(int fd, const iovec* iov, int n, int flags) {
    int e; Fd* f = use_fd(fd, "writev"); if (!f) return -1;
    if (f->kind == FD_MCAST_TX) return do_sendmsg(fd, iov, n, 0, flags);
    if (f->kind != FD_TCP) { errno = ENOTCONN; return -1; }
    Conn& c = W.conn[f->conn]; Stream* s = outbound(f);
    if (fault(F_WRITEV, &e)) { errno = e; return -1; }
    if (c.st != 3) { errno = ENOTCONN; return -1; }
    if (c.rst || peer_gone(c, f->side)) { if (!W.sigpipe_ign && !(flags & MSG_NOSIGNAL)) viol("P16,P18,P24", "writing to a lost connection would kill the process with SIGPIPE"); errno = EPIPE; return -1; }
    u32 tot = 0; for (int i = 0; i < n; ++i) tot += iov[i].iov_len;
    u32 room = C.tcpcap > s->len ? C.tcpcap - s->len : 0;
    u32 k = std::min(tot, room); if (W.wlim && k > W.wlim) k = W.wlim;
    if (tot && !k) { if (!f->nonblock && !(flags & MSG_DONTWAIT)) viol("P18,P12", "writev() would block the application"); errno = EAGAIN; return -1; }
    static u8 buf[SCAP]; u32 off = 0; for (int i = 0; i < n && off < k; ++i) { u32 x = std::min((u32)iov[i].iov_len, k - off); if (x) memcpy(buf + off, iov[i].iov_base, x); off += x; }
    bool tofake = f->side ? c.cfake : c.sfake;
    if (f->side) m_pub_wrote(f->owner, f->idx, buf, k); else m_sub_wrote(f->owner - NPUB, f->idx, buf, k);
    if (!tofake || C.stall) stream_push(s, buf, k);
    return k;
}
ssize_t vp_writev(int fd, const struct iovec* v, int n) { return do_writev(fd, v, n); }
ssize_t vp_write(int fd, const void* b, size_t n) { iovec v{(void*)b, n}; return do_writev(fd, &v, 1); }
ssize_t vp_send(int fd, const void* b, size_t n, int fl) { iovec v{(void*)b, n}; return do_writev(fd, &v, 1, fl); }
int vp_shutdown(int fd, int) {
    Fd* f = use_fd(fd, "shutdown"); if (!f) return -1;
    if (f->kind != FD_TCP || W.conn[f->conn].st != 3) { errno = ENOTCONN; return -1; }
    outbound(f)->fin = 1; return 0;
}
int vp_close(int fd) {
    if (fd < 0) { viol("P24", "close(%d)", fd); errno = EBADF; return -1; }
    Fd* f = fdp(fd);
    if (!f) { viol("P24,P16,P15,P12", "close() of descriptor %d which is not open (double close)", fd); errno = EBADF; return -1; }
    if (f->owner != W.cur) viol("P24,P16", "close() of another context's descriptor %d", fd);
    if (f->reg && !(C.nopoll & 2)) viol("P12,P16", "descriptor %d closed while still registered for polling", fd);
    if (f->kind == FD_TCP) {
        if (f->side) m_pub_closed(f->owner, f->conn); else m_sub_closed(f->owner - NPUB, f->conn);
        end_close(f->conn, f->side, false);
    }
    rawset(f, 0, sizeof(Fd)); return 0;
}
int vp_poll(struct pollfd* p, nfds_t n, int) { int r = 0; for (nfds_t i = 0; i < n; ++i) { Fd* f = fdp(p[i].fd); u8 b = f ? ready_bits(p[i].fd) : 0; p[i].revents = ((b & 1) && (p[i].events & POLLIN) ? POLLIN : 0) | ((b & 2) && (p[i].events & POLLOUT) ? POLLOUT : 0); r += !!p[i].revents; } return r; }
}
// ---------------------------------------------------------------- poll callbacks
static u64 ud_of(int n) { return n < NPUB ? UD_PUB + n + 0x1000ull * W.P[n].ud : UD_SUB + n - NPUB + 0x1000ull * W.S[n - NPUB].ud; }
static int node_of_ud(user_data_t ud) {
    for (int p = 0; p < NRP; ++p) if (ud.u64 == ud_of(p)) return p;
    for (int s = 0; s < NRS; ++s) if (ud.u64 == ud_of(NPUB + s)) return NPUB + s;
    return -1;
}
struct ErrnoTaint { ~ErrnoTaint() { errno = ENOENT; } };   // callbacks of the application make system calls of their own
static void cb_add(user_data_t ud, int fd, rmc_index_t idx, rmc_poll_action_t act) {
    ErrnoTaint taint;
    int n = node_of_ud(ud); if (n != W.cur) note("P12", "poll_add with wrong user data %llx", (unsigned long long)ud.u64);
    Fd* f = fdp(fd); if (!f || f->owner != W.cur) { viol("P12", "poll_add for descriptor %d which is not open", fd); return; }
    if (f->reg) viol("P12", "poll_add twice for descriptor %d", fd);
    for (auto& g : W.fd) if (g.kind && g.owner == W.cur && g.reg && g.idx == idx) viol("P12,P15", "poll_add with index %d already used by another registered descriptor", idx);
    if (f->kind == FD_TCP && idx >= (W.cur < NPUB ? C.maxc_pub : C.maxc_sub)) { viol("P12,P15", "poll_add with connection index %d out of range", idx); return; }
    if (f->kind == FD_LISTEN && idx != RMC_LISTEN_INDEX) viol("P12", "listen descriptor registered with index %d", idx);
    if ((f->kind == FD_MCAST_RX || f->kind == FD_MCAST_TX) && idx != RMC_MULTICAST_INDEX) viol("P12", "multicast descriptor registered with index %d", idx);
    f->reg = 1; f->mask = act; f->armed = 1; f->lat = 0; f->idx = idx;
    if (f->kind == FD_TCP) { if (f->side) m_pub_slot(f->owner, f->conn, idx); else m_sub_slot(f->owner - NPUB, f->conn, idx); }
}
static void cb_mod(user_data_t ud, int fd, rmc_index_t idx, rmc_poll_action_t o, rmc_poll_action_t nw) {
    ErrnoTaint taint;
    int n = node_of_ud(ud); if (n != W.cur) note("P12", "poll_modify with wrong user data");
    Fd* f = fdp(fd); if (!f || !f->reg || f->owner != W.cur) { viol("P12", "poll_modify for descriptor %d which is not registered", fd); return; }
    if (f->idx != idx) viol("P12", "poll_modify of descriptor %d names index %d instead of %d", fd, idx, f->idx);
    if (o == nw && f->mask != nw) viol("P12", "poll_modify of descriptor %d (index %d) asks to re-arm %d but the registered interest is %d", fd, idx, nw, f->mask);
    if (C.oneshot) { f->mask = nw; f->armed = 1; }
    else if (o != nw) f->mask = nw;
}
static void cb_rem(user_data_t ud, int fd, rmc_index_t idx) {
    ErrnoTaint taint;
    int n = node_of_ud(ud); if (n != W.cur) note("P12", "poll_remove with wrong user data");
    Fd* f = fdp(fd); if (!f || !f->reg || f->owner != W.cur) { viol("P12,P24,P16", "poll_remove for descriptor %d which is not registered", fd); return; }
    if (f->idx != idx) viol("P12", "poll_remove of descriptor %d names index %d instead of %d", fd, idx, f->idx);
    f->reg = f->mask = f->armed = f->lat = 0;
}
