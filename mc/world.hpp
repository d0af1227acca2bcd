// The explored state: simulated kernel, network, applications, and the reference
// models of publisher and subscriber that are run in lockstep with the real code.
#pragma once
#include "core.hpp"
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
extern "C" {
#include "reliable_multicast.h"
extern rmc_index_t rmc_sub_packet_index(struct sub_packet* pack);
#ifndef RMC_LISTEN_INDEX
#define RMC_LISTEN_INDEX 0x7FFD
#define RMC_MULTICAST_INDEX 0x7FFE
#define RMC_NIL_INDEX 0x7FFF
#endif
}
#if defined(VP_HUGE) || defined(VP_MANY)
template <int N> struct Bits {   // a set of packets or connections
    u64 w[N / 64];
    Bits(u64 v = 0) { for (auto& x : w) x = 0; w[0] = v; }
    explicit operator bool() const { for (auto x : w) if (x) return true; return false; }
    Bits operator~() const { Bits r; for (int i = 0; i < N / 64; ++i) r.w[i] = ~w[i]; return r; }
    Bits operator&(const Bits& o) const { Bits r; for (int i = 0; i < N / 64; ++i) r.w[i] = w[i] & o.w[i]; return r; }
    Bits operator|(const Bits& o) const { Bits r; for (int i = 0; i < N / 64; ++i) r.w[i] = w[i] | o.w[i]; return r; }
    Bits& operator&=(const Bits& o) { return *this = *this & o; }
    Bits& operator|=(const Bits& o) { return *this = *this | o; }
    u64 operator>>(int k) const { return k < N ? w[k / 64] >> (k % 64) & 1 : 0; }   // only ever used to test bit k
};
typedef Bits<320> bs_t;
static bs_t BIT(int k) { bs_t r; r.w[k / 64] = 1ull << (k % 64); return r; }
static int bcount(const bs_t& m) { int n = 0; for (auto x : m.w) n += __builtin_popcountll(x); return n; }
static int bfirst(const bs_t& m) { for (int i = 0; i < 5; ++i) if (m.w[i]) return i * 64 + __builtin_ctzll(m.w[i]); return 0; }
static int blast(const bs_t& m) { for (int i = 5; i--; ) if (m.w[i]) return i * 64 + 64 - __builtin_clzll(m.w[i]); return 0; }   // one more than the highest
#endif
// pm_t: set of packets, cm_t: set of connection slots, km_t: set of connections, ix_t: packet number, ci_t: connection or slot
#ifdef VP_HUGE
typedef bs_t pm_t; typedef u16 ix_t;
#define PB BIT
#define pcount bcount
#define pfirst bfirst
#define plast blast
#else
typedef u8 ix_t;
static u64 PB(int k) { return 1ull << k; }
static int pcount(u64 m) { return __builtin_popcountll(m); }
static int pfirst(u64 m) { return __builtin_ctzll(m); }
static int plast(u64 m) { return m ? 64 - __builtin_clzll(m) : 0; }
#endif
#ifdef VP_MANY
typedef bs_t cm_t, km_t; typedef u16 ci_t;
#define CB BIT
#define KB BIT
#define ccount bcount
#else
typedef u16 km_t; typedef u8 ci_t;
static u64 CB(int k) { return 1ull << k; }
static u64 KB(int k) { return 1ull << k; }
static int ccount(u64 m) { return __builtin_popcountll(m); }
#endif
#ifdef VP_BIG
typedef u16 pm_t; typedef u8 cm_t;
enum { NG = 3, NRP = 1, NRS = 1, NRDY = 20, NPID = 16, SCAP = 140000, ICAP = 140000, OCAP = 65600, DCAP = 65536, NDG = 3, NRX = 4, NCONN = 3, NFD = 10, MAXPK = 6, NPUB = 1, NSUB = 1, MAXC = 2 };
#elif defined(VP_SCALE)
typedef u64 pm_t; typedef u16 cm_t;
enum { SCAP = 1200, ICAP = 600, OCAP = 600, DCAP = 64, NDG = 26, NRX = 24, NCONN = 14, NFD = 32, MAXPK = 24, NPUB = 8, NSUB = 8, MAXC = 10, NRDY = 50, NPID = 48, NG = 8, NRP = 1, NRS = 1 };
#elif defined(VP_HUGE)
typedef u8 cm_t;
enum { SCAP = 8000, ICAP = 9000, OCAP = 9000, DCAP = 64, NDG = 302, NRX = 302, NCONN = 4, NFD = 12, MAXPK = 300, NPUB = 2, NSUB = 2, MAXC = 2, NRDY = 302, NPID = 300, NG = 1, NRP = 1, NRS = 1 };
#elif defined(VP_MANY)
typedef u16 pm_t;
enum { SCAP = 100, ICAP = 96, OCAP = 96, DCAP = 64, NDG = 4, NRX = 270, NCONN = 268, NFD = 280, MAXPK = 4, NPUB = 266, NSUB = 4, MAXC = 266, NRDY = 300, NPID = 4, NG = 266, NRP = 1, NRS = 1 };
#else
typedef u16 pm_t; typedef u8 cm_t;
enum { NG = 3, NRP = 3, NRS = 3, NRDY = 20, NPID = 16, SCAP = 384, ICAP = 224, OCAP = 96, DCAP = 64, NDG = 10, NRX = 5, NCONN = 7, NFD = 20, MAXPK = 10, NPUB = 3, NSUB = 3, MAXC = 4 };
#endif
enum { ANNTAG = 0x4000 };   // mark of a payload handed in as an announcement
enum { NOPUB = NG > 99 ? 9999 : 99 };
enum { BUFCAP = RMC_MAX_PACKET - 1, HDR = 20 };
enum { FD_FREE = 0, FD_MCAST_TX, FD_MCAST_RX, FD_LISTEN, FD_TCP, FD_UDP0, FD_TCP0 };
static u32 PUB_NODES[8] = { 0x11aa2201, 0xfedcba02, 0x00000003, 0x80000004, 5, 0x66666606, 0x77000007, 0x88 };
static u32 PUB_NODE(int p) { return p < 8 ? PUB_NODES[p] : 0x1000000u * (p & 15) + p; }
static const u32 SUB_NODE[8] = { 0x55000001, 0x55000002, 0x55000003, 0x55000004, 0x55000005, 0x55000006, 0x55000007, 0x55000008 };
static const u64 UD_PUB = 0xAB00000000000100ull, UD_SUB = 0xCD00000000000200ull;

struct Fd { ci_t owner, conn; u8 kind, side, reg, mask, armed, nonblock; u16 idx, port; u32 ip, ifip; u8 member, listening, bound, junk, reuse, mif, ttl, lat; };
struct Stream { u32 len; u8 fin; u8 d[SCAP]; };
struct Conn { ci_t cli, srv; u8 st, cfake, sfake, copen, sopen, acc, rst, cwr_shut, err; ci_t seq; u16 cfd, sfd, cport, dport; u32 cip, dip; Stream c2s, s2c; };
struct RxEnt { u8 type; ci_t src; u16 x; };  // type 1 stored datagram x, 2 fake data rel x, 3 fake announce variant x, 4 raw variant
struct Dg { u8 used; ci_t src; u16 len; u8 d[DCAP]; };

struct MPkt { u8 st; cm_t own, trk; u16 len; u32 off; i64 ts; };    // st 1 queued 2 sent 3 released
struct MAnn { u64 hash; u16 len; u8 used, opt; u32 pad; };
struct MPC {                                   // publisher's view of one connection slot
    ci_t conn; u8 st, veto, bad; ix_t nrq, rq[MAXPK]; u32 rpos, obytes, pin; u8 in[ICAP];
};
struct PubM {
    rmc_pub_context_t* ctx; u8 inited, active, susp, annseq, npend, ud, acts; ix_t npk; cm_t loose, used, reused; u32 sthr, rthr, ann_int; i64 ann_next;
    MPkt pk[MAXPK]; MAnn ann[3]; MPC c[MAXC];
};
struct MSess {                                 // subscriber's view of one connection slot
    ci_t conn, src; u8 st, bad, wild, hasbase; ix_t base, nd; pm_t got, apend, tcpgot; i64 ats[NPID];
    u32 pin, pout; u8 in[ICAP], out[OCAP];
};
struct MRdy { ci_t src, slot; ix_t rel; };
struct SubM { rmc_sub_context_t* ctx; u8 inited, active, ctlseq, loose, kept, annseen, ud, acts, p0[4]; ix_t nr, nrx; cm_t used, reused; pm_t early[NG]; MRdy r[NRDY]; MSess s[MAXC]; RxEnt rx[NRX]; pm_t net, deliv[NG], first[NG]; };

struct CtlX { u64 hash; u32 ip; u16 port, len; };
struct AddrX { u32 ip; u16 port; u8 opt, hit; };
struct Tx {   // per API call, cleared afterwards
    pm_t expfree, gotfree, optfree; km_t mayclose, mustclose; u8 nctl, gotctl, nexpconn, ngotconn, nexpdisc, faulted, grew, rdycb, shutdown, nconnfd;
    CtlX ctl[8]; AddrX conn[4], disc[MAXC + 1];
    u8 ann_exp, ann_opt, ann_got, conn_exp, conn_got, compl_exp, compl_got, annapi_exp, annapi_got, relcount; u64 ann_hash; u32 ann_ip, ann_node, conn_ip, compl_ip, compl_node; u16 ann_port, ann_len, conn_port, compl_port; u8 expann, gotann, complopt, pad1;
};
struct Flt { u8 kind, skip; u16 err; };
enum { F_NONE, F_SENDMSG, F_READV, F_WRITEV, F_ACCEPT, F_SOCKET, F_SETSOCKOPT, F_CONNECT, F_RECVFROM, F_GETSOCKOPT, F_FCNTL, F_BIND, F_LISTEN, F_GETSOCKNAME };

struct World {
    i64 now; Fd fd[NFD]; Conn conn[NCONN]; Dg dg[NDG]; PubM P[NRP]; SubM S[NRS];
    // budgets used
    ix_t b_queue[NPUB], b_gdata, b_gtcp; ci_t b_conn[NSUB]; u8 b_tick, b_tick2, b_dup, b_drop, b_ack, b_ctl, b_close, b_fault, b_ann, b_gann, b_misc, b_junk, b_spur, b_stall, b_poll, b_cb;
    u8 in_api; ci_t conn_seq, cur; u8 probing, stalled_udp, sigpipe_ign, preconn; pm_t fakesent[NPUB]; u32 rlim, wlim; Flt flt; u8 fscript[8];
    Tx t; Heap heap;
};
#define W (*(World*)ARENA_BASE)

struct Cfg {
    const char* name = ""; int rp = 0, fp = 0, rs = 0, fs = 0;   // real/fake publishers, real/fake subscribers
    int maxc_pub = 2, maxc_sub = 2; bool oneshot = false; bool pre = true; int presubs = -1;
    int queue = 0; std::vector<int> lens{3}; int tick = 0, tick2 = 0; int tick2us = 20000; bool drop = false; int ndrop = 99, dup = 0; bool reorder = true;
    int ack = 0; std::vector<std::pair<u64, u64>> acks; int ctl = 0; std::vector<int> ctllens{2}; int close = 0; int fault = 0; std::vector<Flt> faults;
    std::vector<u32> rlim, wlim; u32 tcpcap = SCAP; bool stall = false; int conns = 1; bool veto = false;
    u32 ann = 0; int nann = 0; std::vector<int> annlens{0}; bool anncb = false; bool annveto = false; u32 sthr = 0, rthr = 0;
    int gdata = 0, gtcp = 0, gann = 0; u64 pid0[8] = {1, 1, 1, 1, 1, 1, 1, 1}; int gn = 4; std::vector<int> glen{3}; int dispmode = 0; bool batch = false;
    int heapmode = 0, setud = 0, nullop = 0, nopoll = 0, reent = 0, offn = 1, log = 0; u32 mif = 0; i64 t0 = 1000000; bool sameip = false, port0 = false; bool listen_any = true; bool nocb = false; bool defalloc = false; bool syn = false; bool keep = false;
    bool appclose = false, peerclose = false, rst = false; int spur = 0, stale = 0; bool ctladdr = true; bool conn_refuse = false, node0 = false, conn0 = false; bool badq = false; bool goodorder = true;
    int probe = 0; bool del = true; bool setann = false; bool settle_goal = true; bool partialack = false; bool nodrain = false; int junk = 0; bool sblock = false;
    int gperm = 0;
};
static Cfg C;
static int npub() { return C.rp + C.fp; }
static int nsub() { return C.rs + C.fs; }
static bool rpub(int p) { return p < C.rp; }
static bool rsub(int s) { return s < C.rs; }
static u32 pub_ip(int p) { return C.sameip ? 0x0a000001 : 0x0a000001 + p * 0x100; }
static u16 pub_port(int p) { return 5000 + p * 3; }
static u32 sub_ip(int s) { return 0xc0a80105 + s * 0x10000; }
static const u32 GROUP_IP = 0xe0010203; static const u16 GROUP_PORT = 4723;

static u8 pat(int src, int rel, u32 i) { u32 x = (src + 1) * 2654435761u ^ (rel + 1) * 40503u ^ i * 2246822519u; x ^= x >> 15; x *= 0x85ebca6b; x ^= x >> 13; u8 r = x; return i == 0 && r == 0xEE ? 0x11 : r; }
static u8 cpat(int s, int id, u32 i) { return pat(s + 7, id + 50, i); }
static u8 apat(int p, int id, u32 i) { return pat(p + 17, id + 90, i); }
static int gen_len(int rel) { return C.glen[rel % C.glen.size()]; }
static void put64(u8* d, u64 v) { rawcpy(d, &v, 8); }
static void put32(u8* d, u32 v) { rawcpy(d, &v, 4); }
static void put16(u8* d, u16 v) { rawcpy(d, &v, 2); }
static u64 get64(const u8* d) { u64 v; rawcpy(&v, d, 8); return v; }
static u32 get32(const u8* d) { u32 v; rawcpy(&v, d, 4); return v; }
static u16 get16(const u8* d) { u16 v; rawcpy(&v, d, 2); return v; }
static u32 mk_hdr(u8* d, u64 pid, u32 node, u16 len, u32 ip, u16 port) { put64(d, pid); put32(d + 8, node); put16(d + 12, len); put32(d + 14, ip); put16(d + 18, port); return HDR; }
static u32 hdr_ip(int p) { return C.listen_any ? 0 : pub_ip(p); }
