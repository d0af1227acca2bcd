// Model checker for the publisher/subscriber code: explored actions, bounds, the
// settling phase that decides eventual properties, and the command line.
#include "app.hpp"
#include <functional>
#include <set>
#include "comp.hpp"
#include "rmc_log.h"
extern "C" { extern FILE* _rmc_log_file; extern int _rmc_log_use_color; }

static Heap* world_heap() { return &W.heap; }
enum { A_QUEUE = 1, A_EV, A_TICK, A_PTO, A_STO, A_CLOSE, A_FCONN, A_FACK, A_FCTL, A_FCLOSE, A_FDRAIN, A_GDATA, A_GTCP, A_GANN, A_GRES,
       A_DELIV, A_DROP, A_DUP, A_DISP, A_CTL, A_ANNINT, A_SPUR, A_STALL, A_SYN, A_LIFE, A_RAWD, A_RAWS, A_JUNK, A_THR, A_UD, A_POLL };
static const char* ANAME[] = { "", "queue", "event", "tick", "pub-timeout", "sub-timeout", "app-close", "fake-sub-connect", "fake-sub-ack", "fake-sub-control",
    "peer-close", "fake-drain", "fake-pub-data", "fake-pub-tcp", "fake-pub-announce", "fake-pub-connect-result", "deliver", "drop", "duplicate", "dispatch",
    "control-message", "announce-interval", "bad-index-calls", "udp-stall-toggle", "syn-result", "lifecycle", "raw-datagram", "raw-stream", "loopback-junk", "throttling", "set-user-data", "poll" };
static std::vector<std::vector<u8>> g_rawst;
static std::vector<int> g_rawsel;          // only these of the byte strings in g_rawst
static bool g_eager = false, g_lenfix = false, g_early = true;
static int g_rawd = 0, g_raws = 0, g_life = 0, g_annset = 0, g_evread = 1, g_rawbig = 0;
static std::vector<int> g_qvar{0}, g_evorder;
static std::vector<int> g_seq, g_tseq;   // the packets the simulated publisher sends, in this order
static int g_hostile = 0, g_keepmode = 0, g_thr = 0, g_ackmode = 1, g_mixed = 0, g_multi = 1, g_burst = 1, g_gburst = 1, g_gtburst = 1;

static int N_real() { return 0; }
static bool is_real(int n) { return n < NPUB ? n < C.rp && W.P[n].inited : n - NPUB < C.rs && W.S[n - NPUB].inited; }
static i64 min_deadline() { i64 r = -1; for (int p = 0; p < C.rp; ++p) if (W.P[p].inited) { i64 d = p_next(p); if (d >= 0 && (r < 0 || d < r)) r = d; } for (int s = 0; s < C.rs; ++s) if (W.S[s].inited) { i64 d = s_next(s); if (d >= 0 && (r < 0 || d < r)) r = d; } return r; }
static i64 next_deadline_after_now() { i64 r = -1; auto f = [&](i64 d) { if (d > W.now && (r < 0 || d < r)) r = d; };
    for (int p = 0; p < C.rp; ++p) if (W.P[p].inited) { PubM& P = W.P[p]; if (P.ann_next) f(P.ann_next); for (int k = 0; k < P.npk; ++k) if (P.pk[k].st == 2) f(P.pk[k].ts + RESEND_US); }
    for (int s = 0; s < C.rs; ++s) if (W.S[s].inited) for (auto& m : W.S[s].s) if (m.st == 2) for (int i = 0; i < NPID; ++i) if (m.apend >> i & 1) f(m.ats[i] + ACK_US);
    return r; }

static void drain_fake() { for (auto& c : W.conn) if (c.st == 3) { if (c.cfake && c.s2c.len) stream_pop(&c.s2c, c.s2c.len, 0); if (c.sfake && c.c2s.len) stream_pop(&c.c2s, c.c2s.len, 0); } }
static void disp_all() { if (C.dispmode == 1) for (int s = 0; s < C.rs; ++s) for (int g = 0; g < NRDY + 10 && W.S[s].inited && W.S[s].nr && !g_pruned; ++g) api_dispatch(s, C.keep); }
static void do_ev(int node, int fd, int bits) {
    Fd& f = W.fd[fd]; int idx = f.idx; u8 kind = f.kind; ci_t conn = f.conn;
    if (C.oneshot && !f.lat) f.armed = 0;
    f.lat &= ~bits;
    auto call = [&](bool wr) { if (node < NPUB) api_pub_rw(node, idx, wr); else api_sub_rw(node - NPUB, idx, wr); };
    auto same = [&]() { return f.kind == kind && f.owner == node && f.reg && f.idx == idx && f.conn == conn; };
    bool stream = kind == FD_TCP && W.conn[conn].st >= 3 && !W.conn[conn].rst; u32 had = stream ? inbound(&f)->len : 0, flt0 = W.b_fault;
    auto pending = [&]() { int n = 0; for (auto& c : W.conn) n += c.st == 3 && !c.sfake && c.srv == node && !c.acc && c.sopen; return n; };
    int waiting = kind == FD_LISTEN ? pending() : 0;
    if (bits & RMC_POLLREAD) call(false);
    if (waiting && !g_pruned && same() && !W.flt.kind && W.b_fault == flt0 && !W.t.faulted && pending() == waiting)
        note("P12,P15", "publisher %d is told of a new connection, leaves it pending and keeps asking: it will be woken for ever", node);
    if ((bits & RMC_POLLREAD) && had && !g_pruned && same() && (f.mask & RMC_POLLREAD) && !W.flt.kind && W.b_fault == flt0 && !W.t.faulted && inbound(&f)->len == had)
        note(g_hostile ? "P12,P14,P17" : "P12,P14", "%s %d was told that data can be read, reads nothing and keeps asking: it will be woken for ever", node < NPUB ? "publisher" : "subscriber", node < NPUB ? node : node - NPUB);
    if ((bits & RMC_POLLWRITE) && !g_pruned && same()) call(true);
    if (!g_pruned) check_armed();
    disp_all();
}
static int ev_bits(int fd) { Fd& f = W.fd[fd]; if (f.kind && f.reg && f.lat && is_real(f.owner)) return f.lat; if (!f.kind || !f.reg || !is_real(f.owner) || (C.oneshot && !f.armed)) return 0; return ready_bits(fd) & f.mask; }
static void pump() {
    for (int it = 0; it < 400; ++it) {
        bool any = false;
        for (int fd = 3; fd < NFD && !g_pruned; ++fd) { int b = ev_bits(fd); if (b) { do_ev(W.fd[fd].owner, fd, b); any = true; } }
        if (g_pruned || !any) return;
    }
    viol(g_hostile ? "P12,P17,P18,P02" : "P12,P18,P02", "the event loop keeps being woken without progress");
}
static void rx_push(int s, u8 type, u16 src, u16 x) { SubM& S = W.S[s]; if (S.nrx >= NRX) harness_bug("rx overflow"); RxEnt& r = S.rx[S.nrx++]; r.type = type; r.src = src; r.x = x; }
static bool sub_listening(int s) { for (auto& f : W.fd) if (f.kind == FD_MCAST_RX && f.owner == NPUB + s && f.bound) return true; return false; }
static void fake_connect(int s, int p, bool veto) {
    int ci = conn_new(); Conn& c = W.conn[ci]; c.st = 3; c.cfake = 1; c.copen = c.sopen = 1; c.cli = s; c.srv = p; c.cip = sub_ip(s); c.cport = 40000 + c.seq; c.dip = pub_ip(p); c.dport = pub_port(p); if (veto) c.err = 201;
}
static void quiesce() {
    for (int it = 0; it < 400 && !g_pruned; ++it) {
        pump(); drain_fake(); disp_all();
        bool any = false;
        for (int s = 0; s < C.rs && !g_pruned; ++s) for (int x = 0; x < NDG; ++x) if (W.S[s].net >> x & 1) { W.S[s].net &= ~PB(x); rx_push(s, 1, W.dg[x].src, x); any = true; pump(); if (g_pruned) return; }
        if (!any) { bool b = false; for (int fd = 3; fd < NFD; ++fd) if (ev_bits(fd)) b = true; if (!b) return; }
    }
}
static void endx() { rawset(&W.t, 0, sizeof(Tx)); W.rlim = W.wlim = 0; W.cur = 0; g_lib_call = ""; }

struct RmcModel : Model {
    void init() override {
        W.now = C.t0; H->mode = C.heapmode;
        if (g_life) { endx(); return; }
        for (int p = 0; p < C.rp; ++p) { api_pub_init(p); if (!g_pruned) api_pub_activate(p); if (g_pruned) return; }
        for (int s = 0; s < C.rs; ++s) { api_sub_init(s); if (!g_pruned) api_sub_activate(s); if (g_pruned) return; }
        if (C.pre) {
            int ns = C.presubs < 0 ? 9999 : C.presubs;
            bool acb = C.anncb, av = C.annveto; C.annveto = false; 
            for (int p = 0; p < C.rp && C.rs && !g_pruned; ++p) {
                u32 one = 1000; api_set_announce(p, one); W.now += one; api_pub_timeout(p); pump();
                for (int s = ns; s < C.rs; ++s) for (int x = 0; x < NDG; ++x) if (W.S[s].net >> x & 1) { W.S[s].net &= ~PB(x); dg_release(x); }
                for (int r = 0; r < 3 && !g_pruned; ++r) { for (auto& c : W.conn) if (c.st == 1) c.st = 3; quiesce(); }
                if (!g_pruned) api_set_announce(p, 0);
            }
            C.anncb = acb; C.annveto = av;
            for (int p = 0; p < C.rp; ++p) for (int s = C.rs; s < nsub() && s < ns && !g_pruned; ++s) { for (int q = 0; q < g_multi && !g_pruned; ++q) { fake_connect(s, p, false); pump(); W.b_conn[s]++; } }
            for (int g = C.rp; g < npub() && C.rs && !g_pruned; ++g) for (int s = 0; s < C.rs && s < ns; ++s) {
                rx_push(s, 3, g, 0); bool v = C.annveto; C.annveto = false; pump(); C.annveto = v;
                for (auto& c : W.conn) if (c.st == 1) c.st = 3;
                pump();
            }
            W.preconn = 1;
            for (auto& b : W.b_conn) b = 0;
        }
        if (C.ann) for (int p = 0; p < C.rp && !g_pruned; ++p) api_set_announce(p, C.ann);
        for (int s = 0; s < C.rs; ++s) W.S[s].annseen = 0;
        if (g_pruned && g_verbose) fprintf(stderr, "init pruned\n");
        endx();
    }
    void enabled(std::vector<Act>& v) override {
        auto add = [&](int k, int a = 0, int b = 0, int c = 0, u32 d = 0) { v.push_back(Act{(u8)k, (decltype(Act::a))a, (decltype(Act::b))b, (decltype(Act::c))c, d}); };
        auto addf = [&](int k, int a, int b, int c, u32 d, std::initializer_list<int> kinds) {
            add(k, a, b, c, d);
            if (W.b_fault < C.fault) for (u32 i = 0; i < C.faults.size(); ++i) for (int q : kinds) if (C.faults[i].kind == q) add(k, a, b, c, d | (i + 1) << 24);
        };
        if (g_life) {
            for (int n = 0; n < NPUB + NSUB; ++n) {
                bool pub = n < NPUB; if (pub ? n >= C.rp : n - NPUB >= C.rs) continue;
                bool in = pub ? W.P[n].inited : W.S[n - NPUB].inited, ac = pub ? W.P[n].active : W.S[n - NPUB].active;
                if (W.b_misc >= g_life) continue;
                if (!in) { add(A_LIFE, n, 0); if (W.b_spur < 1) for (int v = 0; v < 3; ++v) add(A_LIFE, n, 4, v); continue; }
                addf(A_LIFE, n, 1, 0, 0, {F_SOCKET, F_SETSOCKOPT, F_BIND, F_LISTEN, F_GETSOCKNAME});
                add(A_LIFE, n, 2); add(A_LIFE, n, 3);
            }
        }
        for (int p = 0; p < C.rp; ++p) {
            PubM& P = W.P[p]; if (!P.inited) continue;
            bool act = P.active || (g_life && W.b_queue[p] < C.queue);
            if (act && W.b_queue[p] < C.queue && P.npk < MAXPK) for (int qv : g_qvar) { if (qv == 3 && p_annq(p) >= 2) continue;
                if (qv == 1 || qv == 2) { if (W.b_spur < 3) add(A_QUEUE, p, 0, qv); continue; }
                for (u32 i = 0; i < (g_lenfix ? 1 : C.lens.size()); ++i) add(A_QUEUE, p, g_lenfix ? P.npk % C.lens.size() : i, qv); }
            if (P.active && (p_unacked(p) || P.ann_next)) { i64 d = p_next(p); bool due = (d >= 0 && d <= W.now); if ((due || g_early) && (p_annq(p) < 3)) if (!(P.ann_next && P.ann_next <= W.now && W.b_ann >= C.nann && C.nann)) add(A_PTO, p); }
            if (C.appclose && W.b_close < C.close) for (int i = 0; i < C.maxc_pub; ++i) if (P.c[i].st) add(A_CLOSE, p, i);
            if (g_annset && W.b_misc < g_annset) for (u32 x : {0u, C.ann ? C.ann : 30000u, 70000u}) add(A_ANNINT, p, 0, 0, x);
            if (C.setud && W.b_misc < C.setud) add(A_UD, p);
            if (g_thr && W.b_misc < g_thr) { add(A_THR, p, 2, 1); add(A_THR, p, 0, 0); }
            if (C.junk && W.b_junk < C.junk) for (int i = 0; i < NFD; ++i) if (W.fd[i].kind == FD_MCAST_TX && W.fd[i].owner == p && !W.fd[i].junk) add(A_JUNK, p, i);
        }
        for (int s = 0; s < C.rs; ++s) { if (W.S[s].inited && C.setud && W.b_misc < C.setud) add(A_UD, NPUB + s); if (C.setud && W.b_misc < C.setud) add(A_UD, NPUB + s);
            SubM& S = W.S[s]; if (!S.inited) continue;
            bool ap = false; for (auto& m : S.s) ap |= (bool)m.apend;
            i64 d = s_next(s);
            if (ap && ((d >= 0 && d <= W.now) || g_early)) add(A_STO, s);
            if (S.nr && C.dispmode == 0) { if (g_keepmode != 2) add(A_DISP, s, 0); if (g_keepmode) add(A_DISP, s, 1); }
            if (C.ctl && W.b_ctl < C.ctl && S.active) for (int p = 0; p < npub(); ++p) { int sl = s_by_addr(s, pub_ip(p), pub_port(p)); if (sl < 0 && W.b_spur >= 1) continue; for (u32 i = 0; i < C.ctllens.size(); ++i) { add(A_CTL, s, p, i, 0); if (C.ctladdr) add(A_CTL, s, p, i, 1); } }
            if (C.appclose && W.b_close < C.close) for (int i = 0; i < C.maxc_sub; ++i) if (S.s[i].st) add(A_CLOSE, NPUB + s, i);
            for (int x = 0; x < NDG; ++x) if (S.net >> x & 1) {
                if (S.nrx < NRX - 1) add(A_DELIV, s, x);
                if (C.drop && W.b_drop < C.ndrop) add(A_DROP, s, x);
                if (W.b_dup < C.dup && S.nrx < NRX - 1) add(A_DUP, s, x);
                if (!C.reorder) break;
            }
            if (S.active && sub_listening(s) && (C.batch ? S.nrx < 3 : S.nrx == 0)) {
                for (int g = C.rp; g < npub(); ++g) {
                    if (W.b_gdata < C.gdata) for (int r = 0; r < C.gn; ++r) { if (!g_seq.empty() && r != g_seq[W.b_gdata % g_seq.size()]) continue; if (g_mixed && r > plast(W.fakesent[g])) break; add(A_GDATA, s, g, r); }
                    if (W.b_gann < C.gann) for (u32 i = 0; i < C.annlens.size(); ++i) add(A_GANN, s, g, i);
                }
                if (W.b_junk < g_rawd) for (u32 i = 0; i < g_raw.size(); ++i) add(A_RAWD, s, C.rp, 0, i);
            }
        }
        for (int i = 0; i < NCONN; ++i) {
            Conn& c = W.conn[i]; if (!c.st) continue;
            if (c.st == 1 && c.sfake) { add(A_GRES, i, 1); if (C.conn_refuse) add(A_GRES, i, 0); }
            if (c.st == 1 && !c.sfake) add(A_SYN, i);
            if (c.st != 3) continue;
            int up = c.cfake ? (c.acc && c.sopen ? 1 : 0) : 0;
            if (c.cfake && c.copen) {
                int p = c.srv; PubM& P = W.P[p];
                if (up && W.b_ack < C.ack && c.c2s.len + 17 < 120) {
                    int sent = 0; for (int k = 0; k < P.npk; ++k) if (P.pk[k].st >= 2) sent = k + 1;
                    if (g_ackmode & 1) for (int k = 1; k <= sent; ++k) add(A_FACK, i, 1, k, k);
                    if ((g_ackmode & 2) && sent > 1) add(A_FACK, i, 1, 1, sent);
                    for (u32 x = 0; x < C.acks.size(); ++x) add(A_FACK, i, 2, 0, x);
                }
                if (up && W.b_ctl < C.ctl) for (u32 x = 0; x < C.ctllens.size(); ++x) if ((int)c.c2s.len + 3 + C.ctllens[x] < (int)C.tcpcap) add(A_FCTL, i, x);
                if (C.peerclose && W.b_close < C.close) { add(A_FCLOSE, i, 0); if (C.rst) add(A_FCLOSE, i, 1); }
                if (up && W.b_junk < g_raws) for (u32 x = 0; x < g_rawst.size(); ++x) if (c.c2s.len + g_rawst[x].size() < SCAP) add(A_RAWS, i, 0, 0, x);
                if (C.stall && c.s2c.len) add(A_FDRAIN, i);
            }
            if (c.sfake && c.sopen && !c.cfake) {
                int s = c.cli; int sl = s_by_conn(s, i);
                if (W.b_gtcp < C.gtcp && sl >= 0 && W.S[s].s[sl].src < NG && c.s2c.len < 150) for (int r = 0; r < C.gn; ++r) { if (!g_tseq.empty() && r != g_tseq[W.b_gtcp % g_tseq.size()]) continue; int g = W.S[s].s[sl].src; if (g_mixed && r > plast(W.fakesent[g])) break; add(A_GTCP, i, r); }
                if (C.peerclose && W.b_close < C.close) { add(A_FCLOSE, i, 0); if (C.rst) add(A_FCLOSE, i, 1); }
                if (W.b_junk < g_raws) for (u32 x = 0; x < g_rawst.size(); ++x) if (c.s2c.len + g_rawst[x].size() < SCAP) add(A_RAWS, i, 1, 0, x);
                if (C.stall && c.c2s.len) add(A_FDRAIN, i);
            }
        }
        for (int s = C.rs; s < nsub(); ++s) for (int p = 0; p < C.rp; ++p) if (W.P[p].active && W.b_conn[s] < C.conns) {
            int have = 0; for (auto& c : W.conn) have += c.st == 3 && c.cfake && c.cli == s && c.copen && c.srv == p;
            if (have >= g_multi) continue;
            add(A_FCONN, s, p, 0); if (C.veto) add(A_FCONN, s, p, 1);
        }
        // events that one poll() call reported together are handled one after the other, with other calls in between
        bool held = false; int nev = 0; for (auto& f : W.fd) held |= f.lat != 0;
        if (!g_eager || 1) for (int fd = 3; fd < NFD; ++fd) {
            Fd& f = W.fd[fd]; int b = held ? f.lat : f.kind && f.reg && is_real(f.owner) && (!C.oneshot || f.armed) ? ready_bits(fd) & f.mask : 0;
            if (!b) continue;
            ++nev;
            if (g_eager) continue;
            u32 nr = f.kind == FD_TCP && (b & 1) ? C.rlim.size() + 1 : 1, nw = f.kind == FD_TCP && (b & 2) ? C.wlim.size() + 1 : 1;
            if (f.kind == FD_TCP && W.conn[f.conn].st != 3) nr = nw = 1;
            if (C.oneshot) { for (u32 r = 0; r < nr; ++r) for (u32 w = 0; w < nw; ++w) addf(A_EV, f.owner, fd, b, r | w << 8, {F_READV, F_WRITEV, F_SENDMSG, F_RECVFROM, F_ACCEPT, F_GETSOCKOPT, F_SETSOCKOPT, F_SOCKET, F_CONNECT, F_FCNTL}); }
            else {
                if (b & 1) for (u32 r = 0; r < nr; ++r) addf(A_EV, f.owner, fd, 1, r, {F_READV, F_RECVFROM, F_ACCEPT, F_SETSOCKOPT, F_SOCKET, F_CONNECT, F_FCNTL});
                if (b & 2) for (u32 w = 0; w < nw; ++w) addf(A_EV, f.owner, fd, 2, w << 8, {F_WRITEV, F_SENDMSG, F_GETSOCKOPT, F_SETSOCKOPT});
            }
        }
        if (W.b_tick < C.tick) { i64 d = next_deadline_after_now(); if (d > W.now) add(A_TICK, 0); }
        if (W.b_tick2 < C.tick2) { add(A_TICK, 1); i64 d = next_deadline_after_now(); if (d > W.now + 1) add(A_TICK, 2); }
        if (C.sblock && W.b_stall < 2) add(A_STALL);
        if (C.stale && W.b_poll < C.stale && !held && nev) add(A_POLL);
        if (C.spur && W.b_spur < C.spur) for (int n = 0; n < NPUB + NSUB; ++n) if (is_real(n)) add(A_SPUR, n);
    }
    void spur(int n) {
        u8 op; auto bad = [&](const char* what, int r) { if (!r) viol("P16,P12,P15", "%s for an index without a connection reports success", what); };
        begin_api(n, "calls with indices that have no connection");
        for (int idx : {0, 1, 2, 3, 9, 0x7FFF}) {
            if (n < NPUB) { PubM& P = W.P[n]; if (idx < MAXC && P.c[idx].st) continue;
                bad("rmc_pub_read", rmc_pub_read(P.ctx, idx, &op)); bad("rmc_pub_write", rmc_pub_write(P.ctx, idx, &op)); bad("rmc_pub_close_connection", rmc_pub_close_connection(P.ctx, idx)); }
            else { SubM& S = W.S[n - NPUB]; if (idx < MAXC && S.s[idx].st) continue;
                bad("rmc_sub_read", rmc_sub_read(S.ctx, idx, &op)); bad("rmc_sub_write", rmc_sub_write(S.ctx, idx, &op)); bad("rmc_sub_close_connection", rmc_sub_close_connection(S.ctx, idx)); }
            if (g_pruned) return;
        }
        if (n < NPUB) end_pub(n); else end_sub(n - NPUB);
    }
    void exec(const Act& a) override {
        u32 fi = a.d >> 24 & 0xff;
        if (fi && a.k != A_TICK && (a.k == A_EV || a.k == A_LIFE)) { W.flt = C.faults[fi - 1]; W.b_fault++; }
        switch (a.k) {
        case A_QUEUE: for (int q = 1; q < g_burst && !g_pruned && W.P[a.a].npk < MAXPK - 1; ++q) api_queue(a.a, C.lens[a.b], a.c); if (a.c == 1 || a.c == 2) W.b_spur++; else W.b_queue[a.a]++; api_queue(a.a, C.lens[a.b], a.c); break;
        case A_EV:
            { u32 r = a.d & 0xff, w = a.d >> 8 & 0xff; W.rlim = r ? C.rlim[r - 1] : 0; W.wlim = w ? C.wlim[w - 1] : 0; do_ev(a.a, a.b, a.c); break; }
        case A_TICK:
            if (a.a == 0) { W.b_tick++; W.now = next_deadline_after_now(); }
            else { W.b_tick2++; if (a.a == 1) W.now += C.tick2us; else W.now = next_deadline_after_now() - 1; }
            for (int p = 0; p < C.rp; ++p) if (W.P[p].inited) { begin_api(p, ""); end_pub(p); }
            for (int s = 0; s < C.rs && !g_pruned; ++s) if (W.S[s].inited) { begin_api(NPUB + s, ""); end_sub(s); }
            break;
        case A_PTO: if (W.P[a.a].ann_next && W.P[a.a].ann_next <= W.now) W.b_ann++; api_pub_timeout(a.a); break;
        case A_STO: api_sub_timeout(a.a); break;
        case A_CLOSE: W.b_close++; api_close(a.a, a.b); break;
        case A_FCONN: W.b_conn[a.a]++; fake_connect(a.a, a.b, a.c); break;
        case A_FACK: { W.b_ack++; u8 b[17]; b[0] = 2; u64 f = a.b == 1 ? a.c : C.acks[a.d].first, l = a.b == 1 ? a.d : C.acks[a.d].second; put64(b + 1, f); put64(b + 9, l); stream_push(&W.conn[a.a].c2s, b, 17); break; }
        case A_FCTL: { static u8 b[70000]; int l = C.ctllens[a.b]; b[0] = 3; put16(b + 1, l); for (int i = 0; i < l; ++i) b[3 + i] = cpat(W.conn[a.a].cli, W.b_ctl, i); W.b_ctl++; stream_push(&W.conn[a.a].c2s, b, 3 + l); break; }
        case A_FCLOSE: W.b_close++; end_close(a.a, W.conn[a.a].cfake ? 0 : 1, a.b); break;
        case A_FDRAIN: { Conn& c = W.conn[a.a]; Stream* s = c.cfake ? &c.s2c : &c.c2s; stream_pop(s, s->len, 0); break; }
        case A_GDATA:
            W.b_gdata++; W.fakesent[a.b] |= PB(a.c); rx_push(a.a, 2, a.b, a.c);
            for (int q = 1; q < g_gburst && W.b_gdata < C.gdata && !g_seq.empty(); ++q) { int r = g_seq[W.b_gdata++ % g_seq.size()]; W.fakesent[a.b] |= PB(r); rx_push(a.a, 2, a.b, r); }
            break;
        case A_GTCP: {
            Conn& c = W.conn[a.a]; int g = W.S[c.cli].s[s_by_conn(c.cli, a.a)].src; static u8 b[70000];
            for (int q = 0, rel = a.b; q < g_gtburst && W.b_gtcp < C.gtcp; ++q) {
                if (q) { if (g_tseq.empty()) break; rel = g_tseq[W.b_gtcp % g_tseq.size()]; }
                W.b_gtcp++; W.fakesent[g] |= PB(rel); int l = gen_len(rel); b[0] = 1; mk_hdr(b + 1, C.pid0[g & 7] + rel, PUB_NODE(g), l, hdr_ip(g), pub_port(g)); for (int i = 0; i < l; ++i) b[1 + HDR + i] = pat(g, rel, i);
                stream_push(&c.s2c, b, 1 + HDR + l);
            }
            break;
        }
        case A_GANN: W.b_gann++; rx_push(a.a, 3, a.b, a.c); break;
        case A_GRES: { Conn& c = W.conn[a.a]; if (a.b) c.st = 3; else { c.st = 2; c.err = ECONNREFUSED; c.sopen = 0; } break; }
        case A_SYN: W.conn[a.a].st = 3; break;
        case A_DELIV: W.S[a.a].net &= ~PB(a.b); rx_push(a.a, 1, W.dg[a.b].src, a.b); break;
        case A_DROP: W.b_drop++; W.S[a.a].net &= ~PB(a.b); dg_release(a.b); break;
        case A_DUP: W.b_dup++; W.dg[a.b].used++; rx_push(a.a, 1, W.dg[a.b].src, a.b); break;
        case A_DISP: api_dispatch(a.a, a.b); break;
        case A_CTL: W.b_ctl++; if (s_by_addr(a.a, pub_ip(a.b), pub_port(a.b)) < 0) W.b_spur++; api_ctl(a.a, a.b, C.ctllens[a.c], a.d); break;
        case A_ANNINT: W.b_misc++; api_set_announce(a.a, a.d); break;
        case A_THR: { W.b_misc++; begin_api(a.a, "rmc_pub_throttling"); int r = rmc_pub_throttling(W.P[a.a].ctx, a.b, a.c); if (r) viol("P09", "rmc_pub_throttling fails"); W.P[a.a].sthr = a.b; W.P[a.a].rthr = a.c; end_pub(a.a); break; }
        case A_UD: W.b_misc++; api_set_ud(a.a); break;
        case A_SPUR: W.b_spur++; spur(a.a); break;
        case A_STALL: W.b_stall++; W.stalled_udp ^= 1; break;
        case A_RAWD: W.b_junk++; rx_push(a.a, 4, a.b, a.d); break;
        case A_RAWS: { W.b_junk++; Conn& c = W.conn[a.a]; auto& r = g_rawst[a.d]; stream_push(a.b ? &c.s2c : &c.c2s, r.data(), r.size()); break; }
        case A_POLL: W.b_poll++; for (int i = 3; i < NFD; ++i) { int b = ev_bits(i); if (b) { W.fd[i].lat = b; if (C.oneshot) W.fd[i].armed = 0; } } break;
        case A_JUNK: W.b_junk++; W.fd[a.b].junk = 1; break;
        case A_LIFE: W.b_misc++;
            if (a.b == 0) { if (a.a < NPUB) api_pub_init(a.a); else api_sub_init(a.a - NPUB); }
            else if (a.b == 1) { if (a.a < NPUB) api_pub_activate(a.a); else api_sub_activate(a.a - NPUB); }
            else if (a.b == 2) api_deactivate(a.a); else if (a.b == 4) { W.b_spur++; api_bad_init(a.a, a.c); } else api_delete(a.a);
            break;
        }
        disp_all();
        if (g_eager && !g_pruned) { pump(); if (!C.stall) drain_fake(); }
        if (W.flt.kind) { rawset(&W.flt, 0, sizeof(Flt)); if (!g_pruned) COUNT("fault_not_reached"); g_pruned = true; }
        endx();
    }
    bool probe_always() override { return C.probe != 0; }
    void settle() {
        if (W.stalled_udp) W.stalled_udp = 0;
        for (auto& c : W.conn) if (c.st == 1) c.st = 3;
        for (int p = 0; p < C.rp && !g_pruned; ++p) if (W.P[p].inited && W.P[p].ann_int) api_set_announce(p, 0);
        int it = 0;
        for (; it < 80 && !g_pruned; ++it) {
            quiesce(); drain_fake();
            for (int s = 0; s < C.rs && !g_pruned; ++s) for (int g = 0; g < 40 && W.S[s].inited && W.S[s].nr && !g_pruned; ++g) api_dispatch(s, false);
            if (g_pruned) return;
            i64 d = min_deadline(); if (d < 0) break;
            if (d > W.now) W.now = d;
            for (int p = 0; p < C.rp && !g_pruned; ++p) if (W.P[p].active) api_pub_timeout(p);
            for (int s = 0; s < C.rs && !g_pruned; ++s) if (W.S[s].active) api_sub_timeout(s);
        }
        if (g_pruned) return;
        if (it >= 80) { viol("P02,P06,P07,P08", "timeouts stay due for ever although everything else is quiet"); return; }
        // quiet: everything sent must be accounted for
        for (int p = 0; p < C.rp; ++p) if (W.P[p].active) for (int k = 0; k < W.P[p].npk; ++k) if (W.P[p].pk[k].st != 3 && !W.P[p].loose) { W.cur = p; viol(C.rp > 1 || ccount(p_connmask(p)) > 1 ? "P04,P07,P02,P22,P25" : "P04,P07,P02,P22", "packet %d is still %s although the system is quiet", k + 1, W.P[p].pk[k].st == 1 ? "unsent" : "unreleased"); return; }
        for (int s = 0; s < C.rs; ++s) if (W.S[s].active && !W.S[s].loose) for (auto& m : W.S[s].s) if (m.st == 2 && (m.apend || m.pout)) { W.cur = NPUB + s; viol(C.rs > 1 || s_nsess(s) > 1 ? "P06,P02,P25" : "P06,P02", "acknowledgements or messages stay unsent although the system is quiet"); return; }
        if (g_hostile) for (int s = 0; s < C.rs && !g_pruned; ++s) if (W.S[s].active) {
            for (int g = 0; g < 60 && !g_pruned; ++g) { begin_api(NPUB + s, "dispatch"); bool r = sub_dispatch_one(s, false); W.in_api = 0; if (!r) break; }
            for (int i = 0; i < W.S[s].nr && !g_pruned; ++i) { MRdy& r = W.S[s].r[i]; if (r.slot < MAXC && W.S[s].s[r.slot].st && W.S[s].s[r.slot].src == r.src && !W.S[s].s[r.slot].wild) viol("P17,P25", "packet %d of well-behaved publisher %d is never delivered after hostile input elsewhere", r.rel, r.src); }
        }
        if (g_pruned) return;
        for (int p = 0; p < C.rp; ++p) for (int sl = 0; sl < MAXC; ++sl) {
            MPC& pc = W.P[p].c[sl]; if (!pc.st) continue; Conn& cn = W.conn[pc.conn]; if (cn.cfake || !cn.copen) continue;
            int s = cn.cli; int k = s_by_conn(s, pc.conn); if (k < 0) continue; MSess& m = W.S[s].s[k]; if (m.st != 2 || m.wild) continue;
            for (int q = 0; q < W.P[p].npk; ++q) {
                if (!(W.P[p].pk[q].trk >> sl & 1)) continue;
                COUNT("delivery_obligations");
                if (m.hasbase && q >= m.base && q < m.base + m.nd) continue;
                if (!m.hasbase || q < m.base) { known("P02", "KF1", "packet %d of publisher %d is never delivered to subscriber %d: a later packet reached it first and became the start of the session", q + 1, p, s); continue; }
                int miss = m.base + m.nd;
                if (!(W.P[p].pk[miss].trk >> sl & 1)) { known("P02", "KF2", "packet %d of publisher %d is never delivered to subscriber %d: the session started at a packet sent before the publisher knew the subscriber and packet %d is never resent", q + 1, p, s, miss + 1); continue; }
                W.cur = NPUB + s; viol("P02", "packet %d of publisher %d is never delivered to subscriber %d although the connection is up and everything is quiet", q + 1, p, s); return;
            }
        }
    }
    void terminal() override {
        W.probing = 1;
        if (!g_life && C.settle_goal) settle();
        if (g_pruned || !C.del) return;
        int var = g_path.size() % 3;
        for (int n = 0; n < NPUB + NSUB && !g_pruned; ++n) {
            if (!is_real(n)) continue;
            if (var == 1) { api_deactivate(n); if (!g_pruned) api_deactivate(n); }
            else if (var == 2) { api_deactivate(n); if (!g_pruned) { if (n < NPUB) api_pub_activate(n); else api_sub_activate(n - NPUB); } }
            if (!g_pruned) api_delete(n);
        }
        if (!g_pruned) check_leaks();
        COUNT("shutdowns");
    }
    std::string str(const Act& a) override { char b[120]; snprintf(b, sizeof b, "%s(%u,%u,%u,%u)", a.k < sizeof ANAME / sizeof *ANAME ? ANAME[a.k] : "?", a.a, a.b, a.c, a.d); return b; }
};

// ---------------------------------------------------------------- configuration
static std::vector<long long> nums(const std::string& s, char sep = ',') { std::vector<long long> r; size_t i = 0; while (i <= s.size() && !s.empty()) { size_t j = s.find(sep, i); if (j == std::string::npos) j = s.size(); r.push_back((long long)strtoull(s.substr(i, j - i).c_str(), 0, 0)); i = j + 1; } return r; }
static void build_raw(int level);
static std::string g_mode;
static void set_spec(const std::string& spec) {
    std::map<std::string, int*> im = { {"rp", &C.rp}, {"fp", &C.fp}, {"rs", &C.rs}, {"fs", &C.fs}, {"maxp", &C.maxc_pub}, {"maxs", &C.maxc_sub}, {"presubs", &C.presubs}, {"queue", &C.queue}, {"tick", &C.tick}, {"tick2", &C.tick2}, {"tick2us", &C.tick2us},
        {"ndrop", &C.ndrop}, {"dup", &C.dup}, {"ack", &C.ack}, {"ctl", &C.ctl}, {"close", &C.close}, {"fault", &C.fault}, {"conns", &C.conns}, {"nann", &C.nann}, {"gdata", &C.gdata}, {"gtcp", &C.gtcp}, {"gann", &C.gann}, {"gn", &C.gn}, {"dispmode", &C.dispmode},
        {"heapmode", &C.heapmode}, {"setud", &C.setud}, {"nullop", &C.nullop}, {"nopoll", &C.nopoll}, {"reent", &C.reent}, {"offn", &C.offn}, {"log", &C.log}, {"spur", &C.spur}, {"gburst", &g_gburst}, {"gtburst", &g_gtburst}, {"stale", &C.stale}, {"probe", &C.probe}, {"junk", &C.junk}, {"rawd", &g_rawd}, {"raws", &g_raws}, {"life", &g_life}, {"annset", &g_annset}, {"hostile", &g_hostile}, {"keepmode", &g_keepmode}, {"thr", &g_thr}, {"ackmode", &g_ackmode}, {"mixed", &g_mixed}, {"multi", &g_multi}, {"burst", &g_burst}, {"rawlevel", &g_rawbig} };
    std::map<std::string, bool*> bm = { {"oneshot", &C.oneshot}, {"pre", &C.pre}, {"drop", &C.drop}, {"reorder", &C.reorder}, {"stall", &C.stall}, {"veto", &C.veto}, {"anncb", &C.anncb}, {"annveto", &C.annveto}, {"batch", &C.batch}, {"port0", &C.port0}, {"sameip", &C.sameip},
        {"listenany", &C.listen_any}, {"nocb", &C.nocb}, {"defalloc", &C.defalloc}, {"syn", &C.syn}, {"keep", &C.keep}, {"appclose", &C.appclose}, {"peerclose", &C.peerclose}, {"rst", &C.rst}, {"ctladdr", &C.ctladdr}, {"refuse", &C.conn_refuse}, {"conn0", &C.conn0}, {"node0", &C.node0}, {"del", &C.del},
        {"settle", &C.settle_goal}, {"sblock", &C.sblock}, {"eager", &g_eager}, {"lenfix", &g_lenfix}, {"early", &g_early} };
    static const std::map<std::string, int> fk = { {"sendmsg", F_SENDMSG}, {"readv", F_READV}, {"writev", F_WRITEV}, {"accept", F_ACCEPT}, {"socket", F_SOCKET}, {"setsockopt", F_SETSOCKOPT}, {"connect", F_CONNECT}, {"recvfrom", F_RECVFROM}, {"getsockopt", F_GETSOCKOPT}, {"fcntl", F_FCNTL}, {"bind", F_BIND}, {"listen", F_LISTEN}, {"getsockname", F_GETSOCKNAME} };
    static const std::map<std::string, int> ek = { {"EAGAIN", EAGAIN}, {"EINTR", EINTR}, {"ENOBUFS", ENOBUFS}, {"ECONNRESET", ECONNRESET}, {"EPIPE", EPIPE}, {"EMFILE", EMFILE}, {"ENETUNREACH", ENETUNREACH}, {"ECONNABORTED", ECONNABORTED}, {"ENOMEM", ENOMEM}, {"EADDRINUSE", EADDRINUSE}, {"ENODEV", ENODEV}, {"EPERM", EPERM}, {"EINVAL", EINVAL}, {"ECONNREFUSED", ECONNREFUSED}, {"ETIMEDOUT", ETIMEDOUT}, {"EHOSTUNREACH", EHOSTUNREACH} };
    size_t i = 0;
    while (i < spec.size()) {
        size_t j = spec.find(' ', i); if (j == std::string::npos) j = spec.size();
        std::string t = spec.substr(i, j - i); i = j + 1; if (t.empty()) continue;
        size_t e = t.find('='); std::string k = t.substr(0, e), v = e == std::string::npos ? "1" : t.substr(e + 1); auto n = nums(v);
        auto ivec = [&](std::vector<int>& o) { o.clear(); for (auto x : n) o.push_back((int)x); };
        auto uvec = [&](std::vector<u32>& o) { o.clear(); for (auto x : n) o.push_back((u32)x); };
        if (im.count(k)) *im[k] = n[0]; else if (bm.count(k)) *bm[k] = n[0];
        else if (k == "lens") ivec(C.lens); else if (k == "ctllens") ivec(C.ctllens); else if (k == "annlens") ivec(C.annlens); else if (k == "glen") ivec(C.glen); else if (k == "gseq") ivec(g_seq); else if (k == "gseqn") { g_seq.clear(); C.gn = n[0]; int st = n.size() > 1 ? n[1] : 1; for (int x = 0; x < C.gn; ++x) g_seq.push_back((int)((u64)x * st % C.gn)); } else if (k == "gtseqn") { g_tseq.clear(); for (int x = n[0]; x <= n[1]; x += n[2]) g_tseq.push_back(x); } else if (k == "rawsel") ivec(g_rawsel); else if (k == "gtseq") ivec(g_tseq); else if (k == "qvar") ivec(g_qvar);
        else if (k == "rlim") uvec(C.rlim); else if (k == "wlim") uvec(C.wlim);
        else if (k == "tcpcap") C.tcpcap = n[0]; else if (k == "ann") C.ann = n[0]; else if (k == "mif") C.mif = n[0]; else if (k == "sthr") C.sthr = n[0]; else if (k == "rthr") C.rthr = n[0]; else if (k == "t0") C.t0 = n[0];
        else if (k == "pid0") for (int q = 0; q < 8; ++q) C.pid0[q] = n[q < (int)n.size() ? q : n.size() - 1];
        else if (k == "acks") { for (size_t q = 0; q + 1 < n.size(); q += 2) C.acks.push_back({(u64)n[q], (u64)n[q + 1]}); }
        else if (k == "faults") { size_t a = 0; while (a < v.size()) { size_t b = v.find(',', a); if (b == std::string::npos) b = v.size(); std::string f = v.substr(a, b - a); a = b + 1; size_t c = f.find(':'); size_t d = f.find(':', c + 1); std::string fn = f.substr(0, c), en = f.substr(c + 1, d == std::string::npos ? d : d - c - 1); if (!fk.count(fn) || !ek.count(en)) { fprintf(stderr, "bad fault %s\n", f.c_str()); exit(3); } C.faults.push_back(Flt{(u8)fk.at(fn), (u8)(d == std::string::npos ? 0 : atoi(f.c_str() + d + 1)), (u16)ek.at(en)}); } }
        else if (k == "name") {} else if (k == "mode") g_mode = v; else if (k == "n") g_cn = n[0]; else if (k == "depth") g_cdepth = n[0]; else if (k == "vals") g_cval = n[0]; else if (k == "window") g_cw = n[0]; else if (k == "base") g_cbase = n[0]; else if (k == "alt") g_cdt = n[0]; else { fprintf(stderr, "unknown configuration key %s\n", k.c_str()); exit(3); }
    }
    if (g_rawd || g_raws) build_raw(g_rawbig);
}
// Hostile inputs: every boundary of every length, number and address field, truncations and contradictory headers.
static void build_raw(int level) {
    int src = C.rp;    // claims to come from the first fake publisher
    auto hdr = [&](u64 pid, u32 node, u16 len, u32 ip, u16 port, int body) { std::vector<u8> v(HDR + body); mk_hdr(v.data(), pid, node, len, ip, port); for (int i = 0; i < body; ++i) v[HDR + i] = 0xEE ^ i; if (body) v[HDR] = 0xEE; return v; };
    auto D = [&](std::vector<u8> v) { g_raw.push_back(v); };
    u32 ip = hdr_ip(src); u16 port = pub_port(src); u32 node = PUB_NODE(src); u64 p0 = C.pid0[src & 7];
    auto good = hdr(p0, node, 3, ip, port, 3);
    if (g_rawd) {
        D({}); D({1}); { auto t = good; t.resize(19); D(t); } { auto t = good; t.resize(20); D(t); } { auto t = good; t.resize(22); D(t); }
        D(hdr(p0, node, 0xffff, ip, port, 3)); D(hdr(p0 + 1, node, RMC_MAX_PAYLOAD + 1, ip, port, std::min<int>(RMC_MAX_PAYLOAD + 1, DCAP)));
        D(hdr(p0, node, 2, ip, port, 30)); D(hdr(0, node, 0, ip, port, 0)); D(hdr(0, node, 0xffff, ip, port, 2));
        D(hdr(~0ull, node, 1, ip, port, 1)); D(hdr(p0 + 1000, node, 2, ip, port, 2)); D(hdr(1ull << 63, node, 0, ip, port, 0));
        D(hdr(p0, 0, 3, 0xffffffff, 0, 3)); D(hdr(p0, node, 3, ip, port + 1, 3));
        if (level) { for (int n = 2; n < 19; ++n) { auto t = good; t.resize(n); D(t); } for (u64 q : std::vector<u64>{1, p0 + 2, p0 + 3, ~0ull - 1, 1ull << 32}) D(hdr(q, node, 1, ip, port, 1)); for (u16 l : {1, 4, 255, 256, 0x7fff, 0x8000}) D(hdr(p0 + 2, node, l, ip, port, 3));
            D(std::vector<u8>(64, 0xff)); D(std::vector<u8>(40, 0)); }
    }
    if (g_raws) {
        auto S = [&](std::vector<u8> v) { g_rawst.push_back(v); };
        auto pk = [&](u64 pid, u16 len, int body) { auto v = hdr(pid, node, len, ip, port, body); v.insert(v.begin(), 1); return v; };
        auto ack = [&](u64 f, u64 l) { std::vector<u8> v(17); v[0] = 2; put64(&v[1], f); put64(&v[9], l); return v; };
        auto ctl = [&](u16 l, int body) { std::vector<u8> v(3 + body, 0xEE); v[0] = 3; put16(&v[1], l); return v; };
        S({0}); S({4}); S({0xff}); S({1}); S({2}); S({3});
        S(ack(0, ~0ull)); S(ack(1, ~0ull)); S(ack(~0ull, 0)); S(ack(5, 2)); S(ack(0, 0)); S(ack(1ull << 32, 1ull << 33));
        S(ctl(0, 0)); S(ctl(0xffff, 4)); S(ctl(BUFCAP - 2, 20)); S(ctl(BUFCAP - 3, 40));
        S(pk(p0, 0xffff, 3)); S(pk(p0 + 1, BUFCAP - HDR, 20)); S(pk(~0ull, 1, 1)); S(pk(0, 2, 2)); S(pk(p0 + 500, 0, 0)); S(pk(p0, 3, 3));
        if (level) { for (int b = 5; b < 256; b += 17) S({(u8)b}); for (int i = 0; i < 8; ++i) S(std::vector<u8>(7 + 13 * i, 0x01 + i % 3)); S(ack(p0, p0 + 3)); S(ack(2, 1)); S(pk(p0 + 2, 1, 1)); S(pk(p0 + 2, RMC_MAX_PAYLOAD, RMC_MAX_PAYLOAD)); S(pk(p0 + 1, 60, 60)); S(ctl(BUFCAP - 4, 60)); S(std::vector<u8>(BUFCAP, 3)); }
        if (!g_rawsel.empty()) { std::vector<std::vector<u8>> v; for (int i : g_rawsel) v.push_back(g_rawst.at(i)); g_rawst = v; }
    }
}
int main(int argc, char** argv) {
    std::string spec, rep; 
    double limit = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--spec") spec = nx(); else if (a == "--prop") g_prop = nx(); else if (a == "--replay") rep = nx(); else if (a == "--replay-out") g_replay_out = nx();
        else if (a == "--known") { for (char* t = strtok(nx(), ","); t; t = strtok(0, ",")) g_known.insert(t); }
        else if (a == "--max-states") g_max_states = atoll(nx()); else if (a == "--time") limit = atof(nx()); else if (a == "--auto") g_auto = atoll(nx()); else if (a == "--iddfs") g_iddfs = atoi(nx()); else if (a == "--maxdepth") g_idmax = atoi(nx()); else if (a == "-v") g_verbose = true;
    }
    g_harness = "rmcmc"; g_cfgname = spec; set_spec(spec);
    if (g_mode.empty()) arena_setup(sizeof(World), world_heap); else arena_setup(sizeof(CompWorld) + (g_mode == "circ" ? 2 * g_cn : 0), comp_heap);
    g_free_hook = cb_free_hook; g_past = past; g_actstr = g_actstr_; static RmcModel m; g_model = &m;
    if (g_mode == "circ") g_model = new CircModel; else if (g_mode == "list") g_model = new ListModel; else if (g_mode == "interval") g_model = new IntervalModel; else if (!g_mode.empty()) { fprintf(stderr, "unknown mode\n"); return 3; }
   
    if (C.log) { static cookie_io_functions_t io = { 0, [](void*, const char*, size_t n) -> ssize_t { errno = EBADMSG; return n; }, 0, 0 }; FILE* f = fopencookie(0, "w", io); setvbuf(f, 0, _IONBF, 0); _rmc_log_file = f; _rmc_log_use_color = C.log > 1; _rmc_log_level = RMC_LOG_LEVEL_DEBUG; }
    sig_setup(); snap_save(g_zero);
    double t0 = now_s(); if (limit > 0) g_deadline = t0 + limit;
    if (!rep.empty()) return replay(rep.c_str());
    explore();
    print_stats(t0);
    return 0;
}
