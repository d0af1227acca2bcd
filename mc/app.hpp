// Application layer: callbacks, API call wrappers and the comparison of everything
// observable with the reference models after each call.
#pragma once
#include "kernel.hpp"

#define UD(x) ({ user_data_t u__; u__.u64 = (x); u__; })
static int g_unacked_before;
static bool g_faultcut;

static int g_trunc = -1;  // a callback closed the connection in this slot while its stream was being read
static int g_kclosed;   // a callback of this call closed a connection
static int g_nest;   // > 0 while an application callback calls back into the library
static void begin_api(int node, const char* name) { if (g_nest) return; W.cur = node; rawset(&W.t, 0, sizeof(Tx)); g_lib_call = name; W.in_api = 1; errno = EAGAIN; g_rd_conn = -1; g_kclosed = 0; g_trunc = -1; if (node < NPUB) g_unacked_before = p_unacked(node); ++g_heartbeat; }
static void check_pub(int p);
static void check_sub(int s);
static void end_common(int node) {
    Tx& t = W.t;
    for (int i = 0; i < NCONN; ++i) if (t.mustclose >> i & 1) {
        Conn& c = W.conn[i]; bool open = c.st && (node < NPUB ? (c.sopen && c.srv == node && !c.sfake && c.acc) : (c.copen && c.cli == node - NPUB && !c.cfake));
        if (open) note("P16,P11,P17,P18", "connection that is lost (or refused) was not closed by %s", node < NPUB ? "publisher" : "subscriber");
    }
    for (int i = 0; i < NFD; ++i) { Fd& f = W.fd[i]; if (f.kind && f.owner == node && !f.reg && !(node < NPUB ? !W.P[node].active : !W.S[node - NPUB].active)) note("P12,P18,P24", "descriptor %d is open but not registered for polling", i); }
}
static void end_pub(int p) {
    if (g_nest) return;
    Tx& t = W.t; W.in_api = 0; if (g_pruned) return;
    pm_t miss = t.expfree & ~t.gotfree & ~t.optfree;
    if (miss) note("P04,P16,P24", "payload of packet %d is not released although nothing needs it any more", pfirst(miss) + 1);
    if (t.expann != t.gotann) note("P04,P10", "payload of an application announcement is not released after sending");
    if (t.gotctl != t.nctl) note("P13,P14,P26", "%u control messages complete but %u delivered to the callback", t.nctl, t.gotctl);
    if (t.ngotconn != t.nexpconn) note("P16,P15,P11", "%u subscriber connect callbacks instead of %u", t.ngotconn, t.nexpconn);
    for (int i = 0; i < t.nexpdisc; ++i) if (!(t.disc[i].hit & 1) && !t.disc[i].opt) note("P16", "no disconnect callback for subscriber %08x:%u", t.disc[i].ip, t.disc[i].port);
    if (t.annapi_got != t.annapi_exp) note("P10", "announce callback invoked %u times instead of %u", t.annapi_got, t.annapi_exp);
    end_common(p);
    if (g_pruned) return;
    check_pub(p);
}
static void end_sub(int s) {
    if (g_nest) return;
    Tx& t = W.t; W.in_api = 0; if (g_pruned) return;
    if (!(t.faulted == F_SOCKET || t.faulted == F_CONNECT)) m_sub_flush(s);
    if (g_trunc >= 0 && W.S[s].active && !W.S[s].loose) {   // packets behind the current one in what was read are void
        SubM& S = W.S[s]; int n = rmc_sub_get_dispatch_ready_count(S.ctx);
        while (S.nr > n) { if (S.r[S.nr - 1].slot != g_trunc) { note("P01,P23", "a packet of another publisher disappears with a closed connection"); break; } rawset(&S.r[--S.nr], 0, sizeof(MRdy)); }
    }
    if (t.compl_exp && !t.compl_got) note("P11", "subscription complete callback was not invoked");
    if (t.grew && !t.rdycb && !W.S[s].loose && !C.nocb) note("P02,P01,P25", "packets became ready but the packet-ready callback was not invoked");
    end_common(NPUB + s);
    if (g_pruned) return;
    check_sub(s);
}

// Application callbacks that use the library themselves (spec key reent=, a bit per callback).
enum { RE_CTL = 1, RE_FREE = 2, RE_CONN = 4, RE_DISC = 8, RE_COMPL = 16, RE_READY = 32, RE_ANN = 64, RE_KCTL = 128, RE_KRDY = 256, RE_KCOMPL = 512, RE_KANN = 1024, RE_OFFCTL = 2048, RE_OFFRDY = 4096, RE_OFFCOMPL = 8192, RE_KDISC = 16384, RE_KCONN = 32768, RE_KFREE = 65536, RE_OFFFREE = 131072, RE_KSFREE = 262144, RE_OFFSFREE = 524288 };   // RE_K*: the callback closes a connection; RE_OFF*: the offn-th callback deactivates its context
static void api_queue(int p, int len, int variant);
static void api_ctl(int s, int src, int len, int how);
static void reent_pub(int p, int bit) {
    if (!(C.reent & bit) || g_nest || g_pruned || W.t.shutdown || p >= NPUB || !W.P[p].active || W.b_queue[p] >= C.queue || W.P[p].npk >= 14) return;
    const char* sv = g_lib_call; g_nest = 1; W.b_queue[p]++; g_lib_call = "rmc_pub_queue_packet called from a callback";
    api_queue(p, C.lens[W.P[p].npk % C.lens.size()], 0);
    g_nest = 0; g_lib_call = sv; COUNT("reentrant_publishes");
}
static void api_close(int node, int slot);
static bool reent_close(int node, int bit, int slot) {
    if (!(C.reent & bit) || g_nest || g_pruned || W.t.shutdown || W.b_close >= C.close || slot < 0) return false;
    if (node >= NPUB && W.S[node - NPUB].s[slot].conn == g_rd_conn && g_rd_conn >= 0) g_trunc = slot;
    const char* sv = g_lib_call; g_nest = 1; W.b_close++; g_lib_call = "closing a connection from a callback";
    api_close(node, slot);
    g_nest = 0; g_lib_call = sv; g_kclosed = 1; COUNT("reentrant_closes"); return !g_pruned;
}
static void api_deactivate(int node);
static bool reent_off(int node, int bit) {
    if (!(C.reent & bit) || g_nest || g_pruned || W.t.shutdown || W.b_cb >= C.offn || ++W.b_cb < C.offn) return false;
    const char* sv = g_lib_call; g_nest = 1; g_lib_call = "deactivating a context from a callback";
    api_deactivate(node);
    g_nest = 0; g_lib_call = sv; g_kclosed = 1; COUNT("reentrant_deactivations"); return !g_pruned;
}
static void reent_sub(int s, int bit, int src) {
    if (!(C.reent & bit) || g_nest || g_pruned || W.t.shutdown || W.b_ctl >= C.ctl || src < 0) return;
    const char* sv = g_lib_call; g_nest = 1; int l = C.ctllens[W.b_ctl % C.ctllens.size()]; W.b_ctl++; g_lib_call = "rmc_sub_write_control_message called from a callback";
    api_ctl(s, src, l, 0);
    g_nest = 0; g_lib_call = sv; COUNT("reentrant_control_messages");
}

// ---------------------------------------------------------------- publisher callbacks
static int cur_pub(rmc_pub_context_t* c) { int p = W.cur; if (p >= NPUB || W.P[p].ctx != c) { note("P25,P12", "callback names a wrong publisher context"); return -1; } return p; }
static void released(int p, int i, u16 len, bool chk) {
    HeapEnt& h = H->e[i];
    if (h.aux >= ANNTAG) { if (chk && len != h.size) viol("P04", "announcement payload of %u bytes released with length %u", h.size, len); W.t.gotann++; heap_free_idx(i); return; }
    PubM& P = W.P[p]; int k = h.aux;
    if (chk && len != P.pk[k].len) viol("P04", "payload of packet %d released with length %u instead of %u", k + 1, len, P.pk[k].len);
    if (!(W.t.expfree >> k & 1)) {
        if (W.t.shutdown && P.pk[k].st != 3) P.pk[k].st = 3;
        else if (P.pk[k].st == 2 && !(P.pk[k].own & ~P.loose)) P.pk[k].st = 3;
        else viol(P.pk[k].st == 1 ? "P04,P22" : ccount(p_connmask(p)) > 1 ? "P04,P07,P09,P02,P25" : "P04,P07,P09,P02", "payload of packet %d released while %s", k + 1, P.pk[k].st == 1 ? "still waiting to be sent" : "a connected subscriber has neither acknowledged it nor had it queued for retransmission");
    }
    W.t.gotfree |= PB(k); COUNT("payloads_released");
    heap_free_idx(i);
}
static void free_hooks(int p) {     // the release callback closes the first connection, or deactivates
    if (!(C.reent & (RE_KFREE | RE_OFFFREE)) || p >= NPUB || !W.P[p].active) return;
    for (int i = 0; i < MAXC; ++i) if (W.P[p].c[i].st) { int ci = W.P[p].c[i].conn; if (reent_close(p, RE_KFREE, i) && ci == g_rd_conn) W.t.nctl = W.t.gotctl; break; }
    if (reent_off(p, RE_OFFFREE)) W.t.nctl = W.t.gotctl;
}
static void cb_pub_free(void* pl, payload_len_t len, user_data_t ud) {
    ErrnoTaint taint;
    int p = W.cur; int i = heap_find(pl);
    if (i < 0) { viol("P04,P24,P10", "release callback with a pointer that is not a payload held by the library"); return; }
    if (H->e[i].owner != OWN_APP || p >= NPUB || H->e[i].tag != p + 1) { viol("P04,P10,P24", "release callback with memory that is not a payload of this publisher"); return; }
    if (ud.u64 != ud_of(p) && !(C.setud && (ud.u64 & ~0x1000ull) == UD_PUB + p)) note("P04", "release callback with user data %llx instead of the context's", (unsigned long long)ud.u64);
    released(p, i, len, true);
    reent_pub(p, RE_FREE); free_hooks(p);
}
static void cb_free_hook(int i) {    // default free(): payload blocks carry a tag
    HeapEnt h = H->e[i];
    if (h.tag && h.tag <= NPUB && h.owner == OWN_LIB) {
        PubM& P = W.P[h.tag - 1]; int k = h.aux;
        if (k < ANNTAG && !(W.t.expfree >> k & 1)) { if (W.t.shutdown && P.pk[k].st != 3) P.pk[k].st = 3; else viol("P04", "payload of packet %d freed early", k + 1); }
        if (k < ANNTAG) W.t.gotfree |= PB(k); else W.t.gotann++;
    }
}
// the first other connection of the publisher that is up
static int p_other(int p, u32 ip, u16 port) { for (int i = 0; i < MAXC; ++i) if (W.P[p].c[i].st && !(W.conn[W.P[p].c[i].conn].cip == ip && W.conn[W.P[p].c[i].conn].cport == port)) return i; return -1; }
static u8 cb_pub_conn(rmc_pub_context_t* c, u32 ip, u16 port) {
    ErrnoTaint taint;
    int p = cur_pub(c); if (p < 0) return 1;
    Tx& t = W.t;
    if (t.ngotconn >= t.nexpconn) { viol("P16,P15", "unexpected subscriber connect callback"); return 1; }
    AddrX& x = t.conn[t.ngotconn++];
    if (x.ip != ip || x.port != port) note("P16,P13", "connect callback says %08x:%u for a subscriber at %08x:%u", ip, port, x.ip, x.port);
    reent_pub(p, RE_CONN); reent_close(p, RE_KCONN, p_other(p, ip, port));
    for (auto& s : W.P[p].c) if (s.st && W.conn[s.conn].cip == x.ip && W.conn[s.conn].cport == x.port) return !s.veto;
    return 1;
}
static void cb_pub_disc(rmc_pub_context_t* c, u32 ip, u16 port) {
    ErrnoTaint taint;
    int p = cur_pub(c); if (p < 0) return;
    // the callback may come before or after the descriptor is closed: match against slots that may close
    AddrX* f = 0;
    for (auto& x : W.t.disc) if (x.ip == ip && x.port == port && !(x.hit & 1)) f = &x;
    if (!f) for (auto& s : W.P[p].c) if (s.st && W.conn[s.conn].cip == ip && W.conn[s.conn].cport == port) {
        // remember it for when the close happens
        if (!(W.t.mayclose >> s.conn & 1) && !s.bad && !W.t.shutdown && !W.t.faulted) viol("P16", "disconnect callback for a connection that is up");
        for (auto& x : W.t.disc) if (!x.hit) { x.ip = ip; x.port = port; x.hit = 1; reent_pub(p, RE_DISC); reent_close(p, RE_KDISC, p_other(p, ip, port)); return; }
    }
    if (!f) { viol("P16", "disconnect callback for %08x:%u which is not a connected subscriber", ip, port); return; }
    f->hit |= 1;
    reent_pub(p, RE_DISC); reent_close(p, RE_KDISC, p_other(p, ip, port));
}
static void cb_pub_ctl(rmc_pub_context_t* c, u32 ip, u16 port, rmc_node_id_t, void* pl, payload_len_t len) {
    ErrnoTaint taint;
    int p = cur_pub(c); if (p < 0) return;
    Tx& t = W.t;
    if (t.gotctl >= t.nctl) { viol("P13,P14,P17,P26", "control callback although no complete message has arrived"); return; }
    CtlX& x = t.ctl[t.gotctl++];
    if (x.len != len) { viol("P13,P14,P26", "control message of %u bytes delivered with length %u", x.len, len); return; }
    if (x.hash != chash(pl, len)) viol("P13,P14,P26", "control message (%u bytes) delivered with different content", len);
    if (x.ip != ip || x.port != port) note("P13", "control message of %08x:%u attributed to %08x:%u", x.ip, x.port, ip, port);
    COUNT("control_messages_delivered");
    reent_pub(p, RE_CTL);
    if (reent_close(p, RE_KCTL, p_slot_of_addr(p, ip, port))) W.t.nctl = W.t.gotctl;   // the rest of what was read is void
    if (reent_off(p, RE_OFFCTL)) W.t.nctl = W.t.gotctl;
    if ((C.reent & RE_CTL) && !g_pruned && x.hash != chash(pl, len)) viol("P13,P14,P24", "control message changes while the callback publishes");
}
static u8 cb_pub_ann(rmc_pub_context_t* c, void* pl, payload_len_t maxlen, payload_len_t* res) {
    ErrnoTaint taint;
    int p = cur_pub(c); if (p < 0) return 0;
    PubM& P = W.P[p]; Tx& t = W.t; t.annapi_got++; int id = P.annseq++;
    if (maxlen < 1 || maxlen > RMC_MAX_PAYLOAD) note("P10", "announce callback is offered %u bytes", maxlen);
    u32 len = C.annlens[id % C.annlens.size()]; if (len > maxlen) { note("P10", "announce callback is offered only %u bytes", maxlen); len = maxlen; }
    for (u32 i = 0; i < len; ++i) ((u8*)pl)[i] = apat(p, 40 + id, i);
    *res = len;
    if (C.annveto && (id & 1) == 0) { *res = len; return 0; }
    MAnn* a = 0; for (auto& x : P.ann) if (!x.used) { a = &x; break; }
    if (!a) harness_bug("ann overflow");
    a->used = 1; a->len = len; a->hash = chash(pl, len); a->opt = P.susp;
    return 1;
}
// ---------------------------------------------------------------- subscriber callbacks
static int cur_sub(rmc_sub_context_t* c) { int s = W.cur - NPUB; if (s < 0 || W.S[s].ctx != c) { note("P25,P12", "callback names a wrong subscriber context"); return -1; } return s; }
static void* cb_sub_alloc(payload_len_t len, user_data_t ud) {
    ErrnoTaint taint;
    int s = W.cur - NPUB;
    if (ud.u64 != ud_of(NPUB + s)) note("P05", "allocation callback with wrong user data");
    void* p = heap_alloc(len, OWN_SUBPAY); if (!p) return 0;
    H->e[heap_find(p)].tag = s; COUNT("sub_payloads_allocated");
    return p;
}
static void cb_sub_free(void* pl, payload_len_t len, user_data_t ud) {
    ErrnoTaint taint;
    int s = W.cur - NPUB, i = heap_find(pl);
    if (i < 0 || H->e[i].owner != OWN_SUBPAY) { viol("P05,P24", "release callback of the subscriber with a pointer it does not own (double release?)"); return; }
    if (s < 0 || H->e[i].tag != s) viol("P05,P25", "release callback with a payload of another subscriber");
    if (H->e[i].size != len) viol("P05", "payload of %u bytes released with length %u", H->e[i].size, len);
    if (ud.u64 != ud_of(NPUB + s)) note("P05,P16", "release callback with user data %llx instead of the context's", (unsigned long long)ud.u64);
    heap_free_idx(i);
    if ((C.reent & (RE_KSFREE | RE_OFFSFREE)) && s >= 0 && W.S[s].active) {
        for (int k = 0; k < C.maxc_sub; ++k) if (W.S[s].s[k].st) { reent_close(NPUB + s, RE_KSFREE, k); break; }
        reent_off(NPUB + s, RE_OFFSFREE);
    }
}
static u8 cb_sub_ann(rmc_sub_context_t* c, u32 ip, in_port_t port, rmc_node_id_t node, void* pl, payload_len_t len) {
    ErrnoTaint taint;
    int s = cur_sub(c); if (s < 0) return 0;
    Tx& t = W.t; SubM& S = W.S[s];
    if (!t.ann_exp && !t.ann_opt) { viol("P11", "announce callback without an announcement from an unsubscribed publisher"); return 0; }
    if (t.ann_got) viol("P11", "announce callback invoked twice for one announcement");
    t.ann_got = 1;
    if (ip != t.ann_ip || port != t.ann_port || node != t.ann_node) note("P11,P10", "announce callback says %08x:%u node %x for publisher %08x:%u node %x", ip, port, node, t.ann_ip, t.ann_port, t.ann_node);
    if (len != t.ann_len || chash(pl, len) != t.ann_hash) viol("P11,P10", "announce callback with wrong content (%u bytes instead of %u)", len, t.ann_len);
    if (t.ann_opt) return 0;
    S.annseen++;
    for (int i = 0; i < C.maxc_sub; ++i) if (S.s[i].st) { reent_close(NPUB + s, RE_KANN, i); break; }
    if (C.annveto && (S.annseen & 1)) return 0;
    if (s_count(s) < C.maxc_sub) { t.conn_exp = 1; t.conn_ip = ip; t.conn_port = port; }
    return 1;
}
static void cb_sub_complete(rmc_sub_context_t* c, u32 ip, in_port_t port, rmc_node_id_t node) {
    ErrnoTaint taint;
    int s = cur_sub(c); if (s < 0) return;
    Tx& t = W.t;
    if (!t.compl_exp && !t.complopt) { viol("P11", "subscription complete callback without a completed connection"); return; }
    if (t.compl_got) viol("P11", "subscription complete callback invoked twice");
    t.compl_got = 1;
    if (ip != t.compl_ip || port != t.compl_port || node != t.compl_node) note("P11", "complete callback says %08x:%u node %x instead of %08x:%u node %x", ip, port, node, t.compl_ip, t.compl_port, t.compl_node);
    for (int g = 0; g < NPUB; ++g) if (PUB_NODE(g) == node) { reent_sub(s, RE_COMPL, g); reent_close(NPUB + s, RE_KCOMPL, s_by_addr(s, ip, port)); reent_off(NPUB + s, RE_OFFCOMPL); return; }
}
static bool sub_dispatch_one(int s, bool keep) {
    SubM& S = W.S[s];
    sub_packet* pk = rmc_sub_get_next_dispatch_ready(S.ctx);
    if (!pk) return false;
    void* pl = rmc_sub_packet_payload(pk); u32 len = rmc_sub_packet_payload_len(pk); int slot = rmc_sub_packet_index(pk);
    int hi = heap_find(pl);
    if (hi < 0 || (C.defalloc ? H->e[hi].owner != OWN_LIB : (H->e[hi].owner != OWN_SUBPAY || H->e[hi].tag != s))) { viol("P05,P24,P03", "packet offered for dispatch has a payload that is not allocated"); return true; }
    if (H->e[hi].size != len) viol("P03,P05", "packet offered for dispatch says %u bytes, its payload has %u", len, H->e[hi].size);
    bool known_entry = false;
    if (S.nr && S.r[0].slot == slot) known_entry = true;
    if (S.nr && !S.loose) known_entry = true;
    if (S.nr && S.loose && S.r[0].slot == slot && slot < MAXC && S.s[slot].wild) {   // old entries of a session that turned hostile come first
        known_entry = true;
    }
    auto early = [&]() {   // is it data that came while not subscribed?
        for (int g = 0; g < NG; ++g) for (int r = 0; r < NPID; ++r) if ((S.early[g] >> r & 1) && len == plen_of(g, r)) {
            u32 i = 0; while (i < len && ((u8*)pl)[i] == pat(g, r, i)) ++i;
            if (i == len && !(known_entry && S.r[0].src == g && S.r[0].rel == r)) return true;
        }
        return false;
    };
    if (known_entry) {
        MRdy r = S.r[0];
        if (len != plen_of(r.src, r.rel)) { viol(early() ? "P01,P03,P11" : "P01,P03", "packet %d of publisher %d delivered with %u bytes instead of %u", r.rel, r.src, len, plen_of(r.src, r.rel)); return true; }
        for (u32 i = 0; i < len; ++i) if (((u8*)pl)[i] != pat(r.src, r.rel, i)) { viol(early() ? "P01,P03,P11" : "P01,P03", "packet %d of publisher %d delivered with wrong content at byte %u (or another packet in its place)", r.rel, r.src, i); return true; }
        if (slot != r.slot) note("P01,P25", "packet of publisher slot %d is attributed to slot %d", r.slot, slot);
        memmove(S.r, S.r + 1, sizeof(MRdy) * (S.nr - 1)); rawset(&S.r[S.nr - 1], 0, sizeof(MRdy)); S.nr--;
        if (r.src < NG) S.deliv[r.src] |= PB(r.rel);
        COUNT("packets_delivered");
    } else if (!S.loose) { viol(early() ? "P01,P05,P11" : "P01,P05", "a packet is offered for dispatch although none is due"); return true; }
    u32 before = live_subpay(s);
    int res = keep ? rmc_sub_packet_dispatched_keep_payload(S.ctx, pk) : rmc_sub_packet_dispatched(S.ctx, pk);
    if (res) viol("P05", "dispatching the offered packet fails (%d)", res);
    if (keep) {
        hi = heap_find(pl);
        if (hi < 0) { viol("P05", "payload dispatched with keep-payload was released by the library"); return true; }
        u8 z = 0; if (len) { z = *(u8*)pl; (void)z; }
        if (!C.defalloc) H->e[hi].owner = OWN_SUBPAY;
        heap_free_idx(hi); S.kept++;
    } else if (!C.defalloc && !g_kclosed && live_subpay(s) != before - 1) viol("P05", "dispatching a packet released %d payloads", (int)before - (int)live_subpay(s));
    return true;
}
static void cb_sub_ready(rmc_sub_context_t* c) {
    ErrnoTaint taint;
    int s = cur_sub(c); if (s < 0) return;
    W.t.rdycb = 1;
    if (!rmc_sub_get_next_dispatch_ready(c) && !W.S[s].loose) note("P01,P02,P23", "packet-ready callback although nothing is ready");
    for (int g = 0; g < npub(); ++g) if (s_by_addr(s, pub_ip(g), pub_port(g)) >= 0) { reent_sub(s, RE_READY, g); break; }
    if (W.S[s].nr && !W.S[s].loose) { int slot = W.S[s].r[0].slot; reent_close(NPUB + s, RE_KRDY, slot < C.maxc_sub && W.S[s].s[slot].st ? slot : -1); }
    if (reent_off(NPUB + s, RE_OFFRDY)) return;
    if (C.dispmode == 2) while (!g_pruned && sub_dispatch_one(s, false)) {}
}

// ---------------------------------------------------------------- observable state against the models
static void check_masks(int node) {
    for (int i = 0; i < NFD; ++i) {
        Fd& f = W.fd[i]; if (!f.kind || f.owner != node) continue;
        u8 want = 0, care = 3; const char* what = "";
        switch (f.kind) {
        case FD_MCAST_TX: { PubM& P = W.P[node]; bool opt = false; for (auto& a : P.ann) if (a.used && a.opt) opt = true; care = opt && !p_queued(node) ? 0 : RMC_POLLWRITE; want = p_queued(node) || p_annq(node) ? RMC_POLLWRITE : 0; what = "multicast sender"; break; }
        case FD_LISTEN: want = RMC_POLLREAD; what = "listening socket"; break;
        case FD_MCAST_RX: want = RMC_POLLREAD; what = "multicast receiver"; break;
        case FD_TCP:
            if (node < NPUB) { int s = p_slot_of(node, f.conn); if (s < 0) continue; want = RMC_POLLREAD | (W.P[node].c[s].obytes ? RMC_POLLWRITE : 0); what = "subscriber connection"; if (W.P[node].c[s].bad) care = RMC_POLLREAD; }
            else { int s = s_by_conn(node - NPUB, f.conn); if (s < 0) continue; MSess& m = W.S[node - NPUB].s[s]; what = "publisher connection";
                if (m.st == 1) { want = RMC_POLLWRITE; care = RMC_POLLWRITE; } else { want = RMC_POLLREAD | (m.pout ? RMC_POLLWRITE : 0); if (m.wild) care = RMC_POLLREAD; } }
            break;
        default: continue;
        }
        if (C.nopoll & 1) { f.mask = want; continue; }  // no poll_modify callback: the application works out its interest itself
        if ((f.mask & care) != (want & care)) note("P12,P18,P02", "%s (descriptor %d, index %d): registered interest is %d, should be %d", what, i, f.idx, f.mask & care, want & care);
    }
}
static void check_armed() {
    if (C.oneshot) for (int i = 0; i < NFD; ++i) { Fd& f = W.fd[i]; if (f.kind && f.reg && f.mask && !f.armed && !f.lat) note("P12,P18", "one-shot registration of descriptor %d (index %d) was not re-armed after its event", i, f.idx); }
}
static void check_pub(int p) {
    PubM& P = W.P[p]; if (!P.inited) return;
    g_lib_call = "publisher status query";
    int n = 0; u32 ob = 0, ac = 0; bool anybad = false;
    for (auto& c : P.c) if (c.st) { ++n; ob += c.obytes; anybad |= c.bad; }
    for (int k = 0; k < P.npk; ++k) if (P.pk[k].st == 2) ac += ccount(P.pk[k].own);
    bool annopt = false; for (auto& a : P.ann) if (a.used && a.opt) annopt = true;
    if (rmc_pub_get_subscriber_count(P.ctx) != (u32)n) note("P15", "publisher reports %u subscribers, %d are connected", rmc_pub_get_subscriber_count(P.ctx), n);
    if (rmc_pub_get_max_subscriber_count(P.ctx) != C.maxc_pub) note("P15", "publisher reports a maximum of %u subscribers", rmc_pub_get_max_subscriber_count(P.ctx));
    u32 socks = 0; for (auto& f : W.fd) socks += f.kind && f.owner == p;
    if (rmc_pub_get_socket_count(P.ctx) != socks) note("P15,P24", "publisher reports %u sockets, %u are open", rmc_pub_get_socket_count(P.ctx), socks);
    if (n > C.maxc_pub) note("P15", "%d connections exceed the maximum", n);
    u32 q = rmc_pub_queue_length(P.ctx), want = p_queued(p) + p_annq(p);
    if (annopt) { if (q + 1 == want) { for (auto& a : P.ann) if (a.used && a.opt) { rawset(&a, 0, sizeof a); break; } --want; } else for (auto& a : P.ann) a.opt = 0; }
    if (q != want) note("P23,P22,P10", "queue length is reported as %u, %u packets wait to be multicast", q, want);
    u32 a1 = 77, a2 = 77, a3 = 77; int r = rmc_pub_context_get_pending(P.ctx, &a1, &a2, &a3);
    if (a1 != want) note("P23", "pending query reports %u queued packets instead of %u", a1, want);
    if (!anybad) {
        if (a2 != ob) note("P23,P07,P14", "pending query reports %u bytes waiting on connections instead of %u", a2, ob);
        if (a3 != ac) note("P23,P07,P16,P04", "pending query reports %u outstanding acknowledgements instead of %u", a3, ac);
        if ((r == EBUSY) != (want || ob || ac) || (r && r != EBUSY)) note("P23", "pending query answers %d with queue %u, bytes %u, acks %u", r, want, ob, ac);
    }
    int sus = rmc_pub_traffic_suspended(P.ctx), u = p_unacked(p);
    if (sus && sus != EBUSY) note("P09", "suspension query answers %d", sus);
    if (!P.susp) { if (sus) note("P09", "traffic is suspended with %d unacknowledged packets (suspend at %u)", u, P.sthr); }
    else if (u > (int)P.rthr) { if (!sus) note("P09", "traffic resumed with %d unacknowledged packets (resume at %u)", u, P.rthr); }
    else { if (u < g_unacked_before && sus) note("P09", "traffic still suspended with %d unacknowledged packets (resume at %u)", u, P.rthr); P.susp = sus != 0; }
    usec_timestamp_t nx = 12345; r = rmc_pub_timeout_get_next(P.ctx, &nx);
    i64 wn = p_next(p);
    if (r) note("P08", "next-timeout query fails (%d)", r);
    else if (nx != wn && !P.loose) note(P.ann_int ? "P08,P10" : "P08", "publisher's next timeout is reported as %lld, expected %lld (now %lld)", (long long)nx, (long long)wn, (long long)W.now);
    check_masks(p);
}
static void check_sub(int s) {
    SubM& S = W.S[s]; if (!S.inited) return;
    g_lib_call = "subscriber status query";
    int n = s_count(s);
    if (rmc_sub_get_publisher_count(S.ctx) != n) note("P15", "subscriber reports %u publishers, %d are connected or connecting", rmc_sub_get_publisher_count(S.ctx), n);
    if (rmc_sub_get_max_publisher_count(S.ctx) != C.maxc_sub) note("P15", "subscriber reports a maximum of %u publishers", rmc_sub_get_max_publisher_count(S.ctx));
    u32 socks = 0; for (auto& f : W.fd) socks += f.kind && f.owner == NPUB + s;
    if (rmc_sub_get_socket_count(S.ctx) != socks) note("P15,P24", "subscriber reports %u sockets, %u are open", rmc_sub_get_socket_count(S.ctx), socks);
    if (n > C.maxc_sub) note("P15", "%d connections exceed the maximum", n);
    for (int i = 0; i < MAXC; ++i) for (int j = 0; j < i; ++j) if (S.s[i].st && S.s[j].st && W.conn[S.s[i].conn].dip == W.conn[S.s[j].conn].dip && W.conn[S.s[i].conn].dport == W.conn[S.s[j].conn].dport) note("P11", "two connections to the same publisher");
    if (!S.loose) {
        int rc = rmc_sub_get_dispatch_ready_count(S.ctx);
        if (rc != S.nr) note("P23,P01,P02,P16,P25", "dispatch-ready count is %d, %d packets are ready", rc, S.nr);
        if (!C.defalloc && live_subpay(s) != s_held(s)) note("P05,P16,P24", "%u payloads are allocated but %u are held for delivery", live_subpay(s), s_held(s));
        sub_packet* pk = rmc_sub_get_next_dispatch_ready(S.ctx);
        if ((pk != 0) != (S.nr != 0)) note("P23,P01,P25", "next ready packet query answers %s", pk ? "a packet" : "none");
        usec_timestamp_t nx = 12345; int r = rmc_sub_timeout_get_next(S.ctx, &nx); i64 wn = s_next(s);
        if (r) note("P08", "next-timeout query fails (%d)", r);
        else if (nx != wn) note("P08,P06,P21", "subscriber's next timeout is reported as %lld, expected %lld (now %lld)", (long long)nx, (long long)wn, (long long)W.now);
    }
    check_masks(NPUB + s);
}

// ---------------------------------------------------------------- API calls
static char* ipstr(u32 ip) { static char b[4][20]; static int i; i = (i + 1) & 3; snprintf(b[i], 20, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); return b[i]; }
static int api_pub_init(int p) {
    begin_api(p, "rmc_pub_init_context"); PubM& P = W.P[p];
    int r = rmc_pub_init_context(&P.ctx, C.node0 ? 0 : PUB_NODE(p), ipstr(GROUP_IP), GROUP_PORT, C.mif ? ipstr(C.mif) : 0, C.listen_any ? 0 : ipstr(pub_ip(p)), C.port0 ? 0 : pub_port(p), UD(UD_PUB + p), cb_add, C.nopoll & 1 ? 0 : cb_mod, C.nopoll & 2 ? 0 : cb_rem, C.maxc_pub, C.defalloc ? 0 : cb_pub_free);
    if (r) { viol("P24", "rmc_pub_init_context fails (%d)", r); return r; }
    if (C.node0) PUB_NODES[p & 7] = rmc_pub_node_id(P.ctx);   // chosen by the library
    P.inited = 1;
    if (!rmc_pub_set_multicast_ttl(P.ctx, 3)) note("P26", "setting the multicast time to live of an inactive publisher reports success");
    if (!C.nocb) { rmc_pub_set_subscriber_connect_callback(P.ctx, cb_pub_conn); rmc_pub_set_subscriber_disconnect_callback(P.ctx, cb_pub_disc); rmc_pub_set_control_message_callback(P.ctx, cb_pub_ctl); }
    if (C.anncb) rmc_pub_set_announce_callback(P.ctx, cb_pub_ann);
    if (rmc_pub_user_data(P.ctx).u64 != UD_PUB + p || rmc_pub_node_id(P.ctx) != PUB_NODE(p)) viol("P26", "context does not report its user data or node id");
    if (C.sthr || C.rthr) {
        int e = rmc_pub_throttling(P.ctx, C.sthr, C.rthr);
        if (e) viol("P09", "rmc_pub_throttling(%u,%u) fails (%d)", C.sthr, C.rthr, e);
        P.sthr = C.sthr; P.rthr = C.rthr;
        if (rmc_pub_throttling(P.ctx, 1, 2) == 0) viol("P09", "thresholds with suspend below resume are accepted");
    }
    end_pub(p); return r;
}
static int api_pub_activate(int p) {
    begin_api(p, "rmc_pub_activate_context"); PubM& P = W.P[p]; bool was = P.active;
    int r = rmc_pub_activate_context(P.ctx);
    u32 n = 0; for (auto& f : W.fd) n += f.kind && f.owner == p;
    if (was) {
        if (n != 2 + (u32)ccount(p_connmask(p))) viol("P24", "activating an active publisher changes its descriptors");
        else if (!r) viol("P24", "activating an active publisher succeeds");
        end_pub(p); return r;
    }
    if (r && !W.t.faulted) viol("P24", "activation fails (%d)", r);
    if (!r && W.t.faulted && n != 2) viol("P24,P18", "activation reports success with %u of 2 sockets open", n);
    if (r && n) viol("P24,P18", "failed activation leaves %u descriptors open", n);
    P.active = !r; if (!r && P.acts < 2) P.acts++;
    if (!r && !W.flt.kind && !W.t.faulted) {
        int e = rmc_pub_set_multicast_ttl(P.ctx, 3); bool ok = false;
        for (auto& f : W.fd) if (f.kind == FD_MCAST_TX && f.owner == p && f.ttl == 3) ok = true;
        if (e || !ok) note("P26", "setting the multicast time to live of an active publisher has no effect (%d)", e);
    }
    if (!r) for (auto& f : W.fd) if (f.kind && f.owner == p && (!f.reg)) viol("P12,P24", "activation does not register a descriptor");
    if (!r) { int ls = 0; for (auto& f : W.fd) ls += f.kind == FD_LISTEN && f.owner == p; if (!ls) note("P11,P15,P26,P18,P24", "activation reports success but the publisher does not listen for subscribers"); }
    if (!r) for (auto& f : W.fd) if (f.kind && f.owner == p) {
        if (f.owner == p && (f.kind == FD_MCAST_TX || f.kind == FD_UDP0) && (!f.mif || f.ifip != C.mif)) note("P26,P18,P24", "multicast is not sent through the configured interface");
        if (f.kind == FD_LISTEN && (f.port != pub_port(p) || (f.ip && f.ip != (C.listen_any ? 0 : pub_ip(p))))) note("P11,P26,P18,P24", "the publisher does not listen where it was told to");
    }
    end_pub(p); return r;
}
static int api_sub_init(int s) {
    begin_api(NPUB + s, "rmc_sub_init_context"); SubM& S = W.S[s];
    int r = rmc_sub_init_context(&S.ctx, C.node0 ? 0 : SUB_NODE[s], ipstr(GROUP_IP), GROUP_PORT, C.mif ? ipstr(C.mif) : 0, UD(UD_SUB + s), cb_add, C.nopoll & 1 ? 0 : cb_mod, C.nopoll & 2 ? 0 : cb_rem, C.maxc_sub, C.defalloc ? 0 : cb_sub_alloc, C.defalloc ? 0 : cb_sub_free);
    if (r) { viol("P24", "rmc_sub_init_context fails (%d)", r); return r; }
    S.inited = 1;
    if (C.anncb) rmc_sub_set_announce_callback(S.ctx, cb_sub_ann);
    if (!C.nocb) { rmc_sub_set_subscription_complete_callback(S.ctx, cb_sub_complete); rmc_sub_set_packet_ready_callback(S.ctx, cb_sub_ready); }
    if (rmc_sub_user_data(S.ctx).u64 != UD_SUB + s || (!C.node0 && rmc_sub_node_id(S.ctx) != SUB_NODE[s])) viol("P26", "context does not report its user data or node id");
    end_sub(s); return r;
}
static int api_sub_activate(int s) {
    begin_api(NPUB + s, "rmc_sub_activate_context"); SubM& S = W.S[s]; bool was = S.active;
    int r = rmc_sub_activate_context(S.ctx);
    u32 n = 0; for (auto& f : W.fd) n += f.kind && f.owner == NPUB + s && f.kind != FD_TCP;
    if (was) { if (!r) viol("P24", "activating an active subscriber succeeds"); }
    else {
        if (r && !W.t.faulted) viol("P24", "activation fails (%d)", r);
        if (!r && n != 1) viol("P24,P18", "activation reports success with %u of 1 sockets open", n);
        if (r && n) viol("P24,P18", "failed activation leaves %u descriptors open", n);
        S.active = !r; if (!r && S.acts < 2) S.acts++;
        if (!r) for (auto& f : W.fd) if (f.kind == FD_MCAST_RX && f.owner == NPUB + s && (f.member != 1 || f.port != GROUP_PORT || (f.ip && f.ip != GROUP_IP) || f.ifip != C.mif)) note("P02,P11,P26,P18,P24", "the subscriber does not listen to the configured group, port and interface");
    }
    end_sub(s); return r;
}
static void api_bad_init(int node, int variant) {
    begin_api(node, node < NPUB ? "rmc_pub_init_context" : "rmc_sub_init_context");
    u32 n0 = H->n, n = 0; for (u32 i = 0; i < n0; ++i) n += H->e[i].owner == OWN_LIB;
    const char* grp = variant == 0 ? "no.such.address" : ipstr(GROUP_IP); const char* ifa = variant == 2 ? "also bad" : 0; const char* la = variant == 1 ? "1.2.3.4.5.6" : 0; int r;
    void* c = (void*)1;
    if (node < NPUB) r = rmc_pub_init_context((rmc_pub_context_t**)&c, 1, (char*)grp, GROUP_PORT, (char*)ifa, (char*)la, 1, UD(1), cb_add, C.nopoll & 1 ? 0 : cb_mod, C.nopoll & 2 ? 0 : cb_rem, C.maxc_pub, C.defalloc ? 0 : cb_pub_free);
    else r = rmc_sub_init_context((rmc_sub_context_t**)&c, 1, (char*)(variant == 1 ? "1.2" "x" : grp), GROUP_PORT, (char*)ifa, UD(1), cb_add, C.nopoll & 1 ? 0 : cb_mod, C.nopoll & 2 ? 0 : cb_rem, C.maxc_sub, C.defalloc ? 0 : cb_sub_alloc, C.defalloc ? 0 : cb_sub_free);
    u32 m = heap_count(OWN_LIB);
    if (!r) viol("P24", "context initialisation with an address that cannot be resolved succeeds");
    else if (m != n) viol("P24", "failed context initialisation leaves %d memory blocks allocated", (int)(m - n));
    else if (c != 0 && c != (void*)1) viol("P24", "failed context initialisation hands out a context");
    W.in_api = 0;
}
static void api_set_ud(int n) {
    begin_api(n, n < NPUB ? "rmc_pub_set_user_data" : "rmc_sub_set_user_data");
    if (n < NPUB) { W.P[n].ud ^= 1; rmc_pub_set_user_data(W.P[n].ctx, UD(ud_of(n))); if (rmc_pub_user_data(W.P[n].ctx).u64 != ud_of(n)) note("P12,P23", "changed user data is not reported"); end_pub(n); }
    else { SubM& S = W.S[n - NPUB]; S.ud ^= 1; rmc_sub_set_user_data(S.ctx, UD(ud_of(n))); if (rmc_sub_user_data(S.ctx).u64 != ud_of(n)) note("P12,P23", "changed user data is not reported"); end_sub(n - NPUB); }
}
static int api_set_announce(int p, u32 us) {
    begin_api(p, "rmc_pub_set_announce_interval"); PubM& P = W.P[p];
    int r = rmc_pub_set_announce_interval(P.ctx, us);
    if (r) viol("P10", "rmc_pub_set_announce_interval fails (%d)", r);
    if (us && !P.ann_next) P.ann_next = W.now + us;
    if (!us) P.ann_next = 0;
    P.ann_int = us;
    end_pub(p); return r;
}
// variant 0 normal, 1 null payload, 2 oversized, 3 announcement queued by the application
static void api_queue(int p, int len, int variant) {
    PubM& P = W.P[p];
    begin_api(p, "rmc_pub_queue_packet");
    if (variant == 2) len = RMC_MAX_PAYLOAD + 1;
    void* pl = heap_alloc(len, C.defalloc ? OWN_LIB : OWN_APP); int k = P.npk;
    HeapEnt& h = H->e[heap_find(pl)]; h.tag = p + 1; h.aux = variant == 3 ? ANNTAG : k;
    if (variant == 3) for (int i = 0; i < len; ++i) ((u8*)pl)[i] = apat(p, 70, i); else for (int i = 0; i < len; ++i) ((u8*)pl)[i] = pat(p, k, i);
    int r = rmc_pub_queue_packet(P.ctx, variant == 1 ? 0 : pl, len, variant == 3);
    int want = variant == 1 ? EINVAL : variant == 2 ? EMSGSIZE : P.susp ? EBUSY : 0;
    if (!!r != !!want || (want == EBUSY && r != want)) viol(want == EBUSY || P.sthr ? "P09" : variant ? "P03,P04" : "P03,P22,P09", "rmc_pub_queue_packet(len %d%s) answers %d, expected %d", len, variant == 1 ? ", null" : "", r, want);
    int hi = heap_find(pl);
    if (r) { if (hi < 0) viol("P04", "payload released although publishing was refused"); else { H->e[hi].owner = OWN_APP; heap_free_idx(hi); } }
    else if (hi < 0) viol("P04", "payload released while being queued");
    else if (variant == 3) { MAnn* a = 0; for (auto& x : P.ann) if (!x.used) { a = &x; break; } if (!a) harness_bug("ann overflow"); a->used = 1; a->len = len; a->hash = chash(pl, len); a->pad = 1; }
    else {
        MPkt& m = P.pk[P.npk++]; m.st = 1; m.len = len; m.off = h.off; COUNT("packets_accepted");
        if (P.sthr && p_unacked(p) >= (int)P.sthr) P.susp = 1;
    }
    end_pub(p);
}
static void api_pub_timeout(int p) {
    begin_api(p, "rmc_pub_timeout_process");
    m_pub_timeout(p);
    rmc_pub_timeout_process(W.P[p].ctx);
    end_pub(p);
}
static void api_sub_timeout(int s) {
    begin_api(NPUB + s, "rmc_sub_timeout_process");
    m_sub_timeout(s);
    rmc_sub_timeout_process(W.S[s].ctx);
    end_sub(s);
}
// P27: an event handler that succeeds reports what it did.  `want` is the documented outcome, or -1 where the documentation leaves it open.
static void check_outcome(int node, const char* api, int r, u8 op, int want) {
    if (g_pruned || C.nullop || g_kclosed || r || want < 0 || W.t.faulted || (node < NPUB ? W.P[node].loose : W.S[node - NPUB].loose)) return;
    static const char* name[] = {"an error", "multicast data", "a multicast loopback", "a new publisher", "data from a publisher being connected", "stream data", "an accepted connection", "a disconnect", "a multicast packet sent", "a completed connection", "stream data sent"};
    if (op != want) note("P27", "%s reports %s although it handled %s", api, op <= 10 ? name[op] : "nothing", name[want]);
    COUNT("outcomes_checked");
}
static void api_pub_rw(int p, int idx, bool wr) {
    u8 op = 0xEE, *o = C.nullop ? 0 : &op; PubM& P = W.P[p]; int r, want = -1;
    begin_api(p, wr ? "rmc_pub_write" : "rmc_pub_read");
    bool tcp = idx < MAXC && P.c[idx].st; u16 sent0 = 0, sent1 = 0;
    for (int k = 0; k < P.npk; ++k) sent0 += P.pk[k].st == 1;
    if (wr) r = rmc_pub_write(P.ctx, idx, o); else r = rmc_pub_read(P.ctx, idx, o);
    if (g_pruned) return;
    for (int k = 0; k < P.npk; ++k) sent1 += P.pk[k].st == 1;
    if (tcp) want = P.c[idx].st ? wr ? RMC_WRITE_TCP : RMC_READ_TCP : wr ? -1 : RMC_READ_DISCONNECT;
    else if (idx == RMC_LISTEN_INDEX && !wr) want = W.t.nconnfd ? RMC_READ_ACCEPT : -1;
    else if (idx == RMC_MULTICAST_INDEX) want = !wr ? RMC_READ_MULTICAST_LOOPBACK : sent1 < sent0 ? RMC_WRITE_MULTICAST : -1;
    check_outcome(p, wr ? "rmc_pub_write" : "rmc_pub_read", r, op, want);
    end_pub(p);
}
static void api_sub_rw(int s, int idx, bool wr) {
    u8 op = 0xEE, *o = C.nullop ? 0 : &op; SubM& S = W.S[s]; int r, want = -1;
    begin_api(NPUB + s, wr ? "rmc_sub_write" : "rmc_sub_read");
    MSess* m = idx < MAXC ? &S.s[idx] : 0;
    if (wr && m && m->st == 1) {
        Conn& c = W.conn[m->conn]; int ci = m->conn;
        if (c.st == 3 && !c.rst) {
            W.t.compl_exp = 1; W.t.compl_ip = c.dip; W.t.compl_port = c.dport; W.t.compl_node = m->src < NG ? PUB_NODE(m->src) : 0;
            if (C.nocb) W.t.compl_exp = 0;
            u8 fl = W.flt.kind;
            if (fl == F_GETSOCKOPT || fl == F_SETSOCKOPT) { W.t.mayclose |= KB(ci); if (W.t.compl_exp) W.t.complopt = 1; W.t.compl_exp = 0; }
        } else { W.t.mayclose |= KB(ci); W.t.mustclose |= KB(ci); }
        r = rmc_sub_write(S.ctx, idx, o);
        if (m->st == 1) { m->st = 2; if (W.t.complopt && !W.t.compl_got) viol("P11", "connection completed without the callback"); check_outcome(NPUB + s, "rmc_sub_write", r, op, RMC_COMPLETE_CONNECTION); }
        end_sub(s); return;
    }
    bool tcp = m && m->st, one = idx == RMC_MULTICAST_INDEX && !wr && S.nrx == 1; g_dgram_outcome = -1;
    if (wr) r = rmc_sub_write(S.ctx, idx, o); else r = rmc_sub_read(S.ctx, idx, o);
    if (g_pruned) return;
    if (tcp) want = m->st ? wr ? RMC_WRITE_TCP : RMC_READ_TCP : wr ? -1 : RMC_READ_DISCONNECT;
    else if (one && !S.nrx) want = W.t.conn_got ? RMC_READ_MULTICAST_NEW : g_dgram_outcome;
    check_outcome(NPUB + s, wr ? "rmc_sub_write" : "rmc_sub_read", r, op, want);
    end_sub(s);
}
static void api_close(int node, int slot) {
    int r;
    if (node < NPUB) { begin_api(node, "rmc_pub_close_connection"); int ci = W.P[node].c[slot].conn; W.t.mayclose |= KB(ci); W.t.mustclose |= KB(ci); r = rmc_pub_close_connection(W.P[node].ctx, slot); if (r) viol("P16", "rmc_pub_close_connection fails (%d)", r); end_pub(node); }
    else { begin_api(node, "rmc_sub_close_connection"); SubM& S = W.S[node - NPUB]; int ci = S.s[slot].conn; W.t.mayclose |= KB(ci); W.t.mustclose |= KB(ci); r = rmc_sub_close_connection(S.ctx, slot); if (r) viol("P16", "rmc_sub_close_connection fails (%d)", r); end_sub(node - NPUB); }
}
// how: 0 by node id, 1 by address
static void api_ctl(int s, int src, int len, int how) {
    SubM& S = W.S[s]; static u8 buf[70000]; int id = S.ctlseq;
    begin_api(NPUB + s, "rmc_sub_write_control_message");
    for (int i = 0; i < len; ++i) buf[i] = cpat(s, id, i);
    u8* p = (u8*)heap_alloc(len, OWN_APP); rawcpy(p, buf, len);
    int slot = s_by_addr(s, pub_ip(src), pub_port(src));
    int r = how == 0 ? rmc_sub_write_control_message_by_node_id(S.ctx, PUB_NODE(src), p, len) : rmc_sub_write_control_message_by_address(S.ctx, pub_ip(src), pub_port(src), p, len);
    int hi = heap_find(p); if (hi < 0) { viol("P13", "control message payload was freed by the library"); return; } heap_free_idx(hi);
    MSess* m = slot >= 0 ? &S.s[slot] : 0; u32 need = 3 + len;
    if (!len) { if (!r) viol("P13", "empty control message is accepted"); }
    else if (!m || (m->st != 2 && !(g_nest && m->st == 1 && W.t.compl_got))) { if (!r) viol("P13", "control message to a publisher that is not connected is accepted"); }
    else if (m->wild) {}
    else if (r) {
        if (r != ENOMEM) viol("P13", "control message of %d bytes is refused with error %d", len, r);
        else if (m->pout + need + 8 <= BUFCAP) viol("P13", "control message of %d bytes is refused although %u bytes are free", len, BUFCAP - m->pout);
        COUNT("control_messages_refused");
    } else {
        if (m->pout + need > BUFCAP) { viol("P13", "control message of %d bytes is accepted although only %u bytes are free", len, BUFCAP - m->pout); return; }
        m->out[m->pout] = 3; put16(m->out + m->pout + 1, len); rawcpy(m->out + m->pout + 3, buf, len); m->pout += need; S.ctlseq++;
        COUNT("control_messages_accepted");
    }
    end_sub(s);
}
static void api_dispatch(int s, bool keep) {
    begin_api(NPUB + s, keep ? "rmc_sub_packet_dispatched_keep_payload" : "rmc_sub_packet_dispatched");
    sub_dispatch_one(s, keep);
    end_sub(s);
}
static void clear_sub_conns(int s) { (void)s; }
static void chk_no_fds(int node, const char* what) {
    for (int i = 0; i < NFD; ++i) if (W.fd[i].kind && W.fd[i].owner == node) { viol("P24", "%s leaves descriptor %d open%s", what, i, W.fd[i].reg ? " and registered" : ""); return; }
}
static void api_deactivate(int node) {
    if (node < NPUB) {
        begin_api(node, "rmc_pub_deactivate_context"); W.t.shutdown = 1;
        int r = rmc_pub_deactivate_context(W.P[node].ctx); (void)r;
        W.P[node].active = 0; chk_no_fds(node, "deactivation"); end_pub(node);
    } else {
        int s = node - NPUB; begin_api(node, "rmc_sub_deactivate_context"); W.t.shutdown = 1;
        SubM& S = W.S[s]; S.nr = 0; rawset(S.r, 0, sizeof S.r);
        int r = rmc_sub_deactivate_context(S.ctx); (void)r;
        for (int i = 0; i < S.nrx; ++i) if (S.rx[i].type == 1) dg_release(S.rx[i].x);
        S.nrx = 0; rawset(S.rx, 0, sizeof S.rx);
        for (int x = 0; x < NDG; ++x) if (S.net >> x & 1) dg_release(x);
        S.net = 0; S.active = 0; S.loose = 0; chk_no_fds(node, "deactivation"); end_sub(s);
    }
}
static void api_delete(int node) {
    if (node < NPUB) {
        PubM& P = W.P[node]; begin_api(node, "rmc_pub_delete_context"); W.t.shutdown = 1;
        rmc_pub_delete_context(P.ctx); chk_no_fds(node, "deletion");
        for (int k = 0; k < P.npk; ++k) if (P.pk[k].st != 3 || (W.t.expfree & ~W.t.gotfree & PB(k))) viol("P24,P04", "payload of packet %d is never released (context deleted)", k + 1);
        for (u32 i = 0; i < H->n; ++i) if (H->e[i].tag == node + 1 && H->e[i].owner == OWN_APP) viol("P24,P04", "a payload given to the publisher is never released (context deleted)");
        rawset(&P, 0, sizeof P); W.in_api = 0;
    } else {
        int s = node - NPUB; SubM& S = W.S[s]; begin_api(node, "rmc_sub_delete_context"); W.t.shutdown = 1;
        u8 kept = S.kept;
        rmc_sub_delete_context(S.ctx); chk_no_fds(node, "deletion");
        if (!C.defalloc && live_subpay(s)) viol("P24,P05", "%u received payloads are never released (context deleted)", live_subpay(s));
        for (int i = 0; i < S.nrx; ++i) if (S.rx[i].type == 1) dg_release(S.rx[i].x);
        for (int x = 0; x < NDG; ++x) if (S.net >> x & 1) dg_release(x);
        rawset(&S, 0, sizeof S); S.kept = kept; W.in_api = 0;
    }
}
static void check_leaks() {
    u32 n = heap_count(OWN_LIB), kept = 0; for (auto& s : W.S) kept += s.kept;
    if (n && kept && n <= kept) { known("P24", "KF3", "%u packet descriptors dispatched with keep-payload are never freed", n); return; }
    if (n) viol("P24,P10,P05", "%u memory blocks allocated by the library are never freed (all contexts deleted)", n);
}
