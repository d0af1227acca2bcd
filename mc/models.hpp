// Reference models of a publisher and a subscriber, run in lockstep with the real
// code: they predict, from what went over the (simulated) wire and which API calls
// were made, everything that is observable at the API.
#pragma once
#include "world.hpp"

static const i64 RESEND_US = 100000, ACK_US = 50000;
static void conn_free_check(int ci);
static u64 chash(const void* p, u32 n) { return hash_bytes(p, n, 77); }
static u16 plen_of(int src, int rel) { return rpub(src) ? W.P[src].pk[rel].len : gen_len(rel); }
static u64 pid_of(int src, int rel) { return (rpub(src) ? 1 : C.pid0[src & 7]) + rel; }
static int rel_of(int src, u64 pid) { u64 r = pid - (rpub(src) ? 1 : C.pid0[src & 7]); return r < NPID && (rpub(src) ? r < W.P[src].npk : r < (u64)C.gn) ? (int)r : -1; }

// ---------------------------------------------------------------- publisher
static int p_slot_of_addr(int p, u32 ip, u16 port) { for (int i = 0; i < MAXC; ++i) if (W.P[p].c[i].st && W.conn[W.P[p].c[i].conn].cip == ip && W.conn[W.P[p].c[i].conn].cport == port) return i; return -1; }
static int p_slot_of(int p, int ci) { for (int i = 0; i < MAXC; ++i) if (W.P[p].c[i].st && W.P[p].c[i].conn == ci) return i; return -1; }
static cm_t p_connmask(int p) { cm_t m = 0; for (int i = 0; i < MAXC; ++i) if (W.P[p].c[i].st) m |= CB(i); return m; }
static int s_nsess(int s) { int n = 0; for (auto& m : W.S[s].s) n += m.st != 0; return n; }
static int past() {
    int n = W.cur; bool sub = n >= NPUB; if (sub ? n - NPUB >= NRS : n >= NRP) return 0;
    cm_t used = sub ? W.S[n - NPUB].used : W.P[n].used, re = sub ? W.S[n - NPUB].reused : W.P[n].reused, up = 0; int acts = sub ? W.S[n - NPUB].acts : W.P[n].acts;
    for (int i = 0; i < MAXC; ++i) if (sub ? W.S[n - NPUB].s[i].st : W.P[n].c[i].st) up |= CB(i);
    return (re ? 1 : 0) | (re || (used & ~up) ? 2 : 0) | (acts > 1 ? 4 : 0) | (W.b_fault && !W.flt.kind ? 8 : 0) | (W.b_junk ? 16 : 0) | (sub && re ? 32 : 0);
}
static int p_unacked(int p) { int n = 0; for (int i = 0; i < W.P[p].npk; ++i) n += W.P[p].pk[i].st == 2; return n; }
static int p_queued(int p) { int n = 0; for (int i = 0; i < W.P[p].npk; ++i) n += W.P[p].pk[i].st == 1; return n; }
static int p_annq(int p) { int n = 0; for (auto& a : W.P[p].ann) n += a.used; return n; }
static void p_disown(int p, int k, int slot) {
    MPkt& q = W.P[p].pk[k];
    if (!(q.own >> slot & 1)) return;
    q.own &= ~CB(slot);
    if (q.st == 2 && !q.own) { q.st = 3; W.t.expfree |= PB(k); }
}
static bool p_full(int p) { int n = 0; for (auto& c : W.P[p].c) n += c.st != 0; return n >= C.maxc_pub; }
static void m_pub_accepted(int p, int ci, int) {
    W.t.nconnfd++; if (W.flt.kind) W.t.mayclose |= KB(ci);
    if (p_full(p)) { W.t.mayclose |= KB(ci); W.t.mustclose |= KB(ci); COUNT("surplus_connections"); }
}
static void m_pub_slot(int p, int ci, int idx) {
    MPC& c = W.P[p].c[idx];
    if (c.st) { viol("P15", "slot %d of publisher %d is given to a new connection while still in use", idx, p); return; }
    W.P[p].reused |= W.P[p].used & CB(idx); W.P[p].used |= CB(idx);
    rawset(&c, 0, sizeof c); c.st = 1; c.conn = ci; c.veto = W.conn[ci].err == 201;
    if (c.veto) { W.t.mayclose |= KB(ci); W.t.mustclose |= KB(ci); }
    if (!C.nocb) { AddrX& x = W.t.conn[W.t.nexpconn & 3]; W.t.nexpconn++; x.ip = W.conn[ci].cip; x.port = W.conn[ci].cport; }
}
static void m_pub_closed(int p, int ci) {
    int s = p_slot_of(p, ci);
    if (!(W.t.mayclose >> ci & 1) && !W.t.shutdown && !(s >= 0 && W.P[p].c[s].bad) && !(W.t.faulted == F_SETSOCKOPT || W.t.faulted == F_FCNTL)) viol(ccount(p_connmask(p)) > 1 ? "P16,P18,P17,P14,P15,P25" : "P16,P18,P17,P14", "publisher %d closes the connection in slot %d which is up", p, s);
    if (s < 0) return;
    PubM& P = W.P[p]; MPC& c = P.c[s];
    if (!C.nocb) { AddrX& x = W.t.disc[W.t.nexpdisc]; if (W.t.nexpdisc < MAXC) W.t.nexpdisc++; x.ip = W.conn[ci].cip; x.port = W.conn[ci].cport; x.opt = c.veto; x.hit |= 2; }
    for (int k = 0; k < W.P[p].npk; ++k) { p_disown(p, k, s); W.P[p].pk[k].trk &= ~CB(s); }
    rawset(&c, 0, sizeof c); P.loose &= ~CB(s);
}
static void net_push(int p, const u8* b, u32 len);
static void m_pub_datagram(int p, const u8* b, u32 len, u32 ip, u16 port) {
    PubM& P = W.P[p];
    if (ip != GROUP_IP || port != GROUP_PORT) viol("P26", "datagram sent to %08x:%u instead of the configured group", ip, port);
    if (len < HDR) { viol("P26", "datagram of %u bytes has no complete header", len); return; }
    u64 pid = get64(b); u32 node = get32(b + 8); u16 pl = get16(b + 12); u32 lip = get32(b + 14); u16 lport = get16(b + 18);
    if (node != PUB_NODE(p)) viol("P26,P10", "datagram carries node id %x instead of %x", node, PUB_NODE(p));
    if (lip != hdr_ip(p) || lport != pub_port(p)) viol("P26,P10", "datagram announces control address %08x:%u instead of %08x:%u", lip, lport, hdr_ip(p), pub_port(p));
    if (pl != len - HDR) viol("P26,P03", "datagram of %u bytes says its payload has %u", len, pl);
    if (!pid) {
        bool ok = false;
        for (auto& a : P.ann) if (a.used && a.len == len - HDR && a.hash == chash(b + HDR, len - HDR)) { if (a.pad == 1) W.t.expann++; rawset(&a, 0, sizeof a); ok = true; break; }
        if (!ok) { viol("P10,P22,P26", "announcement datagram (payload %u bytes) that is not what the announce callback provided", len - HDR); return; }
    } else {
        int k = 0; while (k < P.npk && P.pk[k].st != 1) ++k;
        if (k == P.npk) { viol("P22", "packet %llu multicast although nothing is queued", (unsigned long long)pid); return; }
        if (pid != (u64)k + 1) { viol("P22", "packet number %llu multicast where %d is next", (unsigned long long)pid, k + 1); return; }
        if (len - HDR != P.pk[k].len) viol("P22,P03", "packet %d multicast with %u payload bytes instead of %u", k + 1, len - HDR, P.pk[k].len);
        for (u32 i = 0; i < len - HDR; ++i) if (b[HDR + i] != pat(p, k, i)) { viol("P22,P03", "packet %d multicast with wrong byte at %u", k + 1, i); return; }
        P.pk[k].st = 2; P.pk[k].ts = W.now; P.pk[k].own = P.pk[k].trk = p_connmask(p);
        if (!P.pk[k].own) { P.pk[k].st = 3; W.t.expfree |= PB(k); }
        COUNT("packets_multicast");
    }
    net_push(p, b, len);
}
static void m_pub_cmds(int p, int slot) {
    PubM& P = W.P[p]; MPC& c = P.c[slot];
    for (;;) {
        if (!c.pin || c.bad) return;
        u32 used = 0;
        if (c.in[0] == 2) {
            if (c.pin < 17) return;
            u64 f = get64(c.in + 1), l = get64(c.in + 9); used = 17;
            for (int k = 0; k < P.npk; ++k) if ((u64)k + 1 >= f && (u64)k + 1 <= l && P.pk[k].st == 2) p_disown(p, k, slot);
            COUNT("acks_processed");
        } else if (c.in[0] == 3) {
            if (c.pin < 3) return;
            u32 l = get16(c.in + 1);
            if (3 + l > BUFCAP) { c.bad = 1; c.pin = 0; rawset(c.in, 0, ICAP); P.loose |= CB(slot); return; }   // can never be complete in the buffer
            if (c.pin < 3 + l) return;
            used = 3 + l;
            if (!C.nocb) { if (W.t.nctl >= 8) harness_bug("ctl overflow"); CtlX& x = W.t.ctl[W.t.nctl++]; x.len = l; x.hash = chash(c.in + 3, l); x.ip = W.conn[c.conn].cip; x.port = W.conn[c.conn].cport; }
            COUNT("control_messages_received");
        } else { c.bad = 1; c.pin = 0; rawset(c.in, 0, ICAP); W.t.mayclose |= KB(c.conn); W.t.mustclose |= KB(c.conn); COUNT("protocol_violations"); return; }
        memmove(c.in, c.in + used, c.pin - used); rawset(c.in + c.pin - used, 0, used); c.pin -= used;
    }
}
static int g_rd_conn;   // connection whose stream the library is reading
static void m_pub_stream(int p, int slot, const u8* b, u32 k) {
    if (slot >= MAXC || !W.P[p].c[slot].st) { viol("P15,P16", "publisher reads from a connection whose slot it gave up"); return; }
    MPC& c = W.P[p].c[slot]; g_rd_conn = c.conn; if (c.bad) return;
    if (c.pin + k > ICAP) harness_bug("pub in overflow");
    rawcpy(c.in + c.pin, b, k); c.pin += k;
    m_pub_cmds(p, slot);
}
static u8 resend_byte(int p, int k, u32 off) {
    u8 h[HDR + 1];
    if (off >= HDR + 1) return pat(p, k, off - HDR - 1);
    h[0] = 1; mk_hdr(h + 1, k + 1, PUB_NODE(p), W.P[p].pk[k].len, hdr_ip(p), pub_port(p));
    return h[off];
}
static void m_pub_wrote(int p, int slot, const u8* b, u32 n) {
    if (slot >= MAXC || !W.P[p].c[slot].st) { viol("P15,P16", "publisher writes to a connection whose slot it gave up"); return; }
    MPC& c = W.P[p].c[slot];
    if (n > c.obytes) { viol("P07,P14,P26,P25", "publisher %d writes %u bytes to slot %d where %u are due", p, n, slot, c.obytes); return; }
    for (u32 i = 0; i < n; ++i) {
        int k = c.rq[0];
        u8 want = resend_byte(p, k, c.rpos);
        if (b[i] != want) { viol(c.rpos <= HDR ? "P07,P14,P26,P03,P25,P02,P01" : "P07,P14,P26,P03,P25", "byte %u of the retransmission of packet %d to slot %d is %02x, not %02x", c.rpos, k + 1, slot, b[i], want); return; }
        if (++c.rpos == 1u + HDR + W.P[p].pk[k].len) { c.rpos = 0; memmove(c.rq, c.rq + 1, (MAXPK - 1) * sizeof c.rq[0]); c.rq[MAXPK - 1] = 0; c.nrq--; COUNT("packets_retransmitted"); }
    }
    c.obytes -= n;
}
// What processing timeouts now has to do.
static void m_pub_timeout(int p) {
    PubM& P = W.P[p];
    if (P.ann_int && P.ann_next && P.ann_next <= W.now) {
        W.t.annapi_exp = C.anncb ? 1 : 0;
        P.ann_next = W.now + P.ann_int;
        if (!C.anncb) { MAnn* a = 0; for (auto& x : P.ann) if (!x.used) { a = &x; break; } if (!a) harness_bug("ann overflow"); a->used = 1; a->opt = P.susp; a->len = 0; a->hash = chash("", 0); }
    }
    for (int s = 0; s < MAXC; ++s) {
        MPC& c = P.c[s]; if (!c.st) continue;
        for (int k = 0; k < P.npk; ++k) {
            if (P.pk[k].st != 2 || !(P.pk[k].own >> s & 1)) continue;
            if (P.pk[k].ts + RESEND_US > W.now) break;
            u32 need = 1 + HDR + P.pk[k].len;
            if (c.obytes + need > BUFCAP) break;
            c.rq[c.nrq++] = k; c.obytes += need; COUNT("resends_queued");
            p_disown(p, k, s);
        }
    }
}
static bool p_ack_due(int p) {     // something a timeout call would have to do besides announcing
    PubM& P = W.P[p];
    for (int k = 0; k < P.npk; ++k) if (P.pk[k].st == 2 && P.pk[k].own && P.pk[k].ts + RESEND_US <= W.now) return true;
    return false;
}
static i64 p_next(int p) {
    PubM& P = W.P[p]; i64 r = -1;
    for (int k = 0; k < P.npk; ++k) if (P.pk[k].st == 2 && P.pk[k].own && (r < 0 || P.pk[k].ts + RESEND_US < r)) r = P.pk[k].ts + RESEND_US;
    if (P.ann_next && (r < 0 || P.ann_next < r)) r = P.ann_next;
    return r;
}

// ---------------------------------------------------------------- subscriber
static int s_by_conn(int s, int ci) { for (int i = 0; i < MAXC; ++i) if (W.S[s].s[i].st && W.S[s].s[i].conn == ci) return i; return -1; }
static int s_by_addr(int s, u32 ip, u16 port) { for (int i = 0; i < MAXC; ++i) { MSess& m = W.S[s].s[i]; if (m.st && W.conn[m.conn].dip == ip && W.conn[m.conn].dport == port) return i; } return -1; }
static int s_count(int s) { int n = 0; for (auto& m : W.S[s].s) n += m.st != 0; return n; }
static int pub_by_addr(u32 ip, u16 port) { for (int p = 0; p < npub(); ++p) if (pub_ip(p) == ip && pub_port(p) == port) return p; return NOPUB; }
static void m_sub_flush(int s) {   // everything the previous datagram demanded has happened
    Tx& t = W.t;
    if (t.ann_exp && !t.ann_got) viol("P11", "announcement from an unsubscribed publisher did not reach the announce callback");
    if (t.conn_exp && !t.conn_got) viol("P11,P15", "accepted announcement of %08x:%u did not start a connection", t.conn_ip, t.conn_port);
    t.ann_exp = t.ann_opt = t.ann_got = t.conn_exp = t.conn_got = 0; t.ann_hash = 0; t.ann_ip = t.ann_node = t.conn_ip = 0; t.ann_port = t.ann_len = t.conn_port = 0;
    (void)s;
}
static void m_sub_connect(int s, u32 ip, u16 port) {
    Tx& t = W.t;
    if (!t.conn_exp) viol("P11", "subscriber %d connects to %08x:%u although nothing asked for it", s, ip, port);
    else if (t.conn_got) viol("P11", "subscriber %d connects twice for one announcement", s);
    else if (ip != t.conn_ip || port != t.conn_port) viol("P11", "subscriber %d connects to %08x:%u instead of the announced %08x:%u", s, ip, port, t.conn_ip, t.conn_port);
    t.conn_got = 1; t.nconnfd++;
}
static void m_sub_connect_failed(int) {}
static void m_sub_slot(int s, int ci, int idx) {
    MSess& m = W.S[s].s[idx];
    if (m.st) { viol("P15", "slot %d of subscriber %d is given to a new connection while still in use", idx, s); return; }
    W.S[s].reused |= W.S[s].used & CB(idx); W.S[s].used |= CB(idx);
    rawset(&m, 0, sizeof m); m.st = 1; m.conn = ci; m.src = pub_by_addr(W.conn[ci].dip, W.conn[ci].dport);
}
static void s_advance(int s, int slot) {
    MSess& m = W.S[s].s[slot]; SubM& S = W.S[s];
    while (m.base + m.nd < NPID && (m.got >> (m.base + m.nd) & 1)) {
        if (S.nr >= NRDY) harness_bug("ready overflow");
        MRdy& r = S.r[S.nr++]; r.src = m.src; r.rel = m.base + m.nd; r.slot = slot; m.nd++; W.t.grew = 1;
    }
}
static void s_receive(int s, int slot, u64 pid, u32 plen, const u8* pay, bool tcp) {
    MSess& m = W.S[s].s[slot];
    if (m.wild) return;
    int rel = m.src < NG ? rel_of(m.src, pid) : -1;
    if (rel < 0 || plen != plen_of(m.src, rel)) { m.wild = 1; W.S[s].loose = 1; W.t.grew = 0; return; }
    for (u32 i = 0; i < plen; ++i) if (pay[i] != pat(m.src, rel, i)) { m.wild = 1; W.S[s].loose = 1; return; }
    if (!m.hasbase) { m.hasbase = 1; m.base = rel; m.nd = 0; }
    else if (rel < m.base + m.nd || (m.got >> rel & 1)) { COUNT("duplicates_offered"); return; }
    m.got |= PB(rel);
    if (!tcp) { m.apend |= PB(rel); m.ats[rel] = W.now; } else m.tcpgot |= PB(rel);
    s_advance(s, slot);
}
static void s_early(int s, int src, u64 pid) { int r = src < NG ? rel_of(src, pid) : -1; if (r >= 0) W.S[s].early[src] |= PB(r); }   // multicast before the subscription was set up
static int g_dgram_outcome;   // what the last datagram read was, -1: open
static void m_sub_datagram(int s, int src, const u8* b, u32 len) {
    m_sub_flush(s); g_dgram_outcome = -1;
    if (len < HDR) { COUNT("malformed_datagrams"); return; }
    u64 pid = get64(b); u32 node = get32(b + 8); u16 pl = get16(b + 12); u32 lip = get32(b + 14); u16 lport = get16(b + 18);
    if (len < HDR + (u32)pl) { COUNT("malformed_datagrams"); return; }
    if (!lip) lip = pub_ip(src);
    int i = s_by_addr(s, lip, lport); Tx& t = W.t;
    if (i < 0) {
        if (pid) { COUNT("data_from_unsubscribed"); s_early(s, src, pid); return; }
        t.ann_ip = lip; t.ann_port = lport; t.ann_node = node; t.ann_len = pl; t.ann_hash = chash(b + HDR, pl);
        if (C.anncb) t.ann_exp = 1;
        else if (s_count(s) < C.maxc_sub) { t.conn_exp = 1; t.conn_ip = lip; t.conn_port = lport; }
        COUNT("announcements_received");
        return;
    }
    MSess& m = W.S[s].s[i];
    g_dgram_outcome = m.st == 1 ? RMC_READ_MULTICAST_NOT_READY : pid && !m.wild ? RMC_READ_MULTICAST : -1;
    if (m.st == 1) { if (!pid && C.anncb) { t.ann_opt = 1; t.ann_ip = lip; t.ann_port = lport; t.ann_node = node; t.ann_len = pl; t.ann_hash = chash(b + HDR, pl); } if (pid) s_early(s, src, pid); return; }
    if (!pid) return;
    s_receive(s, i, pid, pl, b + HDR, false);
}
static void m_sub_stream(int s, int slot, const u8* b, u32 k) {
    if (slot >= MAXC || !W.S[s].s[slot].st) { viol("P15,P16", "subscriber reads from a connection whose slot it gave up"); return; }
    MSess& m = W.S[s].s[slot]; g_rd_conn = m.conn; if (m.bad) return;
    if (m.pin + k > ICAP) harness_bug("sub in overflow");
    rawcpy(m.in + m.pin, b, k); m.pin += k;
    for (;;) {
        if (!m.pin) return;
        if (m.in[0] != 1) { m.bad = 1; m.pin = 0; rawset(m.in, 0, ICAP); W.t.mayclose |= KB(m.conn); W.t.mustclose |= KB(m.conn); COUNT("protocol_violations"); return; }
        if (m.pin < 1 + HDR) return;
        u32 pl = get16(m.in + 1 + 12);
        if (1 + HDR + pl > BUFCAP) { m.bad = 2; m.wild = 1; W.S[s].loose = 1; m.pin = 0; rawset(m.in, 0, ICAP); W.t.mayclose |= KB(m.conn); return; }
        if (m.pin < 1 + HDR + pl) return;
        s_receive(s, slot, get64(m.in + 1), pl, m.in + 1 + HDR, true);
        u32 used = 1 + HDR + pl;
        memmove(m.in, m.in + used, m.pin - used); rawset(m.in + m.pin - used, 0, used); m.pin -= used;
        COUNT("retransmissions_received");
    }
}
static void m_sub_wrote(int s, int slot, const u8* b, u32 k) {
    if (slot >= MAXC || !W.S[s].s[slot].st) { viol("P15,P16", "subscriber writes to a connection whose slot it gave up"); return; }
    MSess& m = W.S[s].s[slot]; if (m.wild) return;
    if (k > m.pout) { viol("P06,P14,P26,P13,P21", "subscriber %d writes %u bytes to slot %d where %u are due", s, k, slot, m.pout); return; }
    for (u32 i = 0; i < k; ++i) if (b[i] != m.out[i]) { viol("P06,P13,P14,P26,P21", "byte %u written by subscriber %d to slot %d is %02x, not %02x", i, s, slot, b[i], m.out[i]); return; }
    memmove(m.out, m.out + k, m.pout - k); rawset(m.out + m.pout - k, 0, k); m.pout -= k;
}
static u32 live_subpay(int s) { u32 n = 0; for (u32 i = 0; i < H->n; ++i) n += H->e[i].owner == OWN_SUBPAY && H->e[i].tag == s; return n; }
static u32 s_held(int s) { u32 n = W.S[s].nr; for (auto& m : W.S[s].s) if (m.st && m.hasbase) n += pcount(m.got) - m.nd; return n; }
static void m_sub_closed(int s, int ci) {
    int i = s_by_conn(s, ci);
    if (!(W.t.mayclose >> ci & 1) && !W.t.shutdown && !W.t.faulted && !(i >= 0 && W.S[s].s[i].bad)) viol(s_nsess(s) > 1 ? "P16,P18,P17,P14,P15,P25" : "P16,P18,P17,P14", "subscriber %d closes the connection in slot %d which is up", s, i);
    if (i >= 0) rawset(&W.S[s].s[i], 0, sizeof(MSess));
}
static void m_sub_timeout(int s) {
    for (auto& m : W.S[s].s) {
        if (m.st != 2 || !m.apend || m.wild) continue;
        i64 o = -1; for (int r = 0; r < NPID; ++r) if (m.apend >> r & 1) if (o < 0 || m.ats[r] < o) o = m.ats[r];
        if (o + ACK_US > W.now) continue;
        for (int r = 0; r < NPID; ++r) {
            if (!(m.apend >> r & 1)) continue;
            int e = r; while (e + 1 < NPID && (m.apend >> (e + 1) & 1)) ++e;
            if (m.pout + 17 > BUFCAP) break;
            m.out[m.pout] = 2; put64(m.out + m.pout + 1, pid_of(m.src, r)); put64(m.out + m.pout + 9, pid_of(m.src, e)); m.pout += 17;
            for (int x = r; x <= e; ++x) { m.apend &= ~PB(x); m.ats[x] = 0; }
            COUNT("ack_ranges_queued");
            r = e;
        }
    }
}
static i64 s_next(int s) {
    i64 o = -1;
    for (auto& m : W.S[s].s) if (m.st == 2 && !(m.wild && W.probing)) for (int r = 0; r < NPID; ++r) if (m.apend >> r & 1) if (o < 0 || m.ats[r] < o) o = m.ats[r];
    return o < 0 ? -1 : o + ACK_US;
}
// ---------------------------------------------------------------- network
static void net_push(int, const u8* b, u32 len) {
    if (!C.rs || W.probing == 9) return;
    if (len > DCAP) harness_bug("datagram too large for the network model");
    int x = -1; for (int i = 0; i < NDG; ++i) if (!W.dg[i].used) { x = i; break; }
    u8 n = 0;
    for (int s = 0; s < C.rs; ++s) {
        bool member = false; for (auto& f : W.fd) if (f.kind == FD_MCAST_RX && f.owner == NPUB + s && f.member == 1 && f.bound && f.port == GROUP_PORT) member = true;
        if (member) { if (x < 0) harness_bug("network full"); W.S[s].net |= PB(x); ++n; }
    }
    if (n) { W.dg[x].used = n; W.dg[x].src = W.cur; W.dg[x].len = len; rawcpy(W.dg[x].d, b, len); }
}
static void dg_release(int x) { if (!--W.dg[x].used) rawset(&W.dg[x], 0, sizeof(Dg)); }
static std::vector<std::vector<u8>> g_raw;     // hostile datagrams (immutable, per configuration)
static u32 dgram_bytes(int, const RxEnt& r, u8* o) {
    switch (r.type) {
    case 1: rawcpy(o, W.dg[r.x].d, W.dg[r.x].len); return W.dg[r.x].len;
    case 2: { u32 l = gen_len(r.x); mk_hdr(o, C.pid0[r.src & 7] + r.x, PUB_NODE(r.src), l, hdr_ip(r.src), pub_port(r.src)); for (u32 i = 0; i < l; ++i) o[HDR + i] = pat(r.src, r.x, i); return HDR + l; }
    case 3: { u32 l = C.annlens[r.x % C.annlens.size()]; mk_hdr(o, 0, PUB_NODE(r.src), l, hdr_ip(r.src), pub_port(r.src)); for (u32 i = 0; i < l; ++i) o[HDR + i] = apat(r.src, r.x, i); return HDR + l; }
    default: { auto& v = g_raw[r.x]; rawcpy(o, v.data(), v.size()); return v.size(); }
    }
}
