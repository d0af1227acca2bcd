// Component models: circular buffer (P19), linked list (P20), received intervals (P21).
// Each explores every reachable state of the real component against a reference model.
#pragma once
extern "C" {
#include "circular_buffer.h"
#include "rmc_sub.h"
#include "vp_list.h"
}
struct CompWorld {      // overlays World: `now` first, the rest private to the component
    i64 now; Heap heap; u32 steps, len; circ_buf_t cb; u8* buf;
    vpl L[2]; vpl_node* nd[2][8]; int val[2][8]; u8 cnt[2], custom, pad[5]; u32 live;
    sub_publisher_t pub; u16 got, done, padx[2]; i64 ts[16];
    u16 pos[2];
};
#define CW (*(CompWorld*)ARENA_BASE)
static Heap* comp_heap() { return &CW.heap; }
static int g_cn = 8, g_cdepth = 0, g_cval = 2, g_cw = 6; static u64 g_cbase = 1; static bool g_cdt = true;

// ---------------------------------------------------------------- circular buffer
static u8 ctag(u32 i) { u32 x = i * 2654435761u; x ^= x >> 13; x *= 0x5bd1e995; return (u8)(x >> 11) | 1; }
struct CircModel : Model {
    enum { ALLOC = 1, FREE, TRIM, READS, WRITE };
    std::vector<u32> args() { std::vector<u32> v; u32 n = g_cn;
        if (!g_cdepth) { for (u32 i = 0; i <= n + 1; ++i) v.push_back(i); }
        else { std::set<u32> s{0, 1, 2, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1, n - CW.len - 1, n - CW.len, CW.len, CW.len ? CW.len - 1 : 0, CW.len + 1}; v.assign(s.begin(), s.end()); }
        v.push_back(0x7fffffff); v.push_back(0x80000000u); v.push_back(0xffffffffu); return v; }
    u16* pos() { return CW.pos; }
    void relabel() { rawset(CW.buf, 0, g_cn); for (u32 i = 0; i < CW.len; ++i) CW.buf[pos()[i]] = ctag(i); }
    void init() override { H->mode = 0; CW.buf = (u8*)heap_alloc(g_cn, OWN_APP); g_lib_call = "circ_buf_init"; circ_buf_init(&CW.cb, CW.buf, g_cn); relabel(); status(); }
    void enabled(std::vector<Act>& v) override {
        if (g_cdepth && CW.steps >= (u32)g_cdepth) { v.push_back(Act{READS, 0, 0, 0, 0}); if (CW.steps > (u32)g_cdepth) v.clear(); return; }
        for (u32 x : args()) { v.push_back(Act{ALLOC, 0, 0, 0, x}); v.push_back(Act{FREE, 0, 0, 0, x}); v.push_back(Act{TRIM, 0, 0, 0, x}); }
        v.push_back(Act{READS, 0, 0, 0, 0});
    }
    void status() {
        g_lib_call = "circ_buf_in_use/available";
        if (circ_buf_in_use(&CW.cb) != CW.len) viol("P19", "buffer of %d bytes reports %u bytes in use, %u are", g_cn, circ_buf_in_use(&CW.cb), CW.len);
        else if (circ_buf_available(&CW.cb) != g_cn - 1 - CW.len) viol("P19", "buffer of %d bytes with %u in use reports %u available", g_cn, CW.len, circ_buf_available(&CW.cb));
    }
    void kept(const char* what) { for (u32 i = 0; i < CW.len && !g_pruned; ++i) if (CW.buf[pos()[i]] != ctag(i)) viol("P19", "%s damages the byte at position %u of the queue", what, i); }
    void one_read(u32 off, u32 size, bool plain) {
        u32 want = off > CW.len ? 0 : std::min(size, CW.len - off), got = 12345;
        static std::vector<u8> t; t.assign(want + 8, 0xA5);
        g_lib_call = plain ? "circ_buf_read" : "circ_buf_read_offset";
        int r = plain ? circ_buf_read(&CW.cb, t.data(), size, &got) : circ_buf_read_offset(&CW.cb, off, t.data(), size, &got);
        if (off > CW.len) { if (!r) viol("P19", "peek at offset %u of %u bytes succeeds", off, CW.len); }
        else if (r) viol("P19", "read of %u bytes at offset %u fails (%d) with %u in use", size, off, r, CW.len);
        else if (got != want) viol("P19", "read of %u bytes at offset %u returns %u of %u", size, off, got, want);
        else for (u32 i = 0; i < want; ++i) if (t[i] != ctag(off + i)) { viol("P19", "read of %u bytes at offset %u returns wrong byte %u (%u in use)", size, off, i, CW.len); break; }
        for (int i = 0; i < 8 && !g_pruned; ++i) if (t[want + i] != 0xA5) viol("P19", "read of %u bytes at offset %u writes beyond the bytes it returns", size, off);
        COUNT("reads_compared");
    }
    void reads() {
        CompWorld* w = &CW; circ_buf_t before = w->cb;
        auto av = args();
        for (u32 s : av) { if (g_pruned) return; one_read(0, s, true); }
        for (u32 o : av) for (u32 s : av) { if (g_pruned) return; one_read(o, s, false); }
        for (u32 s : av) {
            if (g_pruned) return;
            u8 *a = 0, *b = 0; u32 al = 7, bl = 7; g_lib_call = "circ_buf_read_segment";
            int r = circ_buf_read_segment(&w->cb, s, &a, &al, &b, &bl); u32 want = std::min(s, w->len);
            if (r) { viol("P19", "segment view fails"); return; }
            if (al + bl != want) { viol("P19", "segment view of %u bytes covers %u+%u instead of %u", s, al, bl, want); return; }
            for (u32 i = 0; i < want; ++i) { u8* q = i < al ? a + i : b + (i - al); if (q < w->buf || q >= w->buf + g_cn || *q != ctag(i)) { viol("P19", "segment view of %u bytes shows a wrong byte at %u", s, i); return; } }
        }
        u32 l = 99; g_lib_call = "circ_buf_free"; circ_buf_free(&w->cb, 0, &l); if (l != w->len) viol("P19", "freeing nothing reports %u bytes in use instead of %u", l, w->len);
        if (memcmp(&before, &w->cb, sizeof before)) { status(); }
        kept("reading");
    }
    void exec(const Act& a) override {
        if (g_cdepth) CW.steps++;
        u32 n = g_cn, x = a.d;
        if (a.k == ALLOC) {
            u8 *s1 = (u8*)1, *s2 = (u8*)1; u32 l1 = 0xdead, l2 = 0xdead; g_lib_call = "circ_buf_alloc";
            int r = circ_buf_alloc(&CW.cb, x, &s1, &l1, &s2, &l2);
            if (x > n - 1 - CW.len) { if (!r) viol("P19", "allocation of %u bytes granted with %u free", x, n - 1 - CW.len); }
            else if (r) viol("P19", "allocation of %u bytes refused (%d) with %u free", x, r, n - 1 - CW.len);
            else if ((u64)l1 + l2 != x) viol("P19", "allocation of %u bytes grants %u+%u", x, l1, l2);
            else {
                static std::vector<u8> used; used.assign(n, 0); for (u32 i = 0; i < CW.len; ++i) used[pos()[i]] = 1;
                for (u32 i = 0; i < x && !g_pruned; ++i) {
                    u8* q = i < l1 ? s1 + i : s2 + (i - l1);
                    if (q < CW.buf || q >= CW.buf + n) { viol("P19", "allocation of %u bytes grants memory outside the storage", x); break; }
                    if (used[q - CW.buf]) { viol("P19", "allocation of %u bytes grants a byte that is in use (or twice)", x); break; }
                    used[q - CW.buf] = 1; pos()[CW.len + i] = q - CW.buf;
                }
                if (!g_pruned) { kept("allocating"); u32 o = CW.len; CW.len += x; for (u32 i = o; i < CW.len; ++i) CW.buf[pos()[i]] = ctag(i); }
            }
        } else if (a.k == FREE) {
            u32 left = 77; g_lib_call = "circ_buf_free"; int r = circ_buf_free(&CW.cb, x, &left); (void)r;
            u32 k = std::min(x, CW.len);
            for (u32 i = k; i < CW.len && !g_pruned; ++i) if (CW.buf[pos()[i]] != ctag(i)) viol("P19", "freeing %u bytes damages the rest", x);
            memmove(pos(), pos() + k, (CW.len - k) * 2); rawset(pos() + CW.len - k, 0, k * 2); CW.len -= k;
            if (left != CW.len) viol("P19", "freeing %u bytes reports %u left instead of %u", x, left, CW.len);
        } else if (a.k == TRIM) {
            g_lib_call = "circ_buf_trim"; circ_buf_trim(&CW.cb, x);
            if (x < CW.len) { rawset(pos() + x, 0, (CW.len - x) * 2); CW.len = x; }
            kept("trimming");
        } else reads();
        if (!g_pruned) status();
        relabel();
    }
    std::string str(const Act& a) override { static const char* nm[] = { "?", "alloc", "free", "trim", "all-reads" }; char b[60]; snprintf(b, sizeof b, a.k == READS ? "%s" : "%s(%u)", nm[a.k < 5 ? a.k : 0], a.d); return b; }
};

// ---------------------------------------------------------------- linked list
static vpl_node* lst_alloc(void* ud) { if (ud != (void*)0x5150) viol("P20", "allocation callback with wrong user data"); CW.live++; return (vpl_node*)heap_alloc(sizeof(vpl_node), OWN_APP); }
static void lst_free(vpl_node* n, void* ud) { if (ud != (void*)0x5150) viol("P20", "free callback with wrong user data"); int i = heap_find(n); if (i < 0) { viol("P20", "node released twice"); return; } CW.live--; heap_free_idx(i); }
static int lkey(int v) { return v >> 4; }
static int lst_cmp(int a, int b, void* ud) { if (ud != (void*)0x77) viol("P20", "compare callback with wrong user data"); return lkey(a) < lkey(b) ? -1 : lkey(a) > lkey(b); }
static int lst_eq(int a, int b, void*) { return lkey(a) == lkey(b); }
static int lst_eqstop(int a, int b, void*) { return lkey(b) == 2 ? -1 : lkey(a) == lkey(b); }
static std::vector<vpl_node*>* g_seen; static int g_stop;
static u8 lst_visit(vpl_node* n, void* ud) { if (ud != (void*)0x99) viol("P20", "for_each callback with wrong user data"); g_seen->push_back(n); return (int)g_seen->size() != g_stop; }
struct ListModel : Model {
    enum { PH = 1, PT, IB, IA, DEL, POPH, POPT, SRT, SRTR, MOVE, POPHN, POPTN, EMPTY };
    int ids() { u32 m = 0; for (int l = 0; l < 2; ++l) for (int i = 0; i < CW.cnt[l]; ++i) m |= 1u << (CW.val[l][i] & 15); return __builtin_ctz(~m); }
    void init() override { H->mode = 0; for (int l = 0; l < 2; ++l) { g_lib_call = "list_init"; if (CW.custom || g_cdt) vpl_init(&CW.L[l], (void*)0x5150, lst_alloc, lst_free); else vpl_init(&CW.L[l], 0, 0, 0); } check(); }
    bool sorted(int l, bool desc) { for (int i = 0; i + 1 < CW.cnt[l]; ++i) { int a = lkey(CW.val[l][i]), b = lkey(CW.val[l][i + 1]); if (desc ? a < b : a > b) return false; } return true; }
    void enabled(std::vector<Act>& v) override {
        auto add = [&](int k, int a, int b = 0, int c = 0, u32 d = 0) { v.push_back(Act{(u8)k, (u8)a, (u8)b, (u8)c, d}); };
        int tot = CW.cnt[0] + CW.cnt[1];
        for (int l = 0; l < 2; ++l) {
            int n = CW.cnt[l];
            if (tot < g_cn) for (int k = 0; k < g_cval; ++k) {
                add(PH, l, k); add(PT, l, k); for (int i = 0; i < n; ++i) { add(IB, l, k, i); add(IA, l, k, i); }
                if (sorted(l, true)) add(SRT, l, k); if (sorted(l, false)) add(SRTR, l, k);
            }
            for (int i = 0; i < n; ++i) add(DEL, l, 0, i);
            add(POPH, l); add(POPT, l); if (n) add(EMPTY, l);
            for (int t = 0; t < 2; ++t) {
                for (int i = 0; i < n; ++i) {
                    for (int w = 0; w < 2; ++w) add(MOVE, l, t, i, w);
                    if (t == l) continue;
                    for (int j = 0; j < CW.cnt[t]; ++j) { add(MOVE, l, t, i, 16 + j); add(MOVE, l, t, i, 32 + j); }
                    if (sorted(t, true)) add(MOVE, l, t, i, 2); if (sorted(t, false)) add(MOVE, l, t, i, 3);
                }
                add(POPHN, l, t); add(POPTN, l, t);
            }
        }
    }
    void put(int l, int at, int v, vpl_node* nd) { int n = CW.cnt[l]; memmove(&CW.val[l][at + 1], &CW.val[l][at], (n - at) * sizeof(int)); memmove(&CW.nd[l][at + 1], &CW.nd[l][at], (n - at) * sizeof(void*)); CW.val[l][at] = v; CW.nd[l][at] = nd; CW.cnt[l]++; }
    void take(int l, int at) { int n = CW.cnt[l]; memmove(&CW.val[l][at], &CW.val[l][at + 1], (n - at - 1) * sizeof(int)); memmove(&CW.nd[l][at], &CW.nd[l][at + 1], (n - at - 1) * sizeof(void*)); CW.val[l][n - 1] = 0; CW.nd[l][n - 1] = 0; CW.cnt[l]--; }
    int place(int l, int v, bool rev) {   // where a sorted insertion goes
        int n = CW.cnt[l];
        if (!rev) { for (int i = 0; i < n; ++i) if (lkey(v) >= lkey(CW.val[l][i])) return i; return n; }
        for (int i = n - 1; i >= 0; --i) if (lkey(v) >= lkey(CW.val[l][i])) return i + 1; return 0;
    }
    void check() {
        for (int l = 0; l < 2 && !g_pruned; ++l) {
            vpl* L = &CW.L[l]; int n = CW.cnt[l];
            g_lib_call = "list walk";
            if ((int)vpl_size(L) != n) { viol("P20", "list reports size %u, it has %d elements", vpl_size(L), n); return; }
            vpl_node* x = vpl_head(L); for (int i = 0; i < n; ++i) { if (x != CW.nd[l][i] || (x && x->data != CW.val[l][i])) { viol("P20", "element %d is wrong when walking forwards", i); return; } x = vpl_next(x); } if (x) { viol("P20", "the forward walk does not end after %d elements", n); return; }
            x = vpl_tail(L); for (int i = n - 1; i >= 0; --i) { if (x != CW.nd[l][i]) { viol("P20", "element %d is wrong when walking backwards", i); return; } x = vpl_prev(x); } if (x) { viol("P20", "the backward walk does not end after %d elements", n); return; }
            for (int rev = 0; rev < 2; ++rev) for (int st = 1; st <= n + 1; ++st) {
                std::vector<vpl_node*> seen; g_seen = &seen; g_stop = st; if (rev) vpl_for_each_rev(L, lst_visit, (void*)0x99); else vpl_for_each(L, lst_visit, (void*)0x99);
                bool ok = (int)seen.size() == std::min(st, n); for (int i = 0; ok && i < (int)seen.size(); ++i) ok = seen[i] == CW.nd[l][rev ? n - 1 - i : i];
                if (!ok) { viol("P20", "for_each%s visits the wrong elements (stop after %d)", rev ? "_rev" : "", st); return; }
            }
            for (int rev = 0; rev < 2; ++rev) for (int k = 0; k < 4; ++k) for (int stp = 0; stp < 2; ++stp) {
                vpl_node* want = 0; for (int q = 0; q < n; ++q) { int i = rev ? n - 1 - q : q; if (stp && lkey(CW.val[l][i]) == 2) break; if (lkey(CW.val[l][i]) == k) { want = CW.nd[l][i]; break; } }
                vpl_node* got = rev ? vpl_find_node_rev(L, k << 4, stp ? lst_eqstop : lst_eq, 0) : vpl_find_node(L, k << 4, stp ? lst_eqstop : lst_eq, 0);
                if (got != want) { viol("P20", "find_node%s finds the wrong element", rev ? "_rev" : ""); return; }
            }
        }
        if (!g_pruned && heap_count(g_cdt ? OWN_APP : OWN_LIB) != (u32)CW.cnt[0] + CW.cnt[1]) viol("P20", "%u nodes are allocated for %d elements", heap_count(g_cdt ? OWN_APP : OWN_LIB), CW.cnt[0] + CW.cnt[1]);
    }
    void exec(const Act& a) override {
        int l = a.a, v = a.b << 4 | ids(), i = a.c; vpl* L = &CW.L[l]; vpl_node* r; int at = 0, out = -1;
        g_lib_call = "list operation";
        switch (a.k) {
        case PH: r = vpl_push_head(L, v); put(l, 0, v, r); break;
        case PT: r = vpl_push_tail(L, v); put(l, CW.cnt[l], v, r); break;
        case IB: r = vpl_insert_before(CW.nd[l][i], v); put(l, i, v, r); break;
        case IA: r = vpl_insert_after(CW.nd[l][i], v); put(l, i + 1, v, r); break;
        case SRT: at = place(l, v, false); r = vpl_insert_sorted(L, v, lst_cmp, (void*)0x77); put(l, at, v, r); break;
        case SRTR: at = place(l, v, true); r = vpl_insert_sorted_rev(L, v, lst_cmp, (void*)0x77); put(l, at, v, r); break;
        case DEL: vpl_delete(CW.nd[l][i]); take(l, i); break;
        case POPH: case POPT: {
            int ok = a.k == POPH ? vpl_pop_head(L, &out) : vpl_pop_tail(L, &out); int n = CW.cnt[l];
            if (!!ok != !!n) { viol("P20", "pop on a list of %d elements answers %d", n, ok); break; }
            if (n) { int w = a.k == POPH ? 0 : n - 1; if (out != CW.val[l][w]) viol("P20", "pop returns the wrong element"); take(l, w); }
            break; }
        case EMPTY: vpl_empty(L); while (CW.cnt[l]) take(l, 0); break;
        case POPHN: case POPTN: {
            int n = CW.cnt[l]; r = a.k == POPHN ? vpl_pop_head_node(L) : vpl_pop_tail_node(L);
            if ((r != 0) != (n != 0)) { viol("P20", "node pop on a list of %d elements answers %s", n, r ? "a node" : "none"); break; }
            if (!n) break;
            int w = a.k == POPHN ? 0 : n - 1; if (r != CW.nd[l][w]) { viol("P20", "node pop returns the wrong node"); break; }
            int vv = CW.val[l][w]; take(l, w); if (vpl_push_tail_node(&CW.L[a.b], r) != r) viol("P20", "push_tail_node returns another node"); put(a.b, CW.cnt[a.b], vv, r);
            break; }
        case MOVE: {
            int t = a.b, how = a.d; vpl_node* nd = CW.nd[l][i]; int vv = CW.val[l][i]; vpl* T = &CW.L[t];
            r = vpl_unlink(nd); if (r != nd) { viol("P20", "unlink returns another node"); break; }
            take(l, i);
            if (how == 0) { vpl_push_head_node(T, nd); put(t, 0, vv, nd); }
            else if (how == 1) { vpl_push_tail_node(T, nd); put(t, CW.cnt[t], vv, nd); }
            else if (how == 2) { at = place(t, vv, false); vpl_insert_sorted_node(T, nd, lst_cmp, (void*)0x77); put(t, at, vv, nd); }
            else if (how == 3) { at = place(t, vv, true); vpl_insert_sorted_node_rev(T, nd, lst_cmp, (void*)0x77); put(t, at, vv, nd); }
            else if (how < 32) { vpl_insert_before_node(CW.nd[t][how - 16], nd); put(t, how - 16, vv, nd); }
            else { vpl_insert_after_node(CW.nd[t][how - 32], nd); put(t, how - 32 + 1, vv, nd); }
            break; }
        }
        if (!g_pruned) check();
    }
    std::string str(const Act& a) override { static const char* nm[] = { "?", "push_head", "push_tail", "insert_before", "insert_after", "delete", "pop_head", "pop_tail", "insert_sorted", "insert_sorted_rev", "move", "pop_head_node", "pop_tail_node", "empty" }; char b[80]; snprintf(b, sizeof b, "%s(list %u,%u,%u,%u)", nm[a.k < 14 ? a.k : 0], a.a, a.b, a.c, a.d); return b; }
};

// ---------------------------------------------------------------- received intervals
struct IntervalModel : Model {
    enum { ADD = 1, TAKE };
    void init() override { H->mode = 0; CW.now = 1000000; g_lib_call = "sub_init_publisher"; sub_init_publisher(&CW.pub); check(); }
    void enabled(std::vector<Act>& v) override {
        for (int r = 0; r < g_cw; ++r) if (!((CW.got | CW.done) >> r & 1)) for (u32 dt : {0u, 10u}) if (g_cdt || dt) v.push_back(Act{ADD, (u8)r, 0, 0, dt});
        if (CW.got) v.push_back(Act{TAKE, 0, 0, 0, 0});
    }
    void check() {
        g_lib_call = "interval list walk"; i64 oldest = 0; bool any = false;
        sub_pid_interval_node_t* x = sub_pid_interval_list_head(&CW.pub.received_interval); u32 n = 0;
        for (int r = 0; r < g_cw; ++r) {
            if (!(CW.got >> r & 1)) continue;
            int e = r; i64 ts = CW.ts[r]; while (e + 1 < g_cw && (CW.got >> (e + 1) & 1)) { ++e; ts = std::min(ts, CW.ts[e]); }
            if (!any || ts < oldest) oldest = ts;
            any = true;
            if (!x) { viol("P21", "received packets %d..%d are in no range", r, e); return; }
            if (x->data.first_pid != g_cbase + r || x->data.last_pid != g_cbase + e) { viol("P21", "range [%llu,%llu] recorded where packets %llu..%llu were received", (unsigned long long)x->data.first_pid, (unsigned long long)x->data.last_pid, (unsigned long long)(g_cbase + r), (unsigned long long)(g_cbase + e)); return; }
            if (x->data.receive_ts != ts) { viol("P21", "range [%d,%d] is dated %lld, its earliest packet arrived at %lld", r, e, (long long)x->data.receive_ts, (long long)ts); return; }
            x = sub_pid_interval_list_next(x); ++n; r = e;
        }
        if (x) { viol("P21", "a range that covers no received packet is recorded"); return; }
        if (sub_pid_interval_list_size(&CW.pub.received_interval) != n) { viol("P21", "number of ranges is reported as %u, it is %u", sub_pid_interval_list_size(&CW.pub.received_interval), n); return; }
        i64 o = sub_oldest_unacknowledged_packet(&CW.pub);
        if (o != (any ? oldest : 0)) viol("P21", "oldest unacknowledged packet is dated %lld instead of %lld", (long long)o, (long long)(any ? oldest : 0));
    }
    void exec(const Act& a) override {
        if (a.k == ADD) { CW.now += a.d; g_lib_call = "sub_packet_add_to_received_interval"; sub_packet_add_to_received_interval(&CW.pub, g_cbase + a.a); CW.got |= 1 << a.a; CW.ts[a.a] = CW.now; COUNT("packets_recorded"); }
        else {   // the oldest-numbered range is acknowledged
            sub_pid_interval_t iv; g_lib_call = "sub_pid_interval_list_pop_head";
            if (!sub_pid_interval_list_pop_head(&CW.pub.received_interval, &iv)) { viol("P21", "no range to acknowledge"); return; }
            int r = 0; while (!(CW.got >> r & 1)) ++r; for (; r < g_cw && (CW.got >> r & 1); ++r) { CW.got &= ~(1 << r); CW.done |= 1 << r; CW.ts[r] = 0; }
        }
        check();
    }
    void terminal() override { sub_pid_interval_list_empty(&CW.pub.received_interval); if (heap_count(OWN_LIB)) viol("P21", "ranges are leaked"); }
    std::string str(const Act& a) override { char b[60]; if (a.k == ADD) snprintf(b, sizeof b, "receive(%llu, +%uus)", (unsigned long long)(g_cbase + a.a), a.d); else snprintf(b, sizeof b, "acknowledge-first-range"); return b; }
};
