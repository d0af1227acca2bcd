// Explicit-state model checking of the real library code: arena, deterministic
// heap, snapshot/restore, state hashing, depth-first search, replay and reports.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" char __start_vplibdata[] __attribute__((weak));
extern "C" char __stop_vplibdata[] __attribute__((weak));
extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:handle_abort=1:handle_sigfpe=1:handle_sigill=1:handle_segv=1:quarantine_size_mb=1:"
           "abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "detect_odr_violation=0:max_malloc_fill_size=0:print_legend=0:print_full_thread_history=0:poison_heap=1";
}

// ---------------------------------------------------------------- raw copies (not intercepted by ASan)
static inline void rawcpy(void* d, const void* s, size_t n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static inline void rawset(void* d, int v, size_t n) {
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}

// ---------------------------------------------------------------- arena
#ifndef ARENA_SIZE
#define ARENA_SIZE (64ull << 20)
#endif
#define ARENA_BASE 0x200000000000ull
#define SHADOW(a) ((u8*)(((u64)(a) >> 3) + 0x7fff8000ull))
enum { OWN_LIB = 1, OWN_APP = 2, OWN_SUBPAY = 3 };
#ifndef MAXALLOC
#define MAXALLOC 160
#endif
#define REDZONE 16u
struct HeapEnt { u32 off, size; u8 owner, tag; u16 aux; };
struct Heap {
    u32 n;          // live allocations, sorted by offset
    u32 end;        // end of the used part of the heap
    u32 bump;       // never-reuse mode: next offset
    u8 mode;        // 0 first fit, 1 never reuse
    u8 failnext;
    u16 pad;
    HeapEnt e[MAXALLOC];
};

struct WorldBase;                    // the harness' state struct starts at ARENA_BASE
static size_t g_world_size;          // bytes
static u64 g_heap_base;
static Heap* H;                      // lives inside the world

#if defined(VP_HUGE) || defined(VP_MANY)
struct Act { u16 k, a, b, c; u32 d; };   // no padding: compared bytewise
static_assert(sizeof(Act) == 12, "");
#else
struct Act { u8 k, a, b, c; u32 d; };
static_assert(sizeof(Act) == 8, "");
#endif

// ---------------------------------------------------------------- reporting
static std::string g_prop = "P00";   // property being decided
static std::set<std::string> g_known, g_known_hit;
static const char* g_replay_out = 0;
static std::string g_cfgname, g_harness = "?";
static std::vector<Act> g_path;      // current path (root first)
static std::map<std::string, u64> g_count;
static volatile u64 g_heartbeat;
static volatile bool g_pruned;
static bool g_noted;     // a divergence of another property was passed over: the model may be out of step with the code
static bool g_replaying = false, g_verbose = false;
static volatile int g_in_lib = 0;
static const char* g_lib_call = "";
static std::string (*g_actstr)(const Act&) = 0;
static u64 g_n_states, g_n_trans, g_n_term, g_n_pruned, g_maxdepth;
static bool g_exhausted = true;
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define COUNT(x) do { static u64& c__ = g_count[x]; ++c__; } while (0)
static std::vector<std::string> g_samples;

static void write_replay(const char* prop, const char* msg) {
    if (!g_replay_out || g_replaying) return;
    FILE* f = fopen(g_replay_out, "w");
    if (!f) return;
    fprintf(f, "harness %s\nconfig %s\nproperty %s\nmessage %s\n", g_harness.c_str(), g_cfgname.c_str(), prop, msg);
    for (auto& a : g_path) fprintf(f, "act %u %u %u %u %u  # %s\n", a.k, a.a, a.b, a.c, a.d, g_actstr ? g_actstr(a).c_str() : "");
    fclose(f);
}
// What the context the library is working for has been through: 1 a connection slot was reused, 2 a connection was lost or
// closed, 4 it was activated again, 8 a system call failed, 16 malformed input was sent, 32 a subscriber's slot was reused.
static int (*g_past)();
// Misbehaviour (first met) after one of these is a failure of the property that says it leaves no trace.
static const struct { const char* prop; int bit; const char* labels; } g_trace[] = {
    {"P15", 1, "P01,P02,P04,P06,P07,P13,P16,P22,P25"},
    {"P11", 32, "P01,P02,P03,P05,P06,P13"},
    {"P16", 2, "P01,P02,P03,P04,P05,P06,P07,P08,P12,P13,P15,P22,P23"},
    {"P24", 4, "P01,P02,P04,P05,P06,P07,P08,P09,P10,P11,P12,P13,P15,P22,P23"},
    {"P18", 8, "P01,P02,P03,P04,P05,P06,P07,P12,P13,P16,P22,P24"},
    {"P17", 16, "P01,P02,P03,P04,P05,P06,P07,P12,P13,P16,P22,P25"},
};
static void finish_violation(const char* prop, const char* msg) {
    static int once = 0;
    if (once++) _exit(1);
    signal(SIGPROF, SIG_IGN);
    write_replay(prop, msg);
    fflush(stdout);
    char buf[2200];
    int n = snprintf(buf, sizeof buf, "VIOL %s config=%s depth=%zu: %s\n", prop, g_cfgname.c_str(), g_path.size(), msg);
    if (n > (int)sizeof buf) n = sizeof buf;
    ssize_t r = write(1, buf, n); (void)r;
    _exit(1);
}
// A statement of property `prop` fails.  Only the property under check alarms; a
// divergence that belongs to another property cuts the branch (viol: the model can
// no longer follow) or is passed over (note: a query that leaves the model intact).
static void diverge(const char* prop, bool cut, const char* fmt, va_list ap) {
    if (g_pruned) return;
    char msg[1800];
    vsnprintf(msg, sizeof msg, fmt, ap);
    bool mine = false;   // prop may be a list "P04,P05"
    for (const char* p = prop; *p;) {
        const char* q = strchr(p, ','); size_t n = q ? (size_t)(q - p) : strlen(p);
        if (g_prop.compare(0, std::string::npos, p, n) == 0) mine = true;
        p += n + (q ? 1 : 0);
    }
    if (!mine && g_past) for (auto& t : g_trace) if (g_prop == t.prop && (g_past() & t.bit))
        for (const char* p = prop; *p; p += strcspn(p, ","), p += *p == ',') if (strstr(t.labels, std::string(p, strcspn(p, ",")).c_str())) mine = true;
    if (g_prop == "ANY") {
        cut = true;
        if (getenv("VP_STOPCUT")) { printf("STOPCUT %s: %s\n", prop, msg); fflush(stdout); _exit(1); }
    }
    if (g_verbose) fprintf(stderr, "  !! %s: %s%s\n", prop, msg, mine ? "" : cut ? " (other property: branch cut)" : " (other property)");
    if (mine) finish_violation(g_prop.c_str(), msg);
    if (cut) g_pruned = true; else g_noted = true;
    if (g_count[(cut ? "cut:" : "noted:") + std::string(prop)]++ < 1 && getenv("VP_SHOWCUT")) {
        fprintf(stderr, "CUT %s: %s\n", prop, msg);
        for (auto& a : g_path) fprintf(stderr, "   %s\n", g_actstr ? g_actstr(a).c_str() : "");
    }
}
static void viol(const char* prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void viol(const char* prop, const char* fmt, ...) { va_list ap; va_start(ap, fmt); diverge(prop, true, fmt, ap); va_end(ap); }
static void note(const char* prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void note(const char* prop, const char* fmt, ...) { va_list ap; va_start(ap, fmt); diverge(prop, false, fmt, ap); va_end(ap); }
static void crash(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void crash(const char* fmt, ...) {
    char msg[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    char m2[1800]; snprintf(m2, sizeof m2, "%s (in %s)", msg, g_lib_call);
    finish_violation(g_prop.c_str(), m2);
}
// A genuine defect listed in known_findings.txt under `key`.
static void known(const char* prop, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
static void known(const char* prop, const char* key, const char* fmt, ...) {
    char msg[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    if (g_known.count(key)) {
        if (g_prop == prop && g_known_hit.insert(key).second) { printf("KNOWN %s %s %s\n", prop, key, msg); fflush(stdout); }
        COUNT("known_finding_hits");
        return;
    }
    viol(prop, "%s", msg);
}
static void on_death() {
    char m[300]; snprintf(m, sizeof m, "memory error or fatal signal in %s (sanitizer report on stderr)", g_lib_call);
    finish_violation(g_prop.c_str(), m);
}
static void on_prof(int) {
    static u64 last; static int same;
    if (g_heartbeat == last) { if (++same >= 8) crash("call does not return (hang)"); }
    else { last = g_heartbeat; same = 0; }
}
static void harness_bug(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void print_stats(double t0);
static void harness_bug(const char* fmt, ...) {
    if (g_noted) { COUNT("stopped: out of step after another property's divergence"); g_exhausted = false; print_stats(now_s()); _exit(0); }
    va_list ap; va_start(ap, fmt); fprintf(stderr, "HARNESS: "); vfprintf(stderr, fmt, ap); va_end(ap);
    fprintf(stderr, " config=%s depth=%zu\n", g_cfgname.c_str(), g_path.size());
    for (auto& a : g_path) fprintf(stderr, "   %s\n", g_actstr ? g_actstr(a).c_str() : "");
    _exit(3);
}

// ---------------------------------------------------------------- heap
static u64 heap_addr(u32 off) { return g_heap_base + off; }
static void* heap_alloc(size_t size, u8 owner) {
    if (H->failnext) { --H->failnext; if (!H->failnext) return 0; }
    u32 need = ((u32)((size ? size : 1) + 15) & ~15u) + 2 * REDZONE;
    if (size > (16u << 20)) { return 0; }
    if (H->n >= MAXALLOC) { crash("more than %d live allocations (unbounded memory growth)", MAXALLOC); }
    u32 pos = H->n, off = 0;
    if (H->mode == 1) off = H->bump, H->bump += need;
    else for (u32 i = 0; i <= H->n; ++i) {
        u32 lim = i < H->n ? H->e[i].off - REDZONE : 0xffffffffu;
        if (lim - off >= need) { pos = i; break; }
        off = H->e[i].off + (((H->e[i].size ? H->e[i].size : 1) + 15) & ~15u) + REDZONE;
    }
    if (heap_addr(off) + need > ARENA_BASE + ARENA_SIZE) crash("arena exhausted (unbounded memory growth)");
    memmove(&H->e[pos + 1], &H->e[pos], (H->n - pos) * sizeof(HeapEnt));
    HeapEnt& h = H->e[pos];
    rawset(&h, 0, sizeof h);
    h.off = off + REDZONE; h.size = (u32)size; h.owner = owner;
    H->n++;
    if (off + need > H->end) H->end = off + need;
    void* p = (void*)heap_addr(h.off);
    __asan_unpoison_memory_region(p, size);
    rawset(p, 0xA5, size);
    return p;
}
static int heap_find(const void* p) {
    u64 a = (u64)p;
    if (a < g_heap_base || a >= ARENA_BASE + ARENA_SIZE) return -1;
    u32 off = (u32)(a - g_heap_base);
    int lo = 0, hi = (int)H->n - 1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (H->e[m].off == off) return m; if (H->e[m].off < off) lo = m + 1; else hi = m - 1; }
    return -1;
}
static void heap_free_idx(int i) {
    HeapEnt h = H->e[i];
    u32 full = ((h.size ? h.size : 1) + 15) & ~15u;
    void* p = (void*)heap_addr(h.off);
    rawset(p, 0, full);
    __asan_poison_memory_region(p, full);
    memmove(&H->e[i], &H->e[i + 1], (H->n - i - 1) * sizeof(HeapEnt));
    H->n--;
    rawset(&H->e[H->n], 0, sizeof(HeapEnt));
    u32 end = 0;
    if (H->n) { HeapEnt& l = H->e[H->n - 1]; end = l.off + (((l.size ? l.size : 1) + 15) & ~15u) + REDZONE; }
    H->end = H->mode == 1 ? H->bump : end;
}
static u32 heap_count(u8 owner) { u32 c = 0; for (u32 i = 0; i < H->n; ++i) c += H->e[i].owner == owner; return c; }

static void (*g_free_hook)(int idx) = 0;
// ---------------------------------------------------------------- library entry points for memory, process and libc
extern "C" {
void* vp_malloc(size_t n) { return heap_alloc(n, OWN_LIB); }
void* vp_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return 0; void* p = heap_alloc(a * b, OWN_LIB); if (p) rawset(p, 0, a * b); return p; }
void vp_free(void* p) {
    if (!p) return;
    int i = heap_find(p);
    if (i < 0) crash("free() of a pointer that is not a live heap block");
    if (H->e[i].owner != OWN_LIB) { crash("library called free() on memory owned by the application"); }
    if (H->e[i].tag && g_free_hook) g_free_hook(i);
    heap_free_idx(i);
}
void* vp_realloc(void* p, size_t n) {
    if (!p) return vp_malloc(n);
    int i = heap_find(p);
    if (i < 0) crash("realloc() of a pointer that is not a live heap block");
    u32 old = H->e[i].size;
    if (!n) { vp_free(p); return 0; }
    void* q = vp_malloc(n);
    if (q) { rawcpy(q, p, old < n ? old : n); vp_free(p); }
    return q;
}
void* vp_reallocarray(void* p, size_t a, size_t b) { return vp_realloc(p, a * b); }
char* vp_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)vp_malloc(n); if (p) rawcpy(p, s, n); return p; }
void* vp_aligned_alloc(size_t, size_t n) { return vp_malloc(n); }
int vp_posix_memalign(void** r, size_t, size_t n) { *r = vp_malloc(n); return *r ? 0 : ENOMEM; }
void vp_exit(int c) { crash("library called exit(%d)", c); _exit(1); }
void vp__exit(int c) { crash("library called _exit(%d)", c); _exit(1); }
void vp_abort(void) { crash("library called abort()"); _exit(1); }
void vp___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { crash("assertion failed: %s at %s:%u %s", e, f, l, fn); _exit(1); }
void vp_perror(const char*) {}
void vp___stack_chk_fail(void) { crash("stack buffer overflow"); _exit(1); }
}

// ---------------------------------------------------------------- snapshot / hash
struct Snap { u8* b = 0; size_t cap = 0; u32 end = 0; };
static size_t libdata_size() { return __start_vplibdata ? (size_t)(__stop_vplibdata - __start_vplibdata) : 0; }
static u64 g_snap_bytes = 0, g_mem_limit = 3ull << 30;
static void snap_save(Snap& s) {
    size_t ld = libdata_size(), hs = (H->end + 7) & ~7u, tot = g_world_size + hs + hs / 8 + ld;
    if (s.cap < tot) { if (s.b) munmap(s.b, s.cap); g_snap_bytes -= s.cap; s.cap = (tot + tot / 2 + 4095) & ~4095ull; g_snap_bytes += s.cap; s.b = (u8*)mmap(0, s.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (s.b == MAP_FAILED) harness_bug("mmap"); }
    s.end = H->end;
    u8* p = s.b;
    rawcpy(p, (void*)ARENA_BASE, g_world_size); p += g_world_size;
    rawcpy(p, (void*)g_heap_base, hs); p += hs;
    rawcpy(p, SHADOW(g_heap_base), hs / 8); p += hs / 8;
    if (ld) rawcpy(p, __start_vplibdata, ld);
}
static void snap_restore(const Snap& s) {
    size_t ld = libdata_size(), cur = (H->end + 7) & ~7u, hs = (s.end + 7) & ~7u;
    u8* p = s.b;
    rawcpy((void*)ARENA_BASE, p, g_world_size); p += g_world_size;
    rawcpy((void*)g_heap_base, p, hs); p += hs;
    rawcpy(SHADOW(g_heap_base), p, hs / 8); p += hs / 8;
    if (ld) rawcpy(__start_vplibdata, p, ld);
    if (cur > hs) { rawset((void*)(g_heap_base + hs), 0, cur - hs); rawset(SHADOW(g_heap_base + hs), 0xf7, (cur - hs) / 8); }
}
static inline u64 mum(u64 a, u64 b) { __uint128_t r = (__uint128_t)a * b; return (u64)r ^ (u64)(r >> 64); }
static u64 hash_bytes(const void* v, size_t n, u64 seed) {
    const u8* p = (const u8*)v; u64 a = seed ^ 0xa0761d6478bd642full, b = n ^ 0xe7037ed1a0b428dbull;
    while (n >= 16) { u64 x = *(const u64*)p, y = *(const u64*)(p + 8); a = mum(a ^ x, 0x9e3779b97f4a7c15ull ^ y) + b; b = (b << 23 | b >> 41) ^ x; p += 16; n -= 16; }
    u64 x = 0, y = 0; if (n >= 8) { x = *(const u64*)p; p += 8; n -= 8; } while (n--) y = y << 8 | *p++;
    a = mum(a ^ x ^ 0x8ebc6af09c88c6e3ull, b ^ y ^ 0x589965cc75374cc3ull);
    return mum(a ^ 0x1d8e4e27c47d124full, b + a);
}
static u64 state_hash() {
    u64 h = hash_bytes((void*)ARENA_BASE, g_world_size, 1);
    h = hash_bytes((void*)g_heap_base, (H->end + 7) & ~7u, h);
    if (libdata_size()) h = hash_bytes(__start_vplibdata, libdata_size(), h);
    return h ? h : 1;
}
struct HashSet {           // visited states (64-bit fingerprints) with the smallest depth each was expanded at
    u64* t = 0; u16* d = 0; size_t cap = 0, n = 0;
    static void* anon(size_t b) { void* p = mmap(0, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) harness_bug("visited set: out of memory"); return p; }
    void clear() { if (t) { munmap(t, cap * 8); munmap(d, cap * 2); } t = 0; d = 0; cap = n = 0; }
    void grow() {
        size_t nc = cap ? cap * 2 : (1u << 16); u64* nt = (u64*)anon(nc * 8); u16* nd = (u16*)anon(nc * 2);
        for (size_t i = 0; i < cap; ++i) if (t[i]) { size_t j = t[i] & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = t[i]; nd[j] = d[i]; }
        if (t) { munmap(t, cap * 8); munmap(d, cap * 2); }
        t = nt; d = nd; cap = nc;
    }
    int insert(u64 h, u16 depth) {       // 0: nothing new, 1: new state, 2: known state reached by a shorter path
        if ((n + 1) * 10 > cap * 7) grow();
        size_t j = h & (cap - 1); while (t[j]) { if (t[j] == h) { if (d[j] <= depth) return 0; d[j] = depth; return 2; } j = (j + 1) & (cap - 1); }
        t[j] = h; d[j] = depth; ++n; return 1;
    }
};

// ---------------------------------------------------------------- model interface and search
struct Model {
    virtual void init() = 0;                        // from a zeroed arena
    virtual void enabled(std::vector<Act>&) = 0;
    virtual void exec(const Act&) = 0;
    virtual void terminal() {}                      // probe in states without enabled actions (state restored afterwards)
    virtual bool probe_always() { return false; }   // run terminal() in every state
    virtual std::string str(const Act&) = 0;
    virtual ~Model() {}
};
static Model* g_model;
static std::string g_actstr_(const Act& a) { return g_model->str(a); }
static u64 g_max_states = 200000000ull;
static double g_deadline = 0;

static void arena_setup(size_t world_size, Heap* (*heap_of)(void)) {
    void* p = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p != (void*)ARENA_BASE) harness_bug("cannot map arena");
    g_world_size = (world_size + 15) & ~15ull;
    g_heap_base = (ARENA_BASE + g_world_size + 4095) & ~4095ull;
    H = heap_of();
    __asan_poison_memory_region((void*)g_heap_base, ARENA_BASE + ARENA_SIZE - g_heap_base);
}
static Snap g_zero; // pristine lib data
static void world_reset() { if (g_zero.b) snap_restore(g_zero); }

static void sig_setup() {
    __sanitizer_set_death_callback(on_death);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, 0);
    struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 500000; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, 0);
}

static void run_terminal(Snap& scratch) {
    snap_save(scratch);
    g_pruned = false;
    ++g_n_term;
    g_model->terminal();
    if (g_pruned) ++g_n_pruned;
    g_pruned = false;
    snap_restore(scratch);
}

// Depth-first over all enabled actions.  limit == 0: every reachable state once.  limit > 0: every action sequence
// of at most `limit` actions (a state reached again by a shorter path is expanded again); returns whether a state at
// the limit had further actions.
static u64 g_n_paths, g_tot_paths;
static bool dfs(unsigned limit) {
    struct Frame { Snap s; std::vector<Act> acts; size_t i; bool child; };
    static std::vector<Frame*> pool; static Snap scratch, zero; static HashSet vis;
    std::vector<Frame*> st; bool cut = false; vis.clear();
    g_n_paths = g_n_states = g_n_trans = g_n_term = g_n_pruned = g_maxdepth = 0; for (auto& c : g_count) c.second = 0; g_samples.clear(); g_exhausted = true;
    auto push = [&]() {
        Frame* f; if (pool.empty()) f = new Frame(); else { f = pool.back(); pool.pop_back(); }
        f->acts.clear(); f->i = 0; f->child = false; g_model->enabled(f->acts);
        bool atlim = limit && g_path.size() >= limit && !f->acts.empty(); if (atlim) cut = true;
        if (f->acts.empty() || atlim || g_model->probe_always()) {
            if (g_samples.size() < 3 && (f->acts.empty() || atlim)) { std::string s; for (auto& a : g_path) { if (s.size() > 3000) { s += "; ..."; break; } if (!s.empty()) s += "; "; s += g_model->str(a); } g_samples.push_back(s); }
            run_terminal(scratch);
        }
        if (f->acts.empty() || atlim) { ++g_n_paths; pool.push_back(f); return; }
        snap_save(f->s); st.push_back(f);
    };
    g_path.clear(); g_pruned = false;
    if (!zero.b) snap_save(zero); else snap_restore(zero);
    world_reset();
    g_model->init();
    if (g_pruned) { ++g_n_pruned; return false; }
    vis.insert(state_hash(), 0); ++g_n_states;
    push();
    bool fresh = true;
    while (!st.empty()) {
        Frame* f = st.back();
        if (f->i >= f->acts.size()) {
            if (!f->child && !g_model->probe_always()) { if (!fresh) snap_restore(f->s); run_terminal(scratch); }     // nothing new from here: settle and shut down
            st.pop_back(); pool.push_back(f); if (!st.empty()) g_path.pop_back(); fresh = false; continue; }
        Act a = f->acts[f->i++];
        if (!fresh) snap_restore(f->s);
        g_path.push_back(a);
        g_pruned = false;
        ++g_heartbeat;
        g_model->exec(a);
        ++g_n_trans;
        fresh = false;
        if ((g_deadline && (g_n_trans & 1023) == 0 && now_s() > g_deadline)) { g_exhausted = false; break; }
        if (g_pruned) { ++g_n_pruned; ++g_n_paths; g_path.pop_back(); continue; }
        int r = vis.insert(state_hash(), limit ? g_path.size() : 0);
        if (!r) { ++g_n_paths; g_path.pop_back(); continue; }
        f->child = true; if (r == 1) ++g_n_states;
        if (g_path.size() > g_maxdepth) g_maxdepth = g_path.size();
        size_t before = st.size();
        push();
        if (st.size() == before) g_path.pop_back(); else fresh = true;
        if (g_n_states >= g_max_states || g_snap_bytes > g_mem_limit) { g_exhausted = false; break; }
    }
    while (!st.empty()) { pool.push_back(st.back()); st.pop_back(); }
    if (g_snap_bytes > g_mem_limit) { for (auto f : pool) { if (f->s.b) munmap(f->s.b, f->s.cap), g_snap_bytes -= f->s.cap; delete f; } pool.clear(); }
    return cut;
}
static u64 g_auto = 0; static unsigned g_iddfs = 0, g_idmax = 0, g_iddone = 0; static u64 g_tot_trans;

static void explore() {
    if (g_auto) {   // whole space first; when it does not fit in a third of the budget, complete depths instead
        double dl = g_deadline, t = now_s(); u64 ms = g_max_states; if (dl > 0) g_deadline = t + (dl - t) / 3; g_max_states = std::min<u64>(ms, g_auto);
        dfs(0); g_tot_trans = g_n_trans; g_tot_paths = g_n_paths; g_deadline = dl; g_max_states = ms; if (g_exhausted) return; g_iddfs = g_iddfs ? g_iddfs : 3;
    }
    if (!g_iddfs) { bool cut = dfs(g_idmax); if (g_exhausted && cut) g_exhausted = false, g_iddone = g_idmax; g_tot_trans = g_n_trans; g_tot_paths = g_n_paths; return; }
    // iterative deepening: all sequences of at most D actions for D = start, start+1, ...; counters are those of the last complete iteration
    u64 s[5] = {0}; std::map<std::string, u64> cnt; std::vector<std::string> smp;
    for (unsigned D = g_iddfs;; ++D) {
        bool cut = dfs(D); g_tot_trans += g_n_trans; g_tot_paths += g_n_paths;
        if (!g_exhausted) { if (!g_iddone) return; g_n_states = s[0]; g_n_trans = s[1]; g_n_term = s[2]; g_n_pruned = s[3]; g_maxdepth = s[4]; for (auto& c : cnt) g_count[c.first] = c.second; g_samples = smp; return; }
        g_iddone = D; if (!cut) return;
        s[0] = g_n_states; s[1] = g_n_trans; s[2] = g_n_term; s[3] = g_n_pruned; s[4] = g_maxdepth; cnt = g_count; smp = g_samples;
        if ((g_idmax && D >= g_idmax) || D > 60000) { g_exhausted = false; return; }
    }
}

static int replay(const char* file) {
    FILE* f = fopen(file, "r"); if (!f) { perror(file); return 2; }
    char line[4096]; std::vector<Act> acts;
    while (fgets(line, sizeof line, f)) { unsigned k, a, b, c, d; if (sscanf(line, "act %u %u %u %u %u", &k, &a, &b, &c, &d) == 5) acts.push_back(Act{(u8)k, (decltype(Act::a))a, (decltype(Act::b))b, (decltype(Act::c))c, d}); }
    fclose(f);
    g_replaying = true;
    world_reset(); g_model->init();
    for (auto& a : acts) {
        if (g_pruned) { printf("REPLAY cut\n"); return 0; }
        std::vector<Act> en; g_model->enabled(en);
        bool ok = false; for (auto& e : en) if (!memcmp(&e, &a, sizeof a)) ok = true;
        if (!ok) { printf("REPLAY not-enabled: %s\n", g_model->str(a).c_str()); return 0; }
        g_path.push_back(a);
        if (g_verbose) fprintf(stderr, "%s\n", g_model->str(a).c_str());
        ++g_heartbeat; g_model->exec(a);
    }
    if (!g_pruned) g_model->terminal();
    printf("REPLAY no violation\n");
    return 0;
}

static std::string jstr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += ' '; else o += c; } return o + "\""; }
static void print_stats(double t0) {
    printf("STATS {\"config\":%s,\"states\":%llu,\"transitions\":%llu,\"terminals\":%llu,\"pruned\":%llu,\"maxdepth\":%llu,\"depth_complete\":%u,\"executed\":%llu,\"paths\":%llu,\"exhaustive\":%s,\"wall\":%.2f,\"counts\":{",
           jstr(g_cfgname).c_str(), (unsigned long long)g_n_states, (unsigned long long)g_n_trans, (unsigned long long)g_n_term, (unsigned long long)g_n_pruned, (unsigned long long)g_maxdepth, g_exhausted ? 0u : g_iddone, (unsigned long long)g_tot_trans, (unsigned long long)g_tot_paths, g_exhausted ? "true" : "false", now_s() - t0);
    bool first = true; for (auto& c : g_count) { printf("%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
    printf("},\"samples\":["); first = true; for (auto& s : g_samples) { printf("%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    printf("]}\n"); fflush(stdout);
}
