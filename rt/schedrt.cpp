// schedrt: a controlled runtime that stands in for libtsan.
//
// Harness and library code is compiled with `g++ -fsanitize=thread` but linked
// against this file instead of libtsan, so every memory access, atomic
// operation and pthread call of the code under test arrives here. The runtime
//   * runs one logical thread at a time and chooses at every synchronisation
//     operation which thread goes on (random walk, PCT), from a seed,
//   * keeps vector clocks as the C++ memory model defines them and reports
//     conflicting accesses that are not ordered by happens-before,
//   * keeps the modification order of each atomic and lets loads return older
//     values where the C++ memory model allows it (store buffering etc.),
//   * allocates from an arena that never reuses memory within an execution and
//     reports use after free, double free, leaks, uses of dead stack frames,
//   * simulates mutexes, condition variables, futexes, joins and the clock, so
//     a lost wake-up is a deadlock that is seen at once and time is virtual,
//   * is deterministic: (binary, case, seed) replays the execution.
// This file must be compiled WITHOUT -fsanitize=thread.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <exception>
#include <vector>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else       // without the header the runs under memcheck know less, nothing else changes
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_COUNT_ERRORS 0
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) (void)0
#endif

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;
#define NOINL __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace {

// ---------------------------------------------------------------- utilities
template<class T> struct MA {
    typedef T value_type;
    MA() {}
    template<class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template<class U> bool operator==(const MA<U>&) const { return true; }
    template<class U> bool operator!=(const MA<U>&) const { return false; }
};
template<class T> using Vec = std::vector<T, MA<T>>;

struct Rng {
    u64 s;
    void seed(u64 x) { s = x * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(u32 num, u32 den) { return next() % den < num; }
};

const int MAXT = 20;
const int MAXCARRIER = 24;
struct VC {
    u32 c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { S_FREE, S_RUN, S_BLOCK, S_DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_FUTEX, W_SLOT, W_QUIESCE, W_DRAIN };
const char* why_name[] = { "-", "mutex", "condvar", "join", "sleep", "futex", "monitor-slot", "quiesce", "drain" };

struct Carrier;
struct Th {
    int id;
    State st;
    Why why;
    uptr waddr;
    int64_t wval;
    u64 deadline;       // ~0: none
    bool timed_out;
    VC vc;
    VC acqfence;        // from relaxed loads, claimed by an acquire fence
    VC relfence;        // clock of the last release fence
    bool has_relfence;
    u64 prio;
    int stale_run;
    Carrier* car;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    uptr sp_at_switch, fp_at_switch;
    int nops_since_switch;
    int64_t alloc_fail;     // >0: the allocation that brings it to 0 fails
    int64_t thread_fail;    // the same for the creation of threads
    bool alloc_keep, alloc_failed;
};
struct Carrier {
    pthread_t pt;
    int sem;            // futex word
    uptr lo, hi;        // stack range
    Th* th;             // logical thread to run, or null
    bool started;
};

const int NSLOT = 4096;
const int MAXPC = 24;

struct Rec { u8 mask, tid; bool w, at; u32 clk; u32 next; void* pc; u64 step; };
struct Cell { u64 key; u32 gen; u32 head; u32 aloc; };

struct Store { u64 val; int tid; u32 clk; bool sc; bool rel; VC vc; };
struct ReadMark { u32 clk; u32 idx; };
struct ALoc {
    uptr addr; int size; u32 next;      // next: other atomics in the same 8 bytes
    u32 base;                       // index of stores[0] in the modification order
    Vec<Store> st;
    Vec<ReadMark> rd[MAXT];
    u32 last_sc;                    // modification-order index of the last SC store, 0 if none
};

struct Alloc { uptr p; size_t n; bool freed; u8 tid, ftid; bool from_malloc; void* pcs[10]; void* fpcs[10]; };

struct MutexSt { uptr addr; int owner; int depth; VC vc; };
struct SyncVar { uptr addr; VC vc; };

struct LogEnt { const char* what; int64_t a, b; int tid; u64 step; };
struct CountEnt { const char* what; u64 n; };

struct Case { const char* prop; const char* name; rt_case_fn fn; int weight; };

const uptr ARENA = 0x200000000000ull;
const size_t ARENA_SZ = 256ull << 20;

struct G_ {
    bool active;
    int in_rt;
    Th th[MAXT];
    int nth;
    Th* cur;
    Carrier car[MAXCARRIER];
    int ncar;
    int ctl_sem;
    Rng srng, wrng;     // schedule / workload randomness
    u64 step, step_limit;
    u64 now;
    // strategy
    int strat; u32 sw_num, sw_den; u32 jump_den; u32 stale_den; u32 spur_den;
    u64 chg[8]; int nchg; u64 lowprio;
    u8 fill; uptr csp; bool no_stale, no_jumps; int nprocs;
    u64 nswitch, npreempt, nstale, njump, nrace_checks, natomic, nalloc, nlock;
    u64 hash;
    u64 last_progress;
    int maxth;
    // memory
    uptr bump; Vec<Alloc> allocs; u8* sh;  // one state byte per arena byte
    Cell* tab; u32 tabn; u32 gen; u32 used;
    Vec<Rec> recs; u32 nrec;
    ALoc* alocs; u32 naloc, capaloc;
    Vec<MutexSt> mtx; Vec<SyncVar> sv;
    VC scfence;
    u64 live;
    bool ignore_leaks;
    int64_t slot[NSLOT];
    Vec<LogEnt> log;
    char desc[1024];
    Case* ccase; u64 cseed;
    int drain_waiter;
    bool verbose;
    u64 exec_start_ms;
} G;

// registered during static initialisation of the harness objects
Case g_cases[256]; int g_ncases;
CountEnt g_counts[512]; int g_ncounts;

__thread Carrier* tcar;


inline long sysfutex(int* a, int op, int v) {
    long r; register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
void sem_post_(int* s) { __atomic_store_n(s, 1, __ATOMIC_SEQ_CST); sysfutex(s, FUTEX_WAKE_PRIVATE, 1); }
void sem_wait_(int* s) {
    for (;;) {
        int one = 1;
        if (__atomic_compare_exchange_n(s, &one, 0, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return;
        sysfutex(s, FUTEX_WAIT_PRIVATE, 0);
    }
}
u64 real_ms() {
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000;
}

inline bool active() { return LIKELY(G.active) && tcar && G.cur && tcar->th == G.cur && !G.in_rt; }
struct InRt { InRt() { ++G.in_rt; } ~InRt() { --G.in_rt; } };

// ------------------------------------------------------------------ reports
int walk(uptr fp, uptr lo, uptr hi, void** out, int max) {
    int n = 0;
    while (n < max && fp >= lo && fp + 16 <= hi && (fp & 7) == 0) {
        uptr ra = ((uptr*)fp)[1], nf = ((uptr*)fp)[0];
        if (ra < 0x1000) break;
        out[n++] = (void*)ra;
        if (nf <= fp) break;
        fp = nf;
    }
    return n;
}
NOINL int here(void** out, int max) {
    Carrier* c = tcar; if (!c) return 0;
    return walk((uptr)__builtin_frame_address(0), c->lo, c->hi, out, max);
}

char g_rep[1 << 16]; int g_repn;
void rep(const char* f, ...) __attribute__((format(printf, 1, 2)));
void rep(const char* f, ...) {
    va_list ap; va_start(ap, f);
    int n = vsnprintf(g_rep + g_repn, sizeof g_rep - g_repn, f, ap);
    va_end(ap);
    if (n > 0) g_repn += n;
    if (g_repn > (int)sizeof g_rep - 1) g_repn = sizeof g_rep - 1;
}
void rep_stack(const char* name, void** p, int n) {
    rep("%s:", name);
    for (int i = 0; i < n && p[i]; ++i) rep(" %lx", (unsigned long)((uptr)p[i] - 1));
    rep("\n");
}
volatile int g_reporting;
[[noreturn]] void report_end(int code) {
    rep("RT-END\n");
    const char* p = g_rep; size_t n = g_repn;
    while (n) { ssize_t k = write(1, p, n); if (k <= 0) break; p += k; n -= k; }
    syscall(SYS_exit_group, code);
    __builtin_trap();
}
void report_begin(const char* kind, const char* key) {
    if (g_reporting) { for (;;) pause(); }
    g_reporting = 1;
    ++G.in_rt;
    rep("RT-VIOLATION\nkind: %s\nkey: %s\ncase: %s\nseed: %llu\nstep: %llu\nthread: %d\n", kind, key,
        G.ccase ? G.ccase->name : "?", (unsigned long long)G.cseed, (unsigned long long)G.step, G.cur ? G.cur->id : -1);
    rep("desc: %s\n", G.desc);
}
void report_log() {
    size_t b = G.log.size() > 60 ? G.log.size() - 60 : 0;
    for (size_t i = b; i < G.log.size(); ++i)
        rep("log: @%llu t%d %s %lld %lld\n", (unsigned long long)G.log[i].step, G.log[i].tid, G.log[i].what,
            (long long)G.log[i].a, (long long)G.log[i].b);
}
[[noreturn]] void violation(const char* kind, const char* key, const char* detail) {
    report_begin(kind, key);
    rep("detail: %s\n", detail);
    void* pcs[MAXPC]; int n = here(pcs, MAXPC);
    rep_stack("stack", pcs, n);
    report_log();
    report_end(66);
}

// --------------------------------------------------------------- scheduling
void wake_timed() {
    for (int i = 0; i < G.nth; ++i) {
        Th& t = G.th[i];
        if (t.st == S_BLOCK && t.deadline <= G.now) {
            t.st = S_RUN; t.timed_out = true; t.deadline = ~0ull;
        }
    }
}
u64 earliest() {
    u64 e = ~0ull;
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i].st == S_BLOCK && G.th[i].deadline < e) e = G.th[i].deadline;
    return e;
}
[[noreturn]] void deadlock() {
    char key[64]; snprintf(key, sizeof key, "deadlock");
    report_begin("deadlock", key);
    rep("detail: no logical thread can run:");
    for (int i = 0; i < G.nth; ++i) if (G.th[i].st == S_BLOCK)
        rep(" t%d:%s@%lx", i, why_name[G.th[i].why], (unsigned long)G.th[i].waddr);
    rep("\n");
    for (int i = 0; i < G.nth; ++i) if (G.th[i].st == S_BLOCK) {
        void* pcs[MAXPC]; int n = 0;
        if (&G.th[i] == G.cur) n = here(pcs, MAXPC);
        else n = walk(G.th[i].fp_at_switch, G.th[i].car->lo, G.th[i].car->hi, pcs, MAXPC);
        char nm[32]; snprintf(nm, sizeof nm, "stack-t%d", i);
        rep_stack(nm, pcs, n);
    }
    report_log();
    report_end(66);
}

Th* pick() {
    int r[MAXT], n = 0;
    for (;;) {
        n = 0;
        for (int i = 0; i < G.nth; ++i) if (G.th[i].st == S_RUN) r[n++] = i;
        if (n) break;
        // nobody can run: quiescence waiters first, then timers, then the drain
        bool woke = false;
        for (int i = 0; i < G.nth; ++i)
            if (G.th[i].st == S_BLOCK && G.th[i].why == W_QUIESCE) { G.th[i].st = S_RUN; woke = true; break; }
        if (woke) continue;
        u64 e = earliest();
        if (e == ~0ull) return nullptr;
        if (e > G.now) { G.now = e; ++G.njump; }
        wake_timed();
    }
    Th* c = G.cur;
    bool cur_ok = c && c->st == S_RUN;
    if (n == 1) return &G.th[r[0]];
    if (G.strat == 1 && G.step < 20000) {           // PCT
        for (int i = 0; i < G.nchg; ++i)
            if (G.chg[i] == G.step && cur_ok) c->prio = --G.lowprio;
        int b = r[0];
        for (int i = 1; i < n; ++i) if (G.th[r[i]].prio > G.th[b].prio) b = r[i];
        return &G.th[b];
    }
    if (cur_ok && G.step < 20000 && !G.srng.chance(G.sw_num, G.sw_den)) return c;
    return &G.th[r[G.srng.below(n)]];
}

NOINL void switch_to(Th* n) {
    Th* c = G.cur;
    if (n == c) return;
    ++G.nswitch;
    c->sp_at_switch = (uptr)__builtin_frame_address(0);
    c->fp_at_switch = (uptr)__builtin_frame_address(0);
    Carrier* cc = c->car;
    G.cur = n;
    int saved = G.in_rt;
    sem_post_(&n->car->sem);
    sem_wait_(&cc->sem);
    G.in_rt = saved;
}
// the current thread goes on only when chosen again
void resched() {
    ++G.step;
    if (UNLIKELY(G.step > G.step_limit)) {
        char d[100]; snprintf(d, sizeof d, "no termination after %llu synchronisation steps", (unsigned long long)G.step);
        violation("livelock", "livelock", d);
    }
    Th* n = pick();
    if (!n) deadlock();
    if (n != G.cur && G.cur->st == S_RUN) ++G.npreempt;
    switch_to(n);
}
inline void mixh(u64 v) { G.hash = (G.hash ^ v) * 0x100000001b3ull; G.hash ^= G.hash >> 29; }

void sched_point(int kind) {
    mixh(G.cur->id * 64 + kind);
    G.now += 1 + (G.srng.next() & 63);
    if (G.jump_den && G.srng.chance(1, G.jump_den)) {
        u64 e = earliest();
        if (e != ~0ull && e > G.now) {
            bool q = false;
            for (int i = 0; i < G.nth; ++i) if (G.th[i].st == S_BLOCK && G.th[i].why == W_QUIESCE) q = true;
            if (!q) { G.now = e; ++G.njump; }
        }
    }
    wake_timed();
    resched();
}
void block(Why w, uptr a, int64_t v, u64 deadline) {
    Th* c = G.cur;
    c->st = S_BLOCK; c->why = w; c->waddr = a; c->wval = v; c->deadline = deadline; c->timed_out = false;
    resched();
    c->why = W_NONE; c->deadline = ~0ull;
}
void do_yield() {
    if (G.strat == 1) G.cur->prio = --G.lowprio;
    mixh(G.cur->id * 64 + 9);
    G.now += 100;
    wake_timed();
    // prefer somebody else
    Th* c = G.cur; int r[MAXT], n = 0;
    for (int i = 0; i < G.nth; ++i) if (G.th[i].st == S_RUN && &G.th[i] != c) r[n++] = i;
    ++G.step;
    if (UNLIKELY(G.step > G.step_limit)) violation("livelock", "livelock", "no termination: threads keep yielding");
    if (n && (G.strat != 1 || G.step > 20000)) { switch_to(&G.th[r[G.srng.below(n)]]); return; }
    if (!n) { // only this thread can run; let time pass so that timed waiters get on
        u64 e = earliest();
        if (e != ~0ull && !G.no_jumps && G.step % 50 == 0) { G.now = e; wake_timed(); }
    }
    Th* p = pick(); if (p) switch_to(p);
}

// ------------------------------------------------------------------- memory
enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2 };

u32 cell_of(uptr key, bool create) {
    u64 h = key * 0x9E3779B97F4A7C15ull; u32 m = G.tabn - 1; u32 i = (u32)(h >> 40) & m;
    for (;; i = (i + 1) & m) {
        Cell& c = G.tab[i];
        if (c.gen != G.gen) {
            if (!create) return ~0u;
            if (++G.used > G.tabn * 3 / 4) {
                report_begin("internal", "shadow-table-full"); report_end(70);
            }
            c.gen = G.gen; c.key = key; c.head = 0; c.aloc = 0;
            return i;
        }
        if (c.key == key) return i;
    }
}
const char* kind_of_addr(uptr a) {
    if (a >= ARENA && a < ARENA + ARENA_SZ) return "heap";
    for (int i = 0; i < G.ncar; ++i) if (a >= G.car[i].lo && a < G.car[i].hi) return "stack";
    return "global";
}
Alloc* find_alloc(uptr a) {
    size_t lo = 0, hi = G.allocs.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (G.allocs[m].p <= a) lo = m + 1; else hi = m; }
    return lo ? &G.allocs[lo - 1] : nullptr;
}
[[noreturn]] void report_uaf(uptr a, size_t n, bool w, void* pc, const char* what) {
    bool unalloc = G.sh[a - ARENA] == SH_NONE;
    report_begin(unalloc ? "out-of-bounds" : "use-after-free", unalloc ? "out-of-bounds" : "use-after-free");
    rep("detail: %s of %zu bytes at %lx%s\n", what, n, (unsigned long)a, w ? " (write)" : "");
    void* pcs[MAXPC]; pcs[0] = (char*)pc; int k = here(pcs + 1, MAXPC - 1);
    rep_stack("stack", pcs, k + 1);
    Alloc* al = find_alloc(a);
    if (al) {
        rep("block: %lx size %zu allocated by t%d freed=%d by t%d\n", (unsigned long)al->p, al->n, al->tid, al->freed, al->ftid);
        rep_stack("alloc-stack", al->pcs, 10);
        if (al->freed) rep_stack("free-stack", al->fpcs, 10);
    }
    report_log();
    report_end(66);
}
void check_live(uptr a, size_t n, bool w, void* pc, const char* what) {
    if (a - ARENA < ARENA_SZ) {
        const u8* s = G.sh + (a - ARENA);
        for (size_t i = 0; i < n; ++i) if (UNLIKELY(s[i] != SH_LIVE)) report_uaf(a + i, n, w, pc, what);
        return;
    }
    Carrier* c = tcar;
    if (LIKELY(a >= c->lo && a < c->hi)) {
        if (LIKELY(a >= G.csp)) return;
        report_begin("dead-stack", "dead-stack");
        rep("detail: %s of %zu bytes at %lx, below the stack pointer: the frame of a function that has returned\n", what, n, (unsigned long)a);
        void* pcs[MAXPC]; pcs[0] = pc; int k = here(pcs + 1, MAXPC - 1);
        rep_stack("stack", pcs, k + 1); report_log(); report_end(66);
    }
    for (int i = 0; i < G.ncar; ++i) {
        Carrier& o = G.car[i];
        if (a >= o.lo && a < o.hi) {
            Th* t = o.th;
            if (!t || t->st == S_DONE || a < t->sp_at_switch) {
                report_begin("dead-stack", "dead-stack");
                rep("detail: %s of a dead stack frame of thread %d at %lx\n", what, t ? t->id : -1, (unsigned long)a);
                void* pcs[MAXPC]; pcs[0] = pc; int k = here(pcs + 1, MAXPC - 1);
                rep_stack("stack", pcs, k + 1);
                if (t && t->st != S_DONE) { k = walk(t->fp_at_switch, o.lo, o.hi, pcs, MAXPC); rep_stack("owner-stack", pcs, k); }
                report_log();
                report_end(66);
            }
            return;
        }
    }
}
[[noreturn]] void report_race(uptr a, int n, bool w, bool at, void* pc, const Rec& r, const char* what) {
    report_begin("data-race", "data-race");
    rep("detail: %s%s of %d bytes at %lx (%s) by t%d conflicts with earlier %s%s by t%d at step %llu\n", at ? "atomic " : "", what, n,
        (unsigned long)a, kind_of_addr(a), G.cur->id, r.at ? "atomic " : "", r.w ? "write" : "read", r.tid, (unsigned long long)r.step);
    void* pcs[MAXPC]; pcs[0] = pc; int k = here(pcs + 1, MAXPC - 1);
    rep_stack("stack", pcs, k + 1);
    void* op[2] = { r.pc, nullptr };
    rep_stack("other", op, 1);
    if (a - ARENA < ARENA_SZ) { Alloc* al = find_alloc(a); if (al) rep_stack("alloc-stack", al->pcs, 10); }
    report_log();
    report_end(66);
}
// a plain write to [a, a+n) ends the life of the atomics there
void kill_aloc(u32 ci, uptr a, size_t n) {
    u32* p = &G.tab[ci].aloc;
    while (*p) {
        ALoc& L = G.alocs[*p];
        if (L.addr < a + n && a < L.addr + L.size) *p = L.next; else p = &L.next;
    }
}

void race_granule(uptr g, u8 mask, bool w, bool at, void* pc, const char* what, uptr a, int n) {
    u32 ci = cell_of(g, true);
    Cell& c = G.tab[ci];
    Th* t = G.cur; u32 clk = t->vc.c[t->id];
    if (w && !at && c.aloc) kill_aloc(ci, a, n);
    u32 prev = 0, i = c.head; bool have = false;
    while (i) {
        Rec& r = G.recs[i];
        u32 nx = r.next;
        bool drop = false;
        if (r.mask & mask) {
            bool ordered = r.tid == t->id || r.clk <= t->vc.c[r.tid];
            if (!ordered && (w || r.w) && !(at && r.at)) report_race(a, n, w, at, pc, r, what);
            if (r.tid == t->id && r.mask == mask && r.w == w && r.at == at) { r.clk = clk; r.pc = pc; r.step = G.step; have = true; }
            else if (ordered && (r.mask & ~mask) == 0 && (w || !r.w) && (!at || r.at)) drop = true;
        }
        if (drop) { if (prev) G.recs[prev].next = nx; else c.head = nx; }
        else prev = i;
        i = nx;
    }
    if (!have) {
        u32 k = G.nrec++;
        if (k >= G.recs.size()) G.recs.resize(G.recs.size() * 2);
        Rec& r = G.recs[k];
        r.mask = mask; r.tid = t->id; r.w = w; r.at = at; r.clk = clk; r.pc = pc; r.step = G.step; r.next = c.head;
        c.head = k;
    }
}
void access(uptr a, size_t n, bool w, bool at, void* pc, const char* what) {
    ++G.nrace_checks;
    check_live(a, n, w, pc, what);
    uptr b = a, e = a + n;
    while (b < e) {
        uptr g = b >> 3; uptr ge = (g + 1) << 3; uptr x = e < ge ? e : ge;
        u8 mask = (u8)(((1u << (x - b)) - 1) << (b & 7));
        race_granule(g, mask, w, at, pc, what, a, (int)n);
        b = x;
    }
}
void forget(uptr a, size_t n) {
    for (uptr g = a >> 3; g <= (a + n) >> 3; ++g) {
        u32 ci = cell_of(g, false);
        if (ci != ~0u) { G.tab[ci].aloc = 0; G.tab[ci].head = 0; }
    }
}
bool g_vg = false;      // running under valgrind's memcheck
void* arena_alloc(size_t n, size_t al, bool from_malloc) {
    if (al < 16) al = 16;
    uptr p = (G.bump + 32 + al - 1) & ~(uptr)(al - 1);
    if (p + n + 32 > ARENA + ARENA_SZ) { report_begin("internal", "arena-full"); report_end(70); }
    G.bump = p + (n ? n : 1);
    memset(G.sh + (p - ARENA), SH_LIVE, n ? n : 1);
    memset((void*)p, G.fill, n);
    if (g_vg) VALGRIND_MAKE_MEM_UNDEFINED(p, n);
    Alloc x; memset(&x, 0, sizeof x); x.p = p; x.n = n; x.tid = G.cur->id; x.from_malloc = from_malloc;
    here(x.pcs, 10);
    G.allocs.push_back(x);
    ++G.live; ++G.nalloc;
    return (void*)p;
}
bool arena_has(void* p) { return (uptr)p - ARENA < ARENA_SZ; }
void arena_free(void* q, void* pc, bool from_malloc) {
    uptr p = (uptr)q;
    if (!G.active || !tcar || !G.cur) return;      // late frees after the execution ended
    Alloc* a = find_alloc(p);
    if (!a || a->p != p) violation("bad-free", "bad-free", "free of a pointer that was not allocated");
    if (a->freed) {
        report_begin("double-free", "double-free");
        rep("detail: block of %zu bytes freed twice\n", a->n);
        void* pcs[MAXPC]; int k = here(pcs, MAXPC); rep_stack("stack", pcs, k);
        rep_stack("alloc-stack", a->pcs, 10); rep_stack("free-stack", a->fpcs, 10);
        report_log(); report_end(66);
    }
    if (a->from_malloc != from_malloc) violation("bad-free", "alloc-dealloc-mismatch", "malloc/free and new/delete mixed");
    if (a->n) access(p, a->n, true, false, pc, "free");
    a = find_alloc(p);
    a->freed = true; a->ftid = G.cur->id;
    here(a->fpcs, 10);
    memset(G.sh + (p - ARENA), SH_FREED, a->n ? a->n : 1);
    --G.live;
}

// ------------------------------------------------------------------ atomics
enum { mo_rlx, mo_con, mo_acq, mo_rel, mo_ar, mo_sc };
inline bool is_acq(int m) { return m == mo_con || m == mo_acq || m == mo_ar || m == mo_sc; }
inline bool is_rel(int m) { return m == mo_rel || m == mo_ar || m == mo_sc; }

template<class T> u64 rd(uptr a) { return (u64)*(volatile T*)a; }

ALoc& aloc_of(uptr a, int size, u64 curval) {
    u32 ci = cell_of(a >> 3, true);
    for (u32* p = &G.tab[ci].aloc; *p;) {
        ALoc& L = G.alocs[*p];
        if (L.addr == a && L.size == size && L.st.back().val == curval) return L;
        // memory changed behind our back or mixed sizes: start over
        if (L.addr < a + size && a < L.addr + L.size) *p = L.next; else p = &L.next;
    }
    if (G.naloc >= G.capaloc) { report_begin("internal", "too-many-atomics"); report_end(70); }
    u32 ix = G.naloc++;
    ALoc& L = G.alocs[ix];
    L.addr = a; L.size = size; L.next = G.tab[ci].aloc; L.base = 1; L.st.clear(); L.last_sc = 0;
    for (int i = 0; i < MAXT; ++i) L.rd[i].clear();
    Store s; s.val = curval; s.tid = -1; s.clk = 0; s.sc = false; s.rel = false;
    L.st.push_back(s);
    G.tab[ci].aloc = ix;
    return L;
}
bool store_hb(const Store& s, const Th* t) { return s.tid < 0 || s.tid == t->id || s.clk <= t->vc.c[s.tid]; }

void mark_read(ALoc& L, Th* t, u32 idx) {
    Vec<ReadMark>& r = L.rd[t->id];
    if (r.size() && r.back().idx >= idx) return;
    if (r.size() > 12) r.erase(r.begin());
    ReadMark m; m.clk = t->vc.c[t->id]; m.idx = idx; r.push_back(m);
}
void acquire_from(Th* t, const Store& s, int mo) {
    if (!s.rel) return;
    if (is_acq(mo)) t->vc.join(s.vc); else t->acqfence.join(s.vc);
}
void push_store(ALoc& L, Th* t, u64 v, int mo, const Store* rmw_prev) {
    Store s; s.val = v; s.tid = t->id; s.clk = t->vc.c[t->id]; s.sc = mo == mo_sc; s.rel = false;
    if (is_rel(mo)) { s.rel = true; s.vc = t->vc; }
    else if (t->has_relfence) { s.rel = true; s.vc = t->relfence; }
    if (rmw_prev && rmw_prev->rel) { if (s.rel) s.vc.join(rmw_prev->vc); else { s.rel = true; s.vc = rmw_prev->vc; } }
    if (L.st.size() > 10) { L.st.erase(L.st.begin()); ++L.base; }
    L.st.push_back(s);
    if (s.sc) L.last_sc = L.base + (u32)L.st.size() - 1;
    mark_read(L, t, L.base + (u32)L.st.size() - 1);
    ++t->vc.c[t->id];
}
template<class T> T a_load(const volatile void* p, int mo, void* pc) {
    uptr a = (uptr)p;
    InRt in; ++G.natomic;
    sched_point(1);
    access(a, sizeof(T), false, true, pc, "load");
    u64 cv = (u64)*(volatile T*)a;
    ALoc& L = aloc_of(a, sizeof(T), cv);
    Th* t = G.cur;
    u32 last = L.base + (u32)L.st.size() - 1, idx = last;
    if (L.st.size() > 1 && G.stale_den && !G.no_stale && t->stale_run < 3 && G.srng.chance(1, G.stale_den)) {
        u32 lb = L.base;
        for (int i = (int)L.st.size() - 1; i >= 0; --i) if (store_hb(L.st[i], t)) { lb = L.base + i; break; }
        for (int u = 0; u < G.nth; ++u) {
            Vec<ReadMark>& r = L.rd[u];
            for (int k = (int)r.size() - 1; k >= 0; --k)
                if (u == t->id || r[k].clk <= t->vc.c[u]) { if (r[k].idx > lb) lb = r[k].idx; break; }
        }
        if (mo == mo_sc && L.last_sc > lb) lb = L.last_sc;
        if (lb < last) {
            idx = lb + (u32)G.srng.below(last - lb + 1);
            if (idx != last) { ++G.nstale; ++t->stale_run; mixh(77 + last - idx); }
        }
    }
    if (idx == last) t->stale_run = 0;
    const Store& s = L.st[idx - L.base];
    acquire_from(t, s, mo);
    mark_read(L, t, idx);
    if (mo == mo_sc && idx > L.last_sc) L.last_sc = idx;   // later SC loads may not go back
    return (T)s.val;
}
template<class T> void a_store(volatile void* p, T v, int mo, void* pc) {
    uptr a = (uptr)p;
    InRt in; ++G.natomic;
    sched_point(2);
    access(a, sizeof(T), true, true, pc, "store");
    ALoc& L = aloc_of(a, sizeof(T), (u64)*(volatile T*)a);
    *(volatile T*)a = v;
    push_store(L, G.cur, (u64)v, mo, nullptr);
}
template<class T, class F> T a_rmw(volatile void* p, int mo, void* pc, F f) {
    uptr a = (uptr)p;
    InRt in; ++G.natomic;
    sched_point(3);
    access(a, sizeof(T), true, true, pc, "rmw");
    T old = *(volatile T*)a;
    ALoc& L = aloc_of(a, sizeof(T), (u64)old);
    T nv = f(old);
    Store prev = L.st.back();
    acquire_from(G.cur, prev, mo);
    *(volatile T*)a = nv;
    push_store(L, G.cur, (u64)nv, mo, &prev);
    return old;
}
template<class T> bool a_cas(volatile void* p, T* exp, T des, int mo, int fmo, bool weak, void* pc) {
    uptr a = (uptr)p;
    InRt in; ++G.natomic;
    sched_point(4);
    T old = *(volatile T*)a;
    bool ok = old == *exp;
    if (ok && weak && G.spur_den && G.srng.chance(1, G.spur_den)) {
        access(a, sizeof(T), false, true, pc, "cas");
        ALoc& L0 = aloc_of(a, sizeof(T), (u64)old);
        acquire_from(G.cur, L0.st.back(), fmo);
        mark_read(L0, G.cur, L0.base + (u32)L0.st.size() - 1);
        *exp = old; return false;
    }
    access(a, sizeof(T), ok, true, pc, "cas");
    ALoc& L = aloc_of(a, sizeof(T), (u64)old);
    if (ok) {
        Store prev = L.st.back();
        acquire_from(G.cur, prev, mo);
        *(volatile T*)a = des;
        push_store(L, G.cur, (u64)des, mo, &prev);
        return true;
    }
    acquire_from(G.cur, L.st.back(), fmo);
    mark_read(L, G.cur, L.base + (u32)L.st.size() - 1);
    if (fmo == mo_sc) L.last_sc = L.base + (u32)L.st.size() - 1;
    *exp = old;
    return false;
}

// --------------------------------------------------- mutexes, condvars, sync
MutexSt& mtx_of(uptr a) {
    for (auto& m : G.mtx) if (m.addr == a) return m;
    MutexSt m; m.addr = a; m.owner = -1; m.depth = 0; m.vc.clear();
    G.mtx.push_back(m); return G.mtx.back();
}
SyncVar& sv_of(uptr a) {
    for (auto& m : G.sv) if (m.addr == a) return m;
    SyncVar m; m.addr = a; m.vc.clear();
    G.sv.push_back(m); return G.sv.back();
}
void sv_acquire(uptr a) { G.cur->vc.join(sv_of(a).vc); }
void sv_release(uptr a) { sv_of(a).vc.join(G.cur->vc); ++G.cur->vc.c[G.cur->id]; }

int m_lock(uptr a, void* pc, bool tryonly, bool do_sched = true) {
    ++G.nlock;
    if (do_sched) sched_point(5);
    access(a, 1, true, true, pc, "mutex lock");
    for (;;) {
        MutexSt& m = mtx_of(a);
        if (m.owner < 0) { m.owner = G.cur->id; G.cur->vc.join(m.vc); return 0; }
        if (tryonly) return EBUSY;
        if (m.owner == G.cur->id) violation("deadlock", "self-deadlock", "mutex locked twice by one thread");
        block(W_MUTEX, a, 0, ~0ull);
        check_live(a, 1, true, pc, "mutex lock");
    }
}
void m_unlock(uptr a, void* pc, bool do_sched = true) {
    access(a, 1, true, true, pc, "mutex unlock");
    {
        MutexSt& m = mtx_of(a);
        if (m.owner != G.cur->id) violation("bad-unlock", "bad-unlock", "mutex unlocked by a thread that does not hold it");
        m.owner = -1; m.vc = G.cur->vc; ++G.cur->vc.c[G.cur->id];
    }
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i].st == S_BLOCK && G.th[i].why == W_MUTEX && G.th[i].waddr == a) G.th[i].st = S_RUN;
    if (do_sched) sched_point(6);
}
int c_wait(uptr c, uptr m, u64 deadline, void* pc) {
    sched_point(7);
    access(c, 1, true, true, pc, "condvar wait");
    if (mtx_of(m).owner != G.cur->id) violation("bad-wait", "bad-wait", "condition variable waited on without the mutex");
    m_unlock(m, pc, false);
    bool spur = G.spur_den && G.srng.chance(1, G.spur_den * 4);
    bool to = false;
    if (spur) { do_yield(); }
    else if (deadline <= G.now) { to = true; sched_point(7); }
    else { block(W_COND, c, 0, deadline); to = G.cur->timed_out; }
    m_lock(m, pc, false, false);
    return to ? ETIMEDOUT : 0;
}
void c_signal(uptr c, bool all, void* pc) {
    sched_point(8);
    access(c, 1, true, true, pc, "condvar notify");
    int r[MAXT], n = 0;
    for (int i = 0; i < G.nth; ++i) if (G.th[i].st == S_BLOCK && G.th[i].why == W_COND && G.th[i].waddr == c) r[n++] = i;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) { G.th[r[i]].st = S_RUN; G.th[r[i]].deadline = ~0ull; } }
    else { int k = r[G.srng.below(n)]; G.th[k].st = S_RUN; G.th[k].deadline = ~0ull; }
}

// ------------------------------------------------------------------ threads
Th* new_thread(void* (*fn)(void*), void* arg) {
    if (G.nth >= MAXT) { report_begin("internal", "too-many-threads"); report_end(70); }
    Th& t = G.th[G.nth];
    memset((void*)&t, 0, sizeof t);
    t.id = G.nth++;
    t.st = S_RUN; t.deadline = ~0ull; t.fn = fn; t.arg = arg;
    t.vc.clear();
    if (G.cur) t.vc = G.cur->vc;
    t.vc.c[t.id] = 1;
    t.prio = 1000000 + G.srng.below(1000000);
    Carrier& c = G.car[t.id];
    t.car = &c; c.th = &t;
    t.sp_at_switch = c.lo; t.fp_at_switch = 0;
    if (G.nth > G.maxth) G.maxth = G.nth;
    return &t;
}
void finish_thread() {
    Th* t = G.cur;
    ++G.in_rt;
    t->st = S_DONE;
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i].st == S_BLOCK && (G.th[i].why == W_JOIN) && G.th[i].waddr == (uptr)t->id) G.th[i].st = S_RUN;
    bool all = true;
    for (int i = 0; i < G.nth; ++i) if (G.th[i].st != S_DONE) all = false;
    ++G.step;
    if (all) {
        G.active = false; G.cur = nullptr; G.in_rt = 0;
        sem_post_(&G.ctl_sem);
        return;
    }
    Th* n = pick();
    if (!n) deadlock();
    G.cur = n;
    sem_post_(&n->car->sem);
}
void* carrier_main(void* v) {
    Carrier* c = (Carrier*)v;
    tcar = c;
    // alternate stack for fault handling
    stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (;;) {
        sem_wait_(&c->sem);
        Th* t = c->th;
        G.in_rt = 0;
        t->ret = t->fn(t->arg);
        finish_thread();
    }
    return nullptr;
}
typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
pc_t real_create() { static pc_t f = (pc_t)dlsym(RTLD_NEXT, "pthread_create"); return f; }

void make_carriers() {
    for (int i = 0; i < MAXT; ++i) {
        Carrier& c = G.car[i];
        size_t sz = 1 << 20;
        char* st = (char*)mmap((void*)(0x300000000000ull + i * 0x1000000ull), sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        c.lo = (uptr)st; c.hi = (uptr)st + sz; c.sem = 0; c.th = nullptr;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, sz);
        real_create()(&c.pt, &at, carrier_main, &c);
        pthread_attr_destroy(&at);
        ++G.ncar;
    }
}

// ----------------------------------------------------------- one execution
void on_signal(int s, siginfo_t* si, void*) {
    if (!G.active) { signal(s, SIG_DFL); raise(s); return; }
    if (s == SIGALRM) return;
    char d[100]; snprintf(d, sizeof d, "signal %d at address %lx", s, (unsigned long)(uptr)si->si_addr);
    const char* k = s == SIGSEGV ? "crash-SEGV" : s == SIGABRT ? "crash-ABRT" : s == SIGFPE ? "crash-FPE" : s == SIGILL ? "crash-ILL" : "crash";
    ++G.in_rt;
    violation("crash", k, d);
}
void on_alarm(int) {
    if (g_reporting) { static int n; if (++n > 3) syscall(SYS_exit_group, 71); return; }
    if (!G.active) return;
    static u64 last_step = ~0ull; static int same = 0; static u64 last_seed;
    if (G.cseed == last_seed) ++same; else same = 0;
    last_seed = G.cseed;
    if (same < 20) return;   // ~20 s of real time in one execution
    (void)last_step;
    g_reporting = 1;
    rep("RT-TIMEOUT\ncase: %s\nseed: %llu\nstep: %llu\ndesc: %s\nRT-END\n", G.ccase ? G.ccase->name : "?", (unsigned long long)G.cseed, (unsigned long long)G.step, G.desc);
    (void)!write(1, g_rep, g_repn);
    syscall(SYS_exit_group, 71);
}
void* exec_main(void* a) {
    Case* c = (Case*)a;
    c->fn();
    return nullptr;
}
void begin_exec(Case* c, u64 seed) {
    G.ccase = c; G.cseed = seed;
    u64 h = 1469598103934665603ull; for (const char* p = c->name; *p; ++p) h = (h ^ (u8)*p) * 1099511628211ull;
    G.srng.seed(seed * 2 + 1 + h); G.wrng.seed(seed * 2 + h);
    G.nth = 0; G.cur = nullptr; G.in_rt = 0; G.step = 0; G.now = 1000000000000ull + G.srng.below(1000000);
    G.hash = 0xcbf29ce484222325ull;
    G.step_limit = 400000;
    G.lowprio = 900000;
    u64 k = G.srng.below(8);
    G.nchg = 0;
    if (k < 3) { // PCT
        G.strat = 1;
        G.nchg = (int)G.srng.below(6);
        u64 span = 8ull << G.srng.below(8);
        for (int i = 0; i < G.nchg; ++i) G.chg[i] = 1 + G.srng.below(span);
    } else {
        G.strat = 0;
        static const u32 dens[] = { 2, 2, 3, 5, 10, 20, 40 };
        G.sw_num = 1; G.sw_den = dens[G.srng.below(7)];
    }
    static const u32 sd[] = { 0, 2, 3, 6 }; G.stale_den = sd[G.srng.below(4)];
    static const u32 sp[] = { 0, 0, 8, 20 }; G.spur_den = sp[G.srng.below(4)];
    static const u32 jd[] = { 0, 200, 50, 12 }; G.jump_den = jd[G.srng.below(4)]; G.no_jumps = false; G.nprocs = (int)G.srng.below(12); G.nprocs = G.nprocs == 10 ? 0 : G.nprocs == 11 ? 20 : 1 + G.nprocs % 3;
    G.no_stale = false;
    { static const u8 fb[] = { 0xCD, 0x00, 0xFF, 0x01 }; G.fill = fb[(seed * 0x9E3779B97F4A7C15ull) >> 62]; }   // what fresh memory holds
    // memory
    if (G.bump > ARENA) {
        size_t used = G.bump - ARENA + 64; if (used > ARENA_SZ) used = ARENA_SZ;
        memset(G.sh, 0, used);
    }
    G.bump = ARENA + 4096; G.allocs.clear(); G.live = 0; G.ignore_leaks = false;
    ++G.gen; G.used = 0; G.nrec = 1; G.naloc = 1;
    G.mtx.clear(); G.sv.clear(); G.scfence.clear();
    memset(G.slot, 0, sizeof G.slot);
    G.log.clear(); G.desc[0] = 0;
    for (int i = 0; i < G.ncar; ++i) G.car[i].th = nullptr;
}
void run_exec(Case* c, u64 seed) {
    begin_exec(c, seed);
    Th* t = new_thread(exec_main, c);
    G.cur = t;
    G.active = true;
    sem_post_(&t->car->sem);
    sem_wait_(&G.ctl_sem);
    // everything has finished
    for (int i = 0; i < 15; ++i) if (G.slot[i] != 0 && !G.ignore_leaks) {
        static const char* nm[] = { "value", "exception", "coroutine-frame", "guard" };
        char k[64]; snprintf(k, sizeof k, "lifetime-%s", i < 4 ? nm[i] : "other");
        report_begin("lifetime", k);
        rep("detail: tracked objects (%s): %lld left at the end; 0 expected\n", i < 4 ? nm[i] : "other", (long long)G.slot[i]);
        for (auto& a : G.allocs) if (!a.freed) { rep("leaked: size %zu by t%d\n", a.n, a.tid); rep_stack("stack", a.pcs, 10); break; }
        report_log(); report_end(66);
    }
    if (G.live && !G.ignore_leaks) {
        report_begin("leak", "leak");
        rep("detail: %llu heap blocks still allocated at the end\n", (unsigned long long)G.live);
        int k = 0;
        for (auto& a : G.allocs) if (!a.freed && k++ < 3) {
            rep("leaked: size %zu by t%d\n", a.n, a.tid);
            rep_stack(k == 1 ? "stack" : "alloc-stack", a.pcs, 10);
        }
        report_log(); report_end(66);
    }
}
} // namespace

rt_case_reg::rt_case_reg(const char* prop, const char* name, rt_case_fn fn, int weight) {
    if (g_ncases < 256) g_cases[g_ncases++] = Case{ prop, name, fn, weight };
}

// ------------------------------------------------------------- harness API
extern "C" {
uint64_t rt_rand(uint64_t n) { InRt in; return G.wrng.below(n); }
uint64_t rt_now() { return G.now; }
uint64_t rt_step() { return G.step; }
int rt_tid() { return G.cur ? G.cur->id : -1; }
int rt_controlled() { return 1; }
void rt_fail(const char* key, const char* msg) { ++G.in_rt; violation("property", key, msg); }
void rt_count(const char* what, uint64_t n) {
    for (int i = 0; i < g_ncounts; ++i) if (g_counts[i].what == what || !strcmp(g_counts[i].what, what)) { g_counts[i].n += n; return; }
    if (g_ncounts < 512) g_counts[g_ncounts++] = CountEnt{ what, n };
}
void rt_log(const char* what, int64_t a, int64_t b) {
    InRt in;
    if (G.log.size() > 4000) return;
    LogEnt e{ what, a, b, G.cur ? G.cur->id : -1, G.step }; G.log.push_back(e);
}
void rt_desc(const char* fmt, ...) {
    InRt in;
    size_t l = strlen(G.desc);
    va_list ap; va_start(ap, fmt); vsnprintf(G.desc + l, sizeof G.desc - l, fmt, ap); va_end(ap);
}
void rt_yield() { if (!active()) return; InRt in; sched_point(10); }
int64_t rt_get(int s) { return G.slot[s]; }
static void slot_wake(int s) {
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i].st == S_BLOCK && G.th[i].why == W_SLOT && G.th[i].waddr == (uptr)s && G.slot[s] >= G.th[i].wval) G.th[i].st = S_RUN;
}
void rt_set(int s, int64_t v) { G.slot[s] = v; slot_wake(s); }
int64_t rt_add(int s, int64_t v) { G.slot[s] += v; slot_wake(s); return G.slot[s]; }
void rt_wait_slot(int s, int64_t v) { if (!active()) return; InRt in; while (G.slot[s] < v) block(W_SLOT, (uptr)s, v, ~0ull); }
void rt_quiesce() { if (!active()) return; InRt in; block(W_QUIESCE, 0, 0, ~0ull); }
void rt_no_time_jumps() { G.jump_den = 0; G.no_jumps = true; }
void rt_sleep(uint64_t ns) { if (!active()) return; InRt in; if (ns) block(W_SLEEP, 0, 0, G.now + ns); else sched_point(11); }
void rt_ignore_leaks(int on) { G.ignore_leaks = on != 0; }
void rt_fail_alloc(int64_t n, int keep) { if (!active()) return; InRt in; G.cur->alloc_fail = n < 0 ? 0 : n + 1; G.cur->alloc_keep = keep; if (n >= 0) G.cur->alloc_failed = false; }
int rt_alloc_failed() { return active() && G.cur->alloc_failed; }
void rt_fail_thread(int64_t n) { if (!active()) return; InRt in; G.cur->thread_fail = n < 0 ? 0 : n + 1; }
uint64_t rt_live_allocs() { return G.live; }
void rt_no_stale() { G.no_stale = true; }

// ------------------------------------------------------------ tsan callbacks
#define PC __builtin_return_address(0)
#define CFA ((uptr)__builtin_frame_address(0) + 16)     // the caller's stack pointer
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { if (active()) { InRt in; G.csp = CFA; access((uptr)a, n, false, false, PC, "read"); G.csp = 0; } } \
    void __tsan_write##n(void* a) { if (active()) { InRt in; G.csp = CFA; access((uptr)a, n, true, false, PC, "write"); G.csp = 0; } } \
    void __tsan_volatile_read##n(void* a) { __tsan_read##n(a); } \
    void __tsan_volatile_write##n(void* a) { __tsan_write##n(a); } \
    void __tsan_read##n##_pc(void* a, void*) { __tsan_read##n(a); } \
    void __tsan_write##n##_pc(void* a, void*) { __tsan_write##n(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define RWU(n) \
    void __tsan_unaligned_read##n(void* a) { if (active()) { InRt in; G.csp = CFA; access((uptr)a, n, false, false, PC, "read"); G.csp = 0; } } \
    void __tsan_unaligned_write##n(void* a) { if (active()) { InRt in; G.csp = CFA; access((uptr)a, n, true, false, PC, "write"); G.csp = 0; } }
RWU(2) RWU(4) RWU(8) RWU(16)
void __tsan_vptr_update(void** a, void* nv) { if (active()) { if (!g_vg && *a == nv) return; InRt in; access((uptr)a, 8, true, false, PC, "vptr write"); } }
void __tsan_vptr_read(void** a) { if (active()) { InRt in; access((uptr)a, 8, false, false, PC, "vptr read"); } }
void __tsan_read_range(void* a, unsigned long n) { if (active() && n) { InRt in; access((uptr)a, n, false, false, PC, "read"); } }
void __tsan_write_range(void* a, unsigned long n) { if (active() && n) { InRt in; access((uptr)a, n, true, false, PC, "write"); } }

#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { if (!active()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); return a_load<T>(a, mo, PC); } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { if (!active()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } a_store<T>(a, v, mo, PC); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { if (!active()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { if (!active()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { if (!active()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { if (!active()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { if (!active()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { if (!active()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { if (!active()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); return a_rmw<T>(a, mo, PC, [v](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { \
        if (!active()) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return a_cas<T>(a, e, d, mo, fmo, false, PC); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { \
        if (!active()) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return a_cas<T>(a, e, d, mo, fmo, true, PC); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) { \
        if (!active()) { __atomic_compare_exchange_n(a, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } a_cas<T>(a, &e, d, mo, fmo, false, PC); return e; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!active()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    InRt in; sched_point(12);
    Th* t = G.cur;
    if (is_acq(mo)) t->vc.join(t->acqfence);
    if (mo == mo_sc) { t->vc.join(G.scfence); G.scfence.join(t->vc); }
    if (is_rel(mo)) { t->relfence = t->vc; t->has_relfence = true; ++t->vc.c[t->id]; }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------- interpositions
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!active()) return real_create()(out, at, fn, arg);
    InRt in;
    if (G.cur->thread_fail && --G.cur->thread_fail == 0) return EAGAIN;
    sched_point(13);
    Th* t = new_thread(fn, arg);
    *out = t->car->pt;
    ++G.cur->vc.c[G.cur->id];
    sched_point(13);
    return 0;
}
static Th* by_pt(pthread_t p) { for (int i = 0; i < G.nth; ++i) if (G.th[i].car->pt == p) return &G.th[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    if (!active()) { static auto f = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return f(p, ret); }
    InRt in;
    sched_point(14);
    Th* t = by_pt(p);
    if (!t || t->joined || t->detached) violation("bad-join", "bad-join", "join of a thread that is not joinable");
    while (t->st != S_DONE) block(W_JOIN, (uptr)t->id, 0, ~0ull);
    t->joined = true;
    G.cur->vc.join(t->vc);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!active()) { static auto f = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return f(p); }
    InRt in; Th* t = by_pt(p); if (t) t->detached = true; return 0;
}
#define REAL(name, type) static auto f = (type)dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) { REAL(pthread_mutex_lock, int (*)(pthread_mutex_t*)); return G.active ? 0 : f(m); }
    InRt in; return m_lock((uptr)m, PC, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) { REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t*)); return G.active ? 0 : f(m); }
    InRt in; return m_lock((uptr)m, PC, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) { REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t*)); return G.active ? 0 : f(m); }
    InRt in; m_unlock((uptr)m, PC); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!active()) { return 0; }
    InRt in; access((uptr)m, 1, true, true, PC, "mutex destroy");
    if (mtx_of((uptr)m).owner >= 0) violation("bad-destroy", "destroy-locked-mutex", "a locked mutex is destroyed");
    mtx_of((uptr)m).addr = 0;
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!active()) return 0;
    InRt in; access((uptr)c, 1, true, true, PC, "condvar destroy");
    for (int i = 0; i < G.nth; ++i)
        if (G.th[i].st == S_BLOCK && G.th[i].why == W_COND && G.th[i].waddr == (uptr)c)
            violation("bad-destroy", "destroy-waited-condvar", "a condition variable with a waiter is destroyed");
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active()) { REAL(pthread_cond_wait, int (*)(pthread_cond_t*, pthread_mutex_t*)); return f(c, m); }
    InRt in; return c_wait((uptr)c, (uptr)m, ~0ull, PC);
}
static u64 ts_ns(const struct timespec* t) { return t->tv_sec < 0 ? 0 : (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (!active()) { REAL(pthread_cond_timedwait, int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)); return f(c, m, t); }
    u64 d = ts_ns(t);
    InRt in; return c_wait((uptr)c, (uptr)m, d, PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (!active()) { REAL(pthread_cond_clockwait, int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)); return f(c, m, k, t); }
    u64 d = ts_ns(t);
    InRt in; return c_wait((uptr)c, (uptr)m, d, PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) { REAL(pthread_cond_signal, int (*)(pthread_cond_t*)); return G.active ? 0 : f(c); }
    InRt in; c_signal((uptr)c, false, PC); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) { REAL(pthread_cond_broadcast, int (*)(pthread_cond_t*)); return G.active ? 0 : f(c); }
    InRt in; c_signal((uptr)c, true, PC); return 0;
}
int sched_yield() {
    if (!active()) { syscall(SYS_sched_yield); return 0; }
    InRt in; do_yield(); return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) {
    if (!active()) return (int)syscall(SYS_clock_gettime, k, ts);
    InRt in; sched_point(15);
    ts->tv_sec = G.now / 1000000000ull; ts->tv_nsec = G.now % 1000000000ull; return 0;
}
int get_nprocs() { return active() ? G.nprocs : 4; }    // decides how many lists a stop state has
int nanosleep(const struct timespec* t, struct timespec* r) {
    if (!active()) return (int)syscall(SYS_nanosleep, t, r);
    u64 n = ts_ns(t); InRt in; block(W_SLEEP, 0, 0, G.now + n); return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec* r) {
    if (!active()) { (void)r; return (int)syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, flags, t, r); }
    u64 n = ts_ns(t); InRt in; block(W_SLEEP, 0, 0, (flags & 1) ? n : G.now + n); return 0;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long g) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = g;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), g = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active()) {
        int op = (int)b & 127;
        InRt in;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched_point(16);
            check_live((uptr)a, 4, false, PC, "futex wait");
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            u64 dl = ~0ull;
            if (d) { dl = ts_ns((const struct timespec*)d); if (op == FUTEX_WAIT) dl += G.now; }
            block(W_FUTEX, (uptr)a, 0, dl);
            if (G.cur->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sched_point(17);
            int k = 0;
            for (int i = 0; i < G.nth && k < (int)c; ++i)
                if (G.th[i].st == S_BLOCK && G.th[i].why == W_FUTEX && G.th[i].waddr == (uptr)a) { G.th[i].st = S_RUN; G.th[i].deadline = ~0ull; ++k; }
            return k;
        }
    }
    return raw_syscall(n, a, b, c, d, e, g);
}
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
    char k[300], d[600];
    const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
    ++G.in_rt;
    snprintf(k, sizeof k, "assert:%s:%.120s", b, expr);
    snprintf(d, sizeof d, "assertion `%s' failed in %s (%s:%u)", expr, fn, b, line);
    if (!G.active) { fprintf(stderr, "%s\n", d); abort(); }
    violation("assert", k, d);
}
int __cxa_guard_acquire(long long* gg) {
    char* g = (char*)gg;
    if (!active()) { if (*g) return 0; g[1] = 1; return 1; }
    InRt in;
    while (!g[0] && g[1]) do_yield();
    if (g[0]) { sv_acquire((uptr)g); return 0; }
    g[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* gg) { char* g = (char*)gg; g[0] = 1; g[1] = 0; if (active()) { InRt in; sv_release((uptr)g); } }
void __cxa_guard_abort(long long* gg) { ((char*)gg)[1] = 0; }

void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (n && active()) { InRt in; access((uptr)s, n, false, false, PC, "memcpy read"); access((uptr)d, n, true, false, PC, "memcpy write"); }
    return __real_memmove(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (n && active()) { InRt in; access((uptr)s, n, false, false, PC, "memmove read"); access((uptr)d, n, true, false, PC, "memmove write"); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
    if (n && active()) { InRt in; access((uptr)d, n, true, false, PC, "memset"); }
    return __real_memset(d, v, n);
}
// clang's names for the three
void* __tsan_memcpy(void*, const void*, size_t) __attribute__((alias("__wrap_memcpy")));
void* __tsan_memmove(void*, const void*, size_t) __attribute__((alias("__wrap_memmove")));
void* __tsan_memset(void*, int, size_t) __attribute__((alias("__wrap_memset")));
// malloc/free as called by instrumented code only (linked with --wrap)
static bool fail_alloc() {
    if (LIKELY(!G.cur->alloc_fail)) return false;
    if (G.cur->alloc_fail > 1) { --G.cur->alloc_fail; return false; }
    if (!G.cur->alloc_keep) G.cur->alloc_fail = 0;
    return G.cur->alloc_failed = true;
}
void* __wrap_malloc(size_t n) { if (!active()) return __real_malloc(n); if (fail_alloc()) return nullptr; InRt in; return arena_alloc(n, 16, true); }
void* __wrap_calloc(size_t a, size_t b) { if (!active()) return __real_calloc(a, b); if (fail_alloc()) return nullptr; InRt in; void* p = arena_alloc(a * b, 16, true); memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { if (!p) return; if (arena_has(p)) { InRt in; arena_free(p, PC, true); } else __real_free(p); }

// an exception object lives outside the arena: forget what was there before
void* __cxa_allocate_exception(size_t n) noexcept {
    typedef void* (*fn)(size_t);
    static fn f = (fn)dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    void* p = f(n);
    if (active()) { InRt in; forget((uptr)p - 128, n + 128); }
    return p;
}

// exception_ptr's reference count lives in libstdc++.so, which is not
// instrumented: model its synchronisation here.
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void** self) {
    typedef void (*fn)(void**);
    static fn f = (fn)dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
    f(self);
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** self) {
    typedef void (*fn)(void**);
    static fn f = (fn)dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    if (active() && *self) { InRt in; sv_release((uptr)*self ^ 0x5a5a000000000000ull); sv_acquire((uptr)*self ^ 0x5a5a000000000000ull); }
    f(self);
}
} // extern "C"

void* operator new(size_t n) {
    if (!active()) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
    if (fail_alloc()) throw std::bad_alloc();
    InRt in; return arena_alloc(n, 16, false);
}
void* operator new(size_t n, std::align_val_t al) {
    if (!active()) { void* p = aligned_alloc((size_t)al, (n + (size_t)al - 1) & ~((size_t)al - 1)); if (!p) abort(); return p; }
    if (fail_alloc()) throw std::bad_alloc();
    InRt in; return arena_alloc(n, (size_t)al, false);
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
static void del(void* p, void* pc) {
    if (!p) return;
    if (arena_has(p)) { ++G.in_rt; arena_free(p, pc, false); --G.in_rt; return; }
    free(p);
}
void operator delete(void* p) noexcept { del(p, PC); }
void operator delete[](void* p) noexcept { del(p, PC); }
void operator delete(void* p, size_t) noexcept { del(p, PC); }
void operator delete[](void* p, size_t) noexcept { del(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { del(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p, PC); }

// ---------------------------------------------------------------------- main
static void on_terminate() {
    ++G.in_rt;
    if (!G.active) abort();
    violation("crash", "terminate", "std::terminate was called");
}
static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); }
    fputc('"', f);
}
int main(int argc, char** argv) {
    std::string only, out, hashes; u64 seed = 1, count = 100, start = 0, stride = 1; bool list = false; int cpu = -1; u64 budget_ms = 0;
    u64 one = 0; bool have_one = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--case") only = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
        else if (a == "--start") start = strtoull(nx().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
        else if (a == "--cpu") cpu = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--hashes") hashes = nx();
        else if (a == "--budget-ms") budget_ms = strtoull(nx().c_str(), 0, 10);
        else if (a == "--exec") { one = strtoull(nx().c_str(), 0, 10); have_one = true; }
        else if (a == "-v") G.verbose = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (list) { for (int i = 0; i < g_ncases; ++i) printf("%s %s %d\n", g_cases[i].prop, g_cases[i].name, g_cases[i].weight); return 0; }
    if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    void* ar = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    G.sh = (u8*)mmap(nullptr, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G.tabn = 1 << 20; G.tab = (Cell*)calloc(G.tabn, sizeof(Cell)); G.recs.resize(1 << 16);
    G.capaloc = 1 << 15; G.alocs = (ALoc*)calloc(G.capaloc, sizeof(ALoc));
    for (u32 i = 0; i < G.capaloc; ++i) new (&G.alocs[i]) ALoc();
    if (ar != (void*)ARENA) { fprintf(stderr, "cannot map the arena\n"); return 2; }
    G.bump = ARENA;
    g_vg = RUNNING_ON_VALGRIND != 0;
    make_carriers();
    std::set_terminate(on_terminate);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
    struct sigaction sl; memset(&sl, 0, sizeof sl); sl.sa_handler = on_alarm; sl.sa_flags = SA_RESTART; sigaction(SIGALRM, &sl, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_REAL, &it, nullptr);

    u64 t0 = real_ms();
    u64 total = 0, interleaved = 0; Vec<u64> hs; Vec<std::pair<u64,u64>> percase; std::string samples; int nsamples = 0; u64 steps = 0;
    std::vector<u64> per(g_ncases, 0);
    bool stop = false;
    for (u64 k = start; k < count && !stop; k += stride) {
        for (int i = 0; i < g_ncases && !stop; ++i) {
            if (!only.empty() && ("," + only + ",").find("," + std::string(g_cases[i].name) + ",") == std::string::npos) continue;   // --case A,B,...
            u64 reps = have_one ? 1 : g_cases[i].weight;
            for (u64 r = 0; r < reps; ++r) {
                u64 s = have_one ? one : (seed * 1000003ull + k) * 16 + r;
                u64 sw0 = G.nswitch;
                run_exec(&g_cases[i], s);
                ++total; ++per[i]; steps += G.step;
                if (g_vg && VALGRIND_COUNT_ERRORS) {
                    report_begin("uninitialised", "uninitialised-value");
                    rep("detail: memcheck: a decision or a call used a value that was never written (its report is above)\n");
                    report_log(); report_end(66);
                }
                if (G.nswitch - sw0 >= 2 && G.nth >= 2) { ++interleaved; u64 h = G.hash; for (const char* p = g_cases[i].name; *p; ++p) h = (h ^ (u8)*p) * 1099511628211ull; hs.push_back(h); }
                else if (G.nth == 1) { u64 h = G.hash; for (const char* p = G.desc; *p; ++p) h = (h ^ (u8)*p) * 1099511628211ull; for (auto& e : G.log) h = (h ^ (u64)(e.a * 31 + e.b)) * 1099511628211ull; hs.push_back(h); }
                if (nsamples < 3 && (total % 37 == 1)) {
                    char b[1600]; snprintf(b, sizeof b, "%s exec=%llu steps=%llu threads=%d strategy=%s %s", g_cases[i].name, (unsigned long long)s, (unsigned long long)G.step, G.nth, G.strat ? "PCT" : "random", G.desc);
                    samples += b; samples += "\n"; ++nsamples;
                }
                if (G.verbose) {
                    printf("exec %llu case %s steps %llu threads %d desc %s\n", (unsigned long long)s, g_cases[i].name, (unsigned long long)G.step, G.nth, G.desc);
                    for (auto& e : G.log) printf("  @%llu t%d %s %lld %lld\n", (unsigned long long)e.step, e.tid, e.what, (long long)e.a, (long long)e.b);
                }
            }
            if (have_one) stop = true;
            if (budget_ms && (total & 15) == 0 && real_ms() - t0 > budget_ms) stop = true;
        }
        if (have_one) break;
    }
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "wb"); if (f) { fwrite(hs.data(), 8, hs.size(), f); fclose(f); } }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"executions\": %llu, \"interleaved\": %llu, \"steps\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"stale_reads\": %llu, \"timer_jumps\": %llu, \"accesses\": %llu, \"atomics\": %llu, \"allocations\": %llu, \"locks\": %llu, \"max_threads\": %d, \"ms\": %llu, \"stopped\": %s",
        (unsigned long long)total, (unsigned long long)interleaved, (unsigned long long)steps, (unsigned long long)G.nswitch, (unsigned long long)G.npreempt, (unsigned long long)G.nstale, (unsigned long long)G.njump, (unsigned long long)G.nrace_checks, (unsigned long long)G.natomic, (unsigned long long)G.nalloc, (unsigned long long)G.nlock, G.maxth, (unsigned long long)(real_ms() - t0), stop && !have_one ? "true" : "false");
    fprintf(f, ", \"cases\": {"); { bool c = false; for (int i = 0; i < g_ncases; ++i) if (per[i]) { fprintf(f, "%s\"%s\": %llu", c ? ", " : "", g_cases[i].name, (unsigned long long)per[i]); c = true; } }
    fprintf(f, "}, \"events\": {"); for (int i = 0; i < g_ncounts; ++i) { fprintf(f, "%s", i ? ", " : ""); jstr(f, g_counts[i].what); fprintf(f, ": %llu", (unsigned long long)g_counts[i].n); }
    fprintf(f, "}, \"samples\": "); jstr(f, samples.c_str());
    fprintf(f, "}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
