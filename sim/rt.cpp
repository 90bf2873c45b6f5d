// Deterministic simulation runtime. Compiled WITHOUT instrumentation; no STL so that no template code is shared with
// the (instrumented) system under test.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

extern "C" char __data_start, _end;
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
}

namespace sim {

Shared *shared;

static const int MAXF = 160;
static const size_t STACK = 1 << 20;
static char *const STACKS = (char *)0x20000000000ULL;
static char *const ARENA = (char *)0x10000000000ULL;
static const size_t ARENA_SIZE = 3ULL << 30;
static const size_t ARENA_FRESH = 300ULL << 20;   // above this, quarantined blocks are recycled (oldest first)
static unsigned char *const SHADOW = (unsigned char *)0x18000000000ULL;
enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2 };

struct WS { bool init; bool ull; long next, end, incr, chunk; unsigned long unext, uend, uincr, uchunk; bool up; int kind; int done; long nstatic_seen; };

struct Team {
    Team *parent; int parent_tid; int n, level, active; int remaining; struct Fiber *master;
    int bar_count; unsigned bar_gen; WS *ws; int nws; void *copyptr; int single_owner_done;
};

enum FState { F_FREE, F_RUNNABLE, F_BLOCKED, F_DONE };
struct Fiber {
    void *sp; int id; FState st; const void *wait; const char *why;
    Team *team; int tid; int wsc; int nthreads;
    uint64_t prio; uint64_t stall; uint64_t exc[2]; char *tls; bool tls_used;
    void (*fn)(void *); void *data; bool is_thread; void *(*tfn)(void *); void *tret; bool detached;
    int nopre; int ncalls; char note[160];
    bool wake;
    WS *cws; long cstat;  // current work share
};

struct G {
    bool running;
    Fiber f[MAXF];
    Fiber *cur;
    int live;
    uint64_t steps, next_preempt, last_progress, hang_budget, evseq;
    Rng rng, env;
    SchedCfg cfg;
    const Switch *ex; int nex, exi; uint64_t forced;
    uint64_t pct_points[64]; int npct; uint64_t low_prio;
    bool explicit_mode, rescue;
    uint64_t hash, sig;
    size_t bump;
    int max_levels, dyn;
    uint64_t acc_budget;
    void *fl_head[128], *fl_tail[128];
};
static G g;
static void *host_sp;
static char *tls_base; static size_t tls_size; static const void *tls_init; static size_t tls_initsz;

static inline void mix(uint64_t v) { g.hash = (g.hash ^ v) * 0x100000001b3ULL; g.hash ^= g.hash >> 29; }

static void finish(int outcome) __attribute__((noreturn));
static void finish(int outcome) {
    g.running = false;
    shared->r.outcome = outcome;
    shared->r.hash = g.hash;
    shared->r.sig = g.sig;
    shared->r.counters[C_STEPS] = g.steps;
    _exit(0);
}

static void dump_fibers() {
    size_t o = 0;
    char *b = shared->r.dump; size_t cap = sizeof shared->r.dump;
    for (int i = 0; i < MAXF && o + 256 < cap; i++) {
        Fiber &f = g.f[i];
        if (f.st == F_FREE || f.st == F_DONE) continue;
        o += snprintf(b + o, cap - o, "  thread %d (level %d, tid %d): %s%s%s%s%s\n", f.id, f.team ? f.team->level : 0, f.tid,
                      f.st == F_RUNNABLE ? "runnable" : "blocked", f.st == F_BLOCKED ? " on " : "",
                      f.st == F_BLOCKED ? f.why : "", f.note[0] ? ", in " : "", f.note);
    }
}

void violation(const char *cls, const char *fmt, ...) {
    if (shared->r.outcome != O_RUNNING) _exit(0);
    g.running = false;
    snprintf(shared->r.cls, sizeof shared->r.cls, "%s", cls);
    va_list ap; va_start(ap, fmt);
    vsnprintf(shared->r.msg, sizeof shared->r.msg, fmt, ap);
    va_end(ap);
    dump_fibers();
    for (const char *p = cls; *p; p++) mix((unsigned char)*p);
    finish(O_VIOLATION);
}

// ------------------------------------------------------------------------------------------------ memory
static inline bool in_arena(const void *p) { return (const char *)p >= ARENA && (const char *)p < ARENA + ARENA_SIZE; }
static inline size_t shi(const void *p) { return ((const char *)p - ARENA) >> 4; }

struct Hdr { uint32_t cap16; uint32_t cls; uint64_t size; };

static int size_class(size_t sz, size_t &cap) {
    if (sz <= 1024) { size_t c = (sz + 15) / 16; if (!c) c = 1; cap = c * 16; return (int)c; }
    int c = 65; size_t k = 2048;
    while (k < sz) { k <<= 1; c++; }
    cap = k; return c;
}

bool freed(const void *p) { return in_arena(p) && SHADOW[shi(p)] != SH_LIVE; }

static long af_skip, af_left, af_fired;   // planned allocation failures
static bool af_paused;
static int af_window;                     // 0: count allocations; n: count places (the n innermost calls) which haven't allocated before
static uint64_t af_seen[8192]; static int af_nseen;
enum { CALLS = 256 };
static void *calls[MAXF][CALLS];          // each fiber's instrumented calls
static bool af_new_place() {
    if (!af_window) return true;
    Fiber *f = g.cur;
    uint64_t h = 0x9E3779B97F4A7C15ULL;
    for (int i = f->ncalls < CALLS ? f->ncalls : CALLS, k = 0; i > 0 && k < af_window; k++) h = (h ^ (uint64_t)calls[f->id][--i]) * 0x100000001b3ULL, h ^= h >> 31;
    if (!h) h = 1;
    for (int i = h % 8192;; i = (i + 1) % 8192) {
        if (af_seen[i] == h) return false;
        if (!af_seen[i]) { if (af_nseen > 8000) return false; af_seen[i] = h; af_nseen++; return true; }
    }
}
// GSL ends the process when it has no memory (its documented behaviour): its own allocations don't fail
static uintptr_t gsl_from, gsl_to;
static int find_gsl(struct dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libgsl.so")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { gsl_from = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; gsl_to = gsl_from + i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static bool in_gsl(const void *ra) { return (uintptr_t)ra >= gsl_from && (uintptr_t)ra < gsl_to; }
static void *arena_alloc(size_t sz, size_t align, bool zero, const void *ra = NULL) {
    if (sz > (1ULL << 28)) { errno = ENOMEM; return NULL; }
    if (g.running) {
        shared->r.counters[C_ALLOCS]++;
        if (af_left > 0 && !af_paused && !in_gsl(ra) && g.cur && !g.cur->nopre) {
            if (!af_fired && !af_new_place()) ;
            else if (af_skip > 0) af_skip--;
            else { af_left--; af_fired++; shared->r.counters[C_ALLOC_FAIL]++; mix(0xA110C); errno = ENOMEM; return NULL; }
        }
    }
    size_t cap; int cls = size_class(sz, cap);
    char *p = NULL;
    if (align <= 16 && (g.bump > ARENA_FRESH || (g.running && g.cfg.recycle)) && g.fl_head[cls]) {
        p = (char *)g.fl_head[cls];
        g.fl_head[cls] = *(void **)p;
        if (!g.fl_head[cls]) g.fl_tail[cls] = NULL;
    } else {
        size_t off = g.bump + 16;
        off = (off + align - 1) & ~(align - 1);
        if (align > 16) cls = 0;
        if (off + cap + 16 > ARENA_SIZE) { shared->r.narena_over = 1; finish(O_BUDGET); }
        p = ARENA + off;
        g.bump = off + cap;
        g.bump = (g.bump + 15) & ~15ULL;
    }
    Hdr *h = (Hdr *)(p - 16);
    h->cap16 = cap / 16; h->cls = cls; h->size = sz;
    memset(SHADOW + shi(p), SH_NONE, cap / 16);
    memset(SHADOW + shi(p), SH_LIVE, sz ? (sz + 15) / 16 : 1);
    if (zero) memset(p, 0, sz);
    else if (g.cfg.junk) memset(p, g.cfg.junk, sz < 1024 ? sz : 1024);
    return p;
}

static void arena_free(void *q) {
    char *p = (char *)q;
    if (((uintptr_t)p & 15) || SHADOW[shi(p)] != SH_LIVE) {
        if (g.running) violation("memory", "free() of memory that is not allocated (double free or bad pointer)");
        return;
    }
    Hdr *h = (Hdr *)(p - 16);
    size_t cap = (size_t)h->cap16 * 16;
    memset(SHADOW + shi(p), SH_FREED, cap / 16);
    memset(p, 0xDD, h->size < 512 ? h->size : 512);
    if (h->cls && g.running && g.cfg.recycle) {   // the next object of this size gets this very address
        int c = h->cls;
        *(void **)p = g.fl_head[c];
        if (!g.fl_head[c]) g.fl_tail[c] = p;
        g.fl_head[c] = p;
    } else if (h->cls && g.bump > ARENA_FRESH / 2) {
        int c = h->cls;
        *(void **)p = NULL;
        if (g.fl_tail[c]) *(void **)g.fl_tail[c] = p; else g.fl_head[c] = p;
        g.fl_tail[c] = p;
    }
}

void arm_alloc_fault(long k, long n, int window) {
    if (!gsl_to) { gsl_to = 1; dl_iterate_phdr(find_gsl, NULL); }
    af_skip = k; af_left = n; af_fired = 0; af_paused = false; af_window = window; af_nseen = 0; memset(af_seen, 0, sizeof af_seen); }
bool pause_alloc_fault(bool p) { bool b = af_paused; af_paused = p; return b; }
long disarm_alloc_fault() { af_left = 0; return af_fired; }

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void sim_ctx_switch(void **save, void *to);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static void fiber_exit();
static void fiber_entry() {
    Fiber *f = g.cur;
    if (f->is_thread) f->tret = f->tfn(f->data); else f->fn(f->data);
    fiber_exit();
    abort();
}

static Fiber *new_fiber() {
    for (int i = 0; i < MAXF; i++) {
        Fiber &f = g.f[i];
        if (f.st != F_FREE) continue;
        char *tls = f.tls; bool used = f.tls_used;
        memset(&f, 0, sizeof f);
        f.id = i; f.tls = tls; f.tls_used = used;
        f.st = F_RUNNABLE;
        char *top = STACKS + (size_t)i * STACK + STACK - 64;
        void **s = (void **)((uintptr_t)top & ~15ULL);
        *--s = 0;                       // fake return address: stops unwinders, aligns the stack
        *--s = (void *)fiber_entry;
        for (int k = 0; k < 6; k++) *--s = 0;
        f.sp = s;
        if (tls_size && !(g.cfg.reuse && f.tls_used)) {
            if (!f.tls) f.tls = (char *)__libc_malloc(tls_size);
            memset(f.tls, 0, tls_size);
            memcpy(f.tls, tls_init, tls_initsz);
        }
        f.tls_used = true;
        f.prio = (1ULL << 40) + g.rng.next() % (1ULL << 32);
        f.nthreads = g.cfg.nthreads;
        g.live++;
        return &f;
    }
    snprintf(shared->r.msg, sizeof shared->r.msg, "too many simulated threads");
    finish(O_BUDGET);
}

static void switch_to(Fiber *n) {
    Fiber *c = g.cur;
    if (n == c) return;
    uint64_t *eg = (uint64_t *)abi::__cxa_get_globals();
    c->exc[0] = eg[0]; c->exc[1] = eg[1];
    eg[0] = n->exc[0]; eg[1] = n->exc[1];
    if (tls_size) { memcpy(c->tls, tls_base, tls_size); memcpy(tls_base, n->tls, tls_size); }
    g.cur = n;
    sim_ctx_switch(&c->sp, n->sp);
}

static void record(int to, bool forced, uint64_t at) {
    mix((at << 8) ^ (forced ? 0x80 : 0) ^ (uint64_t)to);
    if (shared->r.nsw < MAXSW) { Switch &s = shared->sw[shared->r.nsw++]; s.step = at; s.to = to; s.forced = forced; }
    else shared->r.sw_over = 1;
}

static void set_next_preempt() {
    const SchedCfg &c = g.cfg;
    if (g.explicit_mode) {
        while (g.exi < g.nex && (g.ex[g.exi].forced || g.ex[g.exi].step <= g.steps)) g.exi++;
        g.next_preempt = g.exi < g.nex ? g.ex[g.exi].step : ~0ULL;
        return;
    }
    if (g.rescue) { g.next_preempt = g.steps + 1 + g.rng.below(2000); return; }
    switch (c.strat) {
    case ST_RANDOM: case ST_MIXED: g.next_preempt = g.steps + 1 + g.rng.below(2 * (uint64_t)c.rate); break;
    case ST_PCT: {
        uint64_t best = ~0ULL;
        for (int i = 0; i < g.npct; i++) if (g.pct_points[i] > g.steps && g.pct_points[i] < best) best = g.pct_points[i];
        g.next_preempt = best; break;
    }
    default: g.next_preempt = ~0ULL;
    }
    if (g.next_preempt == ~0ULL) g.next_preempt = g.steps + (20ULL << 20);
}

static int runnable(Fiber **out) {
    int n = 0, m = 0;
    for (int i = 0; i < MAXF; i++) {
        Fiber &f = g.f[i];
        if (f.st != F_RUNNABLE) continue;
        m++;
        if (f.stall > g.steps) continue;
        out[n++] = &f;
    }
    if (n == 0 && m) { for (int i = 0; i < MAXF; i++) if (g.f[i].st == F_RUNNABLE) { g.f[i].stall = 0; out[n++] = &g.f[i]; } }
    return n;
}

static Fiber *pick(Fiber **c, int n) {
    if (g.cfg.strat == ST_PCT && !g.rescue) {
        Fiber *b = c[0];
        for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
        return b;
    }
    return c[g.rng.below(n)];
}

static void check_budget() {
    if (g.steps - g.last_progress > g.hang_budget)
        violation("hang", "no operation completed within %llu simulated steps", (unsigned long long)g.hang_budget);
    if (g.steps > g.acc_budget) finish(O_BUDGET);
    if (!g.rescue && g.steps - g.last_progress > g.hang_budget / 8) { g.rescue = true; set_next_preempt(); }
}

static void do_preempt() {
    check_budget();
    Fiber *c = g.cur;
    if (g.explicit_mode) {
        int to = g.exi < g.nex && g.ex[g.exi].step == g.steps ? g.ex[g.exi].to : -1;
        set_next_preempt();
        if (to >= 0 && to < MAXF && g.f[to].st == F_RUNNABLE && to != c->id && !c->nopre) {
            shared->r.counters[C_PREEMPT]++; record(to, false, g.steps); switch_to(&g.f[to]);
        }
        return;
    }
    if (c->nopre) { g.next_preempt = g.steps + 1; return; }
    if (g.cfg.strat == ST_PCT && !g.rescue) {
        for (int i = 0; i < g.npct; i++) if (g.pct_points[i] == g.steps) { c->prio = --g.low_prio; break; }
    }
    set_next_preempt();
    if (g.cfg.strat == ST_NONE && !g.rescue) return;
    Fiber *r[MAXF]; int n = runnable(r);
    if (n <= 1 && (n == 0 || r[0] == c)) return;
    if (g.cfg.stall_pct && g.rng.below(100) < (uint64_t)g.cfg.stall_pct) {
        c->stall = g.steps + 200 + g.rng.below(200000); shared->r.counters[C_STALL]++;
        n = runnable(r);
    }
    Fiber *t = pick(r, n);
    if (t == c) return;
    shared->r.counters[C_PREEMPT]++;
    record(t->id, false, g.steps);
    switch_to(t);
}

static inline void step() { if (++g.steps >= g.next_preempt) do_preempt(); }

static void sync_point(int kind) {
    if (!g.running) return;
    shared->r.counters[C_SYNC]++;
    if (g.live > 1) g.sig = (g.sig ^ ((uint64_t)g.cur->id * 16 + kind + 1)) * 0x9E3779B97F4A7C15ULL + (g.sig >> 31);
    ++g.steps;
    if (g.steps >= g.next_preempt) { do_preempt(); return; }
    if (g.explicit_mode || g.cur->nopre) return;
    bool sw = false;
    if (g.cfg.strat == ST_SYNC || g.cfg.strat == ST_MIXED) sw = g.rng.below(100) < (uint64_t)g.cfg.sync_pct;
    else if (g.cfg.strat == ST_PCT) sw = true;
    if (!sw) return;
    Fiber *r[MAXF]; int n = runnable(r);
    if (!n) return;
    Fiber *c = g.cur;
    Fiber *t = pick(r, n);
    if (t == c) return;
    shared->r.counters[C_PREEMPT]++;
    record(t->id, false, g.steps);
    switch_to(t);
}

static void forced_switch() {
    Fiber *r[MAXF]; int n = runnable(r);
    if (!n) violation("hang", "deadlock: every simulated thread is blocked");
    check_budget();
    Fiber *t = NULL;
    uint64_t idx = g.forced++;
    if (g.explicit_mode) {
        for (int i = 0; i < g.nex; i++) if (g.ex[i].forced && g.ex[i].step == idx) {
            int to = g.ex[i].to; if (to >= 0 && to < MAXF && g.f[to].st == F_RUNNABLE) t = &g.f[to];
        }
        if (!t) t = r[0];
    } else t = pick(r, n);
    shared->r.counters[C_FORCED]++;
    record(t->id, true, idx);
    switch_to(t);
}

static void block(const void *w, const char *why) {
    Fiber *c = g.cur;
    c->st = F_BLOCKED; c->wait = w; c->why = why;
    forced_switch();
    c->wait = NULL;
}
static void wake_all(const void *w) {
    for (int i = 0; i < MAXF; i++) if (g.f[i].st == F_BLOCKED && g.f[i].wait == w) g.f[i].st = F_RUNNABLE;
}

static void fiber_exit() {
    Fiber *f = g.cur;
    Team *t = f->team;
    if (!f->is_thread) {
        f->st = F_FREE;
        if (--t->remaining == 0 && t->master->st == F_BLOCKED && t->master->wait == t) t->master->st = F_RUNNABLE;
    } else {
        f->st = f->detached ? F_FREE : F_DONE;
        wake_all(f);
    }
    g.live--;
    forced_switch();
}

// ------------------------------------------------------------------------------------------------ accesses
static void bad_access(const void *p, size_t n, int w, void *pc) __attribute__((noinline, noreturn));
static void bad_access(const void *p, size_t n, int w, void *pc) {
    const char *what = SHADOW[shi(p)] == SH_FREED || SHADOW[shi((const char *)p + n - 1)] == SH_FREED ? "freed" : "unallocated";
    violation("memory", "%s of %zu bytes of %s memory (code address %p)", w ? "write" : "read", n, what, pc);
}
static inline void acc(const void *p, size_t n, int w, void *pc) {
    if (!g.running) return;
    if (in_arena(p)) {
        if (__builtin_expect(SHADOW[shi(p)] != SH_LIVE || SHADOW[shi((const char *)p + n - 1)] != SH_LIVE, 0)) bad_access(p, n, w, pc);
    }
    step();
}

// ------------------------------------------------------------------------------------------------ locks
static void lock_word(volatile int *w, const char *why) {
    if (freed((const void *)w)) bad_access((const void *)w, 4, 1, __builtin_return_address(0));
    sync_point(1);
    if (*w && g.running) { shared->r.counters[why[0] == 'c' ? C_CRITWAIT : C_LOCKWAIT]++; }
    while (*w) {
        if (!g.running) break;
        block((const void *)w, why);
        if (freed((const void *)w)) bad_access((const void *)w, 4, 1, __builtin_return_address(0));
    }
    *w = 1;
}
static void unlock_word(volatile int *w) {
    if (freed((const void *)w)) bad_access((const void *)w, 4, 1, __builtin_return_address(0));
    *w = 0;
    wake_all((const void *)w);
    sync_point(2);
}

// ------------------------------------------------------------------------------------------------ public
void probe(int i) { shared->r.probes[i]++; }
void count(int c, uint64_t n) { shared->r.counters[c] += n; }
void event(uint64_t a, uint64_t b) { g.evseq++; mix(a); mix(b); mix(g.cur ? g.cur->id : 0); }
void event_d(uint64_t a, double v) { uint64_t u; memcpy(&u, &v, 8); if (v != v) u = 0x7ff8; event(a, u); }
void progress() { g.last_progress = g.steps; shared->r.counters[C_OPS]++; g.rescue = false; }
uint64_t now() { return ++g.evseq; }
int self() { return g.cur ? g.cur->id : 0; }
void point() { sync_point(5); }
bool in_run() { return g.running; }
NoPreempt::NoPreempt() { if (g.cur) g.cur->nopre++; }
NoPreempt::~NoPreempt() { if (g.cur) g.cur->nopre--; }
void set_hang_budget(uint64_t s) { g.hang_budget = s; }
void set_note(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(g.cur->note, sizeof g.cur->note, fmt, ap); va_end(ap);
}
const char *sharedmsg() { return shared->r.msg; }

struct RT { void (*f)(void *, int); void *arg; int i; };
static void *rt_thread(void *p) { RT *r = (RT *)p; r->f(r->arg, r->i); return NULL; }
static Fiber *spawn_thread(void *(*fn)(void *), void *arg) {
    Fiber *n = new_fiber();
    n->is_thread = true; n->tfn = fn; n->data = arg; n->team = NULL; n->tid = 0;
    return n;
}
static void join_fiber(Fiber *f) {
    while (f->st != F_DONE) block(f, "joining a thread");
    f->st = F_FREE;
}
void run_threads(int n, void (*f)(void *, int), void *arg) {
    RT r[64]; Fiber *fb[64];
    if (n > 64) n = 64;
    for (int i = 0; i < n; i++) { r[i].f = f; r[i].arg = arg; r[i].i = i; fb[i] = spawn_thread(rt_thread, &r[i]); }
    for (int i = 0; i < n; i++) join_fiber(fb[i]);
}

// ------------------------------------------------------------------------------------------------ run
static void (*body_fn)(void *); static void *body_arg;
static void main_fiber(void *) { body_fn(body_arg); finish(O_OK); }

static void on_signal(int s, siginfo_t *si, void *) {
    if (shared && shared->r.outcome == O_RUNNING) {
        snprintf(shared->r.cls, sizeof shared->r.cls, s == SIGINT ? "self-check" : s == SIGPROF ? "hang" : "crash");
        if (s == SIGINT) snprintf(shared->r.msg, sizeof shared->r.msg, "the library's own duplicate-calculation check fired (SIGINT raised)");
        else if (s == SIGPROF) snprintf(shared->r.msg, sizeof shared->r.msg, "processor time limit: the run does not terminate");
        else snprintf(shared->r.msg, sizeof shared->r.msg, "the process was killed by signal %d (%s)%s", s, strsignal(s),
                      s == SIGSEGV && in_arena(si->si_addr) ? " in simulated memory" : "");
        g.running = false;
        dump_fibers();
        g.hash ^= (uint64_t)s * 0x9E3779B97F4A7C15ULL;
        finish(O_VIOLATION);
    }
    _exit(97);
}

static void on_terminate() {
    char what[512] = "no exception";
    if (std::type_info *t = abi::__cxa_current_exception_type()) {
        snprintf(what, sizeof what, "%s", t->name());
        try { throw; } catch (std::exception &e) { snprintf(what, sizeof what, "%s: %s", t->name(), e.what()); } catch (...) {}
    }
    if (g.running) violation("terminate", "std::terminate: uncaught exception (%s)", what);
    _exit(98);
}

static int tls_cb(struct dl_phdr_info *info, size_t, void *) {
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
            tls_base = (char *)info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz;
            tls_init = (void *)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr); tls_initsz = info->dlpi_phdr[i].p_filesz;
        }
    return 1;  // main program only
}

void rt_init() {
    if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA ||
        mmap(SHADOW, ARENA_SIZE >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)SHADOW ||
        mmap(STACKS, MAXF * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != STACKS) {
        perror("mmap"); _exit(96);
    }
    for (int i = 0; i < MAXF; i++) mprotect(STACKS + (size_t)i * STACK, 4096, PROT_NONE);
    dl_iterate_phdr(tls_cb, NULL);
    __libc_single_threaded = 0;   // shared_ptr must use atomic reference counts, as in a multi-threaded process
}

void rt_run(const SchedCfg &cfg, const Explicit *ex, void (*body)(void *), void *arg, Shared *out) {
    shared = out;
    memset(&out->r, 0, sizeof out->r);
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; 
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGINT, SIGPROF};
    for (int s : sigs) sigaction(s, &sa, NULL);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, NULL);
    std::set_terminate(on_terminate);
    memset((void *)&g, 0, sizeof g);
    g.cfg = cfg; g.rng = Rng(cfg.seed * 0x9E3779B97F4A7C15ULL + 1); g.env = Rng(cfg.seed * 0xD1342543DE82EF95ULL + 77);
    g.hash = 0xcbf29ce484222325ULL; g.sig = 0x1234567;
    g.hang_budget = 120ULL << 20; g.acc_budget = 400ULL << 20;
    g.max_levels = cfg.max_levels;
    g.low_prio = 1ULL << 30;
    if (ex) { g.explicit_mode = true; g.ex = ex->sw; g.nex = ex->n; }
    else if (cfg.strat == ST_PCT) {
        g.npct = cfg.pct_depth > 60 ? 60 : cfg.pct_depth;
        for (int i = 0; i < g.npct; i++) g.pct_points[i] = 1 + g.rng.below(1ULL << cfg.pct_len);
    }
    set_next_preempt();
    body_fn = body; body_arg = arg;
    Fiber *m = new_fiber();
    m->fn = main_fiber;
    m->data = NULL;
    g.cur = m;
    if (tls_size) memcpy(tls_base, m->tls, tls_size);
    uint64_t *eg = (uint64_t *)abi::__cxa_get_globals(); eg[0] = eg[1] = 0;
    g.running = true;
    sim_ctx_switch(&host_sp, m->sp);
    _exit(95);
}
}  // namespace sim

using namespace sim;

// ================================================================================================ interposed libc
extern "C" {
void *malloc(size_t n) { return g.running ? arena_alloc(n, 16, false, __builtin_return_address(0)) : __libc_malloc(n); }
void free(void *p) {
    if (!p) return;
    if (in_arena(p)) arena_free(p); else __libc_free(p);
}
void *calloc(size_t a, size_t b) {
    if (!g.running) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return arena_alloc(n, 16, true, __builtin_return_address(0));
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!in_arena(p) && !g.running) return __libc_realloc(p, n);
    if (!in_arena(p)) {  // allocated before the run: copy what we may
        void *q = arena_alloc(n, 16, false); if (!q) return q;
        extern size_t malloc_usable_size(void *);
        size_t have = *(size_t *)((char *)p - 8) & ~7ULL; have -= 8;
        memcpy(q, p, have < n ? have : n); return q;
    }
    void *q = malloc(n); if (!q) return q;
    Hdr *h = (Hdr *)((char *)p - 16);
    memcpy(q, p, h->size < n ? h->size : n);
    free(p);
    return q;
}
void *memalign(size_t al, size_t n) { return g.running ? arena_alloc(n, al < 16 ? 16 : al, false) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
size_t malloc_usable_size(void *p) {
    if (!p) return 0;
    if (in_arena(p)) return ((Hdr *)((char *)p - 16))->size;
    return (*(size_t *)((char *)p - 8) & ~7ULL) - 8;
}

// C++ static-initialisation guards: byte 0 = done, byte 1 = in progress
int __cxa_guard_acquire(uint64_t *gv) {
    volatile char *b = (volatile char *)gv;
    if (b[0]) return 0;
    sync_point(3);
    while (b[1] && g.running) { block((const void *)gv, "static initialisation"); }
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t *gv) { char *b = (char *)gv; b[0] = 1; b[1] = 0; if (g.running) { wake_all(gv); sync_point(3); } }
void __cxa_guard_abort(uint64_t *gv) { char *b = (char *)gv; b[1] = 0; if (g.running) { wake_all(gv); sync_point(3); } }

// ---- pthread mutexes, condition variables, once, threads
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!g.running) { m->__data.__lock = 1; if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) m->__data.__count++; return 0; }
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (rec && m->__data.__lock && m->__data.__owner == g.cur->id + 1) { m->__data.__count++; return 0; }
    lock_word((volatile int *)&m->__data.__lock, "a mutex");
    m->__data.__owner = g.cur->id + 1;
    if (rec) m->__data.__count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (g.running) sync_point(1);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    int me = g.running ? g.cur->id + 1 : 0;
    if (m->__data.__lock) { if (rec && m->__data.__owner == me) { m->__data.__count++; return 0; } return EBUSY; }
    m->__data.__lock = 1; m->__data.__owner = me; if (rec) m->__data.__count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (rec && m->__data.__count > 0 && --m->__data.__count > 0) return 0;
    m->__data.__owner = 0;
    if (!g.running) { m->__data.__lock = 0; return 0; }
    unlock_word((volatile int *)&m->__data.__lock);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!g.running) return 0;
    bool spur = g.cfg.spurious_pct && g.env.below(100) < (uint64_t)g.cfg.spurious_pct;
    if (spur) { shared->r.counters[C_SPURIOUS]++; pthread_mutex_unlock(m); sync_point(4); }
    else {  // releasing the mutex and starting to wait is one step
        sync_point(4);
        m->__data.__count = 0; m->__data.__owner = 0; m->__data.__lock = 0;
        wake_all((const void *)&m->__data.__lock);
        block(c, "a condition variable");
    }
    pthread_mutex_lock(m);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const struct timespec *) { pthread_mutex_unlock(m); sync_point(4); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!g.running) return 0;
    Fiber *w[MAXF]; int n = 0;
    for (int i = 0; i < MAXF; i++) if (g.f[i].st == F_BLOCKED && g.f[i].wait == c) w[n++] = &g.f[i];
    if (n) w[g.env.below(n)]->st = F_RUNNABLE;
    sync_point(4);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (g.running) { wake_all(c); sync_point(4); } return 0; }
pthread_t pthread_self(void) {
    static pthread_t (*real)(void);
    if (g.running) return (pthread_t)(uintptr_t)(g.cur->id + 1);
    if (!real) real = (pthread_t (*)(void))dlsym(RTLD_NEXT, "pthread_self");
    return real();
}
// read-write locks: word 0 = writer, word 1 = number of readers
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    volatile int *w = (volatile int *)l;
    if (g.running) { sync_point(1); while (w[0]) { shared->r.counters[C_LOCKWAIT]++; block((const void *)l, "a read-write lock"); } }
    w[1] = w[1] + 1; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    volatile int *w = (volatile int *)l;
    if (g.running) { sync_point(1); while (w[0] || w[1]) { shared->r.counters[C_LOCKWAIT]++; block((const void *)l, "a read-write lock"); } }
    w[0] = 1; return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { volatile int *w = (volatile int *)l; if (g.running) sync_point(1); if (w[0]) return EBUSY; w[1] = w[1] + 1; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { volatile int *w = (volatile int *)l; if (g.running) sync_point(1); if (w[0] || w[1]) return EBUSY; w[0] = 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    volatile int *w = (volatile int *)l;
    if (w[0]) w[0] = 0; else if (w[1]) w[1] = w[1] - 1;
    if (g.running) { wake_all((const void *)l); sync_point(2); }
    return 0;
}
// futexes (used by std::future and std::atomic::wait)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == 202 && g.running) {
        volatile int *w = (volatile int *)a[0];
        int op = (int)a[1] & 127;
        if (op == 0 || op == 9) { sync_point(1); if (*w != (int)a[2]) { errno = EAGAIN; return -1; } block((const void *)w, "a futex"); return 0; }
        if (op == 1 || op == 10) { wake_all((const void *)w); sync_point(2); return 1; }
    }
    long r;
    register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    volatile int *w = (volatile int *)o;
    if (*w == 2) return 0;
    if (g.running) sync_point(3);
    while (*w == 1 && g.running) block((const void *)w, "one-time initialisation");
    if (*w == 2) return 0;
    *w = 1;
    try { f(); } catch (...) { *w = 0; if (g.running) wake_all((const void *)w); throw; }
    *w = 2;
    if (g.running) { wake_all((const void *)w); sync_point(3); }
    return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) {
    if (!g.running) return EAGAIN;
    Fiber *n = spawn_thread(f, a);
    *t = (pthread_t)(uintptr_t)(n->id + 1);
    sync_point(4);
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    Fiber *f = &g.f[(uintptr_t)t - 1];
    join_fiber(f); if (ret) *ret = f->tret; return 0;
}
int pthread_detach(pthread_t t) { Fiber *f = &g.f[(uintptr_t)t - 1]; f->detached = true; if (f->st == F_DONE) f->st = F_FREE; return 0; }
int sched_yield(void) { if (g.running) sync_point(5); return 0; }
static void sim_sleep(uint64_t us) {
    if (!g.running) return;
    Fiber *r[MAXF];
    g.cur->stall = g.steps + us;
    int n = runnable(r); (void)n;
    sync_point(5);
}
int usleep(useconds_t us) { sim_sleep(us); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { sim_sleep(t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { sim_sleep(t->tv_sec * 1000000 + t->tv_nsec / 1000); return 0; }
}

// ================================================================================================ OpenMP runtime
typedef struct { int w; } slock;
typedef struct { int count; int owner; } snest;   // as libgomp: 8 or 12 bytes available
static int critical_word;
static int atomic_word;
static int level_of(Fiber *f) { return f->team ? f->team->level : 0; }
static int active_of(Fiber *f) { return f->team ? f->team->active : 0; }

static int grant(unsigned want) {
    Fiber *c = g.cur;
    int n = want ? (int)want : c->nthreads;
    if (n < 1) n = 1;
    if (active_of(c) >= g.max_levels) { if (n > 1) shared->r.counters[C_NESTED_SERIAL]++; return 1; }
    if (n > 1 && g.cfg.dyn_pct && g.env.below(100) < (uint64_t)g.cfg.dyn_pct) { int k = 1 + (int)g.env.below(n); if (k < n) shared->r.counters[C_TEAM_SHORT]++; n = k; }
    int freef = 0; for (int i = 0; i < MAXF; i++) freef += g.f[i].st == F_FREE;
    if (n - 1 > freef - 2) n = freef > 2 ? freef - 1 : 1;
    return n;
}

struct LoopInit { bool on, ull, up; long a, b, i, c; int kind; };

static WS *get_ws(Team *t, int idx) {
    if (idx >= t->nws) {
        int nn = idx + 16;
        t->ws = (WS *)__libc_realloc(t->ws, nn * sizeof(WS));
        memset(t->ws + t->nws, 0, (nn - t->nws) * sizeof(WS));
        t->nws = nn;
    }
    return &t->ws[idx];
}

static void run_region(void (*fn)(void *), void *data, unsigned want, const LoopInit *li) {
    if (!g.running) { fn(data); return; }
    Fiber *c = g.cur;
    int n = grant(want);
    Team t; memset(&t, 0, sizeof t);
    t.parent = c->team; t.parent_tid = c->tid; t.n = n; t.level = level_of(c) + 1; t.active = active_of(c) + (n > 1);
    t.master = c; t.remaining = n - 1;
    if (li && li->on) {
        WS *w = get_ws(&t, 0);
        w->init = true; w->next = li->a; w->end = li->b; w->incr = li->i; w->chunk = li->c; w->kind = li->kind;
    }
    Team *ot = c->team; int otid = c->tid, owsc = c->wsc; long ocst = c->cstat;
    shared->r.counters[C_TEAMS]++;
    if ((uint64_t)n > shared->r.counters[C_MAXTEAM]) shared->r.counters[C_MAXTEAM] = n;
    mix(0x7EA3 + n);
    c->team = &t; c->tid = 0; c->wsc = 0; c->cstat = 0;
    for (int i = 1; i < n; i++) {
        Fiber *f = new_fiber();
        f->fn = fn; f->data = data; f->team = &t; f->tid = i; f->nthreads = c->nthreads;
        memcpy(f->note, c->note, sizeof f->note);
    }
    sync_point(6);
    fn(data);
    while (t.remaining > 0) { sync_point(7); if (t.remaining > 0) block(&t, "the end of a parallel region"); }
    c->team = ot; c->tid = otid; c->wsc = owsc; c->cstat = ocst;
    if (t.ws) __libc_free(t.ws);
    sync_point(7);
}

// The team of a thread outside any region: a work-sharing construct encountered there is executed by one thread.
static Team orphan_team;
static Team *cur_team() {
    Fiber *c = g.cur;
    if (c->team) return c->team;
    memset(&orphan_team, 0, sizeof orphan_team); orphan_team.n = 1; orphan_team.master = c;
    return &orphan_team;
}

static void team_barrier() {
    Team *t = g.cur->team;
    if (!t || t->n == 1) return;
    sync_point(4);
    unsigned gen = t->bar_gen;
    if (++t->bar_count == t->n) { t->bar_count = 0; t->bar_gen++; wake_all(&t->bar_gen); sync_point(4); }
    else while (t->bar_gen == gen) block(&t->bar_gen, "a barrier");
}

static WS single_ws[4];
static WS *ws_enter(bool &first) {
    Fiber *c = g.cur;
    if (!c->team) { c->wsc++; WS *w = &single_ws[0]; memset(w, 0, sizeof *w); first = true; w->init = true; return w; }
    WS *w = get_ws(c->team, c->wsc++);
    first = !w->init; w->init = true;
    return w;
}
static WS *ws_cur() {
    Fiber *c = g.cur;
    if (!c->team) return &single_ws[0];
    return get_ws(c->team, c->wsc > 0 ? c->wsc - 1 : 0);
}

static bool ws_next(WS *w, long *s, long *e) {
    sync_point(8);
    Fiber *c = g.cur; int n = c->team ? c->team->n : 1;
    w = ws_cur();
    if (w->kind == 0 && w->chunk == 0) {  // static, one block per thread
        long total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
        if (total < 0) total = 0;
        if (c->cstat) return false;
        long q = total / n, r = total % n, b = c->tid * q + (c->tid < r ? c->tid : r), k = q + (c->tid < r);
        c->cstat = 1;
        if (!k) return false;
        *s = w->next + b * w->incr; *e = w->next + (b + k) * w->incr;
        return true;
    }
    if (w->kind == 0) {
        long blk = (c->cstat++ * n + c->tid) * w->chunk;
        long st = w->next + blk * w->incr;
        if (w->incr > 0 ? st >= w->end : st <= w->end) return false;
        long en = st + w->chunk * w->incr;
        if (w->incr > 0 ? en > w->end : en < w->end) en = w->end;
        *s = st; *e = en; return true;
    }
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long ch = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2) { long left = (w->end - w->next) / w->incr; long q = (left + n - 1) / n; if (q > ch) ch = q; }
    long st = w->next, en = st + ch * w->incr;
    if (w->incr > 0 ? en > w->end : en < w->end) en = w->end;
    w->next = en;
    *s = st; *e = en;
    return true;
}
static bool loop_start(int kind, long a, long b, long i, long ch, long *s, long *e) {
    bool first; WS *w = ws_enter(first);
    g.cur->cstat = 0;
    if (first) { w->next = a; w->end = b; w->incr = i; w->chunk = ch; w->kind = kind; }
    return ws_next(w, s, e);
}

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { run_region(fn, d, n, NULL); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned) { run_region(fn, d, n, NULL); return n; }

#define PLOOP(name, k) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { \
    LoopInit li = {true, false, true, a, b, i, c, k}; \
    struct W { static void tr(void *) {} }; run_region(fn, d, n, &li); }
#define PLOOPR(name, k) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) { \
    LoopInit li = {true, false, true, a, b, i, 0, k}; run_region(fn, d, n, &li); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
PLOOPR(runtime, 1) PLOOPR(nonmonotonic_runtime, 1) PLOOPR(maybe_nonmonotonic_runtime, 1)

#define LOOP(name, k) \
bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(k, a, b, i, c, s, e); } \
bool GOMP_loop_##name##_next(long *s, long *e) { return ws_next(ws_cur(), s, e); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long *s, unsigned long long *e) \
{ (void)up; return loop_start(k, (long)a, (long)b, (long)i, (long)c, (long *)s, (long *)e); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *s, unsigned long long *e) { return ws_next(ws_cur(), (long *)s, (long *)e); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return loop_start(1, a, b, i, 1, s, e); } \
bool GOMP_loop_##name##_next(long *s, long *e) { return ws_next(ws_cur(), s, e); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long *s, unsigned long long *e) \
{ (void)up; return loop_start(1, (long)a, (long)b, (long)i, 1, (long *)s, (long *)e); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *s, unsigned long long *e) { return ws_next(ws_cur(), (long *)s, (long *)e); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { team_barrier(); }
void GOMP_loop_end_nowait(void) {}

void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) {
    LoopInit li = {true, false, true, 1, (long)count + 1, 1, 1, 1};
    run_region(fn, d, n, &li);
}
unsigned GOMP_sections_next(void) { long s, e; return ws_next(ws_cur(), &s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_start(unsigned count) { long s, e; return loop_start(1, 1, (long)count + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end(void) { team_barrier(); }
void GOMP_sections_end_nowait(void) {}

void GOMP_critical_start(void) { if (g.running) lock_word(&critical_word, "critical section"); }
void GOMP_critical_end(void) { if (g.running) unlock_word(&critical_word); }
void GOMP_critical_name_start(void **p) { if (g.running) lock_word((volatile int *)p, "critical section"); }
void GOMP_critical_name_end(void **p) { if (g.running) unlock_word((volatile int *)p); }
void GOMP_atomic_start(void) { if (g.running) lock_word(&atomic_word, "atomic"); }
void GOMP_atomic_end(void) { if (g.running) unlock_word(&atomic_word); }
void GOMP_barrier(void) { if (g.running) team_barrier(); }
bool GOMP_single_start(void) { if (!g.running) return true; sync_point(8); bool first; ws_enter(first); return first; }
void *GOMP_single_copy_start(void) {
    sync_point(8); bool first; ws_enter(first);
    if (first) return NULL;
    team_barrier(); return g.cur->team ? g.cur->team->copyptr : NULL;
}
void GOMP_single_copy_end(void *p) { if (g.cur->team) { g.cur->team->copyptr = p; team_barrier(); } }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    sync_point(8);
    if (cpy) {
        char *buf = (char *)__libc_malloc(size + align), *a = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
        cpy(a, data); fn(a); __libc_free(buf);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { sync_point(5); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num(void) { return g.running ? g.cur->tid : 0; }
int omp_get_num_threads(void) { return g.running && g.cur->team ? g.cur->team->n : 1; }
int omp_get_max_threads(void) { return g.running ? g.cur->nthreads : 4; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return g.running && active_of(g.cur) > 0; }
int omp_get_level(void) { return g.running ? level_of(g.cur) : 0; }
int omp_get_active_level(void) { return g.running ? active_of(g.cur) : 0; }
int omp_get_ancestor_thread_num(int l) {
    if (!g.running) return l == 0 ? 0 : -1;
    int lev = level_of(g.cur);
    if (l < 0 || l > lev) return -1;
    if (l == 0) return 0;
    Team *t = g.cur->team; int tid = g.cur->tid;
    while (t && t->level > l) { tid = t->parent_tid; t = t->parent; }
    return tid;
}
int omp_get_team_size(int l) {
    if (!g.running) return l == 0 ? 1 : -1;
    int lev = level_of(g.cur);
    if (l < 0 || l > lev) return -1;
    if (l == 0) return 1;
    Team *t = g.cur->team;
    while (t && t->level > l) t = t->parent;
    return t ? t->n : 1;
}
void omp_set_num_threads(int n) { if (g.running && n > 0) g.cur->nthreads = n; }
void omp_set_nested(int v) { if (g.running) { if (v) { if (g.max_levels < 2) g.max_levels = 8; } else g.max_levels = 1; } }
int omp_get_nested(void) { return g.running && g.max_levels > 1; }
void omp_set_dynamic(int v) { g.dyn = v; }
int omp_get_dynamic(void) { return g.dyn; }
void omp_set_max_active_levels(int n) { if (g.running && n >= 0) g.max_levels = n; }
int omp_get_max_active_levels(void) { return g.running ? g.max_levels : 1; }
int omp_get_supported_active_levels(void) { return 256; }
int omp_get_thread_limit(void) { return MAXF; }
int omp_in_final(void) { return 0; }
double omp_get_wtime(void) { return g.steps * 1e-8; }
double omp_get_wtick(void) { return 1e-8; }
void omp_init_lock(slock *l) {
    // a lock in static storage is never recycled memory: what it says about itself is true
    if (g.running) {
        sync_point(3);
        if (l->w == 1 && (char *)l >= &__data_start && (char *)l < &_end) violation("lock-reinitialised", "a lock is initialised again while a thread holds it: the threads it should keep apart no longer are");
    }
    l->w = 0;
}
void omp_init_lock_with_hint(slock *l, int) { omp_init_lock(l); }
void omp_destroy_lock(slock *) {}
void omp_set_lock(slock *l) { if (g.running) lock_word(&l->w, "a lock"); else l->w = 1; }
void omp_unset_lock(slock *l) { if (g.running) unlock_word(&l->w); else l->w = 0; }
int omp_test_lock(slock *l) { if (g.running) sync_point(1); if (l->w) return 0; l->w = 1; return 1; }
void omp_init_nest_lock(snest *l) { l->count = 0; l->owner = 0; }
void omp_init_nest_lock_with_hint(snest *l, int) { omp_init_nest_lock(l); }
void omp_destroy_nest_lock(snest *) {}
void omp_set_nest_lock(snest *l) {
    int me = g.running ? g.cur->id + 1 : 1;
    if (l->owner == me) { l->count++; return; }
    if (g.running) lock_word(&l->count, "a nestable lock"); else l->count = 1;
    l->owner = me;
}
void omp_unset_nest_lock(snest *l) {
    if (l->count > 1) { l->count--; return; }
    l->owner = 0;
    if (g.running) unlock_word(&l->count); else l->count = 0;
}
int omp_test_nest_lock(snest *l) {
    int me = g.running ? g.cur->id + 1 : 1;
    if (g.running) sync_point(1);
    if (l->owner == me) return ++l->count;
    if (l->count) return 0;
    l->count = 1; l->owner = me; return 1;
}

// ================================================================================================ instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {
    Fiber *f = g.cur;
    if (!f) return;
    if (f->ncalls < CALLS) calls[f->id][f->ncalls] = pc;
    f->ncalls++;
}
void __tsan_func_exit(void) { if (g.cur && g.cur->ncalls) g.cur->ncalls--; }
#define RW(n) \
void __tsan_read##n(void *p) { acc(p, n, 0, __builtin_return_address(0)); } \
void __tsan_write##n(void *p) { acc(p, n, 1, __builtin_return_address(0)); } \
void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, __builtin_return_address(0)); } \
void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, __builtin_return_address(0)); } \
void __tsan_volatile_read##n(void *p) { acc(p, n, 0, __builtin_return_address(0)); } \
void __tsan_volatile_write##n(void *p) { acc(p, n, 1, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) acc(p, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void *p, size_t n) { if (n) acc(p, n, 1, __builtin_return_address(0)); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, 1, __builtin_return_address(0)); }
void __tsan_vptr_read(void **p) { acc(p, 8, 0, __builtin_return_address(0)); }
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *a, int) { acc((void *)a, sizeof(T), 0, __builtin_return_address(0)); return *a; } \
void __tsan_atomic##n##_store(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); *a = v; } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((void *)a, sizeof(T), 1, __builtin_return_address(0)); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
