// Deterministic simulation runtime: interface used by the workloads.
//
// The runtime replaces libgomp, malloc, pthread mutexes/condition variables/threads and the C++ static-initialisation
// guards. "Threads" are fibers; one seeded PRNG decides every switch.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {  // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }  // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

enum Strategy { ST_NONE = 0, ST_RANDOM = 1, ST_SYNC = 2, ST_PCT = 3, ST_MIXED = 4, ST_EXPLICIT = 9 };

// How the run is scheduled. Everything here is part of the plan (and of the replay file).
struct SchedCfg {
    uint64_t seed;
    int strat;
    int rate;         // mean number of memory accesses between preemptions (ST_RANDOM/ST_MIXED)
    int sync_pct;     // percentage chance of a switch at a synchronisation point (ST_SYNC/ST_MIXED)
    int pct_depth;    // number of priority change points (ST_PCT)
    int pct_len;      // log2 of the window the change points are drawn from
    int stall_pct;    // percentage of preemptions that stall the preempted thread
    int nthreads;     // OMP_NUM_THREADS
    int max_levels;   // OMP_MAX_ACTIVE_LEVELS
    int dyn_pct;      // percentage of teams that are granted fewer threads than they asked for
    int reuse;        // team workers keep their thread-local storage between regions
    int junk;         // fill pattern seed for fresh memory
    int spurious_pct; // spurious condition-variable wake-ups
    int recycle;      // freed memory is handed out again at once (as real allocators do) instead of being kept aside
};

enum Counter {
    C_STEPS, C_PREEMPT, C_FORCED, C_SYNC, C_LOCKWAIT, C_TEAMS, C_TEAM_SHORT, C_NESTED_SERIAL, C_STALL,
    C_ALLOCS, C_ALLOC_FAIL, C_EXC, C_NANFAULT, C_OPS, C_MAXTEAM, C_CRITWAIT, C_SPURIOUS, C_DUPREQ,
    C_LIMITFAULT, C_CLEAR, C_F1, C_F2, C_F3, C_F4, C_F5, C_F6, C_F7, C_F8, C_N
};
const int NPROBE = 64;

enum Outcome { O_RUNNING = 0, O_OK, O_VIOLATION, O_BUDGET, O_ERROR };

struct Switch { uint64_t step; int32_t to; int32_t forced; };
const int MAXSW = 1 << 16;
const int MAXPEN = 256;

// Shared with the parent process (written by the child that performs the run).
struct Result {
    int outcome;
    char cls[64];          // violation class: stable key of what failed
    char msg[2048];
    uint64_t hash;         // hash of the whole event log
    uint64_t sig;          // interleaving signature: order of synchronisation events across threads
    uint64_t counters[C_N];
    uint64_t probes[NPROBE];
    int nsw, sw_over;
    int narena_over;
    char dump[4096];
};
struct Shared { Result r; Switch sw[MAXSW]; };

extern Shared *shared;

// ---- called by the driver (host side)
void rt_init();
struct Explicit { const Switch *sw; int n; };
void rt_run(const SchedCfg &cfg, const Explicit *ex, void (*body)(void *), void *arg, Shared *out);  // never returns

// ---- called by workloads inside a run
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(int i);
void count(int c, uint64_t n = 1);
void event(uint64_t a, uint64_t b = 0);   // adds to the event log hash
void event_d(uint64_t a, double v);
void progress();                          // an operation completed
uint64_t now();                           // global event sequence number
int self();                               // current simulated thread
void point();                             // explicit scheduling point
bool in_run();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// allocation faults: from now on k allocations succeed and the n following ones fail (except under NoPreempt)
void arm_alloc_fault(long k, long n, int window = 0);
long disarm_alloc_fault();                // returns how many failed
bool pause_alloc_fault(bool paused);      // while paused, no allocation fails; returns what it was
bool freed(const void *p);                // true if p lies in freed or never-allocated simulated memory
void set_hang_budget(uint64_t steps);
void set_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // what the current thread is doing
// runs f(arg, i) on n concurrent simulated OS threads which are not part of any OpenMP team
void run_threads(int n, void (*f)(void *, int), void *arg);
const char *sharedmsg();
}
