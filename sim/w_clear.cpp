// C07: clearing all caches reaches every live cache and only live ones.
#include "plan.h"
#include "caching.h"
#include <memory>
#include <string>
#include <vector>
#include <omp.h>
using namespace SLAT;
using namespace sim;

namespace {
enum { NKEY = 3 };
struct Obj {
    int id = 0, kind = 0;
    std::unique_ptr<Caching::CachedFunction<double, double>> f;
    std::unique_ptr<Caching::CachedFunction<std::vector<double>, double>> g;
    std::unique_ptr<Caching::CachedValue<double>> v;
    std::unique_ptr<Caching::CachedFunction<double, int>> h;
    // the harness's view
    bool made = false, destroy_started = false, gone = false;
    int users = 0;
    uint64_t made_at = 0, destroy_at = UINT64_MAX;
    long evals[NKEY] = {0};
    bool kept[NKEY] = {false};   // stored, as far as the single-threaded parts know
    long floor = 0;              // requests from now on must be calculated from inputs at least this new
};
long version = 1;                // of the inputs of everything
struct World { const Plan *p; std::vector<std::unique_ptr<Obj>> objs; bool concurrent = false; };
World *W;
enum { PR_CLEAR = 0, PR_CLEAR_NONE, PR_CLEAR_CONC, PR_DESTROYED, PR_REUSED, PR_FIRST_CONC, PR_DURING_CALC, PR_CREATE_DURING, PR_TEMP, PR_FRESH };
const char *const names[] = {"all_cleared", "all_cleared_before_anything_existed", "all_cleared_while_other_threads_work", "object_destroyed", "object_created_after_another_was_destroyed", "first_objects_created_concurrently",
    "cleared_while_calculation_running", "object_created_or_destroyed_during_clearing", "calculation_creating_temporary_object", "calculated_afresh_after_clearing", NULL};
long clearing = 0, calculating = 0, live = 0, ever = 0;

double calc(Obj *o, int key) {
    { NoPreempt n; o->evals[key]++; calculating++; if (clearing) probe(PR_DURING_CALC); }
    point();
    long v = version;
    point();
    if (W->p->get("temps") && (o->id + key) % 3 == 0) {  // calculations may build objects which memoise
        probe(PR_TEMP);
        Caching::CachedFunction<double, double> t([](double x) { point(); return x + 1; }, "temp");
        if (t(key) != key + 1) violation("wrong-value", "a temporary memoised function returned a wrong value");
    }
    { NoPreempt n; calculating--; }
    return v * 100.0 + key;
}
void make(Obj *o) {
    std::string nm = "c07-" + std::to_string(o->id);
    switch (o->kind % 4) {
    case 0: o->f.reset(new Caching::CachedFunction<double, double>([o](double x) { return calc(o, (int)x); }, nm)); break;
    case 1: o->g.reset(new Caching::CachedFunction<std::vector<double>, double>([o](double x) { return std::vector<double>(3, calc(o, (int)x)); }, nm)); break;
    case 2: o->v.reset(new Caching::CachedValue<double>([o]() { return calc(o, 0); }, nm)); break;
    default: o->h.reset(new Caching::CachedFunction<double, int>([o](int x) { return calc(o, x); })); break;
    }
}
void unmake(Obj *o) { o->f.reset(); o->g.reset(); o->v.reset(); o->h.reset(); }
long use(Obj *o, int key) {
    double r;
    switch (o->kind % 4) {
    case 0: r = (*o->f)(key); break;
    case 1: { std::vector<double> x = (*o->g)(key); if (x.size() != 3) violation("wrong-value", "object %d argument %d returned %zu elements", o->id, key, x.size()); r = x[0]; break; }
    case 2: r = (*o->v)(); break;
    default: r = (*o->h)(key);
    }
    long ver = (long)(r / 100);
    if (ver < 1 || ver > version || ver * 100.0 + key != r) violation("wrong-value", "object %d argument %d returned %.17g", o->id, key, r);
    return ver;
}
void do_clear() {
    World &w = *W;
    std::vector<Obj *> there; long v;
    { NoPreempt n; v = ++version; for (auto &o : w.objs) if (o->made && !o->destroy_started) there.push_back(o.get()); clearing++; if (calculating) probe(PR_DURING_CALC); }
    if (!ever) probe(PR_CLEAR_NONE);
    probe(PR_CLEAR); if (w.concurrent) probe(PR_CLEAR_CONC);
    count(C_CLEAR);
    set_note("clear all caches");
    Caching::Clear_Caches();
    set_note("idle");
    NoPreempt n;
    clearing--;
    for (Obj *o : there) {
        if (o->floor < v) o->floor = v;
        if (!w.concurrent) for (bool &k : o->kept) k = false;
    }
}
void one(const Op &op) {
    World &w = *W;
    Obj *o = op.kind == "clear" ? NULL : w.objs[op.a[0] % w.objs.size()].get();
    if (op.kind == "clear") do_clear();
    else if (op.kind == "make") {
        { NoPreempt n; if (o->made_at) return; o->made_at = 1; o->kind = (int)op.a[1]; if (clearing) probe(PR_CREATE_DURING); if (!ever && w.concurrent) probe(PR_FIRST_CONC); if (ever > live) probe(PR_REUSED); ever++; live++; }
        set_note("create object %d", o->id);
        make(o);
        NoPreempt n; o->made = true;
    } else if (op.kind == "use") {
        int key; long floor;
        { NoPreempt n; if (!o->made || o->destroy_started) return; o->users++; floor = o->floor; key = o->kind % 4 == 2 ? 0 : (int)(op.a[1] % NKEY); }
        set_note("request object %d argument %d", o->id, key);
        long before = o->evals[key];
        long ver = use(o, key);
        if (ver < floor) violation("stale", "object %d argument %d: a request issued after all caches were cleared was answered from version %ld of the inputs, older than %ld", o->id, key, ver, floor);
        event(0x77 + o->id * 4 + key, (uint64_t)ver);
        if (!w.concurrent) {
            long d = o->evals[key] - before;
            if (!o->kept[key] && d < 1) violation("not-afresh", "object %d argument %d was not calculated in its first request since all caches were cleared", o->id, key);
            if (!o->kept[key]) probe(PR_FRESH);
            o->kept[key] = true;
        }
        NoPreempt n; o->users--;
    } else if (op.kind == "kill") {
        { NoPreempt n; if (!o->made || o->destroy_started || o->users) return; o->destroy_started = true; if (clearing) probe(PR_CREATE_DURING); live--; }
        set_note("destroy object %d", o->id);
        probe(PR_DESTROYED);
        unmake(o);
        o->gone = true;
    }
    set_note("idle");
    count(C_OPS);
    progress();
}
struct CArg { size_t from, to; int n; };
void run_client(const CArg &a, int c) { for (size_t i = a.from; i < a.to; i++) { const Op &op = W->p->ops[i]; if (op.client % a.n == c) one(op); } }
void thread_client(void *v, int c) { run_client(*(CArg *)v, c); }

void exec(const Plan &p) {
    set_hang_budget(4 << 20);
    World w; W = &w; w.p = &p;
    for (int i = 0; i < (int)p.get("nobj", 1); i++) { w.objs.emplace_back(new Obj); w.objs.back()->id = i; }
    size_t i = 0;
    while (i < p.ops.size()) {
        size_t j = i; std::vector<char> cl(8); int ncl = 0;
        while (j < p.ops.size() && p.ops[j].kind != "barrier") { if (!cl[p.ops[j].client % 8]) { cl[p.ops[j].client % 8] = 1; ncl++; } j++; }
        if (ncl > 1) {
            CArg a = {i, j, (int)p.get("clients", 2)};
            w.concurrent = true;
            if (p.get("omp", 1)) {
#pragma omp parallel num_threads(a.n)
                for (int c = omp_get_thread_num(); c < a.n; c += omp_get_num_threads()) run_client(a, c);
            } else run_threads(a.n, thread_client, &a);
            w.concurrent = false;
            for (auto &o : w.objs) if (o->made && !o->gone) for (int k = 0; k < NKEY; k++) {  // what is stored is not known now: ask for it
                if (o->kind % 4 == 2 && k) continue;
                set_note("request object %d argument %d", o->id, k);
                long ver = use(o.get(), k);
                if (ver < o->floor) violation("stale", "object %d argument %d: after all threads had ended, a request was answered from version %ld of the inputs, older than %ld", o->id, k, ver, o->floor);
                o->kept[k] = true;
            }
        } else for (size_t k = i; k < j; k++) one(p.ops[k]);
        i = j + 1;
    }
    do_clear();
    for (auto &o : w.objs) if (o->made && !o->gone) for (int k = 0; k < NKEY; k++) { Op op; op.kind = "use"; op.a[0] = o->id; op.a[1] = k; one(op); }
    for (auto &o : w.objs) if (o->made && !o->gone) { o->gone = true; unmake(o.get()); Caching::Clear_Caches(); }
}
void gen(Rng &r, Plan &p, int tier) {
    int nc = r.range(2, 4), nobj = 0, nph = r.range(1, tier ? 8 : 5);
    p.cfg["clients"] = nc; p.cfg["omp"] = r.chance(0.6); p.cfg["temps"] = r.chance(0.25);
    if (r.chance(0.15)) p.add(0, "clear");
    if (r.chance(0.35)) {   // the program's first objects appear in several threads at once
        for (int i = 0, n = r.range(nc, 3 * nc); i < n; i++)
            if (i < nc || r.chance(0.7)) p.add(i % nc, "make", nobj++, r.below(4));
            else p.add(i % nc, "clear");
        p.add(0, "barrier");
    }
    for (int ph = 0; ph < nph; ph++) {
        bool conc = r.chance(0.65);
        for (int i = 0, n = r.range(1, conc ? 16 : 9); i < n; i++) {
            int c = conc ? (int)r.below(nc) : 0;
            double u = r.unit();
            if (u < 0.27 || !nobj) p.add(c, "make", nobj++, r.below(4));
            else if (u < 0.65) p.add(c, "use", r.chance(0.5) ? (long)r.below(nobj) : std::max(0, nobj - 1 - (int)r.below(3)), r.below(NKEY));
            else if (u < 0.8) p.add(c, "kill", r.below(nobj));
            else p.add(c, "clear");
        }
        p.add(0, "barrier");
    }
    p.cfg["nobj"] = nobj ? nobj : 1;
}
Workload w7("C07", gen, exec, names);
}
