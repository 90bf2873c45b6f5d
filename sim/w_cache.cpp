// C01, C02, C03: memoised functions and values under concurrent requests, invalidation and failing calculations.
#include <cmath>
#include "plan.h"
#include "caching.h"
#include "lognormaldist.h"
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <omp.h>
using namespace SLAT;
using namespace sim;

namespace {
enum { NOBJ = 8, NKEY = 8 };
enum Kind { K_DD = 0, K_VEC, K_LN, K_INT, K_VALUE, K_VVALUE, K_OFF, K_NEST };

// a multi-word value, so that a torn or default-constructed result is recognisable
struct Tagged { double key, ver, sum; Tagged() : key(-1), ver(-1), sum(-77) {} };

struct CalcError : std::runtime_error { int obj, key; CalcError(int o, int k) : std::runtime_error("calc"), obj(o), key(k) {} };
struct PlainError { int obj, key; };   // not a std::exception

struct World;
struct Obj {
    World *w; int id, kind;
    std::unique_ptr<Caching::CachedFunction<double, double>> dd;
    std::unique_ptr<Caching::CachedFunction<std::vector<double>, double>> vec;
    std::unique_ptr<Caching::CachedFunction<LogNormalDist, double>> ln;
    std::unique_ptr<Caching::CachedFunction<double, int>> in;
    std::unique_ptr<Caching::CachedValue<double>> val;
    std::unique_ptr<Caching::CachedValue<std::vector<double>>> vval;
    std::unique_ptr<Caching::CachedFunction<Tagged, double>> nest;
    // written under NoPreempt by the harness
    long state = 1;            // version of the inputs the calculation reads
    long cleared = 1;          // newest version whose invalidation has completed
    long evals[NKEY + 1] = {0};
    long evals_this_phase[NKEY + 1] = {0};
    long requests_this_phase[NKEY + 1] = {0};
    int fails[NKEY + 1] = {0}; // the next n evaluations of this key fail
    int in_calc[NKEY + 1] = {0};
};
struct World {
    const Plan *p;
    std::vector<std::unique_ptr<Obj>> objs;
    int mode = 1;              // which property
    int invalidations = 0;
};
World *W;

// with neighbouring numbers, and numbers which differ in sign only
const double KEYS[NKEY] = {0.0, 1.5, std::nextafter(1.5, 2.0), 1e-300, 1e300, -1.5, 0.1, std::numeric_limits<double>::infinity()};
double key_value(int k) { return k >= NKEY ? std::numeric_limits<double>::quiet_NaN() : KEYS[k]; }
int key_index(double v) { if (v != v) return NKEY; for (int i = 0; i < NKEY; i++) if (KEYS[i] == v) return i; violation("wrong-argument", "the calculation was asked for an argument nobody requested (%g)", v); }

double base_value(int obj, int key, long ver) { return 1000.0 * obj + 10.0 * key + ver * 1e5 + 3; }
long version_of(int obj, int key, double r, const char *what) {
    double v = (r - 3 - 1000.0 * obj - 10.0 * key) / 1e5;
    long n = (long)(v + 0.5);
    if (!(r == r) || n < 1 || n > 100000 || base_value(obj, key, n) != r)
        violation("wrong-value", "%s: object %d (kind %d) argument #%d returned %.17g, which the calculation never produced", what, obj, W->objs[obj]->kind, key, r);
    return n;
}

// The calculation. It reads the inputs at some point, does some work, and may fail.
double calc(Obj &o, int key) {
    if (o.in_calc[key] > 0) count(C_DUPREQ);
    { NoPreempt n; o.evals[key]++; o.evals_this_phase[key]++; o.in_calc[key]++; }
    for (int i = 0, n = (key * 7 + o.id) % 3; i < n; i++) point();
    long v = o.state;
    point();
    if (o.fails[key] > 0) {
        { NoPreempt n; o.fails[key]--; o.in_calc[key]--; }
        count(C_EXC);
        switch ((o.id + key) % 3) {
        case 0: throw std::bad_alloc();
        case 1: throw CalcError(o.id, key);
        default: throw PlainError{o.id, key};
        }
    }
    point();
    { NoPreempt n; o.in_calc[key]--; }
    return base_value(o.id, key, v);
}

long request(Obj &o, int key);

void make_obj(World &w, int id, int kind) {
    w.objs.emplace_back(new Obj);
    Obj *o = w.objs.back().get();
    o->w = &w; o->id = id; o->kind = kind;
    std::string name = "obj" + std::to_string(id);
    switch (kind) {
    case K_DD: o->dd.reset(new Caching::CachedFunction<double, double>([o](double v) {
            int k = key_index(v);
            if (k == NKEY) request(*o, 1);   // an evaluation for not-a-number may ask for other arguments
            return calc(*o, k); }, name)); break;
    case K_OFF: o->dd.reset(new Caching::CachedFunction<double, double>([o](double v) {
            int k = key_index(v);
            if (k % 2) request(*o, k - 1);
            return calc(*o, k); }, name, false)); break;
    case K_VEC: o->vec.reset(new Caching::CachedFunction<std::vector<double>, double>([o](double v) { return std::vector<double>(5, calc(*o, key_index(v))); }, name)); break;
    case K_LN: o->ln.reset(new Caching::CachedFunction<LogNormalDist, double>([o](double v) {
            double x = calc(*o, key_index(v)); return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(x, x + 1); })); break;
    case K_INT: o->in.reset(new Caching::CachedFunction<double, int>([o](int v) { return calc(*o, v - 100); }, name)); break;
    case K_VALUE: o->val.reset(new Caching::CachedValue<double>([o]() { return calc(*o, 0); }, name)); break;
    case K_VVALUE: o->vval.reset(new Caching::CachedValue<std::vector<double>>([o]() { return std::vector<double>(7, calc(*o, 0)); })); break;
    case K_NEST: o->nest.reset(new Caching::CachedFunction<Tagged, double>([o](double v) {
            // depends on another cached function and, for larger keys, on this one (as model quantities do)
            int k = key_index(v);
            Tagged t;
            if (o->id > 0 && k < NKEY) { request(*o->w->objs[o->id - 1], k % 3); }
            if (k > 0 && k < NKEY && k % 2) { request(*o, k - 1); }
            t.ver = calc(*o, k); t.key = k; t.sum = t.ver + t.key;
            return t; }, name)); break;
    }
}

// one request through the public interface; returns the version of the inputs the answer was calculated from
long request(Obj &o, int key) {
    double v = key_value(key);
    long ver = 0;
    switch (o.kind) {
    case K_DD: case K_OFF: ver = version_of(o.id, key, (*o.dd)(v), "cached function"); break;
    case K_VEC: { std::vector<double> r = (*o.vec)(v);
        if (r.size() != 5) violation("wrong-value", "cached vector function: object %d argument #%d returned %zu elements instead of 5", o.id, key, r.size());
        for (double x : r) if (x != r[0]) violation("wrong-value", "cached vector function: torn result");
        ver = version_of(o.id, key, r[0], "cached vector function"); break; }
    case K_LN: { LogNormalDist d = (*o.ln)(v);
        if (d.get_sigma_lnX() != d.get_mu_lnX() + 1) violation("wrong-value", "cached distribution: object %d argument #%d returned (%g, %g), which was never calculated", o.id, key, d.get_mu_lnX(), d.get_sigma_lnX());
        ver = version_of(o.id, key, d.get_mu_lnX(), "cached distribution"); break; }
    case K_INT: ver = version_of(o.id, key, (*o.in)(key + 100), "cached integer function"); break;
    case K_VALUE: ver = version_of(o.id, 0, (*o.val)(), "cached value"); break;
    case K_VVALUE: { std::vector<double> r = (*o.vval)();
        if (r.size() != 7) violation("wrong-value", "cached vector value: object %d returned %zu elements instead of 7", o.id, r.size());
        for (double x : r) if (x != r[0]) violation("wrong-value", "cached vector value: torn result");
        ver = version_of(o.id, 0, r[0], "cached vector value"); break; }
    case K_NEST: { Tagged t = (*o.nest)(v);
        if (t.key != key || t.sum != t.ver + t.key) violation("wrong-value", "cached structure: object %d argument #%d returned (%g, %g, %g), which was never calculated", o.id, key, t.key, t.ver, t.sum);
        ver = version_of(o.id, key, t.ver, "cached structure"); break; }
    }
    return ver;
}
int fold_key(const Obj &o, int key) {
    if (o.kind == K_VALUE || o.kind == K_VVALUE) return 0;
    if (o.kind == K_INT && key >= NKEY) return 1;
    return key;
}

void do_op(World &w, const Op &op) {
    if (op.kind == "req") {
        Obj &o = *w.objs[op.a[0] % w.objs.size()];
        int key = fold_key(o, (int)(op.a[1] % (NKEY + 1)));
        set_note("request object %d argument #%d", o.id, key);
        long floor; { NoPreempt n; floor = o.cleared; o.requests_this_phase[key]++; }
        if (o.in_calc[key]) probe(0);
        try {
            long ver = request(o, key);
            if (ver < floor)
                violation("stale", "object %d (kind %d) argument #%d: a request issued after the inputs had reached version %ld and been invalidated was answered from version %ld", o.id, o.kind, key, floor, ver);
            if (ver > o.state) violation("wrong-value", "answer from the future");
            event(1000 + o.id * 16 + key, ver);
        } catch (CalcError &e) {
            if (w.mode != 3) throw;
            probe(3); event(5000 + o.id);
            if ((e.obj + e.key) % 3 != 1) violation("wrong-error", "unexpected error object");
        } catch (PlainError &e) {
            if (w.mode != 3) throw;
            probe(3); event(5500 + o.id);
            if ((e.obj + e.key) % 3 != 2) violation("wrong-error", "unexpected error object");
        } catch (std::bad_alloc &) {
            if (w.mode != 3) throw;
            probe(4); event(6000 + o.id);
        }
        set_note("idle");
        progress();
    } else if (op.kind == "inval") {
        Obj &o = *w.objs[op.a[0] % w.objs.size()];
        set_note("invalidate object %d", o.id);
        long mine; { NoPreempt n; mine = ++o.state; for (int k = 0; k <= NKEY; k++) if (o.in_calc[k]) { probe(1); break; } }
        point();
        count(C_CLEAR);
        if (o.dd) o.dd->ClearCache();
        if (o.vec) o.vec->ClearCache();
        if (o.ln) o.ln->ClearCache();
        if (o.in) o.in->ClearCache();
        if (o.val) o.val->ClearCache();
        if (o.vval) o.vval->ClearCache();
        if (o.nest) o.nest->ClearCache();
        { NoPreempt n; if (mine > o.cleared) o.cleared = mine; }
        event(7000 + o.id, mine);
        set_note("idle");
        progress();
    } else if (op.kind == "clearall") {
        set_note("clear all caches");
        std::vector<long> vs(w.objs.size());
        { NoPreempt n; for (size_t i = 0; i < vs.size(); i++) vs[i] = ++w.objs[i]->state; }
        point();
        count(C_CLEAR);
        Caching::Clear_Caches();
        { NoPreempt n; for (size_t i = 0; i < vs.size(); i++) if (vs[i] > w.objs[i]->cleared) w.objs[i]->cleared = vs[i]; }
        probe(2);
        set_note("idle");
        progress();
    } else if (op.kind == "fail") {
        Obj &o = *w.objs[op.a[0] % w.objs.size()];
        NoPreempt n; o.fails[fold_key(o, (int)(op.a[1] % (NKEY + 1)))] += 1 + op.a[2] % 2;
    }
}

void client(World &w, int c, int phase, int nclients) {
    for (const Op &op : w.p->ops) if (op.client % nclients == c && op.a[5] == phase && op.kind != "main") do_op(w, op);
}
struct CArg { World *w; int phase, n; };
void client_thread(void *a, int i) { CArg *c = (CArg *)a; client(*c->w, i, c->phase, c->n); }

void exec(const Plan &p) {
    set_hang_budget(20 << 20);
    World w; W = &w; w.p = &p; w.mode = (int)p.get("mode", 1);
    int nobj = (int)p.get("nobj", 2);
    for (int i = 0; i < nobj; i++) make_obj(w, i, (int)p.get(("kind" + std::to_string(i)).c_str(), 0));
    int nc = (int)p.get("clients", 3), phases = (int)p.get("phases", 1);
    for (int ph = 0; ph < phases; ph++) {
        for (auto &o : w.objs) for (int k = 0; k <= NKEY; k++) o->evals_this_phase[k] = o->requests_this_phase[k] = 0;
        if (p.get("omp", 1)) {
#pragma omp parallel num_threads(nc)
            {
                // a team may be granted fewer threads: the clients are then served in turn
                for (int c = omp_get_thread_num(); c < nc; c += omp_get_num_threads()) client(w, c, ph, nc);
            }
        } else {
            CArg a = {&w, ph, nc};
            run_threads(nc, client_thread, &a);
        }
        for (auto &o : w.objs) {
            for (int k = 0; k <= NKEY; k++) {
                if (w.mode == 1) {
                    bool fresh = o->kind == K_OFF || (k == NKEY && o->kind != K_VALUE && o->kind != K_VVALUE);
                    long want_max = 1;
                    if (fresh) { if (o->evals_this_phase[k] < o->requests_this_phase[k]) violation("cached-anyway", "object %d argument #%d: %ld requests which must not be cached were answered by %ld calculations", o->id, k, o->requests_this_phase[k], o->evals_this_phase[k]); }
                    else if (o->evals_this_phase[k] > want_max)
                        violation("repeated", "object %d (kind %d) argument #%d was calculated %ld times although nothing invalidated it", o->id, o->kind, k, o->evals_this_phase[k]);
                }
            }
        }
        // quiescent: every answer must now be the current one, and (C03) calculations that failed are repeated
        if (w.mode != 2) for (auto &o : w.objs) for (int k = 0; k <= NKEY; k++) o->fails[k] = 0;
        for (auto &o : w.objs) {
            int nk = o->kind == K_VALUE || o->kind == K_VVALUE ? 1 : o->kind == K_INT ? NKEY : NKEY + 1;
            for (int k = 0; k < nk; k++) {
                if (w.mode == 1 && o->requests_this_phase[k] == 0) continue;
                long before = o->evals[k];
                set_note("request object %d argument #%d after the clients have finished", o->id, k);
                long ver = request(*o, k);
                if (ver < o->cleared) violation("stale", "object %d (kind %d) argument #%d: after all clients have finished, version %ld is returned although version %ld was invalidated", o->id, o->kind, k, ver, o->cleared);
                if (w.mode == 1 && o->kind != K_OFF && k != NKEY && ph == 0 && o->evals[k] != before)
                    violation("repeated", "object %d (kind %d) argument #%d: a calculated result was not kept", o->id, o->kind, k);
            }
        }
        // between phases: quiescent invalidation
        if (w.mode == 1 && ph + 1 < phases) {
            if (p.get("all")) { for (auto &o : w.objs) { o->state++; } Caching::Clear_Caches(); for (auto &o : w.objs) o->cleared = o->state; }
            else { Op op; op.kind = "inval"; for (size_t i = 0; i < w.objs.size(); i++) { op.a[0] = (long)i; do_op(w, op); } }
        }
    }
}

void gen_common(Rng &r, Plan &p, int mode, int tier) {
    p.cfg["mode"] = mode;
    int nobj = r.range(1, 3);
    p.cfg["nobj"] = nobj;
    for (int i = 0; i < nobj; i++) {
        int k = (int)r.below(8);
        if (mode != 1 && k == K_OFF && r.chance(0.6)) k = K_VALUE;
        p.cfg["kind" + std::to_string(i)] = k;
    }
    int nc = r.range(2, 5);
    p.cfg["clients"] = nc;
    int phases = mode == 1 ? r.range(1, 3) : r.range(1, 2);
    p.cfg["phases"] = phases;
    p.cfg["omp"] = r.chance(0.7);
    p.cfg["all"] = r.chance(0.5);
    int hot = r.range(1, 3);
    int n = r.range(3, tier ? 40 : 24);
    for (int ph = 0; ph < phases; ph++)
        for (int i = 0; i < n; i++) {
            int c = (int)r.below(nc);
            int key = r.chance(0.8) ? (int)r.below(hot) : (int)r.below(NKEY + 1);
            if (r.chance(0.04)) key = NKEY;
            double u = r.unit();
            if (mode == 2 && u < 0.25) p.add(c, u < 0.17 ? "inval" : "clearall", r.below(nobj), 0, 0, 0, 0, ph);
            else if (mode == 3 && u < 0.2) p.add(c, "fail", r.below(nobj), key, r.below(2), 0, 0, ph);
            else p.add(c, "req", r.below(nobj), key, 0, 0, 0, ph);
        }
}
void gen1(Rng &r, Plan &p, int t) { gen_common(r, p, 1, t); }
void gen2(Rng &r, Plan &p, int t) { gen_common(r, p, 2, t); }
void gen3(Rng &r, Plan &p, int t) { gen_common(r, p, 3, t); }
const char *const names[] = {"request_while_same_calculation_running", "invalidation_while_calculation_running", "clear_all_called", "request_ended_in_calculation_error", "request_ended_in_bad_alloc", NULL};
Workload w1("C01", gen1, exec, names), w2("C02", gen2, exec, names), w3("C03", gen3, exec, names);
}
