// C06: clients of replaceable objects are told of each change exactly once.
#include "plan.h"
#include "replaceable.h"
#include <memory>
#include <string>
#include <vector>
#include <omp.h>
using namespace sim;

namespace {
enum { MAXO = 10 };
struct Target : public SLAT::Replaceable<Target> { int id; explicit Target(int i) : id(i) {} };
struct Other : public SLAT::Replaceable<Other> { int id; explicit Other(int i) : id(i) {} };  // a second type

struct Span { uint64_t from, to; };        // of an operation, in the order of events
struct Reg {                               // one registration
    int obj = -1, id = 0, chain = -1; bool other = false;
    bool started = false, done = false, unreg_started = false, gone = false;
    uint64_t reg_from = 0, reg_to = 0, un_from = UINT64_MAX, un_to = UINT64_MAX;
    long changed = 0;
    long expect = 0;                       // exact count, maintained by the single-threaded parts
    std::vector<int> replaced;             // replacements it was told of
};
struct World {
    const Plan *p; int nobj = 0, nl2 = 0;
    std::vector<std::shared_ptr<Target>> t;   // 0..nobj-1 replaceable among each other; the rest: second layer
    std::vector<std::shared_ptr<Other>> o;
    std::vector<Reg> regs;
    std::vector<Span> notes[2][MAXO * 2];      // notifications of this phase, by type and object
    bool concurrent = false;
};
World *W;
enum { PR_NOTIFY = 0, PR_REPLACE, PR_SELF, PR_MERGE, PR_CHAIN_REPLACE, PR_UNKNOWN, PR_STALE, PR_CONC, PR_OVERLAP, PR_CASCADE, PR_UNREG, PR_BACK };
const char *const names[] = {"notification", "replacement", "object_replaced_by_itself", "replacement_by_object_with_clients", "replacement_of_a_replacement", "removal_of_unknown_identifier", "removal_from_object_which_was_replaced",
    "concurrent_phase", "registration_overlapping_notification", "client_which_notifies_its_own_clients", "client_removed", "replaced_object_used_again", NULL};

void notify(int type, int obj) {
    uint64_t a = now();
    if (type) W->o[obj]->notify_change(); else W->t[obj]->notify_change();
    uint64_t b = now();
    NoPreempt n;
    W->notes[type][obj].push_back({a, b});
}
void on_changed(int i) {
    Reg &r = W->regs[i];
    { NoPreempt n; if (r.gone) violation("told-after-removal", "registration %d was told of a change although it had removed itself", i); r.changed++; }
    event(0x600 + i, (uint64_t)r.changed);
    point();
    if (r.chain >= 0) { probe(PR_CASCADE); notify(0, r.chain); }
}
void on_replaced(int i, int with) { NoPreempt n; W->regs[i].replaced.push_back(with); event(0x700 + i, (uint64_t)with); }

void check_ids(int i) {
    Reg &r = W->regs[i];
    for (size_t j = 0; j < W->regs.size(); j++) {
        Reg &q = W->regs[j];
        if ((int)j != i && q.done && !q.unreg_started && q.other == r.other && q.id == r.id)
            violation("shared-identifier", "registrations %zu and %d, both in force, were given the same identifier %d", j, i, r.id);
    }
}
void do_reg(const Op &op) {
    World &w = *W;
    int i = (int)op.a[0]; if (i < 0 || (size_t)i >= w.regs.size()) return;
    Reg &r = w.regs[i]; if (r.started) return;
    r.started = true; r.other = op.a[2] % 2;
    int n = r.other ? (int)w.o.size() : (int)w.t.size();
    r.obj = (int)(op.a[1] % n);
    r.chain = !r.other && r.obj < w.nobj && op.a[3] >= 0 && w.nl2 ? w.nobj + (int)(op.a[3] % w.nl2) : -1;
    r.reg_from = now();
    set_note("register %d with object %d", i, r.obj);
    int id;
    if (r.other) id = w.o[r.obj]->add_callbacks([i] { on_changed(i); }, [i](std::shared_ptr<Other> x) { on_replaced(i, x->id); });
    else id = w.t[r.obj]->add_callbacks([i] { on_changed(i); }, [i](std::shared_ptr<Target> x) { on_replaced(i, x->id); });
    NoPreempt np;
    r.id = id; r.reg_to = now(); r.done = true;
    check_ids(i);
}
void do_unreg(int i) {
    World &w = *W;
    if (i < 0 || (size_t)i >= w.regs.size()) return;
    Reg &r = w.regs[i];
    { NoPreempt n; if (!r.done || r.unreg_started) return; r.unreg_started = true; r.un_from = now(); }
    set_note("remove %d from object %d", i, r.obj);
    probe(PR_UNREG);
    if (r.other) w.o[r.obj]->remove_callbacks(r.id); else w.t[r.obj]->remove_callbacks(r.id);
    NoPreempt n; r.un_to = now(); r.gone = true;
}
long cascade(int obj) {  // notifications of a second-layer object caused by one notification of obj
    (void)obj; return 0;
}
// adds the expected effect of one notification made while nothing else happens
void expect_notify(int type, int obj) {
    std::vector<int> chains;
    for (Reg &r : W->regs) if (r.done && !r.gone && r.other == (type != 0) && r.obj == obj) { r.expect++; if (r.chain >= 0) chains.push_back(r.chain); }
    for (int c : chains) expect_notify(0, c);
}
void check_exact(const char *what) {
    for (size_t i = 0; i < W->regs.size(); i++) {
        Reg &r = W->regs[i];
        if (!r.done) continue;
        if (r.changed != r.expect)
            violation(r.changed < r.expect ? "not-told" : r.gone ? "told-after-removal" : "told-too-often", "after %s: registration %zu (%s with object %d) was told of %ld changes instead of %ld", what, i, r.gone ? "removed, last" : "now", r.obj, r.changed, r.expect);
    }
}
void check_spans() {
    World &w = *W;
    for (size_t i = 0; i < w.regs.size(); i++) {
        Reg &r = w.regs[i];
        if (!r.done) continue;
        long lo = 0, hi = 0;
        for (Span &s : w.notes[r.other ? 1 : 0][r.obj]) {
            if (r.reg_to < s.from && r.un_from > s.to) { lo++; hi++; }
            else if (r.reg_from < s.to && r.un_to > s.from) { hi++; probe(PR_OVERLAP); }
        }
        long got = r.changed - r.expect;
        if (got < lo || got > hi)
            violation(got < lo ? "not-told" : "told-too-often", "after a concurrent phase: registration %zu with object %d was told of %ld changes; %ld were certain and %ld possible", i, r.obj, got, lo, hi);
        r.expect = r.changed;
    }
}
void one(const Op &op, int type_objs) {
    (void)type_objs;
    World &w = *W;
    if (op.kind == "reg") do_reg(op);
    else if (op.kind == "unreg") do_unreg((int)op.a[0]);
    else if (op.kind == "unk") {
        probe(PR_UNKNOWN);
        static const int ids[] = {0, -1, 1 << 30, -(1 << 30)};
        int o = (int)(op.a[0] % w.t.size());
        set_note("remove unknown identifier from object %d", o);
        if (op.a[2] % 2) w.o[op.a[0] % w.o.size()]->remove_callbacks(ids[op.a[1] % 4]); else w.t[o]->remove_callbacks(ids[op.a[1] % 4]);
    } else if (op.kind == "notify") {
        int type = (int)(op.a[1] % 2), obj = (int)(op.a[0] % (type ? w.o.size() : w.t.size()));
        set_note("notify object %d", obj);
        probe(PR_NOTIFY);
        if (!w.concurrent) expect_notify(type, obj);
        notify(type, obj);
    }
    count(C_OPS);
    set_note("idle");
    progress();
}
void do_replace(const Op &op) {
    World &w = *W;
    static std::vector<int> was_replaced;
    if (was_replaced.size() != w.t.size()) was_replaced.assign(w.t.size(), 0);
    bool other = op.a[2] % 2;
    int n = other ? (int)w.o.size() : w.nobj;
    int a = (int)(op.a[0] % n), b = (int)(op.a[1] % n);
    probe(PR_REPLACE);
    if (a == b) probe(PR_SELF);
    std::vector<size_t> told(w.regs.size());
    for (size_t i = 0; i < w.regs.size(); i++) {
        told[i] = w.regs[i].replaced.size();
        Reg &r = w.regs[i];
        if (r.done && !r.gone && r.other == other && r.obj == b && a != b) probe(PR_MERGE);
    }
    set_note("replace object %d by %d", a, b);
    if (other) w.o[a]->replace(w.o[b]); else w.t[a]->replace(w.t[b]);
    set_note("idle");
    if (!other) { if (was_replaced[b]) probe(PR_BACK); for (Reg &r : w.regs) if (r.replaced.size() > 1) probe(PR_CHAIN_REPLACE); was_replaced[a] = 1; }
    for (size_t i = 0; i < w.regs.size(); i++) {
        Reg &r = w.regs[i];
        if (!r.done) continue;
        bool in = !r.gone && r.other == other && r.obj == a && a != b;
        size_t d = r.replaced.size() - told[i];
        if (a == b && r.obj == a && !r.gone && r.other == other) { if (d > 1) violation("replaced-too-often", "registration %zu was told %zu times that object %d was replaced by itself", i, d, a); continue; }
        if (d != (in ? 1u : 0u))
            violation(in ? "not-told" : "replaced-wrongly", "object %d was replaced by %d: registration %zu with object %d was told %zu times", a, b, i, r.obj, d);
        if (in) {
            if (r.replaced.back() != b) violation("wrong-replacement", "object %d was replaced by %d, but registration %zu was told of %d", a, b, i, r.replaced.back());
            r.obj = b;
        }
    }
}
struct CArg { int from, to, n; };
void run_client(const CArg &a, int c) { for (int i = a.from; i < a.to; i++) { const Op &op = W->p->ops[i]; if (op.client % a.n == c) one(op, 0); } }
void thread_client(void *v, int c) { run_client(*(CArg *)v, c); }

void exec(const Plan &p) {
    set_hang_budget(4 << 20);
    World w; W = &w; w.p = &p;
    w.nobj = (int)p.get("nobj", 3); w.nl2 = (int)p.get("nl2", 1);
    for (int i = 0; i < w.nobj + w.nl2; i++) w.t.push_back(std::make_shared<Target>(i));
    for (int i = 0; i < 2; i++) w.o.push_back(std::make_shared<Other>(i));
    w.regs.resize((size_t)p.get("nreg", 1));
    size_t i = 0;
    while (i < p.ops.size()) {
        size_t j = i; std::vector<char> cl(8); int ncl = 0;
        while (j < p.ops.size() && p.ops[j].kind != "barrier" && p.ops[j].kind != "repl" && p.ops[j].kind != "stale") { if (!cl[p.ops[j].client % 8]) { cl[p.ops[j].client % 8] = 1; ncl++; } j++; }
        if (ncl > 1) {
            probe(PR_CONC);
            for (auto &t : w.notes) for (auto &n : t) n.clear();
            CArg a = {(int)i, (int)j, (int)p.get("clients", 2)};
            w.concurrent = true;
            if (p.get("omp", 1)) {
#pragma omp parallel num_threads(a.n)
                for (int c = omp_get_thread_num(); c < a.n; c += omp_get_num_threads()) run_client(a, c);
            } else run_threads(a.n, thread_client, &a);
            w.concurrent = false;
            check_spans();
        } else for (size_t k = i; k < j; k++) { one(p.ops[k], 0); check_exact(p.ops[k].kind.c_str()); }
        i = j;
        if (i >= p.ops.size()) break;
        const Op &op = p.ops[i++];
        if (op.kind == "repl") { do_replace(op); check_exact("a replacement"); progress(); }
        else if (op.kind == "stale") {  // a client removes itself from an object that has been replaced since
            int n = (int)(op.a[0] % w.regs.size()); Reg &r = w.regs[n];
            int o = (int)(op.a[1] % w.t.size());
            if (r.done && !r.other && (r.gone || r.obj != o)) { probe(PR_STALE); w.t[o]->remove_callbacks(r.id); }
        }
    }
    // every registration still in force is told of one more change; the others are not
    for (int k = 0; k < (int)w.t.size(); k++) { expect_notify(0, k); notify(0, k); check_exact("a final change of each object"); }
    for (int k = 0; k < (int)w.o.size(); k++) { expect_notify(1, k); notify(1, k); check_exact("a final change of each object"); }
    for (size_t k = 0; k < w.regs.size(); k++) do_unreg((int)k);
    for (int k = 0; k < (int)w.t.size(); k++) { notify(0, k); check_exact("all clients removed themselves"); }
}

void gen(Rng &r, Plan &p, int tier) {
    int nobj = r.range(1, 5), nl2 = r.range(0, 2), nc = r.range(2, 4);
    p.cfg["nobj"] = nobj; p.cfg["nl2"] = nl2; p.cfg["clients"] = nc; p.cfg["omp"] = r.chance(0.6);
    int nt = nobj + nl2, nreg = 0, nph = r.range(1, tier ? 12 : 7);
    for (int ph = 0; ph < nph; ph++) {
        bool conc = r.chance(0.45);
        for (int i = 0, n = r.range(1, conc ? 14 : 6); i < n; i++) {
            int c = conc ? (int)r.below(nc) : 0;
            double u = r.unit();
            if (u < 0.38 || !nreg) p.add(c, "reg", nreg++, r.below(nt), r.chance(0.15), r.chance(0.25) ? (long)r.below(2) : -1);
            else if (u < 0.58) p.add(c, "unreg", r.chance(0.6) ? (long)r.below(nreg) : std::max(0, nreg - 1 - (int)r.below(3)));
            else if (u < 0.64) p.add(c, "unk", r.below(nt), r.below(4), r.chance(0.15));
            else p.add(c, "notify", r.below(nt), r.chance(0.15));
        }
        p.add(0, "barrier");
        for (int i = 0, n = (int)r.below(4); i < n; i++) {
            if (r.chance(0.8)) p.add(0, "repl", r.below(nobj), r.below(nobj), r.chance(0.15));
            else p.add(0, "stale", r.below(nreg), r.below(nt));
        }
    }
    p.cfg["nreg"] = nreg ? nreg : 1;
}
Workload w6("C06", gen, exec, names);
}
