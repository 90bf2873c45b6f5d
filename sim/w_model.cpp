// C04, C05, C11, C12, C13, C15: whole models - parallel queries, changes, lifetimes, membership, failing parts, failing allocations.
#include "model.h"
#include "maq.h"
#include "pyslatcore.h"
#include <algorithm>
#include <cstdio>
#include <new>
#include <tuple>
#include <omp.h>
using namespace sim;
using namespace model;

namespace {
enum { PR_QUERY = 0, PR_CHANGED_AFTER_QUERY, PR_PARALLEL, PR_REPLACED, PR_REPLACED_BACK, PR_MERGED, PR_REFUSED, PR_EMPTIED, PR_REFILLED, PR_DROPPED, PR_DESTROYED, PR_CHANGED_AFTER_DROP, PR_FAULT, PR_FAULT_PARALLEL,
       PR_RETRIED, PR_NESTED, PR_LIST, PR_DUPLICATE, PR_NAN, PR_INDIRECT, PR_ZERO, PR_OOM, PR_OOM_ABSORBED, PR_OOM_TEAM, PR_SHARED, PR_CLEAR, PR_CHANGE_OOM, PR_CHANGE_OOM_ABSORBED, PR_TUNED };
const char *const probes[] = {"query", "query_after_change_that_was_queried_before", "queries_by_several_clients_at_once", "object_replaced", "replaced_object_put_back", "two_dependents_merged_on_one_object",
    "component_group_refused", "structure_emptied", "emptied_structure_refilled", "reference_discarded", "object_destroyed", "change_after_discard", "query_ended_in_injected_failure", "failure_with_several_clients",
    "query_repeated_after_failure", "query_from_inside_parallel_region", "list_query", "same_group_twice_in_structure", "query_result_nan", "object_reached_through_dependent", "nonzero_results", "query_ran_out_of_memory", "allocation_failed_but_query_succeeded", "ran_out_of_memory_with_several_clients", "shared_object_queried", "all_caches_cleared_meanwhile", "change_ran_out_of_memory", "allocation_failed_but_change_succeeded", "integration_settings_changed", NULL};

struct Q { const Op *op; int id, kind, q; long arg; bool threw; long token; std::string err; std::vector<double> v; };
struct Key { int id, q; long arg; bool operator<(const Key &o) const { return std::tie(id, q, arg) < std::tie(o.id, o.q, o.arg); } };

struct Run {
    const Plan *p; World w; int mode, nclients; bool pure, omp;
    std::map<Key, std::vector<double>> expected; // since the last change
    std::set<Key> asked;                         // ever
    std::map<int, std::set<int>> replaced_by;
    long changes = 0; bool dropped = false;
    const Op *oom = NULL;                        // allocations which fail in the next batch
};
Run *R;

// the query evaluated one argument at a time
std::vector<double> ask_seq(const Ent &e, int kind, int q, long arg) {
    static const int im_map[] = {0, 2, 3, 4}, py_map[] = {0, 4, 2, 3};
    auto lst = [&](double (*val)(long)) { return points_list(arg, val); };
    std::vector<double> r;
    if (kind == IMK && ((q >= 5 && q <= 8) || q >= 11)) {
        int s = q <= 8 ? im_map[q - 5] : py_map[q - 11];
        for (double x : lst(im_value)) r.push_back(s == 0 ? e.im->lambda(x) : s == 2 ? e.im->pCollapse(x) : s == 3 ? e.im->pDemolition(x) : e.im->pRepair(x));
        return r;
    }
    if (kind == EDPK && q >= 7 && q <= 16) {
        int s = (q - 7) % 5;
        for (double x : lst(im_value)) r.push_back(s == 0 ? e.edp->Mean(x) : s == 1 ? e.edp->MeanLn(x) : s == 2 ? e.edp->Median(x) : s == 3 ? e.edp->SD_ln(x) : e.edp->SD(x));
        return r;
    }
    if (kind == EDPK && (q == 18 || q == 19)) { for (double x : lst(edp_value)) r.push_back(e.edp->lambda(x)); return r; }
    if (kind == ST && q == 10) { for (int y : years_list(arg)) r.push_back(e.st->E_cost(y, 0.04)); return r; }
    return ask(e, kind, q, arg);
}

void run_query(Run &r, Q &q) {
    set_note("%s %d %s #%ld", kind_name[q.kind], q.id, queries[q.kind][q.q].name, q.arg);
    if (omp_in_parallel()) probe(PR_NESTED);
    try { const Ent h = r.w.handle(q.id); q.v = ask(h, q.kind, q.q, q.arg); }
    catch (Fault &f) { q.threw = true; q.token = f.token; }
    catch (OddFault &f) { q.threw = true; q.token = f.token; }
    catch (std::bad_alloc &) { q.threw = true; q.token = -2; }
    catch (std::exception &e) { q.threw = true; q.token = -1; q.err = e.what(); }
    set_note("idle");
    count(C_OPS);
    event(0x0901, (uint64_t)q.id * 64 + q.q);
    for (double x : q.v) event_d(1, x);
    progress();
}
struct Batch { Run *r; std::vector<Q> *qs; int n; };
void client_run(void *a, int c) { Batch *b = (Batch *)a; for (Q &q : *b->qs) if (q.op->client % b->n == c) run_query(*b->r, q); }

void batch(Run &r, std::vector<Q> &qs) {
    if (qs.empty()) return;
    std::set<int> cl; for (Q &q : qs) cl.insert(q.op->client % r.nclients);
    Batch b = {&r, &qs, r.nclients};
    faults_fired = 0; tokens.clear();
    if (r.oom) arm_alloc_fault(r.oom->a[0], r.oom->a[1], r.oom->a[2]);
    if (cl.size() <= 1) { for (Q &q : qs) { run_query(r, q);
            if (q.threw && active_parts) violation("still-running", "%s %d %s threw while %ld of its parts were still running", kind_name[q.kind], q.id, queries[q.kind][q.q].name, active_parts); } }
    else {
        probe(PR_PARALLEL);
        if (r.omp) {
            int n = r.nclients;
#pragma omp parallel num_threads(n)
            for (int c = omp_get_thread_num(); c < n; c += omp_get_num_threads()) client_run(&b, c);
        } else run_threads(r.nclients, client_run, &b);
    }
    // ---- check
    long nfailed = disarm_alloc_fault();
    r.oom = NULL;
    bool multi = cl.size() > 1;
    int threw = 0;
    for (Q &q : qs) {
        const char *qn = queries[q.kind][q.q].name;
        probe(PR_QUERY);
        if (queries[q.kind][q.q].name[strlen(qn) - 1] == ')') probe(PR_LIST);
        if (!q.threw) continue;
        threw++; probe(PR_FAULT); if (multi) probe(PR_FAULT_PARALLEL);
        if (nfailed && q.token == -2) { probe(multi ? PR_OOM_TEAM : PR_OOM); continue; }
        if (tokens.empty() || (q.token >= 0 && !tokens.count(q.token)) || q.token == -1)
            violation((std::string("unexpected-error:") + qn).c_str(), "%s %d %s threw %s", kind_name[q.kind], q.id, qn, q.token == -1 ? q.err.c_str() : "a failure nobody raised");
    }
    if (!multi && !tokens.empty()) {
        // one client at a time: which query a failure belongs to is known when there is only one query
        if (qs.size() == 1 && !qs[0].threw)
            violation((std::string("swallowed:") + queries[qs[0].kind][qs[0].q].name).c_str(), "%s %d %s: %zu of its parts failed, but it returned %s", kind_name[qs[0].kind], qs[0].id, queries[qs[0].kind][qs[0].q].name, tokens.size(), describe(qs[0].v).c_str());
    }
    if (!tokens.empty() && !threw) violation("swallowed", "%zu failures were raised in %zu queries but none of these threw", tokens.size(), qs.size());
    if (nfailed && !threw) probe(PR_OOM_ABSORBED);
    // ---- expected values, from a model built from scratch and evaluated by one thread
    for (auto &k : r.w.desc) k.second.ctl->countdown = -1;
    int nt = omp_get_max_threads();
    omp_set_num_threads(1);
    {
        std::map<int, Ent> scratch;
        for (Q &q : qs) {
            Key k = {q.id, q.q, q.arg};
            if (!r.expected.count(k)) {
                std::map<int, Ent> f;
                if (r.pure) f = r.w.fresh(q.id);
                else { if (!scratch.count(q.id)) { std::map<int, Ent> g = r.w.fresh(q.id); for (auto &e : g) scratch[e.first] = e.second; } }
                set_note("reference %s %d %s #%ld", kind_name[q.kind], q.id, queries[q.kind][q.q].name, q.arg);
                r.expected[k] = ask_seq((r.pure ? f : scratch)[q.id], q.kind, q.q, q.arg);
                progress();
            }
        }
    }
    omp_set_num_threads(nt);
    set_note("idle");
    for (Q &q : qs) {
        Key k = {q.id, q.q, q.arg};
        if (r.asked.count(k) && r.changes) probe(PR_CHANGED_AFTER_QUERY);
        r.asked.insert(k);
        if (q.threw) continue;
        const std::vector<double> &x = r.expected[k];
        for (double y : x) { if (y != y) { probe(PR_NAN); break; } }
        for (double y : x) { if (y == y && y != 0) { probe(PR_ZERO); break; } }
        if (!same(q.v, x))
            violation((std::string("differs:") + queries[q.kind][q.q].name).c_str(), "%s %d %s #%ld returned %s; an equal model built from scratch returns %s", kind_name[q.kind], q.id, queries[q.kind][q.q].name, q.arg, describe(q.v).c_str(), describe(x).c_str());
    }
    if ((r.mode == 13 || r.mode == 15) && threw) {
        // once the cause is gone, the same queries succeed
        std::vector<Q> again;
        for (Q &q : qs) if (q.threw) { Q n = q; n.threw = false; n.v.clear(); again.push_back(n); }
        for (auto &k : r.w.desc) k.second.ctl->countdown = -1;
        for (Q &q : again) {
            run_query(r, q); probe(PR_RETRIED);
            if (q.threw) violation((std::string("still-failing:") + queries[q.kind][q.q].name).c_str(), "%s %d %s still fails although nothing fails any more", kind_name[q.kind], q.id, queries[q.kind][q.q].name);
            if (!same(q.v, r.expected[Key{q.id, q.q, q.arg}]))
                violation((std::string("poisoned:") + queries[q.kind][q.q].name).c_str(), "%s %d %s #%ld, repeated after a failure, returned %s instead of %s", kind_name[q.kind], q.id, queries[q.kind][q.q].name, q.arg, describe(q.v).c_str(), describe(r.expected[Key{q.id, q.q, q.arg}]).c_str());
        }
    }
}

// an object of a kind, chosen by number among the existing ones
int pick(const Run &r, int kind, long n) {
    std::vector<int> c;
    for (auto &k : r.w.desc) if (k.second.kind == kind) c.push_back(k.first);
    return c.empty() ? -1 : c[n % c.size()];
}

void change(Run &r, const Op &op) {
    World &w = r.w; bool done = false, refused = false, oom = false;
    int id = (int)op.a[0];
    const std::string &k = op.kind;
    std::string what = k + " " + std::to_string(op.a[0]) + " " + std::to_string(op.a[1]);
    set_note("%s", what.c_str());
    std::set<int> before = w.reachable(true);
    if (r.oom) { arm_alloc_fault(r.oom->a[0], r.oom->a[1], r.oom->a[2]); pause_alloc_fault(true); }
    try {
    if (k == "det") { long p[5] = {op.a[1], op.a[2], op.a[3], 0, 0}; done = w.create(id, DET, p, {}); }
    else if (k == "prob") { long p[5] = {op.a[3], 0, op.a[4], 0, 0}; done = w.create(id, PROB, p, {(int)op.a[1], (int)op.a[2]}); }
    else if (k == "im") { long p[5] = {0}; done = w.create(id, IMK, p, {(int)op.a[1]}); }
    else if (k == "edp") { long p[5] = {0}; done = w.create(id, EDPK, p, {(int)op.a[1], (int)op.a[2]}); }
    else if (k == "cedp") { long p[5] = {0}; done = w.create(id, EDPK, p, {(int)op.a[1], (int)op.a[2], (int)op.a[3]}); }
    else if (k == "frag") { long p[5] = {0, op.a[1], 0, 0, 0}; done = w.create(id, FRAG, p, {}); }
    else if (k == "loss") { long p[5] = {op.a[1], op.a[2], 0, 0, 0}; done = w.create(id, LOSS, p, {}); }
    else if (k == "cg") { long p[5] = {0, op.a[5] % 6, op.a[5] / 6, 0, 0}; done = w.create(id, CG, p, {(int)op.a[1], (int)op.a[2], (int)op.a[3], (int)op.a[4]}); }
    else if (k == "st") { long p[5] = {0}; done = w.create(id, ST, p, {}); }
    else if (k == "repl") {
        int b = (int)op.a[1];
        bool merged = false;
        if (w.desc.count(b)) for (auto &d : w.desc) for (int i : d.second.in) if (i == b) merged = true;
        done = w.replace(id, b);
        if (done) { probe(PR_REPLACED); if (merged) probe(PR_MERGED); if (r.replaced_by[b].count(id)) probe(PR_REPLACED_BACK); r.replaced_by[id].insert(b); }
    } else if (k == "set") {
        if (w.desc.count(id) && w.desc[id].kind == DET) {
            Ent h = w.handle(id); Desc &d = w.desc[id];
            if (h) if (MutableFn *m = dynamic_cast<MutableFn *>(h.det.get())) {
                double v = 1 + 0.13 * (double)(op.a[1] % 8);
                { Lib l; d.p[0] % 4 == 0 ? m->Set(0.002 * v, -1.9) : d.p[0] % 4 == 1 ? m->Set(0.08 * v, 1.2) : m->Set(0.35 * v, 0.05); }
                d.p[1] = op.a[1]; done = true;
            }
        }
    } else if (k == "coll" || k == "demo") {
        if (w.get(id, IMK)) { Ent h = w.handle(id); if (h) {
            Desc &d = w.desc[id]; long v = op.a[1]; bool c = k == "coll"; int via = (int)(op.a[2] % 3);
            Lib l;
            if (via == 0 && v >= 0) { c ? h.im->SetCollapse(dist(v, c ? 1.2 : 0.7)) : h.im->SetDemolition(dist(v, 0.7)); }
            else {
                std::shared_ptr<SLAT::LogNormalDist> x;
                if (v >= 0) x = std::make_shared<SLAT::LogNormalDist>(dist(v, c ? 1.2 : 0.7));
                if (via == 1) { ::IM py(h.im); ::LogNormalDist y(x); c ? py.SetCollapse(y) : py.SetDemolition(y); }
                else c ? h.im->SetCollapse(x) : h.im->SetDemolition(x);
            }
            (c ? d.coll : d.demo) = v; done = true;
        } }
    } else if (k == "reb" || k == "dem") {
        if (w.get(id, ST)) { Ent h = w.handle(id); if (h) {
            Lib l;
            SLAT::LogNormalDist x = dist(op.a[1], k == "reb" ? 8 : 10);
            if (op.a[2] % 2) { ::Structure py(h.st); ::LogNormalDist y(std::make_shared<SLAT::LogNormalDist>(x)); k == "reb" ? py.setRebuildCost(y) : py.setDemolitionCost(y); }
            else k == "reb" ? h.st->setRebuildCost(x) : h.st->setDemolitionCost(x);
            (k == "reb" ? w.desc[id].reb : w.desc[id].dem) = op.a[1]; done = true;
        } }
    } else if (k == "add") {
        bool was_empty = w.get(id, ST) && w.desc[id].in.empty() && w.desc[id].im >= 0;
        if (w.get(id, ST) && std::count(w.desc[id].in.begin(), w.desc[id].in.end(), (int)op.a[1])) probe(PR_DUPLICATE);
        done = w.add_cg(id, (int)op.a[1], &refused);
        if (refused) probe(PR_REFUSED); else if (done && was_empty) probe(PR_REFILLED);
    } else if (k == "rem") { done = w.remove_cg(id, (int)op.a[1]); if (done && w.desc[id].in.empty()) probe(PR_EMPTIED); }
    else if (k == "tune") { // the settings of the integration, through the library's class or the Python wrapper's functions
        using SLAT::Integration::IntegrationSettings;
        long v = op.a[1]; bool py = op.a[2] % 2;
        Lib l;
        if (id == 0) py ? ::Set_Integration_Tolerance(0.1 + 0.1 * (double)(v % 6)) : IntegrationSettings::Set_Tolerance(0.1 + 0.1 * (double)(v % 6));
        else if (id == 1) py ? ::Set_Integration_Eval_Limit(20u << v % 5) : IntegrationSettings::Set_Integration_Eval_Limit(20u << v % 5);
        else if (id == 2) py ? ::Set_Integration_Search_Limit(4u << v % 7) : IntegrationSettings::Set_Integration_Search_Limit(4u << v % 7);
        else py ? ::Set_Integration_Method((INTEGRATION_TYPE)(v % 5)) : IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)(v % 5));
        done = true; probe(PR_TUNED);
    }
    else if (k == "drop") { done = w.drop(id); if (done) { probe(PR_DROPPED); r.dropped = true; } }
    } catch (std::bad_alloc &) { oom = true; }
    if (r.oom || oom) {
        long n = disarm_alloc_fault(); r.oom = NULL;
        if (oom && !n) violation("unexpected-error", "'%s' ran out of memory although there was enough", what.c_str());
        if (oom) { probe(PR_CHANGE_OOM); done = true; } else if (n) probe(PR_CHANGE_OOM_ABSORBED);
    }
    set_note("idle");
    progress();
    if (!done) return;
    count(C_OPS);
    event(0xC4A6, (uint64_t)id);
    bool life = r.mode == 11 || r.mode == 18;
    if (oom) {
        for (auto &d : w.desc) if (d.second.kind == ST && w.handle(d.first)) w.check_components(d.first, ("after '" + what + "' ran out of memory").c_str());
    } else if (k == "repl" || k == "set" || k == "coll" || k == "demo" || k == "reb" || k == "dem" || k == "add" || k == "rem" || k == "tune") {
        r.changes++; r.expected.clear(); if (r.dropped) probe(PR_CHANGED_AFTER_DROP);
        if (r.mode == 12 || life) for (auto &d : w.desc) if (d.second.kind == ST && w.handle(d.first)) w.check_components(d.first, ("after '" + what + (refused ? "' was refused" : "'")).c_str());
    }
    if (life) {
        w.check_lifetimes(("after '" + what + "'").c_str());
        std::set<int> after = w.reachable(true);
        std::vector<int> dead;
        for (auto &d : w.desc) if (!after.count(d.first)) dead.push_back(d.first);
        for (int d : dead) { probe(PR_DESTROYED); w.desc.erase(d); }
    }
}

void clear_all(Run &r) {
    bool oom = false; long n = 0;
    if (r.oom) arm_alloc_fault(r.oom->a[0], r.oom->a[1], r.oom->a[2]);
    try { SLAT::Caching::Clear_Caches(); } catch (std::bad_alloc &) { oom = true; }
    if (r.oom) n = disarm_alloc_fault();
    r.oom = NULL;
    if (oom && !n) violation("unexpected-error", "clearing all caches ran out of memory although there was enough");
    progress();
}

void exec(const Plan &p) {
    set_hang_budget(200u << 20);
    Run r; R = &r; r.p = &p; r.mode = (int)p.get("mode"); r.nclients = (int)p.get("clients", 1); r.pure = p.get("pure") != 0; r.omp = p.get("omp", 1) != 0;
    settings(p);
    std::vector<Q> qs;
    for (size_t i = 0; i <= p.ops.size(); i++) {
        const Op *op = i < p.ops.size() ? &p.ops[i] : NULL;
        if (op && op->kind == "q") {
            int kind = (int)(op->a[0] % NKIND), id = (int)op->a[1];
            if (!r.w.get(id, kind)) continue;
            int q = (int)(op->a[2] % (long)queries[kind].size());
            if (!askable(r.w.desc[id], q)) continue;
            Ent h = r.w.handle(id);
            if (!h) continue;
            if (!r.w.live.count(id)) probe(PR_INDIRECT);
            Q n; n.op = op; n.id = id; n.kind = kind; n.q = q; n.arg = op->a[3]; n.threw = false; n.token = 0;
            qs.push_back(n);
            if (r.mode != 13 || r.nclients > 1) continue;
        }
        if (r.mode == 18) { const Op *o = r.oom; r.oom = NULL; batch(r, qs); r.oom = o; } else batch(r, qs);
        qs.clear();
        if (!op || op->kind == "q") continue;
        if (op->kind == "oom") r.oom = op;
        else if (op->kind == "fault") {
            int id = (int)op->a[0];
            if (r.w.desc.count(id)) { FaultCtl &c = *r.w.desc[id].ctl; c.countdown = op->a[1]; c.type = (int)op->a[2]; c.sticky = op->a[3] % 2; }
        } else if (op->kind == "barrier") {}
        else if (op->kind == "clear") clear_all(r);
        else change(r, *op);
    }
    // discard what is left in a seeded order
    if (r.mode == 11 || r.mode == 18) {
        std::vector<int> ids;
        for (auto &k : r.w.live) ids.push_back(k.first);
        Rng g((uint64_t)p.get("order", 1));
        while (!ids.empty()) {
            size_t n = g.below(ids.size());
            Op op; op.kind = "drop"; op.a[0] = ids[n];
            ids.erase(ids.begin() + n);
            change(r, op);
        }
        if (!r.w.desc.empty()) violation("never-destroyed", "objects still exist after everything was discarded");
    }
}

// ------------------------------------------------------------------------------------------------ C17: every client has models of its own
struct Client { Run r; std::vector<const Op *> ops; std::vector<std::vector<double>> result; std::vector<std::string> err; };
struct Clients { std::vector<Client> c; int n; int nshared; };
// objects below nshared are common to all clients: they are used, but neither changed nor discarded
bool changes_shared(const Op &op, int nshared) {
    const std::string &k = op.kind;
    if (k == "repl") return op.a[0] < nshared || op.a[1] < nshared;
    return (k == "set" || k == "coll" || k == "demo" || k == "reb" || k == "dem" || k == "add" || k == "rem" || k == "drop") && op.a[0] < nshared;
}
bool query_of(Run &r, const Op &op, Q &n) {
    int kind = (int)(op.a[0] % NKIND), id = (int)op.a[1];
    if (!r.w.get(id, kind)) return false;
    int q = (int)(op.a[2] % (long)queries[kind].size());
    if (!askable(r.w.desc[id], q)) return false;
    n.op = &op; n.id = id; n.kind = kind; n.q = q; n.arg = op.a[3]; n.threw = false; n.token = 0;
    return (bool)r.w.handle(id);
}
void client_models(void *a, int i) {
    Clients &cs = *(Clients *)a; Client &c = cs.c[i];
    for (size_t j = 0; j < c.ops.size(); j++) {
        const Op &op = *c.ops[j];
        if (op.kind == "q") {
            Q n;
            if (!query_of(c.r, op, n)) continue;
            probe(PR_QUERY); if (n.id < cs.nshared) probe(PR_SHARED);
            run_query(c.r, n);
            c.result[j] = n.v;
            if (n.threw) c.err[j] = n.token == -2 ? "std::bad_alloc" : n.err + "!";
        } else if (op.kind == "clear") { SLAT::Caching::Clear_Caches(); probe(PR_CLEAR); }
        else if (!changes_shared(op, cs.nshared)) change(c.r, op);
    }
    // discard the models, in one of the possible orders
    Rng g((uint64_t)c.r.p->get("order", 1) + i);
    std::vector<int> ids;
    for (auto &k : c.r.w.live) if (k.first >= cs.nshared) ids.push_back(k.first);
    if (g.chance(0.5)) while (!ids.empty()) { size_t n = g.below(ids.size()); c.r.w.drop(ids[n]); ids.erase(ids.begin() + n); }
    c.r.w.live.clear();
}
void exec17(const Plan &p) {
    set_hang_budget(200u << 20);
    Run base; R = &base; base.p = &p; base.mode = 17; base.nclients = (int)p.get("clients", 2); base.omp = p.get("omp", 1) != 0; base.pure = true;
    settings(p);
    size_t i = 0;
    for (; i < p.ops.size() && p.ops[i].kind != "start"; i++) if (p.ops[i].kind != "q") change(base, p.ops[i]);
    Clients cs; cs.n = base.nclients; cs.nshared = (int)p.get("nshared");
    cs.c.resize(cs.n);
    for (Client &c : cs.c) c.r = base;
    for (i++; i < p.ops.size(); i++) cs.c[p.ops[i].client % cs.n].ops.push_back(&p.ops[i]);
    for (Client &c : cs.c) { c.result.resize(c.ops.size()); c.err.resize(c.ops.size()); }
    probe(PR_PARALLEL);
    if (base.omp) {
        int n = cs.n;
#pragma omp parallel num_threads(n)
        for (int c = omp_get_thread_num(); c < n; c += omp_get_num_threads()) client_models(&cs, c);
    } else run_threads(cs.n, client_models, &cs);
    for (Client &c : cs.c) for (auto &d : c.r.w.desc) if (d.first >= cs.nshared && !d.second.weak.expired())
        violation("never-destroyed", "%s %d of a client still exists although nothing refers to it", kind_name[d.second.kind], d.first);
    // the same again, by one thread, each query asked of a model built from scratch
    omp_set_num_threads(1);
    for (int k = 0; k < cs.n; k++) {
        Client &c = cs.c[k];
        Run r = base;
        for (size_t j = 0; j < c.ops.size(); j++) {
            const Op &op = *c.ops[j];
            if (op.kind != "q") { if (op.kind != "clear" && !changes_shared(op, cs.nshared)) change(r, op); continue; }
            Q n;
            if (!query_of(r, op, n)) continue;
            const char *qn = queries[n.kind][n.q].name;
            if (!c.err[j].empty()) violation((std::string("unexpected-error:") + qn).c_str(), "client %d: %s %d %s threw %s", k, kind_name[n.kind], n.id, qn, c.err[j].c_str());
            std::map<int, Ent> f = r.w.fresh(n.id);
            std::vector<double> x = ask_seq(f[n.id], n.kind, n.q, n.arg);
            progress();
            if (!same(c.result[j], x)) violation((std::string("differs:") + qn).c_str(), "client %d: %s %d %s #%ld returned %s, while other threads worked on other models; an equal model returns %s", k, kind_name[n.kind], n.id, qn, n.arg, describe(c.result[j]).c_str(), describe(x).c_str());
        }
    }
}

// ------------------------------------------------------------------------------------------------ generation
struct Shape { std::vector<int> id[NKIND]; std::vector<int> detk[4]; int next = 0; };

int new_det(Rng &r, Plan &p, Shape &s, int role) { int i = s.next++; p.add(0, "det", i, role, r.below(8), r.below(4)); s.id[DET].push_back(i); s.detk[role].push_back(i); return i; }
template <class T> T any(Rng &r, const std::vector<T> &v) { return v[r.below(v.size())]; }
int some_det(Rng &r, Plan &p, Shape &s, int role) { return s.detk[role].empty() || r.chance(0.35) ? new_det(r, p, s, role) : any(r, s.detk[role]); }
int new_prob(Rng &r, Plan &p, Shape &s, bool faulty) {
    int mu = some_det(r, p, s, 1); long t = (long)r.below(3);
    int sg = r.chance(0.12) ? mu : some_det(r, p, s, t == 2 ? 3 : 2); // one function in both roles, too
    int i = s.next++; p.add(0, "prob", i, mu, sg, t, faulty); s.id[PROB].push_back(i); return i;
}
int new_im(Rng &r, Plan &p, Shape &s) { int d = some_det(r, p, s, 0); int i = s.next++; p.add(0, "im", i, d); s.id[IMK].push_back(i);
    if (r.chance(0.6)) p.add(0, "coll", i, r.below(20), r.below(3));
    if (r.chance(0.5)) p.add(0, "demo", i, r.below(20), r.below(3));
    return i; }
int new_edp(Rng &r, Plan &p, Shape &s, bool faulty, int im = -1) {
    if (im < 0) im = any(r, s.id[IMK]);
    int a = s.id[PROB].empty() || r.chance(0.5) ? new_prob(r, p, s, faulty) : any(r, s.id[PROB]);
    bool comp = r.chance(0.35);
    int b = comp ? (r.chance(0.15) ? a : r.chance(0.6) ? new_prob(r, p, s, faulty) : any(r, s.id[PROB])) : -1;
    int i = s.next++;
    if (comp) p.add(0, "cedp", i, im, a, b); else p.add(0, "edp", i, im, a);
    s.id[EDPK].push_back(i); return i;
}
int new_frag(Rng &r, Plan &p, Shape &s) { int i = s.next++; p.add(0, "frag", i, r.below(8)); s.id[FRAG].push_back(i); return i; }
int new_loss(Rng &r, Plan &p, Shape &s, bool faulty) { int i = s.next++; p.add(0, "loss", i, faulty && r.chance(0.6) ? 2 : (int)r.below(3), r.below(8)); s.id[LOSS].push_back(i); return i; }
int new_cg(Rng &r, Plan &p, Shape &s, bool faulty) {
    int e = any(r, s.id[EDPK]), f = any(r, s.id[FRAG]);
    int c = r.chance(0.92) ? any(r, s.id[LOSS]) : -1, d = r.chance(0.8) ? any(r, s.id[LOSS]) : -1;
    if (c >= 0 && r.chance(0.15)) d = c;
    int i = s.next++; p.add(0, "cg", i, e, f, c, d, r.below(24)); s.id[CG].push_back(i); return i;
}
void gen_model(Rng &r, Plan &p, Shape &s, bool faulty, int depth, int nims) {
    for (int i = 0; i < nims; i++) new_im(r, p, s);
    for (int i = 0, n = r.range(1, 3); i < n; i++) new_edp(r, p, s, faulty);
    if (depth < 1) return;
    for (int i = 0, n = r.range(1, 2); i < n; i++) new_frag(r, p, s);
    for (int i = 0, n = r.range(1, 3); i < n; i++) new_loss(r, p, s, faulty);
    for (int i = 0, n = r.range(1, 3); i < n; i++) new_cg(r, p, s, faulty);
    if (depth < 2) return;
    for (int i = 0, n = r.chance(0.25) ? 2 : 1; i < n; i++) {
        int st = s.next++; p.add(0, "st", st); s.id[ST].push_back(st);
        if (r.chance(0.8)) p.add(0, "reb", st, r.below(20), r.below(2));
        if (r.chance(0.7)) p.add(0, "dem", st, r.below(20), r.below(2));
        for (int j = 0, m = r.range(1, 4); j < m; j++) p.add(0, "add", st, any(r, s.id[CG]));
    }
}
struct Watch { int kind, id, q; long arg; };
Watch gen_query(Rng &r, Shape &s, int maxcost, const double *w) {
    for (;;) {
        double u = r.unit() * (w[0] + w[1] + w[2] + w[3] + w[4] + w[5] + w[6] + w[7]);
        int k = 0;
        while (k < NKIND - 1 && u >= w[k]) u -= w[k++];
        if (s.id[k].empty()) continue;
        int q = (int)r.below(queries[k].size());
        int c = queries[k][q].cost;
        if (c > maxcost || (c == 0 && r.chance(0.4)) || (c == 2 && r.chance(0.6)) || (c == 3 && r.chance(0.6))) continue;
        return {k, any(r, s.id[k]), q, (long)r.below(c >= 1 ? 6 : 60) + (c >= 1 ? 0 : 0)};
    }
}
// lists need larger argument numbers
void widen(Rng &r, Watch &w) { const char *n = queries[w.kind][w.q].name; if (strchr(n, '(') || strstr(n, "par_") || strstr(n, "bulk")) w.arg = (long)r.below(24); }
void add_query(Plan &p, Rng &r, const Watch &w, int nclients) { p.add((int)r.below(nclients), "q", w.kind, w.id, w.q, w.arg); }
int depth_of(const Shape &s) { return s.id[ST].empty() ? s.id[CG].empty() ? 0 : 1 : 2; }

void gen_change(Rng &r, Plan &p, Shape &s, bool drops) {
    for (int tries = 0; tries < 20; tries++) {
        switch (r.below(drops ? 16 : 12)) {
        case 0: { int role = (int)r.below(4); if (s.detk[role].empty()) break; int a = any(r, s.detk[role]); int b = r.chance(0.6) ? new_det(r, p, s, role) : any(r, s.detk[role]); p.add(0, "repl", a, b); return; }
        case 1: { int a = any(r, s.id[PROB]); int b = r.chance(0.6) ? new_prob(r, p, s, false) : any(r, s.id[PROB]); p.add(0, "repl", a, b); return; }
        case 2: { int a = any(r, s.id[IMK]); int b = r.chance(0.5) ? new_im(r, p, s) : any(r, s.id[IMK]); p.add(0, "repl", a, b); return; }
        case 3: { int a = any(r, s.id[EDPK]); int b = r.chance(0.5) ? new_edp(r, p, s, false) : any(r, s.id[EDPK]); p.add(0, "repl", a, b); return; }
        case 4: if (!s.id[FRAG].empty()) { int a = any(r, s.id[FRAG]); int b = r.chance(0.6) ? new_frag(r, p, s) : any(r, s.id[FRAG]); p.add(0, "repl", a, b); return; } break;
        case 5: if (!s.id[LOSS].empty()) { int a = any(r, s.id[LOSS]); int b = r.chance(0.6) ? new_loss(r, p, s, false) : any(r, s.id[LOSS]); p.add(0, "repl", a, b); return; } break;
        case 6: if (!s.id[CG].empty()) { int a = any(r, s.id[CG]); int b = r.chance(0.6) ? new_cg(r, p, s, false) : any(r, s.id[CG]); p.add(0, "repl", a, b); return; } break;
        case 7: p.add(0, "coll", any(r, s.id[IMK]), r.chance(0.9) ? (long)r.below(20) : -1, r.below(3)); return;
        case 8: p.add(0, "demo", any(r, s.id[IMK]), r.chance(0.9) ? (long)r.below(20) : -1, r.below(3)); return;
        case 9: if (!s.id[ST].empty()) { p.add(0, r.chance(0.5) ? "reb" : "dem", any(r, s.id[ST]), r.below(20), r.below(2)); return; } break;
        case 10: if (!s.id[ST].empty()) { p.add(0, r.chance(0.5) ? "add" : "rem", any(r, s.id[ST]), any(r, s.id[CG])); return; } break;
        case 11: p.add(0, "set", any(r, s.id[DET]), r.below(8)); return;
        default: { int k = (int)r.below(NKIND); if (s.id[k].empty()) break; p.add(0, "drop", any(r, s.id[k])); return; }
        }
    }
}
void common_cfg(Rng &r, Plan &p, int mode) {
    p.cfg["mode"] = mode;
    p.cfg["tol"] = r.range(20, 60);
    p.cfg["pure"] = r.chance(0.3);
    p.cfg["omp"] = r.chance(0.6);
}
void finish_sched(Rng &r, Plan &p) { if (p.sc.strat == ST_RANDOM || p.sc.strat == ST_MIXED) p.sc.rate = (int)(p.sc.rate * (long)r.range(1, 60)); }

void gen4(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 4);
    Shape s; int depth = (int)r.below(3);
    gen_model(r, p, s, false, depth, r.chance(0.2) ? 2 : 1);
    int nc = r.chance(0.55) ? r.range(2, 4) : 1; p.cfg["clients"] = nc;
    static const double w[] = {0.2, 0.2, 1, 2, 0.3, 0.1, 2, 2};
    int maxcost = r.chance(tier ? 0.3 : 0.12) ? 3 : r.chance(0.4) ? 2 : 1;
    for (int b = 0, nb = r.range(1, 3); b < nb; b++) {
        std::vector<Watch> ws;
        for (int i = 0, n = r.range(1, 4); i < n; i++) { Watch x = gen_query(r, s, maxcost, w); widen(r, x); ws.push_back(x); }
        for (int i = 0, n = r.range(2, 8); i < n; i++) add_query(p, r, any(r, ws), nc);
        p.add(0, "barrier");
        if (r.chance(0.3)) gen_change(r, p, s, false);
    }
    finish_sched(r, p);
}
void gen5(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 5);
    Shape s; int depth = r.chance(0.2) ? 0 : r.chance(0.45) ? 1 : 2;
    gen_model(r, p, s, false, depth, r.chance(0.35) ? 2 : 1);
    int nc = r.chance(0.3) ? 2 : 1; p.cfg["clients"] = nc;
    static const double w[] = {0.1, 0.2, 1.2, 1.2, 0.1, 0.05, 2, 2};
    int maxcost = r.chance(0.35) ? 3 : r.chance(0.3) ? 2 : 1;
    std::vector<Watch> ws;
    for (int i = 0, n = r.range(1, 5); i < n; i++) ws.push_back(gen_query(r, s, maxcost, w));
    for (int b = 0, nb = r.range(2, tier ? 10 : 6); b < nb; b++) {
        for (Watch &x : ws) if (r.chance(0.8)) add_query(p, r, x, nc);
        for (int i = 0, n = r.range(1, 2); i < n; i++) if (r.chance(0.08)) p.add(0, "tune", r.below(4), r.below(64), r.below(2)); else gen_change(r, p, s, false);
        if (r.chance(0.2)) ws[r.below(ws.size())] = gen_query(r, s, maxcost, w);
    }
    for (Watch &x : ws) add_query(p, r, x, nc);
    finish_sched(r, p);
}
void gen11(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 11);
    Shape s; int depth = r.chance(0.25) ? 0 : r.chance(0.4) ? 1 : 2;
    gen_model(r, p, s, false, depth, r.chance(0.4) ? 2 : 1);
    int nc = r.chance(0.25) ? 2 : 1; p.cfg["clients"] = nc;
    p.cfg["order"] = (long)r.below(1 << 20);
    static const double w[] = {0.2, 0.5, 1, 1, 0.2, 0.1, 1.5, 1.5};
    int maxcost = r.chance(0.1) ? 3 : 1;
    for (int b = 0, nb = r.range(3, tier ? 30 : 16); b < nb; b++) {
        gen_change(r, p, s, true);
        if (r.chance(0.35)) { Watch x = gen_query(r, s, maxcost, w); widen(r, x); add_query(p, r, x, nc); }
    }
    finish_sched(r, p);
}
void gen12(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 12);
    Shape s;
    gen_model(r, p, s, false, 2, r.chance(0.6) ? 2 : 1);
    while (s.id[CG].size() < 3 && r.chance(0.7)) new_cg(r, p, s, false);
    if (r.chance(0.25)) { int st = s.next++; p.add(0, "st", st); s.id[ST].push_back(st); if (r.chance(0.5)) p.add(0, "reb", st, r.below(20), r.below(2)); } // empty to begin with
    int nc = r.chance(0.2) ? 2 : 1; p.cfg["clients"] = nc;
    for (int b = 0, nb = r.range(3, tier ? 24 : 12); b < nb; b++) {
        int st = any(r, s.id[ST]);
        double u = r.unit();
        if (u < 0.4) p.add(0, "add", st, any(r, s.id[CG]));
        else if (u < 0.75) p.add(0, "rem", st, any(r, s.id[CG]));
        else if (u < 0.85) { int a = any(r, s.id[CG]); p.add(0, "repl", a, r.chance(0.4) ? new_cg(r, p, s, false) : any(r, s.id[CG])); }
        else if (u < 0.9) for (int c : s.id[CG]) { p.add(0, "rem", st, c); p.add(0, "rem", st, c); }
        else gen_change(r, p, s, false);
        if (r.chance(0.5)) { Watch x = {ST, st, (int)r.below(r.chance(0.35) ? 11 : 8), (long)r.below(12)}; add_query(p, r, x, nc); }
    }
    finish_sched(r, p);
}
void gen13(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 13);
    Shape s; int depth = r.chance(0.2) ? 0 : r.chance(0.45) ? 1 : 2;
    gen_model(r, p, s, true, depth, 1);
    int nc = r.chance(0.3) ? r.range(2, 3) : 1; p.cfg["clients"] = nc;
    static const double w[] = {0.1, 0.1, 0.8, 2, 0.05, 0.2, 2, 2};
    int maxcost = r.chance(tier ? 0.3 : 0.15) ? 3 : r.chance(0.4) ? 2 : 1;
    for (int b = 0, nb = r.range(1, 4); b < nb; b++) {
        for (int i = 0, n = r.range(1, 3); i < n; i++) {
            std::vector<int> all = s.id[DET];
            for (int k : {(int)PROB, (int)LOSS}) all.insert(all.end(), s.id[k].begin(), s.id[k].end());
            long nth = r.chance(0.4) ? (long)r.range(1, 5) : 1 + (long)r.below(r.chance(0.5) ? 40 : 600);
            p.add(0, "fault", any(r, all), nth, r.below(3), r.chance(0.4));
        }
        for (int i = 0, n = nc > 1 ? r.range(2, 6) : 1; i < n; i++) { Watch x = gen_query(r, s, maxcost, w); widen(r, x); add_query(p, r, x, nc); }
        p.add(0, "barrier");
    }
    finish_sched(r, p);
}
void gen15(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 15);
    Shape s; int depth = r.chance(0.25) ? 0 : r.chance(0.45) ? 1 : 2;
    gen_model(r, p, s, false, depth, r.chance(0.2) ? 2 : 1);
    int nc = r.chance(0.4) ? r.range(2, 3) : 1; p.cfg["clients"] = nc;
    static const double w[] = {0.1, 0.1, 1.2, 2, 0.1, 0.2, 2, 2};
    int maxcost = r.chance(tier ? 0.3 : 0.15) ? 3 : r.chance(0.5) ? 2 : 1;
    for (int b = 0, nb = r.range(1, 5); b < nb; b++) {
        if (r.chance(0.85)) {
            static const int window[] = {0, 1, 2, 3, 5, 200};
            int w = r.chance(0.3) ? 0 : window[r.below(6)];
            long k = w == 0 ? (r.chance(0.5) ? (long)r.below(12) : (long)r.below(r.chance(0.6) ? 120 : 3000)) : (long)r.below(w == 1 ? 15 : w <= 3 ? 30 : r.chance(0.5) ? 60 : 250);
            p.add(0, "oom", k, r.chance(0.6) ? 1 : r.chance(0.7) ? r.range(2, 6) : r.range(7, 60), w);
        }
        for (int i = 0, n = nc > 1 ? r.range(2, 6) : r.range(1, 2); i < n; i++) { Watch x = gen_query(r, s, maxcost, w); widen(r, x); add_query(p, r, x, nc); }
        p.add(0, "barrier");
        if (r.chance(0.3)) gen_change(r, p, s, false);
    }
    finish_sched(r, p);
}
void add_oom(Rng &r, Plan &p) {
    static const int window[] = {0, 1, 2, 3, 5, 200};
    int w = r.chance(0.5) ? 0 : window[r.below(6)];
    double u = r.unit();
    p.add(0, "oom", u < 0.45 ? (long)r.below(8) : u < 0.8 ? (long)r.below(30) : (long)r.below(120), r.chance(0.7) ? 1 : r.chance(0.7) ? r.range(2, 6) : 1000, w);
}
void gen18(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 18);
    Shape s; int depth = r.chance(0.25) ? 0 : r.chance(0.4) ? 1 : 2;
    double often = r.chance(0.5) ? 0.15 : 0.5;
    Plan t;
    auto take = [&](double with) { for (Op &o : t.ops) { bool f = r.chance(with); if (f) add_oom(r, p); p.ops.push_back(o); if (f && r.chance(0.7)) p.ops.push_back(o); } t.ops.clear(); };
    gen_model(r, t, s, false, depth, r.chance(0.4) ? 2 : 1);
    take(r.chance(0.5) ? 0 : 0.1);
    int nc = r.chance(0.25) ? 2 : 1; p.cfg["clients"] = nc;
    p.cfg["order"] = (long)r.below(1 << 20);
    static const double w[] = {0.2, 0.5, 1, 1, 0.2, 0.1, 1.5, 1.5};
    int maxcost = r.chance(tier ? 0.2 : 0.08) ? 3 : r.chance(0.15) ? 2 : 1;
    std::vector<Watch> ws;
    for (int i = 0, n = r.range(1, 4); i < n; i++) { Watch x = gen_query(r, s, maxcost, w); widen(r, x); ws.push_back(x); }
    for (int b = 0, nb = r.range(2, tier ? 24 : 12); b < nb; b++) {
        if (r.chance(0.05)) t.add(0, "clear"); else gen_change(r, t, s, r.chance(0.5));
        take(often);
        if (r.chance(0.6)) for (Watch &x : ws) if (r.chance(0.6)) add_query(p, r, x, nc);
        if (r.chance(0.15)) { Watch &x = ws[r.below(ws.size())]; x = gen_query(r, s, maxcost, w); widen(r, x); }
    }
    for (Watch &x : ws) add_query(p, r, x, nc);
    finish_sched(r, p);
}
void gen17(Rng &r, Plan &p, int tier) {
    common_cfg(r, p, 17);
    p.cfg["order"] = (long)r.below(1 << 20);
    Shape s;
    // inputs all clients share
    if (r.chance(0.75)) {
        for (int i = 0, n = r.range(0, 2); i < n; i++) new_det(r, p, s, (int)r.below(3));
        if (r.chance(0.8)) { new_im(r, p, s); if (r.chance(0.7)) new_edp(r, p, s, false); }
        if (r.chance(0.5)) new_frag(r, p, s);
        if (r.chance(0.5)) new_loss(r, p, s, false);
        if (!s.id[EDPK].empty() && !s.id[FRAG].empty() && !s.id[LOSS].empty() && r.chance(0.6)) new_cg(r, p, s, false);
    }
    int nshared = s.next, nc = r.range(2, 4);
    p.cfg["nshared"] = nshared; p.cfg["clients"] = nc;
    p.add(0, "start");
    static const double w[] = {0.3, 0.4, 1, 1.5, 0.2, 0.1, 2, 2};
    // sometimes the clients all ask for the same kinds of result, also for the expensive ones, so that they are at the same place at once
    bool alike = r.chance(0.45); int together = r.chance(tier ? 0.4 : 0.25) ? 3 : r.chance(0.3) ? 2 : 1, depth = (int)r.below(3);
    std::vector<Watch> theirs;
    for (int c = 0; c < nc; c++) {
        Shape mine = s; Plan t;
        int maxcost = alike ? together : r.chance(tier ? 0.15 : 0.06) ? 3 : r.chance(0.15) ? 2 : 1;
        gen_model(r, t, mine, false, alike ? depth : (int)r.below(3), s.id[IMK].empty() || r.chance(0.5));
        std::vector<Watch> ws;
        for (int i = 0, n = alike && maxcost == 3 ? r.range(1, 2) : r.range(1, 3); i < n; i++) {
            Watch x = gen_query(r, mine, maxcost, w); widen(r, x);
            if (alike && c > 0 && r.chance(0.8)) { x = any(r, theirs); if (mine.id[x.kind].empty()) { x = gen_query(r, mine, maxcost, w); widen(r, x); } else x.id = any(r, mine.id[x.kind]); }
            ws.push_back(x); if (c == 0) theirs.push_back(x);
        }
        for (int i = 0, n = maxcost == 3 ? r.range(1, tier ? 6 : 4) : r.range(2, tier ? 16 : 9); i < n; i++) {
            double u = i == 0 && alike ? 0 : r.unit();
            if (u < 0.5) add_query(t, r, any(r, ws), 1);
            else if (u < 0.55) t.add(0, "clear");
            else if (u < 0.6) { ws[r.below(ws.size())] = gen_query(r, mine, maxcost, w); }
            else for (int tries = 0; tries < 12; tries++) { gen_change(r, t, mine, true); if (!changes_shared(t.ops.back(), nshared)) break; t.ops.pop_back(); }
        }
        for (Op &o : t.ops) { o.client = c; p.ops.push_back(o); }
    }
    finish_sched(r, p);
}
Workload w17("C17", gen17, exec17, probes);
Workload w18("C18", gen18, exec, probes);
Workload w15("C15", gen15, exec, probes);
Workload w4("C04", gen4, exec, probes), w5("C05", gen5, exec, probes), w11("C11", gen11, exec, probes), w12("C12", gen12, exec, probes), w13("C13", gen13, exec, probes);
}
