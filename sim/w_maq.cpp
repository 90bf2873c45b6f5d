// C08, C09: integration statistics and honest, bounded integration under failing integrands and concurrent integrations.
#include "plan.h"
#include "maq.h"
#include <cmath>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <omp.h>
using namespace SLAT::Integration;
using namespace sim;

namespace {
enum { NFORM = 11 };
enum Fault { F_NONE = 0, F_NAN_FROM, F_NAN_AT, F_NAN_ABOVE, F_NAN_BELOW, F_THROW, F_THROW_ODD, F_NFAULT };
enum { PR_OK = 0, PR_LIMIT, PR_NAN, PR_SEARCHFAIL, PR_THROWN, PR_PAR, PR_NESTED, PR_NAN_SEARCH, PR_NAN_LAST, PR_FORMAT, PR_LIMIT_LOW, PR_MIXED, PR_INTEAM };
const char *const names[] = {"integration_succeeded", "integration_limit_exhausted", "integrand_not_a_number", "search_found_nothing", "integrand_threw", "concurrent_integrations", "integration_within_an_integration",
    "not_a_number_only_during_search", "not_a_number_at_the_last_evaluation", "report_compared", "limit_below_search_effort", "batch_with_different_outcomes", "integration_inside_parallel_region", NULL};

struct IntError : std::runtime_error { long token; explicit IntError(long t) : std::runtime_error("integrand"), token(t) {} };
struct Odd { long token; };
struct Spec { int form; long p; int fault; long k; long token; };

double shape(int form, long p, double x) {
    double s = 0.2 + 0.35 * (double)(p % 9), m = 0.3 + 0.9 * (double)(p % 7);
    switch (form % NFORM) {
    case 0: return exp(-x / s);
    case 1: { double u = (x - m) / (0.02 * s); return u * u > 1400 ? 0 : exp(-u * u / 2); }
    case 2: return 0;
    case 3: return s / ((1 + x) * (1 + x) * (1 + x));
    case 4: return x < m ? s : 0;
    case 5: return x > 1e4 ? 0 : exp(-x / s) * (1 + 0.9 * sin(9 * x));
    case 6: return -exp(-x / s);
    case 7: return 1e-20 * exp(-x / s);
    case 8: return 0.001;                                     // diverges: the limit is exhausted
    case 9: { double u = (x - 40 * m) / s; return u * u > 1400 ? 0 : 5 * exp(-u * u / 2); }
    default: return x > 1e4 ? 0 : x * exp(-x * x / s);
    }
}
struct Out {
    bool threw = false, wrong_throw = false; double v = 0; bool ok = false; unsigned ev = 0;
    long calls = 0, first_nan = 0, last_nan = 0, thrown = 0; long nested = 0;
};
struct Evals { const Spec *s; Out *o; int depth; };
Out integrate(const Spec &s, int depth);
double evaluate(const Evals &e, double x) {
    const Spec &s = *e.s; Out &o = *e.o;
    long n; { NoPreempt np; n = ++o.calls; }
    if (n % 5 == 1) point();
    double v = shape(s.form, s.p, x);
    bool nan = false;
    switch (s.fault) {
    case F_NAN_FROM: nan = n >= s.k; break;
    case F_NAN_AT: nan = n == s.k; break;
    case F_NAN_ABOVE: nan = x > 0.05 * (double)s.k; break;
    case F_NAN_BELOW: nan = x < 0.05 * (double)s.k; break;
    case F_THROW: if (n == s.k) { o.thrown++; count(C_EXC); throw IntError(s.token); } break;
    case F_THROW_ODD: if (n == s.k) { o.thrown++; count(C_EXC); throw Odd{s.token}; } break;
    }
    if (e.depth < 2 && (s.p / 64) % 4 == 1 && s.form % 3 == 0 && n <= 6) {  // as a loss integrated over demands integrated over intensities
        Spec in = {(int)((s.p / 256) % NFORM), s.p + n % 3, F_NONE, 0, 0};
        if (in.form == 8) in.form = 3;
        Out i = integrate(in, e.depth + 1);
        o.nested += i.calls + i.nested;
        if (i.threw) violation("threw", "an integration threw although its integrand did not");
        v *= i.ok ? 1 + std::fabs(i.v) / (1 + std::fabs(i.v)) : 1;
        probe(PR_NESTED);
    }
    if (nan || v != v) { if (!o.first_nan) { o.first_nan = n; count(C_NANFAULT); } o.last_nan = n; return NAN; }
    return v;
}
Out integrate(const Spec &s, int depth) {
    Out o; Evals e = {&s, &o, depth};
    if (omp_in_parallel()) probe(PR_INTEAM);
    try {
        MAQ_RESULT r = MAQ([e](double x) { return evaluate(e, x); });
        o.v = r.integral; o.ok = r.successful; o.ev = r.evaluations;
    }
    catch (IntError &x) { o.threw = true; o.wrong_throw = s.fault != F_THROW || x.token != s.token; }
    catch (Odd &x) { o.threw = true; o.wrong_throw = s.fault != F_THROW_ODD || x.token != s.token; }
    catch (std::exception &x) { o.threw = true; o.wrong_throw = true; }
    return o;
}

struct Stat { double c[9]; };
const char *const stat_name[9] = {"calls", "successes", "integration failures", "search failures", "not-a-number results", "total integration evaluations", "total search evaluations", "maximum integration evaluations", "maximum search evaluations"};
const char *const label[9] = {"Number of Calls", "Successes", "Integration Failures", "Number Search Fails", "NANs", "Total Integration Evals", "Total Search Evals", "Max Integration Evals", "Max Search Evals"};
Stat stat_now() {
    const IntegrationStats *s = get_statistics();
    return {{(double)s->calls, (double)s->successes, (double)s->number_integration_fails, (double)s->number_search_fails, (double)s->nans, (double)s->total_integrations_evals, (double)s->total_search_evals, (double)s->max_successful_integration, (double)s->max_successful_search}};
}
void combine(Stat &a, const Stat &b) { for (int i = 0; i < 7; i++) a.c[i] += b.c[i]; for (int i = 7; i < 9; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Item { const Op *op; Spec s; Out seq, par; Stat st; };
struct World { const Plan *p; int mode; unsigned L, S; bool configured; };
World *W;

Spec spec_of(const Op &op) { return {(int)(op.a[0] % NFORM), op.a[1], (int)(op.a[2] % F_NFAULT), op.a[3], op.a[4]}; }
std::string show(const Spec &s) { char b[160]; snprintf(b, sizeof b, "integrand %d/%ld with fault %d at %ld (limits %u/%u)", s.form, s.p, s.fault, s.k, W->L, W->S); return b; }
std::string show(const Out &o) { char b[160]; if (o.threw) snprintf(b, sizeof b, "an exception%s", o.wrong_throw ? " of another kind" : ""); else snprintf(b, sizeof b, "%.17g, %s, %u evaluations", o.v, o.ok ? "successful" : "unsuccessful", o.ev); return b; }
bool eq(double a, double b) { return a == b || (a != a && b != b); }

// what must hold for one integration; st is set if the statistics belong to this integration alone
void honest(const Spec &s, const Out &o, const Stat *st) {
    std::string d = show(s);
    if (o.threw) {
        if (o.wrong_throw || !o.thrown) violation("wrong-exception", "%s ended in an exception which its integrand did not throw", d.c_str());
        probe(PR_THROWN); return;
    }
    if (o.thrown) violation("swallowed", "%s: the integrand threw, but the integration returned %s", d.c_str(), show(o).c_str());
    if (o.ok && o.v != o.v) violation("success-nan", "%s was reported as successful with a not-a-number value", d.c_str());
    if (!o.ok && o.v == o.v) violation("failure-number", "%s was reported as unsuccessful with the value %.17g", d.c_str(), o.v);
    long bound = 4L * W->S + 2L * W->L + 16;
    if (o.calls > bound) violation("unbounded", "%s made %ld evaluations of its integrand", d.c_str(), o.calls);
    if (s.fault == F_NAN_FROM && o.first_nan && o.ok) violation("nan-unnoticed", "%s: the integrand was not-a-number from evaluation %ld to the last one (%ld), but the result was %s", d.c_str(), o.first_nan, o.calls, show(o).c_str());
    if (o.last_nan == o.calls && o.calls > 0 && o.last_nan && o.ok) violation("nan-unnoticed", "%s: the integrand was not-a-number at the last evaluation (%ld), but the result was %s", d.c_str(), o.calls, show(o).c_str());
    if (st && o.nested == 0) {
        long search = (long)st->c[6]; bool sf = st->c[3] > 0;
        if (!sf && o.last_nan > search && o.ok) violation("nan-unnoticed", "%s: the integrand was not-a-number at evaluation %ld, after the search (%ld evaluations), but the result was %s", d.c_str(), o.last_nan, search, show(o).c_str());
        if (!sf && o.ok && o.ev > W->L) violation("limit-ignored", "%s took %u evaluations and was reported as successful", d.c_str(), o.ev);
        if (!sf && search >= (long)W->L) { probe(PR_LIMIT_LOW); if (o.ok) violation("limit-ignored", "%s had used %ld evaluations for the search alone and was reported as successful", d.c_str(), search); }
        if (o.last_nan && !sf && o.last_nan <= search) probe(PR_NAN_SEARCH);
        if (sf) probe(PR_SEARCHFAIL); else if (o.ok) probe(PR_OK); else if (o.last_nan) { probe(PR_NAN); if (o.last_nan == o.calls) probe(PR_NAN_LAST); } else probe(PR_LIMIT);
    }
}
// the statistics of a single integration
void single(const Spec &s, const Out &o, const Stat &t) {
    if (o.nested) return;
    std::string d = show(s);
    if (t.c[0] != 1) violation("stats:calls", "%s was counted as %g calls", d.c_str(), t.c[0]);
    double outcomes = t.c[1] + t.c[2] + t.c[3] + t.c[4];
    if (o.threw) { if (outcomes != 0) violation("stats:outcome", "%s threw but was counted as %g results", d.c_str(), outcomes); return; }
    if (outcomes != 1) violation("stats:outcome", "%s was counted as %g successes, %g integration failures, %g search failures and %g not-a-number results", d.c_str(), t.c[1], t.c[2], t.c[3], t.c[4]);
    if ((t.c[1] + t.c[3] == 1) != o.ok) violation("stats:outcome", "%s returned %s but was counted as %s", d.c_str(), show(o).c_str(), t.c[1] ? "a success" : "a failure");
    if (!o.ok && (t.c[4] == 1) != (o.last_nan > (long)t.c[6])) violation("stats:outcome", "%s %s, but was counted as %g not-a-number results", d.c_str(), o.last_nan ? "met not-a-number" : "never met not-a-number", t.c[4]);
    if (t.c[3] == 1 ? t.c[5] != 0 || t.c[6] != o.calls : t.c[5] != o.ev) violation("stats:evaluations", "%s took %u evaluations (%ld calls of the integrand), counted as %g and %g for the search", d.c_str(), o.ev, o.calls, t.c[5], t.c[6]);
    if (t.c[8] != t.c[6]) violation("stats:maximum", "after %s alone, the maximum of search evaluations is %g and their total %g", d.c_str(), t.c[8], t.c[6]);
    if (o.ok && !t.c[3] && t.c[7] != o.ev) violation("stats:maximum", "after %s alone, which took %u evaluations, the maximum is %g", d.c_str(), o.ev, t.c[7]);
}
void check_report(const Stat &want) {
    std::ostringstream os; format_statistics(os);
    std::istringstream is(os.str()); std::string l; std::map<std::string, std::string> m;
    while (std::getline(is, l)) { size_t c = l.find(':'); if (c != std::string::npos) m[l.substr(0, c)] = l.substr(c + 1); }
    probe(PR_FORMAT);
    for (int i = 0; i < 9; i++) {
        char *e; const std::string &v = m[label[i]]; double x = strtod(v.c_str(), &e);
        if (e == v.c_str() || x != want.c[i]) violation("report", "the report shows '%s:%s' instead of %g", label[i], v.c_str(), want.c[i]);
    }
}
struct CArg { std::vector<Item> *v; int n; };
void run_client(const CArg &a, int c) {
    for (Item &i : *a.v) if (i.op->client % a.n == c) {
        set_note("%s", show(i.s).c_str());
        i.par = integrate(i.s, 0);
        set_note("idle"); count(C_OPS); event_d(0x909, i.par.v); progress();
    }
}
void thread_client(void *v, int c) { run_client(*(CArg *)v, c); }

void batch(std::vector<Item> &v) {
    World &w = *W;
    if (v.empty()) return;
    Stat sum = {{0}};
    bool before = w.p->get("before", 1) != 0;
    auto reference = [&] {
        for (Item &i : v) {
            reset_statistics();
            Stat z = stat_now();
            for (int k = 0; k < 9; k++) if (z.c[k] != 0) violation("stats:reset", "%s are %g after a reset", stat_name[k], z.c[k]);
            set_note("reference %s", show(i.s).c_str());
            i.seq = integrate(i.s, 0);
            i.st = stat_now();
            honest(i.s, i.seq, &i.st);
            if (w.mode == 8) single(i.s, i.seq, i.st);
            combine(sum, i.st);
            if (w.mode == 9 && i.seq.ok && !i.seq.threw && i.st.c[3] == 0 && !i.seq.nested && w.p->get("limits")) {
                // the same integration with a lower limit
                unsigned l = 1 + (unsigned)((unsigned long)i.op->a[5] % (i.seq.ev + 3));
                IntegrationSettings::Set_Integration_Eval_Limit(l);
                unsigned L = w.L; w.L = l;
                count(C_LIMITFAULT);
                reset_statistics();
                Out o = integrate(i.s, 0);
                Stat t = stat_now();
                honest(i.s, o, &t);
                if (l < i.seq.ev && o.ok && !o.threw) violation("limit-ignored", "%s needs %u evaluations, but was reported as successful", show(i.s).c_str(), i.seq.ev);
                w.L = L;
                IntegrationSettings::Set_Integration_Eval_Limit(L);
            }
            progress();
        }
    };
    if (before) reference();
    reset_statistics();
    CArg a = {&v, (int)w.p->get("clients", 2)};
    probe(PR_PAR);
    if (w.p->get("omp", 1)) {
#pragma omp parallel num_threads(a.n)
        for (int c = omp_get_thread_num(); c < a.n; c += omp_get_num_threads()) run_client(a, c);
    } else run_threads(a.n, thread_client, &a);
    Stat got = stat_now();
    std::ostringstream rep; format_statistics(rep);
    if (w.mode == 8) check_report(got);
    if (!before) reference();
    int kinds[3] = {0, 0, 0};
    for (Item &i : v) {
        honest(i.s, i.par, NULL);
        kinds[i.par.threw ? 2 : i.par.ok ? 1 : 0] = 1;
        if (i.par.threw != i.seq.threw || (!i.par.threw && (!eq(i.par.v, i.seq.v) || i.par.ok != i.seq.ok || i.par.ev != i.seq.ev)))
            violation("affected", "%s: %s among other integrations, %s alone", show(i.s).c_str(), show(i.par).c_str(), show(i.seq).c_str());
    }
    if (kinds[0] + kinds[1] + kinds[2] > 1) probe(PR_MIXED);
    if (w.mode == 8) for (int k = 0; k < 9; k++) if (got.c[k] != sum.c[k])
        violation((std::string("stats:") + stat_name[k]).c_str(), "after %zu integrations by %d threads the %s are %g; the same integrations one at a time give %g", v.size(), a.n, stat_name[k], got.c[k], sum.c[k]);
    v.clear();
}
void exec(const Plan &p) {
    set_hang_budget(60 << 20);
    World w; W = &w; w.p = &p; w.mode = (int)p.get("mode", 9);
    std::vector<Item> items;
    auto apply = [&](long method, long tol, long L, long S) {
        static const double T[] = {1e-3, 0.3, 0.05, 1e-2, 0.8};
        IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)(method % 5));
        IntegrationSettings::Set_Tolerance(T[tol % 5]);
        w.L = (unsigned)(L < 1 ? 1 : L); w.S = (unsigned)(S < 1 ? 1 : S);
        IntegrationSettings::Set_Integration_Eval_Limit(w.L); IntegrationSettings::Set_Integration_Search_Limit(w.S);
    };
    apply(4, 1, 200, 200);
    for (size_t i = 0; i <= p.ops.size(); i++) {
        const Op *op = i < p.ops.size() ? &p.ops[i] : NULL;
        if (op && op->kind == "int") { Item it; it.op = op; it.s = spec_of(*op); items.push_back(it); continue; }
        batch(items); items.clear();
        if (op && op->kind == "set") apply(op->a[0], op->a[1], op->a[2], op->a[3]);
    }
}
void gen(Rng &r, Plan &p, int mode, int tier) {
    p.cfg["mode"] = mode;
    int nc = r.range(2, 5); p.cfg["clients"] = nc; p.cfg["omp"] = r.chance(0.6); p.cfg["before"] = r.chance(0.6); p.cfg["limits"] = mode == 9;
    for (int b = 0, nb = r.range(1, tier ? 5 : 3); b < nb; b++) {
        long L = r.chance(0.2) ? r.range(1, 12) : r.chance(0.6) ? r.range(20, 300) : r.range(300, 2048);
        long S = r.chance(0.2) ? r.range(1, 8) : r.chance(0.7) ? r.range(10, 120) : r.range(120, 2048);
        p.add(0, "set", r.below(5), r.below(5), L, S);
        for (int i = 0, n = r.range(1, mode == 8 ? 14 : 8); i < n; i++) {
            int fault = r.chance(mode == 8 ? 0.6 : 0.3) ? 0 : (int)r.below(F_NFAULT);
            long k = fault == F_NAN_ABOVE || fault == F_NAN_BELOW ? (long)r.below(100) : r.chance(0.5) ? 1 + (long)r.below(12) : 1 + (long)r.below(150);
            p.add((int)r.below(nc), "int", r.below(NFORM), r.below(64) + 64 * (long)r.below(64), fault, k, 100 + i, r.below(3000));
        }
    }
}
void gen8(Rng &r, Plan &p, int t) { gen(r, p, 8, t); }
void gen9(Rng &r, Plan &p, int t) { gen(r, p, 9, t); }
Workload w8("C08", gen8, exec, names), w9("C09", gen9, exec, names);
}
