// C10: diagnostic context belongs to the thread that set it.
#include "plan.h"
#include <algorithm>
#include <functional>
#include <ostream>
#include "context.h"
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <omp.h>
using namespace SLAT;
using namespace sim;

namespace {
enum { PR_READ = 0, PR_PAR, PR_ONE, PR_NEST, PR_NEST_IN_ONE, PR_THROW, PR_LAZY, PR_SIZES, PR_DEEP, PR_SERIAL_AFTER, PR_NONEMPTY, PR_SIBLINGS, PR_PLAIN, PR_PLAIN_OVERLAP };
const char *const names[] = {"context_read", "parallel_region", "team_of_one", "nested_region", "region_nested_in_team_of_one", "scope_left_by_exception", "context_given_as_function", "teams_of_different_sizes",
    "context_of_three_or_more_levels", "read_after_parallel_region", "nonempty_context_read", "read_while_sibling_has_context", "threads_which_are_in_no_team", "scopes_of_such_threads_overlap", NULL};

struct Node { const Op *op; std::vector<Node> kids; };
// "par n mask" / "scope mask" open a block, "end" closes it; missing and superfluous ends do no harm
size_t parse(const std::vector<Op> &ops, size_t i, std::vector<Node> &out, int depth) {
    while (i < ops.size()) {
        const Op &op = ops[i++];
        if (op.kind == "end") { if (depth) return i; continue; }
        Node n; n.op = &op;
        if (op.kind == "par" || op.kind == "scope" || op.kind == "throw") i = parse(ops, i, n.kids, depth + 1);
        out.push_back(n);
    }
    return i;
}
struct Leave : std::runtime_error { int id; explicit Leave(int i) : std::runtime_error("leave"), id(i) {} };
long serial = 0, entered = 0;
std::string path(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ", ") + x; return "(" + s + ")"; }

// Threads in no team: which scopes are open, and when each was left. (Texts of such threads appear in each other's
// contexts: a known finding, reported by runs with "strict". The others check what holds nevertheless: nobody's own text
// is missing or out of order, and no text of a scope left before is seen, or its function called.)
int plain = 0; bool strict = false; long clock_ = 0;
std::vector<long> left_at;
long tick() { NoPreempt np; return ++clock_; }
void mark_left(long s) { NoPreempt np; if ((size_t)s >= left_at.size()) left_at.resize((size_t)s + 1); left_at[(size_t)s] = ++clock_; }
long when_left(long s) { NoPreempt np; return (size_t)s < left_at.size() ? left_at[(size_t)s] : 0; }

void read(const std::vector<std::string> &mine) {
    long since = tick();
    set_note("read the context");
    std::string t = Context::GetText();
    set_note("idle");
    std::vector<std::string> got; std::string cur;
    for (char c : t + "/") if (c == '/') { if (!cur.empty()) got.push_back(cur); cur.clear(); } else cur += c;
    probe(PR_READ); if (!mine.empty()) probe(PR_NONEMPTY); if (mine.size() > 2) probe(PR_DEEP);
    if (entered > (long)mine.size()) probe(PR_SIBLINGS);
    if (plain && got != mine) {
        std::vector<std::string> own;
        for (auto &g : got) {
            if (std::find(mine.begin(), mine.end(), g) != mine.end()) { own.push_back(g); continue; }
            long s = atol(g.c_str() + 1), left = when_left(s);
            probe(PR_PLAIN_OVERLAP);
            if (left && left < since) violation("context-stale", "the context is %s, although '%s' was left before", path(got).c_str(), g.c_str());
        }
        if (own != mine) violation("context-lost", "thread in no team: the context is %s instead of %s", path(got).c_str(), path(mine).c_str());
        if (strict) violation("context-mixed", "thread in no team: the context is %s instead of %s", path(got).c_str(), path(mine).c_str());
    } else if (got != mine) {
        bool subset = got.size() < mine.size();
        violation(subset ? "context-lost" : "context-mixed", "at level %d, thread %d of %d: the context is %s instead of %s", omp_get_level(), omp_get_thread_num(), omp_get_num_threads(), path(got).c_str(), path(mine).c_str());
    }
    count(C_OPS); event(0xC0, got.size()); progress();
}
void run(const std::vector<Node> &nodes, std::vector<std::string> &mine, int levels, int last_size) {
    for (const Node &n : nodes) {
        const Op &op = *n.op;
        long mask = op.a[1];
        if (mask > 0 && (omp_get_thread_num() % (mask % 4 + 1)) != (op.a[2] % (mask % 4 + 1))) continue;
        if (op.kind == "read") { read(mine); if (levels == 0 && last_size) probe(PR_SERIAL_AFTER); }
        else if (op.kind == "scope" || op.kind == "throw") {
            long s; { NoPreempt np; s = ++serial; entered++; }
            std::string text = "t" + std::to_string(s) + (op.a[3] % 3 == 0 ? " with spaces" : op.a[3] % 3 == 1 ? "-" + std::string((size_t)(op.a[3] % 40), 'x') : "");
            size_t depth = mine.size();
            set_note("enter context %s", text.c_str());
            bool thrown = op.kind == "throw";
            try {
                // (the function belongs to an object which ends with the scope, as in the library)
                std::unique_ptr<std::string> owner(new std::string(text));
                std::string *obj = owner.get();
                struct Left { long s; ~Left() { if (plain) mark_left(s); } } left = {s};
                std::unique_ptr<TempContext> c;
                if (op.a[4] % 2) { probe(PR_LAZY); c.reset(new TempContext([obj](std::ostream &o) { o << *obj; })); }
                else c.reset(new TempContext(text));
                set_note("idle");
                mine.push_back(text);
                run(n.kids, mine, levels, last_size);
                if (thrown) { probe(PR_THROW); throw Leave((int)s); }
                set_note("leave context %s", text.c_str());
            } catch (Leave &l) { if (!thrown || l.id != s) throw; }
            set_note("idle");
            mine.resize(depth);
            NoPreempt np; entered--;
        } else if (op.kind == "par" && levels < 5 && !plain) {
            int size = (int)(op.a[0] % 6);
            std::vector<std::string> base = mine;
            probe(PR_PAR); if (levels) probe(PR_NEST); if (levels && omp_get_num_threads() == 1) probe(PR_NEST_IN_ONE);
            if (last_size && size && last_size != size) probe(PR_SIZES);
            if (size) {
#pragma omp parallel num_threads(size)
                { if (omp_get_num_threads() == 1) probe(PR_ONE); std::vector<std::string> m = base; run(n.kids, m, levels + 1, 0); }
            } else {
#pragma omp parallel
                { if (omp_get_num_threads() == 1) probe(PR_ONE); std::vector<std::string> m = base; run(n.kids, m, levels + 1, 0); }
            }
            last_size = size;
        }
        point();
    }
}
void exec(const Plan &p) {
    set_hang_budget(4 << 20);
    if (p.get("init")) Context::Initialise();
    plain = (int)p.get("plain", 0); strict = p.get("strict", 0) != 0;
    if (plain) {
        probe(PR_PLAIN);
        static std::vector<std::vector<Op>> ops; static std::vector<std::vector<Node>> top;
        ops.assign(plain, {}); top.assign(plain, {});
        for (const Op &op : p.ops) ops[op.client % plain].push_back(op);
        for (int c = 0; c < plain; c++) parse(ops[c], 0, top[c], 0);
        run_threads(plain, [](void *, int c) { std::vector<std::string> mine; read(mine); run(top[c], mine, 0, 0); read(mine); }, NULL);
        plain = 0; // (all scopes have been left)
        read({});
        return;
    }
    std::vector<Node> top; parse(p.ops, 0, top, 0);
    std::vector<std::string> mine;
    run(top, mine, 0, 0);
    read(mine);
}
void gen_plain(Rng &r, Plan &p, int c, int depth, int &budget) {
    for (int i = 0, n = r.range(1, 4); i < n && budget > 0; i++) {
        budget--;
        if (r.chance(0.35)) { p.add(c, "read"); continue; }
        p.add(c, r.chance(0.15) ? "throw" : "scope", 0, 0, 0, r.below(120), r.below(2));
        if (r.chance(0.7)) p.add(c, "read");
        if (depth < 4) gen_plain(r, p, c, depth + 1, budget);
        if (r.chance(0.4)) p.add(c, "read");
        p.add(c, "end");
    }
}
int gen_block(Rng &r, Plan &p, int depth, int levels, int budget) {
    for (int i = 0, n = r.range(1, 4); i < n && budget > 0; i++) {
        double u = r.unit();
        long mask = levels && r.chance(0.45) ? r.range(1, 3) : 0, which = (long)r.below(4);
        budget--;
        if (u < 0.3) p.add(0, "read", 0, mask, which);
        else if (u < 0.7) {
            p.add(0, r.chance(0.15) ? "throw" : "scope", 0, mask, which, r.below(120), r.below(2));
            if (r.chance(0.7)) p.add(0, "read", 0, r.chance(0.3) ? 1 : 0, r.below(4));
            if (depth < 7) budget = gen_block(r, p, depth + 1, levels, budget);
            if (r.chance(0.5)) p.add(0, "read");
            p.add(0, "end");
        } else if (levels < 4 && depth < 7) {
            p.add(0, "par", r.chance(0.15) ? 0 : r.range(1, levels ? 3 : 5), mask, which);
            budget = gen_block(r, p, depth + 1, levels + 1, budget);
            p.add(0, "end");
            if (r.chance(0.4)) p.add(0, "read");
        }
    }
    return budget;
}
void gen(Rng &r, Plan &p, int tier) {
    p.cfg["init"] = r.chance(0.3);
    if (r.chance(0.15)) {
        p.cfg["plain"] = r.range(2, 4); p.cfg["strict"] = r.chance(0.05);
        for (int c = 0; c < p.cfg["plain"]; c++) { int b = r.range(3, tier ? 20 : 10); gen_plain(r, p, c, 0, b); }
        return;
    }
    for (int i = 0, n = r.range(1, tier ? 6 : 4); i < n; i++) gen_block(r, p, 0, 0, r.range(5, tier ? 40 : 24));
    if (p.sc.strat == ST_RANDOM || p.sc.strat == ST_MIXED) p.sc.rate = (int)(p.sc.rate * (long)r.range(1, 4));
}
Workload w10("C10", gen, exec, names);
}
