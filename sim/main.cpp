// Driver: batches of seeded runs, minimisation, replay. Every run is performed in a forked child.
#include "plan.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
using namespace std;
using namespace sim;

Workload *workloads;
Workload::Workload(const char *p, void (*g)(Rng &, Plan &, int), void (*e)(const Plan &), const char *const *pn)
    : prop(p), gen(g), exec(e), probe_names(pn), next(workloads) { workloads = this; }

static const char *counter_names[C_N] = {
    "steps", "preemptions", "forced_switches", "sync_points", "lock_waits", "parallel_regions", "teams_granted_fewer_threads",
    "nested_regions_serialised", "threads_stalled", "allocations", "allocation_failures", "exceptions_injected", "nan_injected",
    "operations", "max_team", "critical_section_waits", "spurious_wakeups", "overlapping_requests", "evaluation_limit_faults",
    "concurrent_invalidations", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8"};

static Workload *find(const string &p) {
    for (Workload *w = workloads; w; w = w->next) if (p == w->prop) return w;
    cerr << "no workload for " << p << endl; exit(2);
}

void gen_sched(Rng &r, Plan &p) {
    SchedCfg &s = p.sc;
    memset(&s, 0, sizeof s);
    s.seed = r.next() >> 1;
    int k = r.below(100);
    static const int rates[] = {3, 8, 20, 50, 120, 300, 1000, 4000, 20000};
    if (k < 4) s.strat = ST_NONE;
    else if (k < 30) { s.strat = ST_RANDOM; s.rate = rates[r.below(9)]; }
    else if (k < 50) { s.strat = ST_SYNC; s.sync_pct = r.range(5, 80); }
    else if (k < 75) { s.strat = ST_PCT; s.pct_depth = r.range(1, 8); s.pct_len = r.range(7, 22); }
    else { s.strat = ST_MIXED; s.rate = rates[r.below(9)]; s.sync_pct = r.range(1, 60); }
    s.stall_pct = r.chance(0.35) ? r.range(2, 30) : 0;
    static const int nts[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 8};
    s.nthreads = nts[r.below(10)];
    s.max_levels = r.chance(0.55) ? 1 : (int)r.range(2, 4);
    s.dyn_pct = r.chance(0.3) ? r.range(10, 90) : 0;
    s.reuse = r.chance(0.5);
    static const int junks[] = {0x00, 0xBE, 0xFF, 0x01, 0x7F};
    s.junk = junks[r.below(5)];
    s.spurious_pct = r.chance(0.5) ? r.range(5, 50) : 0;
    s.recycle = r.chance(0.3);
}

// ------------------------------------------------------------------------------------------------ text form
static string to_text(const Plan &p) {
    ostringstream o;
    const SchedCfg &s = p.sc;
    o << "property " << p.prop << "\nrun " << p.run << "\nseed " << p.seed << "\n";
    o << "sched " << s.seed << " " << s.strat << " " << s.rate << " " << s.sync_pct << " " << s.pct_depth << " " << s.pct_len << " "
      << s.stall_pct << " " << s.nthreads << " " << s.max_levels << " " << s.dyn_pct << " " << s.reuse << " " << s.junk << " " << s.spurious_pct << " " << s.recycle << "\n";
    for (auto &c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto &op : p.ops) {
        o << "op " << op.client << " " << op.kind;
        for (int i = 0; i < NARG; i++) o << " " << op.a[i];
        o << "\n";
    }
    return o.str();
}
struct Replay { Plan p; bool explicit_sched = false; vector<Switch> sw; string cls; uint64_t hash = 0; };
static bool parse(const string &file, Replay &r) {
    ifstream in(file);
    if (!in) return false;
    string line;
    while (getline(in, line)) {
        istringstream l(line); string k; l >> k;
        Plan &p = r.p;
        if (k == "property") l >> p.prop;
        else if (k == "run") l >> p.run;
        else if (k == "seed") l >> p.seed;
        else if (k == "sched") { SchedCfg &s = p.sc; l >> s.seed >> s.strat >> s.rate >> s.sync_pct >> s.pct_depth >> s.pct_len >> s.stall_pct >> s.nthreads >> s.max_levels >> s.dyn_pct >> s.reuse >> s.junk >> s.spurious_pct >> s.recycle; }
        else if (k == "cfg") { string n; long v; l >> n >> v; p.cfg[n] = v; }
        else if (k == "op") { Op o; l >> o.client >> o.kind; for (int i = 0; i < NARG; i++) l >> o.a[i]; p.ops.push_back(o); }
        else if (k == "explicit") r.explicit_sched = true;
        else if (k == "switch") { Switch s; string f; l >> f >> s.step >> s.to; s.forced = f == "blocked"; r.sw.push_back(s); }
        else if (k == "class") l >> r.cls;
        else if (k == "hash") l >> hex >> r.hash >> dec;
    }
    return true;
}

// ------------------------------------------------------------------------------------------------ one run
static Shared *sh;
struct RunCtx { Workload *w; const Plan *p; };
static void body(void *a) { RunCtx *c = (RunCtx *)a; c->w->exec(*c->p); }

// The workloads are instrumented too, so the shape of the plan's containers in memory must not depend on whether the plan was
// just generated, read from a file or minimised.
static Plan canonical(const Plan &a) {
    Plan p; p.prop = a.prop; p.run = a.run; p.seed = a.seed; p.sc = a.sc;
    for (auto &c : a.cfg) p.cfg[c.first] = c.second;
    for (auto &o : a.ops) p.ops.push_back(o);
    return p;
}

static void do_run(const Plan &plan, const vector<Switch> *ex) {
    const Plan p = canonical(plan);
    Workload *w = find(p.prop);
    fflush(stdout);
    sh->r.outcome = O_RUNNING;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        struct rlimit rl = {8ULL << 30, 8ULL << 30}; (void)rl;
        if (!getenv("SIM_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
        RunCtx c = {w, &p};
        Explicit e; if (ex) { e.sw = ex->data(); e.n = (int)ex->size(); }
        rt_run(p.sc, ex ? &e : NULL, body, &c, sh);
    }
    int st; waitpid(pid, &st, 0);
    if (sh->r.outcome == O_RUNNING) {
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) {
            sh->r.outcome = O_VIOLATION; strcpy(sh->r.cls, "killed-by-signal");
            snprintf(sh->r.msg, sizeof sh->r.msg, "the process died of signal %d", WTERMSIG(st));
        } else if (WIFEXITED(st)) {
            sh->r.outcome = O_VIOLATION; strcpy(sh->r.cls, "exit");
            snprintf(sh->r.msg, sizeof sh->r.msg, "the process ended itself with status %d", WEXITSTATUS(st));
        } else {
            sh->r.outcome = O_ERROR;
            snprintf(sh->r.msg, sizeof sh->r.msg, "run ended without a result (status %x)", st);
        }
    }
}

// SIM_KNOWN: file with one known finding per line, "class<TAB>text the message contains"
struct Known { string cls, text; uint64_t n; };
static vector<Known> known;
static void load_known() {
    const char *f = getenv("SIM_KNOWN"); if (!f) return;
    ifstream in(f); string l;
    while (getline(in, l)) { size_t t = l.find('\t'); if (t != string::npos) known.push_back({l.substr(0, t), l.substr(t + 1), 0}); }
}
static bool is_known(const Result &r) {
    for (auto &k : known) if (k.cls == r.cls && strstr(r.msg, k.text.c_str())) { k.n++; return true; }
    return false;
}

static double wall() { struct timeval t; gettimeofday(&t, NULL); return t.tv_sec + t.tv_usec * 1e-6; }

static uint64_t run_seed(const string &prop, uint64_t seed, uint64_t i) {
    Rng r(seed * 0x9E3779B97F4A7C15ULL + 0x51A7);
    uint64_t h = r.next();
    for (char c : prop) h = (h ^ (unsigned char)c) * 0x100000001b3ULL;
    Rng q(h + i * 0xD1342543DE82EF95ULL);
    return q.next();
}
static Plan make_plan(const string &prop, uint64_t seed, uint64_t i, int tier) {
    Plan p; p.prop = prop; p.run = i; p.seed = seed;
    Rng r(run_seed(prop, seed, i));
    gen_sched(r, p);
    find(prop)->gen(r, p, tier);
    return p;
}

static string esc(const string &s) {
    string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o;
}

static int batch(int argc, char **argv) {
    if (argc < 10) { cerr << "batch PROP SEED FIRST STRIDE MAXRUNS SECONDS TIER OUTPREFIX" << endl; return 2; }
    string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 0), first = strtoull(argv[4], 0, 0), stride = strtoull(argv[5], 0, 0);
    uint64_t maxruns = strtoull(argv[6], 0, 0); double secs = atof(argv[7]); int tier = atoi(argv[8]); string out = argv[9];
    Workload *w = find(prop);
    load_known();
    double t0 = wall();
    uint64_t runs = 0, budget = 0, rechecked = 0, tot[C_N] = {0}, pr[NPROBE] = {0}, prr[NPROBE] = {0}, strat[10] = {0};
    uint64_t multi = 0;
    set<uint64_t> sigs, hashes;
    vector<string> samples;
    int viol = 0, err = 0; uint64_t vrun = 0; string vcls, vmsg, emsg;
    for (uint64_t i = first; runs < maxruns && wall() - t0 < secs; i += stride) {
        Plan p = make_plan(prop, seed, i, tier);
        do_run(p, NULL);
        runs++;
        Result &r = sh->r;
        strat[p.sc.strat]++;
        if (r.outcome == O_ERROR) { err = 1; emsg = r.msg; vrun = i; ofstream(out + ".raw") << to_text(p); break; }
        if (r.outcome == O_BUDGET) budget++;
        if (r.counters[C_PREEMPT] + r.counters[C_FORCED] > 0) multi++;
        for (int k = 0; k < C_N; k++) if (k == C_MAXTEAM) tot[k] = max(tot[k], r.counters[k]); else tot[k] += r.counters[k];
        for (int k = 0; k < NPROBE; k++) { pr[k] += r.probes[k]; prr[k] += r.probes[k] > 0; }
        if (r.counters[C_PREEMPT] + r.counters[C_FORCED] > 0) { sigs.insert(r.sig); hashes.insert(r.hash); }
        if (samples.size() < 2 && (i - first) / stride >= 2 && r.outcome == O_OK) samples.push_back(to_text(p).substr(0, 1500));
        if (r.outcome == O_VIOLATION && is_known(r)) continue;
        if (r.outcome == O_VIOLATION) {
            viol = 1; vrun = i; vcls = r.cls; vmsg = r.msg;
            ofstream(out + ".raw") << to_text(p);
            break;
        }
        if (runs % 16 == 1) {  // determinism: the same plan must give the same event log
            uint64_t h = r.hash; int oc = r.outcome;
            do_run(p, NULL);
            rechecked++;
            if (sh->r.hash != h || sh->r.outcome != oc) {
                err = 1; vrun = i; emsg = "nondeterministic run: same plan, different event log"; ofstream(out + ".raw") << to_text(p); break;
            }
        }
    }
    ofstream o(out + ".json");
    o << "{\"runs\":" << runs << ",\"over_budget\":" << budget << ",\"rechecked\":" << rechecked << ",\"with_switches\":" << multi
      << ",\"violation\":" << viol << ",\"error\":" << err << ",\"run\":" << vrun << ",\"class\":\"" << esc(vcls) << "\",\"msg\":\"" << esc(viol ? vmsg : emsg)
      << "\",\"wall\":" << wall() - t0 << ",\"counters\":{";
    for (int k = 0; k < C_N; k++) o << (k ? "," : "") << "\"" << counter_names[k] << "\":" << tot[k];
    o << "},\"probes\":{";
    bool f = true;
    for (int k = 0; w->probe_names && w->probe_names[k]; k++) { o << (f ? "" : ",") << "\"" << w->probe_names[k] << "\":[" << pr[k] << "," << prr[k] << "]"; f = false; }
    o << "},\"strategies\":[";
    for (int k = 0; k < 10; k++) o << (k ? "," : "") << strat[k];
    o << "],\"known\":[";
    for (size_t k = 0; k < known.size(); k++) o << (k ? "," : "") << known[k].n;
    o << "],\"samples\":[";
    for (size_t k = 0; k < samples.size(); k++) o << (k ? "," : "") << "\"" << esc(samples[k]) << "\"";
    o << "]}" << endl;
    ofstream b(out + ".sig", ios::binary);
    for (uint64_t s : sigs) b.write((char *)&s, 8);
    ofstream b2(out + ".hash", ios::binary);
    for (uint64_t s : hashes) b2.write((char *)&s, 8);
    return err ? 3 : 0;
}

// ------------------------------------------------------------------------------------------------ minimisation
static string want;
static bool fails(const Plan &p, const vector<Switch> *ex) { do_run(p, ex); return sh->r.outcome == O_VIOLATION && want == sh->r.cls && !is_known(sh->r); }

static bool try_plan(Plan &cur, const Plan &cand, int seeds) {
    Plan q = cand;
    for (int k = 0; k < seeds; k++) {
        if (k) q.sc.seed = cand.sc.seed * 31 + k * 7919;
        if (fails(q, NULL)) { cur = q; return true; }
    }
    return false;
}

static int minimise(int argc, char **argv) {
    if (argc < 5) return 2;
    Replay r; if (!parse(argv[2], r)) return 2;
    load_known();
    double deadline = wall() + atof(argv[4]);
    do_run(r.p, NULL);
    if (sh->r.outcome != O_VIOLATION) { cerr << "not reproduced" << endl; return 3; }
    uint64_t h1 = sh->r.hash; want = sh->r.cls;
    do_run(r.p, NULL);
    if (sh->r.outcome != O_VIOLATION || sh->r.hash != h1) { cerr << "not deterministic" << endl; return 3; }
    Plan cur = r.p;
    size_t ops0 = cur.ops.size();
    // 1. drop operations (ddmin), with a few schedules per candidate
    size_t chunk = max<size_t>(1, cur.ops.size() / 2);
    while (wall() < deadline && !cur.ops.empty()) {
        bool any = false;
        for (size_t i = 0; i < cur.ops.size() && wall() < deadline;) {
            Plan c = cur;
            size_t e = min(c.ops.size(), i + chunk);
            c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
            if (try_plan(cur, c, 6)) any = true; else i += chunk;
        }
        if (chunk == 1) { if (!any) break; } else chunk = max<size_t>(1, chunk / 2);
    }
    // 2. simplify the environment
    for (int k = 0; k < 8 && wall() < deadline; k++) {
        Plan c = cur;
        if (k == 0 && c.sc.stall_pct) c.sc.stall_pct = 0;
        else if (k == 1 && c.sc.dyn_pct) c.sc.dyn_pct = 0;
        else if (k == 2 && c.sc.max_levels > 1) c.sc.max_levels = 1;
        else if (k == 3 && c.sc.nthreads > 2) c.sc.nthreads = 2;
        else if (k == 4 && c.sc.reuse) c.sc.reuse = 0;
        else if (k == 5 && c.sc.junk) c.sc.junk = 0;
        else if (k == 6 && c.sc.spurious_pct) c.sc.spurious_pct = 0;
        else if (k == 7 && c.sc.recycle) c.sc.recycle = 0;
        else continue;
        try_plan(cur, c, 6);
    }
    // 3. smaller arguments
    for (size_t i = 0; i < cur.ops.size(); i++)
        for (int j = 0; j < NARG && wall() < deadline; j++)
            if (cur.ops[i].a[j] != 0) { Plan c = cur; c.ops[i].a[j] = 0; if (!try_plan(cur, c, 2) && cur.ops[i].a[j] > 1) { c = cur; c.ops[i].a[j] = 1; try_plan(cur, c, 2); } }
    for (size_t i = 0; i < cur.ops.size() && wall() < deadline; i++)
        if (cur.ops[i].client != 0) { Plan c = cur; c.ops[i].client = 0; try_plan(cur, c, 2); }
    // 4. minimise the schedule: the switches that were actually taken, replayed explicitly
    bool expl = false; vector<Switch> sw;
    if (!fails(cur, NULL)) { cerr << "lost the failure" << endl; return 3; }
    size_t sw0 = sh->r.nsw;
    if (!sh->r.sw_over) {
        sw.assign(sh->sw, sh->sw + sh->r.nsw);
        if (fails(cur, &sw)) {
            expl = true;
            vector<Switch> none;
            if (fails(cur, &none)) sw = none;
            size_t ch = max<size_t>(1, sw.size() / 2);
            while (wall() < deadline && !sw.empty()) {
                bool any = false;
                for (size_t i = 0; i < sw.size() && wall() < deadline;) {
                    vector<Switch> c = sw;
                    c.erase(c.begin() + i, c.begin() + min(c.size(), i + ch));
                    if (fails(cur, &c)) { sw = c; any = true; } else i += ch;
                }
                if (ch == 1) { if (!any) break; } else ch = max<size_t>(1, ch / 2);
            }
        } else sw.clear();
    }
    if (!fails(cur, expl ? &sw : NULL)) { cerr << "lost the failure" << endl; return 3; }
    ofstream o(argv[3]);
    o << "# Replay file: run './check.py --replay THIS_FILE' in /verif\n"
      << "# minimised from " << ops0 << " operations and " << sw0 << " thread switches to " << cur.ops.size() << " operations and ";
    if (expl) o << sw.size() << " thread switches\n"; else o << "a seeded schedule\n";
    istringstream m(sh->r.msg); string line;
    while (getline(m, line)) o << "# " << line << "\n";
    istringstream d(sh->r.dump);
    while (getline(d, line)) o << "# " << line << "\n";
    o << to_text(cur);
    if (expl) { o << "explicit\n"; for (auto &s : sw) o << "switch " << (s.forced ? "blocked " : "preempt ") << s.step << " " << s.to << "\n"; }
    o << "class " << sh->r.cls << "\nhash " << hex << sh->r.hash << dec << "\n";
    return 0;
}

static int replay(int argc, char **argv) {
    if (argc < 3) return 2;
    Replay r; if (!parse(argv[2], r)) return 2;
    do_run(r.p, r.explicit_sched ? &r.sw : NULL);
    Result &q = sh->r;
    printf("outcome %d class %s hash %llx steps %llu switches %d\n%s\n%s", q.outcome, q.cls, (unsigned long long)q.hash, (unsigned long long)q.counters[C_STEPS], q.nsw, q.msg, q.dump);
    if (q.outcome == O_VIOLATION) { printf("REPRODUCED %s\n", r.hash == 0 || r.hash == q.hash ? "exactly" : "with a different event log"); return r.hash == 0 || r.hash == q.hash ? 1 : 4; }
    return q.outcome == O_OK ? 0 : 3;
}

int main(int argc, char **argv) {
    rt_init();
    sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "batch") return batch(argc, argv);
    if (cmd == "minimise") return minimise(argc, argv);
    if (cmd == "replay") return replay(argc, argv);
    if (cmd == "plan") { cout << to_text(make_plan(argv[2], strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0), atoi(argv[5]))); return 0; }
    if (cmd == "stat") {  // stat PROP SEED RUN TIER: counters of one run
        Plan p = make_plan(argv[2], strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0), atoi(argv[5]));
        double t = wall(); do_run(p, NULL); Result &q = sh->r;
        printf("run %s outcome %d class %s: %s\n%s hash %llx wall %.3f", argv[4], q.outcome, q.cls, q.msg, q.dump, (unsigned long long)q.hash, wall() - t);
        for (int k = 0; k < C_N; k++) if (q.counters[k]) printf(" %s=%llu", counter_names[k], (unsigned long long)q.counters[k]);
        printf("\n"); return 0;
    }
    cerr << "usage: sim batch|minimise|replay|plan|stat ..." << endl;
    return 2;
}
