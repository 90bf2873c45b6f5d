// A run's plan: everything the run depends on besides the code. Generated from one seed, written to replay files.
#pragma once
#include "rt.h"
#include <map>
#include <string>
#include <vector>

const int NARG = 6;
struct Op {
    int client = 0;
    std::string kind;
    long a[NARG] = {0, 0, 0, 0, 0, 0};
};
struct Plan {
    std::string prop;
    uint64_t run = 0, seed = 0;
    sim::SchedCfg sc{};
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    long get(const char *k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    Op &add(int client, const char *kind, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0, long a5 = 0) {
        Op o; o.client = client; o.kind = kind; o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4; o.a[5] = a5;
        ops.push_back(o); return ops.back();
    }
};

struct Workload {
    const char *prop;
    void (*gen)(sim::Rng &, Plan &, int tier);
    void (*exec)(const Plan &);
    const char *const *probe_names;  // NULL-terminated
    Workload *next;
    Workload(const char *p, void (*g)(sim::Rng &, Plan &, int), void (*e)(const Plan &), const char *const *pn);
};
extern Workload *workloads;

void gen_sched(sim::Rng &r, Plan &p);   // a random scheduling configuration
