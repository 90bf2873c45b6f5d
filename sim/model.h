// A SLAT model under test next to a reference description of it, from which an equal model can be built from scratch.
#pragma once
#include "plan.h"
#include "caching.h"
#include "structure.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {
enum Kind { DET = 0, PROB, IMK, EDPK, FRAG, LOSS, CG, ST, NKIND };
extern const char *const kind_name[NKIND];

struct Fault : std::runtime_error { long token; explicit Fault(long t) : std::runtime_error("injected failure"), token(t) {} };
struct OddFault { long token; };

// One injected failure: the n-th evaluation of an object from the time it was armed (and all later ones if sticky).
struct FaultCtl {
    long countdown = -1; int type = 0; bool sticky = false; long fired = 0;
    void hit();                // called at each evaluation of a faulty part
};
extern long active_parts;      // evaluations of faulty parts now running
extern long faults_fired;      // in the current batch of queries
extern std::set<long> tokens;  // raised in the current batch

// A user-defined function with changeable parameters, as the public base class allows
class MutableFn : public SLAT::DeterministicFn {
    double a, b;
public:
    std::shared_ptr<FaultCtl> ctl;
    MutableFn(double a, double b) : a(a), b(b) {}
    double Evaluate(double x) const;
    void Set(double na, double nb) { a = na; b = nb; notify_change(); }
};

struct Ent {  // one object: exactly one of these pointers is set while it is held
    std::shared_ptr<SLAT::DeterministicFn> det;
    std::shared_ptr<SLAT::ProbabilisticFn> prob;
    std::shared_ptr<SLAT::IM> im;
    std::shared_ptr<SLAT::EDP> edp;
    std::shared_ptr<SLAT::FragilityFn> frag;
    std::shared_ptr<SLAT::LossFn> loss;
    std::shared_ptr<SLAT::CompGroup> cg;
    std::shared_ptr<SLAT::Structure> st;
    const void *ptr() const;
    std::weak_ptr<void> weak() const;
    explicit operator bool() const { return ptr() != NULL; }
};

struct Desc {  // the reference description of an object
    int id = -1, kind = DET;
    long p[5] = {0, 0, 0, 0, 0};
    std::vector<int> in;       // inputs; for a structure: its component groups
    long coll = -1, demo = -1; // IM: variants of the distributions
    long reb = -1, dem = -1;   // structure
    int im = -1;               // structure: the IM its groups depend on (-1: none yet)
    bool held = false;         // the harness holds a reference
    std::weak_ptr<void> weak;
    std::shared_ptr<FaultCtl> ctl;
};

SLAT::LogNormalDist dist(long v, double scale);
double im_value(long i);
double edp_value(long i);
double cost_value(long i);
double prob_value(long i);

// Builds one object from its description and already built inputs
Ent build(const Desc &d, const std::map<int, Ent> &in, bool with_faults);

struct QueryInfo { const char *name; int cost; };   // 0 cheap, 1 an integration, 2 nested integrations, 3 many of them
extern const std::vector<QueryInfo> queries[NKIND];
std::vector<double> ask(const Ent &e, int kind, int q, long arg);
std::vector<double> points_list(long arg, double (*val)(long));
std::vector<int> years_list(long arg);
bool askable(const Desc &d, int q);

// The library at work: the only time in which allocations fail, where they are planned to fail in changes.
struct Lib { bool was; Lib() { was = sim::pause_alloc_fault(false); } ~Lib() { sim::pause_alloc_fault(was); } };

struct World {
    std::map<int, Desc> desc;
    std::map<int, Ent> live;           // held objects
    // --- reference model
    const Desc *get(int id, int kind) const;
    int im_of(int id) const;           // the IM an EDP, component group or structure depends on
    bool reaches(int from, int to) const;
    std::set<int> reachable(bool lenient) const;
    Ent handle(int id) const;          // a reference to any live object, held or found through its dependents
    // --- operations on both; false if the operation does not apply
    bool create(int id, int kind, const long *p, const std::vector<int> &in);
    bool replace(int a, int b);
    bool add_cg(int st, int cg, bool *refused);
    bool remove_cg(int st, int cg);
    bool drop(int id);
    // --- from scratch
    std::map<int, Ent> fresh(int root) const;   // root and everything it depends on
    void check_components(int st, const char *when) const;
    void check_lifetimes(const char *when) const;
};

std::string describe(const std::vector<double> &v);
bool same(const std::vector<double> &a, const std::vector<double> &b);
void settings(const Plan &p);          // integration settings for short runs
}
