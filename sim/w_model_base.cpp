#include "model.h"
#include "pyslatcore.h"
#include "maq.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <new>
#include <stdexcept>
using namespace sim;

namespace model {
const char *const kind_name[NKIND] = {"function", "probabilistic function", "IM", "EDP", "fragility", "loss", "component group", "structure"};
long active_parts, faults_fired;
std::set<long> tokens;

void FaultCtl::hit() {
    bool fire = false; long t = 0; int ty = 0;
    {
        NoPreempt n;
        if (countdown > 0) countdown--;
        if (countdown == 0) {
            fire = true; ty = type; t = 1000 + (long)(faults_fired++); tokens.insert(t); fired++;
            if (!sticky) countdown = -1;
        }
    }
    if (!fire) return;
    count(C_EXC);
    event(0xFA17, (uint64_t)t);
    switch (ty % 3) {
    case 0: throw Fault(t);
    case 1: throw OddFault{t};
    default: throw std::bad_alloc();
    }
}
struct Active { Active() { NoPreempt n; active_parts++; } ~Active() { NoPreempt n; active_parts--; } };

double MutableFn::Evaluate(double x) const {
    Active act;
    if (ctl) { point(); ctl->hit(); }
    return a * pow(x, b);
}
class FaultyProb : public SLAT::LogNormalFn {
public:
    std::shared_ptr<FaultCtl> ctl;
    using SLAT::LogNormalFn::LogNormalFn;
    double P_exceedence(double x, double y) const { Active act; if (ctl) { point(); ctl->hit(); } return SLAT::LogNormalFn::P_exceedence(x, y); }
    double Mean(double x) const { Active act; if (ctl) { point(); ctl->hit(); } return SLAT::LogNormalFn::Mean(x); }
    double Median(double x) const { Active act; if (ctl) { point(); ctl->hit(); } return SLAT::LogNormalFn::Median(x); }
    double SD(double x) const { Active act; if (ctl) { point(); ctl->hit(); } return SLAT::LogNormalFn::SD(x); }
};
class FaultyLoss : public SLAT::SimpleLossFn {
public:
    std::shared_ptr<FaultCtl> ctl;
    using SLAT::SimpleLossFn::SimpleLossFn;
    SLAT::LogNormalDist CalculateUnadjustedLoss(std::vector<double> p, int count) { Active act; if (ctl) { point(); ctl->hit(); } return SLAT::SimpleLossFn::CalculateUnadjustedLoss(p, count); }
};

const void *Ent::ptr() const {
    if (det) return det.get();
    if (prob) return prob.get();
    if (im) return im.get();
    if (edp) return edp.get();
    if (frag) return frag.get();
    if (loss) return loss.get();
    if (cg) return cg.get();
    return st.get();
}
std::weak_ptr<void> Ent::weak() const {
    if (det) return det;
    if (prob) return prob;
    if (im) return im;
    if (edp) return edp;
    if (frag) return frag;
    if (loss) return loss;
    if (cg) return cg;
    return st;
}

SLAT::LogNormalDist dist(long v, double scale) {
    double f = 1 + 0.17 * (double)(v % 7), s = 0.25 + 0.06 * (double)(v % 5);
    switch (v % 3) {
    case 0: return SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(scale * f, s);
    case 1: return SLAT::LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(scale * f, s);
    default: return SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(scale * f, scale * f * s);
    }
}
static const double T_IM[] = {0.3, 0.05, 1.0, 0.7, 0.15, 2.0, 0.01, 1.4, 3.0, 0.0};
static const double T_EDP[] = {0.02, 0.05, 0.01, 0.1, 0.03, 0.005, 0.2, 0.0};
static const double T_COST[] = {0.05, 0.2, 1.0, 5.0, 0.01};
static const double T_P[] = {0.5, 0.1, 0.9, 0.25, 0.99};
double im_value(long i) { return T_IM[i % 10]; }
double edp_value(long i) { return T_EDP[i % 8]; }
double cost_value(long i) { return T_COST[i % 5]; }
double prob_value(long i) { return T_P[i % 5]; }

Ent build(const Desc &d, const std::map<int, Ent> &in, bool faults) {
    Ent e;
    auto I = [&](size_t i) -> const Ent & { return in.at(d.in[i]); };
    double v = 1 + 0.13 * (double)(d.p[1] % 8);
    switch (d.kind) {
    case DET:  // p0: 0 rate, 1 demand, 2 dispersion (log), 3 dispersion (natural); p1: variant; p2: form
        switch (d.p[0] % 4) {
        case 0:
            switch (d.p[2] % 4) {
            case 0: e.det = std::make_shared<SLAT::NonLinearHyperbolicLaw>(1221 * v, 29.8, 62.2); break;
            case 1: e.det = std::make_shared<SLAT::PowerLawParametricCurve>(0.001 * v, -2.2); break;
            case 2: { double x[] = {0.005, 0.3, 3.0, 6.0, 12.0}, y[] = {0.4 * v, 0.006 * v, 0.00002 * v, 0.000002 * v, 0.0000002 * v};
                e.det = std::make_shared<SLAT::LogLogInterpolatedFn>(x, y, 3 + d.p[1] % 3); break; }
            default: { auto m = std::make_shared<MutableFn>(0.002 * v, -1.9); if (faults) m->ctl = d.ctl; e.det = m; }
            }
            break;
        case 1:
            switch (d.p[2] % 3) {
            case 0: e.det = std::make_shared<SLAT::PowerLawParametricCurve>(0.1 * v, 1.5); break;
            case 1: {  // tables of several sizes
                double x[] = {0.0, 0.1, 0.5, 1.5, 3.0}, y[] = {0.0005, 0.006 * v, 0.03 * v, 0.12 * v, 0.3 * v};
                double x3[] = {0.0, 1.0, 3.0}, y3[] = {0.0005, 0.07 * v, 0.3 * v};
                double x12[] = {0.0, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 1.0, 1.3, 1.7, 2.3, 3.0}, y12[12];
                for (int i = 0; i < 12; i++) y12[i] = 0.0005 + 0.1 * v * x12[i];
                if (d.p[1] % 3 == 0) e.det = std::make_shared<SLAT::LinearInterpolatedFn>(x, y, 5);
                else if (d.p[1] % 3 == 1) e.det = std::make_shared<SLAT::LinearInterpolatedFn>(x3, y3, 3);
                else e.det = std::make_shared<SLAT::LinearInterpolatedFn>(x12, y12, 12);
                break; }
            default: { auto m = std::make_shared<MutableFn>(0.08 * v, 1.2); if (faults) m->ctl = d.ctl; e.det = m; }
            }
            break;
        case 2:
            if (d.p[2] % 2) { auto m = std::make_shared<MutableFn>(0.35 * v, 0.05); if (faults) m->ctl = d.ctl; e.det = m; }
            else e.det = std::make_shared<SLAT::PowerLawParametricCurve>(0.4 * v, 0.0);
            break;
        default:
            e.det = std::make_shared<SLAT::PowerLawParametricCurve>(0.04 * v, 1.4); break;
        }
        break;
    case PROB: {  // p0: types; p2: with failures
        SLAT::LogNormalFn::M_TYPE m = d.p[0] % 3 == 0 ? SLAT::LogNormalFn::MEAN_X : d.p[0] % 3 == 1 ? SLAT::LogNormalFn::MEDIAN_X : SLAT::LogNormalFn::MEAN_X;
        SLAT::LogNormalFn::S_TYPE s = d.p[0] % 3 == 2 ? SLAT::LogNormalFn::SIGMA_X : SLAT::LogNormalFn::SIGMA_LN_X;
        if (d.p[2]) { auto f = std::make_shared<FaultyProb>(I(0).det, m, I(1).det, s); if (faults) f->ctl = d.ctl; e.prob = f; }
        else e.prob = std::make_shared<SLAT::LogNormalFn>(I(0).det, m, I(1).det, s);
        break; }
    case IMK:
        e.im = std::make_shared<SLAT::IM>(I(0).det, "im" + std::to_string(d.id));
        if (d.coll >= 0) e.im->SetCollapse(dist(d.coll, 1.2));
        if (d.demo >= 0) e.im->SetDemolition(dist(d.demo, 0.7));
        break;
    case EDPK:
        if (d.in.size() > 2) e.edp = std::make_shared<SLAT::CompoundEDP>(I(0).im, I(1).prob, I(2).prob, "edp" + std::to_string(d.id));
        else e.edp = std::make_shared<SLAT::EDP>(I(0).im, I(1).prob, "edp" + std::to_string(d.id));
        break;
    case FRAG: {
        std::vector<SLAT::LogNormalDist> ds;
        for (int i = 0; i < 3; i++) ds.push_back(SLAT::LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX((0.008 + 0.017 * i) * v, 0.4));
        e.frag = std::make_shared<SLAT::FragilityFn>(ds);
        break; }
    case LOSS:  // p0: form
        if (d.p[0] % 3 == 1) {
            std::vector<std::shared_ptr<SLAT::BiLevelLoss>> l;
            for (int i = 0; i < 3; i++) l.push_back(std::make_shared<SLAT::BiLevelLoss>(2, 8, 0.05 * (i + 1) * v, 0.03 * (i + 1) * v, 0.37));
            e.loss = std::make_shared<SLAT::BiLevelLossFn>(l);
        } else {
            std::vector<SLAT::LogNormalDist> ds;
            for (int i = 0; i < 3; i++) ds.push_back(SLAT::LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(0.03 * (1 + i * i) * v, 0.4));
            if (d.p[0] % 3 == 2) { auto f = std::make_shared<FaultyLoss>(ds); if (faults) f->ctl = d.ctl; e.loss = f; }
            else e.loss = std::make_shared<SLAT::SimpleLossFn>(ds);
        }
        break;
    case CG: {  // p0: bit 0 no delay; p1: count; p2: adjustment
        std::shared_ptr<SLAT::LossFn> cost, delay;
        if (d.in[2] >= 0) cost = in.at(d.in[2]).loss;
        if (d.in[3] >= 0) delay = in.at(d.in[3]).loss;
        e.cg = std::make_shared<SLAT::CompGroup>(I(0).edp, I(1).frag, cost, delay, (int)(1 + d.p[1] % 6), 1 + 0.1 * (double)(d.p[2] % 4), 1 + 0.2 * (double)(d.p[2] % 3), "cg" + std::to_string(d.id));
        break; }
    case ST:
        e.st = std::make_shared<SLAT::Structure>("st" + std::to_string(d.id));
        for (int c : d.in) e.st->AddCompGroup(in.at(c).cg);
        if (d.reb >= 0) e.st->setRebuildCost(dist(d.reb, 8));
        if (d.dem >= 0) e.st->setDemolitionCost(dist(d.dem, 10));
        break;
    }
    return e;
}

const std::vector<QueryInfo> queries[NKIND] = {
    {{"ValueAt", 0}, {"DerivativeAt", 0}},
    {{"Mean", 0}, {"MeanLn", 0}, {"Median", 0}, {"SD_ln", 0}, {"SD", 0}, {"P_exceedence", 0}, {"X_at_exceedence", 0}},
    {{"lambda", 0}, {"DerivativeAt", 0}, {"pCollapse", 0}, {"pDemolition", 0}, {"pRepair", 0}, {"lambda(list)", 0}, {"pCollapse(list)", 0}, {"pDemolition(list)", 0}, {"pRepair(list)", 0},
     {"CollapseRate", 1}, {"DemolitionRate", 1}, {"py get_lambda(list)", 0}, {"py pRepair(list)", 0}, {"py pCollapse(list)", 0}, {"py pDemolition(list)", 0}},
    {{"Mean", 0}, {"MeanLn", 0}, {"Median", 0}, {"SD_ln", 0}, {"SD", 0}, {"P_exceedence", 0}, {"X_at_exceedence", 0},
     {"Mean(list)", 0}, {"MeanLn(list)", 0}, {"Median(list)", 0}, {"SD_ln(list)", 0}, {"SD(list)", 0},
     {"py bulk_Mean", 0}, {"py bulk_MeanLn", 0}, {"py bulk_Median", 0}, {"py bulk_SD_ln", 0}, {"py bulk_SD", 0},
     {"lambda", 1}, {"par_lambda", 2}, {"py get_lambda(list)", 2}, {"DerivativeAt", 2}},
    {{"pExceeded", 0}, {"pHighest", 0}},
    {{"CalculateLoss", 0}},
    {{"E_cost_EDP", 0}, {"SD_ln_cost_EDP", 0}, {"SD_cost_EDP", 0}, {"mean_ln_cost_EDP", 0}, {"E_delay_EDP", 0}, {"SD_ln_delay_EDP", 0}, {"SD_delay_EDP", 0},
     {"E_cost_IM", 1}, {"SD_ln_cost_IM", 1}, {"E_delay_IM", 1}, {"SD_ln_delay_IM", 1}, {"CostDist_IM", 1}, {"pDS_IM", 1},
     {"E_annual_cost", 2}, {"lambda_cost", 2}, {"Rate", 3}},
    {{"Cost", 1}, {"Cost with collapse", 1}, {"TotalCost", 1}, {"CostsByFate", 1}, {"DeaggregatedCost", 1}, {"pdf", 1}, {"rebuild/demolition cost", 0}, {"py components", 0},
     {"AnnualCost", 3}, {"E_cost", 3}, {"E_cost(list)", 3}},
};

// which of the points of a list comes at place i: some lists repeat points, next to one another or all of them
static long place(long arg, long i) { return arg % 4 == 1 ? (i + 1) / 2 : arg % 8 == 3 ? 0 : i; }
std::vector<double> points_list(long arg, double (*val)(long)) {
    std::vector<double> r((arg / 3) % 8);
    for (size_t i = 0; i < r.size(); i++) r[i] = val(arg * 5 + place(arg, (long)i) * (1 + arg % 3));
    return r;
}
std::vector<int> years_list(long arg) {
    std::vector<int> r((arg / 3) % 6);
    for (size_t i = 0; i < r.size(); i++) r[i] = (int)(1 + (arg + place(arg, (long)i) * 7) % 60);
    return r;
}
static void put(std::vector<double> &r, const SLAT::LogNormalDist &d) { r.push_back(d.get_mean_X()); r.push_back(d.get_sigma_lnX()); }
static std::vector<double> join(std::vector<double> a, const std::vector<double> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

std::vector<double> ask(const Ent &e, int kind, int q, long arg) {
    double im = im_value(arg), ed = edp_value(arg), pr = prob_value(arg / 2);
    switch (kind) {
    case DET: return {q == 0 ? e.det->ValueAt(im) : e.det->DerivativeAt(im)};
    case PROB:
        switch (q) {
        case 0: return {e.prob->Mean(im)};
        case 1: return {e.prob->MeanLn(im)};
        case 2: return {e.prob->Median(im)};
        case 3: return {e.prob->SD_ln(im)};
        case 4: return {e.prob->SD(im)};
        case 5: return {e.prob->P_exceedence(im, edp_value(arg + 1))};
        default: return {e.prob->X_at_exceedence(im, pr)};
        }
    case IMK: {
        SLAT::IM &i = *e.im; ::IM py(e.im);
        switch (q) {
        case 0: return {i.lambda(im)};
        case 1: return {i.DerivativeAt(im)};
        case 2: return {i.pCollapse(im)};
        case 3: return {i.pDemolition(im)};
        case 4: return {i.pRepair(im)};
        case 5: return i.lambda(points_list(arg, im_value));
        case 6: return i.pCollapse(points_list(arg, im_value));
        case 7: return i.pDemolition(points_list(arg, im_value));
        case 8: return i.pRepair(points_list(arg, im_value));
        case 9: return {i.CollapseRate()};
        case 10: return {i.DemolitionRate()};
        case 11: return py.get_lambda(points_list(arg, im_value));
        case 12: return py.pRepair(points_list(arg, im_value));
        case 13: return py.pCollapse(points_list(arg, im_value));
        default: return py.pDemolition(points_list(arg, im_value));
        } }
    case EDPK: {
        SLAT::EDP &d = *e.edp; ::EDP py(e.edp);
        switch (q) {
        case 0: return {d.Mean(im)};
        case 1: return {d.MeanLn(im)};
        case 2: return {d.Median(im)};
        case 3: return {d.SD_ln(im)};
        case 4: return {d.SD(im)};
        case 5: return {d.P_exceedence(im, edp_value(arg + 1))};
        case 6: return {d.X_at_exceedence(im, pr)};
        case 7: return d.Mean(points_list(arg, im_value));
        case 8: return d.MeanLn(points_list(arg, im_value));
        case 9: return d.Median(points_list(arg, im_value));
        case 10: return d.SD_ln(points_list(arg, im_value));
        case 11: return d.SD(points_list(arg, im_value));
        case 12: return py.bulk_Mean(points_list(arg, im_value));
        case 13: return py.bulk_MeanLn(points_list(arg, im_value));
        case 14: return py.bulk_Median(points_list(arg, im_value));
        case 15: return py.bulk_SD_ln(points_list(arg, im_value));
        case 16: return py.bulk_SD(points_list(arg, im_value));
        case 17: return {d.lambda(ed)};
        case 18: return d.par_lambda(points_list(arg, edp_value));
        case 19: return py.get_lambda(points_list(arg, edp_value));
        default: return {d.DerivativeAt(ed)};
        } }
    case FRAG: return q == 0 ? e.frag->pExceeded(ed) : e.frag->pHighest(ed);
    case LOSS: { std::vector<double> r; put(r, e.loss->CalculateLoss({0.2, 0.3, 0.1}, 4, 1.1)); return r; }
    case CG: {
        SLAT::CompGroup &c = *e.cg; std::vector<double> r;
        switch (q) {
        case 0: return {c.E_cost_EDP(ed)};
        case 1: return {c.SD_ln_cost_EDP(ed)};
        case 2: return {c.SD_cost_EDP(ed)};
        case 3: return {c.mean_ln_cost_EDP(ed)};
        case 4: return {c.E_delay_EDP(ed)};
        case 5: return {c.SD_ln_delay_EDP(ed)};
        case 6: return {c.SD_delay_EDP(ed)};
        case 7: return {c.E_cost_IM(im)};
        case 8: return {c.SD_ln_cost_IM(im)};
        case 9: return {c.E_delay_IM(im)};
        case 10: return {c.SD_ln_delay_IM(im)};
        case 11: put(r, c.CostDist_IM(im)); return r;
        case 12: return c.pDS_IM(im);
        case 13: return {c.E_annual_cost()};
        case 14: return {c.lambda_cost(cost_value(arg))};
        default: return c.Rate();
        } }
    default: {
        SLAT::Structure &s = *e.st; std::vector<double> r;
        switch (q) {
        case 0: put(r, s.Cost(im, false)); return r;
        case 1: put(r, s.Cost(im, true)); return r;
        case 2: put(r, s.TotalCost(im)); return r;
        case 3: { SLAT::Structure::COSTS c = s.CostsByFate(im); put(r, c.repair); put(r, c.demolition); put(r, c.collapse); return r; }
        case 4: { auto c = s.DeaggregatedCost(im); put(r, c.first); put(r, c.second); return r; }
        case 5: return {s.pdf(im)};
        case 6: put(r, s.getRebuildCost()); put(r, s.getDemolitionCost()); return r;
        case 7: {  // through the Python interface: groups of components, in no particular order
            ::Structure py(e.st);
            std::vector<double> n1, n2;
            std::list<std::list<::CompGroup *>> a = py.ComponentsByEDP(), b = py.ComponentsByFragility();
            for (auto &l : a) { n1.push_back((double)l.size()); for (auto c : l) delete c; }
            for (auto &l : b) { n2.push_back((double)l.size()); for (auto c : l) delete c; }
            std::sort(n1.begin(), n1.end()); std::sort(n2.begin(), n2.end());
            return join(n1, n2); }
        case 8: put(r, s.AnnualCost()); return r;
        case 9: return {s.E_cost((int)(1 + arg % 50), 0.05)};
        default: return s.E_cost(years_list(arg), 0.04);
        } }
    }
}
bool askable(const Desc &d, int q) {
    if (d.kind == CG && d.in[2] < 0 && (q <= 3 || q == 7 || q == 8 || q == 11 || q == 13 || q == 14)) return true;
    if (d.kind == ST && d.in.empty()) return d.im < 0 || q == 0 || q == 6 || q == 7 || q == 8 || q == 9 || q == 10;
    return true;
}

// ------------------------------------------------------------------------------------------------ world
const Desc *World::get(int id, int kind) const { auto i = desc.find(id); return i == desc.end() || i->second.kind != kind ? NULL : &i->second; }
int World::im_of(int id) const {
    const Desc &d = desc.at(id);
    switch (d.kind) { case IMK: return id; case EDPK: return d.in[0]; case CG: return im_of(d.in[0]); case ST: return d.im; default: return -1; }
}
bool World::reaches(int from, int to) const {
    if (from == to) return true;
    for (int i : desc.at(from).in) if (i >= 0 && reaches(i, to)) return true;
    return false;
}
std::set<int> World::reachable(bool lenient) const {
    std::set<int> s; std::vector<int> todo;
    for (auto &d : desc) if (d.second.held) todo.push_back(d.first);
    while (!todo.empty()) {
        int i = todo.back(); todo.pop_back();
        if (!s.insert(i).second) continue;
        const Desc &d = desc.at(i);
        for (int j : d.in) if (j >= 0) todo.push_back(j);
        if (d.kind == ST && lenient && d.im >= 0) todo.push_back(d.im);
    }
    return s;
}
Ent World::handle(int id) const {
    auto i = live.find(id);
    if (i != live.end()) return i->second;
    Ent none;
    // not held: reach it through a dependent whose accessors allow it
    for (auto &k : desc) {
        const Desc &d = k.second;
        for (size_t n = 0; n < d.in.size(); n++) if (d.in[n] == id) {
            if (d.kind != EDPK && d.kind != CG && d.kind != ST) continue;
            Ent h = handle(k.first);
            if (!h) continue;
            Ent r;
            if (d.kind == EDPK && n == 0) r.im = h.edp->Base_Rate();
            else if (d.kind == EDPK && n == 1) r.prob = h.edp->Dependent_Rate();
            else if (d.kind == CG && n == 0) r.edp = h.cg->get_EDP();
            else if (d.kind == CG && n == 1) r.frag = h.cg->FragFn();
            else if (d.kind == CG && n == 2) r.loss = h.cg->CostFn();
            else if (d.kind == CG && n == 3) r.loss = h.cg->DelayFn();
            else if (d.kind == ST) { auto c = h.st->Components(); if (n < c.size()) r.cg = c[n]; }
            if (r) return r;
        }
    }
    return none;
}
bool World::create(int id, int kind, const long *p, const std::vector<int> &in) {
    if (desc.count(id)) return false;
    Desc d; d.id = id; d.kind = kind; d.in = in;
    for (int i = 0; i < 5; i++) d.p[i] = p[i];
    std::map<int, Ent> es;
    for (size_t i = 0; i < in.size(); i++) {
        if (kind == CG && i >= 2 && in[i] < 0) continue;
        if (!desc.count(in[i])) return false;
        int want = kind == PROB || kind == IMK ? DET : kind == EDPK ? (i == 0 ? IMK : PROB) : i == 0 ? EDPK : i == 1 ? FRAG : LOSS;
        if (desc[in[i]].kind != want) return false;
        Ent h = handle(in[i]);
        if (!h) return false;
        es[in[i]] = h;
    }
    d.ctl = std::make_shared<FaultCtl>();
    Ent e;
    { Lib l; e = build(d, es, true); }
    d.held = true; d.weak = e.weak();
    desc[id] = d; live[id] = e;
    return true;
}
bool World::replace(int a, int b) {
    auto ia = desc.find(a), ib = desc.find(b);
    if (ia == desc.end() || ib == desc.end()) return false;
    Desc &da = ia->second, &db = ib->second;
    if (da.kind != db.kind || da.kind == ST) return false;
    if (da.kind == DET && da.p[0] % 4 != db.p[0] % 4) return false;
    if ((da.kind == EDPK || da.kind == CG) && im_of(a) != im_of(b)) return false;
    if (da.kind == LOSS && 0) return false;
    Ent ha = handle(a), hb = handle(b);
    if (!ha || !hb) return false;
    { Lib l; switch (da.kind) {
    case DET: ha.det->replace(hb.det); break;
    case PROB: ha.prob->replace(hb.prob); break;
    case IMK: ha.im->replace(hb.im); break;
    case EDPK: ha.edp->replace(hb.edp); break;
    case FRAG: ha.frag->replace(hb.frag); break;
    case LOSS: ha.loss->replace(hb.loss); break;
    case CG: ha.cg->replace(hb.cg); break;
    default: break;
    } }
    if (a != b) for (auto &k : desc) {
        for (int &i : k.second.in) if (i == a) i = b;
        if (k.second.im == a) k.second.im = b;
    }
    return true;
}
bool World::add_cg(int st, int cg, bool *refused) {
    *refused = false;
    if (!get(st, ST) || !get(cg, CG)) return false;
    Desc &s = desc[st];
    Ent hs = handle(st), hc = handle(cg);
    if (!hs || !hc) return false;
    bool fits = s.in.empty() || s.im == im_of(cg);
    try { Lib l; hs.st->AddCompGroup(hc.cg); }
    catch (std::bad_alloc &) { throw; }
    catch (std::exception &) {
        if (fits) violation("refused", "structure %d refused component group %d which depends on its intensity measure", st, cg);
        *refused = true;
        return true;
    }
    if (!fits) violation("accepted", "structure %d accepted component group %d which depends on a different intensity measure", st, cg);
    if (s.in.empty()) s.im = im_of(cg);
    s.in.push_back(cg);
    return true;
}
bool World::remove_cg(int st, int cg) {
    if (!get(st, ST) || !get(cg, CG)) return false;
    Desc &s = desc[st];
    Ent hs = handle(st), hc = handle(cg);
    if (!hs || !hc) return false;
    { Lib l; hs.st->RemoveCompGroup(hc.cg); }
    auto i = std::find(s.in.begin(), s.in.end(), cg);
    if (i != s.in.end()) s.in.erase(i);
    return true;
}
bool World::drop(int id) {
    auto i = live.find(id);
    if (i == live.end()) return false;
    desc[id].held = false;
    Lib l; live.erase(i);
    return true;
}
static void build_rec(const World &w, int id, std::map<int, Ent> &out) {
    if (id < 0 || out.count(id)) return;
    const Desc &d = w.desc.at(id);
    for (int i : d.in) build_rec(w, i, out);
    out[id] = build(d, out, false);
}
std::map<int, Ent> World::fresh(int root) const { std::map<int, Ent> m; build_rec(*this, root, m); return m; }

void World::check_components(int st, const char *when) const {
    const Desc &d = desc.at(st);
    Ent h = handle(st);
    if (!h) return;
    std::vector<std::shared_ptr<SLAT::CompGroup>> c = h.st->Components();
    std::vector<const void *> got, want;
    for (auto &x : c) got.push_back(x.get());
    c.clear();
    for (int i : d.in) want.push_back(desc.at(i).weak.lock().get());
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want) {
        std::string s, t;
        for (const void *p : got) { std::string n = "?"; for (auto &k : desc) if (k.second.weak.lock().get() == p) n = std::to_string(k.first); s += " " + n; }
        for (int i : d.in) t += " " + std::to_string(i);
        violation("components", "%s, structure %d lists component groups {%s } instead of {%s }", when, st, s.c_str(), t.c_str());
    }
    ::Structure py(h.st);
    for (int by = 0; by < 2; by++) {
        std::list<std::list<::CompGroup *>> g = by ? py.ComponentsByFragility() : py.ComponentsByEDP();
        std::multiset<int> ids;
        for (auto &l : g) {
            int key = -1;
            for (auto cgp : l) {
                std::unique_ptr<::CompGroup> x(cgp);
                int id = -1;
                for (int i : d.in) { Ent e = handle(i); if (e && ::CompGroup(e.cg).AreSame(*x)) { id = i; break; } }
                if (id < 0) violation("components", "%s, structure %d lists an unknown component group by %s", when, st, by ? "fragility" : "demand");
                ids.insert(id);
                int k = desc.at(id).in[by ? 1 : 0];
                if (key >= 0 && k != key) violation("components", "%s, structure %d lists component groups with different %s together", when, st, by ? "fragilities" : "demands");
                key = k;
            }
        }
        if (ids != std::multiset<int>(d.in.begin(), d.in.end())) violation("components", "%s, structure %d lists %zu component groups by %s instead of %zu", when, st, ids.size(), by ? "fragility" : "demand", d.in.size());
    }
}
void World::check_lifetimes(const char *when) const {
    std::set<int> strict = reachable(false), lenient = reachable(true);
    for (auto &k : desc) {
        bool alive = !k.second.weak.expired();
        if (strict.count(k.first) && !alive) violation("destroyed-early", "%s, %s %d was destroyed although it is still in use", when, kind_name[k.second.kind], k.first);
        if (!lenient.count(k.first) && alive) violation("never-destroyed", "%s, %s %d still exists although nothing refers to it", when, kind_name[k.second.kind], k.first);
    }
}

std::string describe(const std::vector<double> &v) {
    std::string s = "(";
    for (size_t i = 0; i < v.size(); i++) { char b[40]; snprintf(b, sizeof b, "%s%.17g", i ? ", " : "", v[i]); s += b; }
    return s + ")";
}
bool same(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i] == b[i] || (a[i] != a[i] && b[i] != b[i])) continue;
        if (!(std::fabs(a[i] - b[i]) <= 1e-9 * std::max(std::fabs(a[i]), std::fabs(b[i])))) return false;
    }
    return true;
}
void settings(const Plan &p) {
    using SLAT::Integration::IntegrationSettings;
    IntegrationSettings::Set_Tolerance((double)p.get("tol", 30) / 100.0);
    IntegrationSettings::Set_Integration_Eval_Limit((unsigned)p.get("evals", 200));
    IntegrationSettings::Set_Integration_Search_Limit((unsigned)p.get("search", 200));
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)p.get("method", IntegrationSettings::DIRECTED));
}
}
