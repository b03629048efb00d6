// A small model of a building, twice: the live objects of the code under test, and a plain description
// ("mirror") from which an equivalent fresh model can be built at any time.  Edits are applied to both.
#ifndef MODEL_H
#define MODEL_H
#include <cmath>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "functions.h"
#include "relationships.h"
#include "fragility.h"
#include "loss_functions.h"
#include "comp_group.h"
#include "structure.h"
#include "maq.h"
#include "omc.h"

namespace model {
    using namespace SLAT;
    using std::shared_ptr; using std::make_shared; using std::vector; using std::string;

    // ---- deterministic functions ---------------------------------------------------------------------------
    enum Kind { HAZARD, DEMAND, SPREAD };
    inline double formula(int kind, int v, double x) {
        switch (kind) {
        case HAZARD: { static const double p[4][3] = {{1221, 29.8, 62.2}, {900, 29.8, 58.0}, {1221, 20.0, 40.0}, {400, 25.0, 61.0}};
            return x >= p[v][1] ? 0 : p[v][0] * exp(p[v][2] / log(x / p[v][1])); }
        case DEMAND: { static const double p[4][2] = {{0.1, 1.5}, {0.13, 1.2}, {0.06, 1.0}, {0.2, 1.7}}; return p[v][0] * pow(x, p[v][1]); }
        default: { static const double p[4][2] = {{0.5, 0.0}, {0.3, 0.0}, {0.45, 0.1}, {0.8, 0.0}}; return p[v][0] * pow(x, p[v][1]); }
        }
    }
    // a function a user might write: it can change, and says so
    class MutFn : public DeterministicFn {
    public:
        int kind, variant;
        MutFn(int k, int v) : kind(k), variant(v) {}
        void set(int v) { variant = v; notify_change(); }
    protected:
        double Evaluate(double x) const override { return formula(kind, variant, x); }
    };
    class MutLoss : public LossFn {
    public:
        int variant;
        explicit MutLoss(int v) : variant(v) {}
        void set(int v) { variant = v; notify_change(); }
        LogNormalDist CalculateUnadjustedLoss(std::vector<double> p, int count) override;
        std::size_t n_states(void) override { return 2; }
    };
    inline vector<LogNormalDist> loss_states(int v) {
        static const double m[4][4] = {{0.03, 0.4, 0.25, 0.4}, {0.05, 0.4, 0.4, 0.3}, {0.01, 0.6, 0.6, 0.5}, {0.2, 0.1, 0.3, 0.1}};
        return {LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m[v][0], m[v][1]), LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m[v][2], m[v][3])};
    }
    inline LogNormalDist MutLoss::CalculateUnadjustedLoss(std::vector<double> p, int count) {
        return LogNormalDist::AddWeightedDistributions(loss_states(variant), p).ScaleDistributionByNumComponents(count);
    }
    inline vector<LogNormalDist> onsets(int v) {
        static const double m[4][4] = {{0.0062, 0.4, 0.032, 0.41}, {0.01, 0.3, 0.05, 0.5}, {0.003, 0.5, 0.02, 0.4}, {0.02, 0.35, 0.2, 0.35}};
        return {LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(m[v][0] * 30, m[v][1]), LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(m[v][2] * 30, m[v][3])};
    }
    // Variants follow one another such that each step leaves something exactly as it was: 1 and 2 have the same median (fates)
    // or mean (money), 2 and 3 the same mean (fates) or median (money), 3 and 4 the same dispersion.
    static const int STEPS = 4;
    inline int next(int v) { return 1 + v % STEPS; }
    inline LogNormalDist by_median(double m, double s) { return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(m, s); }
    inline LogNormalDist same_median(const LogNormalDist &d, double s) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(d.get_mu_lnX(), s); }
    // with a dispersion of about s, and the same mean to the last bit
    inline LogNormalDist same_mean(const LogNormalDist &d, double s) {
        for (int i = 0; i < 1000; i++) { LogNormalDist r = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(d.get_mean_X(), s + i * 1e-5); if (r.get_mean_X() == d.get_mean_X()) return r; }
        omc::fail("no distribution of the same mean"); return d;
    }
    inline LogNormalDist fate(int which, int v) { // 0 collapse, 1 demolition
        static LogNormalDist d[2][5]; static bool made = false;
        if (!made) {
            made = true;
            for (int w = 0; w < 2; w++) { double k = w ? 0.6 : 1.0; d[w][1] = by_median(3.0 * k, 0.45); d[w][2] = same_median(d[w][1], 0.75); d[w][3] = same_mean(d[w][2], 0.3); d[w][4] = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(log(1.6 * k), d[w][3].get_sigma_lnX()); }
        }
        return d[which][v];
    }
    inline LogNormalDist money(int which, int v) { // 0 rebuild, 1 demolition
        static LogNormalDist d[2][5]; static bool made = false;
        if (!made) {
            made = true;
            for (int w = 0; w < 2; w++) { double k = w ? 1.3 : 1.0; d[w][1] = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(14.0 * k, 0.35); d[w][2] = same_mean(d[w][1], 0.8); d[w][3] = same_median(d[w][2], 0.2); d[w][4] = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(8.0 * k, 0.2); }
        }
        return d[which][v];
    }

    // ---- the mirror -------------------------------------------------------------------------------------------
    struct MFn { int kind, variant; shared_ptr<DeterministicFn> live; };
    struct MP { MFn *mu, *sd; int type; shared_ptr<ProbabilisticFn> live; };
    struct MIM { MFn *f; int col, dem; shared_ptr<IM> live; };
    struct MEDP { MIM *im; MP *a, *b; shared_ptr<EDP> live; };
    struct MFrag { int variant; shared_ptr<FragilityFn> live; };
    struct MLoss { int kind, variant; shared_ptr<LossFn> live; };         // kind 0 simple, 1 bilevel, 2 user-written
    struct MCG { MEDP *edp; MFrag *frag; MLoss *cost, *delay; int count; double adj; shared_ptr<CompGroup> live; };
    struct MStruct { vector<MCG *> groups; int rebuild, demolition; shared_ptr<Structure> live; };

    inline shared_ptr<DeterministicFn> make_fn(int kind, int v, bool user) {
        if (user) return make_shared<MutFn>(kind, v);
        static const double h[4][3] = {{1221, 29.8, 62.2}, {900, 29.8, 58.0}, {1221, 20.0, 40.0}, {400, 25.0, 61.0}};
        static const double d[4][2] = {{0.1, 1.5}, {0.13, 1.2}, {0.06, 1.0}, {0.2, 1.7}};
        static const double s[4][2] = {{0.5, 0.0}, {0.3, 0.0}, {0.45, 0.1}, {0.8, 0.0}};
        if (kind == HAZARD) return make_shared<NonLinearHyperbolicLaw>(h[v][0], h[v][1], h[v][2]);
        if (kind == DEMAND) return make_shared<PowerLawParametricCurve>(d[v][0], d[v][1]);
        return make_shared<PowerLawParametricCurve>(s[v][0], s[v][1]);
    }
    inline shared_ptr<ProbabilisticFn> make_p(shared_ptr<DeterministicFn> mu, shared_ptr<DeterministicFn> sd, int type) {
        return make_shared<LogNormalFn>(mu, type == 0 ? LogNormalFn::MEAN_X : LogNormalFn::MEDIAN_X, sd, LogNormalFn::SIGMA_LN_X);
    }
    inline shared_ptr<LossFn> make_loss(int kind, int v) {
        if (kind == 2) return make_shared<MutLoss>(v);
        if (kind == 0) return make_shared<SimpleLossFn>(loss_states(v));
        vector<shared_ptr<BiLevelLoss>> l;
        static const double c[4][3] = {{0.04, 0.02, 0.4}, {0.06, 0.05, 0.3}, {0.02, 0.01, 0.5}, {0.2, 0.1, 0.2}};
        for (int s = 0; s < 2; s++) l.push_back(make_shared<BiLevelLoss>(2, 10, c[v][0] * (1 + 6 * s), c[v][1] * (1 + 6 * s), c[v][2]));
        return make_shared<BiLevelLossFn>(l);
    }

    // ---- description of everything an object's results depend on --------------------------------------------------
    typedef std::ostringstream os;
    inline string key(const MFn *f) { os o; o << "f" << f->kind << f->variant; return o.str(); }
    inline string key(const MP *p) { os o; o << "p" << p->type << "(" << key(p->mu) << key(p->sd) << ")"; return o.str(); }
    inline string key(const MIM *i) { os o; o << "im" << i->col << i->dem << "(" << key(i->f) << ")"; return o.str(); }
    inline string key(const MEDP *e) { os o; o << "edp(" << key(e->im) << key(e->a) << (e->b ? key(e->b) : "") << ")"; return o.str(); }
    inline string key(const MCG *g) { os o; o << "cg" << g->count << "x" << g->adj << "(" << key(g->edp) << "," << g->frag->variant << "," << (g->cost ? g->cost->kind * 10 + g->cost->variant : -1) << "," << (g->delay ? g->delay->kind * 10 + g->delay->variant : -1) << ")"; return o.str(); }
    inline string key(const MStruct *s) { os o; o << "s" << s->rebuild << s->demolition << "("; for (auto g : s->groups) o << key(g); o << ")"; return o.str(); }

    inline shared_ptr<DeterministicFn> fresh(const MFn *f) { return make_fn(f->kind, f->variant, true); }
    inline shared_ptr<ProbabilisticFn> fresh(const MP *p) { return make_p(fresh(p->mu), fresh(p->sd), p->type); }
    inline shared_ptr<IM> fresh(const MIM *i) {
        auto r = make_shared<IM>(fresh(i->f));
        if (i->col) r->SetCollapse(fate(0, i->col));
        if (i->dem) r->SetDemolition(fate(1, i->dem));
        return r;
    }
    inline shared_ptr<EDP> fresh(const MEDP *e, shared_ptr<IM> im = nullptr) {
        if (!im) im = fresh(e->im);
        if (e->b) return make_shared<CompoundEDP>(im, fresh(e->a), fresh(e->b));
        return make_shared<EDP>(im, fresh(e->a));
    }
    inline shared_ptr<CompGroup> fresh(const MCG *g, shared_ptr<IM> im = nullptr) {
        return make_shared<CompGroup>(fresh(g->edp, im), make_shared<FragilityFn>(onsets(g->frag->variant)), g->cost ? make_loss(g->cost->kind, g->cost->variant) : nullptr,
                                      g->delay ? make_loss(g->delay->kind, g->delay->variant) : nullptr, g->count, g->adj, g->adj * 0.5);
    }
    inline shared_ptr<Structure> fresh(const MStruct *s) {
        auto r = make_shared<Structure>("fresh");
        shared_ptr<IM> im = s->groups.empty() ? nullptr : fresh(s->groups[0]->edp->im);
        for (auto g : s->groups) r->AddCompGroup(fresh(g, im));
        if (s->rebuild) r->setRebuildCost(money(0, s->rebuild));
        if (s->demolition) r->setDemolitionCost(money(1, s->demolition));
        return r;
    }

    // ---- queries: name -> value ------------------------------------------------------------------------------------
    typedef vector<std::pair<const char *, double>> Values;
    static const int N_IM = 2;
    inline void ask(ProbabilisticFn &p, Values &v) {
        for (double x : {0.4, 1.7}) {
            v.push_back({"fn mean", p.Mean(x)}); v.push_back({"fn log-mean", p.MeanLn(x)}); v.push_back({"fn median", p.Median(x)}); v.push_back({"fn sd", p.SD(x)}); v.push_back({"fn sd ln", p.SD_ln(x)});
            v.push_back({"fn exceedence", p.P_exceedence(x, 0.1)}); v.push_back({"fn quantile", p.X_at_exceedence(x, 0.3)});
        }
    }
    inline void ask(IM &i, Values &v) {
        for (double x : {0.5, 2.0}) {
            v.push_back({"lambda", i.lambda(x)}); v.push_back({"slope", i.DerivativeAt(x)}); v.push_back({"pCollapse", i.pCollapse(x)});
            v.push_back({"pDemolition", i.pDemolition(x)}); v.push_back({"pRepair", i.pRepair(x)});
        }
        v.push_back({"CollapseRate", i.CollapseRate()}); v.push_back({"DemolitionRate", i.DemolitionRate()});
    }
    inline void ask(EDP &e, Values &v) {
        for (double x : {0.4, 1.7}) {
            v.push_back({"mean", e.Mean(x)}); v.push_back({"log-mean", e.MeanLn(x)}); v.push_back({"median", e.Median(x)}); v.push_back({"sd", e.SD(x)}); v.push_back({"sd ln", e.SD_ln(x)});
            v.push_back({"exceedence", e.P_exceedence(x, 0.1)}); v.push_back({"quantile", e.X_at_exceedence(x, 0.3)});
        }
        for (double y : {0.05, 0.3}) v.push_back({"demand rate", e.lambda(y)});
        v.push_back({"bulk rate", e.par_lambda({0.3})[0]});
        v.push_back({"hazard of the demand", e.Base_Rate()->lambda(0.7)});
    }
    inline void dist(const char *m, const char *s, const LogNormalDist &d, Values &v) { v.push_back({m, d.get_mean_X()}); v.push_back({s, d.get_sigma_X()}); }
    // part: bit set of the groups of queries
    enum { Q_EDP = 1, Q_COST = 2, Q_SDC = 4, Q_DELAY = 8, Q_SDD = 16, Q_ANNUAL = 32, Q_LAMBDA = 64, Q_RATE = 128, Q_ALL = 255 };
    inline void ask(CompGroup &g, Values &v, int part = Q_ALL) {
        const double ims[2] = {0.6, 1.8}, edps[2] = {0.15, 0.9};
        if (part & Q_EDP) for (double e : edps) {
            v.push_back({"cost at demand", g.E_cost_EDP(e)}); v.push_back({"cost sd ln at demand", g.SD_ln_cost_EDP(e)}); v.push_back({"cost sd at demand", g.SD_cost_EDP(e)}); v.push_back({"log cost at demand", g.mean_ln_cost_EDP(e)});
            v.push_back({"delay at demand", g.E_delay_EDP(e)}); v.push_back({"delay sd ln at demand", g.SD_ln_delay_EDP(e)}); v.push_back({"delay sd at demand", g.SD_delay_EDP(e)});
        }
        for (double i : ims) {
            if (part & Q_COST) v.push_back({"cost", g.E_cost_IM(i)});
            if (part & Q_SDC) { v.push_back({"cost sd ln", g.SD_ln_cost_IM(i)}); dist("cost distribution mean", "cost distribution sd", g.CostDist_IM(i), v); }
            if (part & Q_DELAY) v.push_back({"delay", g.E_delay_IM(i)});
            if (part & Q_SDD) v.push_back({"delay sd ln", g.SD_ln_delay_IM(i)});
            if (part & Q_RATE) for (double p : g.pDS_IM(i)) v.push_back({"damage state probability", p});
        }
        if (part & Q_ANNUAL) v.push_back({"annual cost", g.E_annual_cost()});
        if (part & Q_LAMBDA) v.push_back({"cost rate", g.lambda_cost(0.3)});
        if (part & Q_RATE) for (double r : g.Rate()) v.push_back({"damage state rate", r});
        v.push_back({"hazard of the group", g.getIM()->lambda(0.7)});
        v.push_back({"demand of the group", g.get_EDP()->Mean(0.7)});
        v.push_back({"states of the group", (double)g.FragFn()->n_states()});
        v.push_back({"onset of the group", g.get_Fragility()->pExceeded(0.4)[0]});
        if (g.CostFn()) v.push_back({"cost function", g.CostFn()->CalculateLoss({0.3, 0.2}, 3, 1).get_mean_X()});
        if (g.DelayFn()) v.push_back({"delay function", g.DelayFn()->CalculateLoss({0.3, 0.2}, 3, 1).get_mean_X()});
    }
    inline void ask(Structure &s, Values &v, bool annual = true) {
        for (double i : {0.6, 1.8}) {
            dist("building cost", "building cost sd", s.Cost(i, false), v); dist("building cost with collapse", "building cost with collapse sd", s.Cost(i, true), v);
            dist("total cost", "total cost sd", s.TotalCost(i), v);
            Structure::COSTS c = s.CostsByFate(i);
            v.push_back({"repair share", c.repair.get_mean_X()}); v.push_back({"demolition share", c.demolition.get_mean_X()}); v.push_back({"collapse share", c.collapse.get_mean_X()});
            auto d = s.DeaggregatedCost(i);
            v.push_back({"no-collapse share", d.first.get_mean_X()}); v.push_back({"collapsed share", d.second.get_mean_X()});
            v.push_back({"cost density", s.pdf(i)});
        }
        if (annual) { dist("annual cost", "annual cost sd", s.AnnualCost(), v); v.push_back({"present value", s.E_cost(50, 0.05)}); }
        v.push_back({"number of groups", (double)s.Components().size()});
        dist("rebuild cost", "rebuild cost sd", s.getRebuildCost(), v); dist("demolition cost", "demolition cost sd", s.getDemolitionCost(), v);
    }
    inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)); }
    // expected values, remembered by description: a fresh model always gives the same
    template <class M, class... A> const Values &expected(const char *tag, const M *m, A... a) {
        static std::map<string, Values> memo;
        os x; x << tag << key(m); int unroll[] = {0, (x << "," << a, 0)...}; (void)unroll;
        string k = x.str();
        auto it = memo.find(k);
        if (it == memo.end()) { Values v; auto f = fresh(m); ask(*f, v, a...); it = memo.emplace(k, v).first; omc::count("distinct configurations"); }
        return it->second;
    }
    template <class M, class... A> void compare(const char *tag, const M *m, A... a) {
        const Values &e = expected(tag, m, a...);
        Values v; ask(*m->live, v, a...);
        if (v.size() != e.size()) omc::fail("%s: %zu results, fresh model %zu", tag, v.size(), e.size());
        for (size_t k = 0; k < v.size(); k++)
            if (!same(v[k].second, e[k].second)) omc::fail("%s: %s is %.10g, a fresh model gives %.10g", tag, v[k].first, v[k].second, e[k].second);
        omc::count("results compared", (long)v.size());
    }
}
#endif
