// C09: parallel and bulk evaluation equals one-at-a-time evaluation.
#include "model.h"
#include <dlfcn.h>
#include <gsl/gsl_spline.h>
using namespace SLAT;
using std::vector; using std::shared_ptr; using std::make_shared;
using model::formula;

// The interpolation library is not instrumented: evaluating with a lookup accelerator updates it.
extern "C" int gsl_spline_eval_e(const gsl_spline *s, double x, gsl_interp_accel *a, double *y) {
    typedef int (*F)(const gsl_spline *, double, gsl_interp_accel *, double *);
    static F real = (F)dlsym(RTLD_NEXT, "gsl_spline_eval_e");
    if (a) { omc::touch(a, sizeof *a, true, "interpolation lookup state"); }
    return real(s, x, a, y);
}
extern "C" double gsl_spline_eval(const gsl_spline *s, double x, gsl_interp_accel *a) {
    typedef double (*F)(const gsl_spline *, double, gsl_interp_accel *);
    static F real = (F)dlsym(RTLD_NEXT, "gsl_spline_eval");
    if (a) { omc::touch(a, sizeof *a, true, "interpolation lookup state"); }
    return real(s, x, a);
}

static double XS[] = {0.3, 0.8, 1.1, 1.9, 2.6}, HZ[] = {0.2, 0.05, 0.02, 0.004, 0.001}, DM[] = {0.02, 0.08, 0.11, 0.3, 0.6};
static shared_ptr<DeterministicFn> curve(int kind) {
    switch (kind) {
    case 0: return make_shared<NonLinearHyperbolicLaw>(1221, 29.8, 62.2);
    case 1: return make_shared<PowerLawParametricCurve>(0.1, 1.5);
    case 2: return make_shared<LinearInterpolatedFn>(XS, HZ, 5);
    case 3: return make_shared<LogLogInterpolatedFn>(XS, HZ, 5);
    case 4: return make_shared<LogLogInterpolatedFn>(XS, DM, 5);
    default: return make_shared<LinearInterpolatedFn>(XS, DM, 5);
    }
}
static const double POINTS[] = {0.9, 2.0, 0.31, 1.0};
static shared_ptr<IM> hazard(int kind) {
    auto im = make_shared<IM>(curve(kind));
    im->SetCollapse(model::fate(0, 1)); im->SetDemolition(model::fate(1, 2));
    return im;
}
static shared_ptr<ProbabilisticFn> prob(int mu, double sd = 0.4) { return make_shared<LogNormalFn>(curve(mu), LogNormalFn::MEAN_X, make_shared<PowerLawParametricCurve>(sd, 0.0), LogNormalFn::SIGMA_LN_X); }
static void cheap(int search = 8) {
    Integration::IntegrationSettings::Reset();
    Integration::IntegrationSettings::Set_Tolerance(0.3);
    Integration::IntegrationSettings::Set_Integration_Search_Limit(search);
    Integration::IntegrationSettings::Set_Integration_Eval_Limit(omc::thorough ? 64 : 32);
    omc::race_detect = true;
    Context::Initialise();
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)); }
static void equal(const char *what, const vector<double> &got, const vector<double> &want) {
    omc::Quiet q;
    if (got.size() != want.size()) omc::fail("%s: %zu results for %zu arguments", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++) if (!same(got[i], want[i])) omc::fail("%s: element %zu is %.12g, evaluated alone it is %.12g", what, i, got[i], want[i]);
    omc::count("elements compared", (long)got.size());
    for (double v : want) if (v != 0) omc::count("of these not zero");
}
static vector<double> args(int n, int from = 0) { vector<double> r; for (int i = 0; i < n; i++) r.push_back(POINTS[(i + from) % 4]); return r; }

// ---- hazard curves --------------------------------------------------------------------------------------------
HARNESS(bulk_hazard, 2, 4, "the four bulk queries of a hazard, five kinds of curve, 0-4 arguments, teams of 1-3") {
    cheap();
    int kind = omc::choose(4, "curve"), op = omc::choose(4, "query"), n = omc::choose(5, "arguments"), team = 1 + omc::choose(3, "team");
    vector<double> xs = args(n), want, got;
    auto alone = hazard(kind);
    for (double x : xs) want.push_back(op == 0 ? alone->lambda(x) : op == 1 ? alone->pCollapse(x) : op == 2 ? alone->pDemolition(x) : alone->pRepair(x));
    auto im = hazard(kind);
    omc::team_size = team;
    omc::run({[&] { got = op == 0 ? im->lambda(xs) : op == 1 ? im->pCollapse(xs) : op == 2 ? im->pDemolition(xs) : im->pRepair(xs); }});
    equal("bulk hazard query", got, want);
    omc::outcome("ok");
}
static shared_ptr<EDP> demand(int kind, int compound, int hz = 0) {
    auto im = hazard(hz);
    if (compound) return make_shared<CompoundEDP>(im, prob(kind), prob(1, 0.3));
    return make_shared<EDP>(im, prob(kind));
}
static const int DK[] = {1, 4, 5};
HARNESS(bulk_demand, 2, 3, "the five bulk moments of plain and two-function demands, 0-3 arguments, teams of 1-3") {
    cheap();
    int kind = DK[omc::choose(3, "curve")], compound = omc::choose(2, "two functions"), op = omc::choose(5, "query"), n = omc::choose(4, "arguments"), team = 1 + omc::choose(3, "team");
    vector<double> xs = args(n), want, got;
    auto alone = demand(kind, compound);
    for (double x : xs) want.push_back(op == 0 ? alone->Mean(x) : op == 1 ? alone->MeanLn(x) : op == 2 ? alone->Median(x) : op == 3 ? alone->SD_ln(x) : alone->SD(x));
    auto e = demand(kind, compound);
    omc::team_size = team;
    omc::run({[&] { got = op == 0 ? e->EDP::Mean(xs) : op == 1 ? e->EDP::MeanLn(xs) : op == 2 ? e->EDP::Median(xs) : op == 3 ? e->EDP::SD_ln(xs) : e->EDP::SD(xs); }});
    equal("bulk demand query", got, want);
    omc::outcome("ok");
}
HARNESS(bulk_rate, 1, 2, "bulk demand rates: 0-3 levels with repetitions, teams of 1-3, memoised or not before") {
    cheap();
    int kind = DK[omc::choose(2, "curve")], compound = omc::choose(2, "two functions"), n = omc::choose(4, "arguments"), team = 1 + omc::choose(3, "team"), before = omc::choose(2, "asked before"), twice = omc::choose(2, "repeated level");
    vector<double> ys, want, got;
    for (int i = 0; i < n; i++) ys.push_back(twice && i ? 0.1 : 0.1 + 0.2 * i);
    for (double y : ys) { auto alone = demand(kind, compound); want.push_back(alone->lambda(y)); }
    auto e = demand(kind, compound);
    if (before && n) e->lambda(ys[0]);
    omc::team_size = team;
    omc::run({[&] { got = e->par_lambda(ys); }});
    equal("bulk demand rates", got, want);
    equal("afterwards", e->par_lambda(ys), want);
    omc::outcome("ok");
}
// ---- component groups and buildings -------------------------------------------------------------------------------
struct Building { shared_ptr<IM> im; vector<shared_ptr<CompGroup>> g; shared_ptr<Structure> s; };
static Building building(int groups, int shared, int bilevel) {
    Building b;
    b.im = hazard(0); b.s = make_shared<Structure>("b");
    auto edp = make_shared<EDP>(b.im, prob(shared ? 4 : 1));
    auto loss = model::make_loss(bilevel ? 1 : 0, 0);
    auto frag = make_shared<FragilityFn>(model::onsets(0));
    for (int i = 0; i < groups; i++) {
        bool own = !shared && i;
        auto e = own ? make_shared<EDP>(b.im, prob(1, 0.3 + 0.1 * i)) : edp;
        b.g.push_back(make_shared<CompGroup>(e, own ? make_shared<FragilityFn>(model::onsets(i % 8)) : frag, own ? model::make_loss(0, i % 8) : loss, loss, i + 1, 1, 1));
        b.s->AddCompGroup(b.g.back());
    }
    b.s->setRebuildCost(model::money(0, 1)); b.s->setDemolitionCost(model::money(1, 1));
    return b;
}
static vector<double> two(const LogNormalDist &d) { return {d.get_mean_X(), d.get_sigma_X()}; }
HARNESS(group_sections, 1, 1, "the distribution of a group's cost, whose mean and dispersion are found in parallel") {
    cheap();
    int team = 1 + omc::choose(3, "team"), bilevel = 1, curve = omc::choose(2, "interpolated demand"), before = omc::choose(3, "asked before");
    static const double im = 0.9;
    auto alone = building(1, curve, bilevel), b = building(1, curve, bilevel);
    double m = alone.g[0]->E_cost_IM(im), s = building(1, curve, bilevel).g[0]->SD_ln_cost_IM(im);
    if (before == 1) b.g[0]->E_cost_IM(im);
    if (before == 2) b.g[0]->SD_ln_cost_IM(im);
    LogNormalDist d;
    omc::team_size = team;
    omc::run({[&] { d = b.g[0]->CostDist_IM(im); }});
    equal("cost distribution", {d.get_mean_X(), d.get_sigma_lnX()}, {m, s});
    omc::outcome("ok");
}
static void whole(int groups, int nested, int shared) {
    cheap(omc::thorough ? 6 : 4); omc::max_active = nested;
    int team = 1 + omc::choose(3, "team"), op = omc::choose(omc::thorough ? 4 : 2, "query") * (omc::thorough ? 1 : 2);
    static const double im = 0.9;
    // the reference: every group in a building of its own, asked alone
    vector<LogNormalDist> ds;
    for (int i = 0; i < groups; i++) {
        auto alone = building(groups, shared, 1);
        double m = alone.g[i]->E_cost_IM(im), s = alone.g[i]->SD_ln_cost_IM(im);
        ds.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m, s));
    }
    LogNormalDist sum = LogNormalDist::AddDistributions(ds);
    auto b = building(groups, shared, 1);
    vector<double> want, got;
    double pc = b.im->pCollapse(im), pd = b.im->pDemolition(im), pr = b.im->pRepair(im);
    auto rc = model::money(0, 1), dc = model::money(1, 1);
    if (op == 0) want = two(sum);
    if (op == 1) want = two(LogNormalDist::AddWeightedDistributions({sum, rc}, {1 - pc, pc}));
    if (op == 2) want = two(LogNormalDist::AddWeightedDistributions({sum, rc, dc}, {pr, pc, pd}));
    if (op == 3) want = {sum.get_mean_X() * pr, rc.get_mean_X() * pc, dc.get_mean_X() * pd};
    omc::team_size = team;
    omc::run({[&] {
        if (op == 0) got = two(b.s->Cost(im, false));
        if (op == 1) got = two(b.s->Cost(im, true));
        if (op == 2) got = two(b.s->TotalCost(im));
        if (op == 3) { auto c = b.s->CostsByFate(im); got = {c.repair.get_mean_X(), c.collapse.get_mean_X(), c.demolition.get_mean_X()}; }
    }});
    equal("building cost", got, want);
    omc::outcome("ok");
}
HARNESS(building_2_own, 1, 1, "a building of two groups with models of their own, teams of 1-3") { whole(2, 1, 0); }
HARNESS(building_2_shared, 1, 1, "a building of two groups sharing demand, fragility and loss, teams of 1-3") { whole(2, 1, 1); }
HARNESS(building_3, 0, 0, "a building of three groups, teams of 1-3") { whole(3, 1, omc::choose(2, "shared")); }
HARNESS(building_nested, 0, 0, "a building of two groups, each group's parallel part in a team of its own") { whole(2, 2, omc::choose(2, "shared")); }
HARNESS(present_values, 0, 1, "present values over 0-3 periods, teams of 1-3") {
    cheap(4);
    int team = 1 + omc::choose(3, "team"), n = omc::choose(4, "periods");
    vector<int> years; vector<double> want, got;
    for (int i = 0; i < n; i++) years.push_back(i * 25);
    for (int y : years) { auto alone = building(1, 0, 0); want.push_back(alone.s->E_cost(y, 0.05)); }
    auto b = building(1, 0, 0);
    omc::team_size = team;
    omc::run({[&] { got = b.s->E_cost(years, 0.05); }});
    equal("present values", got, want);
    omc::outcome("ok");
}
// ---- any two queries at once -----------------------------------------------------------------------------------------
static const int QUERIES = 14;
static vector<double> query(Building &b, int q) {
    CompGroup &g = *b.g[0]; EDP &e = *g.get_EDP();
    switch (q) {
    case 0: return {b.im->lambda(0.9), b.im->pRepair(0.9)};
    case 1: return {b.im->CollapseRate()};
    case 2: return {b.im->DemolitionRate()};
    case 3: return {e.Mean(0.9), e.SD_ln(1.9), e.P_exceedence(2.5, 0.3)};
    case 4: return {e.lambda(0.2)};
    case 5: return {g.E_cost_EDP(0.2), g.SD_ln_cost_EDP(0.2)};
    case 6: return {g.E_cost_IM(0.9)};
    case 7: return {g.SD_ln_cost_IM(0.9)};
    case 8: return {g.E_delay_IM(0.9)};
    case 9: return {g.SD_ln_delay_IM(0.9)};
    case 10: return {g.get_Fragility()->pExceeded(0.3)[0], g.CostFn()->CalculateLoss({0.2, 0.1}, 5, 1).get_mean_X()};
    case 11: return g.pDS_IM(0.9);
    case 12: return two(b.s->TotalCost(0.9));
    default: return two(b.s->Cost(2.0, false));
    }
}
static void pair(int n, int part, int parts) {
    cheap(omc::thorough ? 8 : 4); omc::team_size = 1;
    int qs[3], shared = omc::thorough ? omc::choose(2, "interpolated demand") : 1;
    for (int i = 0; i < n; i++) { qs[i] = omc::choose(QUERIES, "query"); if (i == 0 && qs[0] % parts != part) return; if (i && qs[i] < qs[i - 1]) return; }
    vector<double> want[3], got[3];
    static std::map<int, vector<double>> memo;
    for (int i = 0; i < n; i++) {
        int k = shared * 100 + qs[i];
        if (!memo.count(k)) { auto alone = building(1, shared, 1); memo[k] = query(alone, qs[i]); }
        want[i] = memo[k];
    }
    auto b = building(1, shared, 1);
    vector<std::function<void()>> bodies;
    for (int i = 0; i < n; i++) bodies.push_back([&, i] { got[i] = query(b, qs[i]); });
    omc::run(bodies);
    for (int i = 0; i < n; i++) equal("one of several queries at once", got[i], want[i]);
    omc::outcome("ok");
}
HARNESS(two_queries_0, 1, 1, "every pair of 14 queries on one building, from two threads (part 1 of 4)") { pair(2, 0, 4); }
HARNESS(two_queries_1, 1, 1, "every pair of 14 queries on one building, from two threads (part 2 of 4)") { pair(2, 1, 4); }
HARNESS(two_queries_2, 1, 1, "every pair of 14 queries on one building, from two threads (part 3 of 4)") { pair(2, 2, 4); }
HARNESS(two_queries_3, 1, 1, "every pair of 14 queries on one building, from two threads (part 4 of 4)") { pair(2, 3, 4); }
HARNESS(three_queries, 0, 0, "every triple of 14 queries on one building, from three threads") { pair(3, 0, 1); }
HARNESS(tables, 2, 4, "two threads looking up one interpolation table at every pair of positions") {
    omc::race_detect = true; Context::Initialise();
    int kind = 2 + omc::choose(2, "table");
    double xs[2][2]; static const double at[] = {0.1, 0.3, 0.5, 1.0, 1.9, 2.2, 3.0};
    for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) xs[t][i] = at[omc::choose(7, "position")];
    auto f = curve(kind); double got[2][2];
    omc::run({[&] { got[0][0] = f->ValueAt(xs[0][0]); omc::point(); got[0][1] = f->ValueAt(xs[0][1]); }, [&] { got[1][0] = f->ValueAt(xs[1][0]); omc::point(); got[1][1] = f->ValueAt(xs[1][1]); }});
    for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) equal("table", {got[t][i]}, {curve(kind)->ValueAt(xs[t][i])});
    omc::outcome("ok");
}
// long lists of arguments, shared out among teams of every size, in turns
HARNESS(long_lists, 0, 0, "every bulk query of 0 to 40 (150) arguments, teams of 1, 2, 3, 5, 8 and 16, members in both orders") {
    cheap(); omc::race_detect = false;
    static const int TEAM[] = {1, 2, 3, 5, 8, 16};
    int op = omc::choose(10, "query"), n = omc::choose(omc::thorough ? 151 : 41, "arguments"); omc::team_size = TEAM[omc::choose(6, "team")]; omc::seq_order = omc::choose(2, "member order");
    vector<double> xs, want, got; for (int i = 0; i < n; i++) xs.push_back(0.05 + 0.07 * ((i * 7) % 41));
    auto i1 = hazard(1), i2 = hazard(1); auto e1 = demand(1, 1), e2 = demand(1, 1);
    if (op == 9) for (double &x : xs) x = 0.1 + 0.2 * (int)(x * 10 / 8);
    for (double x : xs) want.push_back(op == 0 ? i1->lambda(x) : op == 1 ? i1->pCollapse(x) : op == 2 ? i1->pDemolition(x) : op == 3 ? i1->pRepair(x) : op == 4 ? e1->Mean(x) : op == 5 ? e1->MeanLn(x) : op == 6 ? e1->Median(x) : op == 7 ? e1->SD_ln(x) : op == 8 ? e1->SD(x) : e1->lambda(x));
    got = op == 0 ? i2->lambda(xs) : op == 1 ? i2->pCollapse(xs) : op == 2 ? i2->pDemolition(xs) : op == 3 ? i2->pRepair(xs) : op == 4 ? e2->EDP::Mean(xs) : op == 5 ? e2->EDP::MeanLn(xs) : op == 6 ? e2->EDP::Median(xs) : op == 7 ? e2->EDP::SD_ln(xs) : op == 8 ? e2->EDP::SD(xs) : e2->par_lambda(xs);
    equal("bulk query", got, want);
    omc::outcome("ok");
}
HARNESS(large_buildings, 0, 0, "buildings of 1 to 9, 12, 16, 17 and 24 (64) groups, teams of 1, 3, 8 and 16, members in both orders: the cost is the sum, and the present values are those found one by one") {
    cheap(4); omc::race_detect = false;
    static const int TEAM[] = {1, 3, 8, 16}, N[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 64};
    int n = N[omc::choose(omc::thorough ? 14 : 13, "groups")], shared = omc::choose(2, "shared"); omc::team_size = TEAM[omc::choose(4, "team")]; omc::seq_order = omc::choose(2, "member order");
    auto a = building(n, shared, 1), b = building(n, shared, 1); vector<LogNormalDist> ds;
    for (auto &g : a.g) ds.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(g->E_cost_IM(0.9), g->SD_ln_cost_IM(0.9)));
    equal("building cost", two(b.s->Cost(0.9, false)), two(LogNormalDist::AddDistributions(ds)));
    vector<int> years; vector<double> want; for (int i = 0; i < n; i++) years.push_back((i * 7) % 30);
    for (int y : years) want.push_back(a.s->E_cost(y, 0.05));
    equal("present values", b.s->E_cost(years, 0.05), want);
    omc::outcome("ok");
}
