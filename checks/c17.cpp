// C17: component-group results are expectations over demand and hazard.
#include "hazards.h"
#include "comp_group.h"
#include <map>

// ---- what losses should be, given demand ------------------------------------------------------------------------------
struct Frag { int n; LN on[3]; };
static const Frag FRAGS[] = {{2, {LN::median(0.06, 0.4), LN::median(0.3, 0.45)}}, {1, {LN::median(0.15, 0.5)}}, {3, {LN::median(0.04, 0.4), LN::median(0.12, 0.4), LN::median(0.5, 0.4)}}};
struct Loss { int kind; };              // 0 none, 1 simple, 2 quantity-dependent, 3 simple with one free state
static const double CM[3] = {0.03, 0.25, 1.4}, CS[3] = {0.4, 0.4, 0.6};
static double unit(int kind, int state, int count) {
    if (kind == 1) return CM[state];
    if (kind == 3) return state == 0 ? 0 : CM[state] * 3;
    double hi = 2 * CM[state], lo = 0.5 * CM[state];
    return count <= 2 ? hi : count >= 8 ? lo : hi + (count - 2) / 6.0 * (lo - hi);
}
static shared_ptr<LossFn> make_loss(int kind, int n) {
    if (kind == 0) return nullptr;
    if (kind == 2) { vector<shared_ptr<BiLevelLoss>> l; for (int i = 0; i < n; i++) l.push_back(make_shared<BiLevelLoss>(2, 8, 2 * CM[i], 0.5 * CM[i], CS[i])); return make_shared<BiLevelLossFn>(l); }
    vector<LogNormalDist> d; for (int i = 0; i < n; i++) d.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(unit(kind, i, 1), CS[i])); return make_shared<SimpleLossFn>(d);
}
struct Two { double m, v; };
static double cdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static Two given_demand(const Frag &f, int kind, int count, double adj, double edp) {
    double p[4] = {0}; for (int i = 0; i < f.n; i++) p[i] = edp <= 0 ? 0 : cdf((std::log(edp) - (double)f.on[i].mu) / (double)f.on[i].s);
    double m = 0, sq = 0;
    for (int i = 0; i < f.n; i++) { double w = std::max(0.0, p[i] - p[i + 1]), u = unit(kind, i, count), sd2 = u * u * std::expm1(CS[i] * CS[i]); m += w * u; sq += w * (u * u + sd2); }
    double k = count * adj;
    return {m * k, std::max(0.0, sq - m * m) * k * k};
}
struct Mix { double m, sq, e2, s2; };         // mean, mean square; and its two parts
static Mix given_shaking(const Frag &f, int kind, int count, double adj, const LN &d) {
    const int N = 300; Mix r = {0, 0, 0, 0}; double h = 16.0 / N;
    for (int i = 0; i <= N; i++) {
        double z = -8 + i * h, w = (i == 0 || i == N ? 1 : i & 1 ? 4 : 2) * h / 3 * std::exp(-z * z / 2) / std::sqrt(2 * M_PI);
        Two t = given_demand(f, kind, count, adj, std::exp((double)d.mu + (double)d.s * z));
        r.m += w * t.m; r.e2 += w * t.m * t.m; r.s2 += w * t.v;
    }
    r.sq = r.e2 + r.s2;
    return r;
}
static double dispersion(const Mix &x) { double v = std::max(0.0, x.sq - x.m * x.m); return x.m == 0 ? 0 : std::sqrt(std::log1p(v / (x.m * x.m))); }
// the dispersion of delays as src/comp_group.cpp works it out (see known_findings.json)
static double wrong_delay_dispersion(const Mix &x, int n) { double m = x.m / n, v = std::max(0.0, x.e2 / n / n + x.s2 - m * m); return m == 0 ? 0 : std::sqrt(std::log1p(v / (m * m))); }

static const int COUNTS[] = {0, 1, 5};
static const double ADJ[] = {1, 0.4, 2.5};
struct Setup { Hazard h; const Demand *a, *b; const Frag *f; int cost, delay, count; double ca, da; shared_ptr<IM> im; shared_ptr<CompGroup> g;
    LN at(double x) const { return (!b || a->mu.at(x) > b->mu.at(x) ? *a : *b).at(x); } };
static void build(Setup &s) {
    Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(1e-5);
    s.im = make_shared<IM>(s.h.make());
    shared_ptr<EDP> e = s.b ? make_shared<CompoundEDP>(s.im, s.a->make(), s.b->make()) : make_shared<EDP>(s.im, s.a->make());
    vector<LogNormalDist> on; for (int i = 0; i < s.f->n; i++) on.push_back(LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(s.f->on[i].mu, s.f->on[i].s));
    s.g = make_shared<CompGroup>(e, make_shared<FragilityFn>(on), make_loss(s.cost, s.f->n), make_loss(s.delay, s.f->n), s.count, s.ca, s.da, "group");
}
static void demands(Setup &s) { int k = omc::choose(4, "demand"); s.a = &DEMANDS[k % 3]; s.b = k == 3 ? &DEMANDS[1] : nullptr; }

HARNESS(given_demand, 0, 0, "cost and delay at seven demands, for every fragility, pair of loss functions, quantity and pair of adjustment factors") {
    Setup s; s.h = HAZARDS[0]; s.a = &DEMANDS[0]; s.b = nullptr;
    s.f = &FRAGS[omc::choose(3, "fragility")]; s.cost = omc::choose(4, "cost"); s.delay = omc::choose(4, "delay"); s.count = COUNTS[omc::choose(3, "quantity")]; s.ca = ADJ[omc::choose(3, "cost adjustment")]; s.da = ADJ[omc::choose(3, "delay adjustment")];
    build(s);
    for (double e : {0.0, 0.005, 0.03, 0.1, 0.25, 0.8, 5.0}) {
        Two c = given_demand(*s.f, s.cost, s.count, s.ca, e), d = given_demand(*s.f, s.delay, s.count, s.da, e);
        auto one = [&](const char *what, double mean, double sd, double sln, double mln, const Two &t) {
            expect(what, mean, t.m, 1e-6, 1e-12); expect(what, sd, std::sqrt(t.v), 1e-5, 1e-7 * t.m + 1e-12);
            if (t.m > 1e-9) { double w = std::sqrt(std::log1p(t.v / t.m / t.m)); expect(what, sln, w, 1e-5, 1e-6); expect(what, mln, std::log(t.m) - w * w / 2, 1e-5, 1e-5); }
        };
        if (s.cost) one("cost at a demand", s.g->E_cost_EDP(e), s.g->SD_cost_EDP(e), s.g->SD_ln_cost_EDP(e), s.g->mean_ln_cost_EDP(e), c);
        if (s.delay) { double w = d.m > 1e-9 ? std::sqrt(std::log1p(d.v / d.m / d.m)) : 0; one("delay at a demand", s.g->E_delay_EDP(e), s.g->SD_delay_EDP(e), s.g->SD_ln_delay_EDP(e), d.m > 1e-9 ? std::log(d.m) - w * w / 2 : 0, d); }
    }
    if (s.g->get_Name() != "group") omc::fail("the group is called %s", s.g->get_Name().c_str());
    omc::outcome("ok");
}
static void shaking(int part) {
    Setup s; s.h = HAZARDS[0]; demands(s);
    s.f = &FRAGS[omc::choose(3, "fragility")]; s.cost = omc::choose(4, "cost"); s.delay = omc::choose(4, "delay"); s.count = COUNTS[part];
    int k = omc::choose(4, "adjustments"); s.ca = k == 1 ? 0.4 : k == 2 ? 0 : 1; s.da = k == 1 ? 2.5 : k == 3 ? 0 : 1;
    if (k > 1 && (s.cost != 1 || s.delay < 1 || s.b)) return;
    if (!s.cost && !s.delay) return;
    build(s);
    bool reverse = omc::choose(2, "dispersion first");
    for (double x : {0.15, 0.6, 1.3, 3.0}) {
        LN d = s.at(x);
        if (s.cost) {
            Mix w = given_shaking(*s.f, s.cost, s.count, s.ca, d); double m, sl;
            if (reverse) { sl = s.g->SD_ln_cost_IM(x); m = s.g->E_cost_IM(x); } else { m = s.g->E_cost_IM(x); sl = s.g->SD_ln_cost_IM(x); }
            expect("expected cost at a shaking level", m, w.m, 2e-3, 1e-7);
            if (w.m > 1e-4) expect("dispersion of the cost at a shaking level", sl, dispersion(w), 5e-3, 2e-3);
            if (w.m == 0) expect("dispersion of no cost", sl, 0);
            LogNormalDist cd = s.g->CostDist_IM(x); expect("mean of the cost distribution", cd.get_mean_X(), m); if (m > 0) expect("dispersion of the cost distribution", cd.get_sigma_lnX(), sl);
        }
        if (s.delay) {
            Mix w = given_shaking(*s.f, s.delay, s.count, s.da, d); double m, sl;
            if (reverse) { sl = s.g->SD_ln_delay_IM(x); m = s.g->E_delay_IM(x); } else { m = s.g->E_delay_IM(x); sl = s.g->SD_ln_delay_IM(x); }
            expect("expected delay at a shaking level", m, w.m, 2e-3, 1e-7);
            if (w.m == 0) expect("dispersion of no delay", sl, 0);
            if (w.m > 1e-4 && !grid::near(sl, dispersion(w), 5e-3, 2e-3)) {
                if (!grid::near(sl, wrong_delay_dispersion(w, s.count), 5e-3, 2e-3)) omc::fail("the dispersion of the delay at %g is %.8g, should be %.8g", x, sl, dispersion(w));
                omc::violation("delay-dispersion-quantity", "the dispersion of the delay of %d components at %g is %.8g, should be %.8g", s.count, x, sl, dispersion(w));
            }
        }
        vector<double> p = s.g->pDS_IM(x);
        if ((int)p.size() != s.f->n) omc::fail("%zu damage-state probabilities for %d states", p.size(), s.f->n);
        for (int i = 0; i < s.f->n; i++) expect("probability of a damage state at a shaking level", p[i], cdf(((double)d.mu - (double)s.f->on[i].mu) / std::hypot((double)d.s, (double)s.f->on[i].s)), 2e-3, 1e-5);
    }
    omc::outcome("ok");
}
HARNESS(shaking_0, 0, 0, "cost, delay and damage at four shaking levels, for every demand, fragility, pair of loss functions and adjustments: no components") { shaking(0); }
HARNESS(shaking_1, 0, 0, "the same, one component") { shaking(1); }
HARNESS(shaking_5, 0, 0, "the same, five components") { shaking(2); }

static void annual(int demand) {
    Setup s; s.h = HAZARDS[omc::choose(omc::thorough ? 3 : 2, "hazard")]; s.a = &DEMANDS[demand % 3]; s.b = demand == 3 ? &DEMANDS[1] : nullptr;
    s.f = &FRAGS[omc::choose(omc::thorough ? 3 : 2, "fragility")]; s.cost = omc::choose(3, "cost"); s.delay = 1; s.count = COUNTS[omc::choose(3, "quantity")]; s.ca = ADJ[omc::choose(omc::thorough ? 3 : 2, "adjustment")]; s.da = 1;
    if (!omc::thorough && s.cost == 0 && s.ca != 1) return;
    build(s);
    std::map<double, Mix> memo;
    auto at = [&](R x) -> const Mix & { auto it = memo.find((double)x); if (it == memo.end()) it = memo.emplace((double)x, given_shaking(*s.f, s.cost, s.count, s.ca, s.at((double)x))).first; return it->second; };
    auto integral = [&](std::function<R(R)> f) { return simpson([&](R z) { R x = expl(z); return f(x) * fabsl(s.h.slope(x)) * x; }, logl(1e-4L), logl((R)s.h.a) - 1e-12L, 600); };
    bool rate_first = omc::choose(2, "rates first");
    auto annual_cost = [&] { if (s.cost) expect("annual cost", s.g->E_annual_cost(), integral([&](R x) { return at(x).m; }), 2e-3, 1e-8); };
    auto rates = [&] {
        vector<double> r = s.g->Rate();
        if ((int)r.size() != s.f->n) omc::fail("%zu rates for %d states", r.size(), s.f->n);
        for (int i = 0; i < s.f->n; i++) expect("rate of a damage state", r[i], integral([&](R x) { LN d = s.at((double)x); return cdf(((double)d.mu - (double)s.f->on[i].mu) / std::hypot((double)d.s, (double)s.f->on[i].s)); }), 2e-3, 1e-8);
    };
    if (rate_first) { rates(); annual_cost(); } else { annual_cost(); rates(); }
    if (s.cost) for (double c : {0.02, 0.3, 2.0}) {
        R want = s.count == 0 ? 0 : integral([&](R x) { const Mix &w = at(x); if (w.m <= 1e-14) return (R)0; return LN::mean(w.m, dispersion(w)).above(c); });
        expect("rate of exceeding a cost", s.g->lambda_cost(c), want, 6e-3, 2e-7);
    }
    omc::outcome("ok");
}
HARNESS(annual_0, 0, 0, "annual cost, damage-state rates and cost-exceedance rates, demand 0") { annual(0); }
HARNESS(annual_1, 0, 0, "annual cost, damage-state rates and cost-exceedance rates, demand 1") { annual(1); }
HARNESS(annual_2, 0, 0, "annual cost, damage-state rates and cost-exceedance rates, demand 2") { annual(2); }
HARNESS(annual_3, 0, 0, "annual cost, damage-state rates and cost-exceedance rates, two-function demand") { annual(3); }
// the units of shaking, demand and money are the user's choice, and so are quantities and factors
static void in_units(double ui, double ue, double um, int n, double ca, double da) {
    Hazard h = HAZARDS[0]; h.a *= ui;
    auto scaled = [&](const Demand &d) { return Demand{{d.mu.a * ue / std::pow(ui, d.mu.b), d.mu.b}, {d.sd.a / std::pow(ui, d.sd.b), d.sd.b}}; };
    Demand a = scaled(DEMANDS[0]);
    Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(1e-5);
    auto im = make_shared<IM>(h.make()); auto e = make_shared<EDP>(im, a.make());
    const Frag &f = FRAGS[0]; vector<LogNormalDist> on, c; Frag fu = f;
    for (int i = 0; i < f.n; i++) { fu.on[i] = LN::median(f.on[i].med() * ue, f.on[i].s); on.push_back(LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(fu.on[i].mu, fu.on[i].s)); c.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(CM[i] * um, CS[i])); }
    auto g = make_shared<CompGroup>(e, make_shared<FragilityFn>(on), make_shared<SimpleLossFn>(c), make_shared<SimpleLossFn>(c), n, ca, da, "group");
    double big = um * n * std::max(ca, 1e-3), bigd = um * n * std::max(da, 1e-3);
    for (double r : {0.005, 0.03, 0.25, 2.0}) {
        double y = r * ue; Two w = given_demand(fu, 1, n, ca * um, y), v = given_demand(fu, 1, n, da * um, y);
        expect("cost at a demand", g->E_cost_EDP(y), w.m, 1e-6, 1e-12 * big); expect("spread of the cost at a demand", g->SD_cost_EDP(y), std::sqrt(w.v), 1e-5, 1e-6 * big * std::sqrt(r));
        expect("delay at a demand", g->E_delay_EDP(y), v.m, 1e-6, 1e-12 * bigd); expect("spread of the delay at a demand", g->SD_delay_EDP(y), std::sqrt(v.v), 1e-5, 1e-6 * bigd * std::sqrt(r));
    }
    for (double r : {0.15, 0.9, 12.0}) {
        double x = r * ui; LN d = a.at(x); Mix w = given_shaking(fu, 1, n, ca * um, d), v = given_shaking(fu, 1, n, da * um, d);
        expect("expected cost at a shaking level", g->E_cost_IM(x), w.m, 2e-3, 1e-7 * big); expect("expected delay at a shaking level", g->E_delay_IM(x), v.m, 2e-3, 1e-7 * bigd);
        if (w.m > 1e-4 * big) expect("dispersion of the cost at a shaking level", g->SD_ln_cost_IM(x), dispersion(w), 5e-3, 2e-3);
        vector<double> p = g->pDS_IM(x);
        for (int i = 0; i < f.n; i++) expect("probability of a damage state at a shaking level", p[i], cdf(((double)d.mu - (double)fu.on[i].mu) / std::hypot((double)d.s, (double)fu.on[i].s)), 2e-3, 1e-5);
    }
    auto integral = [&](std::function<R(R)> q) { return simpson([&](R z) { R x = expl(z); return q(x) * fabsl(h.slope(x)) * x; }, logl(1e-4L * ui), logl((R)h.a) - 1e-12L, 400); };
    std::map<double, Mix> memo; auto at = [&](R x) -> const Mix & { auto it = memo.find((double)x); if (it == memo.end()) it = memo.emplace((double)x, given_shaking(fu, 1, n, ca * um, a.at((double)x))).first; return it->second; };
    expect("annual cost", g->E_annual_cost(), integral([&](R x) { return at(x).m; }), 2e-3, 1e-8 * big);
    double level = 0.3 * big; R want = integral([&](R x) { const Mix &w = at(x); if (w.m <= 1e-14 * big) return (R)0; return LN::mean(w.m, dispersion(w)).above(level); });
    expect("rate of exceeding a cost", g->lambda_cost(level), want, 6e-3, 2e-7);
    vector<double> r = g->Rate(); for (int i = 0; i < f.n; i++) expect("rate of a damage state", r[i], integral([&](R x) { LN d = a.at((double)x); return cdf(((double)d.mu - (double)fu.on[i].mu) / std::hypot((double)d.s, (double)fu.on[i].s)); }), 2e-3, 1e-8);
    omc::outcome("ok");
}
static const double UI[] = {0.01, 1, 100}, UE[] = {1e-2, 1, 1e2}, UM[] = {1, 1e3, 1e6};
static void units(int i) { double ue = UE[omc::choose(3, "unit of demand")]; in_units(UI[i], ue, UM[omc::choose(3, "unit of money")], 3, 1, 1); }
HARNESS(units_0, 0, 0, "every conditional and annual result of a group, in a unit of shaking of 0.01 and units of demand from 0.01 to 100 and of money from 1 to 1e6") { units(0); }
HARNESS(units_1, 0, 0, "the same in the usual unit of shaking") { units(1); }
HARNESS(units_2, 0, 0, "the same in a unit of shaking of 100") { units(2); }
HARNESS(quantities, 0, 0, "the same results for quantities up to a million") { static const int N[] = {1, 100, 127, 128, 256, 300, 32768, 70000, 1000000}; in_units(1, 1, 1, N[omc::choose(9, "quantity")], 1, 1); }
HARNESS(factors, 0, 0, "the same results for adjustment factors from 0 to 400") { static const double A[][2] = {{0, 1}, {1, 0}, {0.02, 1}, {1, 0.02}, {30, 0.5}, {0.5, 30}, {400, 1}, {1, 400}}; int k = omc::choose(8, "factors"); in_units(1, 1, 1, 5, A[k][0], A[k][1]); }
#include "companions.h"
HARNESS(side_by_side, 0, 0, "three groups on one hazard and two demands, every sequence of three queries at the same levels") {
    auto make = [](int k) {
        Setup s; s.h = HAZARDS[0]; s.a = &DEMANDS[k ? 1 : 0]; s.b = nullptr; s.f = &FRAGS[k == 0 ? 0 : k == 1 ? 0 : 2]; s.cost = k == 1 ? 2 : 1; s.delay = k == 0 ? 2 : 1; s.count = 2 + k; s.ca = 1 + 0.3 * k; s.da = 1 + 0.4 * k;
        build(s); Integration::IntegrationSettings::Set_Tolerance(1e-2);
        auto g = s.g; typedef vector<double> V; companions::Queries q;
        q.push_back({"cost at a demand", [=] { return V{g->E_cost_EDP(0.2), g->SD_cost_EDP(0.2)}; }}); q.push_back({"delay at a demand", [=] { return V{g->E_delay_EDP(0.2), g->SD_delay_EDP(0.2)}; }});
        for (double x : {0.6, 1.3}) { q.push_back({"cost at a shaking level", [=] { return V{g->E_cost_IM(x), g->SD_ln_cost_IM(x)}; }}); q.push_back({"delay at a shaking level", [=] { return V{g->E_delay_IM(x), g->SD_ln_delay_IM(x)}; }}); }
        q.push_back({"damage at a shaking level", [=] { return g->pDS_IM(0.6); }});
        q.push_back({"annual cost", [=] { return V{g->E_annual_cost()}; }}); q.push_back({"rate of a cost", [=] { return V{g->lambda_cost(0.2)}; }}); q.push_back({"damage rates", [=] { return g->Rate(); }});
        return q;
    };
    companions::turns(3, make, omc::thorough ? 3 : 2);
}
HARNESS(side_by_side_levels, 0, 0, "the same, every sequence of three (four) cheaper queries") {
    auto make = [](int k) {
        Setup s; s.h = HAZARDS[0]; s.a = &DEMANDS[k ? 1 : 0]; s.b = nullptr; s.f = &FRAGS[k == 0 ? 0 : k == 1 ? 0 : 2]; s.cost = k == 1 ? 2 : 1; s.delay = k == 0 ? 2 : 1; s.count = 2 + k; s.ca = 1 + 0.3 * k; s.da = 1 + 0.4 * k;
        build(s); Integration::IntegrationSettings::Set_Tolerance(1e-2);
        auto g = s.g; typedef vector<double> V; companions::Queries q;
        q.push_back({"cost at a demand", [=] { return V{g->E_cost_EDP(0.2)}; }}); q.push_back({"delay at a demand", [=] { return V{g->E_delay_EDP(0.2)}; }}); q.push_back({"spread at a demand", [=] { return V{g->SD_cost_EDP(0.2), g->SD_delay_EDP(0.2)}; }});
        q.push_back({"cost at a shaking level", [=] { return V{g->E_cost_IM(0.6)}; }}); q.push_back({"spread of cost", [=] { return V{g->SD_ln_cost_IM(0.6)}; }}); q.push_back({"delay at a shaking level", [=] { return V{g->E_delay_IM(0.6)}; }}); q.push_back({"spread of delay", [=] { return V{g->SD_ln_delay_IM(0.6)}; }});
        return q;
    };
    companions::turns(3, make, omc::thorough ? 4 : 3);
}
