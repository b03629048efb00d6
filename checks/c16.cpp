// C16: fates partition every shaking level, and rates integrate over the hazard.
#include "hazards.h"

struct Fate { int set; LN d; };
static Fate fate(const char *which, double m1, double m2) {
    int k = omc::choose(4, which);
    return {k > 0, k == 3 ? LN::mean(m2, 0.8) : LN::median(k == 2 ? m2 : m1, 0.45)};
}
static LogNormalDist make(const LN &d) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(d.mu, d.s); }
struct Model { Hazard h; Fate c, d; shared_ptr<IM> im;
    R pc(R x) const { return c.set ? c.d.below(x) : 0; }
    R pd(R x) const { if (!d.set) return 0; R p = d.d.below(x) - pc(x); return p < 0 ? 0 : p; }
    R pr(R x) const { return 1 - pc(x) - pd(x); } };
static Model pick(int hazard = -1) {
    Model m; m.h = HAZARDS[hazard < 0 ? omc::choose(4, "hazard") : hazard];
    m.c = fate("collapse", 1.2, 3); m.d = fate("demolition", 0.9, 2);
    Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(m.h.kind ? 1e-4 : 1e-6);
    m.im = make_shared<IM>(m.h.make());
    // through either way of setting them, in either order
    int how = omc::choose(2, "how set");
    if (how) { if (m.d.set) m.im->SetDemolition(make(m.d.d)); if (m.c.set) m.im->SetCollapse(make(m.c.d)); }
    else { if (m.c.set) m.im->SetCollapse(make_shared<LogNormalDist>(make(m.c.d))); if (m.d.set) m.im->SetDemolition(make_shared<LogNormalDist>(make(m.d.d))); }
    return m;
}
static const double IMS[] = {0, 1e-3, 0.03, 0.2, 0.6, 1, 1.7, 3, 6, 20};
HARNESS(partition, 0, 0, "fates at ten shaking levels, for every hazard, collapse and demolition model") {
    Model m = pick();
    vector<double> xs(IMS, IMS + 10), a = m.im->pCollapse(xs), b = m.im->pDemolition(xs), c = m.im->pRepair(xs);
    for (int i = 0; i < 10; i++) {
        double x = xs[i], p = m.im->pCollapse(x), q = m.im->pDemolition(x), r = m.im->pRepair(x);
        expect("probability of collapse", p, m.pc(x), 1e-6, 1e-9); expect("probability of demolition", q, m.pd(x), 1e-6, 1e-9); expect("probability of repair", r, m.pr(x), 1e-6, 1e-9);
        expect("total", p + q + r, 1, 1e-9);
        if (!m.c.set && p != 0) omc::fail("collapse without a collapse model"); if (!m.d.set && q != 0) omc::fail("demolition without a demolition model");
        expect("in bulk", a[i], p, 1e-12); expect("in bulk", b[i], q, 1e-12); expect("in bulk", c[i], r, 1e-12);
        expect("rate of exceedance", m.im->lambda(x), m.h.rate(x), 1e-6, 1e-300);
        bool knot = false; for (double t : TX) if (std::abs(t - x) < 1e-6) knot = true;
        if (x > 1e-3 && !(m.h.kind && knot) && m.h.rate(x) > 1e-9) expect("slope", m.im->DerivativeAt(x), m.h.slope(x), 1e-3, 3e-6 * (double)m.h.rate(x));
    }
    omc::outcome("ok");
}
HARNESS(fate_rates, 0, 0, "collapse and demolition rates, for every hazard, collapse and demolition model, in both orders") {
    Model m = pick();
    double c, d; if (omc::choose(2, "demolition first")) { d = m.im->DemolitionRate(); c = m.im->CollapseRate(); } else { c = m.im->CollapseRate(); d = m.im->DemolitionRate(); }
    if (!m.c.set) { if (c != 0) omc::fail("collapse rate %g without a collapse model", c); } else expect("collapse rate", c, m.h.integral([&](R x) { return m.pc(x); }), TOL);
    if (!m.d.set) { if (d != 0) omc::fail("demolition rate %g without a demolition model", d); } else expect("demolition rate", d, m.h.integral([&](R x) { return m.pd(x); }), TOL);
    omc::outcome("ok");
}
static const double LEVELS[] = {0.01, 0.05, 0.2, 0.7, 2};
static const Demand &larger(const Demand *a, const Demand *b, R x) { return !b || a->mu.at(x) > b->mu.at(x) ? *a : *b; }
static shared_ptr<EDP> make(const Model &m, const Demand *a, const Demand *b) {
    if (b) return make_shared<CompoundEDP>(m.im, a->make(), b->make());
    return make_shared<EDP>(m.im, a->make());
}
HARNESS(demand, 0, 0, "every plain and two-function demand relationship: conditional answers at ten shaking levels") {
    Model m; m.im = make_shared<IM>(HAZARDS[0].make());
    const Demand *a = &DEMANDS[omc::choose(3, "first")]; int k = omc::choose(4, "second"); const Demand *b = k ? &DEMANDS[k - 1] : nullptr;
    auto e = make(m, a, b);
    for (double x : IMS) {
        if (x == 0) continue;
        LN w = larger(a, b, x).at(x);
        expect("mean", e->Mean(x), w.mean()); expect("log-mean", e->MeanLn(x), w.mu, 1e-6, 1e-6); expect("median", e->Median(x), w.med()); expect("dispersion", e->SD_ln(x), w.s); expect("standard deviation", e->SD(x), w.sd());
        for (double y : LEVELS) expect("exceedance", e->P_exceedence(x, y), w.above(y), 1e-6, 1e-9);
        for (double y : {0.0, 1e-9, 1e9}) expect("exceedance", e->P_exceedence(x, y), y > 0 ? w.above(y) : 1, 1e-6, 1e-9);
        for (double p : {0.1, 0.5, 0.8}) expect("probability at the quantile", w.below(e->X_at_exceedence(x, p)), p, 1e-6, 1e-8);
    }
    if (e->Base_Rate() != m.im) omc::fail("the demand relationship names another hazard");
    omc::outcome("ok");
}
static void rates(int hazard) {
    Model m = pick(hazard);
    const Demand *a = &DEMANDS[omc::choose(omc::thorough ? 3 : 2, "first")]; int k = omc::choose(3, "second"); const Demand *b = k ? &DEMANDS[k - 1 + (a == DEMANDS)] : nullptr;
    auto e = make(m, a, b);
    double last = INFINITY;
    for (int i = 0; i < 5; i++) {
        double y = LEVELS[i], got = e->lambda(y);
        R want = m.h.integral([&](R x) { R r = m.pr(x); return larger(a, b, x).at(x).above(y) * r + 1 - r; });
        expect("rate of exceeding a demand", got, want, b ? 4 * TOL : TOL, 1e-9);
        if (got > last * (1 + TOL) + 1e-9) omc::fail("the rate of exceedance rises from %.8g to %.8g at demand %g", last, got, y);
        last = got;
        if (got != e->lambda(y)) omc::fail("asked again, the rate differs");
    }
    auto bulk = e->par_lambda({LEVELS[0], LEVELS[3]}); expect("in bulk", bulk[0], e->lambda(LEVELS[0]), 1e-9); expect("in bulk", bulk[1], e->lambda(LEVELS[3]), 1e-9);
    omc::outcome("ok");
}
HARNESS(demand_rates_0, 0, 0, "rates of exceeding five demand levels, for every collapse and demolition model and demand relationship, hazard 0") { rates(0); }
HARNESS(demand_rates_1, 0, 0, "rates of exceeding five demand levels, for every collapse and demolition model and demand relationship, hazard 1") { rates(1); }
HARNESS(demand_rates_2, 0, 0, "rates of exceeding five demand levels, for every collapse and demolition model and demand relationship, hazard 2") { rates(2); }
HARNESS(demand_rates_3, 0, 0, "rates of exceeding five demand levels, for every collapse and demolition model and demand relationship, hazard 3") { rates(3); }
// the units of shaking and demand are the user's choice
HARNESS(units, 0, 0, "fates, conditional answers and rates of three hazards in units of shaking from 0.01 to 100 and of demand from 0.001 to 1000") {
    static const double UI[] = {0.01, 0.1, 10, 100}, UE[] = {1e-3, 1, 1e3};
    double ui = UI[omc::choose(4, "unit of shaking")], ue = UE[omc::choose(3, "unit of demand")];
    Model m; m.h = HAZARDS[omc::choose(3, "hazard")]; m.h.a *= ui;
    m.c = {omc::choose(2, "collapse"), LN::median(1.2 * ui, 0.45)}; m.d = {omc::choose(2, "demolition"), LN::median(0.9 * ui, 0.45)};
    Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(1e-6);
    m.im = make_shared<IM>(m.h.make()); if (m.c.set) m.im->SetCollapse(make(m.c.d)); if (m.d.set) m.im->SetDemolition(make(m.d.d));
    auto scaled = [&](const Demand &d) { return Demand{{d.mu.a * ue / std::pow(ui, d.mu.b), d.mu.b}, {d.sd.a / std::pow(ui, d.sd.b), d.sd.b}}; };
    Demand a = scaled(DEMANDS[0]), c = scaled(DEMANDS[1]); const Demand *b = omc::choose(2, "two-function demand") ? &c : nullptr;
    auto e = make(m, &a, b);
    for (double r : {1e-3, 0.03, 0.6, 1.7, 6.0}) {
        double x = r * ui; LN w = larger(&a, b, x).at(x);
        expect("probability of collapse", m.im->pCollapse(x), m.pc(x), 1e-6, 1e-12); expect("probability of demolition", m.im->pDemolition(x), m.pd(x), 1e-6, 1e-12); expect("probability of repair", m.im->pRepair(x), m.pr(x), 1e-6, 1e-12);
        expect("rate of exceedance", m.im->lambda(x), m.h.rate(x), 1e-6, 1e-300);
        expect("mean", e->Mean(x), w.mean()); expect("log-mean", e->MeanLn(x), w.mu, 1e-6, 1e-6); expect("median", e->Median(x), w.med()); expect("dispersion", e->SD_ln(x), w.s); expect("standard deviation", e->SD(x), w.sd());
        for (double y : LEVELS) expect("exceedance", e->P_exceedence(x, y * ue), w.above(y * ue), 1e-6, 1e-12);
        expect("probability at the quantile", w.below(e->X_at_exceedence(x, 0.3)), 0.3, 1e-6, 1e-8);
    }
    auto rate = [&](std::function<R(R)> p) { return m.h.integral([&](R x) { return p(x); }); };
    expect("collapse rate", m.im->CollapseRate(), m.c.set ? rate([&](R x) { return m.pc(x); }) : 0, TOL); expect("demolition rate", m.im->DemolitionRate(), m.d.set ? rate([&](R x) { return m.pd(x); }) : 0, TOL);
    for (double y : {0.05, 0.2, 0.7}) expect("rate of exceeding a demand", e->lambda(y * ue), rate([&](R x) { R r = m.pr(x); return larger(&a, b, x).at(x).above(y * ue) * r + 1 - r; }), b ? 4 * TOL : TOL, 1e-9);
    omc::outcome("ok");
}
#include "companions.h"
HARNESS(side_by_side, 0, 0, "three hazards with two demand relationships each, every sequence of three queries at the same levels") {
    int compound = omc::choose(2, "two-function demands");
    auto make = [=](int k) {
        Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(1e-3);
        auto im = make_shared<IM>(HAZARDS[k].make());
        im->SetCollapse(::make(LN::median(1.2 + k, 0.45))); im->SetDemolition(::make(LN::median(0.9 + 0.3 * k, 0.3)));
        Demand first = {{0.1 * (1 + 0.3 * k), 1.5}, {0.5 - 0.1 * k, 0}}, second = {{0.2 * (1 + 0.3 * k), 0.8}, {0.3 + 0.1 * k, 0.1}};      // the second object names them the other way round
        auto e = compound ? shared_ptr<EDP>(make_shared<CompoundEDP>(im, (k == 1 ? second : first).make(), (k == 1 ? first : second).make())) : make_shared<EDP>(im, DEMANDS[k].make());
        typedef vector<double> V; companions::Queries q;
        q.push_back({"fates", [=] { return V{im->pCollapse(1.4), im->pDemolition(1.4), im->pRepair(1.4)}; }});
        q.push_back({"hazard", [=] { return V{im->lambda(0.8), im->DerivativeAt(0.8)}; }});
        q.push_back({"fate rates", [=] { return V{im->CollapseRate(), im->DemolitionRate()}; }});
        for (double x : {0.4, 1.7}) q.push_back({"demand", [=] { return V{e->Mean(x), e->MeanLn(x), e->Median(x), e->SD_ln(x), e->SD(x)}; }});
        q.push_back({"exceedance", [=] { return V{e->P_exceedence(0.9, 0.2), e->X_at_exceedence(0.9, 0.3)}; }});
        q.push_back({"demand rate", [=] { return V{e->lambda(0.2)}; }});
        return q;
    };
    static std::map<int, companions::Table> tables;
    companions::turns(3, make, omc::thorough ? 4 : 3, nullptr, &tables[compound]);
}
