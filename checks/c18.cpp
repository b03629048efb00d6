// C18: building costs combine groups and fates without loss or double counting.
#include "hazards.h"
#include "comp_group.h"
#include "structure.h"
#include <map>

static LogNormalDist ln(double m, double s) { return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m, s); }
static LogNormalDist make(const LN &d) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(d.mu, d.s); }
// ---- the pieces ---------------------------------------------------------------------------------------------------------
static double UI = 1, UM = 1;           // the units of shaking and of money
static const int KINDS = 4;             // three groups that cost something and one with no components
static shared_ptr<CompGroup> group(int kind, shared_ptr<IM> im) {
    static const double M[KINDS][2] = {{0.03, 0.25}, {0.4, 1.1}, {0.02, 3.0}, {0.1, 0.2}};
    static const int N[KINDS] = {3, 1, 2, 0};
    auto demand = [](const Demand &d) { return Demand{{d.mu.a / std::pow(UI, d.mu.b), d.mu.b}, {d.sd.a / std::pow(UI, d.sd.b), d.sd.b}}; };
    shared_ptr<EDP> e = kind == 2 ? make_shared<CompoundEDP>(im, demand(DEMANDS[0]).make(), demand(DEMANDS[1]).make()) : make_shared<EDP>(im, demand(DEMANDS[kind % 3]).make());
    vector<LogNormalDist> on = {make(LN::median(0.08 + 0.05 * kind, 0.4)), make(LN::median(0.4, 0.45))};
    vector<LogNormalDist> c = {ln(M[kind][0] * UM, 0.4), ln(M[kind][1] * UM, 0.3)};
    return make_shared<CompGroup>(e, make_shared<FragilityFn>(on), make_shared<SimpleLossFn>(c), nullptr, N[kind], kind == 1 ? 1.5 : 1.0, 1.0, "group");
}
static void settings() { Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(1e-5); }
// what one group costs at a shaking level, asked of a group that belongs to no building (C17 decides that this is right)
struct Two { double m, v; };
static Two alone(int kind, double x) {
    static std::map<std::pair<int, double>, Two> memo; static shared_ptr<CompGroup> g[KINDS]; static double ui = 1, um = 1;
    if (ui != UI || um != UM) { memo.clear(); for (auto &p : g) p = nullptr; ui = UI; um = UM; }
    auto k = std::make_pair(kind, x); auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    if (!g[kind]) { Hazard h = HAZARDS[0]; h.a *= UI; g[kind] = group(kind, make_shared<IM>(h.make())); }
    double m = g[kind]->E_cost_IM(x), s = g[kind]->SD_ln_cost_IM(x);
    return memo[k] = {m, m == 0 ? 0 : m * m * std::expm1(s * s)};
}
struct Price { bool set; double m, s; double sd() const { return m * std::sqrt(std::expm1(s * s)); } LogNormalDist dist() const { return ln(m, s); } };
static const Price PRICES[4] = {{false, 0, 0}, {true, 14, 0.35}, {true, 3.0, 0.0}, {true, 0.5, 1.1}};
struct Fate { int set; LN d; };
static const Fate COL[3] = {{0, {}}, {1, LN::median(1.2, 0.45)}, {1, LN::median(3, 0.3)}}, DEM[3] = {{0, {}}, {1, LN::median(0.8, 0.45)}, {1, LN::median(4, 0.2)}};
struct Building {
    Hazard h; Fate c, d; Price rebuild, demolish; vector<int> kinds;
    shared_ptr<IM> im; shared_ptr<CompGroup> g[KINDS]; shared_ptr<Structure> s;
    double pc(double x) const { return c.set ? (double)c.d.below(x) : 0; }
    double pd(double x) const { double p = d.set ? (double)d.d.below(x) - pc(x) : 0; return p < 0 ? 0 : p; }
    double pr(double x) const { return 1 - pc(x) - pd(x); }
    void make_parts() {
        settings();
        im = make_shared<IM>(h.make()); if (c.set) im->SetCollapse(make(c.d)); if (d.set) im->SetDemolition(make(d.d));
        for (int k = 0; k < KINDS; k++) g[k] = group(k, im);
        s = make_shared<Structure>("building"); prices();
    }
    void prices() { if (rebuild.set) s->setRebuildCost(rebuild.dist()); if (demolish.set) s->setDemolitionCost(demolish.dist()); }
    void add(int k) { s->AddCompGroup(g[k]); kinds.push_back(k); }
    void remove(int k) { omc::Quiet q; s->RemoveCompGroup(g[k]); for (size_t i = 0; i < kinds.size(); i++) if (kinds[i] == k) { kinds.erase(kinds.begin() + i); break; } }
    Two repair(double x) const { Two r = {0, 0}; for (int k : kinds) { Two t = alone(k, x); r.m += t.m; r.v += t.v; } return r; }
    // mean and variance of the mixture of what may happen; unpriced fates that can happen make it unknown
    Two total(double x) const {
        Two r = repair(x); double m = r.m * pr(x), q = (r.m * r.m + r.v) * pr(x);
        auto fate = [&](const Price &p, double w) { if (w <= 0) return; if (!p.set) { m = q = NAN; return; } m += p.m * w; q += (p.m * p.m + p.sd() * p.sd()) * w; };
        fate(demolish, pd(x)); fate(rebuild, pc(x));
        return {m, std::max(0.0, q - m * m)};
    }
};
static void moments(const char *what, const LogNormalDist &d, const Two &w, double square = 0) {
    if (std::isnan(w.m)) { if (!std::isnan(d.get_mean_X())) omc::fail("%s is %.10g though a fate that can happen has no price", what, d.get_mean_X()); return; }
    expect(what, d.get_mean_X(), w.m, 1e-7, 1e-12);
    // the variance is a difference of squares, known to within their rounding
    double got = d.get_sigma_X() * d.get_sigma_X();
    omc::count("values compared");
    if (!(std::abs(got - w.v) <= 1e-6 * w.v + 1e-12 * (w.m * w.m + square) + 1e-18)) omc::fail("%s: variance is %.12g, should be %.12g", what, got, w.v);
}
static const double IMS[] = {0.05, 0.3, 0.9, 1.6, 4.0, 9.0, 20.0, 60.0};
static void conditional(Building &b, double x) {
    Structure &s = *b.s; Two r = b.repair(x);
    moments("repair cost of the building", s.Cost(x, false), r);
    double pc = b.pc(x), pd = b.pd(x), pr = b.pr(x);
    if (b.kinds.empty()) {
        if (!std::isnan(s.TotalCost(x).get_mean_X())) omc::fail("an empty building has a total cost");
        if (!std::isnan(s.pdf(x))) omc::fail("an empty building has a cost density");
        s.Cost(x, true); s.CostsByFate(x); s.DeaggregatedCost(x);
        return;
    }
    if (b.rebuild.set) {
        double R_ = b.rebuild.m, V = b.rebuild.sd() * b.rebuild.sd(), m = (1 - pc) * r.m + pc * R_, q = (1 - pc) * (r.m * r.m + r.v) + pc * (R_ * R_ + V);
        moments("cost of repair or collapse", s.Cost(x, true), {m, std::max(0.0, q - m * m)}, R_ * R_);
        auto d = s.DeaggregatedCost(x);
        expect("share without collapse", d.first.get_mean_X(), (1 - pc) * r.m, 1e-7, 1e-12); expect("share of collapse", d.second.get_mean_X(), pc * R_, 1e-7, 1e-12);
    } else if (pc > 0 && !std::isnan(s.Cost(x, true).get_mean_X())) omc::fail("a cost with collapse though rebuilding has no price");
    Two t = b.total(x);
    moments("total cost", s.TotalCost(x), t, b.rebuild.m * b.rebuild.m + b.demolish.m * b.demolish.m);
    Structure::COSTS f = s.CostsByFate(x);
    expect("share of repair", f.repair.get_mean_X(), pr * r.m, 1e-7, 1e-12);
    if (b.demolish.set) expect("share of demolition", f.demolition.get_mean_X(), pd * b.demolish.m, 1e-7, 1e-12);
    if (b.rebuild.set) expect("share of collapse", f.collapse.get_mean_X(), pc * b.rebuild.m, 1e-7, 1e-12);
    if (b.demolish.set && b.rebuild.set) expect("sum of the shares", f.repair.get_mean_X() + f.demolition.get_mean_X() + f.collapse.get_mean_X(), s.TotalCost(x).get_mean_X(), 1e-9, 1e-12);
    // shares keep the dispersion of what they are a share of
    if (b.demolish.set && pd > 1e-6) expect("dispersion of the demolition share", f.demolition.get_sigma_lnX(), b.demolish.s, 1e-9, 1e-12);
    if (b.rebuild.set && pc > 1e-6) expect("dispersion of the collapse share", f.collapse.get_sigma_lnX(), b.rebuild.s, 1e-9, 1e-12);
    if (!std::isnan(t.m) && b.h.rate(x) > 1e-9) expect("cost density", s.pdf(x), t.m * (double)fabsl(b.h.slope(x)), 2e-3, 1e-12 + 5e-6 * (double)b.h.rate(x) * t.m);
}
// ---- every building of up to three groups, in every order --------------------------------------------------------------------
static void groups_of(Building &b, int max, std::vector<int> *order = nullptr) {
    int n = omc::choose(max + 1, "groups");
    for (int i = 0; i < n; i++) b.add(omc::choose(KINDS, "group"));
}
static void setup(Building &b, int hazard, int c, int d, int r, int m) { b.h = HAZARDS[hazard]; b.h.a *= UI; b.c = COL[c]; b.d = DEM[d]; b.c.d.mu += logl(UI); b.d.d.mu += logl(UI); b.rebuild = PRICES[r]; b.demolish = PRICES[m]; b.rebuild.m *= UM; b.demolish.m *= UM; b.make_parts(); }
HARNESS(conditional_fates, 0, 0, "costs at eight shaking levels, for every collapse and demolition model and every pair of prices; up to two groups in every order") {
    int c = omc::choose(3, "collapse"), d = omc::choose(3, "demolition"), r = omc::choose(4, "rebuilding"), m = omc::choose(4, "demolishing");
    Building b; setup(b, 0, c, d, r, m); groups_of(b, omc::thorough ? 3 : 2);
    bool high_first = omc::choose(2, "strongest first");
    for (int i = 0; i < 8; i++) conditional(b, IMS[high_first ? 7 - i : i]);
    omc::outcome(b.kinds.empty() ? "empty" : std::isnan(b.total(0.9).m) ? "unpriced" : "priced");
}
HARNESS(conditional_groups, 0, 0, "costs at eight shaking levels of every sequence of up to four groups, one group several times included") {
    Building b; setup(b, 0, 1, 1, 1, 3); groups_of(b, omc::thorough ? 5 : 4);
    for (double x : IMS) conditional(b, x);
    omc::outcome(b.kinds.empty() ? "empty" : "ok");
}
static shared_ptr<CompGroup> foreign() { return group(0, make_shared<IM>(HAZARDS[1].make())); }
HARNESS(membership, 0, 0, "every history of five (thorough: seven) additions, removals and refusals") {
    Building b; setup(b, 0, 1, 2, 1, 1);
    int depth = omc::thorough ? 7 : 5;
    for (int i = 0; i < depth; i++) {
        int op = omc::choose(6, "edit");
        if (op < 2) b.add(op);
        else if (op < 4) b.remove(op - 2);
        else if (op == 4) { if (b.kinds.empty()) { omc::outcome("nothing to refuse"); return; } auto f = foreign(); if (!grid::refuses([&] { b.s->AddCompGroup(f); })) omc::fail("a group for another hazard was accepted"); }
        else { auto f = foreign(); omc::Quiet q; b.s->RemoveCompGroup(f); }      // never was a member
        conditional(b, 0.9);
        auto l = b.s->Components();
        if (l.size() != b.kinds.size()) omc::fail("%zu groups listed, should be %zu", l.size(), b.kinds.size());
        for (size_t k = 0; k < l.size(); k++) if (l[k] != b.g[b.kinds[k]]) omc::fail("group %zu of the list is another one", k);
    }
    if (b.s->get_Name() != "building") omc::fail("the building is called %s", b.s->get_Name().c_str());
    omc::outcome(b.kinds.empty() ? "empty" : "ok");
}
// ---- the year and the years ------------------------------------------------------------------------------------------------
static void the_years(Building &b);
static void annual(int hazard) {
    Building b; int c = omc::choose(3, "collapse"), d = omc::choose(3, "demolition"), p = omc::choose(2, "prices");
    setup(b, hazard, c, d, p ? 2 : 1, p ? 3 : 1);
    static const vector<int> SETS[] = {{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 0}, {2, 3, 1}, {3}, {0, 1, 2, 1}};
    vector<int> w = SETS[omc::choose(omc::thorough ? 10 : 8, "groups")]; for (int k : w) b.add(k);
    the_years(b);
}
static void the_years(Building &b) {
    Structure &s = *b.s;
    LogNormalDist a = s.AnnualCost();
    if (b.kinds.empty()) { if (!std::isnan(a.get_mean_X())) omc::fail("an empty building has an annual cost"); omc::outcome("empty"); return; }
    auto integral = [&](std::function<R(R)> f) { return (double)simpson([&](R z) { R x = expl(z); return f((double)x) * fabsl(b.h.slope(x)) * x; }, logl(1e-3L * UI), logl((R)b.h.a) - 1e-12L, 500); };
    double mu = integral([&](R x) { return b.total((double)x).m; }), sq = integral([&](R x) { Two t = b.total((double)x); return t.m * t.m + t.v; });
    expect("annual cost", a.get_mean_X(), mu, 2e-3, 1e-9 * UM);
    double sd = std::sqrt(std::abs(sq - mu * mu));
    if (std::abs(sq - mu * mu) > 0.05 * sq) expect("dispersion of the annual cost", a.get_sigma_X(), sd, 0.03, 1e-9);
    double A = a.get_mean_X();
    vector<int> years = {50, 0, 1, 10, 10, 3, 100, 300};
    for (double rate : {0.05, 0.2, 0.0, -0.02, 0.001, 1e-5, 1.0, 3.0}) {
        double last = -1;
        for (int y : {0, 1, 2, 3, 10, 50, 100, 400, 1000, 40000}) {
            if (rate * y < -50) continue;
            double v = s.E_cost(y, rate), want = rate == 0 ? A * y : A * -std::expm1(-rate * y) / rate;
            expect("present value", v, want, 1e-9, 1e-15);
            if (y == 0 && v != 0) omc::fail("no years are worth %g", v);
            if (A > 0 && rate * y < 15 && !(v > last)) omc::fail("%d years are worth %.12g, fewer years %.12g", y, v, last);
            last = v;
        }
        vector<double> many = s.E_cost(years, rate);
        if (many.size() != years.size()) omc::fail("%zu present values for %zu periods", many.size(), years.size());
        for (size_t i = 0; i < years.size(); i++) expect("present value in bulk", many[i], s.E_cost(years[i], rate), 1e-12);
        if (!s.E_cost(vector<int>(), rate).empty()) omc::fail("present values for no period");
    }
    omc::outcome("ok");
}
HARNESS(annual_0, 0, 0, "annual cost and present values, for every collapse and demolition model, two price lists and eight lists of groups: hazard 0") { annual(0); }
HARNESS(annual_1, 0, 0, "the same, hazard 1") { annual(1); }
HARNESS(annual_2, 0, 0, "the same, hazard 2") { annual(2); }
// the units of shaking and money are the user's choice
HARNESS(units, 0, 0, "costs at eight shaking levels, annual cost and present values in units of shaking from 0.01 to 100 and of money from 1 to 1e6, for four lists of groups") {
    static const double I[] = {0.01, 1, 100}, M[] = {1, 1e3, 1e6}; UI = I[omc::choose(3, "unit of shaking")]; UM = M[omc::choose(3, "unit of money")];
    Building b; setup(b, omc::choose(2, "hazard"), 1, 1, 1, 3);
    static const vector<int> SETS[] = {{0}, {1, 2}, {0, 1, 2, 3}, {2, 2}};
    for (int k : SETS[omc::choose(4, "groups")]) b.add(k);
    for (double x : {0.002, 0.02}) conditional(b, x * UI);
    for (double x : IMS) conditional(b, x * UI);
    the_years(b);
    UI = UM = 1;
}
#include "companions.h"
HARNESS(side_by_side, 0, 0, "three buildings on one hazard or on three, every sequence of two (three) queries at the same levels") {
    int shared = omc::choose(2, "one hazard");
    auto make = [=](int k) {
        auto b = make_shared<Building>();
        setup(*b, shared ? 0 : k, 1, 1 + (k & 1), 1 + k % 3, 1 + (k + 1) % 3); for (int i = 0; i <= k; i++) b->add((k + i) % KINDS);
        Integration::IntegrationSettings::Set_Tolerance(1e-2);
        typedef vector<double> V; companions::Queries q; auto two = [](const LogNormalDist &d) { return V{d.get_mean_X(), d.get_sigma_lnX()}; };
        for (double x : {0.3, 0.9}) {
            q.push_back({"repair cost", [=] { return two(b->s->Cost(x, false)); }}); q.push_back({"cost with collapse", [=] { return two(b->s->Cost(x, true)); }}); q.push_back({"total cost", [=] { return two(b->s->TotalCost(x)); }});
            q.push_back({"shares", [=] { auto f = b->s->CostsByFate(x); return V{f.repair.get_mean_X(), f.demolition.get_mean_X(), f.collapse.get_mean_X()}; }});
        }
        q.push_back({"density", [=] { return V{b->s->pdf(0.9)}; }}); q.push_back({"annual cost", [=] { return two(b->s->AnnualCost()); }}); q.push_back({"present value", [=] { return V{b->s->E_cost(20, 0.06)}; }});
        return q;
    };
    static std::map<int, companions::Table> tables;
    companions::turns(3, make, omc::thorough ? 3 : 2, nullptr, &tables[shared]);
}
HARNESS(many_groups, 0, 0, "one to 40 (100) groups of the four kinds, in four patterns; some removed again from the front, the back or the middle") {
    Building b; setup(b, 0, 1, 1, 1, 3); int n = 1 + omc::choose(omc::thorough ? 100 : 40, "groups"), pattern = omc::choose(4, "pattern"), take = omc::choose(4, "removed");
    // each member is a group of its own
    vector<int> kinds; vector<shared_ptr<CompGroup>> all;
    for (int i = 0; i < n; i++) { kinds.push_back(pattern == 0 ? i % KINDS : pattern == 1 ? 0 : pattern == 2 ? (i == n - 1 ? 1 : 3) : (i * i + 1) % KINDS); all.push_back(group(kinds.back(), b.im)); b.s->AddCompGroup(all.back()); }
    for (int i = 0; take && i < n / 3; i++) { size_t k = take == 1 ? 0 : take == 2 ? all.size() - 1 : all.size() / 2; omc::Quiet q; b.s->RemoveCompGroup(all[k]); all.erase(all.begin() + k); kinds.erase(kinds.begin() + k); }
    b.kinds = kinds;
    auto l = b.s->Components(); if (l != all) omc::fail("the list of %zu groups is not the one built", l.size());
    for (double x : {0.3, 0.9, 4.0}) conditional(b, x);
    omc::outcome("ok");
}
