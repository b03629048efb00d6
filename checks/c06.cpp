// C06: component and building results never go stale.
#include "world6.h"
using namespace model;

static void ask_all(World6 &w, int part, bool building) {
    if (part >= 0) { compare("first group", w.g1, part); compare("second group", w.g2, part); }
    if (building) compare("building", &w.s, true);
}
static const int PARTS[] = {Q_EDP, Q_COST, Q_SDC, Q_DELAY, Q_SDD, Q_ANNUAL, Q_LAMBDA, Q_RATE};
// what is asked before each edit: 0 nothing, 1 everything, 2.. one kind of group result, 10 the building's results only
static void before(World6 &w, int q) {
    if (q == 1) ask_all(w, Q_ALL, true);
    else if (q >= 2 && q < 10) ask_all(w, PARTS[q - 2], false);
    else if (q == 10) ask_all(w, -1, true);
}
static void history(int depth, int lo, int hi, int modes, const std::vector<int> *ops, int part, int start = 1) {
    World6 w(start);
    for (int d = 0; d < depth; d++) {
        int op = ops ? (*ops)[omc::choose((int)ops->size(), "edit")] : d ? omc::choose(World6::OPS, "edit") : lo + omc::choose(hi - lo, "edit");
        int q = modes == 0 ? 1 : modes == 1 ? 10 : modes == 2 ? omc::choose(2, "query before") : omc::choose(modes, "query before");
        if (ops) { if (q == 1) q = 10; }
        if (d == 0 || modes > 2 || q) before(w, q);
        if (q) omc::note("query (%d)", q);
        const char *name = "";
        if (!w.edit(op, name)) { omc::outcome("edit not possible"); return; }
        omc::note("%s", name);
    }
    ask_all(w, part, true);
    omc::outcome(w.s.groups.empty() ? "empty building" : w.s.groups.size() == 1 ? "one group" : "two groups");
}
HARNESS(one_edit, 0, 0, "every single edit, after each kind of query, after all and after none, from four settings of fates and prices") { history(1, 0, World6::OPS, 11, nullptr, Q_ALL, 1 + omc::choose(STEPS, "setting")); }
#define SHARD(N, LO, HI) HARNESS(two_edits_##N, 0, 0, "every pair (thorough: triple) of edits (a share, by the first), with or without all queries before each") { history(omc::thorough ? 3 : 2, LO, HI, 2, nullptr, Q_ALL); } \
    HARNESS(three_edits_##N, 0, 0, "every three edits (a share, by the first), all queries before each") { history(3, LO, HI, 0, nullptr, Q_ALL); }
SHARD(1, 0, 4) SHARD(2, 4, 8) SHARD(3, 8, 12) SHARD(4, 12, 16) SHARD(5, 16, 20) SHARD(6, 20, 24) SHARD(7, 24, 28) SHARD(8, 28, 32) SHARD(9, 32, 36) SHARD(10, 36, 39) SHARD(11, 39, 43)
// models are edited for a long time
HARNESS(repeated, 0, 0, "every pair of edits in turns, eight times each, the building's results asked before each or never; then everything is as in a fresh model") {
    int a = omc::choose(World6::OPS, "first edit"), b = omc::choose(World6::OPS, "second edit"), asked = omc::choose(2, "query before"), done = 0;
    World6 w; const char *name = "";
    for (int i = 0; i < 16; i++) { if (asked) ask_all(w, -1, true); if (w.edit(i % 2 ? b : a, name)) { done++; if (i < 2) omc::note("%s", name); } }
    ask_all(w, Q_COST | Q_ANNUAL, true);
    omc::count("edits", done); omc::outcome(w.s.groups.empty() ? "empty building" : w.s.groups.size() == 1 ? "one group" : "two groups");
}
// not vacuous: each edit that changes the description changes some result, in some state
HARNESS(sensitivity, 0, 0, "every edit changes some result of a fresh model") {
    World6 w;
    w.add(w.g2);
    const char *name = "";
    int pre = omc::choose(World6::OPS + 1, "first edit"), op = omc::choose(World6::OPS, "edit");
    if (pre < World6::OPS && !w.edit(pre, name)) return;
    Values a; { auto v = expected("first group", w.g1, (int)Q_ALL), u = expected("second group", w.g2, (int)Q_ALL), x = expected("building", &w.s, true); a = v; a.insert(a.end(), u.begin(), u.end()); a.insert(a.end(), x.begin(), x.end()); }
    string k = key(w.g1) + key(w.g2) + key(&w.s);
    if (!w.edit(op, name)) return;
    Values b; { auto v = expected("first group", w.g1, (int)Q_ALL), u = expected("second group", w.g2, (int)Q_ALL), x = expected("building", &w.s, true); b = v; b.insert(b.end(), u.begin(), u.end()); b.insert(b.end(), x.begin(), x.end()); }
    bool diff = a.size() != b.size();
    for (size_t i = 0; !diff && i < a.size(); i++) diff = !same(a[i].second, b[i].second);
    if (k != key(w.g1) + key(w.g2) + key(&w.s)) { omc::count(diff ? "changes seen in the results" : "changes not seen in the results"); if (!diff) omc::sample(string("no result depends on: ") + name); }
    omc::outcome(name);
}
// the building: adding, removing, replacing groups and what they depend on
static const std::vector<int> BUILDING = {23, 24, 25, 26, 27, 28, 29, 30, 7, 15};
HARNESS(building_1, 0, 0, "every three (thorough: four) additions, removals, replacements and cost settings; results asked before each or not") { history(omc::thorough ? 4 : 3, 0, 0, 2, &BUILDING, -1); }
static const std::vector<int> GROUPS = {23, 24, 25, 26, 27, 28};
HARNESS(building_2, 0, 0, "every five (thorough: six) additions, removals and replacements of groups, results asked before each") { history(omc::thorough ? 6 : 5, 0, 0, 1, &GROUPS, -1); }
static const std::vector<int> DEMANDS = {9, 10, 11, 12, 13, 2, 0, 23};
HARNESS(demand_chain, 0, 0, "every three (thorough: four) replacements and changes of demands and hazards") { history(omc::thorough ? 4 : 3, 0, 0, 1, &DEMANDS, Q_COST | Q_DELAY); }

// the number of damage states changes too; for a while the losses do not fit it, and results are refused
static shared_ptr<FragilityFn> frag_of(int n) { vector<LogNormalDist> d; for (int i = 0; i < n; i++) d.push_back(LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(0.1 * (n + 1) * (i + 1), 0.4)); return make_shared<FragilityFn>(d); }
static shared_ptr<LossFn> loss_of(int n, int m) { vector<LogNormalDist> d; for (int i = 0; i < n; i++) d.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(0.02 * m * (i + 1) * (i + 2), 0.4)); return make_shared<SimpleLossFn>(d); }
struct Sized { shared_ptr<IM> im; shared_ptr<EDP> edp; shared_ptr<FragilityFn> f; shared_ptr<LossFn> c, d; shared_ptr<CompGroup> g; shared_ptr<Structure> s; int n[3];
    Sized(int a, int b, int e) : n{a, b, e} {
        im = make_shared<IM>(make_fn(HAZARD, 0, false)); im->SetCollapse(fate(0, 1));
        edp = make_shared<EDP>(im, make_p(make_fn(DEMAND, 0, false), make_fn(SPREAD, 0, false), 0));
        f = frag_of(a); c = loss_of(b, 1); d = loss_of(e, 2); g = make_shared<CompGroup>(edp, f, c, d, 2, 1.0, 1.0, "group"); s = make_shared<Structure>("building"); s->AddCompGroup(g); s->setRebuildCost(money(0, 1));
    }
    // every answer, or that it is refused
    void ask(vector<double> &v) {
        auto one = [&](std::function<vector<double>()> q) { try { for (double x : q()) v.push_back(x); } catch (std::exception &) { v.push_back(-12345); } v.push_back(-777); };
        typedef vector<double> V;
        one([&] { return V{g->E_cost_EDP(0.15), g->SD_cost_EDP(0.15)}; }); one([&] { return V{g->E_delay_EDP(0.15), g->SD_ln_delay_EDP(0.9)}; });
        one([&] { return V{g->E_cost_IM(0.6)}; }); one([&] { return V{g->SD_ln_cost_IM(0.6)}; }); one([&] { return V{g->E_delay_IM(0.6)}; }); one([&] { return V{g->SD_ln_delay_IM(0.6)}; });
        one([&] { return V{g->E_annual_cost()}; }); one([&] { return V{g->lambda_cost(0.3)}; }); one([&] { return g->pDS_IM(0.6); }); one([&] { return g->Rate(); });
        one([&] { return V{(double)g->FragFn()->n_states(), (double)g->CostFn()->n_states(), (double)g->DelayFn()->n_states()}; });
        one([&] { return V{s->TotalCost(0.6).get_mean_X(), s->pdf(0.6)}; }); one([&] { return V{s->AnnualCost().get_mean_X()}; });
    }
};
HARNESS(sizes, 0, 0, "every three (thorough: five) replacements of fragility, cost and delay by ones of one to three states, results asked before each or not") {
    Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(0.2); Integration::IntegrationSettings::Set_Integration_Search_Limit(24);
    int n = 1 + omc::choose(3, "states"); Sized w(n, n, n);
    for (int k = 0; k < (omc::thorough ? 5 : 3); k++) {
        if (omc::choose(2, "query before")) { vector<double> v; w.ask(v); }
        int what = omc::choose(3, "replace"), m = 1 + omc::choose(3, "states");
        if (what == 0) { auto x = frag_of(m); w.f->replace(x); w.f = x; } else { auto x = loss_of(m, what); (what == 1 ? w.c : w.d)->replace(x); (what == 1 ? w.c : w.d) = x; }
        w.n[what] = m;
    }
    static std::map<vector<int>, vector<double>> memo;
    auto &e = memo[{w.n[0], w.n[1], w.n[2]}]; if (e.empty()) { Sized f(w.n[0], w.n[1], w.n[2]); f.ask(e); }
    vector<double> v; w.ask(v);
    if (v.size() != e.size()) omc::fail("%zu results, a fresh model gives %zu", v.size(), e.size());
    for (size_t i = 0; i < v.size(); i++) if (!same(v[i], e[i])) omc::fail("result %zu is %.10g, a fresh model of %d states, %d costs and %d delays gives %.10g", i, v[i], w.n[0], w.n[1], w.n[2], e[i]);
    omc::outcome(w.n[0] == w.n[1] && w.n[0] == w.n[2] ? "fits" : "does not fit");
}

// two hazards: groups, and the demands they depend on, are moved from one to the other
struct Hazards : World6 {
    MIM *im2;
    Hazards() { im2 = mkim(fn(HAZARD, 3), 2, 4); add(g2); }
    bool agree() { for (auto g : s.groups) if (g->edp->im != s.groups[0]->edp->im) return false; return true; }
    enum { MOVES = 13 };
    bool move(int op) {
        static const char *const N[MOVES] = {"move the first demand to the other hazard", "move the second demand to the other hazard", "replace the first group by one on the other hazard", "replace the second group by one on the other hazard",
            "remove the first group", "remove the second group", "add the first group", "add the second group", "change the first hazard", "change the second hazard", "replace the first hazard", "replace the second hazard by the first", "change the first demand"};
        omc::note("%s", N[op]);
        auto across = [&](MIM *i) { return i == im ? im2 : im; };
        switch (op) {
        case 0: repl(edp, mkedp(across(edp->im), p2, nullptr)); return true;
        case 1: if (edp2 == edp) return false; repl(edp2, mkedp(across(edp2->im), p1, p2)); return true;
        case 2: repl(g1, mkcg(mkedp(across(g1->edp->im), p1, nullptr), frag, cost, delay, g1->count + 1, 1.0)); return true;
        case 3: repl(g2, mkcg(mkedp(across(g2->edp->im), p2, nullptr), frag, cost2, delay, g2->count + 1, 1.0)); return true;
        case 4: return remove(g1);
        case 5: return remove(g2);
        case 6: case 7: {
            MCG *g = op == 6 ? g1 : g2;
            if (member(g) || !agree()) return false;
            bool fits = s.groups.empty() || s.groups[0]->edp->im == g->edp->im, refused = false;
            try { s.live->AddCompGroup(g->live); } catch (std::exception &) { refused = true; }
            if (refused == fits) omc::fail("a group %s the hazard of the building is %s", fits ? "for" : "not for", refused ? "refused" : "accepted");
            if (fits) s.groups.push_back(g); else omc::count("groups refused");
            return true; }
        case 8: need(im); im->col = next(im->col); im->live->SetCollapse(fate(0, im->col)); return true;
        case 9: return set(im2->f);
        case 10: { MIM *i = im == im2 ? nullptr : mkim(fn(HAZARD, 2), 3, 1); if (!i) return false; repl(im, i); return true; }
        case 11: if (im2 == im) return false; { MIM *a = im; repl(im2, a); } return true;
        case 12: return set(mu);
        }
        return false;
    }
};
static void two_hazards(int lo, int hi) {
    Hazards w;
    bool asked = omc::choose(2, "query before");
    for (int d = 0; d < (omc::thorough ? 5 : 4); d++) {
        if (asked && w.agree()) compare("building", &w.s, true);
        if (!w.move(d ? omc::choose(Hazards::MOVES, "move") : lo + omc::choose(hi - lo, "move"))) { omc::outcome("move not possible"); return; }
    }
    if (w.agree()) compare("building", &w.s, true);
    compare("first group", w.g1, (int)Q_COST); compare("second group", w.g2, (int)Q_COST);
    omc::outcome(!w.agree() ? "mixed hazards" : w.s.groups.empty() ? "empty building" : w.s.groups[0]->edp->im == w.im ? "first hazard" : "second hazard");
}
#define HAZARDS(N, LO, HI) HARNESS(two_hazards_##N, 0, 0, "every four (thorough: five) moves of demands and groups between two hazards, and additions, removals and changes of hazards (a share, by the first); wherever the groups agree on a hazard the building is that of a fresh model, before each move or only at the end") { two_hazards(LO, HI); }
HAZARDS(1, 0, 2) HAZARDS(2, 2, 4) HAZARDS(3, 4, 8) HAZARDS(4, 8, 10) HAZARDS(5, 10, Hazards::MOVES)
