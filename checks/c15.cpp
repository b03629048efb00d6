// C15: loss functions price damage linearly, scaled by quantity and adjustment.
#include "grid.h"
#include "loss_functions.h"
using namespace SLAT; using grid::LN; using grid::R; using grid::expect; using std::vector; using std::make_shared; using std::shared_ptr;
static const double P[] = {0, 0.15, 0.4, 1};
struct Unit { R m, s; };
static LogNormalDist make(const Unit &u, int how) {
    return how ? LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(u.m, LN::mean(u.m, u.s).sd()) : LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(u.m, u.s);
}
static void loss(const char *what, const LogNormalDist &got, const vector<Unit> &u, const vector<double> &p, int count, double adj) {
    R m = 0, v = 0;
    for (size_t i = 0; i < u.size(); i++) { R sd = u[i].m == 0 ? 0 : LN::mean(u[i].m, u[i].s).sd(); m += p[i] * u[i].m; v += p[i] * (u[i].m * u[i].m + sd * sd); }
    v -= m * m; if (v < 0) v = 0;
    R k = (R)count * adj;
    expect(what, got.get_mean_X(), m * k);
    if (!(m * k == 0)) expect(what, got.get_sigma_X(), sqrtl(v) * k, 1e-6, 1e-6 * (double)(m * k));
    else expect(what, got.get_sigma_X(), 0);
}
static bool probabilities(vector<double> &p, int n) {
    R t = 0; for (int i = 0; i < n; i++) { p.push_back(P[omc::choose(4, "probability")]); t += p.back(); }
    return t <= 1;
}
static const Unit UNITS[] = {{0, 0.4L}, {0.03L, 0.4L}, {2, 0.1L}, {700, 1.2L}};
static const int COUNTS[] = {0, 1, 2, 13, 1000};
static const double ADJ[] = {0, 0.001, 0.5, 1, 1.8, 45};
HARNESS(simple, 0, 0, "every list of up to three state losses, probability pattern, count and adjustment") {
    int n = 1 + omc::choose(3, "states"); vector<Unit> u; vector<double> p; vector<LogNormalDist> d;
    int how = omc::choose(2, "construction");
    for (int i = 0; i < n; i++) u.push_back(UNITS[omc::choose(4, "loss")]);
    if (!probabilities(p, n)) return;
    for (auto &x : u) d.push_back(make(x, how));
    SimpleLossFn f(d);
    if (f.n_states() != (size_t)n) omc::fail("%zu states", f.n_states());
    for (int c : COUNTS) {
        loss("unadjusted loss", f.CalculateUnadjustedLoss(p, c), u, p, c, 1);
        for (double a : ADJ) { loss("loss", f.CalculateLoss(p, c, a), u, p, c, a); loss("loss, asked again", f.CalculateLoss(p, c, a), u, p, c, a); }
    }
    loss("loss through the base class", static_cast<LossFn &>(f).CalculateLoss(p, 3, 2), u, p, 3, 2);
    omc::outcome("ok");
}
static const struct { int lo, hi; double a, b, s; } LEVELS[] = {{1, 1, 3, 1, 0.3}, {1, 6, 5, 2, 0.3}, {4, 10, 2, 2, 0.6}, {0, 20, 10, 0.5, 0.1}, {3, 4, 0.02, 0.01, 0.4}, {2, 7, 1, 4, 0.2}, {5, 5, 8, 2, 0.5}};
static const int NL = 7;
static R unit(int k, int count) {
    auto &l = LEVELS[k];
    if (count <= l.lo) return l.a;
    if (count >= l.hi) return l.b;
    return l.a + (R)(count - l.lo) / (l.hi - l.lo) * (l.b - l.a);
}
static shared_ptr<BiLevelLoss> level(int k) { auto &l = LEVELS[k]; return make_shared<BiLevelLoss>(l.lo, l.hi, l.a, l.b, l.s); }
HARNESS(quantities, 0, 0, "unit costs of seven quantity-dependent losses at every quantity from 0 to 25 (200)") {
    int k = omc::choose(NL, "loss"); auto l = level(k); auto &L = LEVELS[k];
    int down = omc::choose(2, "downwards"), N = omc::thorough ? 200 : 25;
    for (int i = 0; i <= N; i++) {
        int c = down ? N - i : i; auto d = l->LossFunctionsForCount(c);
        expect("unit cost", d.get_mean_X(), unit(k, c)); expect("dispersion of the unit cost", d.get_sigma_lnX(), L.s);
        grid::between("unit cost", d.get_mean_X(), std::min(L.a, L.b) * (1 - 1e-9), std::max(L.a, L.b) * (1 + 1e-9));
    }
    omc::outcome("ok");
}
HARNESS(bilevel, 0, 0, "every list of up to two (three) quantity-dependent losses, probability pattern, and sequence of two (three) quantities") {
    static const int C[] = {0, 1, 3, 5, 7, 30};
    int n = 1 + omc::choose(omc::thorough ? 3 : 2, "states"); vector<int> k; vector<double> p; vector<shared_ptr<BiLevelLoss>> l;
    for (int i = 0; i < n; i++) { k.push_back(omc::choose(NL, "loss")); l.push_back(level(k.back())); }
    if (!probabilities(p, n)) return;
    BiLevelLossFn f(l);
    if (f.n_states() != (size_t)n) omc::fail("%zu states", f.n_states());
    for (int q = 0; q < (omc::thorough && n < 3 ? 3 : 2); q++) {
        int c = C[omc::choose(6, "quantity")]; vector<Unit> u;
        for (int i : k) u.push_back({unit(i, c), LEVELS[i].s});
        loss("unadjusted loss", f.CalculateUnadjustedLoss(p, c), u, p, c, 1);
        for (double a : ADJ) loss("loss", f.CalculateLoss(p, c, a), u, p, c, a);
    }
    omc::outcome("ok");
}
HARNESS(refusals, 0, 0, "empty definitions and probability lists of the wrong size are refused") {
    int kind = omc::choose(2, "kind"), n = omc::choose(4, "states"), k = omc::choose(6, "probabilities");
    vector<LogNormalDist> d(n, make(UNITS[1], 0)); vector<shared_ptr<BiLevelLoss>> l; for (int i = 0; i < n; i++) l.push_back(level(i));
    bool made = !grid::refuses([&] { if (kind) BiLevelLossFn f(l); else SimpleLossFn f(d); });
    if (made != (n > 0)) omc::fail("a definition of %d states is %s", n, made ? "accepted" : "refused");
    if (!made) { omc::outcome("refused"); return; }
    bool ok = !grid::refuses([&] { vector<double> p(k, 0.1); if (kind) BiLevelLossFn(l).CalculateLoss(p, 2, 1); else SimpleLossFn(d).CalculateLoss(p, 2, 1); });
    if (ok != (n == k)) omc::fail("%d probabilities for %d states: %s", k, n, ok ? "accepted" : "refused");
    omc::outcome(ok ? "accepted" : "refused");
}
// a loss shared by two functions and by two states
HARNESS(sharing, 0, 0, "one quantity-dependent loss shared by two functions, every sequence of four queries") {
    auto shared = level(1), other = level(6); BiLevelLossFn f({shared, other}), g({other, shared, shared});
    for (int q = 0; q < 4; q++) {
        int c = 1 + 2 * omc::choose(4, "quantity");
        if (omc::choose(2, "function")) loss("loss", g.CalculateLoss({0.2, 0.1, 0.3}, c, 1), {{unit(6, c), 0.5L}, {unit(1, c), 0.3L}, {unit(1, c), 0.3L}}, {0.2, 0.1, 0.3}, c, 1);
        else loss("loss", f.CalculateLoss({0.2, 0.1}, c, 1), {{unit(1, c), 0.3L}, {unit(6, c), 0.5L}}, {0.2, 0.1}, c, 1);
    }
    omc::outcome("ok");
}
#include "companions.h"
HARNESS(side_by_side, 0, 0, "five loss functions of both kinds, every sequence of three (four) queries at the same probabilities") {
    auto make = [](int k) {
        companions::Queries q; shared_ptr<LossFn> f;
        auto d = [](double m, double s) { return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m, s); };
        if (k == 0) f = make_shared<SimpleLossFn>(vector<LogNormalDist>{d(0.03, 0.4), d(0.7, 0.3)});
        if (k == 1) f = make_shared<SimpleLossFn>(vector<LogNormalDist>{d(0.5, 0.2), d(0.6, 0.6)});
        if (k == 2) f = make_shared<BiLevelLossFn>(vector<shared_ptr<BiLevelLoss>>{level(1), level(2)});
        if (k == 3) f = make_shared<BiLevelLossFn>(vector<shared_ptr<BiLevelLoss>>{level(5), level(6)});
        if (k == 4) f = make_shared<BiLevelLossFn>(vector<shared_ptr<BiLevelLoss>>{level(2), level(1)});
        for (int c : {3, 5}) for (int p = 0; p < 2; p++) q.push_back({"loss", [=] { vector<double> w = p ? vector<double>{0.5, 0.2} : vector<double>{0.3, 0.4}; auto r = f->CalculateLoss(w, c, 1.5); return vector<double>{r.get_mean_X(), r.get_sigma_X()}; }});
        q.push_back({"unadjusted loss", [=] { auto r = f->CalculateUnadjustedLoss({0.3, 0.4}, 3); return vector<double>{r.get_mean_X(), r.get_sigma_X()}; }});
        return q;
    };
    companions::turns(5, make, omc::thorough ? 4 : 3);
}
HARNESS(many_states, 0, 0, "one to 40 (100) states and quantities up to a million, of both kinds, four patterns of probabilities") {
    int n = 1 + omc::choose(omc::thorough ? 100 : 40, "states"), kind = omc::choose(2, "kind"), pattern = omc::choose(4, "probabilities");
    static const int C[] = {1, 100, 32768, 65536, 1000000}; int c = C[omc::choose(5, "quantity")];
    vector<Unit> u; vector<double> p; vector<LogNormalDist> d; vector<shared_ptr<BiLevelLoss>> l;
    for (int i = 0; i < n; i++) {
        p.push_back(pattern == 0 ? 1.0 / n : pattern == 1 ? i == n - 1 : pattern == 2 ? (i % 2 ? 1.5 / n : 0) : std::ldexp(1, -1 - std::min(i, 50)));
        if (kind) { l.push_back(level(i % NL)); u.push_back({unit(i % NL, c), LEVELS[i % NL].s}); }
        else { u.push_back(UNITS[(i + 1) % 4]); d.push_back(make(u.back(), i % 2)); }
    }
    shared_ptr<LossFn> f; if (kind) f = make_shared<BiLevelLossFn>(l); else f = make_shared<SimpleLossFn>(d);
    loss("unadjusted loss", f->CalculateUnadjustedLoss(p, c), u, p, c, 1); loss("loss", f->CalculateLoss(p, c, 0.75), u, p, c, 0.75);
    omc::outcome("ok");
}
