// C12: lognormal distributions keep their laws under every construction.
#include "grid.h"
#include "lognormaldist.h"
#include <algorithm>
using SLAT::LogNormalDist; using grid::LN; using grid::R; using grid::expect; using std::vector;

static const double MEANS[] = {1e-12, 1e-6, 0.004, 0.3, 1, 7.5, 1200, 3e9, 1e15, 1e24};
static const double SIGMAS[] = {0.02, 0.1, 0.35, 0.9, 2.0, 3.5};
static LogNormalDist make(int how, const LN &d) {
    switch (how) {
    case 0: return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(d.mu, d.s);
    case 1: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(d.mean(), d.s);
    case 2: return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(d.med(), d.s);
    default: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(d.mean(), d.sd());
    }
}
static void moments(const LogNormalDist &g, const LN &w) {
    expect("mean", g.get_mean_X(), w.mean());
    expect("standard deviation", g.get_sigma_X(), w.sd());
    if (w.mean() == 0) { if (g.get_median_X() != 0) omc::fail("the median of a zero cost is %g", g.get_median_X()); return; }
    expect("median", g.get_median_X(), w.med());
    expect("log-mean", g.get_mu_lnX(), w.mu, 1e-6, 1e-6);
    expect("dispersion", g.get_sigma_lnX(), w.s, 1e-6, 1e-7);
}
static LN pick() { double m = MEANS[omc::choose(10, "mean")], s = SIGMAS[omc::choose(6, "dispersion")]; return LN::mean(m, s); }
HARNESS(constructions, 0, 0, "every construction of 60 distributions over 36 decades: moments, probabilities, quantiles") {
    LN w = pick();
    int how = omc::choose(4, "construction");
    LogNormalDist d = make(how, w), copy(d), as; as = d;
    moments(d, w); moments(copy, w); moments(as, w);
    double last = -1;
    expect("probability of at most 0", d.p_at_most(0), 0); expect("probability of at least 0", d.p_at_least(0), 1);
    for (int i = -60; i <= 60; i++) {
        double x = w.med() * expl(w.s * i / 10.0L);
        double lo = d.p_at_most(x), hi = d.p_at_least(x);
        expect("non-exceedance", lo, w.below(x), 1e-6, 1e-9); expect("exceedance", hi, w.above(x), 1e-6, 1e-9);
        expect("sum of the two", lo + hi, 1, 1e-9);
        if (lo < last) omc::fail("non-exceedance falls from %.12g to %.12g at %g", last, lo, x);
        if (i > -35 && i < 35 && lo <= last) omc::fail("non-exceedance does not rise at %g", x);
        last = lo;
    }
    last = 0;
    for (double p : {1e-6, 1e-3, 0.02, 0.16, 0.3, 0.5, 0.7, 0.84, 0.95, 0.999, 1 - 1e-6}) {
        double x = d.x_at_p(p);
        expect("probability at the quantile", d.p_at_most(x), p, 1e-6, 1e-9);
        if (x <= last) omc::fail("quantiles do not rise: %g after %g", x, last);
        last = x;
    }
    expect("middle quantile", d.x_at_p(0.5), w.med());
    omc::outcome("ok");
}
HARNESS(degenerate, 0, 0, "no dispersion, zero mean, unknown distribution") {
    int what = omc::choose(4, "case");
    if (what == 0) {
        for (double m : MEANS) for (int how = 0; how < 4; how++) moments(make(how, LN::mean(m, 0)), LN::mean(m, 0));
    } else if (what == 1 || what == 2) {
        for (double s : SIGMAS) {
            LogNormalDist d = what == 1 ? LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(0, s) : LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(0, s);
            expect("mean of a zero cost", d.get_mean_X(), 0); expect("standard deviation of a zero cost", d.get_sigma_X(), 0);
            for (double x : {0.001, 1.0, 5e6}) { expect("exceedance of a zero cost", d.p_at_least(x), 0); expect("non-exceedance of a zero cost", d.p_at_most(x), 1); }
        }
    } else {
        LogNormalDist u;
        if (!std::isnan(u.get_mean_X()) || !std::isnan(u.get_sigma_X()) || !std::isnan(u.get_median_X()) || !std::isnan(u.p_at_least(1)) || !std::isnan(u.p_at_most(1))) omc::fail("an unknown distribution answers with numbers");
    }
    omc::outcome("ok");
}
// every chain of scalings
HARNESS(scaling, 0, 0, "every chain of up to four scalings: probability, number of components, adjustment factor") {
    LN w = pick(); LogNormalDist d = make(omc::choose(2, "construction"), w);
    static const double F[3][3] = {{0, 0.03, 0.8}, {0, 1, 17}, {0, 0.25, 1.4}};
    R m = w.mean(); int depth = omc::thorough ? 4 : 3;
    for (int k = 0; k < depth; k++) {
        int op = omc::choose(4, "operation"); if (op == 3) break;
        double f = F[op][omc::choose(3, "factor")];
        LogNormalDist before = d;
        d = op == 0 ? d.ScaleDistributionByProbability(f) : op == 1 ? d.ScaleDistributionByNumComponents(f) : d.ApplyAdjustmentFactor(f);
        m *= f;
        moments(d, LN::mean(m, w.s));
        expect("dispersion after scaling", d.get_sigma_lnX(), w.s);
        if (k == 0) moments(before, w);
    }
    omc::outcome("ok");
}
static const int NA = 8;
static LogNormalDist letter(int i) {
    switch (i) {
    case 0: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(0, 0);
    case 1: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(0, 0.4);
    case 2: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(1, 0.2);
    case 3: return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(3, 0.5);
    case 4: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(40, 70);
    case 5: return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(-2, 1.1);
    case 6: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(1e-7, 50);
    default: return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(5, 0);
    }
}
static const R LM[NA] = {0, 0, 1, 3 * expl(0.125L), 40, expl(-2 + 0.605L), 1e-7L, 5}, LS[NA] = {0, 0, 0.2L, 3 * expl(0.125L) * sqrtl(expm1l(0.25L)), 70, expl(-1.395L) * sqrtl(expm1l(1.21L)), 50, 0};
static void moments_only(const char *what, const LogNormalDist &d, R m, R v) {
    R s = sqrtl(v);
    expect(what, d.get_mean_X(), m); expect(what, d.get_sigma_X(), s, 1e-6, 1e-6 * (double)m);
    if (m > 0) { LN w = LN::moments(m, s); expect(what, d.get_sigma_lnX(), w.s, 1e-6, 1e-6); expect(what, d.get_mu_lnX(), w.mu, 1e-6, 1e-6); }
}
HARNESS(sums, 0, 0, "sums of every list of 0-4 (0-6) distributions from an alphabet of eight, in every order") {
    int n = omc::choose(omc::thorough ? 7 : 5, "length"); vector<LogNormalDist> ds; R m = 0, v = 0;
    for (int i = 0; i < n; i++) { int k = omc::choose(NA, "distribution"); ds.push_back(letter(k)); m += LM[k]; v += LS[k] * LS[k]; }
    LogNormalDist s = LogNormalDist::AddDistributions(ds);
    moments_only("sum", s, m, v);
    omc::outcome("ok");
}
static const double WEIGHTS[] = {0, 0.1, 0.25, 0.5, 1};
HARNESS(mixtures, 0, 0, "mixtures of every list of 0-3 distributions with every list of weights from {0, 0.1, 0.25, 0.5, 1} totalling at most one") {
    int n = omc::choose(4, "length"); vector<LogNormalDist> ds; vector<double> ws; R m = 0, v = 0, tot = 0;
    for (int i = 0; i < n; i++) {
        int k = omc::choose(NA, "distribution"); double w = WEIGHTS[omc::choose(5, "weight")];
        if (tot + w > 1) return;
        tot += w; ds.push_back(letter(k)); ws.push_back(w);
        m += w * LM[k]; v += w * (LM[k] * LM[k] + LS[k] * LS[k]);
    }
    v -= m * m; if (v < 0) v = 0;
    moments_only("mixture", LogNormalDist::AddWeightedDistributions(ds, ws), m, v);
    omc::outcome("ok");
}
HARNESS(mismatched, 0, 0, "every pair of different list lengths up to five is refused") {
    int n = omc::choose(6, "distributions"), k = omc::choose(6, "weights");
    bool r = grid::refuses([&] { LogNormalDist::AddWeightedDistributions(vector<LogNormalDist>(n, letter(2)), vector<double>(k, 0.1)); });
    if (r != (n != k)) omc::fail("%d distributions with %d weights: %s", n, k, r ? "refused" : "accepted");
    omc::outcome(r ? "refused" : "accepted");
}
// sums of mixtures of scaled distributions: laws compose
HARNESS(compositions, 0, 0, "sums of scaled mixtures, with every choice of parts") {
    R m = 0, v = 0; vector<LogNormalDist> sum;
    for (int i = 0; i < 2; i++) {
        int a = omc::choose(NA, "first"), b = omc::choose(NA, "second"); double p = WEIGHTS[omc::choose(5, "weight")], f = omc::choose(2, "factor") ? 3 : 0.5;
        sum.push_back(LogNormalDist::AddWeightedDistributions({letter(a), letter(b)}, {p, 1 - p}).ScaleDistributionByNumComponents(f));
        R mm = p * LM[a] + (1 - p) * LM[b], vv = p * (LM[a] * LM[a] + LS[a] * LS[a]) + (1 - p) * (LM[b] * LM[b] + LS[b] * LS[b]) - mm * mm;
        if (vv < 0) vv = 0;
        m += f * mm; v += f * f * vv;
    }
    moments_only("sum of mixtures", LogNormalDist::AddDistributions(sum), m, v);
    omc::outcome("ok");
}
// the unit of money is the user's choice: the laws hold in every unit
HARNESS(units, 0, 0, "sums and mixtures of every pair of distributions, in units from 1e-15 to 1e15") {
    static const double U[] = {1e-15, 1e-9, 1e-5, 1e-3, 1e4, 1e8, 1e15};
    double u = U[omc::choose(7, "unit")]; int a = omc::choose(NA, "first"), b = omc::choose(NA, "second");
    auto scaled = [&](int k) { return letter(k).ApplyAdjustmentFactor(u); };
    moments_only("sum", LogNormalDist::AddDistributions({scaled(a), scaled(b)}), (LM[a] + LM[b]) * u, (LS[a] * LS[a] + LS[b] * LS[b]) * u * u);
    for (double p : WEIGHTS) for (double q : WEIGHTS) if (p + q <= 1) {
        R m = (p * LM[a] + q * LM[b]) * u, v = (p * (LM[a] * LM[a] + LS[a] * LS[a]) + q * (LM[b] * LM[b] + LS[b] * LS[b])) * u * u - m * m;
        moments_only("mixture", LogNormalDist::AddWeightedDistributions({scaled(a), scaled(b)}, {p, q}), m, v < 0 ? 0 : v);
    }
    omc::outcome("ok");
}
// several distributions at a time: none answers for another
HARNESS(companions, 0, 0, "every pair of queries of every pair of distributions, at the same argument, in turns") {
    int a = omc::choose(NA - 1, "first") + 1, b = omc::choose(NA - 1, "second") + 1, q = omc::choose(8, "first query"), r = omc::choose(8, "second query");
    static const double X = 2.5, P = 0.3;
    auto ask = [&](const LogNormalDist &d, int k, int which) {
        R m = LM[k], s = LS[k];
        LN w = k == 1 ? LN::mean(0, 0.4L) : LN::moments(m, s);
        if (k == 1 && (which == 0 || which > 4)) return;
        switch (which) {
        case 0: if (w.s > 0) { double x = d.x_at_p(P); expect("probability at the quantile", w.below(x), P, 1e-6, 1e-9); } break;
        case 1: if (w.s > 0) expect("exceedance", d.p_at_least(X), w.above(X), 1e-6, 1e-9); break;
        case 2: if (w.s > 0) expect("non-exceedance", d.p_at_most(X), w.below(X), 1e-6, 1e-9); break;
        case 3: expect("mean", d.get_mean_X(), m); break;
        case 4: expect("standard deviation", d.get_sigma_X(), s); break;
        case 5: expect("median", d.get_median_X(), w.med()); break;
        case 6: expect("dispersion", d.get_sigma_lnX(), w.s, 1e-6, 1e-7); break;
        default: expect("log-mean", d.get_mu_lnX(), w.mu, 1e-6, 1e-6);
        }
    };
    LogNormalDist d = letter(a), e = letter(b);
    ask(d, a, q); ask(e, b, r); ask(d, a, q); d = e; ask(d, b, q); ask(e, b, r);
    omc::outcome("ok");
}
HARNESS(long_lists, 0, 0, "sums and mixtures of 1 to 70 (300) distributions, in four patterns") {
    int n = 1 + omc::choose(omc::thorough ? 300 : 70, "length"), pattern = omc::choose(4, "pattern"); bool mix = omc::choose(2, "mixture");
    vector<LogNormalDist> ds; vector<double> ws; R m = 0, v = 0;
    for (int i = 0; i < n; i++) {
        int k = pattern == 0 ? i % NA : pattern == 1 ? 2 : pattern == 2 ? (i == n - 1 ? 4 : 3) : (i * 5 + 2) % NA;
        double w = mix ? (pattern == 2 ? (i == n - 1 ? 0.5 : 0.5 / n) : 1.0 / n) : 1;
        ds.push_back(letter(k)); ws.push_back(w);
        m += (R)w * LM[k]; v += mix ? (R)w * (LM[k] * LM[k] + LS[k] * LS[k]) : LS[k] * LS[k];
    }
    if (mix) { v -= m * m; if (v < 0) v = 0; }
    moments_only(mix ? "mixture" : "sum", mix ? LogNormalDist::AddWeightedDistributions(ds, ws) : LogNormalDist::AddDistributions(ds), m, v);
    omc::outcome(mix ? "mixture" : "sum");
}
