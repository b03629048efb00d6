// C13: curves evaluate to their definition everywhere.
#include "grid.h"
#include "functions.h"
#include <algorithm>
#include <memory>
using namespace SLAT; using grid::LN; using grid::R; using grid::expect; using std::vector;

// gsl's central difference over 1e-8 leaves about 1e-6 of the value
static void slope(const char *what, double got, R want, R value) { expect(what, got, want, 1e-4, 2e-6 * (double)fabsl(value) + 1e-12); }

HARNESS(hyperbolic, 0, 0, "the hyperbolic law: 64 parameter sets, at 40 positions up to, at and beyond the asymptote") {
    static const double V[] = {1221, 9, 0.4, 2e5}, A[] = {29.8, 3, 0.7, 100}, AL[] = {62.2, 20, 3.5, 1};
    double v = V[omc::choose(4, "v_asy")], a = A[omc::choose(4, "im_asy")], al = AL[omc::choose(4, "alpha")];
    NonLinearHyperbolicLaw f(v, a, al);
    double last = INFINITY;
    for (int i = 0; i < 40; i++) {
        double x = i < 32 ? a * pow(10, -4 + i / 8.0 * 0.999) : a * (1 + (i - 32) * 0.2);
        R u = logl((R)x / a), want = x >= a ? 0 : v * expl(al / u);
        expect("hyperbolic value", f.ValueAt(x), want, 1e-6, 1e-300);
        if (f.ValueAt(x) > last) omc::fail("the hyperbolic law rises at %g", x);
        last = f.ValueAt(x);
        if (x < a * 0.95 && x > 1e-3) slope("hyperbolic slope", f.DerivativeAt(x), -want * al / (u * u * x), want);
        if (x > a * 1.01) slope("slope beyond the asymptote", f.DerivativeAt(x), 0, 0);
    }
    expect("at zero", f.ValueAt(0), v); expect("at the asymptote", f.ValueAt(a), 0); expect("just below the asymptote", f.ValueAt(a * (1 - 1e-9)), 0, 0, 1e-12);
    omc::outcome("ok");
}
HARNESS(power, 0, 0, "the power law: 42 parameter sets, at 25 positions of ordinary size, at 20 more from 1e-9 to 1e9, and at zero") {
    static const double A[] = {0, 0.1, 1, 7, -2, 1e4}, B[] = {0, 0.5, 1, 1.5, 2, -1, 3};
    double a = A[omc::choose(6, "a")], b = B[omc::choose(7, "b")];
    PowerLawParametricCurve f(a, b);
    for (int i = 0; i < 25; i++) {
        double x = pow(10, -2 + i / 6.0); R want = a * powl(x, b);
        expect("power value", f.ValueAt(x), want);
        slope("power slope", f.DerivativeAt(x), a * b * powl(x, b - 1), want);
    }
    for (int i = -9; i <= 9; i++) for (double x : {pow(10, i), 3 * pow(10, i)}) expect("power value", f.ValueAt(x), a * powl(x, b));
    if (b > 0) expect("power at zero", f.ValueAt(0), 0);
    if (b == 0) expect("constant at zero", f.ValueAt(0), a);
    if (b == 1) slope("slope of a line at zero", f.DerivativeAt(0), a, a);
    omc::outcome("ok");
}
// ---- tables ---------------------------------------------------------------------------------------------------------
static const double XS[] = {0.1, 0.5, 1, 2, 5}, YP[] = {0.01, 0.3, 1, 2.5}, YS[] = {-1, 0, 0.4, 3};
struct Table { vector<double> x, y; int log; };
static R lookup(const Table &t, double q) {
    size_t n = t.x.size();
    if (q <= t.x[0]) return t.y[0];
    if (q >= t.x[n - 1]) return t.y[n - 1];
    size_t i = 0; while (q > t.x[i + 1]) i++;
    if (q == t.x[i + 1]) return t.y[i + 1];
    if (t.log) return expl(logl(t.y[i]) + (logl(q) - logl(t.x[i])) / (logl(t.x[i + 1]) - logl(t.x[i])) * (logl(t.y[i + 1]) - logl(t.y[i])));
    return t.y[i] + (R)(q - t.x[i]) / (t.x[i + 1] - t.x[i]) * (t.y[i + 1] - t.y[i]);
}
static Table table(int log, int maxn) {
    Table t; t.log = log;
    for (int i = 0; i < 5; i++) if ((int)t.x.size() < maxn && omc::choose(2, "use this x")) { t.x.push_back(XS[i]); t.y.push_back((log ? YP : YS)[omc::choose(omc::thorough ? 4 : 3, "y")]); }
    return t;
}
static std::unique_ptr<DeterministicFn> build(Table &t) {
    if (t.log) return std::unique_ptr<DeterministicFn>(new LogLogInterpolatedFn(t.x.data(), t.y.data(), t.x.size()));
    return std::unique_ptr<DeterministicFn>(new LinearInterpolatedFn(t.x.data(), t.y.data(), t.x.size()));
}
static vector<double> positions(const Table &t) {
    vector<double> q = {0, t.x[0] / 2};
    for (size_t i = 0; i < t.x.size(); i++) {
        q.push_back(t.x[i]);
        if (i + 1 < t.x.size()) { q.push_back(t.x[i] + 0.3 * (t.x[i + 1] - t.x[i])); q.push_back(t.x[i] + 0.999 * (t.x[i + 1] - t.x[i])); }
    }
    q.push_back(t.x.back() * 1.001); q.push_back(t.x.back() * 20);
    return q;
}
static void value(const Table &t, DeterministicFn &f, double q) {
    double v = f.ValueAt(q);
    expect("table value", v, lookup(t, q), 1e-7, 1e-9);
    for (size_t i = 0; i + 1 < t.x.size(); i++) if (q >= t.x[i] && q <= t.x[i + 1]) grid::between("table value", v, std::min(t.y[i], t.y[i + 1]) - 1e-9, std::max(t.y[i], t.y[i + 1]) + 1e-9);
}
static void tables(int log) {
    Table t = table(log, 5);
    if (t.x.size() < 2) return;
    auto f = build(t);
    // the caller's arrays are its own
    for (auto &d : std::vector<vector<double> *>{&t.x, &t.y}) { auto keep = *d; for (auto &e : *d) e = -77; value({d == &t.x ? keep : t.x, d == &t.y ? keep : t.y, t.log}, *f, keep.size() ? (d == &t.x ? keep[0] : t.x[0]) : 0); *d = keep; }
    for (double q : positions(t)) {
        value(t, *f, q);
        bool knot = false; for (double x : t.x) if (std::abs(q - x) < 1e-5) knot = true;
        if (knot || q == 0) continue;
        R want = 0;
        for (size_t i = 0; i + 1 < t.x.size(); i++) if (q > t.x[i] && q < t.x[i + 1]) want = log ? lookup(t, q) / q * (logl(t.y[i + 1]) - logl(t.y[i])) / (logl(t.x[i + 1]) - logl(t.x[i])) : (R)(t.y[i + 1] - t.y[i]) / (t.x[i + 1] - t.x[i]);
        slope("table slope", f->DerivativeAt(q), want, std::max(fabsl(lookup(t, q)), (R)1e-6));
    }
    omc::outcome("ok");
}
HARNESS(linear_tables, 0, 0, "every linear table over five abscissae and 3 (4) values, at every position class") { tables(0); }
HARNESS(loglog_tables, 0, 0, "every log-log table over five abscissae and 3 (4) values, at every position class") { tables(1); }
HARNESS(lookup_order, 0, 0, "every sequence of three (four) lookups at every position class gives what a fresh table gives") {
    static const int Y[3][5] = {{0, 1, 2, 3, 0}, {3, 0, 2, 1, 3}, {1, 1, 0, 2, 2}};
    Table t; t.log = omc::choose(2, "log"); int n = 2 + omc::choose(4, "length"), k = omc::choose(3, "values");
    for (int i = 0; i < n; i++) { t.x.push_back(XS[i]); t.y.push_back((t.log ? YP : YS)[Y[k][i]]); }
    auto q = positions(t); auto f = build(t);
    for (int s = 0; s < (omc::thorough ? 4 : 3); s++) { int c = omc::choose((int)q.size() + 1, "position"); if (c == (int)q.size()) f->DerivativeAt(t.x[0] * 1.1); else value(t, *f, q[c]); }
    omc::outcome("ok");
}
HARNESS(user_function, 0, 0, "the slope of a function a user wrote, defined on part of the axis only") {
    struct F : DeterministicFn { int k; double Evaluate(double x) const override { return k == 0 ? sqrt(x) : k == 1 ? (x > 2 ? NAN : x * x) : sin(x); } } f;
    f.k = omc::choose(3, "function");
    if (f.k == 0) { slope("slope of a root", f.DerivativeAt(0.49), 0.5L / 0.7L, 0.7); }
    if (f.k == 1) { slope("slope at the end of the domain", f.DerivativeAt(2), 4, 4); slope("slope inside", f.DerivativeAt(1), 2, 1); }
    if (f.k == 2) for (double x : {0.1, 1.0, 2.0, 4.0}) slope("slope of a sine", f.DerivativeAt(x), cosl(x), 1);
    omc::outcome("ok");
}
// ---- probabilistic functions -------------------------------------------------------------------------------------------
static const double PA[][2] = {{0.1, 1.5}, {2, 0.5}, {0.02, 0}, {30, 1}, {1e-11, 2}, {4e13, 0.5}}, SA[][2] = {{0.5, 0}, {0.2, 0.3}, {0.05, 1}, {1.3, 0}, {3.1, 0.1}};
HARNESS(lognormal, 0, 0, "every parameterisation over 30 pairs of parameter curves, at eight points from 0.0004 to 60") {
    int m = omc::choose(3, "first parameter"), s = omc::choose(2, "second parameter");
    const double *a = PA[omc::choose(6, "first curve")], *b = SA[omc::choose(5, "second curve")];
    int shift = m == 1;
    auto mu = std::make_shared<PowerLawParametricCurve>(a[0], a[1]), sd = std::make_shared<PowerLawParametricCurve>(b[0], b[1]);
    LogNormalFn f(mu, m == 0 ? LogNormalFn::MEAN_X : m == 1 ? LogNormalFn::MEAN_LN_X : LogNormalFn::MEDIAN_X, sd, s ? LogNormalFn::SIGMA_X : LogNormalFn::SIGMA_LN_X);
    (void)shift;
    int order = omc::choose(2, "order of the points");
    static const double X[] = {0.0004, 0.05, 0.2, 0.7, 1, 1.9, 4, 60};
    for (int i = 0; i < 8; i++) {
        double x = X[order ? 7 - i : i]; R u = a[0] * powl(x, a[1]), v = b[0] * powl(x, b[1]); LN w;
        if (m == 1 && u > 20) continue;   // a log-mean of 30 and more
        if (s && (m == 1 ? expl(u) : u) > 1e4 * v) continue;   // too little dispersion for double precision
        if (m == 0) w = s ? LN::moments(u, v) : LN::mean(u, v);
        else {
            R med = m == 1 ? expl(u) : u, disp = v;
            if (s) disp = sqrtl(logl((1 + sqrtl(1 + 4 * v * v / (med * med))) / 2));
            w = LN::median(med, disp);
        }
        expect("mean", f.Mean(x), w.mean()); expect("median", f.Median(x), w.med()); expect("log-mean", f.MeanLn(x), w.mu, 1e-6, 1e-6);
        expect("dispersion", f.SD_ln(x), w.s, 1e-6, 1e-7); expect("standard deviation", f.SD(x), w.sd());
        for (double z : {-2.5, -1.0, 0.0, 0.4, 1.7}) {
            double y = w.med() * expl(w.s * z);
            expect("exceedance", f.P_exceedence(x, y), w.above(y), 1e-6, 1e-9);
        }
        for (double p : {0.01, 0.3, 0.5, 0.9}) { double y = f.X_at_exceedence(x, p); expect("probability at the quantile", w.below(y), p, 1e-6, 1e-8); }
    }
    omc::outcome("ok");
}
HARNESS(invalid, 0, 0, "invalid parameterisations are refused") {
    auto c = std::make_shared<PowerLawParametricCurve>(0.1, 1.5);
    int m = omc::choose(4, "first"), s = omc::choose(3, "second");
    static const LogNormalFn::M_TYPE M[] = {LogNormalFn::MEAN_X, LogNormalFn::MEAN_LN_X, LogNormalFn::MEDIAN_X, LogNormalFn::MEAN_INVALID};
    static const LogNormalFn::S_TYPE S[] = {LogNormalFn::SIGMA_X, LogNormalFn::SIGMA_LN_X, LogNormalFn::SIGMA_INVALID};
    bool r = grid::refuses([&] { LogNormalFn f(c, M[m], c, S[s]); });
    if (r != (m == 3 || s == 2)) omc::fail("parameterisation %d/%d is %s", m, s, r ? "refused" : "accepted");
    // a refused construction leaves the curve without dependants: changing it must be harmless
    struct Poke : PowerLawParametricCurve { Poke() : PowerLawParametricCurve(1, 1) {} void poke() { notify_change(); } };
    auto p = std::make_shared<Poke>();
    grid::refuses([&] { LogNormalFn f(p, M[m], p, S[s]); });
    p->poke();
    omc::outcome(r ? "refused" : "accepted");
}
#include "companions.h"
// several functions of each kind, side by side
HARNESS(side_by_side, 0, 0, "three functions of each of six kinds, every sequence of three (four) queries") {
    static const double X[3][4] = {{0.1, 0.5, 2, 4}, {0.2, 0.6, 1.5, 4}, {0.1, 0.5, 2, 4}}, Y[3][4] = {{5, 2, 1, 0.3}, {9, 3, 0.7, 0.2}, {1, 1.5, 4, 7}};
    int kind = omc::choose(6, "kind");
    auto make = [=](int k) {
        companions::Queries q;
        if (kind < 4) {
            std::shared_ptr<DeterministicFn> f;
            double x[4], y[4]; for (int i = 0; i < 4; i++) { x[i] = X[k][i]; y[i] = Y[k][i]; }
            if (kind == 0) f = std::make_shared<NonLinearHyperbolicLaw>(1221 - 300 * k, 29.8, 62.2 - 5 * k);
            if (kind == 1) f = std::make_shared<PowerLawParametricCurve>(0.1 + 0.1 * k, 1.5 - 0.2 * k);
            if (kind == 2) f = std::make_shared<LinearInterpolatedFn>(x, y, 4);
            if (kind == 3) f = std::make_shared<LogLogInterpolatedFn>(x, y, 4);
            for (double at : {0.3, 1.7}) { q.push_back({"value", [=] { return std::vector<double>{f->ValueAt(at)}; }}); q.push_back({"slope", [=] { return std::vector<double>{f->DerivativeAt(at)}; }}); }
        } else {
            // the same curves in other parameterisations, and the same parameterisation of other curves
            static const LogNormalFn::M_TYPE M[3] = {LogNormalFn::MEAN_X, LogNormalFn::MEDIAN_X, LogNormalFn::MEAN_LN_X};
            auto f = std::make_shared<LogNormalFn>(std::make_shared<PowerLawParametricCurve>(kind == 5 ? 0.1 + 0.07 * k : 0.4, 1.5), kind == 5 ? LogNormalFn::MEAN_X : M[k], std::make_shared<PowerLawParametricCurve>(kind == 5 ? 0.5 + 0.2 * k : 0.3 + 0.1 * k, 0.0), LogNormalFn::SIGMA_LN_X);
            for (double at : {0.5, 1.4}) {
                q.push_back({"exceedance", [=] { return std::vector<double>{f->P_exceedence(at, 0.21)}; }}); q.push_back({"quantile", [=] { return std::vector<double>{f->X_at_exceedence(at, 0.3)}; }});
                q.push_back({"mean", [=] { return std::vector<double>{f->Mean(at), f->SD(at)}; }}); q.push_back({"median", [=] { return std::vector<double>{f->Median(at), f->MeanLn(at), f->SD_ln(at)}; }});
            }
        }
        return q;
    };
    // one table of references for each kind
    static std::map<int, std::vector<std::vector<std::vector<double>>>> tables;
    companions::turns(3, make, omc::thorough ? 4 : 3, nullptr, &tables[kind]);
}
HARNESS(long_tables, 0, 0, "tables of 2 to 70 (300) points, linear and log-log, of three shapes and three spacings, at every position class, upwards and downwards") {
    Table t; t.log = omc::choose(2, "log"); int n = 2 + omc::choose(omc::thorough ? 299 : 69, "length"), shape = omc::choose(3, "shape"), spacing = omc::choose(3, "spacing"); bool down = omc::choose(2, "downwards");
    for (int i = 0; i < n; i++) {
        t.x.push_back(spacing == 0 ? 0.1 + 0.25 * i : spacing == 1 ? 0.01 * std::pow(1.2, i % 70) + (i / 70) * 1e4 : 0.5 + i + (i % 4 ? 0.3 : 0));
        t.y.push_back(shape == 0 ? 5.0 / (1 + i) : shape == 1 ? 0.01 * (i + 1) : i % 3 ? 0.7 : 2.0);
    }
    auto f = build(t); auto q = positions(t); if (down) std::reverse(q.begin(), q.end());
    for (double x : q) value(t, *f, x);
    omc::count("lookups", (long)q.size()); omc::outcome("ok");
}
