// helpers for checks that enumerate a grid of inputs and compare with formulas worked out here
#ifndef GRID_H
#define GRID_H
#include "omc.h"
#include <cmath>
#include <functional>
#include <string>
#include <vector>
namespace grid {
    typedef long double R;
    inline bool near(double got, R want, double rel, double abs_ = 0) {
        if (std::isnan((double)want)) return std::isnan(got);
        if (std::isinf((double)want)) return got == (double)want;
        return std::isfinite(got) && fabsl(got - want) <= rel * fabsl(want) + abs_;
    }
    inline void expect(const char *what, double got, R want, double rel = 1e-6, double abs_ = 0) {
        omc::count("values compared");
        if (!near(got, want, rel, abs_)) omc::fail("%s is %.12g, should be %.12Lg", what, got, want);
    }
    inline void between(const char *what, double v, double lo, double hi) {
        omc::count("values compared");
        if (!(v >= lo && v <= hi)) omc::fail("%s is %.12g, should be within %.12g and %.12g", what, v, lo, hi);
    }
    template <class F> bool refuses(F f) { try { f(); } catch (...) { return true; } return false; }
    inline R phi(R z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }
    // a lognormal given by the mean of X and the dispersion, or the other ways round
    struct LN { R mu, s;
        static LN mean(R m, R s) { return {logl(m) - s * s / 2, s}; }
        static LN median(R m, R s) { return {logl(m), s}; }
        static LN moments(R m, R sd) { R s = m == 0 ? 0 : sqrtl(logl(1 + (sd / m) * (sd / m))); return {logl(m) - s * s / 2, s}; }
        R mean() const { return mu == -INFINITY ? 0 : expl(mu + s * s / 2); }
        R sd() const { return mean() * sqrtl(expm1l(s * s)); }
        R med() const { return expl(mu); }
        R below(R x) const { return x <= 0 ? 0 : mu == -INFINITY ? 1 : phi((logl(x) - mu) / s); }
        R above(R x) const { return x <= 0 ? 1 : mu == -INFINITY ? 0 : phi((mu - logl(x)) / s); }
    };
    // composite Simpson rule
    inline R simpson(std::function<R(R)> f, R a, R b, int n) {
        R h = (b - a) / n, s = f(a) + f(b);
        for (int i = 1; i < n; i++) s += f(a + i * h) * (i & 1 ? 4 : 2);
        return s * h / 3;
    }
}
#endif
