// hazard curves and demand relationships with independent formulas and quadrature
#ifndef HAZARDS_H
#define HAZARDS_H
#include "grid.h"
#include "relationships.h"
#include "maq.h"
using namespace SLAT; using grid::LN; using grid::R; using grid::expect; using grid::simpson; using std::vector; using std::shared_ptr; using std::make_shared;
static const double TOL = 1e-3;      // agreement asked of integrals; the integration itself is asked for 1e-6
static double TX[] = {0.05, 0.2, 0.5, 1, 2, 4}, TY[] = {0.5, 0.1, 0.02, 0.004, 6e-4, 5e-5};
struct Hazard { int kind; double v, a, al;
    R rate(R x) const {
        if (kind == 0) return x >= a ? 0 : v * expl(al / logl(x / a));
        if (x <= TX[0]) return TY[0]; if (x >= TX[5]) return TY[5];
        int i = 0; while (x > TX[i + 1]) i++;
        return expl(logl(TY[i]) + (logl(x) - logl(TX[i])) / (logl(TX[i + 1]) - logl(TX[i])) * (logl(TY[i + 1]) - logl(TY[i])));
    }
    R slope(R x) const {
        if (kind == 0) { if (x >= a) return 0; R u = logl(x / a); return -rate(x) * al / (u * u * x); }
        if (x <= TX[0] || x >= TX[5]) return 0;
        int i = 0; while (x > TX[i + 1]) i++;
        return rate(x) / x * (logl(TY[i + 1]) - logl(TY[i])) / (logl(TX[i + 1]) - logl(TX[i]));
    }
    shared_ptr<DeterministicFn> make() const {
        if (kind == 0) return make_shared<NonLinearHyperbolicLaw>(v, a, al);
        return make_shared<LogLogInterpolatedFn>(TX, TY, 6);
    }
    // the integral of p over the hazard, by Simpson's rule in log x
    R integral(std::function<R(R)> p) const {
        auto f = [&](R z) { R x = expl(z); return p(x) * fabsl(slope(x)) * x; };
        if (kind == 0) return simpson(f, logl(1e-7L), logl((R)a) - 1e-12L, 6000);
        R s = 0; for (int i = 0; i < 5; i++) s += simpson([&](R z) { R x = expl(z); return p(x) * x * rate(x) / x * fabsl((logl(TY[i + 1]) - logl(TY[i])) / (logl(TX[i + 1]) - logl(TX[i]))); }, logl(TX[i]), logl(TX[i + 1]), 800);
        return s;
    }
};
static const Hazard HAZARDS[] = {{0, 1221, 29.8, 62.2}, {0, 400, 25.0, 55.0}, {0, 12, 8, 22}, {1, 0, 0, 0}};
struct Curve { double a, b; R at(R x) const { return a * powl(x, b); } };
struct Demand { Curve mu, sd; LN at(R x) const { return LN::mean(mu.at(x), sd.at(x)); }
    shared_ptr<ProbabilisticFn> make() const { return make_shared<LogNormalFn>(make_shared<PowerLawParametricCurve>(mu.a, mu.b), LogNormalFn::MEAN_X, make_shared<PowerLawParametricCurve>(sd.a, sd.b), LogNormalFn::SIGMA_LN_X); } };
static const Demand DEMANDS[] = {{{0.1, 1.5}, {0.5, 0}}, {{0.3, 0.8}, {0.3, 0.1}}, {{0.12, 1.1}, {0.8, 0}}};
#endif
