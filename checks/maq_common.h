// Integrands with known integrals, and a wrapper that counts evaluations and injects faults.
#ifndef MAQ_COMMON_H
#define MAQ_COMMON_H
#include "maq.h"
#include <cmath>
#include <functional>
#include <vector>
namespace mq {
    using namespace SLAT::Integration;
    struct Integrand { const char *shape; double scale, width, amp; double truth, lo, hi;
        double operator()(double x) const {
            if (!(x > 0) || std::isinf(x)) return edge(x);
            double u = x / scale;
            switch (shape[0]) {
            case 'l': { double z = std::log(u) / width; return amp * std::exp(-z * z / 2) / (x * width * std::sqrt(2 * M_PI)); }   // lognormal density
            case 'e': return amp * std::exp(-u) / scale;                                    // exponential density
            case 'g': return amp * u * u * std::exp(-u) / (2 * scale);                      // gamma density
            case 'h': { double z = std::log(u) / width; return amp * 0.5 * std::erfc(z / std::sqrt(2.0)) * std::exp(-width * width / 2) / scale; } // lognormal survival
            default: return amp * 6 * u / std::pow(1 + u, 4) / scale;                       // power-law tail
            }
        }
        double edge(double x) const {
            if (std::isinf(x)) return 0;
            if (shape[0] == 'e') return amp / scale;
            if (shape[0] == 'h') return amp * std::exp(-width * width / 2) / scale;
            return 0;
        }
        // extent, in the transformed coordinate 1/(1+x), over which it is far above the noise
        double extent() const { return 1 / (1 + lo) - 1 / (1 + hi); }
    };
    inline Integrand make(const char *shape, double scale, double width, double amp) {
        Integrand f = {shape, scale, width, amp, amp, 0, 0};
        if (shape[0] == 'l') { f.lo = scale * std::exp(-8 * width); f.hi = scale * std::exp(8 * width); }
        else { f.lo = 1e-3 * scale; f.hi = 20 * scale; }
        return f;
    }
    struct Counter { long calls = 0; };
    inline void defaults() { IntegrationSettings::Reset(); }
    static const char *const METHODS[5] = {"binary", "reverse", "low-first", "scattered", "directed"};
}
#endif
