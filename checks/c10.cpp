// C10: integrals are accurate when reported successful, and bounded in effort.
#include "maq_common.h"
#include "omc.h"
#include <map>
using namespace mq;

static void accuracy(const std::vector<Integrand> &fs, const char *what) {
    int m = omc::choose(5, "method"), t = omc::choose(3, "tolerance"), l = omc::choose(3, "search limit");
    double tol = t == 0 ? 1e-3 : t == 1 ? 1e-4 : 1e-6; unsigned lim = l == 0 ? 64 : l == 1 ? 256 : 2048;
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Tolerance(tol);
    IntegrationSettings::Set_Integration_Search_Limit(lim);
    const unsigned big = 200000;
    IntegrationSettings::Set_Integration_Eval_Limit(big);
    size_t fooled = 0;
    for (auto &f : fs) {
        long calls = 0;
        MAQ_RESULT r = MAQ([&](double x) { calls++; return f(x); });
        auto id = [&] { static char b[200]; snprintf(b, sizeof b, "%s: %s scale %g width %g amplitude %g, method %s, tolerance %g, search limit %u", what, f.shape, f.scale, f.width, f.amp, METHODS[m], tol, lim); return b; };
        omc::count("integrations");
        if (r.successful) {
            if (std::isnan(r.integral)) omc::fail("%s: success with a result that is not a number", id());
            if (r.integral == 0) {
                if (lim >= 256 && f.extent() > 0.08) omc::fail("%s: found nothing to integrate", id());
                if (calls > 2 * (long)lim + 8) omc::fail("%s: the search made %ld evaluations", id(), calls);
                if (calls != (long)r.evaluations) omc::fail("%s: the search made %ld evaluations and reported %u", id(), calls, r.evaluations);
                omc::count("nothing found");
                continue;
            }
            double e = std::abs(r.integral - f.truth) / std::abs(f.truth);
            // An error estimate from a finite number of points can be fooled; on the coarse grid that happens to no
            // integrand, on the fine one it may happen to isolated ones (1%, and never grossly for a broad integrand).
            if (!(e <= 20 * tol)) fooled++;
            if (!(e <= 20 * tol) && (!omc::thorough || (f.extent() > 0.05 && !(e <= 250 * tol)))) omc::fail("%s: reported %.9g, true integral %.9g, error %.1f times the tolerance", id(), r.integral, f.truth, e / tol);
        } else {
            if (!std::isnan(r.integral)) omc::fail("%s: failure with the result %g", id(), r.integral);
            if (r.evaluations <= big) omc::fail("%s: failed after %u evaluations of %u", id(), r.evaluations, big);
        }
        long search = 2 * (long)r.evaluations - calls - 3;         // see quad: one round is two evaluations
        if (search > 2 * (long)lim + 8) omc::fail("%s: the search made %ld evaluations", id(), search);
        if (calls > 2 * (long)r.evaluations - (r.successful ? 5 : 0) || (long)r.evaluations > calls + 1)
            omc::fail("%s: %ld evaluations were made, %u reported", id(), calls, r.evaluations);
    }
    omc::count("error estimate fooled", fooled);
    if (fooled * 100 > fs.size()) omc::fail("%s: %zu of %zu integrals are off by more than 20 times the tolerance %g, method %s", what, fooled, fs.size(), tol, METHODS[m]);
    omc::outcome(METHODS[m]);
}
static std::vector<Integrand> lognormals() {
    std::vector<Integrand> v;
    double step = omc::thorough ? 0.05 : 0.25;
    for (double lm = -4; lm <= 4.001; lm += step)
        for (double s : {0.02, 0.03, 0.05, 0.08, 0.1, 0.15, 0.2, 0.3, 0.5, 0.8, 1.2, 1.6, 2.0}) v.push_back(make("lognormal", std::pow(10, lm), s, 1));
    return v;
}
static std::vector<Integrand> others() {
    std::vector<Integrand> v;
    double step = omc::thorough ? 0.05 : 0.25;
    for (double lm = -2; lm <= 2.001; lm += step) {
        double s = std::pow(10, lm);
        v.push_back(make("exponential", s, 1, 1)); v.push_back(make("gamma", s, 1, 1)); v.push_back(make("power", s, 1, 1));
        for (double w : {0.4, 0.8}) v.push_back(make("half", s, w, 1));
    }
    return v;
}
static std::vector<Integrand> amplitudes() {
    std::vector<Integrand> v;
    for (double a : {1e-3, 0.1, 1e3, 1e6, 1e9}) for (double lm = -2; lm <= 2.001; lm += 0.5) {
        double s = std::pow(10, lm);
        for (double w : {0.1, 0.3, 0.6, 1.0}) v.push_back(make("lognormal", s, w, a));
        v.push_back(make("gamma", s, 1, a));
    }
    return v;
}
HARNESS(lognormal_family, 0, 0, "lognormal densities: 33 locations x 13 widths, every method, three tolerances, three search limits") { accuracy(lognormals(), "density"); }
HARNESS(other_families, 0, 0, "exponential, gamma, power-law and survival shapes over four decades") { accuracy(others(), "shape"); }
HARNESS(amplitude_family, 0, 0, "amplitudes over twelve decades") { accuracy(amplitudes(), "amplitude"); }

static const Integrand *probes(int &n) {
    static Integrand p[] = {make("lognormal", 1, 0.5, 1), make("lognormal", 0.01, 0.2, 1), make("lognormal", 50, 0.4, 1), make("exponential", 0.3, 1, 1),
                            make("gamma", 2, 1, 1), make("half", 1, 0.4, 1), make("lognormal", 300, 0.1, 10)};
    n = 7; return p;
}
HARNESS(evaluation_limit, 0, 0, "every limit on evaluations from 1 to beyond what is needed, for seven integrands, five methods, two tolerances") {
    int n; const Integrand *p = probes(n);
    const Integrand &f = p[omc::choose(n, "integrand")]; int m = omc::choose(5, "method"); double tol = omc::choose(2, "tolerance") ? 1e-5 : 1e-3;
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Tolerance(tol);
    IntegrationSettings::Set_Integration_Eval_Limit(1000000);
    MAQ_RESULT full = MAQ([&](double x) { return f(x); });
    if (full.successful && full.integral == 0) { omc::outcome("nothing found"); return; }
    if (!full.successful) omc::fail("%s integrand fails with a million evaluations allowed", f.shape);
    for (unsigned lim = 1; lim <= full.evaluations + 5; lim++) {
        IntegrationSettings::Set_Integration_Eval_Limit(lim);
        long calls = 0;
        MAQ_RESULT r = MAQ([&](double x) { calls++; return f(x); });
        omc::count("integrations");
        bool enough = lim >= full.evaluations;
        if (r.successful != enough) omc::fail("%s %g %g, method %s: needs %u evaluations, %u were allowed, success=%d", f.shape, f.scale, f.width, METHODS[m], full.evaluations, lim, r.successful);
        if (enough && r.integral != full.integral) omc::fail("%s: the result depends on an evaluation limit that suffices: %.17g and %.17g", f.shape, r.integral, full.integral);
        if (!enough && !std::isnan(r.integral)) omc::fail("%s: %u evaluations do not suffice, yet the result is %g", f.shape, lim, r.integral);
        long search = full.evaluations;  (void)search;
        if (calls > 2 * 2048 + 8 + 2 * (long)lim + 3) omc::fail("%s: %ld evaluations made with a limit of %u", f.shape, calls, lim);
    }
    omc::outcome(f.shape);
}
HARNESS(search_limit, 0, 0, "every limit on the search from 1 to 300, integrands from obvious to hopeless, five methods") {
    static const Integrand fs[] = {make("lognormal", 1, 0.5, 1), make("lognormal", 0.002, 0.1, 1), make("lognormal", 800, 0.05, 1), make("lognormal", 5000, 0.001, 1), make("lognormal", 30, 0.03, 1)};
    const Integrand &f = fs[omc::choose(5, "integrand")]; int m = omc::choose(5, "method");
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Integration_Eval_Limit(100000);
    bool found = false; unsigned at = 0;
    for (unsigned lim = 1; lim <= 300; lim++) {
        IntegrationSettings::Set_Integration_Search_Limit(lim);
        long calls = 0;
        MAQ_RESULT r = MAQ([&](double x) { calls++; return f(x); });
        omc::count("integrations");
        if (!r.successful) omc::fail("%s %g %g: unsuccessful with search limit %u", f.shape, f.scale, f.width, lim);
        bool here = r.integral != 0;
        if (here && std::abs(r.integral - 1) > 0.02) omc::fail("%s %g %g, method %s, search limit %u: reported %g, true integral 1", f.shape, f.scale, f.width, METHODS[m], lim, r.integral);
        long search = here ? 2 * (long)r.evaluations - calls - 3 : calls;
        if (search > 2 * (long)lim + 4) omc::fail("%s %g %g, method %s: search limit %u, but %ld evaluations were made searching", f.shape, f.scale, f.width, METHODS[m], lim, search);
        if (here && !found) { found = true; at = lim; }
    }
    (void)at;
    omc::outcome(found ? "found" : "not found");
}
HARNESS(not_a_number, 0, 0, "every evaluation, in turn, is at a point where the integrand is not a number") {
    int n; const Integrand *p = probes(n);
    int which = omc::choose(n, "integrand"), m = omc::choose(5, "method");
    const Integrand &f = p[which];
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Integration_Eval_Limit(100000);
    // the search may look at more points than the integration uses: only the latter must be numbers
    std::vector<double> xs;
    MAQ_RESULT plain = MAQ([&](double x) { xs.push_back(x); return f(x); });
    long search = plain.integral == 0 ? (long)xs.size() : 2 * (long)plain.evaluations - (long)xs.size() - 3;
    for (size_t k = search < 0 ? 0 : search; k < xs.size(); k++) {
        double bad = xs[k]; bool hit = false, searched = false;
        for (long j = 0; j < search; j++) searched |= xs[j] == bad;
        if (searched) continue;                      // a different search may lead to different points
        for (int inf = 0; inf < 1; inf++) {
            MAQ_RESULT r = MAQ([&](double x) { if (x == bad) { hit = true; return (double)NAN; } return f(x); });
            omc::count("integrations");
            if (hit && r.successful) omc::fail("%s %g %g, method %s: the integrand is not a number at x=%.9g (evaluation %zu of %zu), yet the integral is reported as %g, successful", f.shape, f.scale, f.width, METHODS[m], bad, k + 1, xs.size(), r.integral);
            if (!r.successful && !std::isnan(r.integral)) omc::fail("unsuccessful with the result %g", r.integral);
        }
    }
    // from the k-th evaluation on, nothing but not-a-number
    for (size_t k = 0; k <= xs.size(); k++) {
        size_t c = 0;
        MAQ_RESULT r = MAQ([&](double x) { return c++ >= k ? (double)NAN : f(x); });
        omc::count("integrations");
        if (c > k && (r.successful || !std::isnan(r.integral))) omc::fail("%s, method %s: not a number from evaluation %zu on, reported %g, success=%d", f.shape, METHODS[m], k + 1, r.integral, r.successful);
        if (c <= k && !r.successful) omc::fail("unsuccessful without a fault");
    }
    omc::outcome(f.shape);
}
HARNESS(exceptions, 0, 0, "every evaluation, in turn, throws; the next integration is unaffected") {
    int n; const Integrand *p = probes(n);
    const Integrand &f = p[omc::choose(n, "integrand")]; int m = omc::choose(5, "method");
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Integration_Eval_Limit(100000);
    size_t calls = 0;
    MAQ_RESULT good = MAQ([&](double x) { calls++; return f(x); });
    size_t step = omc::thorough ? 1 : 7;
    for (size_t k = 0; k < calls; k += k < 20 ? 1 : step) {
        size_t c = 0; bool threw = false;
        try { MAQ([&](double x) { if (c++ == k) throw 7; return f(x); }); } catch (int) { threw = true; }
        if (!threw) omc::fail("the exception of evaluation %zu did not reach the caller", k + 1);
        MAQ_RESULT r = MAQ([&](double x) { return f(x); });
        if (r.integral != good.integral || r.successful != good.successful || r.evaluations != good.evaluations) omc::fail("an integration after a failed one differs: %g and %g", r.integral, good.integral);
        omc::count("integrations", 2);
    }
    omc::outcome(f.shape);
}
HARNESS(nothing, 0, 0, "integrands that are zero everywhere, or everywhere below the noise") {
    int m = omc::choose(5, "method"), l = omc::choose(4, "search limit"), k = omc::choose(4, "integrand");
    const unsigned lims[4] = {1, 10, 100, 2048};
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Integration_Search_Limit(lims[l]);
    long calls = 0;
    MAQ_RESULT r = MAQ([&](double x) { calls++; return k == 0 ? 0.0 : k == 1 ? -0.0 : k == 2 ? (x > 1e12 && x < 2e12 ? 1.0 : 0.0) : (std::isinf(x) || x == 0 ? 0.0 : x > 0.1 && x < 0.1000000001 ? 1.0 : 0.0); });
    if (!r.successful || r.integral != 0) omc::fail("method %s: reported %g, success=%d", METHODS[m], r.integral, r.successful);
    if (calls > 2 * (long)lims[l] + 4) omc::fail("method %s: %ld evaluations with a search limit of %u", METHODS[m], calls, lims[l]);
    if (k < 2 && calls != (long)r.evaluations) omc::fail("method %s: %ld evaluations made, %u reported", METHODS[m], calls, r.evaluations);
    omc::outcome(METHODS[m]);
}
HARNESS(failures_within, 0, 0, "an integration one of whose evaluations - each in turn - runs an integration that gives up: at its limit, on a value that is no number, or by an exception after 1 to 60 evaluations") {
    int n; const Integrand *p = probes(n);
    const Integrand &f = p[omc::choose(n, "outer integrand")], &g = p[omc::choose(n, "inner integrand")]; int m = omc::choose(5, "method"), how = omc::choose(3, "how");
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Integration_Eval_Limit(100000);
    size_t calls = 0;
    MAQ_RESULT outer = MAQ([&](double x) { calls++; return f(x); });
    size_t step = omc::thorough ? 1 : 5;
    for (size_t k = 0; k < calls; k += k < 10 ? 1 : step) {
        size_t c = 0; size_t at = 1 + (k * 7) % 60; bool gave_up = false;
        MAQ_RESULT both = MAQ([&](double x) {
            if (c++ == k) {
                size_t d = 0;
                try {
                    if (how == 0) IntegrationSettings::Set_Integration_Eval_Limit(20 + at);
                    MAQ_RESULT r = MAQ([&](double y) { if (++d > 20 + at) { if (how == 1) return (double)NAN; if (how == 2) throw 7; } return g(y); });
                    gave_up = !r.successful;
                } catch (int) { gave_up = true; }
                if (how == 0) IntegrationSettings::Set_Integration_Eval_Limit(100000);
            }
            return f(x);
        });
        if (both.integral != outer.integral || both.successful != outer.successful || both.evaluations != outer.evaluations) omc::fail("%s, method %s: with an integration that %s within its evaluation %zu it gives %.17g after %u evaluations, otherwise %.17g after %u", f.shape, METHODS[m], gave_up ? "gives up" : "ends", k + 1, both.integral, both.evaluations, outer.integral, outer.evaluations);
        MAQ_RESULT after = MAQ([&](double x) { return f(x); });
        if (after.integral != outer.integral || after.evaluations != outer.evaluations) omc::fail("%s, method %s: an integration after that gives %.17g, otherwise %.17g", f.shape, METHODS[m], after.integral, outer.integral);
        omc::count("integrations", 3); omc::count(gave_up ? "inner integrations that gave up" : "inner integrations that ended");
    }
    omc::outcome(f.shape);
}
// an integrand that integrates: neither disturbs the other
HARNESS(nested, 0, 0, "every integrand whose value at every (every third, only one) point takes another integration, of every kind, three deep") {
    int n; const Integrand *p = probes(n);
    const Integrand &f = p[omc::choose(n, "outer integrand")], &g = p[omc::choose(n, "inner integrand")]; int m = omc::choose(5, "method"), when = omc::choose(3, "when");
    defaults();
    IntegrationSettings::Set_Integration_Method((IntegrationSettings::METHOD_TYPE)m);
    IntegrationSettings::Set_Integration_Eval_Limit(100000);
    MAQ_RESULT outer = MAQ([&](double x) { return f(x); }), inner = MAQ([&](double x) { return g(x); });
    long c = 0, k = 0;
    MAQ_RESULT both = MAQ([&](double x) {
        c++;
        if (when == 0 || (when == 1 && c % 3 == 0) || (when == 2 && c == 20)) {
            MAQ_RESULT r = MAQ([&](double y) {
                if (++k % 500 == 77) { MAQ_RESULT q = MAQ([&](double z) { return f(z); }); if (q.integral != outer.integral || q.evaluations != outer.evaluations) omc::fail("an integration within an integrand within an integrand gives %.17g, alone %.17g", q.integral, outer.integral); }
                return g(y); });
            if (r.integral != inner.integral || r.successful != inner.successful || r.evaluations != inner.evaluations) omc::fail("an integration within an integrand gives %.17g, alone %.17g", r.integral, inner.integral);
            omc::count("integrations");
        }
        return f(x);
    });
    if (both.integral != outer.integral || both.successful != outer.successful || both.evaluations != outer.evaluations) omc::fail("%s, method %s: an integration whose integrand integrates gives %.17g after %u evaluations, otherwise %.17g after %u", f.shape, METHODS[m], both.integral, both.evaluations, outer.integral, outer.evaluations);
    omc::outcome(f.shape);
}
