// C14: damage-state probabilities are a probability distribution.
#include "grid.h"
#include "fragility.h"
using namespace SLAT; using grid::LN; using grid::R; using grid::expect; using std::vector;
static const double MED[] = {0.08, 0.3, 0.9, 4}, SD[] = {0.15, 0.4, 0.9};
static const double LEVELS[] = {0, 1e-4, 0.02, 0.08, 0.15, 0.3, 0.55, 0.9, 1.6, 4, 9, 40, 1e4};
static LogNormalDist dist(const LN &w, int how) {
    return how == 0 ? LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(w.med(), w.s) : how == 1 ? LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(w.mean(), w.s) : LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(w.mean(), w.sd());
}
static void check(const vector<LN> &w, int how, bool reverse) {
    vector<LogNormalDist> on; for (auto &d : w) on.push_back(dist(d, how));
    bool increasing = !w.empty();
    for (size_t i = 1; i < w.size(); i++) if (on[i].get_mu_lnX() <= on[i - 1].get_mu_lnX()) increasing = false;
    if (!increasing) {
        if (!grid::refuses([&] { FragilityFn f(on); })) omc::fail("a fragility function of %zu states that are %s is accepted", w.size(), w.empty() ? "missing" : "not in increasing order");
        omc::outcome("refused"); return;
    }
    FragilityFn f(on);
    if (f.n_states() != w.size() || f.DamageStates().size() != w.size()) omc::fail("%zu states instead of %zu", f.n_states(), w.size());
    for (size_t i = 0; i < w.size(); i++) { auto d = f.DamageStates()[i]; expect("median of an onset", d.get_median_X(), w[i].med()); expect("dispersion of an onset", d.get_sigma_lnX(), w[i].s); }
    vector<double> last(w.size(), 0);
    const int N = sizeof LEVELS / sizeof *LEVELS;
    for (int k = 0; k < N; k++) {
        double edp = LEVELS[reverse ? N - 1 - k : k];
        vector<double> e = f.pExceeded(edp), h = f.pHighest(edp), e2 = f.pExceeded(edp);
        if (e.size() != w.size() || h.size() != w.size()) omc::fail("%zu and %zu probabilities for %zu states", e.size(), h.size(), w.size());
        double sum = 0; bool crossing = false;
        for (size_t i = 0; i < w.size(); i++) {
            expect("probability of reaching a state", e[i], w[i].below(edp), 1e-6, 1e-9);
            if (e[i] != e2[i]) omc::fail("asked again, the probability differs");
            if (reverse ? k && e[i] > last[i] : e[i] < last[i]) omc::fail("the probability of reaching state %zu does not grow with demand at %g", i, edp);
            if (i && e[i] > e[i - 1]) crossing = true;
            grid::between("probability of a state being the worst", h[i], 0, 1);
            sum += h[i];
            last[i] = e[i];
        }
        double differences = 0;
        for (size_t i = 0; i < w.size(); i++) {
            double d = i + 1 < w.size() ? e[i] - e[i + 1] : e[i];
            if (!crossing) expect("probability of being the worst", h[i], d, 1e-9, 1e-12);
            else differences += d < 0 ? 0 : d;
        }
        if (!crossing) expect("total", sum, e[0], 1e-9, 1e-12);
        else {
            double top = 0; for (double p : e) if (p > top) top = p;
            // where curves cross, the probabilities must at least be those of disjoint events
            if (!grid::near(sum, top, 1e-9, 1e-9)) {
                if (!grid::near(sum, differences, 1e-9, 1e-9)) omc::fail("where onset curves cross the total is %.12g, neither the largest exceedance %.12g nor the sum of the positive differences %.12g", sum, top, differences);
                for (size_t i = 0; i < w.size(); i++) expect("probability of being the worst where curves cross", h[i], std::max(0.0, i + 1 < w.size() ? e[i] - e[i + 1] : e[i]), 1e-9, 1e-12);
                omc::violation("crossing-onset-curves", "with crossing onset curves the probabilities of the worst state total %.6g at demand %g, where no state is reached with a probability above %.6g", sum, edp, top);
            }
        }
    }
    omc::outcome("ok");
}
static LN pick() { return LN::median(MED[omc::choose(4, "median")], SD[omc::choose(3, "dispersion")]); }
HARNESS(lists, 0, 0, "every list of up to three onsets over 12 distributions, ordered or not, at 13 demands") {
    int n = omc::choose(4, "states"); vector<LN> w; for (int i = 0; i < n; i++) w.push_back(pick());
    check(w, omc::choose(3, "construction"), omc::choose(2, "demands downwards"));
}
HARNESS(four, 0, 0, "every list of four onsets over 4 medians with equal (any) dispersions") {
    vector<LN> w; double s = SD[omc::choose(3, "dispersion")];
    for (int i = 0; i < 4; i++) w.push_back(LN::median(MED[omc::choose(4, "median")], omc::thorough ? SD[omc::choose(3, "dispersion")] : s));
    check(w, 0, false);
}
HARNESS(close, 0, 0, "medians that differ by a hair are still an order; equal ones are not") {
    double eps = omc::choose(3, "gap") == 0 ? 0 : 1e-6; int down = omc::choose(2, "direction"); double s = SD[omc::choose(3, "dispersion")];
    vector<LN> w = {LN::median(1, s), LN::median(down ? 1 - eps : 1 + eps, s), LN::median(3, s)};
    check(w, 0, false);
}
#include "companions.h"
#include <memory>
HARNESS(side_by_side, 0, 0, "five fragility functions of one to three states, every sequence of three (four) queries at the same demands") {
    auto make = [](int k) {
        static const vector<LN> F[5] = {{LN::median(0.1, 0.4)}, {LN::median(0.12, 0.4), LN::median(0.35, 0.3)}, {LN::median(0.09, 0.3), LN::median(0.5, 0.3)}, {LN::median(0.08, 0.4), LN::median(0.2, 0.4), LN::median(0.6, 0.4)}, {LN::median(0.15, 0.5), LN::median(0.3, 0.5), LN::median(0.9, 0.5)}};
        vector<LogNormalDist> on; for (auto &d : F[k]) on.push_back(dist(d, 0));
        auto f = std::make_shared<FragilityFn>(on); companions::Queries q;
        for (double e : {0.13, 0.4}) { q.push_back({"probability of reaching the states", [=] { return f->pExceeded(e); }}); q.push_back({"probability of the worst state", [=] { return f->pHighest(e); }}); }
        q.push_back({"onsets", [=] { vector<double> r; for (auto &d : f->DamageStates()) r.push_back(d.get_median_X()); return r; }});
        return q;
    };
    companions::turns(5, make, omc::thorough ? 4 : 3);
}
HARNESS(many_states, 0, 0, "one to 24 (60) states, three spacings, three dispersions, in order or with two neighbours exchanged") {
    int n = 1 + omc::choose(omc::thorough ? 60 : 24, "states"), gap = omc::choose(3, "spacing"), swapped = omc::choose(n, "exchanged"); double s = SD[omc::choose(3, "dispersion")];
    static const double GAP[] = {1.05, 1.4, 1.0001}; vector<LN> w;
    for (int i = 0; i < n; i++) w.push_back(LN::median(0.05 * std::pow(GAP[gap], i), s));
    if (swapped) std::swap(w[swapped], w[swapped - 1]);
    check(w, omc::choose(3, "construction"), false);
}
