// C15, schedules: concurrent queries for different quantities do not influence each other.
#include "omc.h"
#include "loss_functions.h"
#include <cmath>
using namespace SLAT; using std::vector; using std::make_shared; using std::shared_ptr;
static double want(int c) { double u = c <= 2 ? 5 : c >= 10 ? 1 : 5 - (c - 2) / 8.0 * 4; return 0.3 * u * c + 0.2 * 7 * c; }
static void threads(int n, int each) {
    omc::race_detect = true;
    vector<shared_ptr<BiLevelLoss>> l = {make_shared<BiLevelLoss>(2, 10, 5, 1, 0.3), make_shared<BiLevelLoss>(4, 4, 7, 7, 0.3)};
    BiLevelLossFn f(l); SimpleLossFn s({LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(2, 0.3)});
    static const int C[] = {1, 5, 12};
    vector<int> q; for (int i = 0; i < n * each; i++) q.push_back(omc::choose(4, "quantity"));
    vector<double> got(n * each);
    vector<std::function<void()>> b;
    for (int t = 0; t < n; t++) b.push_back([&, t] { for (int i = t * each; i < (t + 1) * each; i++) got[i] = q[i] == 3 ? s.CalculateLoss({0.5}, 4, 1).get_mean_X() : f.CalculateLoss({0.3, 0.2}, C[q[i]], 1).get_mean_X(); });
    omc::run(b);
    for (size_t i = 0; i < got.size(); i++) { double w = q[i] == 3 ? 4 : want(C[q[i]]); if (!(std::abs(got[i] - w) <= 1e-6 * w)) omc::fail("the loss of %d components is %g instead of %g", q[i] == 3 ? 4 : C[q[i]], got[i], w); }
    omc::outcome("ok");
}
HARNESS(two_threads, 2, 3, "two threads pricing one or two quantities each") { threads(2, 1 + omc::choose(2, "queries each")); }
HARNESS(three_threads, 1, 2, "three threads pricing one quantity each") { threads(3, 1); }
