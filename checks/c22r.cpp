// C22, schedules: the parallel functions of the Python binding.
#include "omc.h"
#include "pyslatcore.h"
#include <cmath>
using std::vector;
static void bulk(int n) {
    omc::race_detect = true; omc::team_size = 2;
    int what = omc::choose(6, "function");
    vector<double> grid = {0.1, 0.4, 0.9}, x;
    for (int i = 0; i < n; i++) x.push_back(grid[omc::choose(3, "level")]);
    IntegrationSettings(0.5, 32); Set_Integration_Search_Limit(32);
    IM *im = MakeIM(*factory2(PLC, {0.002, -1.8}));
    ProbabilisticFn *p = MakeLogNormalProbabilisticFn(*factory2(PLC, {0.1, 1.5}), MEAN_X, *factory2(PLC, {0.5, 0.1}), SD_LN_X);
    EDP *e = MakeEDP(*im, *p, "e"), *f = MakeEDP(*im, *p, "f");
    vector<double> got, want;
    auto one = [&](EDP *q, double v) { switch (what) { case 0: return q->Mean(v); case 1: return q->MeanLn(v); case 2: return q->Median(v); case 3: return q->SD_ln(v); case 4: return q->SD(v); default: return q->get_lambda(v); } };
    omc::run({[&] { switch (what) { case 0: got = e->bulk_Mean(x); break; case 1: got = e->bulk_MeanLn(x); break; case 2: got = e->bulk_Median(x); break;
                                    case 3: got = e->bulk_SD_ln(x); break; case 4: got = e->bulk_SD(x); break; default: got = e->get_lambda(x); } }});
    if (got.size() != x.size()) omc::fail("%d values for %d levels", (int)got.size(), (int)x.size());
    for (int i = 0; i < n; i++) { double w = one(f, x[i]); if (!(std::abs(got[i] - w) <= 1e-9 * std::abs(w)) && !(std::isnan(w) && std::isnan(got[i]))) omc::fail("value %d is %.10g instead of %.10g", i, got[i], w); }
    omc::outcome(std::isnan(got[0]) ? "nan" : "ok");
}
HARNESS(two_levels, 2, 4, "every bulk function of a demand with two levels on two threads") { bulk(2); }
HARNESS(three_levels, 1, 3, "every bulk function of a demand with three levels") { bulk(3); }
