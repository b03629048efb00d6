// Builds small models directly on the C++ classes and answers queries: one command per line on standard
// input; commands starting with "q" answer with one line of numbers ("!..." when the core throws).
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <cmath>
#include "maq.h"
#include "functions.h"
#include "relationships.h"
#include "fragility.h"
#include "loss_functions.h"
#include "comp_group.h"
#include "structure.h"
#include "context.h"
using namespace SLAT;
using namespace std;
namespace {
map<string, shared_ptr<DeterministicFn>> fns; map<string, shared_ptr<ProbabilisticFn>> pfs; map<string, shared_ptr<IM>> ims; map<string, shared_ptr<EDP>> edps;
map<string, shared_ptr<FragilityFn>> frags; map<string, shared_ptr<LossFn>> losses; map<string, shared_ptr<CompGroup>> cgs; map<string, shared_ptr<Structure>> sts;
void reset() { sts.clear(); cgs.clear(); losses.clear(); frags.clear(); edps.clear(); ims.clear(); pfs.clear(); fns.clear(); Integration::IntegrationSettings::Reset(); }
template <class T> T &need(map<string, T> &m, const string &k) { auto i = m.find(k); if (i == m.end()) throw runtime_error("oracle: unknown " + k); return i->second; }
LogNormalDist dist(istream &in) {
    string m, s; string a, b; in >> m >> a >> s >> b; double mu = strtod(a.c_str(), 0), sd = strtod(b.c_str(), 0);
    if (m == "def") return LogNormalDist();
    if (m == "meanln" && s == "sdln") return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, sd);
    if (m == "mean" && s == "sdln") return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(mu, sd);
    if (m == "median" && s == "sdln") return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(mu, sd);
    if (m == "mean" && s == "sd") return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(mu, sd);
    throw runtime_error("oracle: dist " + m + " " + s);
}
double num(istream &in) { string s; in >> s; return strtod(s.c_str(), 0); }
vector<double> out;
void put(double d) { out.push_back(d); }
void put(const LogNormalDist &d) { put(d.get_mean_X()); put(d.get_mu_lnX()); put(d.get_median_X()); put(d.get_sigma_lnX()); put(d.get_sigma_X()); }
void put(const vector<double> &v) { for (double d : v) put(d); }
void query(istream &in);
void settings(istream &in);
void sequence(istream &in) {                                   // queries, settings and resets one after another, then the statistics
    string part; Integration::reset_statistics();
    while (getline(in, part, ';')) {
        istringstream p(part); string w; p >> w;
        if (w == "") continue;
        if (w == "zero") Integration::reset_statistics();
        else if (w == "set") settings(p);
        else if (w == "limits") { double t = num(p), n = num(p); Integration::IntegrationSettings::Set_Tolerance(t); Integration::IntegrationSettings::Set_Integration_Eval_Limit((unsigned)n); }
        else { p.seekg(0); query(p); out.clear(); }
    }
    const auto *s = Integration::get_statistics();
    for (double v : {(double)s->method, s->tolerance, (double)s->eval_limit, (double)s->search_limit, (double)s->max_successful_integration, (double)s->number_integration_fails, (double)s->total_integrations_evals,
                     (double)s->max_successful_search, (double)s->number_search_fails, (double)s->total_search_evals, (double)s->calls, (double)s->successes, (double)s->nans}) put(v);
}
void query(istream &in) {
    string w, h; in >> w >> h;
    if (w == "fn") { put(need(fns, h)->ValueAt(num(in))); return; }
    if (w == "dist") { istringstream d(h + " " + [&] { string r; getline(in, r); return r; }()); put(dist(d)); return; }
    if (w == "dp") { istringstream d(h + " " + [&] { string r; getline(in, r); return r; }()); auto v = dist(d); double x = num(d), p = num(d); put(v.p_at_least(x)); put(v.p_at_most(x)); put(v.x_at_p(p)); return; }
    if (w == "dsum") { vector<LogNormalDist> v; for (int n = atoi(h.c_str()); n > 0; n--) v.push_back(dist(in)); put(LogNormalDist::AddDistributions(v)); return; }
    if (w == "pfp") { auto p = need(pfs, h); double x = num(in); put(p->P_exceedence(x, num(in))); return; }
    if (w == "pf") { auto p = need(pfs, h); double x = num(in); put(p->Mean(x)); put(p->MeanLn(x)); put(p->Median(x)); put(p->SD_ln(x)); put(p->SD(x)); return; }
    if (w == "pfx") { auto p = need(pfs, h); double x = num(in); put(p->X_at_exceedence(x, num(in))); return; }
    if (w == "im") { auto p = need(ims, h); double x = num(in); put(p->lambda(x)); put(p->pCollapse(x)); put(p->pDemolition(x)); put(p->pRepair(x)); return; }
    if (w == "imr") { auto p = need(ims, h); put(p->CollapseRate()); put(p->DemolitionRate()); return; }
    if (w == "edp") { auto p = need(edps, h); double x = num(in); put(p->Mean(x)); put(p->MeanLn(x)); put(p->Median(x)); put(p->SD_ln(x)); put(p->SD(x)); return; }
    if (w == "edpx") { auto p = need(edps, h); double x = num(in); double y = num(in); put(p->X_at_exceedence(x, y)); return; }
    if (w == "edpp") { auto p = need(edps, h); double x = num(in); double y = num(in); put(p->P_exceedence(x, y)); return; }
    if (w == "edpl") { put(need(edps, h)->lambda(num(in))); return; }
    if (w == "frag") { auto p = need(frags, h); double x = num(in); put(p->pExceeded(x)); return; }
    if (w == "fragh") { auto p = need(frags, h); double x = num(in); put(p->pHighest(x)); return; }
    if (w == "cgec") { auto p = need(cgs, h); double x = num(in); put(p->E_cost_EDP(x)); put(p->SD_ln_cost_EDP(x)); return; }
    if (w == "cged") { auto p = need(cgs, h); double x = num(in); put(p->E_delay_EDP(x)); put(p->SD_ln_delay_EDP(x)); return; }
    if (w == "cgic") { auto p = need(cgs, h); double x = num(in); put(p->E_cost_IM(x)); put(p->SD_ln_cost_IM(x)); return; }
    if (w == "cgid") { auto p = need(cgs, h); double x = num(in); put(p->E_delay_IM(x)); put(p->SD_ln_delay_IM(x)); return; }
    if (w == "cgd") { auto p = need(cgs, h); double x = num(in); put(p->pDS_IM(x)); return; }
    if (w == "cgr") { auto p = need(cgs, h); put((vector<double>)p->Rate()); return; }
    if (w == "cga") { auto p = need(cgs, h); put((double)p->E_annual_cost()); return; }
    if (w == "cgl") { auto p = need(cgs, h); put(p->lambda_cost(num(in))); return; }
    if (w == "stc") { auto p = need(sts, h); double x = num(in); put(p->Cost(x, true)); put(p->Cost(x, false)); return; }
    if (w == "stt") { auto p = need(sts, h); put(p->TotalCost(num(in))); return; }
    if (w == "stf") { auto p = need(sts, h); auto c = p->CostsByFate(num(in)); put(c.repair); put(c.demolition); put(c.collapse); return; }
    if (w == "std") { auto p = need(sts, h); auto c = p->DeaggregatedCost(num(in)); put(c.first); put(c.second); return; }
    if (w == "sta") { auto p = need(sts, h); put((LogNormalDist)p->AnnualCost()); return; }
    if (w == "stn") { auto p = need(sts, h); double y = num(in), r = num(in); put(p->E_cost((int)y, r)); return; }
    if (w == "stp") { auto p = need(sts, h); put(p->pdf(num(in))); return; }
    if (w == "str") { auto p = need(sts, h); put(p->getRebuildCost()); put(p->getDemolitionCost()); return; }
    if (w == "cgsum") {                                        // the sum of the costs of some groups at a level, as distributions
        double x = strtod(h.c_str(), 0); string g; vector<LogNormalDist> v;
        while (in >> g) { auto p = need(cgs, g); v.push_back(LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(p->E_cost_IM(x), p->SD_ln_cost_IM(x))); }
        put(LogNormalDist::AddDistributions(v)); return;
    }
    throw runtime_error("oracle: query " + w);
}
void settings(istream &in) {
        string m; in >> m; double t = num(in); unsigned e = num(in), s = num(in); typedef Integration::IntegrationSettings S;
        S::Set_Tolerance(t); S::Set_Integration_Eval_Limit(e); S::Set_Integration_Search_Limit(s);
        S::Set_Integration_Method(m == "binary" ? S::BINARY_SUBDIVISION : m == "revbin" ? S::REVERSE_BINARY_SUBDIVISION : m == "lowrev" ? S::LOW_FIRST_REVERSE_BINARY_SUBDIVISION : m == "scattered" ? S::SCATTERED : S::DIRECTED);
}
void command(const string &c, istream &in) {
    string h;
    if (c == "reset") { reset(); return; }
    if (c == "set") { settings(in); return; }
    if (c == "nop") return;
    in >> h;
    if (c == "fn") {
        string k; in >> k;
        if (k == "plc") { double a = num(in), b = num(in); fns[h] = make_shared<PowerLawParametricCurve>(a, b); }
        else if (k == "nlh") { double a = num(in), b = num(in), d = num(in); fns[h] = make_shared<NonLinearHyperbolicLaw>(a, b, d); }
        else {
            int n; in >> n; vector<double> x, y; for (int i = 0; i < n; i++) x.push_back(num(in)); for (int i = 0; i < n; i++) y.push_back(num(in));
            if (k == "lin") fns[h] = make_shared<LinearInterpolatedFn>(x.data(), y.data(), n); else fns[h] = make_shared<LogLogInterpolatedFn>(x.data(), y.data(), n);
        }
    } else if (c == "pf") {
        string m, f, s, g; in >> m >> f >> s >> g; typedef LogNormalFn L;
        pfs[h] = make_shared<L>(need(fns, f), m == "mean" ? L::MEAN_X : m == "median" ? L::MEDIAN_X : L::MEAN_LN_X, need(fns, g), s == "sd" ? L::SIGMA_X : L::SIGMA_LN_X);
    } else if (c == "im") { string f; in >> f; ims[h] = make_shared<IM>(need(fns, f)); }
    else if (c == "col") need(ims, h)->SetCollapse(make_shared<LogNormalDist>(dist(in)));
    else if (c == "dem") need(ims, h)->SetDemolition(make_shared<LogNormalDist>(dist(in)));
    else if (c == "edp") { string i, p; in >> i >> p; edps[h] = make_shared<EDP>(need(ims, i), need(pfs, p)); }
    else if (c == "edp2") { string i, p, r; in >> i >> p >> r; edps[h] = make_shared<CompoundEDP>(need(ims, i), need(pfs, p), need(pfs, r)); }
    else if (c == "frag") { int n; in >> n; vector<LogNormalDist> v; for (int i = 0; i < n; i++) v.push_back(dist(in)); frags[h] = make_shared<FragilityFn>(v); }
    else if (c == "loss") { int n; in >> n; vector<LogNormalDist> v; for (int i = 0; i < n; i++) v.push_back(dist(in)); losses[h] = make_shared<SimpleLossFn>(v); }
    else if (c == "bil") {
        int n; in >> n; vector<shared_ptr<BiLevelLoss>> v;
        for (int i = 0; i < n; i++) { int a = num(in), b = num(in); double x = num(in), y = num(in), z = num(in); v.push_back(make_shared<BiLevelLoss>(a, b, x, y, z)); }
        losses[h] = make_shared<BiLevelLossFn>(v);
    } else if (c == "cg") {
        string e, f, k, d; in >> e >> f >> k >> d; int n = num(in); double a = num(in), b = num(in);
        shared_ptr<LossFn> delay = d == "-" ? shared_ptr<LossFn>(make_shared<SimpleLossFn>(vector<LogNormalDist>(1))) : need(losses, d);
        cgs[h] = make_shared<CompGroup>(need(edps, e), need(frags, f), need(losses, k), delay, n, a, b);
    } else if (c == "st") sts[h] = make_shared<Structure>("building");
    else if (c == "add") { string g; in >> g; need(sts, h)->AddCompGroup(need(cgs, g)); }
    else if (c == "rem") { string g; in >> g; need(sts, h)->RemoveCompGroup(need(cgs, g)); }
    else if (c == "reb") need(sts, h)->setRebuildCost(dist(in));
    else if (c == "demo") need(sts, h)->setDemolitionCost(dist(in));
    else throw runtime_error("oracle: command " + c);
}
}
int main() {
    FILE *answers = fdopen(dup(1), "w");                       // the library prints to standard output now and then
    if (!answers || !freopen("/dev/null", "w", stdout)) return 4;
    Context::Initialise();
    string line, broken;                                       // what the core said to a definition it refused
    while (getline(cin, line)) {
        istringstream in(line); string c; in >> c;
        out.clear();
        try {
            if (c == "reset") broken = "";
            if (c == "q" && broken != "") throw runtime_error("model: " + broken);
            if (c == "q") { auto at = in.tellg(); string w; in >> w; if (w == "seq") sequence(in); else { in.seekg(at); query(in); } for (size_t i = 0; i < out.size(); i++) fprintf(answers, "%s%.17g", i ? " " : "", out[i]); fprintf(answers, "\n"); fflush(answers); }
            else command(c, in);
        } catch (const exception &e) {
            if (c == "q") { fprintf(answers, "!%s\n", e.what()); fflush(answers); } else if (broken == "") broken = line + ": " + e.what();
        }
    }
    return 0;
}
