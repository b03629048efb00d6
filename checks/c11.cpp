// C11: integration settings and statistics say what is true.
#include "maq_common.h"
#include "omc.h"
#include <climits>
#include <map>
#include <sstream>
using namespace mq;
typedef IntegrationSettings IS;

struct Settings { double tol; unsigned evals, search; int method; };
static const Settings DEFAULTS = {1e-3, 2048, 2048, IS::DIRECTED};
static void force(const Settings &s) {
    IS::Reset(); IS::Set_Tolerance(s.tol); IS::Set_Integration_Eval_Limit(s.evals); IS::Set_Integration_Search_Limit(s.search); IS::Set_Integration_Method((IS::METHOD_TYPE)s.method);
}
// the integrands: found by the first two evaluations; needing a search; absent; faulty
enum Kind { EASY, HARD, ABSENT, NOTNUM_EDGE, NOTNUM_INSIDE, THROWS, KINDS };
static const char *const KN[] = {"easy", "searched", "absent", "not-a-number at the edge", "not-a-number inside", "throwing"};
struct Run { MAQ_RESULT r; long calls; bool threw; };
static Run integrate(int kind) {
    static const Integrand easy = make("lognormal", 1, 0.5, 1), hard = make("lognormal", 0.05, 0.2, 1);
    Run o = {{0, false, 0}, 0, false};
    try {
        o.r = MAQ([&](double x) {
            long c = ++o.calls;
            switch (kind) {
            case EASY: return easy(x);
            case HARD: return hard(x);
            case ABSENT: return 0.0;
            case NOTNUM_EDGE: return c > 2 ? (double)NAN : easy(x);
            case NOTNUM_INSIDE: return c > 8 ? (double)NAN : easy(x);
            default: if (c > 6) throw 1; return easy(x);
            }
        });
    } catch (int) { o.threw = true; }
    return o;
}
struct Counts {
    long calls = 0, successes = 0, fails = 0, nans = 0, searchfails = 0, evals = 0, search = 0, max_ok = 0, max_any = 0, maxs_ok = 0, maxs_any = 0, thrown = 0;
    void add(int kind, const Run &r) {
        calls++;
        if (r.threw) { thrown++; search += 2; maxs_ok = std::max(maxs_ok, 2L); maxs_any = std::max(maxs_any, 2L); return; }
        if (kind == ABSENT || (kind == HARD && r.r.integral == 0)) {
            searchfails++; search += r.r.evaluations; maxs_any = std::max(maxs_any, (long)r.r.evaluations); return;
        }
        long s = kind == HARD ? 2 * ((long)r.r.evaluations - (r.r.successful ? 0 : 1)) - r.calls - 3 : 2;
        search += s; maxs_ok = std::max(maxs_ok, s); maxs_any = std::max(maxs_any, s);
        evals += r.r.evaluations;
        if (r.r.successful) { successes++; max_ok = std::max(max_ok, (long)r.r.evaluations); max_any = std::max(max_any, (long)r.r.evaluations); }
        else if ((kind == NOTNUM_EDGE) || (kind == NOTNUM_INSIDE && r.calls > 8)) nans++;
        else { fails++; max_any = std::max(max_any, (long)r.r.evaluations); }
    }
};
static void check_counts(const Counts &c, const char *when) {
    const IntegrationStats *s = get_statistics();
#define EQ(F, V) if ((long)s->F != (long)(V)) omc::fail("%s: " #F " is %ld, should be %ld", when, (long)s->F, (long)(V))
    EQ(calls, c.calls); EQ(successes, c.successes); EQ(number_integration_fails, c.fails); EQ(nans, c.nans); EQ(number_search_fails, c.searchfails);
    EQ(total_integrations_evals, c.evals); EQ(total_search_evals, c.search);
#undef EQ
    // whether a failed one may set the maximum is not specified
    if ((long)s->max_successful_integration < c.max_ok || (long)s->max_successful_integration > c.max_any) omc::fail("%s: max_successful_integration is %u, should be %ld", when, s->max_successful_integration, c.max_ok);
    if ((long)s->max_successful_search < c.maxs_ok || (long)s->max_successful_search > c.maxs_any) omc::fail("%s: max_successful_search is %u, should be %ld", when, s->max_successful_search, c.maxs_ok);
}
static void check_settings(const Settings &s, const char *when) {
    if (IS::Get_Tolerance() != s.tol) omc::fail("%s: tolerance is %g, should be %g", when, IS::Get_Tolerance(), s.tol);
    if (IS::Get_Integration_Eval_Limit() != s.evals) omc::fail("%s: evaluation limit is %u, should be %u", when, IS::Get_Integration_Eval_Limit(), s.evals);
    if (IS::Get_Integration_Search_Limit() != s.search) omc::fail("%s: search limit is %u, should be %u", when, IS::Get_Integration_Search_Limit(), s.search);
    if ((int)IS::Get_Integration_Method() != s.method) omc::fail("%s: method is %d, should be %d", when, (int)IS::Get_Integration_Method(), s.method);
    const IntegrationStats *t = get_statistics();
    if (t->tolerance != s.tol || t->eval_limit != s.evals || t->search_limit != s.search || (int)t->method != s.method) omc::fail("%s: the statistics report other settings than those in force", when);
}
static void check_text(const Settings &s, const Counts &c, const char *when) {
    std::ostringstream o; format_statistics(o);
    std::map<std::string, std::string> m; std::istringstream in(o.str()); std::string line;
    while (std::getline(in, line)) { size_t k = line.find(": "); if (k != std::string::npos) m[line.substr(0, k)] = line.substr(k + 2); }
    static const char *const names[] = {"Binary Subdivision", "Reverse Binary Subdivision", "Low-First Reverse Binary Subdivision", "Scattered", "Directed"};
    const IntegrationStats *t = get_statistics();
    auto is = [&](const char *k, double v) { if (!m.count(k) || std::abs(std::atof(m[k].c_str()) - v) > 1e-9 * std::abs(v)) omc::fail("%s: the report says '%s' for %s, should be %g", when, m[k].c_str(), k, v); };
    if (m["Search Algorithm"] != names[s.method]) omc::fail("%s: the report names the method '%s'", when, m["Search Algorithm"].c_str());
    is("Tolerance", s.tol); is("Integration Eval Limit", s.evals); is("Search Eval Limit", s.search);
    is("Max Integration Evals", t->max_successful_integration); is("Integration Failures", c.fails); is("Total Integration Evals", c.evals);
    is("Max Search Evals", t->max_successful_search); is("Number Search Fails", c.searchfails); is("Total Search Evals", c.search);
    is("Number of Calls", c.calls); is("Successes", c.successes); is("NANs", c.nans);
}

struct Op { const char *name; std::function<void(Settings &)> f; };
static const std::vector<Op> &setters() {
    static const std::vector<Op> v = {
        {"tolerance 1e-5", [](Settings &s) { IS::Set_Tolerance(1e-5); s.tol = 1e-5; }}, {"tolerance 0.01", [](Settings &s) { IS::Set_Tolerance(0.01); s.tol = 0.01; }},
        {"tolerance 0", [](Settings &) { IS::Set_Tolerance(0); }}, {"tolerance -1", [](Settings &) { IS::Set_Tolerance(-1); }}, {"tolerance nan", [](Settings &) { IS::Set_Tolerance(NAN); }},
        {"default tolerance", [](Settings &s) { IS::Use_Default_Tolerance(); s.tol = DEFAULTS.tol; }},
        {"evaluations 8", [](Settings &s) { IS::Set_Integration_Eval_Limit(8); s.evals = 8; }}, {"evaluations 1", [](Settings &s) { IS::Set_Integration_Eval_Limit(1); s.evals = 1; }},
        {"evaluations max", [](Settings &s) { IS::Set_Integration_Eval_Limit(UINT_MAX); s.evals = UINT_MAX; }}, {"evaluations 0", [](Settings &) { IS::Set_Integration_Eval_Limit(0); }},
        {"default evaluations", [](Settings &s) { IS::Use_Default_Integration_Eval_Limit(); s.evals = DEFAULTS.evals; }},
        {"search 3", [](Settings &s) { IS::Set_Integration_Search_Limit(3); s.search = 3; }}, {"search 400", [](Settings &s) { IS::Set_Integration_Search_Limit(400); s.search = 400; }},
        {"search 0", [](Settings &) { IS::Set_Integration_Search_Limit(0); }}, {"default search", [](Settings &s) { IS::Use_Default_Integration_Search_Limit(); s.search = DEFAULTS.search; }},
        {"method binary", [](Settings &s) { IS::Set_Integration_Method(IS::BINARY_SUBDIVISION); s.method = IS::BINARY_SUBDIVISION; }},
        {"method reverse", [](Settings &s) { IS::Set_Integration_Method(IS::REVERSE_BINARY_SUBDIVISION); s.method = IS::REVERSE_BINARY_SUBDIVISION; }},
        {"method low-first", [](Settings &s) { IS::Set_Integration_Method(IS::LOW_FIRST_REVERSE_BINARY_SUBDIVISION); s.method = IS::LOW_FIRST_REVERSE_BINARY_SUBDIVISION; }},
        {"method scattered", [](Settings &s) { IS::Set_Integration_Method(IS::SCATTERED); s.method = IS::SCATTERED; }},
        {"method directed", [](Settings &s) { IS::Set_Integration_Method(IS::DIRECTED); s.method = IS::DIRECTED; }},
        {"default method", [](Settings &s) { IS::Use_Default_Method(); s.method = DEFAULTS.method; }},
        {"reset", [](Settings &s) { IS::Reset(); s = DEFAULTS; }},
    };
    return v;
}
static void same(const Run &a, const Run &b, const Settings &s, int kind) {
    bool eq = a.calls == b.calls && a.threw == b.threw && a.r.successful == b.r.successful && a.r.evaluations == b.r.evaluations && (a.r.integral == b.r.integral || (std::isnan(a.r.integral) && std::isnan(b.r.integral)));
    if (!eq) omc::fail("integrating the %s integrand with tolerance %g, limits %u and %u, method %s: %.17g, success=%d, %u reported, %ld made; freshly set: %.17g, success=%d, %u, %ld", KN[kind], s.tol, s.evals, s.search, METHODS[s.method],
                       a.r.integral, a.r.successful, a.r.evaluations, a.calls, b.r.integral, b.r.successful, b.r.evaluations, b.calls);
}

HARNESS(initial, 0, 0, "the values before anything is set") {
    check_settings(DEFAULTS, "initially"); reset_statistics(); check_counts(Counts(), "after a reset"); omc::outcome("initial");
}
HARNESS(histories, 0, 0, "every history of 22 setting operations, 6 integrations and a reset of the statistics, to depth 3 (4)") {
    const auto &S = setters();
    IS::Reset(); reset_statistics();
    Settings s = DEFAULTS; Counts c;
    int depth = omc::thorough ? 4 : 3;
    struct Done { int kind; Settings s; Run r; }; std::vector<Done> done;
    for (int d = 0; d < depth; d++) {
        int op = omc::choose((int)S.size() + KINDS + 1, "operation");
        char when[100];
        if (op < (int)S.size()) { S[op].f(s); snprintf(when, sizeof when, "after '%s'", S[op].name); }
        else if (op < (int)S.size() + KINDS) {
            int k = op - (int)S.size(); Run r = integrate(k); c.add(k, r); done.push_back({k, s, r}); snprintf(when, sizeof when, "after integrating (%s)", KN[k]);
        } else { reset_statistics(); c = Counts(); snprintf(when, sizeof when, "after a reset of the statistics"); }
        omc::note("%s", when);
        check_settings(s, when); check_counts(c, when);
    }
    check_text(s, c, "at the end");
    for (auto &d : done) { force(d.s); same(d.r, integrate(d.kind), d.s, d.kind); }
    omc::count("integrations", 2 * done.size());
    omc::outcome(done.size() == 0 ? "settings only" : done.size() == 1 ? "one integration" : "several");
}
HARNESS(in_force, 0, 0, "every combination of tolerances, limits, methods: integrations obey each one") {
    const double tols[] = {0.05, 1e-3, 1e-6}; const unsigned el[] = {1, 6, 20, 2048}, sl[] = {1, 3, 40, 2048};
    Settings s = {tols[omc::choose(3, "tolerance")], el[omc::choose(4, "evaluations")], sl[omc::choose(4, "search")], omc::choose(5, "method")};
    int order = omc::choose(4, "order of setting");
    IS::Reset();
    auto t = [&] { IS::Set_Tolerance(s.tol); }; auto e = [&] { IS::Set_Integration_Eval_Limit(s.evals); }; auto r = [&] { IS::Set_Integration_Search_Limit(s.search); }; auto m = [&] { IS::Set_Integration_Method((IS::METHOD_TYPE)s.method); };
    if (order == 0) { t(); e(); r(); m(); } else if (order == 1) { m(); r(); e(); t(); } else if (order == 2) { e(); m(); t(); r(); } else { r(); t(); m(); e(); }
    check_settings(s, "after setting everything");
    for (int k = 0; k < 3; k++) {
        Run x = integrate(k);
        bool found = x.r.integral != 0;
        if (found && x.r.successful && x.r.evaluations > s.evals) omc::fail("successful after %u evaluations, limit %u", x.r.evaluations, s.evals);
        if (found && x.r.successful && std::abs(x.r.integral - 1) > 20 * s.tol) omc::fail("%s integrand, tolerance %g: integral %g instead of 1", KN[k], s.tol, x.r.integral);
        if (!found && x.calls > 2 * (long)s.search + 4) omc::fail("search limit %u, but %ld evaluations were made searching", s.search, x.calls);
        if (!x.r.successful && x.r.evaluations <= s.evals) omc::fail("unsuccessful after %u evaluations, limit %u", x.r.evaluations, s.evals);
    }
    omc::outcome(METHODS[s.method]);
}
// The tolerance, the limits and the method make an observable difference.
HARNESS(difference, 0, 0, "changing any one setting changes what integrations do") {
    int m = omc::choose(5, "method");
    Settings a = {1e-3, 2048, 2048, m}, b = a; b.tol = 1e-6;
    force(a); Run ra = integrate(EASY); force(b); Run rb = integrate(EASY);
    if (rb.calls <= ra.calls) omc::fail("a smaller tolerance does not lead to more evaluations (%ld and %ld)", ra.calls, rb.calls);
    b = a; b.evals = 6; force(b); rb = integrate(EASY);
    if (rb.r.successful) omc::fail("the evaluation limit is not obeyed");
    b = a; b.search = 3; force(a); ra = integrate(ABSENT); force(b); rb = integrate(ABSENT);
    if (rb.calls >= ra.calls) omc::fail("the search limit is not obeyed");
    omc::outcome(METHODS[m]);
}
HARNESS(methods_differ, 0, 0, "each method searches in its own order") {
    // the points at which nothing is found; scattered and directed share their order while nothing is found
    std::vector<std::vector<double>> seen;
    for (int m = 0; m < 5; m++) {
        Settings s = {1e-3, 2048, 64, m}; force(s);
        std::vector<double> xs; MAQ([&](double x) { xs.push_back(x); return 0.0; });
        if (m < 4) for (auto &o : seen) if (o == xs) omc::fail("method %s searches exactly as another one does", METHODS[m]);
        seen.push_back(xs);
    }
    if (!(seen[0][2] > seen[1][2])) omc::fail("the reverse method does not start from the other end");
    omc::outcome("methods");
}

// ---- schedules ---------------------------------------------------------------------------------------------
static void threads(int n, int each) {
    omc::race_detect = true;
    IS::Reset(); reset_statistics();
    IS::Set_Tolerance(0.01);
    std::vector<int> kinds(n * each);
    for (auto &k : kinds) k = omc::choose(5, "integrand");
    IS::Set_Integration_Search_Limit(40);
    std::vector<Run> runs(kinds.size());
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < n; t++) bodies.push_back([&, t] { for (int i = 0; i < each; i++) { Run r = integrate(kinds[t * each + i]); omc::Quiet q; runs[t * each + i] = r; } });
    omc::run(bodies);
    Counts c;
    for (size_t i = 0; i < kinds.size(); i++) c.add(kinds[i], runs[i]);
    check_counts(c, "after concurrent integrations");
    // the maxima are those of running the same integrations one after the other
    unsigned mi = get_statistics()->max_successful_integration, ms = get_statistics()->max_successful_search;
    reset_statistics();
    for (size_t i = 0; i < kinds.size(); i++) { Run r = integrate(kinds[i]); Settings s = {0.01, 2048, 40, IS::DIRECTED}; same(runs[i], r, s, kinds[i]); }
    if (get_statistics()->max_successful_integration != mi || get_statistics()->max_successful_search != ms)
        omc::fail("concurrent integrations leave the maxima %u and %u, one after the other %u and %u", mi, ms, get_statistics()->max_successful_integration, get_statistics()->max_successful_search);
    omc::outcome(std::to_string(mi) + "/" + std::to_string(ms));
}
HARNESS(concurrent_2, 3, 5, "two threads, one integration each, every pair of outcomes") { threads(2, 1); }
HARNESS(concurrent_3, 1, 2, "three threads, one integration each, every triple of outcomes") { threads(3, 1); }
HARNESS(concurrent_2x2, 1, 2, "two threads, two integrations each") { threads(2, 2); }
HARNESS(many, 0, 0, "0 to 12 and 2^k integrations up to 4096 (65536) of each kind or all in turns, and of settings in between: the statistics count every one") {
    int k = omc::choose(omc::thorough ? 26 : 22, "number"), n = k < 13 ? k : 1 << (k - 9), which = omc::choose(KINDS + 1, "integrand"); bool set = omc::choose(2, "settings in between");
    IS::Reset(); IS::Set_Tolerance(0.1); IS::Set_Integration_Search_Limit(40); reset_statistics(); Counts c; Settings s = {0.1, 2048, 40, IS::DIRECTED};
    for (int i = 0; i < n; i++) {
        int kind = which < KINDS ? which : i % KINDS; c.add(kind, integrate(kind));
        if (set && i % 3 == 0) { s.evals = 8 << i % 7; IS::Set_Integration_Eval_Limit(s.evals); }
    }
    check_counts(c, "after many integrations"); check_settings(s, "after many integrations"); check_text(s, c, "after many integrations");
    reset_statistics(); check_counts(Counts(), "after a reset"); IS::Reset(); check_settings(DEFAULTS, "after a reset");
    omc::count("integrations", n); omc::outcome("ok");
}
