// C01: memoised results are right, computed once, always delivered.
#include "caching.h"
#include "omc.h"
#include <cmath>
#include <set>
using namespace SLAT::Caching;
namespace {
    // A memoised function whose every calculation returns a recognisably different value.
    struct Source {
        std::map<double, int> calls; int nan_calls = 0; int running = 0;
        double calc(double x) {
            int n;
            if (std::isnan(x)) { { omc::Quiet q; n = ++nan_calls; } omc::point("calc"); return -1000 - n; }
            { omc::Quiet q; n = ++calls[x]; }
            omc::point("calc");
            return x * 100 + n;
        }
    };
}
static double query(CachedFunction<double, double> &f, double x) { return f(x); }

// check one answer: the calculation for x, first and only one
static void expect(const char *who, double x, double got) {
    if (std::isnan(x)) { if (!(got < -1000)) omc::fail("%s: f(NaN) returned %g, which no calculation returned", who, got); return; }
    if (got != x * 100 + 1) omc::fail("%s: f(%g) returned %g; the calculation for that argument returned %g", who, x, got, x * 100 + 1);
}
static void programs(int nthreads, int nq, bool with_nan) {
    omc::race_detect = true;
    Source src;
    CachedFunction<double, double> f([&](double x) { return src.calc(x); }, "f");
    const double keys[3] = {1, 2, NAN};
    int nk = with_nan ? 3 : 2;
    std::vector<std::vector<double>> prog(nthreads);
    for (int t = 0; t < nthreads; t++) for (int q = 0; q < nq; q++) prog[t].push_back(keys[omc::choose(nk, "key")]);
    std::vector<std::function<void()>> bodies;
    int nans = 0;
    std::vector<double> nanres;
    for (int t = 0; t < nthreads; t++) {
        for (double k : prog[t]) nans += std::isnan(k);
        bodies.push_back([&, t] {
            for (double k : prog[t]) {
                double r = query(f, k);
                expect("concurrent caller", k, r);
                if (std::isnan(k)) { omc::Quiet q; nanres.push_back(r); }
            }
        });
    }
    omc::run(bodies);
    std::string out;
    for (double k : {1.0, 2.0}) {
        bool asked = false;
        for (auto &p : prog) for (double q : p) asked |= q == k;
        int want = asked ? 1 : 0;
        if (src.calls[k] != want) omc::fail("the calculation for %g ran %d times, expected %d", k, src.calls[k], want);
        out += asked ? "q" : "-";
    }
    if (src.nan_calls != nans) omc::fail("f(NaN): %d queries but %d calculations", nans, src.nan_calls);
    for (size_t i = 0; i < nanres.size(); i++) for (size_t j = 0; j < i; j++)
        if (nanres[i] == nanres[j]) omc::fail("two queries of f(NaN) were answered from one calculation");
    // afterwards everything asked for is answered without calculating
    for (auto &p : prog) for (double q : p) if (!std::isnan(q)) expect("later caller", q, f(q));
    for (double k : {1.0, 2.0}) if (src.calls[k] > 1) omc::fail("a later query of %g calculated again", k);
    omc::outcome(out + std::to_string(nans));
}
HARNESS(fn_2threads_1query, 99, 99, "2 threads, 1 query each over {1,2,NaN}: every interleaving") { programs(2, 1, true); }
HARNESS(fn_2threads_2queries, 3, 5, "2 threads, 2 queries each over {1,2}") { programs(2, 2, false); }
HARNESS(fn_3threads_1query, 2, 4, "3 threads, 1 query each over {1,2}") { programs(3, 1, false); }
HARNESS(fn_3threads_2queries, 1, 2, "3 threads, 2 queries each over {1,2}") { programs(3, 2, false); }
HARNESS(fn_4threads_1query, 1, 2, "4 threads, 1 query each over {1,2}") { programs(4, 1, false); }

static void value(int nthreads, int nq) {
    omc::race_detect = true;
    int calls = 0;
    CachedValue<double> v([&] { int n; { omc::Quiet q; n = ++calls; } omc::point("calc"); return 40.0 + n; }, "v");
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nthreads; t++) bodies.push_back([&] {
        for (int q = 0; q < nq; q++) { double r = v(); if (r != 41) omc::fail("the memoised value was reported as %g, not 41", r); }
    });
    omc::run(bodies);
    if (v() != 41) omc::fail("later query: %g", v());
    if (calls != 1) omc::fail("the value was calculated %d times", calls);
    omc::outcome("41");
}
HARNESS(val_2threads, 99, 99, "memoised value, 2 threads, 1 query each: every interleaving") { value(2, 1); }
HARNESS(val_2threads_2q, 4, 6, "memoised value, 2 threads, 2 queries each") { value(2, 2); }
HARNESS(val_3threads, 3, 4, "memoised value, 3 threads") { value(3, 1); }

HARNESS(inactive, 3, 5, "an instance with memoisation switched off calculates every time, for any interleaving") {
    omc::race_detect = true;
    Source src;
    CachedFunction<double, double> f([&](double x) { return src.calc(x); }, "f", false);
    double r[4];
    omc::run({[&] { r[0] = f(1); r[1] = f(2); }, [&] { r[2] = f(1); r[3] = f(1); }});
    if (src.calls[1] != 3 || src.calls[2] != 1) omc::fail("calculations: %d for three queries of 1, %d for one query of 2", src.calls[1], src.calls[2]);
    std::set<double> ones = {r[0], r[2], r[3]};
    if (ones != std::set<double>{101, 102, 103} || r[1] != 201) omc::fail("answers %g %g %g %g", r[0], r[1], r[2], r[3]);
    double a = f(1); if (a != 104) omc::fail("later answer %g", a);
    omc::outcome("ok");
}
HARNESS(nested, 2, 3, "a memoised function whose calculation queries two others, shared by 2 threads") {
    omc::race_detect = true;
    Source s1; int outer = 0, vals = 0;
    CachedFunction<double, double> in([&](double x) { return s1.calc(x); }, "in");
    CachedValue<double> k([&] { { omc::Quiet q; vals++; } omc::point("calc"); return 7.0; }, "k");
    CachedFunction<double, double> f([&](double x) { { omc::Quiet q; outer++; } return in(1) + k() + x; }, "f");
    double r[2]; int second = omc::choose(2, "second argument") + 3;
    omc::run({[&] { r[0] = f(3); }, [&] { r[1] = f(second); }});
    if (r[0] != 101 + 7 + 3 || r[1] != 101 + 7 + second) omc::fail("answers %g, %g", r[0], r[1]);
    if (s1.calls[1] != 1 || vals != 1 || outer != second - 2) omc::fail("calculations: inner %d, value %d, outer %d", s1.calls[1], vals, outer);
    omc::outcome("ok");
}
HARNESS(in_team, 2, 3, "queries from an OpenMP team of three") {
    omc::race_detect = true; omc::team_size = 3;
    Source src;
    CachedFunction<double, double> f([&](double x) { return src.calc(x); }, "f");
    double r[4];
    omc::run({[&] {
        #pragma omp parallel for schedule(dynamic, 1)
        for (int i = 0; i < 4; i++) r[i] = f(i % 2 + 1);
    }});
    for (int i = 0; i < 4; i++) if (r[i] != (i % 2 + 1) * 100 + 1) omc::fail("element %d is %g", i, r[i]);
    if (src.calls[1] != 1 || src.calls[2] != 1) omc::fail("calculations %d %d", src.calls[1], src.calls[2]);
    omc::outcome("ok");
}
// values of other types, and keys of other types, that the templates accept
HARNESS(types, 0, 0, "vector-valued and integer-keyed instances, sequential histories of up to five queries") {
    int calls[3] = {0, 0, 0};
    CachedFunction<std::vector<double>, int> f([&](int i) { calls[i]++; return std::vector<double>(i + 1, i * 2.0); }, "f");
    CachedFunction<double, double> g([&](double x) { return x == 1.0 ? NAN : x == 1.5 ? INFINITY : 0.0; }, "g");
    for (int s = 0; s < (omc::thorough ? 6 : 5); s++) {
        int op = omc::choose(6, "query");
        if (op < 3) { auto v = f(op); if (v != std::vector<double>(op + 1, op * 2.0)) omc::fail("f(%d) has size %zu", op, v.size()); }
        else if (op == 3) { if (!std::isnan(g(1.0))) omc::fail("a memoised NaN result came back as a number"); }
        else if (op == 4) { if (g(1.5) != INFINITY) omc::fail("a memoised infinity came back changed"); }
        else if (g(-2.0) != 0.0) omc::fail("a memoised zero came back changed");
    }
    for (int i = 0; i < 3; i++) if (calls[i] > 1) omc::fail("f(%d) calculated %d times", i, calls[i]);
    omc::outcome("ok");
}
// as many arguments as an analysis asks for: nothing memoised is given up again
static int size_near(int powers) { int p = omc::choose(powers, "power of two"), d = omc::choose(3, "one less / exactly / one more"); return std::max(1, (1 << p) + d - 1); }
HARNESS(many_arguments, 0, 0, "a number of different arguments at and next to every power of two up to 4096 (65536), asked upwards and then in three orders again") {
    int n = size_near(omc::thorough ? 17 : 13), again = omc::choose(3, "order"), step = omc::choose(3, "arguments");
    auto x = [=](int i) { return step == 0 ? i + 1.0 : step == 1 ? (i + 1) * 0.37e-3 : i % 2 ? std::ldexp(1.0 + i, 30) : -1.0 - i; };
    std::vector<int> calls(n, 0); int total = 0, at = -1;
    CachedFunction<double, double> f([&](double) { calls[at]++; total++; return 1000.0 + at; }, "many");
    auto ask = [&](int i) { at = i; double r = f(x(i)); if (r != 1000.0 + i) omc::fail("of %d arguments number %d is answered %g, not %g", n, i, r, 1000.0 + i); };
    for (int i = 0; i < n; i++) ask(i);
    for (int i = 0; i < n; i++) ask(again == 0 ? i : again == 1 ? n - 1 - i : (int)((long)i * 7919 % n));
    for (int i = 0; i < n; i++) if (calls[i] != 1) omc::fail("of %d arguments number %d was calculated %d times", n, i, calls[i]);
    f.ClearCache(); for (int i = 0; i < n; i += 1 + n / 3) ask(i);
    if (total <= n) omc::fail("a clear left memoised results");
    omc::count("queries", 2 * n); omc::outcome("ok");
}
HARNESS(many_queries, 0, 0, "a value and two arguments asked over and over, up to 4096 (65536) times") {
    int n = size_near(omc::thorough ? 17 : 13), cv = 0, cf = 0;
    CachedValue<double> v([&] { cv++; return 4.0; }, "v"); CachedFunction<double, double> f([&](double y) { cf++; return y + 1; }, "f");
    for (int i = 0; i < n; i++) if (v() != 4 || f(i % 2) != i % 2 + 1) omc::fail("query number %d is answered differently", i);
    if (cv != 1 || cf != std::min(n, 2)) omc::fail("%d and %d calculations for %d queries", cv, cf, n);
    omc::outcome("ok");
}
HARNESS(many_threads, 0, 0, "four (five) threads that each query one of one to three arguments, and then a value that depends on the first") {
    omc::race_detect = true;
    int n = 4 + omc::choose(omc::thorough ? 2 : 1, "threads"), nk = 1 + omc::choose(3, "arguments");
    Source src; CachedFunction<double, double> f([&](double x) { return src.calc(x); }, "f");
    CachedValue<double> v([&] { omc::point("value"); return f(1) + 1; }, "v");
    std::vector<std::function<void()>> b;
    for (int t = 0; t < n; t++) b.push_back([&, t] { double k = 1 + t % nk; expect("one of many", k, f(k)); if (v() != 102) omc::fail("the value was answered wrongly"); });
    omc::run(b);
    for (auto &c : src.calls) if (c.second != 1) omc::fail("f(%g) calculated %d times", c.first, c.second);
    omc::outcome("ok");
}
// arguments and results at the edges of the number range
static const double EDGE[] = {0, 1, -1, INFINITY, -INFINITY, 1 + 2.220446049250313e-16, 5e-324, 1.7976931348623157e308, 4294967297.0, NAN};
static const double RESULT[] = {0, NAN, INFINITY, -1, 5e-324};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
HARNESS(edges, 0, 0, "every sequence of three (four) arguments from ten at the edges of the number range, for functions whose every result is one of five at the edges, memoised or not") {
    int res = omc::choose(5, "result"); bool active = omc::choose(2, "memoised");
    int calls[10] = {0}, asked[10] = {0}, at = 0;
    CachedFunction<double, double> f([&](double x) { if (!same(x, EDGE[at])) omc::fail("the calculation for %g received %g", EDGE[at], x); calls[at]++; return at % 2 ? RESULT[res] : at; }, "f", active);
    for (int s = 0; s < (omc::thorough ? 4 : 3); s++) {
        at = omc::choose(10, "argument"); asked[at]++;
        double r = f(EDGE[at]), w = at % 2 ? RESULT[res] : at;
        if (!same(r, w)) omc::fail("f(%g) is %g, the calculation gave %g", EDGE[at], r, w);
    }
    for (int i = 0; i < 10; i++) {
        int w = !active || std::isnan(EDGE[i]) ? asked[i] : std::min(1, asked[i]);
        if (calls[i] != w) omc::fail("f(%g), result %g: %d queries, %d calculations", EDGE[i], i % 2 ? RESULT[res] : i, asked[i], calls[i]);
    }
    omc::outcome("ok");
}
HARNESS(edge_results, 3, 5, "two threads query a function and a value whose result is 0, not a number, infinite, negative or minute: once each") {
    omc::race_detect = true;
    double w = RESULT[omc::choose(5, "result")]; int cf = 0, cv = 0;
    CachedFunction<double, double> f([&](double) { { omc::Quiet q; cf++; } omc::point("calc"); return w; }, "f");
    CachedValue<double> v([&] { { omc::Quiet q; cv++; } omc::point("calc"); return w; }, "v");
    auto both = [&] { double a = f(2), b = v(); if (!same(a, w) || !same(b, w)) omc::fail("answers %g and %g instead of %g", a, b, w); };
    omc::run({both, both}); both();
    if (cf != 1 || cv != 1) omc::fail("a result of %g was calculated %d and %d times", w, cf, cv);
    omc::outcome("ok");
}
