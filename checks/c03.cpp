// C03: a calculation that fails leaves its cache usable.
#include "caching.h"
#include "omc.h"
#include <cmath>
#include <memory>
using namespace SLAT::Caching;
using omc::Quiet;
namespace {
    struct Boom { int n; };
    // Calculation number k fails when bit k of the mask is set; all others succeed and
    // return a recognisable value.
    struct World {
        int mask = 0, calls = 0, thrown = 0, succeeded = 0; double value = 0;
        std::vector<int> delivered = std::vector<int>(16, 0);
        double calc(double x) {
            int n; { Quiet q; n = calls++; }
            omc::point("calc");
            Quiet q;
            if (mask >> n & 1) { thrown++; throw Boom{n}; }
            succeeded++;
            return x * 100 + n;
        }
    };
    struct Fn { virtual double operator()(double) = 0; virtual void clear() = 0; virtual ~Fn() {} };
    struct FnF : Fn { CachedFunction<double, double> f; FnF(World &w, bool on = true) : f([&w](double x) { return w.calc(x); }, "f", on) {}
        double operator()(double x) { return f(x); } void clear() { f.ClearCache(); } };
    struct FnV : Fn { CachedValue<double> f; FnV(World &w) : f([&w] { return w.calc(1); }, "v") {}
        double operator()(double) { return f(); } void clear() { f.ClearCache(); } };
}
static void faults(bool value, int nthreads, int retries, int nmask) {
    omc::race_detect = true;
    World w; w.mask = omc::choose(nmask, "which calculations fail");
    std::unique_ptr<Fn> f(value ? (Fn *)new FnV(w) : (Fn *)new FnF(w));
    int got = 0, failed = 0; double answer = -1;
    auto ask = [&](const char *who) {
        double r = -1; int err = -1;
        try { r = (*f)(1); } catch (Boom &b) { Quiet q; err = b.n; } 
        Quiet q;
        if (err >= 0) {
            failed++; w.delivered[err]++;
            if (!(w.mask >> err & 1)) omc::fail("%s: was given the failure of calculation %d, which did not fail", who, err);
            return false;
        }
        int n = (int)(r - 100);
        if (n < 0 || n >= w.calls || r != 100 + n || (w.mask >> n & 1))
            omc::fail("%s: the query was answered %g, which no calculation returned", who, r);
        if (answer >= 0 && answer != r) omc::fail("%s: answered %g although %g had been calculated and nothing was cleared", who, r, answer);
        answer = r; got++;
        return true;
    };
    std::vector<std::function<void()>> b;
    for (int i = 0; i < nthreads; i++) b.push_back([&] { for (int k = 0; k < retries; k++) if (ask("concurrent caller")) break; });
    omc::run(b);
    for (int n = 0; n < w.calls; n++) if ((w.mask >> n & 1) && !w.delivered[n]) omc::fail("the failure of calculation %d reached no caller", n);
    if (w.succeeded > 1) omc::fail("%d calculations succeeded, one was needed", w.succeeded);
    // a later caller, alone, must get an answer once calculations succeed
    w.mask = 0;
    if (!ask("later caller")) omc::fail("a later caller was given an old failure");
    if (w.succeeded != 1) omc::fail("later query calculated again");
    omc::outcome(std::to_string(got) + "/" + std::to_string(failed) + "/" + std::to_string(w.calls));
}
HARNESS(fn_1, 0, 0, "one caller, up to four attempts, each calculation failing or not") { faults(false, 1, 4, 8); }
HARNESS(val_1, 0, 0, "memoised value: one caller, up to four attempts") { faults(true, 1, 4, 8); }
HARNESS(fn_2, 6, 9, "two callers, every failure pattern of the first two calculations") { faults(false, 2, 1, 4); }
HARNESS(val_2, 6, 9, "memoised value: two callers") { faults(true, 2, 1, 4); }
HARNESS(fn_2_retry, 3, 5, "two callers who retry once") { faults(false, 2, 2, 8); }
HARNESS(val_2_retry, 3, 5, "memoised value: two callers who retry once") { faults(true, 2, 2, 8); }
HARNESS(fn_3, 2, 3, "three callers") { faults(false, 3, 1, 8); }
HARNESS(val_3, 2, 3, "memoised value: three callers") { faults(true, 3, 1, 8); }

HARNESS(two_keys, 2, 4, "a failure for one argument does not disturb another") {
    omc::race_detect = true;
    int fails = 1 + omc::choose(2, "how many failures"), n1 = 0, n2 = 0;
    CachedFunction<double, double> f([&](double x) -> double {
        bool bad = false;
        { Quiet q; if (x == 1) bad = ++n1 <= fails; else ++n2; }
        omc::point("calc");
        if (bad) throw Boom{n1};
        return x * 100;
    }, "f");
    auto one = [&](double x) { try { double r = f(x); if (r != x * 100) omc::fail("f(%g) = %g", x, r); return true; } catch (Boom &) { if (x == 2) omc::fail("f(2) failed with the failure of f(1)"); return false; } };
    omc::run({[&] { one(1); one(2); }, [&] { one(2); one(1); }});
    for (int i = 0; i < 4 && !one(1); i++) {}
    if (!one(1) || !one(2)) omc::fail("still failing after the calculations succeed");
    if (n2 != 1) omc::fail("f(2) calculated %d times", n2);
    omc::outcome(std::to_string(n1));
}
HARNESS(with_clear, 2, 4, "failures, a second caller and a clear") {
    omc::race_detect = true;
    World w; w.mask = omc::choose(4, "which calculations fail");
    bool value = omc::choose(2, "kind");
    std::unique_ptr<Fn> f(value ? (Fn *)new FnV(w) : (Fn *)new FnF(w));
    auto ask = [&] { try { double r = (*f)(1); Quiet q; int n = (int)(r - 100); if (n < 0 || n >= w.calls || (w.mask >> n & 1)) omc::fail("answered %g, which no calculation returned", r); } catch (Boom &) {} };
    omc::run({[&] { ask(); }, [&] { f->clear(); ask(); }});
    w.mask = 0; ask();
    omc::outcome(std::to_string(w.calls));
}
HARNESS(nan_and_inactive, 1, 3, "failures where nothing is memoised: not-a-number arguments and inactive instances") {
    omc::race_detect = true;
    World w; w.mask = omc::choose(16, "which calculations fail");
    FnF off(w, false), on(w);
    auto ask = [&](Fn &f, double x) { try { f(x); } catch (Boom &) {} };
    omc::run({[&] { ask(off, 1); ask(on, NAN); }, [&] { ask(off, 1); ask(on, NAN); }});
    if (w.calls != 4) omc::fail("%d calculations for 4 unmemoised queries", w.calls);
    w.mask = 0; on(1); off(1); on(NAN);
    omc::outcome("ok");
}
// sequential histories over two keys with failures, clears and repeats
HARNESS(history, 0, 0, "every history of failing and succeeding queries and clears, function and value") {
    World w; std::unique_ptr<Fn> f; bool value = omc::choose(2, "kind");
    f.reset(value ? (Fn *)new FnV(w) : (Fn *)new FnF(w));
    std::map<double, double> model;
    int depth = omc::thorough ? 8 : 6;
    for (int s = 0; s < depth; s++) {
        int op = omc::choose(5, "op");
        if (op == 4) { f->clear(); model.clear(); omc::note("clear"); continue; }
        double x = value ? 1 : 1 + op / 2; bool bad = op & 1;
        int before = w.calls;
        w.mask = bad ? 1 << w.calls : 0;
        double r = -1; bool threw = false;
        try { r = (*f)(x); } catch (Boom &) { threw = true; }
        omc::note("query %g, calculation would %s -> %s %g", x, bad ? "fail" : "succeed", threw ? "threw" : "value", r);
        if (model.count(x)) { if (threw || r != model[x] || w.calls != before) omc::fail("a memoised result was not used"); }
        else if (bad) { if (!threw || w.calls != before + 1) omc::fail("the failure did not reach the caller"); }
        else { if (threw || r != x * 100 + before) omc::fail("a fresh calculation was expected, got %s%g", threw ? "a failure " : "", r); model[x] = r; }
    }
    omc::outcome("ok");
}
// what is thrown does not matter, nor how often
HARNESS(kinds_of_failure, 0, 0, "one to five failures of each of seven kinds, of function and value, memoising or not, before the calculation succeeds") {
    int kind = omc::choose(7, "what is thrown"), n = 1 + omc::choose(5, "failures"), which = omc::choose(3, "function / value / switched off"), calls = 0;
    auto calc = [&]() -> double {
        if (calls++ < n) switch (kind) {
            case 0: throw 7; case 1: throw "text"; case 2: throw std::runtime_error("r"); case 3: throw std::invalid_argument("i"); case 4: throw std::bad_alloc(); case 5: throw std::string("s"); default: throw Boom{calls};
        }
        return 55;
    };
    CachedFunction<double, double> f([&](double) { return calc(); }, "f", which != 2); CachedValue<double> v([&] { return calc(); }, "v");
    auto ask = [&] { return which == 1 ? v() : f(3); };
    for (int i = 0; i < n; i++) {
        int got = -1; double r = 0;
        try { r = ask(); } catch (int) { got = 0; } catch (const char *) { got = 1; } catch (std::invalid_argument &) { got = 3; } catch (std::runtime_error &) { got = 2; } catch (std::bad_alloc &) { got = 4; } catch (std::string &) { got = 5; } catch (Boom &) { got = 6; }
        if (got != kind) omc::fail("failure %d of kind %d reached the caller as kind %d (%g)", i, kind, got, r);
        if (calls != i + 1) omc::fail("%d calculations for %d queries", calls, i + 1);
    }
    if (ask() != 55 || calls != n + 1) omc::fail("after the failures the query is answered wrongly, with %d calculations", calls);
    if (ask() != 55 || calls != n + (which == 2 ? 2 : 1)) omc::fail("asked again, %d calculations", calls);
    omc::outcome("ok");
}
HARNESS(many_failures, 0, 0, "up to 512 arguments of which every k-th fails the first times it is asked") {
    int n = 1 << omc::choose(10, "arguments"), every = 1 + omc::choose(4, "failing"), times = 1 + omc::choose(3, "failures");
    std::vector<int> calls(n, 0);
    CachedFunction<double, double> f([&](double x) -> double { int i = (int)x; if (calls[i]++ < times && i % every == 0) throw Boom{i}; return i + 0.5; }, "f");
    for (int round = 0; round < times + 2; round++) for (int i = 0; i < n; i++) {
        bool bad = i % every == 0 && round < times, threw = false; double r = 0;
        try { r = f(i); } catch (Boom &) { threw = true; }
        if (threw != bad || (!bad && r != i + 0.5)) omc::fail("argument %d in round %d: %s%g", i, round, threw ? "failed " : "", r);
    }
    for (int i = 0; i < n; i++) if (calls[i] != 1 + (i % every == 0 ? times : 0)) omc::fail("argument %d calculated %d times", i, calls[i]);
    omc::outcome("ok");
}
HARNESS(nested_failures, 0, 0, "a memoised calculation asks a second, which asks a third: every pattern of failures, each level keeping or passing on those below, in five queries") {
    int mask[3]; for (int i = 0; i < 3; i++) mask[i] = omc::choose(8, "failing calculations"); int keep = omc::choose(4, "who handles failures");
    int n[3] = {0, 0, 0};
    CachedValue<double> c([&]() -> double { if (mask[2] >> n[2]++ & 1) throw Boom{2}; return 3; }, "c");
    auto below = [&](int level, std::function<double()> q) { if (!(keep >> level & 1)) return q(); try { return q(); } catch (Boom &) { return -10.0; } };
    CachedFunction<double, double> b([&](double x) -> double { double r = below(1, [&] { return c(); }); if (mask[1] >> n[1]++ & 1) throw Boom{1}; return r * 10 + x; }, "b");
    CachedFunction<double, double> a([&](double x) -> double { double r = below(0, [&] { return b(x); }); if (mask[0] >> n[0]++ & 1) throw Boom{0}; return r + 1000 * x; }, "a");
    // the same without memoising machinery
    int k[3] = {0, 0, 0}; bool has[3] = {false, false, false}; double val[3];
    std::function<double(int)> ref = [&](int l) -> double {
        if (has[l]) return val[l];
        double r = 3;
        if (l < 2) { if (keep >> l & 1) { try { r = ref(l + 1); } catch (Boom &) { r = -10; } } else r = ref(l + 1); }
        if (mask[l] >> k[l]++ & 1) throw Boom{l};
        r = l == 2 ? 3 : l == 1 ? r * 10 + 2 : r + 2000;
        has[l] = true; return val[l] = r;
    };
    for (int q = 0; q < 5; q++) {
        double want = 0, got = 0; int wt = -1, gt = -1;
        try { want = ref(0); } catch (Boom &e) { wt = e.n; }
        try { got = a(2); } catch (Boom &e) { gt = e.n; }
        if (wt != gt || want != got) omc::fail("query %d: %g (failure %d), should be %g (failure %d)", q, got, gt, want, wt);
        for (int l = 0; l < 3; l++) if (n[l] != k[l]) omc::fail("query %d: level %d calculated %d times, should be %d", q, l, n[l], k[l]);
    }
    omc::outcome("ok");
}
