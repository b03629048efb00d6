// C02: clearing a cache takes full effect whenever it happens.
#include "caching.h"
#include "omc.h"
#include <cmath>
#include <memory>
#include <set>
using namespace SLAT::Caching;
using omc::Quiet;
namespace {
    // The thing the calculation depends on: its version is part of every answer.
    struct World {
        int version = 1;
        std::set<double> produced;               // every value a calculation returned
        double calc(double x) {
            int v; { Quiet q; v = version; }
            omc::point("calc");
            double r = x * 100 + v;
            { Quiet q; produced.insert(r); }
            return r;
        }
        int read() { Quiet q; return version; }
        void bump() { Quiet q; version++; }
        // an answer to a query of x that began when version `atleast` had been made effective by a completed clear
        void expect(const char *who, double x, double got, int atleast) {
            Quiet q;
            if (!produced.count(got) || std::floor(got / 100) != x)
                omc::fail("%s: the query of %g was answered %g, which no calculation for it returned", who, x, got);
            if (got - x * 100 < atleast)
                omc::fail("%s: the query of %g was answered from a calculation of version %g, but version %d had been cleared out before the query began",
                          who, x, got - x * 100, atleast - 1);
        }
    };
    struct Fn {                                    // uniform view of the two templates
        virtual double operator()(double) = 0; virtual void clear() = 0; virtual ~Fn() {}
    };
    struct FnF : Fn { CachedFunction<double, double> f; FnF(World &w) : f([&w](double x) { return w.calc(x); }, "f") {}
        double operator()(double x) { return f(x); } void clear() { f.ClearCache(); } };
    struct FnV : Fn { CachedValue<double> f; FnV(World &w) : f([&w] { return w.calc(1); }, "v") {}
        double operator()(double) { return f(); } void clear() { f.ClearCache(); } };
}
static void overlap(bool value, int queriers, bool clear_first, bool query_after) {
    omc::race_detect = true;
    World w; int effective = 1;                    // lowest version a new query may see
    std::unique_ptr<Fn> f(value ? (Fn *)new FnV(w) : (Fn *)new FnF(w));
    int how = omc::choose(2, "clear one / all");
    if (clear_first) { w.expect("first", 1, (*f)(1), 1); }
    std::vector<std::function<void()>> b;
    auto ask = [&](const char *who) { int e; { Quiet q; e = effective; } double r = (*f)(1); w.expect(who, 1, r, e); };
    for (int i = 0; i < queriers; i++) b.push_back([&] { ask("overlapping query"); if (query_after) ask("second query"); });
    b.push_back([&] {
        w.bump();
        int v = w.read();
        if (how) Clear_Caches(); else f->clear();
        { Quiet q; if (v > effective) effective = v; }
        ask("query after the clear");
    });
    omc::run(b);
    ask("query at the end");
    double r = (*f)(1);
    if (r != 102) omc::fail("at the end the query is answered %g instead of 102", r);
    omc::outcome(std::to_string(w.produced.size()));
}
HARNESS(fn_clear_2, 5, 7, "memoised function: a query and a clear overlap") { overlap(false, 1, false, false); }
HARNESS(fn_clear_2_warm, 5, 7, "memoised function holding a result: two queries overlap a clear") { overlap(false, 1, true, true); }
HARNESS(fn_clear_3, 2, 3, "memoised function: two queriers and a clear overlap") { overlap(false, 2, false, false); }
HARNESS(fn_clear_3_again, 3, 4, "memoised function: two queriers query twice around a clear") { overlap(false, 2, true, true); }
HARNESS(val_clear_2, 5, 7, "memoised value: a query and a clear overlap") { overlap(true, 1, false, false); }
HARNESS(val_clear_2_warm, 5, 7, "memoised value holding a result: two queries overlap a clear") { overlap(true, 1, true, true); }
HARNESS(val_clear_3, 2, 3, "memoised value: two queriers and a clear overlap") { overlap(true, 2, false, false); }
HARNESS(val_clear_3_again, 3, 4, "memoised value: two queriers query twice around a clear") { overlap(true, 2, true, true); }

static void two_clears(bool value) {
    omc::race_detect = true;
    World w; int effective = 1;
    std::unique_ptr<Fn> f(value ? (Fn *)new FnV(w) : (Fn *)new FnF(w));
    auto ask = [&](const char *who) { int e; { Quiet q; e = effective; } double r = (*f)(1); w.expect(who, 1, r, e); };
    auto clear = [&] { w.bump(); int v = w.read(); f->clear(); { Quiet q; if (v > effective) effective = v; } };
    omc::run({[&] { ask("querier"); ask("querier again"); }, [&] { clear(); ask("after the first clear"); }, [&] { clear(); }});
    ask("at the end");
    if ((*f)(1) != 103) omc::fail("at the end the query is answered %g instead of 103", (*f)(1));
    omc::outcome(std::to_string(w.produced.size()));
}
HARNESS(fn_two_clears, 3, 4, "memoised function: two clears and a querier") { two_clears(false); }
HARNESS(val_two_clears, 3, 4, "memoised value: two clears and a querier") { two_clears(true); }

// clears reach every live cache and none that is gone, while caches come and go
HARNESS(registry_3, 2, 4, "one thread creates, queries and destroys caches, one does likewise, one clears them all") {
    omc::race_detect = true;
    World w; int effective = 1;
    FnF keep(w); FnV keepv(w);
    { double a = keep(1), b = keepv(1); w.expect("keep", 1, a, 1); w.expect("keepv", 1, b, 1); }
    auto life = [&](bool v) { return [&, v] {
        int e; { Quiet q; e = effective; }
        std::unique_ptr<Fn> g(v ? (Fn *)new FnV(w) : (Fn *)new FnF(w));
        double r = (*g)(1); w.expect("new cache", 1, r, e);
    }; };
    omc::run({life(false), life(true), [&] {
        w.bump();
        Clear_Caches();
        { Quiet q; effective = 2; }
        double r = keep(1); w.expect("old cache", 1, r, 2);
        r = keepv(1); w.expect("old value", 1, r, 2);
    }});
    FnF fresh(w);
    w.expect("fresh", 1, fresh(1), 2);
    omc::outcome("ok");
}
// first use of the module by two threads at once
HARNESS(fresh_first_use, 2, 4, "two threads construct the first caches of the process concurrently") {
    omc::race_detect = true;
    World w;
    std::unique_ptr<Fn> a, b;
    omc::run({[&] { auto p = new FnF(w); Quiet q; a.reset(p); }, [&] { auto p = new FnV(w); Quiet q; b.reset(p); }});
    w.expect("a", 1, (*a)(1), 1); w.expect("b", 1, (*b)(1), 1);
    w.bump(); Clear_Caches();
    w.expect("a", 1, (*a)(1), 2); w.expect("b", 1, (*b)(1), 2);
    omc::outcome("ok");
}
// Sequential histories against a reference model.
static void history(int depth) {
    World w;
    struct Slot { std::unique_ptr<Fn> f; std::map<double, int> seen; bool value; } s[3];
    auto make = [&](int i) { s[i].value = i == 1; s[i].f.reset(i == 1 ? (Fn *)new FnV(w) : (Fn *)new FnF(w)); s[i].seen.clear(); };
    make(0); make(1);
    for (int step = 0; step < depth; step++) {
        int op = omc::choose(9, "op");
        if (op < 5) {                              // query: f0(1) f0(2) v1 f2(1) f2(2)
            int i = op < 2 ? 0 : op == 2 ? 1 : 2; double x = (op == 1 || op == 4) ? 2 : 1;
            if (!s[i].f) continue;
            double r = (*s[i].f)(x);
            if (!s[i].seen.count(x)) s[i].seen[x] = w.version;
            omc::note("query cache %d at %g -> %g", i, x, r);
            if (r != x * 100 + s[i].seen[x]) omc::fail("cache %d answers %g at %g, expected %g", i, r, x, x * 100 + s[i].seen[x]);
        } else if (op == 5) {
            omc::note("source changes, clear cache 0"); w.bump(); s[0].f->clear(); s[0].seen.clear();
        } else if (op == 6) {
            omc::note("source changes, clear cache 1"); w.bump(); s[1].f->clear(); s[1].seen.clear();
        } else if (op == 7) {
            omc::note("source changes, clear all"); w.bump(); Clear_Caches();
            for (auto &x : s) x.seen.clear();
        } else {
            if (s[2].f) { omc::note("destroy cache 2"); s[2].f.reset(); } else { omc::note("create cache 2"); make(2); }
        }
    }
    omc::outcome("ok");
}
HARNESS(history, 0, 0, "every history of query, clear one, clear all, create, destroy over three caches") { history(omc::thorough ? 7 : 6); }
HARNESS(many_caches, 0, 0, "a number of caches at and next to every power of two up to 512 (4096), every k-th destroyed again: clearing them all reaches each") {
    int p = omc::choose(omc::thorough ? 13 : 10, "power of two"), n = std::max(1, (1 << p) + omc::choose(3, "one less / exactly / one more") - 1), every = omc::choose(4, "destroyed"), late = omc::choose(2, "some created after the destruction");
    World w; std::vector<std::unique_ptr<Fn>> c;
    auto make = [&](int i) { return std::unique_ptr<Fn>(i % 3 == 1 ? (Fn *)new FnV(w) : (Fn *)new FnF(w)); };
    for (int i = 0; i < n; i++) c.push_back(make(i));
    for (auto &f : c) w.expect("at first", 1, (*f)(1), 1);
    if (every) for (int i = 0; i < n; i += every) c[i].reset();
    if (late) for (int i = 0; i < n; i += 2) if (!c[i]) { c[i] = make(i); w.expect("a new cache", 1, (*c[i])(1), 1); }
    for (int round = 2; round < 4; round++) {
        w.bump(); Clear_Caches();
        for (int i = 0; i < n; i++) if (c[i]) { w.expect("after clearing everything", 1, (*c[i])(1), round); w.expect("again", 1, (*c[i])(1), round); }
    }
    omc::count("caches", n); omc::outcome("ok");
}
HARNESS(many_results, 0, 0, "a cache of up to 1024 (16384) results, cleared once or with everything: no result survives") {
    int p = omc::choose(omc::thorough ? 15 : 11, "power of two"), n = std::max(1, (1 << p) + omc::choose(3, "one less / exactly / one more") - 1), how = omc::choose(2, "clear one / all");
    World w; FnF f(w);
    for (int round = 1; round < 4; round++) {
        for (int i = 1; i <= n; i++) { double r = f(i); if (r != i * 100.0 + round) omc::fail("of %d results number %d is %g in round %d", n, i, r, round); }
        w.bump(); if (how) Clear_Caches(); else f.clear();
    }
    omc::outcome("ok");
}
