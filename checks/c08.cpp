// C08: diagnostic context belongs to the thread that set it.
#include "context.h"
#include "omc.h"
#include <omp.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using SLAT::Context; using SLAT::TempContext;
using omc::Quiet;
typedef std::vector<std::string> Texts;
static Texts words(const std::string &s) {
    Texts r; std::string w;
    for (char c : s) { if (c == '/') { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; }
    if (!w.empty()) r.push_back(w);
    return r;
}
static std::string join(const Texts &t) { std::string r; for (auto &x : t) r += (r.empty() ? "" : " ") + x; return r; }
static void check(const char *where, const Texts &want) {
    std::string s = Context::GetText();
    Quiet q;
    if (words(s) != want) omc::fail("%s: a thread is shown \"%s\"; in scope for it is \"%s\"", where, join(words(s)).c_str(), join(want).c_str());
}
static Texts plus(const Texts &a, const std::string &b) { Texts r = a; r.push_back(b); return r; }
static std::string label(const char *p, int i) { return std::string(p) + std::to_string(i); }

// what one member of a team does; kind selects the shape
static void member(const Texts &in, int id, int kind) {
    if (kind == 0) { check("idle member", in); return; }
    std::string me = label("t", id);
    {
        Texts mine; { Quiet q; mine = plus(in, me); }
        TempContext c(me);
        check("member", mine);
        if (kind == 2) {
            Texts two; { Quiet q; two = plus(mine, me + "x"); }
            { TempContext d([me](std::ostream &o) { o << me << "x"; }); check("member, inner scope", two); }
            check("member, inner scope left", mine);
        }
        if (kind == 3) {
            try { TempContext d(me + "boom"); throw 1; } catch (int) {}
            check("member, scope left by an exception", mine);
        }
        if (kind == 4) {
            #pragma omp parallel num_threads(2)
            {
                int k = omp_get_thread_num();
                Texts deep; { Quiet q; deep = plus(mine, me + label("n", k)); }
                check("nested member", mine);
                { TempContext d(me + label("n", k)); check("nested member, own scope", deep); }
                check("nested member, scope left", mine);
            }
            check("member, after nested team", mine);
        }
    }
    check("member, scope left", in);
}
static void team(const Texts &in, int size, int kind_all, const int *kinds) {
    #pragma omp parallel num_threads(size)
    { int i = omp_get_thread_num(); member(in, i, kinds ? kinds[i] : kind_all); }
}
static void concurrent(int size, int levels, int nk) {
    omc::race_detect = true; omc::max_active = levels;
    Context::Initialise();
    int kinds[3]; for (int i = 0; i < size; i++) kinds[i] = omc::choose(nk, "member shape");
    omc::run({[&] {
        Texts none; Texts root; { Quiet q; root = plus(none, "root"); }
        check("start", none);
        { TempContext c("root"); team(root, size, 0, kinds); check("after the team", root); }
        check("end", none);
    }});
    omc::outcome("ok");
}
HARNESS(team2, 2, 4, "a team of two, each member one of four shapes") { concurrent(2, 1, 4); }
HARNESS(team3, 1, 2, "a team of three, each member one of three shapes") { concurrent(3, 1, 3); }
HARNESS(nested_serial, 2, 3, "a team of two whose members start further teams, run serially") { concurrent(2, 1, 5); }
HARNESS(nested_parallel, 1, 2, "a team of two whose members start further teams, run in parallel") { concurrent(2, 2, 5); }
HARNESS(successive, 1, 2, "two teams of sizes 1-3 one after the other, with or without a surrounding scope") {
    omc::race_detect = true; omc::max_active = 1;
    Context::Initialise();
    int a = omc::choose(3, "first size") + 1, b = omc::choose(3, "second size") + 1, scope = omc::choose(2, "surrounding scope");
    omc::run({[&] {
        Texts in;
        if (scope) { { Quiet q; in = {"root"}; } TempContext c("root"); team(in, a, 1, nullptr); team(in, b, 1, nullptr); }
        else { team(in, a, 1, nullptr); team(in, b, 1, nullptr); }
        check("end", Texts());
    }});
    omc::outcome("ok");
}
HARNESS(serial_outside, 2, 3, "a team of two started inside a team of one") {
    omc::race_detect = true; omc::max_active = 1;
    Context::Initialise();
    omc::run({[&] {
        Texts r; { Quiet q; r = {"root"}; }
        TempContext c("root");
        #pragma omp parallel num_threads(1)
        {
            Texts m; { Quiet q; m = plus(r, "mid"); }
            TempContext d("mid");
            team(m, 2, 1, nullptr);
            check("after the inner team", m);
        }
        check("after", r);
    }});
    omc::outcome("ok");
}
HARNESS(fresh_first_use, 2, 3, "the first use of the facility comes from a team of two") {
    omc::race_detect = true; omc::max_active = 1;
    omc::run({[&] { team(Texts(), 2, 1, nullptr); check("end", Texts()); }});
    omc::outcome("ok");
}
// Sequential exploration of region structure: every history of scopes and regions.
static void history(const Texts &in, int depth, int &budget, int level) {
    check("history", in);
    for (int s = 0; s < depth; s++) {
        if (budget <= 0) return;
        int op = omc::choose(level < 2 ? 6 : 3, "op");
        budget--;
        if (op == 0) return;
        if (op == 1) { omc::note("%*sscope", level * 2, ""); TempContext c(label("s", level)); history(plus(in, label("s", level)), 1, budget, level); }
        else if (op == 2) { omc::note("%*sscope left by an exception", level * 2, ""); try { TempContext c("e"); history(plus(in, "e"), 1, budget, level); throw 1; } catch (int) {} }
        else {
            int size = op - 2;
            omc::note("%*steam of %d", level * 2, "", size);
            int b = budget;
            #pragma omp parallel num_threads(size)
            {
                int me = omp_get_thread_num();
                Texts mine = plus(in, label("m", me));
                check("member", in);
                TempContext c(label("m", me));
                if (me == 0) history(mine, 2, b, level + 1);
                check("member", mine);
            }
            budget = b;
        }
        check("history", in);
    }
}
HARNESS(history, 0, 0, "every nesting and succession of scopes and teams of sizes 1-3, six operations") {
    Context::Initialise();
    omc::max_active = 1 + omc::choose(2, "nested parallelism");
    omc::seq_order = omc::choose(2, "member order");
    int budget = omc::thorough ? 8 : 6;
    history(Texts(), 8, budget, 0);
    omc::outcome("ok");
}
// as deep, and in teams as large, as real analyses get
static void dive(const Texts &in, int depth, int way) {
    check("on the way in", in);
    if (!depth) return;
    std::string me = label("d", depth);
    if (way == 2 && depth % 3 == 0) { try { TempContext c(me); dive(plus(in, me), depth - 1, way); throw 1; } catch (int) {} }
    else { TempContext c(me); if (way == 1) check("before", plus(in, me)); dive(plus(in, me), depth - 1, way); if (way == 1) check("after", plus(in, me)); }
    check("on the way out", in);
}
HARNESS(deep, 0, 0, "scopes nested to every depth up to 40 (80), three ways of leaving them, in every member of a team of 1-16 or outside teams, twice") {
    Context::Initialise(); omc::max_active = 1; omc::seq_order = omc::choose(2, "member order");
    int depth = 1 + omc::choose(omc::thorough ? 80 : 40, "depth"), way = omc::choose(3, "way"), size = omc::choose(5, "team");
    static const int SIZE[] = {0, 1, 4, 7, 16};
    for (int round = 0; round < 2; round++) {
        if (!size) dive(Texts(), depth, way);
        else {
            TempContext c("root");
            #pragma omp parallel num_threads(SIZE[size])
            { int i = omp_get_thread_num(); dive({"root"}, i % 3 == 2 ? 1 : depth, way); }
            check("after the team", {"root"});
        }
        check("at the end", Texts());
    }
    omc::outcome("ok");
}
