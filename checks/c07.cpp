// C07: model objects can be destroyed in any order.  Built with an address sanitizer: a read or write of freed
// memory, or a call-back into a destroyed object, stops the execution.
#include "world6.h"
using namespace model;

static void compare_rest(World6 &w) {
    if (w.g1->live) compare("first group", w.g1, (int)(Q_EDP | Q_COST));
    if (w.g2->live) compare("second group", w.g2, (int)(Q_EDP | Q_COST));
    if (w.s.live) compare("building", &w.s, false);
    if (w.edp->live) { Values v; v.push_back({"", w.edp->live->lambda(0.3)}); auto f = fresh(w.edp); if (!same(v[0].second, f->lambda(0.3))) omc::fail("demand rate %.10g, fresh model %.10g", v[0].second, f->lambda(0.3)); }
    if (w.im->live) { auto f = fresh(w.im); if (!same(w.im->live->CollapseRate(), f->CollapseRate())) omc::fail("collapse rate %.10g, fresh model %.10g", w.im->live->CollapseRate(), f->CollapseRate()); }
    if (w.p1->live) { Values v, u; ask(*w.p1->live, v); ask(*fresh(w.p1), u); for (size_t i = 0; i < v.size(); i++) if (!same(v[i].second, u[i].second)) omc::fail("%s is %.10g, fresh model %.10g", v[i].first, v[i].second, u[i].second); }
}
// change whatever can still be changed: every registered dependant is called back
static void stir(World6 &w) {
    for (auto &f : w.fns) if (f->live) { try { World6::set(f.get()); } catch (World6::Impossible &) {} }
    for (auto &l : w.losses) if (l->live) { try { World6::set(l.get()); } catch (World6::Impossible &) {} }
    if (w.im->live) { w.im->col = next(w.im->col); w.im->live->SetCollapse(fate(0, w.im->col)); }
    if (w.frag->live) w.frag->live->notify_change();
    if (w.g1->live) w.g1->live->notify_change();
    if (w.g2->live) w.g2->live->notify_change();
    Caching::Clear_Caches();
}
static bool step(World6 &w, int op, const char *&name) {
    try {
        if (op < World6::HANDLES) return w.release(op, name);
        op -= World6::HANDLES;
        if (op < World6::OPS) return w.edit(op, name);
        if (op == World6::OPS) { name = "compare"; compare_rest(w); return true; }
        name = "change everything"; stir(w); return true;
    } catch (World6::Impossible &) { return false; }
}
enum { MOVES = World6::HANDLES + World6::OPS + 2 };
static void finish(World6 &w, int order) {
    stir(w); compare_rest(w);
    for (int i = 0; i < World6::HANDLES; i++) {
        const char *name = "";
        if (!w.release(order == 0 ? i : order == 1 ? World6::HANDLES - 1 - i : (i * 5 + 3) % World6::HANDLES, name)) continue;
        omc::note("%s", name);
        stir(w);
        if (i % 4 == 1) compare_rest(w);
    }
}
static void history(int depth, int lo, int hi, int orders, const std::vector<int> *ops) {
    World6 w;
    w.drop_old = omc::choose(2, "release replaced objects at once") == 1;
    w.add(w.g2);
    compare_rest(w);
    for (int d = 0; d < depth; d++) {
        int op = ops ? (*ops)[omc::choose((int)ops->size(), "operation")] : d ? omc::choose(MOVES, "operation") : lo + omc::choose(hi - lo, "operation");
        const char *name = "";
        if (!step(w, op, name)) { omc::outcome("not possible"); return; }
        omc::note("%s", name);
    }
    finish(w, omc::choose(orders, "order of release"));
    omc::outcome(w.drop_old ? "replaced objects released" : "replaced objects kept");
}
HARNESS(release_1, 0, 0, "every single release or edit, then everything changed and released, in three orders") { history(1, 0, MOVES, 3, nullptr); }
#define SHARD(N, LO, HI) HARNESS(release_2_##N, 0, 0, "every pair (thorough: triple) of releases and edits (a share, by the first), then everything changed and released") { history(omc::thorough ? 3 : 2, LO, HI, omc::thorough ? 1 : 3, nullptr); }
SHARD(1, 0, 6) SHARD(2, 6, 12) SHARD(3, 12, 18) SHARD(4, 18, 24) SHARD(5, 24, 30) SHARD(6, 30, 36) SHARD(7, 36, 42) SHARD(8, 42, 47) SHARD(9, 47, 52) SHARD(10, 52, MOVES)
// the dependants: released in every order, after every removal or replacement of what they depend on
static const std::vector<int> TOP = {0, 1, 2, 3, 4, 14 + 10, 14 + 12, 14 + 14, 14 + 16, 14 + 24, 14 + 25, 14 + 27, 14 + 28, 14 + 9};
HARNESS(dependants, 0, 0, "every three (thorough: four) releases of buildings, groups and demands, removals and replacements of groups, demands, fragilities, costs and the hazard") { history(omc::thorough ? 4 : 3, 0, 0, omc::thorough ? 1 : 2, &TOP); }
HARNESS(repeated, 0, 0, "every pair of edits in turns, four times each, replaced objects released at once or kept; then everything changed and released") {
    World6 w; w.drop_old = omc::choose(2, "release replaced objects at once") == 1; w.add(w.g2);
    int a = omc::choose(World6::OPS, "first edit"), b = omc::choose(World6::OPS, "second edit"), n = World6::HANDLES;
    for (int i = 0; i < 8; i++) { const char *name = ""; if (step(w, n + (i % 2 ? b : a), name) && i < 2) omc::note("%s", name); if (i % 3 == 1) stir(w); }
    finish(w, (a + b) % 3);
    omc::outcome(w.drop_old ? "replaced objects released" : "replaced objects kept");
}
// every order of releasing all handles of a smaller model: functions, distribution, hazard, demand, two-function demand
HARNESS(every_order, 0, 0, "all 720 orders of releasing six related objects, everything changed after each release") {
    auto f = make_shared<MutFn>(HAZARD, 0), mu = make_shared<MutFn>(DEMAND, 0), sd = make_shared<MutFn>(SPREAD, 0);
    auto p = make_p(mu, sd, 0); auto im = make_shared<IM>(f); auto e = make_shared<CompoundEDP>(im, p, make_p(mu, sd, 1));
    Integration::IntegrationSettings::Reset(); Integration::IntegrationSettings::Set_Tolerance(0.2);
    int vf = 0, vm = 0;
    bool gone[6] = {};
    (void)e->lambda(0.3);
    for (int d = 0; d < 6; d++) {
        int k = omc::choose(6 - d, "release"), h = 0;
        for (h = 0; h < 6; h++) if (!gone[h] && k-- == 0) break;
        gone[h] = true;
        switch (h) { case 0: f.reset(); break; case 1: mu.reset(); break; case 2: sd.reset(); break; case 3: p.reset(); break; case 4: im.reset(); break; case 5: e.reset(); break; }
        if (f) { vf = (vf + 1) % 4; f->set(vf); }
        if (mu) { vm = (vm + 1) % 4; mu->set(vm); }
        if (sd) sd->set(0);
        if (im) im->SetCollapse(fate(0, 1));
        if (p) p->notify_change();
        Caching::Clear_Caches();
        if (e) {
            auto mm = make_fn(DEMAND, vm, true), ss = make_fn(SPREAD, 0, true);
            CompoundEDP c(e->Base_Rate(), make_p(mm, ss, 0), make_p(mm, ss, 1));
            if (!same(c.lambda(0.3), e->lambda(0.3))) omc::fail("demand rate %.10g, fresh model %.10g", e->lambda(0.3), c.lambda(0.3));
        } else if (im) (void)im->CollapseRate();
    }
    omc::outcome("done");
}
