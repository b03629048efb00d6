// C05: hazard and demand results never go stale.
#include "model.h"
using namespace model;

namespace {
struct World {
    vector<std::unique_ptr<MFn>> fns; vector<std::unique_ptr<MP>> ps; vector<std::unique_ptr<MIM>> ims; vector<std::unique_ptr<MEDP>> edps;
    MFn *haz, *mu1, *mu2, *sd, *old_haz = nullptr, *old_mu = nullptr; MP *p1, *p2, *old_p = nullptr; MIM *im, *im2, *old_im = nullptr; MEDP *edp, *cedp, *edp2;
    MFn *fn(int k, int v, bool user) { fns.emplace_back(new MFn{k, v, make_fn(k, v, user)}); return fns.back().get(); }
    MP *p(MFn *mu, MFn *sd, int t) { ps.emplace_back(new MP{mu, sd, t, make_p(mu->live, sd->live, t)}); return ps.back().get(); }
    MIM *mk_im(MFn *f, int c, int d) {
        ims.emplace_back(new MIM{f, c, d, make_shared<IM>(f->live)}); MIM *m = ims.back().get();
        if (c) m->live->SetCollapse(fate(0, c));
        if (d) m->live->SetDemolition(fate(1, d));
        return m;
    }
    MEDP *mk_edp(MIM *i, MP *a, MP *b) {
        edps.emplace_back(new MEDP{i, a, b, b ? make_shared<CompoundEDP>(i->live, a->live, b->live) : make_shared<EDP>(i->live, a->live)});
        return edps.back().get();
    }
    World(bool user, int start = 1) {
        Integration::IntegrationSettings::Reset();
        Integration::IntegrationSettings::Set_Tolerance(0.01);
        haz = fn(HAZARD, 0, user); mu1 = fn(DEMAND, 0, user); mu2 = fn(DEMAND, 1, user); sd = fn(SPREAD, 0, user);
        p1 = p(mu1, sd, 0); p2 = p(mu2, sd, 1);
        im = mk_im(haz, start, start); im2 = mk_im(fn(HAZARD, 2, user), 2, 0);
        edp = mk_edp(im, p1, nullptr); cedp = mk_edp(im, p1, p2); edp2 = mk_edp(im2, p2, nullptr);
    }
    // replacement: whoever refers to a refers to b from then on
    void repl(MFn *&slot, MFn *b) {
        MFn *a = slot; a->live->replace(b->live);
        for (auto &x : ps) { if (x->mu == a) x->mu = b; if (x->sd == a) x->sd = b; }
        for (auto &x : ims) if (x->f == a) x->f = b;
        slot = b;
    }
    void repl(MP *&slot, MP *b) { MP *a = slot; a->live->replace(b->live); for (auto &x : edps) { if (x->a == a) x->a = b; if (x->b == a) x->b = b; } slot = b; }
    void repl(MIM *&slot, MIM *b) { MIM *a = slot; a->live->replace(b->live); for (auto &x : edps) if (x->im == a) x->im = b; slot = b; }
    bool set(MFn *f, int v) {
        MutFn *m = dynamic_cast<MutFn *>(f->live.get());
        if (!m) return false;
        m->set(v); f->variant = v; return true;
    }
    int other(int v) { return (v + 1) % 4; }
    bool edit(int op, const char *&name) {
        static const char *const N[] = {"change the hazard curve", "replace the hazard curve", "replace the hazard curve by a built-in one", "change the first mean", "replace the first mean", "change the second mean", "replace the second mean",
            "change the spread", "replace the spread", "replace the first mean by the second", "replace the first function", "replace the second function", "replace the first function by the second", "set collapse", "set collapse by pointer", "clear collapse",
            "set demolition", "set demolition by pointer", "clear demolition", "replace the hazard", "replace the hazard by one in use", "change a replaced hazard curve", "change a replaced mean", "set collapse of a replaced hazard", "change the hazard curve of the other demand", "replace the hazard by itself",
            "replace the second function by the first", "replace the second mean by the first", "back to the replaced hazard curve", "back to the replaced mean", "back to the replaced function", "back to the replaced hazard", "replace the hazard curve by the other hazard's", "replace the other hazard by the first", "replace the spread by the first mean"};
        name = N[op];
        switch (op) {
        case 0: return set(haz, other(haz->variant));
        case 1: old_haz = haz; repl(haz, fn(HAZARD, other(haz->variant), true)); return true;
        case 2: old_haz = haz; repl(haz, fn(HAZARD, other(haz->variant), false)); return true;
        case 3: return set(mu1, other(mu1->variant));
        case 4: old_mu = mu1; repl(mu1, fn(DEMAND, other(mu1->variant), true)); return true;
        case 5: return set(mu2, other(mu2->variant));
        case 6: old_mu = mu2; repl(mu2, fn(DEMAND, other(mu2->variant), false)); return true;
        case 7: return set(sd, other(sd->variant));
        case 8: repl(sd, fn(SPREAD, other(sd->variant), true)); return true;
        case 9: if (mu1 == mu2) return false; old_mu = mu1; repl(mu1, mu2); return true;
        case 10: old_p = p1; repl(p1, p(mu1, sd, 1 - p1->type)); return true;
        case 11: old_p = p2; repl(p2, p(mu2, sd, 1 - p2->type)); return true;
        case 12: if (p1 == p2) return false; old_p = p1; repl(p1, p2); return true;
        case 13: im->col = next(im->col); im->live->SetCollapse(fate(0, im->col)); return true;
        case 14: im->col = next(im->col); im->live->SetCollapse(make_shared<LogNormalDist>(fate(0, im->col))); return true;
        case 15: im->col = 0; im->live->SetCollapse(shared_ptr<LogNormalDist>()); return true;
        case 16: im->dem = next(im->dem); im->live->SetDemolition(fate(1, im->dem)); return true;
        case 17: im->dem = next(im->dem); im->live->SetDemolition(make_shared<LogNormalDist>(fate(1, im->dem))); return true;
        case 18: im->dem = 0; im->live->SetDemolition(shared_ptr<LogNormalDist>()); return true;
        case 19: old_im = im; old_haz = haz; { MFn *h = fn(HAZARD, other(haz->variant), true); repl(im, mk_im(h, next(im->col), next(im->dem))); haz = h; } return true;
        case 20: if (im == im2) return false; old_im = im; old_haz = haz; repl(im, im2); haz = im2->f; return true;
        case 21: return old_haz && set(old_haz, other(old_haz->variant));
        case 22: return old_mu && set(old_mu, other(old_mu->variant));
        case 23: if (!old_im) return false; old_im->col = next(old_im->col); old_im->live->SetCollapse(fate(0, old_im->col)); return true;
        case 24: return set(im2->f, other(im2->f->variant));
        case 25: repl(im, im); return true;
        case 26: if (p1 == p2) return false; repl(p2, p1); return true;
        case 27: if (mu1 == mu2) return false; repl(mu2, mu1); return true;
        case 28: if (!old_haz || old_haz == haz) return false; { MFn *h = haz; repl(haz, old_haz); old_haz = h; } return true;
        case 29: if (!old_mu || old_mu == mu1) return false; { MFn *m = mu1; repl(mu1, old_mu); old_mu = m; } return true;
        case 30: if (!old_p || old_p == p1) return false; { MP *x = p1; repl(p1, old_p); old_p = x; } return true;
        case 31: if (!old_im || old_im == im) return false; { MIM *i = im; repl(im, old_im); old_im = i; haz = im->f; } return true;
        case 32: if (haz == im2->f) return false; old_haz = haz; repl(haz, im2->f); return true;
        case 33: if (im2 == im) return false; repl(im2, im); return true;
        case 34: if (sd == mu1) return false; repl(sd, mu1); return true;
        }
        return false;
    }
    static const int OPS = 35;
    void ask_all(const char *) {
        compare("hazard", im); compare("other hazard", im2); compare("first function", p1); compare("second function", p2);
        compare("demand", edp); compare("compound demand", cedp); compare("demand on the other hazard", edp2);
    }
};
void history(int depth, bool user, int lo, int hi, int modes, int start = 1) {
    World w(user, start);
    for (int d = 0; d < depth; d++) {
        int op = d ? omc::choose(World::OPS, "edit") : lo + omc::choose(hi - lo, "edit"), q = omc::choose(modes, "query before");
        if (q == 1) w.ask_all("before");
        else if (q == 2) (void)w.im->live->CollapseRate();
        else if (q == 3) (void)w.im->live->DemolitionRate();
        else if (q == 4) (void)w.edp->live->lambda(0.3);
        else if (q == 5) (void)w.cedp->live->lambda(0.05);
        const char *name = "";
        if (q) omc::note("query (%d)", q);
        if (!w.edit(op, name)) { omc::outcome("edit not possible"); return; }
        omc::note("%s", name);
    }
    w.ask_all("after");
    omc::outcome("compared");
}
}
HARNESS(one_edit, 0, 0, "every single edit after every kind of query, and after none, from four settings of collapse and demolition") { history(1, omc::choose(2, "user functions"), 0, World::OPS, 6, 1 + omc::choose(STEPS, "setting")); }
HARNESS(two_edits, 0, 0, "every pair of edits, with every kind of query before each") { history(2, true, 0, World::OPS, 6); }
#define SHARD(N, LO, HI) HARNESS(three_edits_##N, 0, 0, "every three (thorough: four) edits (a share, by the first), with or without all queries before each") { history(omc::thorough ? 4 : 3, true, LO, HI, 2); }
SHARD(1, 0, 3) SHARD(2, 3, 6) SHARD(3, 6, 10) SHARD(4, 10, 13) SHARD(5, 13, 16) SHARD(6, 16, 19) SHARD(7, 19, 22) SHARD(8, 22, 26) SHARD(9, 26, 29) SHARD(10, 29, 32) SHARD(11, 32, 35)
// models are edited for a long time
HARNESS(repeated, 0, 0, "every pair of edits in turns, ten times each, all results asked before each or never; then everything is as in a fresh model") {
    int a = omc::choose(World::OPS, "first edit"), b = omc::choose(World::OPS, "second edit"), asked = omc::choose(2, "query before"), done = 0;
    World w(false, 1); const char *name = "";
    for (int i = 0; i < 20; i++) { if (asked) w.ask_all("before"); if (w.edit(i % 2 ? b : a, name)) { done++; if (i < 2) omc::note("%s", name); } }
    w.ask_all("after"); omc::count("edits", done); omc::outcome("compared");
}
