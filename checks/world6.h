// The building used by the component and building checks, live and mirrored.
#ifndef WORLD6_H
#define WORLD6_H
#include "model.h"
namespace model {
struct World6 {
    vector<std::unique_ptr<MFn>> fns; vector<std::unique_ptr<MP>> ps; vector<std::unique_ptr<MIM>> ims; vector<std::unique_ptr<MEDP>> edps;
    vector<std::unique_ptr<MFrag>> frags; vector<std::unique_ptr<MLoss>> losses; vector<std::unique_ptr<MCG>> cgs; MStruct s;
    MFn *haz, *mu, *sd; MP *p1, *p2; MIM *im; MEDP *edp, *edp2, *old_edp = nullptr; MFrag *frag, *old_frag = nullptr; MIM *old_im = nullptr; MLoss *cost, *delay, *cost2, *old_cost = nullptr, *old_delay = nullptr; MCG *g1, *g2, *old_g = nullptr, *out;
    struct Impossible {};                                  // the handle needed was released
    bool drop_old = false;                                 // release what was replaced at once
    template <class M> static M *need(M *m) { if (!m->live) throw Impossible(); return m; }
    MFn *fn(int k, int v) { fns.emplace_back(new MFn{k, v, make_fn(k, v, true)}); return fns.back().get(); }
    MP *mkp(MFn *m, MFn *d, int t) { need(m); need(d); ps.emplace_back(new MP{m, d, t, make_p(m->live, d->live, t)}); return ps.back().get(); }
    MIM *mkim(MFn *f, int c, int d) {
        need(f);
        ims.emplace_back(new MIM{f, c, d, make_shared<IM>(f->live)}); MIM *m = ims.back().get();
        if (c) m->live->SetCollapse(fate(0, c));
        if (d) m->live->SetDemolition(fate(1, d));
        return m;
    }
    MEDP *mkedp(MIM *i, MP *a, MP *b) {
        need(i); need(a); if (b) need(b);
        edps.emplace_back(new MEDP{i, a, b, b ? make_shared<CompoundEDP>(i->live, a->live, b->live) : make_shared<EDP>(i->live, a->live)});
        return edps.back().get();
    }
    MFrag *mkfrag(int v) { frags.emplace_back(new MFrag{v, make_shared<FragilityFn>(onsets(v))}); return frags.back().get(); }
    MLoss *mkloss(int k, int v) { losses.emplace_back(new MLoss{k, v, make_loss(k, v)}); return losses.back().get(); }
    MCG *mkcg(MEDP *e, MFrag *f, MLoss *c, MLoss *d, int n, double adj) {
        need(e); need(f); if (c) need(c); if (d) need(d);
        cgs.emplace_back(new MCG{e, f, c, d, n, adj, make_shared<CompGroup>(e->live, f->live, c ? c->live : nullptr, d ? d->live : nullptr, n, adj, adj * 0.5)});
        return cgs.back().get();
    }
    World6(int start = 1) {
        Integration::IntegrationSettings::Reset();
        Integration::IntegrationSettings::Set_Tolerance(0.2);
        Integration::IntegrationSettings::Set_Integration_Search_Limit(24);
        haz = fn(HAZARD, 0); mu = fn(DEMAND, 0); sd = fn(SPREAD, 0);
        p1 = mkp(mu, sd, 0); p2 = mkp(fn(DEMAND, 1), sd, 1);
        im = mkim(haz, start, start);
        edp = mkedp(im, p1, nullptr); edp2 = mkedp(im, p1, p2);
        frag = mkfrag(0); cost = mkloss(2, 0); delay = mkloss(2, 1); cost2 = mkloss(1, 2);
        g1 = mkcg(edp, frag, cost, delay, 3, 1.0); g2 = mkcg(edp2, frag, cost2, nullptr, 1, 1.3);
        out = g2;
        s.rebuild = start; s.demolition = start; s.live = make_shared<Structure>("building");
        s.live->setRebuildCost(money(0, start)); s.live->setDemolitionCost(money(1, start));
        add(g1);
    }
    void add(MCG *g) { need(&s); need(g); s.live->AddCompGroup(g->live); s.groups.push_back(g); }
    bool remove(MCG *g) {
        need(&s); need(g);
        for (size_t i = 0; i < s.groups.size(); i++) if (s.groups[i] == g) { s.live->RemoveCompGroup(g->live); s.groups.erase(s.groups.begin() + i); return true; }
        return false;
    }
    bool member(MCG *g) { for (auto x : s.groups) if (x == g) return true; return false; }
    void repl(MFn *&slot, MFn *b) {
        MFn *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset();
        for (auto &x : ps) { if (x->mu == a) x->mu = b; if (x->sd == a) x->sd = b; }
        for (auto &x : ims) if (x->f == a) x->f = b;
        slot = b;
    }
    void repl(MP *&slot, MP *b) { MP *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset(); for (auto &x : edps) { if (x->a == a) x->a = b; if (x->b == a) x->b = b; } slot = b; }
    void repl(MIM *&slot, MIM *b) { MIM *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset(); for (auto &x : edps) if (x->im == a) x->im = b; slot = b; }
    void repl(MEDP *&slot, MEDP *b) { MEDP *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset(); for (auto &x : cgs) if (x->edp == a) x->edp = b; slot = b; }
    void repl(MFrag *&slot, MFrag *b) { MFrag *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset(); for (auto &x : cgs) if (x->frag == a) x->frag = b; slot = b; }
    void repl(MLoss *&slot, MLoss *b) { MLoss *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset(); for (auto &x : cgs) { if (x->cost == a) x->cost = b; if (x->delay == a) x->delay = b; } slot = b; }
    void repl(MCG *&slot, MCG *b) { MCG *a = need(slot); need(b); a->live->replace(b->live); if (drop_old && a != b) a->live.reset(); for (auto &x : s.groups) if (x == a) x = b; slot = b; }
    static bool set(MFn *f) { need(f); MutFn *m = dynamic_cast<MutFn *>(f->live.get()); if (!m) return false; f->variant = other(f->variant); m->set(f->variant); return true; }
    static bool set(MLoss *f) { need(f); MutLoss *m = dynamic_cast<MutLoss *>(f->live.get()); if (!m) return false; f->variant = other(f->variant); m->set(f->variant); return true; }
    static int other(int v) { return (v + 1) % 4; }
    template <class M> bool back(M *&slot, M *&old) { if (!old || old == slot) return false; M *x = slot; repl(slot, old); old = x; return true; }
    enum { OPS = 43 };
    bool edit(int op, const char *&name) {
        static const char *const N[OPS] = {"change the hazard curve", "replace the hazard curve", "change the mean demand", "replace the mean demand", "change the spread", "replace the demand function", "replace the second demand function",
            "set collapse", "set demolition", "replace the hazard", "replace the demand", "replace the compound demand", "replace the demand by the compound one", "change a replaced demand's hazard",
            "replace the fragility", "change the cost", "replace the cost by a table", "replace the cost by a two-level table", "change the delay", "replace the delay", "replace the second group's cost", "change a replaced cost", "change a replaced delay",
            "add the second group", "remove the second group", "remove the first group", "add the first group", "replace the first group", "replace the second group", "set the rebuild cost", "set the demolition cost",
            "replace the delay by the cost", "replace the cost by the delay", "replace the second group's cost by the first's", "back to the replaced demand", "back to the replaced cost", "back to the replaced delay", "back to the replaced fragility",
            "replace the compound demand by the simple one", "back to the replaced group", "change a replaced hazard", "back to the replaced hazard", "replace the mean demand by the spread"};
        name = N[op];
        switch (op) {
        case 0: return set(haz);
        case 1: repl(haz, fn(HAZARD, other(haz->variant))); return true;
        case 2: return set(mu);
        case 3: repl(mu, fn(DEMAND, other(mu->variant))); return true;
        case 4: return set(sd);
        case 5: repl(p1, mkp(mu, sd, 1 - p1->type)); return true;
        case 6: repl(p2, mkp(fn(DEMAND, other(p2->mu->variant)), sd, p2->type)); return true;
        case 7: need(im); im->col = next(im->col); im->live->SetCollapse(fate(0, im->col)); return true;
        case 8: need(im); im->dem = next(im->dem); im->live->SetDemolition(fate(1, im->dem)); return true;
        case 9: { MFn *h = fn(HAZARD, other(haz->variant)); old_im = im; repl(im, mkim(h, next(im->col), im->dem)); haz = h; return true; }
        case 10: old_edp = edp; repl(edp, mkedp(im, p2, nullptr)); return true;
        case 11: if (edp2 == edp) return false; old_edp = edp2; repl(edp2, mkedp(im, p2, mkp(fn(DEMAND, other(mu->variant)), sd, 0))); return true;
        case 12: if (edp2 == edp) return false; old_edp = edp; repl(edp, edp2); return true;
        case 13: return old_edp && set(old_edp->a->mu);
        case 14: old_frag = frag; repl(frag, mkfrag(other(frag->variant))); return true;
        case 15: return set(cost);
        case 16: old_cost = cost; repl(cost, mkloss(0, other(cost->variant))); return true;
        case 17: old_cost = cost; repl(cost, mkloss(1, other(cost->variant))); return true;
        case 18: return set(delay);
        case 19: old_delay = delay; repl(delay, mkloss(2, other(delay->variant))); return true;
        case 20: if (cost2 == cost) return false; repl(cost2, mkloss(2, other(cost2->variant))); return true;
        case 21: return old_cost && set(old_cost);
        case 22: return old_delay && set(old_delay);
        case 23: if (member(g2)) return false; add(g2); return true;
        case 24: return remove(g2);
        case 25: return remove(g1);
        case 26: if (member(g1)) return false; add(g1); return true;
        case 27: old_g = g1; repl(g1, mkcg(edp2, frag, cost, delay, g1->count + 1, 1.0)); return true;
        case 28: old_g = g2; repl(g2, mkcg(edp, frag, cost2, delay, g2->count + 2, 0.7)); return true;
        case 29: need(&s); s.rebuild = next(s.rebuild); s.live->setRebuildCost(money(0, s.rebuild)); return true;
        case 30: need(&s); s.demolition = next(s.demolition); s.live->setDemolitionCost(money(1, s.demolition)); return true;
        case 31: if (delay == cost) return false; old_delay = delay; repl(delay, cost); return true;
        case 32: if (delay == cost) return false; old_cost = cost; repl(cost, delay); return true;
        case 33: if (cost2 == cost) return false; repl(cost2, cost); return true;
        case 34: return back(edp, old_edp);
        case 35: return back(cost, old_cost);
        case 36: return back(delay, old_delay);
        case 37: return back(frag, old_frag);
        case 38: if (edp2 == edp) return false; old_edp = edp2; repl(edp2, edp); return true;
        case 39: if (old_g && member(old_g)) return false; return back(g1, old_g);
        case 40: if (!old_im) return false; need(old_im); old_im->col = next(old_im->col); old_im->live->SetCollapse(fate(0, old_im->col)); return true;
        case 41: if (!back(im, old_im)) return false; haz = im->f; return true;
        case 42: if (mu == sd) return false; repl(mu, sd); return true;
        }
        return false;
    }
    // ---- releasing the handles
    enum { HANDLES = 14 };
    template <class M> static bool drop(M *m) { if (!m->live) return false; m->live.reset(); return true; }
    bool release(int h, const char *&name) {
        static const char *const N[HANDLES] = {"release the building", "release the first group", "release the second group", "release the demand", "release the compound demand", "release the fragility", "release the cost", "release the delay",
            "release the second cost", "release the hazard", "release the demand function", "release the second demand function", "release the hazard curve", "release the mean and spread"};
        name = N[h];
        switch (h) {
        case 0: return drop(&s);
        case 1: return drop(g1);
        case 2: return drop(g2);
        case 3: return drop(edp);
        case 4: return drop(edp2);
        case 5: return drop(frag);
        case 6: return drop(cost);
        case 7: return drop(delay);
        case 8: return drop(cost2);
        case 9: return drop(im);
        case 10: return drop(p1);
        case 11: return drop(p2);
        case 12: return drop(haz);
        default: { bool a = drop(mu), b = drop(sd); return a || b; }
        }
    }
};
}
#endif
