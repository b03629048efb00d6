// C04: dependants hear of every change and replacement exactly once.
#include "replaceable.h"
#include "omc.h"
#include <memory>
#include <string>
using omc::Quiet;
namespace {
    struct Obj : SLAT::Replaceable<Obj> { char name; Obj(char n) : name(n) {} };
    typedef std::shared_ptr<Obj> P;
    struct Client {
        P on; int id = 0; bool live = false; int changed = 0, replaced = 0; Obj *told = nullptr; Obj *relay = nullptr;
        Obj *model = nullptr;                      // reference: what it depends on
        void enlist(P p) {
            on = p; live = true; model = p.get();
            id = p->add_callbacks([this] { { Quiet q; changed++; } if (relay) relay->notify_change(); },
                                  [this](P r) { { Quiet q; replaced++; told = r.get(); on = r; } if (relay) relay->notify_change(); });
        }
        void resign() { on->remove_callbacks(id); live = false; }
    };
}
static std::string nm(int i) { return std::string(1, (char)('A' + i)); }
// Histories over three objects, up to `maxc` dependants.
static void histories(int depth, int maxc) {
    P o[3] = {std::make_shared<Obj>('A'), std::make_shared<Obj>('B'), std::make_shared<Obj>('C')};
    std::vector<std::unique_ptr<Client>> cs;
    auto check = [&](const char *what, int ch[], Obj *told[]) {
        for (size_t i = 0; i < cs.size(); i++) {
            if (cs[i]->changed != ch[i]) omc::fail("%s: dependant %zu was told of the change %d times, expected %d", what, i, cs[i]->changed, ch[i]);
            if (cs[i]->replaced != (told[i] ? 1 : 0)) omc::fail("%s: dependant %zu was told of a replacement %d times, expected %d", what, i, cs[i]->replaced, told[i] ? 1 : 0);
            if (told[i] && cs[i]->told != told[i]) omc::fail("%s: dependant %zu was told the wrong replacement", what, i);
            cs[i]->changed = cs[i]->replaced = 0; cs[i]->told = nullptr;
        }
    };
    for (int s = 0; s < depth; s++) {
        int nlive = cs.size();
        int op = omc::choose(15 + nlive, "op");
        int ch[8] = {0}; Obj *told[8] = {nullptr};
        if (op < 3) {
            if ((int)cs.size() >= maxc) continue;
            omc::note("dependant %zu registers with %s", cs.size(), nm(op).c_str());
            cs.emplace_back(new Client); cs.back()->enlist(o[op]);
            check("register", ch, told);
        } else if (op < 6) {
            int i = op - 3;
            omc::note("%s changes", nm(i).c_str());
            o[i]->notify_change();
            for (size_t k = 0; k < cs.size(); k++) ch[k] = cs[k]->live && cs[k]->model == o[i].get();
            check("change", ch, told);
        } else if (op < 15) {
            int i = (op - 6) / 3, j = (op - 6) % 3;
            omc::note("%s is replaced by %s", nm(i).c_str(), nm(j).c_str());
            o[i]->replace(o[j]);
            for (size_t k = 0; k < cs.size(); k++) if (cs[k]->live && cs[k]->model == o[i].get()) { told[k] = o[j].get(); cs[k]->model = o[j].get(); }
            check("replacement", ch, told);
        } else {
            int k = op - 15;
            if (!cs[k]->live) { omc::note("dependant %d registers again with A", k); cs[k]->enlist(o[0]); }
            else { omc::note("dependant %d unregisters", k); cs[k]->resign(); }
            check("unregister", ch, told);
        }
    }
    // finally every object changes once more: exactly its current dependants hear of it
    for (int i = 0; i < 3; i++) {
        int ch[8] = {0}; Obj *told[8] = {nullptr};
        omc::note("%s changes (final)", nm(i).c_str());
        o[i]->notify_change();
        for (size_t k = 0; k < cs.size(); k++) ch[k] = cs[k]->live && cs[k]->model == o[i].get();
        check("final change", ch, told);
    }
    // and everybody can leave
    for (auto &c : cs) if (c->live) c->resign();
    int ch[8] = {0}; Obj *told[8] = {nullptr};
    for (int i = 0; i < 3; i++) o[i]->notify_change();
    check("after all have left", ch, told);
    omc::outcome(std::to_string(cs.size()));
}
HARNESS(histories, 0, 0, "every history of register, unregister, change, replace over three objects and up to three dependants") { histories(omc::thorough ? 6 : 5, 3); }
HARNESS(many_dependants, 0, 0, "as histories, up to five dependants, starting with two on A and one on B") {
    // prologue shortens the way to the states in which identities could clash
    P o[3] = {std::make_shared<Obj>('A'), std::make_shared<Obj>('B'), std::make_shared<Obj>('C')};
    std::vector<std::unique_ptr<Client>> cs;
    auto add = [&](int i) { cs.emplace_back(new Client); cs.back()->enlist(o[i]); };
    add(0); add(0); add(1);
    int depth = omc::thorough ? 5 : 4;
    for (int s = 0; s < depth; s++) {
        int op = omc::choose(3 + 9 + 5, "op");
        if (op < 3) { if (cs.size() < 5) { add(op); omc::note("dependant %zu registers with %s", cs.size() - 1, nm(op).c_str()); } }
        else if (op < 12) {
            int i = (op - 3) / 3, j = (op - 3) % 3;
            omc::note("%s is replaced by %s", nm(i).c_str(), nm(j).c_str());
            o[i]->replace(o[j]);
            for (size_t k = 0; k < cs.size(); k++) {
                auto &c = cs[k];
                bool dep = c->live && c->model == o[i].get();
                if (c->replaced != (dep ? 1 : 0) || (dep && c->told != o[j].get())) omc::fail("dependant %zu was told of the replacement %d times", k, c->replaced);
                if (dep) c->model = o[j].get();
                c->replaced = 0;
            }
        } else if (op - 12 < (int)cs.size()) { auto &c = cs[op - 12]; if (c->live) { omc::note("dependant %d unregisters", op - 12); c->resign(); } }
        for (int i = 0; i < 3; i++) {
            o[i]->notify_change();
            for (size_t k = 0; k < cs.size(); k++) {
                int want = cs[k]->live && cs[k]->model == o[i].get();
                if (cs[k]->changed != want) omc::fail("%s changed: dependant %zu was told %d times, expected %d", nm(i).c_str(), k, cs[k]->changed, want);
                cs[k]->changed = 0;
            }
        }
    }
    omc::outcome(std::to_string(cs.size()));
}
HARNESS(strangers, 0, 0, "histories in which identities are withdrawn, perhaps again, from objects that may not know them (any more)") {
    P o[3] = {std::make_shared<Obj>('A'), std::make_shared<Obj>('B'), std::make_shared<Obj>('C')};
    std::vector<std::unique_ptr<Client>> cs;
    auto add = [&](int i) { cs.emplace_back(new Client); cs.back()->enlist(o[i]); };
    add(0); add(1); add(0); add(2);
    int depth = omc::thorough ? 5 : 4;
    for (int s = 0; s < depth; s++) {
        int op = omc::choose(1 + 6 + 15, "op");
        if (op == 0) { if (cs.size() < 5) { add(0); omc::note("dependant %zu registers with A", cs.size() - 1); } else continue; }
        else if (op < 7) {
            int i = (op - 1) / 2, j = (i + 1 + (op - 1) % 2) % 3;
            omc::note("%s is replaced by %s", nm(i).c_str(), nm(j).c_str());
            o[i]->replace(o[j]);
            for (auto &c : cs) { if (c->replaced != (c->model == o[i].get())) omc::fail("told of the replacement %d times", c->replaced); if (c->model == o[i].get()) c->model = o[j].get(); c->replaced = 0; }
        } else {
            int k = (op - 7) / 3, i = (op - 7) % 3;
            if (k >= (int)cs.size()) continue;
            omc::note("dependant %d is withdrawn from %s", k, nm(i).c_str());
            o[i]->remove_callbacks(cs[k]->id);
            if (cs[k]->model == o[i].get()) cs[k]->model = nullptr;
        }
        for (int i = 0; i < 3; i++) {
            o[i]->notify_change();
            for (size_t k = 0; k < cs.size(); k++) {
                int want = cs[k]->model == o[i].get();
                if (cs[k]->changed != want) omc::fail("%s changed: dependant %zu was told %d times, expected %d", nm(i).c_str(), k, cs[k]->changed, want);
                cs[k]->changed = 0;
            }
        }
    }
    omc::outcome(std::to_string(cs.size()));
}
// A dependant that is itself depended upon passes the news on.
HARNESS(relay, 0, 0, "three levels: changes and replacements at the bottom reach the top once per path") {
    P o[4] = {std::make_shared<Obj>('A'), std::make_shared<Obj>('B'), std::make_shared<Obj>('C'), std::make_shared<Obj>('D')};
    Client ab, ac, top_b, top_c;                   // B and C depend on A; the top depends on B and C
    ab.relay = o[1].get(); ac.relay = o[2].get();
    ab.enlist(o[0]); ac.enlist(o[0]); top_b.enlist(o[1]); top_c.enlist(o[2]);
    P base_b = o[0], base_c = o[0];
    for (int s = 0; s < (omc::thorough ? 6 : 5); s++) {
        int op = omc::choose(6, "op");
        int eb = 0, ec = 0;
        if (op == 0) { o[0]->notify_change(); eb = base_b == o[0]; ec = base_c == o[0]; }
        else if (op == 1) { o[3]->notify_change(); eb = base_b == o[3]; ec = base_c == o[3]; }
        else if (op == 2) { o[0]->replace(o[3]); eb = base_b == o[0]; ec = base_c == o[0]; if (eb) base_b = o[3]; if (ec) base_c = o[3]; }
        else if (op == 3) { o[3]->replace(o[0]); eb = base_b == o[3]; ec = base_c == o[3]; if (eb) base_b = o[0]; if (ec) base_c = o[0]; }
        else if (op == 4) { if (ab.live) { ab.resign(); base_b = nullptr; } else { ab.enlist(o[0]); base_b = o[0]; } }
        else { if (ac.live) { ac.resign(); base_c = nullptr; } else { ac.enlist(o[3]); base_c = o[3]; } }
        if (top_b.changed != eb || top_c.changed != ec) omc::fail("step %d op %d: the top was told %d/%d times, expected %d/%d", s, op, top_b.changed, top_c.changed, eb, ec);
        top_b.changed = top_c.changed = 0;
    }
    omc::outcome("ok");
}
// Two threads.
HARNESS(threads, 3, 5, "every interleaving of two threads that register, unregister, change and replace") {
    omc::race_detect = true;
    P a = std::make_shared<Obj>('A'), b = std::make_shared<Obj>('B');
    Client c0, c1, c2, c3; c0.enlist(a); c1.enlist(b);
    int p = omc::choose(5, "thread 1"), q = omc::choose(5, "thread 2");
    int na = 0, nb = 0; bool rep = false;
    auto act = [&](int what, Client &mine) {
        switch (what) {
        case 0: mine.enlist(a); break;
        case 1: mine.enlist(b); break;
        case 2: b->notify_change(); break;
        case 3: mine.enlist(a); mine.resign(); break;
        case 4: a->replace(b); break;
        }
    };
    // registering with A while A is being replaced has no defined outcome for the newcomer
    for (int w : {p, q}) { if (w == 2) nb++; if (w == 4) rep = true; }
    bool ambiguous = rep && (p == 0 || q == 0 || p == 3 || q == 3);
    if (ambiguous) { omc::outcome("skip"); return; }
    omc::run({[&] { act(p, c2); }, [&] { act(q, c3); }});
    if (c1.changed != nb) omc::fail("the dependant of B was told of %d changes out of %d", c1.changed, nb);
    int r = (p == 4) + (q == 4);
    if (c0.replaced != (r ? 1 : 0)) omc::fail("the dependant of A was told of the replacement %d times (threads do %d, %d)", c0.replaced, p, q);
    for (Client *c : {&c0, &c1, &c2, &c3}) c->changed = c->replaced = 0;
    a->notify_change(); 
    for (Client *c : {&c0, &c2, &c3}) { bool on_a = c->live && !rep && (c == &c0 || (c == &c2 ? p : q) == 0); if (c->changed != on_a) omc::fail("afterwards a change of A reaches a dependant %d times, expected %d", c->changed, (int)on_a); c->changed = 0; }
    if (c1.changed) omc::fail("afterwards a change of A reaches a dependant of B");
    b->notify_change();
    for (Client *c : {&c0, &c1, &c2, &c3}) {
        bool on_b = c == &c1 || (c == &c0 && rep) || (c == &c2 && p == 1) || (c == &c3 && q == 1);
        if (c->changed != on_b) omc::fail("afterwards a change of B reaches a dependant %d times, expected %d (threads do %d, %d)", c->changed, (int)on_b, p, q);
    }
    if (!rep) {                                // identities taken at the same time must still be different
        for (Client *c : {&c0, &c1, &c2, &c3}) c->changed = c->replaced = 0;
        a->replace(b);
        b->notify_change();
        for (Client *c : {&c0, &c1, &c2, &c3}) {
            bool on_a = c == &c0 || (c == &c2 && p == 0) || (c == &c3 && q == 0), on_b = c == &c1 || (c == &c2 && p == 1) || (c == &c3 && q == 1);
            if (c->replaced != on_a) omc::fail("replacing A afterwards told a dependant %d times, expected %d (threads do %d, %d)", c->replaced, (int)on_a, p, q);
            if (c->changed != (on_a || on_b)) omc::fail("after A was replaced by B, a change of B reaches a dependant %d times, expected %d (threads do %d, %d)", c->changed, (int)(on_a || on_b), p, q);
        }
    }
    omc::outcome(std::to_string(p) + std::to_string(q));
}
// as many dependants as a large building has
HARNESS(crowd, 0, 0, "a number of dependants at and next to every power of two up to 256 (2048), some withdrawn, then every three edits of their objects") {
    int p = omc::choose(omc::thorough ? 12 : 9, "power of two"), n = std::max(1, (1 << p) + omc::choose(3, "one less / exactly / one more") - 1), gone = omc::choose(4, "withdrawn");
    P o[2] = {std::make_shared<Obj>('A'), std::make_shared<Obj>('B')};
    std::vector<std::unique_ptr<Client>> cs;
    auto add = [&](int i) { cs.emplace_back(new Client); cs.back()->enlist(o[i]); };
    for (int i = 0; i < n; i++) add(i % 5 == 4);
    if (gone) for (int i = gone == 3 ? n / 2 : 0; i < n; i += gone) cs[i]->resign();
    for (int s = 0; s < 4; s++) {
        int op = s == 3 ? 0 : omc::choose(5, "edit"); Obj *from = nullptr, *to = nullptr;
        if (op == 1 || op == 2) { from = o[op - 1].get(); to = o[2 - op].get(); o[op - 1]->replace(o[2 - op]); }
        else if (op == 3) { for (int i = 0; i < 3; i++) add(1); }
        else if (op == 4) { for (size_t i = 1; i < cs.size(); i += 3) if (cs[i]->live) cs[i]->resign(); }
        for (size_t k = 0; k < cs.size(); k++) {
            auto &c = *cs[k]; bool dep = from && c.live && c.model == from;
            if (c.replaced != dep || (dep && c.told != to)) omc::fail("dependant %zu of %zu was told of the replacement %d times", k, cs.size(), c.replaced);
            if (dep) c.model = to;
            c.replaced = 0;
        }
        for (auto &x : o) {
            x->notify_change();
            for (size_t k = 0; k < cs.size(); k++) { int want = cs[k]->live && cs[k]->model == x.get(); if (cs[k]->changed != want) omc::fail("dependant %zu of %zu was told of the change %d times, expected %d", k, cs.size(), cs[k]->changed, want); cs[k]->changed = 0; }
        }
    }
    omc::outcome("ok");
}
