"""A small model held three ways: as definitions by kind and name, as pyslat objects, and as the lines
that build the same thing through the C++ classes."""
import pyenv
from pyenv import num

KINDS = ('fn', 'pf', 'im', 'edp', 'frag', 'loss', 'cg', 'st')


def dist_line(d):
    return 'def 0 0 0' if d is None else '%s %s %s %s' % (d[0], num(d[1]), d[2], num(d[3]))


class World:
    def __init__(self):
        self.d = {k: {} for k in KINDS}

    # ---- definitions: each builds the pyslat object and remembers the definition
    def fn(self, n, kind, *p):
        self.d['fn'][n] = (kind,) + p
        name = {'plc': 'power law', 'nlh': 'hyperbolic', 'lin': 'linear', 'log': 'loglog'}[kind]
        return pyenv.slat.detfn(n, name, [list(v) if isinstance(v, tuple) else v for v in p])

    def pf(self, n, m, f, s, g):
        S = pyenv.slat
        self.d['pf'][n] = (m, f, s, g)
        return S.probfn(n, 'lognormal', [pyenv.mu(m), S.detfn.lookup(f)], [pyenv.sd(s), S.detfn.lookup(g)])

    def im(self, n, f):
        S = pyenv.slat
        self.d['im'][n] = [f, None, None]
        return S.im(n, S.detfn.lookup(f))

    def collapse(self, n, d):
        self.d['im'][n][1] = d
        pyenv.slat.im.lookup(n).SetCollapse(self.dist(d))

    def demolition(self, n, d):
        self.d['im'][n][2] = d
        pyenv.slat.im.lookup(n).SetDemolition(self.dist(d))

    @staticmethod
    def dist(d):
        return pyenv.slat.MakeLogNormalDist(d[1], pyenv.mu(d[0]), d[3], pyenv.sd(d[2]))

    def edp(self, n, i, p, p2=None):
        S = pyenv.slat
        self.d['edp'][n] = (i, p) if p2 is None else (i, p, p2)
        if p2 is None:
            return S.edp(n, S.im.lookup(i), S.probfn.lookup(p))
        return S.edp(n, S.im.lookup(i), S.probfn.lookup(p), S.probfn.lookup(p2))

    def frag(self, n, m, s, pairs):
        self.d['frag'][n] = tuple((m, a, s, b) for a, b in pairs)
        return pyenv.slat.fragfn_user(n, {'mu': pyenv.mu(m), 'sd': pyenv.sd(s)}, [list(p) for p in pairs])

    def loss(self, n, m, s, pairs):
        self.d['loss'][n] = ('loss',) + tuple((m, a, s, b) for a, b in pairs)
        return pyenv.slat.simplelossfn(n, {'mu': pyenv.mu(m), 'sd': pyenv.sd(s)}, [list(p) for p in pairs])

    def bil(self, n, rows):
        self.d['loss'][n] = ('bil',) + tuple(tuple(r) for r in rows)
        return pyenv.slat.bilevellossfn(n, [list(r) for r in rows])

    def cg(self, n, e, f, c, d, count, ca=1.0, da=1.0):
        S = pyenv.slat
        self.d['cg'][n] = (e, f, c, d, count, ca, da)
        return S.compgroup(n, S.edp.lookup(e), S.fragfn.lookup(f), S.lossfn.lookup(c), d and S.lossfn.lookup(d), count, ca, da)

    def st(self, n, groups=()):
        s = pyenv.slat.structure(n)
        self.d['st'][n] = [[], None, None]
        for g in groups:
            self.add(n, g)
        return s

    def add(self, n, g):
        S = pyenv.slat
        S.structure.lookup(n).AddCompGroup(S.compgroup.lookup(g))
        self.d['st'][n][0].append(g)

    def rem(self, n, g):
        S = pyenv.slat
        S.structure.lookup(n).RemoveCompGroup(S.compgroup.lookup(g))
        self.d['st'][n][0] = [x for x in self.d['st'][n][0] if x != g]

    def rebuild(self, n, d):
        self.d['st'][n][1] = d
        pyenv.slat.structure.lookup(n).setRebuildCost(self.dist(d))

    def demo(self, n, d):
        self.d['st'][n][2] = d
        pyenv.slat.structure.lookup(n).setDemolitionCost(self.dist(d))

    # ---- the same model for the reference program
    def lines(self):
        d, out = self.d, []
        for n, v in d['fn'].items():
            if v[0] in ('lin', 'log'):
                out.append('fn %s %s %d %s %s' % (n, v[0], len(v[1]), ' '.join(map(num, v[1])), ' '.join(map(num, v[2]))))
            else:
                out.append('fn %s %s %s' % (n, v[0], ' '.join(map(num, v[1:]))))
        for n, v in d['pf'].items():
            out.append('pf %s %s %s %s %s' % ((n,) + v))
        for n, v in d['im'].items():
            out.append('im %s %s' % (n, v[0]))
            if v[1]:
                out.append('col %s %s' % (n, dist_line(v[1])))
            if v[2]:
                out.append('dem %s %s' % (n, dist_line(v[2])))
        for n, v in d['edp'].items():
            out.append(('edp %s %s %s' if len(v) == 2 else 'edp2 %s %s %s %s') % ((n,) + tuple(v)))
        for n, v in d['frag'].items():
            out.append('frag %s %d %s' % (n, len(v), ' '.join(map(dist_line, v))))
        for n, v in d['loss'].items():
            if v[0] == 'loss':
                out.append('loss %s %d %s' % (n, len(v) - 1, ' '.join(map(dist_line, v[1:]))))
            else:
                out.append('bil %s %d %s' % (n, len(v) - 1, ' '.join(' '.join(map(num, r)) for r in v[1:])))
        for n, v in d['cg'].items():
            out.append('cg %s %s %s %s %s %d %s %s' % (n, v[0], v[1], v[2], v[3] or '-', v[4], num(v[5]), num(v[6])))
        for n, v in d['st'].items():
            out.append('st %s' % n)
            for g in v[0]:
                out.append('add %s %s' % (n, g))
            if v[1]:
                out.append('reb %s %s' % (n, dist_line(v[1])))
            if v[2]:
                out.append('demo %s %s' % (n, dist_line(v[2])))
        return tuple(out)


# ---- queries: (line for the reference program, function giving the same numbers through pyslat)
def q_fn(n, x):
    return ('fn %s %s' % (n, num(x)), lambda: [pyenv.slat.detfn.lookup(n).ValueAt(x)])


def q_pf(n, x):
    def f():
        p = pyenv.slat.probfn.lookup(n)
        return [p.Mean(x), p.MeanLn(x), p.Median(x), p.SD_ln(x), p.SD(x)]
    return ('pf %s %s' % (n, num(x)), f)


def q_pfx(n, x, p):
    return ('pfx %s %s %s' % (n, num(x), num(p)), lambda: [pyenv.slat.probfn.lookup(n).X_at_exceedence(x, p)])


def q_im(n, x):
    def f():
        i = pyenv.slat.im.lookup(n)
        return [i.getlambda(x), i.pCollapse(x), i.pDemolition(x), i.pRepair(x)]
    return ('im %s %s' % (n, num(x)), f)


def q_imr(n):
    def f():
        i = pyenv.slat.im.lookup(n)
        return [i.CollapseRate(), i.DemolitionRate()]
    return ('imr %s' % n, f)


def q_edp(n, x):
    def f():
        p = pyenv.slat.edp.lookup(n)
        return [p.Mean(x), p.MeanLn(x), p.Median(x), p.SD_ln(x), p.SD(x)]
    return ('edp %s %s' % (n, num(x)), f)


def q_edpx(n, x, p):
    return ('edpx %s %s %s' % (n, num(x), num(p)), lambda: [pyenv.slat.edp.lookup(n).X_at_exceedence(x, p)])


def q_edpp(n, x, y):
    return ('edpp %s %s %s' % (n, num(x), num(y)), lambda: [pyenv.slat.edp.lookup(n).function().P_exceedence(x, y)])


def q_edpl(n, x):
    return ('edpl %s %s' % (n, num(x)), lambda: [pyenv.slat.edp.lookup(n).getlambda(x)])


def q_frag(n, x):
    return ('frag %s %s' % (n, num(x)), lambda: list(pyenv.slat.fragfn.lookup(n).pExceeded(x)))


def q_fragh(n, x):
    return ('fragh %s %s' % (n, num(x)), lambda: list(pyenv.slat.fragfn.lookup(n).function().pHighest(x)))


def cg(n):
    return pyenv.slat.compgroup.lookup(n)


def q_cgec(n, x):
    return ('cgec %s %s' % (n, num(x)), lambda: [cg(n).E_Cost_EDP(x), cg(n).SD_ln_Cost_EDP(x)])


def q_cged(n, x):
    return ('cged %s %s' % (n, num(x)), lambda: [cg(n).E_Delay_EDP(x), cg(n).SD_ln_Delay_EDP(x)])


def q_cgic(n, x):
    return ('cgic %s %s' % (n, num(x)), lambda: [cg(n).E_Cost_IM(x), cg(n).SD_ln_Cost_IM(x)])


def q_cgid(n, x):
    return ('cgid %s %s' % (n, num(x)), lambda: [cg(n).E_Delay_IM(x), cg(n).SD_ln_Delay_IM(x)])


def q_cgd(n, x):
    return ('cgd %s %s' % (n, num(x)), lambda: list(cg(n).pDS_IM(x)))


def q_cgr(n):
    return ('cgr %s' % n, lambda: list(cg(n).Rate()))


def q_cga(n):
    return ('cga %s' % n, lambda: [cg(n).E_annual_cost()])


def q_cgl(n, x):
    return ('cgl %s %s' % (n, num(x)), lambda: [cg(n).lambda_cost(x)])


def q_cgfrag(n, frag, x):
    """The fragility function the group says it uses, and its number of states."""
    return ('frag %s %s' % (frag, num(x)), lambda: list(cg(n).fragfn().pExceeded(x))[:cg(n).size()])


def q_cgim(n, i, x):
    return ('im %s %s' % (i, num(x)), lambda: [getattr(cg(n).get_IM(), m)(x) for m in ('getlambda', 'pCollapse', 'pDemolition', 'pRepair')])


def q_edpim(n, i, x):
    return ('im %s %s' % (i, num(x)), lambda: [getattr(pyenv.slat.edp.lookup(n).get_IM(), m)(x) for m in ('getlambda', 'pCollapse', 'pDemolition', 'pRepair')])


def st(n):
    return pyenv.slat.structure.lookup(n)


def q_stim(n, i, x):
    return ('im %s %s' % (i, num(x)), lambda: [getattr(st(n).get_IM(), m)(x) for m in ('getlambda', 'pCollapse', 'pDemolition', 'pRepair')])


def fl(ds):
    return [v for d in ds for v in pyenv.five(d)]


def q_stc(n, x):
    return ('stc %s %s' % (n, num(x)), lambda: fl([st(n).Cost(x, True), st(n).Cost(x, False)]))


def q_stt(n, x):
    return ('stt %s %s' % (n, num(x)), lambda: fl([st(n).TotalCost(x)]))


def q_stf(n, x):
    return ('stf %s %s' % (n, num(x)), lambda: fl(st(n).CostsByFate(x)))


def q_std(n, x):
    return ('std %s %s' % (n, num(x)), lambda: fl(st(n).DeaggregatedCost(x)))


def q_sta(n):
    return ('sta %s' % n, lambda: fl([st(n).AnnualCost()]))


def q_stn(n, y, r):
    return ('stn %s %d %s' % (n, y, num(r)), lambda: [st(n).E_cost(y, r)])


def q_stp(n, x):
    return ('stp %s %s' % (n, num(x)), lambda: [st(n).pdf(x)])


def q_str(n):
    return ('str %s' % n, lambda: fl([st(n).getRebuildCost(), st(n).getDemolitionCost()]))


def grouped(kind, n, key):
    """The groups of a building as ComponentsByEDP / ComponentsByFragility returns them, by name."""
    S = pyenv.slat
    out = {}
    for c in (st(n).ComponentsByEDP() if kind == 'edp' else st(n).ComponentsByFragility()):
        names = [S.compgroup.lookup(g).id() for g in c]
        k = S.edp.lookup(c[0].get_EDP()).id() if kind == 'edp' else S.compgroup.lookup(c[0]).fragfn().id()
        if k in out:
            return {'twice': k}
        out[k] = sorted(names)
    return out


def want_groups(w, kind, n):
    out = {}
    for g in w.d['st'][n][0]:
        out.setdefault(w.d['cg'][g][0 if kind == 'edp' else 1], []).append(g)
    return {k: sorted(v) for k, v in out.items()}


def everything(w, xs=(0.3,), es=(0.05,), rates=True):
    """Every query on every named object of the model."""
    d, q = w.d, []
    for n in d['fn']:
        if n[0] == '@':     # without a name
            continue
        q += [q_fn(n, x) for x in xs]
    for n in d['pf']:
        q += [q_pf(n, x) for x in xs]
    for n in d['im']:
        q += [q_im(n, x) for x in xs] + ([q_imr(n)] if rates else [])
    for n, v in d['edp'].items():
        q += [q_edp(n, x) for x in xs] + ([q_edpl(n, e) for e in es] if rates else []) + [q_edpim(n, v[0], xs[0])]
    for n in d['frag']:
        q += [q_frag(n, e) for e in es]
    for n, v in d['cg'].items():
        q += [f(n, e) for e in es for f in (q_cgec, q_cged)] + [f(n, x) for x in xs for f in (q_cgic, q_cgid)] + [q_cgd(n, x) for x in xs] + ([q_cgr(n), q_cga(n), q_cgl(n, 0.1)] if rates else [])
        q += [q_cgfrag(n, v[1], es[0]), q_cgim(n, d['edp'][v[0]][0], xs[0])]
    for n, v in d['st'].items():
        q += [q_str(n)]
        if v[0]:
            q += [f(n, x) for x in xs for f in (q_stc, q_stt, q_stf, q_std, q_stp)] + ([q_sta(n), q_stn(n, 50, 0.05)] if rates else [])
            q += [q_stim(n, d['edp'][d['cg'][v[0][0]][0]][0], xs[0])]
    return q


def compare(ch, w, qs, what, settings=pyenv.SETTINGS, tol=1e-9):
    lines = w.lines()
    want = pyenv.ask(lines, [q[0] for q in qs], settings)
    for (line, f), r in zip(qs, want):
        if isinstance(r, str):          # the core itself refuses
            try:
                got = f()
            except Exception:
                ch.count('refused alike')
                continue
            ch.fail('%s: "%s" gives %s although the core refuses it (%s)' % (what, line, got, r[1:]))
        got = f()
        if not pyenv.same_list(got, r, tol):
            ch.fail('%s: "%s" gives %s through the Python objects; the same model built once gives %s' % (what, line, got, r))
        ch.count('compared')


# ---- statistics of the integration
STATS = ('search algorithm', 'tolerance', 'integration eval limit', 'search eval limit', 'max integration evals', 'integration failures', 'total integration evals',
         'max search evals', 'number search fails', 'total search evals', 'number of calls', 'successes', 'nans')
METHOD_NAMES = ('binary subdivision', 'reverse binary subdivision', 'low-first reverse binary subdivision', 'scattered', 'directed')


def read_statistics(text):
    """The thirteen numbers a report of the statistics gives."""
    d = {}
    for ln in text.split('\n'):
        k, s, v = ln.strip().lower().partition(':')
        if s and v.strip():
            d.setdefault(k.strip(), v.strip())
    return [float(METHOD_NAMES.index(d[STATS[0]]))] + [float(d[k]) for k in STATS[1:]]


def check_statistics(ch, text, model, steps, settings, what):
    """steps: the parts of what happened since the statistics were reset last, as the reference program takes them."""
    want = pyenv.ask(model + ('nop %s' % ' '.join(steps),), ['seq ' + ' ; '.join(steps)], settings)[0]
    got = read_statistics(text)
    ch.check(not isinstance(want, str) and all(abs(a - b) <= 1e-5 * abs(b) for a, b in zip(got, want)),
             lambda: '%s: the statistics are %s, should be %s' % (what, dict(zip(STATS, got)), want if isinstance(want, str) else dict(zip(STATS, want))))
    ch.count('statistics compared')
