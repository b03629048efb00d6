"""C19: redefinitions through the Python interface."""
import math

import pyenv
from pymc import harness
from pyworld import *

HAZ = {0: ('log', (0.01, 0.1, 0.5, 1.0, 3.0), (0.3, 0.1, 0.02, 0.004, 1e-5)),
       1: ('log', (0.01, 0.2, 0.6, 1.2, 3.0), (0.5, 0.2, 0.03, 0.002, 2e-5)),
       2: ('plc', 0.002, -1.8)}
DIST = {'col': (('mean', 1.2, 'sdln', 0.47), ('median', 0.9, 'sdln', 0.4)), 'dem': (('mean', 0.9, 'sdln', 0.47), ('median', 0.6, 'sdln', 0.3)),
        'reb': (('mean', 14.0, 'sdln', 0.35), ('mean', 9.0, 'sdln', 0.2)), 'demo': (('mean', 2.0, 'sdln', 0.5), ('median', 3.0, 'sdln', 0.3))}
FRAG = {0: ('median', 'sdln', ((0.02, 0.4), (0.06, 0.4))), 1: ('mean', 'sd', ((0.05, 0.02), (0.1, 0.03))), 2: ('meanln', 'sdln', ((-3.5, 0.3), (-2.0, 0.5)))}
FRAG3 = {1: ('median', 'sdln', ((0.02, 0.4), (0.06, 0.4), (0.1, 0.3))), 0: ('median', 'sdln', ((0.03, 0.4),))}
LOSS = {0: ('mean', 'sdln', ((0.3, 0.4), (1.0, 0.4))), 1: ('median', 'sdln', ((0.1, 0.3), (2.0, 0.6))), 2: ((1, 3, 0.8, 0.5, 0.2), (2, 4, 2.0, 1.5, 0.3))}


class Model:
    """The starting model, with the names its objects carry; 'same' gives every kind the same name."""

    def __init__(self, same):
        f = (lambda k: 'X') if same else (lambda k: k)
        self.F, self.P, self.A, self.E, self.G, self.C, self.K, self.T = [f(k) for k in ('F', 'P', 'A', 'E', 'G', 'C', 'K', 'T')]
        w = self.w = World()
        w.fn(self.F, *HAZ[0])
        w.fn('F2', *HAZ[1])
        w.fn('M', 'plc', 0.1, 1.5)
        w.fn('M2', 'plc', 0.09, 0.8)
        w.fn('S', 'plc', 0.5, 0.0)
        w.pf(self.P, 'mean', 'M', 'sdln', 'S')
        w.pf('P2', 'median', 'M2', 'sdln', 'S')
        w.im(self.A, self.F)
        w.im('A2', 'F2')
        w.demolition('A2', DIST['dem'][1])
        w.collapse(self.A, DIST['col'][0])
        w.demolition(self.A, DIST['dem'][0])
        w.edp(self.E, self.A, self.P)
        w.frag(self.G, *FRAG[0])
        w.loss(self.C, *LOSS[0])
        w.loss('D', *LOSS[1])
        w.cg(self.K, self.E, self.G, self.C, 'D', 2)
        w.cg('K2', self.E, self.G, 'D', None, 1)
        w.st(self.T, [self.K, 'K2'])
        w.rebuild(self.T, DIST['reb'][0])
        w.demo(self.T, DIST['demo'][0])
        self.v = {}

    def ver(self, k, n):
        """The next of n variants of k, never the current one."""
        self.v[k] = (self.v.get(k, 0) + 1) % n
        return self.v[k]

    def ops(self):
        w = self.w
        d = w.d
        o = [('detfn', lambda: w.fn(self.F, *HAZ[self.ver('F', 3)])),
             ('detfn mu', lambda: w.fn('M', 'plc', (0.1, 0.2, 0.15)[self.ver('M', 3)], 1.4)),
             ('detfn sigma', lambda: w.fn('S', *[('plc', 0.5, 0.0), ('lin', (0.01, 4.0), (0.3, 0.6))][self.ver('S', 2)])),
             ('probfn', lambda: w.pf(self.P, *[('mean', 'M', 'sdln', 'S'), ('median', 'M', 'sdln', 'S'), ('mean', 'M', 'sd', 'S')][self.ver('P', 3)])),
             ('im', lambda: w.im(self.A, ('F2', self.F)[self.ver('A', 2) - 1])),
             ('collapse', lambda: w.collapse(self.A, DIST['col'][self.ver('col', 2)])),
             ('demolition', lambda: w.demolition(self.A, DIST['dem'][self.ver('dem', 2)])),
             ('edp', lambda: w.edp(self.E, self.A, *[(self.P,), (self.P, 'P2'), ('P2', self.P)][self.ver('E', 3)])),
             ('edp elsewhere', lambda: w.edp(self.E, {self.A: 'A2', 'A2': self.A}[d['edp'][self.E][0]], *d['edp'][self.E][1:])),
             ('probfn 2', lambda: w.pf('P2', *[('median', 'M2', 'sdln', 'S'), ('mean', 'M', 'sdln', 'S')][self.ver('P2', 2)])),
             ('fragfn', lambda: w.frag(self.G, *FRAG[self.ver('G', 3)])),
             ('fragfn larger', lambda: w.frag(self.G, *FRAG3[self.ver('G3', 2)])),
             ('lossfn', lambda: w.bil(self.C, LOSS[2]) if self.ver('C', 3) == 2 else w.loss(self.C, *LOSS[self.v['C']])),
             ('delay', lambda: w.loss('D', *LOSS[self.ver('D', 2)])),
             ('compgroup', lambda: w.cg(self.K, *[(self.E, self.G, self.C, 'D', 2), (self.E, self.G, 'D', self.C, 3), (self.E, self.G, self.C, None, 1, 1.5, 0.5)][self.ver('K', 3)])),
             ('compgroup 2', lambda: w.cg('K2', self.E, self.G, 'D', (None, self.C)[self.ver('K2', 2)], (1, 4)[self.v['K2']])),
             ('structure', lambda: w.st(self.T, [[self.K], [self.K, 'K2']][self.ver('T', 2)])),
             ('rebuildcost', lambda: w.rebuild(self.T, DIST['reb'][self.ver('reb', 2)])),
             ('demolitioncost', lambda: w.demo(self.T, DIST['demo'][self.ver('demo', 2)]))]
        gs = d['st'][self.T][0]
        if 'K2' in gs:
            o.append(('remove', lambda: w.rem(self.T, 'K2')))
        else:
            o.append(('add', lambda: w.add(self.T, 'K2')))
        return o


NOPS = 20
ROUGH = ('directed', 0.05, 256, 256)        # both sides integrate alike, so the precision does not matter here


@harness(3, 4, 'after any sequence of definitions and redefinitions to the bound, with every query asked at every position or only '
               'at the end, every result equals that of a model built once from the last definitions', split=3)
def edits(ch, B):
    pyenv.reset(ROUGH)
    first = ch.choose(NOPS)
    second = ch.choose(NOPS)
    samename = ch.flag('all kinds share one name')
    warm = ch.flag('queries at every position')
    if samename and not ch.thorough:
        B = min(B, 2)
    m = Model(samename)
    for i in range(B):
        if warm:
            compare(ch, m.w, everything(m.w), 'before step %d' % (i + 1), ROUGH)
        ops = m.ops()
        name, f = ops[first if i == 0 else second if i == 1 else ch.choose(NOPS)]
        ch.note(name)
        ch.state((m.w.lines(), name))
        f()
    compare(ch, m.w, everything(m.w), 'after the redefinitions', ROUGH)
    for k in ('edp', 'frag'):
        if m.w.d['st'][m.T][0]:
            got, want = grouped(k, m.T, None), want_groups(m.w, k, m.T)
            ch.check(got == want, lambda: 'groups by %s: %s instead of %s' % (k, got, want))
    ch.state(m.w.lines())
    ch.outcome(str(hash(m.w.lines()) % 997))


def parse(text):
    return [ln.split() for ln in text.split('\n') if ln.strip()]


def close(tok, v):
    """A number written with six digits."""
    try:
        g = float(tok)
    except ValueError:
        return False
    if math.isnan(v) or math.isinf(v):
        return repr(g) == repr(float(v))
    return abs(g - v) <= 6e-6 * abs(v) + 1e-12


RECS = ('collapse', 'costedp', 'costim', 'costrate', 'deagg', 'delayedp', 'delayim', 'detfn', 'dsedp', 'dsim', 'edpim', 'edprate', 'imrate', 'probfn', 'totalcost')


def record(m, kind, x):
    """(object, query line for the reference, function choosing the recorded columns out of its answer)."""
    S = pyenv.slat
    if kind == 'detfn':
        return S.detfn.lookup(m.F), 'fn %s %s' % (m.F, x), lambda r: r
    if kind == 'probfn':
        return S.probfn.lookup(m.P), 'pf %s %s' % (m.P, x), lambda r: [r[1], r[3]]
    if kind == 'imrate':
        return S.im.lookup(m.A), 'im %s %s' % (m.A, x), lambda r: r[:1]
    if kind == 'collapse':
        return S.im.lookup(m.A), 'im %s %s' % (m.A, x), lambda r: [r[2], r[1]]
    if kind == 'edpim':
        return S.edp.lookup(m.E), 'edp %s %s' % (m.E, x), lambda r: [r[1], r[3]]
    if kind == 'edprate':
        return S.edp.lookup(m.E), 'edpl %s %s' % (m.E, x), lambda r: r
    cg = S.compgroup.lookup(m.K)
    if kind == 'dsedp':
        return cg, 'frag %s %s' % (m.G, x), lambda r: r + [sum(r)]
    if kind == 'dsim':
        return cg, 'cgd %s %s' % (m.K, x), lambda r: r + [sum(r)]
    if kind == 'costedp':
        return cg, 'cgec %s %s' % (m.K, x), lambda r: r
    if kind == 'delayedp':
        return cg, 'cged %s %s' % (m.K, x), lambda r: r
    if kind == 'costim':
        return cg, 'cgic %s %s' % (m.K, x), lambda r: r
    if kind == 'delayim':
        return cg, 'cgid %s %s' % (m.K, x), lambda r: r
    if kind == 'costrate':
        return cg, 'cgl %s %s' % (m.K, x), lambda r: r
    st = S.structure.lookup(m.T)
    if kind == 'totalcost':
        return st, 'stt %s %s' % (m.T, x), lambda r: [r[0], r[3]]
    if kind == 'deagg':
        return st, 'std %s %s' % (m.T, x), lambda r: [r[0], r[3], r[5], r[8]]
    raise KeyError(kind)


@harness(2, 3, 'a recorder defined before redefinitions of anything, including what it records, reports the latest definitions when it is run', split=2)
def recorders(ch, B):
    pyenv.reset()
    kind = ch.pick(RECS, 'recorder')
    first = ch.choose(NOPS)
    early = ch.flag('run once before')
    ch.scratch()
    m = Model(False)
    xs = [0.1, 0.4]
    obj, line, cols = record(m, kind, '%s')
    with pyenv.captured():
        rec = pyenv.slat.MakeRecorder('R', kind, obj, {'filename': 'out.csv'}, None, list(xs))
    if early:
        rec.run()
    for i in range(B):
        name, f = m.ops()[first if i == 0 else ch.choose(NOPS)]
        ch.note(name)
        f()
    if kind in ('totalcost', 'deagg') and not m.w.d['st'][m.T][0]:
        return
    want = pyenv.ask(m.w.lines(), [line % num(x) for x in xs])
    if any(isinstance(r, str) for r in want):
        try:
            pyenv.slat.recorder.lookup('R').run()
        except Exception:
            return
        ch.fail('recorder %s ran although the core refuses its queries: %s' % (kind, want))
    pyenv.slat.recorder.lookup('R').run()
    got = parse(open('out.csv').read())[1:]
    for x, g, r in zip(xs, got, want):
        e = [x] + [float(v) for v in cols(r)]
        ch.check(len(g) == len(e) and all(close(a, b) for a, b in zip(g, e)), lambda: 'recorder %s at %s wrote %s; the latest definitions give %s' % (kind, x, g, e))
    ch.check(len(got) == len(xs), lambda: 'recorder %s wrote %d lines' % (kind, len(got)))
    ch.state((kind, m.w.lines()))
    ch.outcome(kind)


@harness(3, 4, 'an object asked for by its name is the latest definition of that name and kind and of no other kind; names defined for one kind are not defined for another', split=2)
def names(ch, B):
    """Definitions of two names over all kinds, in any order that the language allows."""
    pyenv.reset()
    S = pyenv.slat
    w = World()
    w.fn('f', *HAZ[0])
    w.fn('s', 'plc', 0.5, 0.0)
    w.pf('p', 'mean', 'f', 'sdln', 's')
    w.im('i', 'f')
    w.edp('e', 'i', 'p')
    w.frag('g', *FRAG[0])
    w.loss('l', *LOSS[0])
    w.cg('c', 'e', 'g', 'l', None, 1)
    cls = {'fn': S.detfn, 'pf': S.probfn, 'im': S.im, 'edp': S.edp, 'frag': S.fragfn, 'loss': S.lossfn, 'cg': S.compgroup, 'st': S.structure}
    make = {'fn': lambda n, k: w.fn(n, 'plc', 0.1 * k, 1.5), 'pf': lambda n, k: w.pf(n, 'median', 'f', 'sdln', 's'), 'im': lambda n, k: w.im(n, 'f'),
            'edp': lambda n, k: w.edp(n, 'i', 'p'), 'frag': lambda n, k: w.frag(n, *FRAG[k % 3]), 'loss': lambda n, k: w.loss(n, *LOSS[k % 2]),
            'cg': lambda n, k: w.cg(n, 'e', 'g', 'l', None, k), 'st': lambda n, k: w.st(n, ['c'] if k % 2 else [])}
    last = {}
    for i in range(B):
        k = ch.pick(KINDS, 'define')
        n = ch.pick(('A', 'B'))
        last[(k, n)] = make[k](n, i + 1)
        for kk in KINDS:
            for nn in ('A', 'B'):
                ch.check(cls[kk].lookup(nn) is last.get((kk, nn)), lambda: '%s %s denotes %s' % (kk, nn, cls[kk].lookup(nn)))
        ch.state(tuple(sorted((a, b) for a, b in last)))
    compare(ch, w, everything(w, rates=False), 'definitions under shared names')
    ch.outcome(str(sorted(last)))
    S.ClearCaches()
    for kk in KINDS:
        ch.check(cls[kk].lookup('A') is None and cls[kk].lookup('f') is None, 'names survive clearing')
