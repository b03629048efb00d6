"""C22: the Python binding against the core."""
import itertools
import pyenv
from pymc import harness
from pyworld import *
from c19 import HAZ, DIST, FRAG, LOSS

MUS = ('mean', 'median', 'meanln')
SDS = ('sd', 'sdln')
ROUGH = ('directed', 0.05, 256, 256)
TAKEN = (('mean', 'sd'), ('mean', 'sdln'), ('median', 'sdln'), ('meanln', 'sdln'))   # the combinations a distribution can be given by


def refused(f):
    """Whether f raises an ordinary exception."""
    try:
        f()
    except Exception:
        return True
    return False


def raw(d):
    return [d.get_mean_X(), d.get_mu_lnX(), d.get_median_X(), d.get_sigma_lnX(), d.get_sigma_X()]


def equal(ch, got, line, model=(), what='', settings=pyenv.SETTINGS, tol=1e-9):
    want = pyenv.ask(model, [line], settings)[0]
    ch.check(not isinstance(want, str), lambda: '%s: the core refuses "%s": %s' % (what, line, want))
    ch.check(pyenv.same_list(list(got), want, tol), lambda: '%s: %s through Python, %s by the core (%s)' % (what, list(got), want, line))
    ch.count('compared')


# ---- distributions
@harness(1, 1, 'every way of giving a distribution with values from a grid, every query; ways that are not supported are refused', split=2)
def dists(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    m = ch.pick(MUS + ('wrong',), 'mu')
    s = ch.pick(SDS + ('wrong',), 'sigma')
    a = ch.pick((0.1, 1.0, 2.5, 30.0, 1, 0.0) + ((-1.0, -4, 0.5) if m == 'meanln' else ()))
    b = ch.pick((0.4, 1.0, 2, 0.05, 0.0) + ((3.5, 0.9) if ch.thorough else ()))
    layer = ch.pick((S, core), 'layer')
    make = lambda: layer.MakeLogNormalDist(a, 9 if m == 'wrong' else pyenv.mu(m), b, 9 if s == 'wrong' else pyenv.sd(s))
    ch.state((m, s, a, b))
    if (m, s) not in TAKEN:
        ch.check(refused(make), lambda: 'a distribution by %s and %s is not refused' % (m, s))
        ch.outcome('refused')
        return
    d = make()
    line = dist_line((m, a, s, b))
    equal(ch, raw(d), 'dist ' + line)
    w = S.lognormaldist(d)
    ch.check([w.mean(), w.mean_ln(), w.median(), w.sd_ln(), w.sd()] == raw(d) or a == 0, lambda: 'the attributes differ: %s' % w)
    for x in (0.0, 0.03, 0.5, 1.0, 4.0, 50.0):
        for p in (0.01, 0.16, 0.5, 0.84, 0.999):
            equal(ch, [d.p_at_least(x), d.p_at_most(x), d.x_at_p(p)], 'dp %s %s %s' % (line, num(x), num(p)))
    ch.outcome('%s %s' % (m, s))


@harness(3, 4, 'the sum of every list of distributions up to the bound, with repetitions', split=2)
def sums(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    few = (('mean', 2.0, 'sdln', 0.5), ('median', 7.0, 'sdln', 0.2), ('mean', 0.5, 'sd', 1.5), ('meanln', -1.0, 'sdln', 0.9), ('mean', 0.0, 'sdln', 0.5))
    n = ch.choose(B) + 1
    which = [ch.choose(len(few)) for _ in range(n)]
    shared = [S.MakeLogNormalDist(d[1], pyenv.mu(d[0]), d[3], pyenv.sd(d[2])) for d in few]
    form = ch.pick((list, tuple, core.VectorLogNormal))
    got = core.AddDistributions(form([shared[i] for i in which]))
    equal(ch, raw(got), 'dsum %d %s' % (n, ' '.join(dist_line(few[i]) for i in which)))
    for d, o in zip(few, shared):
        equal(ch, raw(o), 'dist ' + dist_line(d), what='a summand afterwards')
    ch.state(tuple(which))
    ch.outcome(str(sorted(which)))


# ---- functions
@harness(1, 1, 'both ways of making a function, with every type and every number of parameters: the value everywhere, or an error', split=2)
def functions(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    kinds = {'plc': core.PLC, 'nlh': core.NLH, 'lin': core.LIN, 'log': core.LOGLOG, 'low': -1, 'high': 4}
    k = ch.pick(tuple(kinds), 'type')
    layer = ch.pick((S, core), 'layer')
    where = (0.0, 0.01, 0.1, 0.3, 0.5, 0.77, 1.0, 2.0, 9.0)
    if ch.flag('two lists'):
        grid = (0.1, 0.5, 1.0, 2.0)
        nx = ch.choose(4)
        x = [ch.pick(grid) for _ in range(nx)]
        ny = ch.pick((nx, nx + 1, nx - 1 if nx else nx + 2))
        y = [(3.0, 0.7, 0.2, 0.5, 0.1)[i] for i in range(ny)]
        form = ch.pick((list, tuple, core.VectorDouble))
        make = lambda: layer.factory3(kinds[k], form(x), form(y))
        bad = k not in ('lin', 'log') or nx != ny or nx < 2 or any(b <= a for a, b in zip(x, x[1:]))
        line = 'fn f %s %d %s %s' % (k, nx, ' '.join(map(num, x)), ' '.join(map(num, y)))
    else:
        p = [ch.pick((0.3, 2, -1.5) if k != 'nlh' else (1221.0, 29.8, 62.2)) for _ in range(ch.choose(5))]
        form = ch.pick((list, tuple, core.VectorDouble))
        make = lambda: layer.factory2(kinds[k], form(p))
        bad = {'plc': 2, 'nlh': 3}.get(k) != len(p)
        line = 'fn f %s %s' % (k, ' '.join(map(num, p)))
    ch.state(line)
    if bad:
        ch.check(refused(make), lambda: 'not refused: ' + line)
        ch.outcome('refused')
        return
    f = make()
    for v in where:
        equal(ch, [f.ValueAt(v)], 'fn f %s' % num(v), (line,), line)
    g = core.factory2(core.PLC, [5.0, 0.25])
    f.replace(g)
    for v in where[1:4]:
        equal(ch, [g.ValueAt(v)], 'fn f %s' % num(v), ('fn f plc 5 0.25',), 'the replacement of ' + line)
    ch.outcome(k)


@harness(1, 1, 'every way of giving a probabilistic function over pairs of functions, every query, through the function and through a demand of that function alone, first or second of two', split=2)
def probfns(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    w = World()
    w.fn('a', 'plc', 0.1, 1.5)
    w.fn('b', 'lin', (0.0, 1.0, 4.0), (0.2, 0.5, 0.9))
    w.fn('c', 'log', (0.01, 0.2, 3.0), (0.5, 0.3, 0.7))
    w.fn('z', 'plc', 0.002, -1.8)
    m = ch.pick(MUS + ('wrong',))
    s = ch.pick(SDS + ('wrong',))
    f, g = ch.pick('abc'), ch.pick('abc')
    ch.state((m, s, f, g))
    if 'wrong' in (m, s):
        make = lambda: core.MakeLogNormalProbabilisticFn(S.detfn.lookup(f).function(), 9 if m == 'wrong' else pyenv.mu(m), S.detfn.lookup(g).function(), 9 if s == 'wrong' else pyenv.sd(s))
        ch.check(refused(make), lambda: 'a function by %s and %s is not refused' % (m, s))
        ch.outcome('refused')
        return
    w.pf('p', m, f, s, g)
    w.im('i', 'z')
    two = ch.choose(4, 'a second function')
    if two:
        w.pf('p2', 'median', 'b', 'sdln', 'c')
        w.edp('e', 'i', *[('p', 'p2'), ('p2', 'p'), ('p', 'p')][two - 1])
    else:
        w.edp('e', 'i', 'p')
    model = w.lines()
    p, e = S.probfn.lookup('p'), S.edp.lookup('e')
    if two == 1:      # made of two demands instead of two functions
        i = S.im.lookup('i').function()
        c = core.MakeCompoundEDP(i, core.MakeEDP(i, p.function(), 'x'), core.MakeEDP(i, S.probfn.lookup('p2').function(), 'y'), 'c')
        for x in (0.05, 0.3, 1.0, 2.5):
            equal(ch, [c.Mean(x), c.MeanLn(x), c.Median(x), c.SD_ln(x), c.SD(x)], 'edp e %s' % num(x), model)
    ch.check(e.function().get_Name() == 'e', 'the name of the demand is lost')
    for x in (1e-5, 0.05, 0.3, 1.0, 2.5, 400.0):
        for o, l in ((p, 'pf p'), (p.function(), 'pf p'), (e, 'edp e'), (e.function(), 'edp e')):
            equal(ch, [o.Mean(x), o.MeanLn(x), o.Median(x), o.SD_ln(x), o.SD(x)], '%s %s' % (l, num(x)), model)
        for q in (1e-6, 0.02, 0.16, 0.5, 0.84, 1 - 1e-6):
            equal(ch, [p.X_at_exceedence(x, q)], 'pfx p %s %s' % (num(x), num(q)), model)
            equal(ch, [e.X_at_exceedence(x, q)], 'edpx e %s %s' % (num(x), num(q)), model)
        for y in (1e-6, 0.01, 0.1, 0.6, 3.0, 500.0):
            equal(ch, [p.function().P_exceedence(x, y)], 'pfp p %s %s' % (num(x), num(y)), model)
            equal(ch, [e.function().P_exceedence(x, y)], 'edpp e %s %s' % (num(x), num(y)), model)
    for y in (0.03, 0.4):
        equal(ch, [e.getlambda(y)], 'edpl e %s' % num(y), model)
    ch.outcome('%s %s' % (m, s))


# ---- lists of arguments
def small(w):
    """A model with one of everything."""
    w.fn('f', *HAZ[0])
    w.fn('m', 'plc', 0.1, 1.5)
    w.fn('m2', 'plc', 1.2, 0.9)
    w.fn('s', 'plc', 0.5, 0.0)
    w.pf('p', 'mean', 'm', 'sdln', 's')
    w.pf('p2', 'median', 'm2', 'sdln', 's')
    w.im('i', 'f')
    w.edp('e', 'i', 'p')
    w.edp('a', 'i', 'p2')
    return w


BULK = {'im': (('getlambda', 'get_lambda', 0), ('pCollapse', 'pCollapse', 1), ('pDemolition', 'pDemolition', 2), ('pRepair', 'pRepair', 3)),
        'edp': (('Mean', 'bulk_Mean', 0), ('MeanLn', 'bulk_MeanLn', 1), ('Median', 'bulk_Median', 2), ('SD_ln', 'bulk_SD_ln', 3), ('SD', 'bulk_SD', 4)),
        'edpl': (('getlambda', 'get_lambda', 0),)}


@harness(3, 4, 'every query that takes a list, with every list of levels up to the bound, in any order and with repetitions: one value each, in order', split=2)
def lists(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    kind = ch.pick(('im', 'edp', 'edpl'))
    name, bulk, col = ch.pick(BULK[kind])
    coll = ch.pick(('none', 'collapse', 'both', 'demolition')) if kind == 'im' else 'both'
    w = small(World())
    if coll in ('collapse', 'both'):
        w.collapse('i', DIST['col'][0])
    if coll in ('demolition', 'both'):
        w.demolition('i', DIST['dem'][0])
    xs = [ch.pick((0.05, 0.3, 1, 2.5)) for _ in range(ch.choose(B + 1))]
    form = ch.pick(('list', 'tuple', 'array', 'vector', 'core list', 'numbers', 'integers'))
    o = S.im.lookup('i') if kind == 'im' else S.edp.lookup('e')
    ch.state((kind, name, coll, tuple(xs), form))
    want = [pyenv.ask(w.lines(), ['%s %s %s' % (kind, 'i' if kind == 'im' else 'e', num(x))])[0][col] for x in xs]
    try:
        import numpy
        if form == 'list':
            got = getattr(o, name)(list(xs))
            ch.check(type(got) == list, lambda: 'a %s is returned' % type(got))
        elif form == 'numbers':
            got = [getattr(o, name)(numpy.float64(x)) for x in xs]
        elif form == 'integers':
            got = getattr(o, name)([int(x) for x in xs])
            want = [pyenv.ask(w.lines(), ['%s %s %s' % (kind, 'i' if kind == 'im' else 'e', num(int(x)))])[0][col] for x in xs]
        elif form == 'core list':
            got = getattr(o.function(), bulk)(list(xs))
        else:
            v = tuple(xs) if form == 'tuple' else numpy.array(xs, dtype=float) if form == 'array' else core.VectorDouble(xs)
            try:
                got = getattr(o, name)(v)
            except TypeError:                       # only lists need be taken
                ch.outcome('refused ' + form)
                return
        if form == 'array' and isinstance(got, float):  # an array of one element counts as a number
            got = [got]
    except TypeError as e:
        ch.fail('%s of %s as %s: %s' % (name, xs, form, e))
    ch.check(pyenv.same_list(list(got), want), lambda: '%s of %s as %s gives %s instead of %s' % (name, xs, form, list(got), want))
    ch.check(len(xs) < 2 or xs[0] == xs[1] or want[0] != want[1] or name.startswith(('SD', 'p')) or form == 'integers', 'the levels tell nothing')
    ch.outcome('%s %s %s' % (kind, name, form))


# ---- component groups
@harness(1, 1, 'every component group over sets of demands, fragilities, losses, delays, quantities and factors, every query', split=3)
def groups(ch, B):
    pyenv.reset(ROUGH)
    S = pyenv.slat
    w = small(World())
    if ch.flag('collapse'):
        w.collapse('i', DIST['col'][0])
    fr = ch.choose(3, 'fragility')
    w.frag('g', *FRAG[fr])
    lo = ch.choose(4, 'loss')
    for n, v in (('c', lo), ('d', ch.choose(5, 'delay'))):
        if v == 2:
            w.bil(n, LOSS[2])
        elif v == 3:
            w.loss(n, 'mean', 'sd', ((0.4, 0.3), (1.5, 2.0)))
        elif v < 2:
            w.loss(n, *LOSS[v])
    w.cg('k', ch.pick('ea'), 'g', 'c', 'd' if 'd' in w.d['loss'] else None, ch.pick((1, 3, 7) if not ch.thorough else (1, 2, 3, 7, 40)), *ch.pick(((1, 1), (1.5, 0.5), (0.25, 3.0))))
    ch.state(w.lines())
    es = (0.02, 0.08, 0.4)
    xs = (0.1, 0.6, 1.5) if ch.thorough else (0.1, 0.9)
    qs = [q_frag('g', e) for e in es] + [q_fragh('g', e) for e in es] + [f('k', e) for e in es for f in (q_cgec, q_cged)]
    qs += [f('k', x) for x in xs for f in (q_cgic, q_cgid, q_cgd)] + [q_cgr('k'), q_cga('k'), q_cgl('k', 0.5), q_cgfrag('k', 'g', 0.08), q_cgim('k', 'i', 0.3)]
    compare(ch, w, qs, 'component group', ROUGH)
    k, g = S.compgroup.lookup('k'), S.fragfn.lookup('g')
    ch.check(k.id() == 'k' and k.function().get_Name() == 'k', 'the name is lost')
    ch.check(k.size() == g.size() == g.function().n_states() == len(w.d['frag']['g']), 'the number of states is wrong')
    ch.check(S.edp.lookup(k.function().get_EDP()) is S.edp.lookup(w.d['cg']['k'][0]), 'the demand is wrong')
    ch.outcome('%s %s' % (fr, lo))




# ---- buildings
@harness(3, 4, 'every building of up to the bound groups in any order, with every combination of collapse, demolition, rebuild and demolition cost, every query', split=3)
def buildings(ch, B):
    pyenv.reset(ROUGH)
    w = small(World())
    fate = ch.pick(('none', 'collapse', 'both', 'demolition'))
    if fate in ('collapse', 'both'):
        w.collapse('i', DIST['col'][0])
    if fate in ('demolition', 'both'):
        w.demolition('i', DIST['dem'][1])
    w.frag('g', *FRAG[0])
    w.frag('h', *FRAG[1])
    w.loss('c', *LOSS[0])
    w.bil('d', LOSS[2])
    w.cg('k1', 'e', 'g', 'c', 'd', 2)
    w.cg('k2', 'a', 'h', 'd', None, 1, 1.5, 1.0)
    w.cg('k3', 'e', 'h', 'c', None, 3)
    w.cg('k4', 'a', 'g', 'c', 'c', 1)
    names = ['k1', 'k2', 'k3', 'k4']
    order = []
    for _ in range(ch.choose(B) + 1):
        order.append(names.pop(ch.choose(len(names))))
    w.st('t', order)
    r = ch.choose(3, 'costs')
    if r > 0:
        w.rebuild('t', DIST['reb'][0])
    if r > 1:
        w.demo('t', DIST['demo'][1])
    ch.state((w.lines(), fate))
    x = ch.pick((0.05, 0.3, 1.0, 2.0))
    qs = [f('t', x) for f in (q_stc, q_stt, q_stf, q_std, q_stp)] + [q_stim('t', 'i', x)]
    if x == 0.3:
        qs += [q_sta('t')] + [q_stn('t', y, d) for y in (0, 1, 50) for d in (0.0, 0.05)] + ([q_str('t')] if r > 1 else [])
    compare(ch, w, qs, 'building', ROUGH)
    for k in ('edp', 'frag'):
        got, want = grouped(k, 't', None), want_groups(w, k, 't')
        ch.check(got == want, lambda: 'groups by %s: %s instead of %s' % (k, got, want))
    ch.outcome('%d groups, %s, %d' % (len(order), fate, r))


# ---- identity of what the binding hands out
@harness(1, 1, 'wrappers of the same object are the same, of different objects are not, whatever way they were obtained', split=1)
def identity(ch, B):
    pyenv.reset()
    S = pyenv.slat
    w = small(World())
    w.frag('g', *FRAG[0])
    w.frag('h', *FRAG[0])
    w.loss('c', *LOSS[0])
    for i, (e, g) in enumerate(itertools.product('ea', 'gh')):
        w.cg('k%d' % i, e, g, 'c', None, 1)
    w.st('t', ['k0', 'k1', 'k2', 'k3'])
    a, b = ch.choose(4), ch.choose(4)
    A, Bg = (S.compgroup.lookup('k%d' % i).function() for i in (a, b))
    ch.check(A.AreSame(Bg) == (a == b), 'groups %d and %d' % (a, b))
    ch.check(A.get_EDP().AreSame(Bg.get_EDP()) == (a // 2 == b // 2), 'demands of groups %d and %d' % (a, b))
    ch.check(A.get_EDP().AreSame(S.edp.lookup('ea'[b // 2]).function()) == (a // 2 == b // 2), 'demand of group %d and demand %s' % (a, 'ea'[b // 2]))
    f = [S.fragfn.lookup(n).function() for n in 'gh']
    ch.check(f[a % 2].AreSame(f[b % 2]) == (a % 2 == b % 2), 'fragilities')
    lists_ = S.structure.lookup('t').ComponentsByEDP() if ch.flag('by demand') else S.structure.lookup('t').ComponentsByFragility()
    flat = [c for l in lists_ for c in l]
    ch.check(sum(c.AreSame(A) for c in flat) == 1 and len(flat) == 4, 'the groups of the building')
    ch.state((a, b))
    ch.outcome(str(a == b))


# ---- settings
@harness(2, 3, 'every sequence of calls that set the integration, through either layer: the settings of the last calls hold for what follows', split=2)
def settings(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    now = list(pyenv.SETTINGS)
    M = {'binary': 'BINARY_SUBDIVISION', 'revbin': 'REVERSE_BINARY_SUBDIVISION', 'lowrev': 'LOW_FIRST_REVERSE_BINARY_SUBDIVISION', 'scattered': 'SCATTERED', 'directed': 'DIRECTED'}
    for _ in range(B):
        op = ch.pick(('both', 'tolerance', 'limit', 'search', 'method'))
        layer = ch.pick((S, core))
        if op == 'method':
            v = ch.pick(tuple(M) + ('wrong',))
            if v == 'wrong':
                ch.check(refused(lambda: layer.Set_Integration_Method(9)), 'an unknown method is not refused')
                continue
            layer.Set_Integration_Method(getattr(S.INTEGRATION_METHOD, M[v]))
            now[0] = v
        elif op == 'tolerance':
            now[1] = ch.pick((0.2, 1e-5))
            layer.Set_Integration_Tolerance(now[1])
        elif op == 'limit':
            now[2] = ch.pick((16, 128))
            layer.Set_Integration_Eval_Limit(now[2])
        elif op == 'search':
            now[3] = ch.pick((2, 64))
            layer.Set_Integration_Search_Limit(now[3])
        else:
            now[1:3] = ch.pick(((0.05, 32), (1e-4, 512)))
            layer.IntegrationSettings(now[1], now[2])
    ch.state(tuple(now))
    w = small(World())
    w.collapse('i', DIST['col'][0])
    compare(ch, w, [q_edpl('e', 0.05), q_edpl('a', 0.4), q_imr('i')], 'with settings %s' % now, tuple(now))
    ch.outcome(str(tuple(now)))


STEPS = ('edpl e 0.05', 'edpl e 0.4', 'edpl a 0.4', 'imr i', 'zero', 'set binary 0.01 512 128', 'set scattered 0.0001 20 64', 'read')


@harness(4, 5, 'every sequence of queries, settings, resets and readings of the statistics to the bound: each report counts what happened since the reset', split=2)
def statistics(ch, B):
    pyenv.reset()
    S, core = pyenv.slat, pyenv.core
    w = small(World())
    w.collapse('i', DIST['col'][0])
    core.reset_statistics()
    done = []
    lines = tuple(w.lines())
    for k in range(B + 1):
        st = ch.pick(STEPS) if k < B else 'read'
        if st == 'read':
            how = ch.pick((S.Format_Statistics, core.format_statistics)) if k < B else S.Format_Statistics
            check_statistics(ch, how(), lines, done, pyenv.SETTINGS, 'after %s' % done)
            continue
        done.append(st)
        a = st.split()
        if a[0] == 'zero':
            (S.Reset_Statistics if k % 2 else core.reset_statistics)()
        elif a[0] == 'set':
            S.Set_Integration_Method({'binary': S.INTEGRATION_METHOD.BINARY_SUBDIVISION, 'scattered': S.INTEGRATION_METHOD.SCATTERED}[a[1]])
            S.IntegrationSettings(float(a[2]), int(a[3]))
            S.Set_Integration_Search_Limit(int(a[4]))
        elif a[0] == 'imr':
            S.im.lookup('i').CollapseRate(), S.im.lookup('i').DemolitionRate()
        else:
            S.edp.lookup(a[1]).getlambda(float(a[2]))
    ch.state(tuple(done))
    ch.outcome(str(hash(tuple(done)) % 499))


# ---- ranges
@harness(1, 1, 'every range of levels over sets of limits and steps or counts: as many values as asked, equally spaced, from the first to the last', split=1)
def ranges(ch, B):
    pyenv.reset()
    import math
    S = pyenv.slat
    k = ch.pick(('step', 'linear', 'log'))
    a = ch.pick((0.01, 0.05, 0.1, 0.3, 1, 2.5, 1e-3) + ((0, -1.0) if k != 'log' else ()))
    if k == 'step':
        h = ch.pick((0.01, 0.1, 0.25, 1, 1 / 3.0, -0.1, -0.25))
        n = ch.pick((0, 1, 2, 3, 7, 29, 100, 199))
        got = list(S.frange(a, a + n * h, h))
        want = [a + i * h for i in range(n + 1)]
        ch.check(refused(lambda: list(S.frange(a, a + 1, 0))), 'a step of zero is not refused')
        ch.state((k, a, h, n))
    else:
        b = ch.pick((0.02, 0.1, 0.9, 1, 3.0, 10))
        n = ch.pick((2, 3, 10, 50, 199, 200))
        got = S.linrange(a, b, n) if k == 'linear' else S.logrange(a, b, n)
        want = [a + (b - a) * i / (n - 1.0) if k == 'linear' else a * (float(b) / a) ** (i / (n - 1.0)) for i in range(n)]
        ch.state((k, a, b, n))
    ch.check(len(got) == len(want), lambda: '%d values instead of %d' % (len(got), len(want)))
    top = max(map(abs, want))
    ch.check(all(abs(g - v) <= 1e-9 * top for g, v in zip(got, want)), lambda: '%s instead of %s' % (got[:5], want[:5]))
    ch.outcome('%s %d' % (k, len(want)))
