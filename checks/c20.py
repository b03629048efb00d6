"""C20: what recorders write, and where."""
import itertools
import math
import os
import pyenv
from pymc import harness
from pyworld import *

ROUGH = ('directed', 0.05, 256, 256)
FIVE = ('mean_x', 'mean_ln_x', 'median_x', 'sd_ln_x', 'sd_x')          # in the order the reference answers
MIXED = FIVE + (0.16, 0.84)
FATES = ('repair', 'demo', 'coll')


def model():
    pyenv.reset(ROUGH)
    w = World()
    w.fn('F', 'log', (0.01, 0.1, 0.5, 1.0, 3.0), (0.3, 0.1, 0.02, 0.004, 1e-5))
    w.fn('M', 'plc', 0.1, 1.5)
    w.fn('M2', 'plc', 1.2, 0.9)
    w.fn('S', 'plc', 0.5, 0.0)
    w.pf('P', 'mean', 'M', 'sdln', 'S')
    w.pf('P2', 'median', 'M2', 'sdln', 'S')
    w.im('IM', 'F')
    w.collapse('IM', ('mean', 1.2, 'sdln', 0.47))
    w.demolition('IM', ('mean', 0.9, 'sdln', 0.47))
    w.edp('E', 'IM', 'P')
    w.edp('A', 'IM', 'P2')
    w.frag('G', 'median', 'sdln', ((0.02, 0.4), (0.06, 0.4), (0.2, 0.3)))
    w.frag('B', 'median', 'sdln', ((0.4, 0.3), (0.8, 0.3)))
    w.loss('C', 'mean', 'sdln', ((0.3, 0.4), (1.0, 0.4), (2.0, 0.2)))
    w.loss('D', 'median', 'sdln', ((2.0, 0.3), (7.0, 0.6), (9.0, 0.5)))
    w.loss('H', 'mean', 'sdln', ((0.2, 0.4), (3.0, 0.4)))
    w.cg('K', 'E', 'G', 'C', 'D', 2)
    w.cg('K2', 'A', 'B', 'H', None, 1)
    w.cg('K3', 'A', 'B', 'H', None, 3)
    w.cg('K4', 'E', 'B', 'H', None, 1)
    w.st('T', ['K', 'K2', 'K3', 'K4'])
    w.rebuild('T', ('mean', 14.0, 'sdln', 0.35))
    w.demo('T', ('mean', 2.0, 'sdln', 0.5))
    return w


def cols5(q):
    """The asked columns out of five numbers at q."""
    return lambda cols: [(q, FIVE.index(c)) for c in cols]


GROUPS = {'by-edp': (('A', ('K2', 'K3')), ('E', ('K', 'K4'))), 'by-frag': (('B', ('K2', 'K3', 'K4')), ('G', ('K',)))}

# the numbers of one line: (query, position in its answer)
def cells(kind, cols, x, o=None, groups=None, frag='G', rate=0.05):
    n = num(x) if not isinstance(x, int) else str(x)
    o = o or KIND[kind][1]
    if kind == 'detfn':
        return [('fn %s %s' % (o, n), 0)]
    if kind == 'probfn':
        return [('pf %s %s' % (o, n), FIVE.index(c)) if c in FIVE else ('pfx %s %s %s' % (o, n, num(c)), 0) for c in cols]
    if kind == 'edpim':
        return [('edp %s %s' % (o, n), FIVE.index(c)) if c in FIVE else ('edpx %s %s %s' % (o, n, num(c)), 0) for c in cols]
    if kind == 'imrate':
        return [('im %s %s' % (o, n), 0)]
    if kind == 'collapse':
        return [('im %s %s' % (o, n), 2), ('im %s %s' % (o, n), 1)]
    if kind == 'edprate':
        return [('edpl %s %s' % (o, n), 0)]
    if kind in ('dsedp', 'dsim'):
        q = 'frag %s %s' % (frag, n) if kind == 'dsedp' else 'cgd %s %s' % (o, n)
        return [(q, c - 1) for c in cols] if cols else [(q, 'all')]
    if kind in ('costedp', 'costim', 'delayedp', 'delayim'):
        q = '%s %s %s' % ({'costedp': 'cgec', 'costim': 'cgic', 'delayedp': 'cged', 'delayim': 'cgid'}[kind], o, n)
        return [(q, ('mean_x', 'sd_ln_x').index(c)) for c in cols]
    if kind == 'costrate':
        return [('cgl %s %s' % (o, n), 0)]
    if kind == 'totalcost':
        return [('stt %s %s' % (o, n), FIVE.index(c)) for c in cols]
    if kind == 'deagg':
        return [('std %s %s' % (o, n), i) for i in (0, 3, 5, 8)]
    if kind in GROUPS:
        return [('cgsum %s %s' % (n, ' '.join(gs)), FIVE.index(c)) for _, gs in groups or GROUPS[kind] for c in cols]
    if kind == 'by-fate':
        return [('stf %s %s' % (o, n), 5 * f + FIVE.index(c)) for f in range(3) for c in cols]
    if kind == 'npv':
        return [('stn %s %d %s' % (o, x, num(rate)), 0)]
    if kind == 'pdf':
        return [('stp %s %s' % (o, n), 0)]
    raise KeyError(kind)


# kind: (class, name, columns understood, default columns, takes columns)
KIND = {
    'detfn': ('detfn', 'F', ()), 'probfn': ('probfn', 'P', MIXED, ('mean_ln_x', 'sd_ln_x')), 'imrate': ('im', 'IM', ()), 'collapse': ('im', 'IM', ()),
    'edpim': ('edp', 'E', MIXED, ('mean_ln_x', 'sd_ln_x')), 'edprate': ('edp', 'E', ()), 'dsedp': ('compgroup', 'K', (1, 2, 3), None),
    'dsim': ('compgroup', 'K', (1, 2, 3), None), 'costedp': ('compgroup', 'K', ('mean_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x')),
    'costim': ('compgroup', 'K', ('mean_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x')), 'delayedp': ('compgroup', 'K', ('mean_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x')),
    'delayim': ('compgroup', 'K', ('mean_x', 'sd_ln_x'), ('mean_x', 'sd_ln_x')), 'costrate': ('compgroup', 'K', ()),
    'totalcost': ('structure', 'T', FIVE, ('mean_x', 'sd_ln_x')), 'deagg': ('structure', 'T', ()), 'by-edp': ('structure', 'T', FIVE, ('mean_x',)),
    'by-frag': ('structure', 'T', FIVE, ('mean_x',)), 'by-fate': ('structure', 'T', FIVE, ('mean_x',)), 'npv': ('structure', 'T', ()), 'pdf': ('structure', 'T', ())}
KINDS20 = tuple(sorted(KIND))
LABELS = {'probfn': '{}', 'edpim': '{}', 'dsedp': 'DS{}', 'dsim': 'DS{}', 'costedp': '{}', 'costim': '{}', 'delayedp': '{}', 'delayim': '{}', 'totalcost': '{}'}


def labels(kind, cols, groups=None):
    """The headings of the requested columns, or None where the property does not say."""
    if kind in LABELS and cols:
        return [LABELS[kind].format(c) for c in cols]
    if kind in GROUPS and cols:
        return ['%s.%s' % (g, c) for g, _ in groups or GROUPS[kind] for c in cols]
    if kind == 'by-fate':
        return ['%s.%s' % (f, c) for f in FATES for c in cols]
    return None


def make(rid, kind, opts, cols, at):
    S = pyenv.slat
    cls, name = KIND[kind][:2]
    o, t = dict(opts), kind
    if kind in GROUPS or kind in ('by-fate', 'npv'):
        t, o['structcost-type'] = 'structcost', kind
        if kind == 'npv':
            o['discount-rate'] = 0.05
    with pyenv.captured():
        return S.MakeRecorder(rid, t, getattr(S, cls).lookup(name), o, None if cols is None else list(cols), at)


def want(lines, kind, cols, xs, settings=ROUGH, **names):
    """The numbers the recorder has to write, row by row."""
    rows = [cells(kind, cols, x, **names) for x in xs]
    qs = sorted({q for r in rows for q, _ in r})
    ans = dict(zip(qs, pyenv.ask(lines, qs, settings)))
    for q in qs:
        if isinstance(ans[q], str):
            raise RuntimeError('reference: %s: %s' % (q, ans[q]))
    return [[x] + [v for q, i in r for v in (ans[q] + [sum(ans[q])] if i == 'all' else [ans[q][i]])] for x, r in zip(xs, rows)]


def close(tok, v):
    """A number written with six digits."""
    try:
        g = float(tok)
    except ValueError:
        return False
    if math.isnan(v) or math.isinf(v):
        return repr(g) == repr(float(v))
    return abs(g - v) <= 6e-6 * abs(v) + 1e-12


def table(text):
    return [ln.split() for ln in text.split('\n') if ln.strip()]


def compare_text(ch, what, text, rows, labs):
    t = table(text)
    ch.check(len(t) == len(rows) + 1, lambda: '%s: %d lines for %d points:\n%s' % (what, len(t), len(rows), text))
    if labs is not None:
        # a heading as wide as its column leaves no space before it
        ch.check(''.join(t[0]).endswith(''.join(map(str, labs))), lambda: '%s: headings %s instead of %s' % (what, t[0], labs))
    for g, r in zip(t[1:], rows):
        ch.check(len(g) == len(r) and all(close(a, b) for a, b in zip(g, r)), lambda: '%s: line %s; the queries give %s' % (what, g, ['%.6g' % v for v in r]))
    ch.count('lines', len(rows))


def run_to_text(rec):
    with pyenv.captured() as b:
        rec.run()
    return b.getvalue()


def orders(cols, k):
    return [p for n in range(1, k + 1) for p in itertools.permutations(cols, n)]


@harness(3, 5, 'every ordered choice of columns up to the bound, and the default, for every kind of recorder that has columns', split=2)
def columns(ch, B):
    kind = ch.pick([k for k in KINDS20 if KIND[k][2]], 'recorder')
    cols = ch.pick([None] + orders(KIND[kind][2], B), 'columns')
    w = model()
    xs = [0.1, 0.4, 0.25]
    text = run_to_text(make(None, kind, {}, cols, list(xs)))
    c = cols if cols is not None else KIND[kind][3]
    compare_text(ch, '%s %s' % (kind, cols), text, want(w.lines(), kind, c, xs), labels(kind, c))
    ch.state((kind, cols))
    ch.outcome(kind)


def forms():
    import numpy as np
    return [('list', [0.1, 0.4], None), ('descending', [0.5, 0.3, 0.2], None), ('repeated', [0.3, 0.3, 0.1, 0.3], None), ('tuple', (0.2, 0.3), None),
            ('one', [0.25], None), ('none', [], None), ('integers', [1, 2], [1.0, 2.0]), ('range', range(1, 4), [1.0, 2.0, 3.0]),
            ('array', np.array([0.1, 0.2, 0.35]), [0.1, 0.2, 0.35]), ('integer array', np.array([1, 2]), [1.0, 2.0]), ('generator', (x / 10 for x in (2, 4)), [0.2, 0.4]),
            ('tiny', [1e-9, 123456.0], None), ('arange', np.arange(0.1, 0.45, 0.1), [float(v) for v in np.arange(0.1, 0.45, 0.1)]),
            ('iterator', iter([0.4, 0.2]), [0.4, 0.2]), ('mixed', [1, 0.5], [1.0, 0.5]), ('many digits', [0.123456789, 0.1234567], None)]


@harness(1, 1, 'every way of giving the points, for every kind of recorder: run three times', split=2)
def points(ch, B):
    kind = ch.pick(KINDS20, 'recorder')
    n = ch.choose(16)
    w = model()
    name, at, xs = forms()[n]
    ch.note('points: ' + name)
    if xs is None:
        xs = list(at)
    if kind == 'npv':
        at = {'integers': [1, 2], 'range': range(1, 4), 'repeated': [5, 5, 1], 'descending': [50, 10], 'none': [], 'one': [50], 'list': [1, 10, 50]}.get(name)
        if at is None:
            return
        xs = list(at)
    rec = make('R', kind, {}, None, at)
    c = KIND[kind][3] if len(KIND[kind]) > 3 else None
    for i in range(3):
        compare_text(ch, '%s at %s, run %d' % (kind, name, i + 1), run_to_text(rec), want(w.lines(), kind, c, xs), None)
    ch.state((kind, name))
    ch.outcome(name)


@harness(1, 1, 'recorders that take no points, the annual cost in every ordered choice of columns, and normalised densities', split=1)
def without_points(ch, B):
    w = model()
    S = pyenv.slat
    what = ch.pick(('dsrate', 'collrate', 'annual', 'pdf', 'refused'), 'recorder')
    if what == 'dsrate':
        with pyenv.captured():
            rec = S.MakeRecorder('R', 'dsrate', S.compgroup.lookup('K'), {}, None, None)
        t = table(run_to_text(rec))
        r = pyenv.ask(w.lines(), ['cgr K'], ROUGH)[0]
        ch.check(len(t) == 2 and t[0] == ['DS1', 'DS2', 'DS3'] and len(t[1]) == 3 and all(close(a, b) for a, b in zip(t[1], r)), lambda: 'dsrate wrote %s; the rates are %s' % (t, r))
    elif what == 'collrate':
        with pyenv.captured():
            rec = S.MakeRecorder('R', 'collrate', S.im.lookup('IM'), {}, None, None)
        t = table(run_to_text(rec))
        c, d = pyenv.ask(w.lines(), ['imr IM'], ROUGH)[0]
        ch.check(len(t) == 2 and len(t[1]) == 3 and t[1][0] == 'IM' and close(t[1][1], d) and close(t[1][2], c), lambda: 'collrate wrote %s; demolition %s, collapse %s' % (t, d, c))
    elif what == 'annual':
        cols = ch.pick([None, ()] + orders(FIVE, 3), 'columns')
        with pyenv.captured():
            rec = S.MakeRecorder('R', 'structcost', S.structure.lookup('T'), {'structcost-type': 'annual'}, cols and list(cols), None)
        t = table(run_to_text(rec))
        r = pyenv.ask(w.lines(), ['sta T'], ROUGH)[0]
        c = cols or ('mean_x',)
        ch.check(len(t) == 2 and t[0] == list(c) and len(t[1]) == len(c) and all(close(a, r[FIVE.index(k)]) for a, k in zip(t[1], c)), lambda: 'annual wrote %s; the cost is %s' % (t, r))
    elif what == 'pdf':
        xs = ch.pick(([0.1, 0.4, 0.8, 0.2], [0.3], [1e-9], [], [0.02, 0.4, 0.03], [3.5, 0.05], [2.0, 20.0, 1.0]), 'points')
        norm = ch.pick((None, True, False), 'normalise')
        rows = want(w.lines(), 'pdf', None, xs)
        top = max([r[1] for r in rows] + [0.0])
        if norm and top > 0:
            rows = [[x, v / top] for x, v in rows]
        compare_text(ch, 'pdf', run_to_text(make('R', 'pdf', {} if norm is None else {'normalise': norm}, None, list(xs))), rows, ['pdf'])
    else:
        kind = ch.pick(KINDS20, 'recorder')
        try:
            make('R', kind, {}, None, None)
        except (ValueError, TypeError):
            ch.check(S.recorder.lookup('R') is None, '%s without points is refused but registered' % kind)
            return
        ch.fail('%s without points is accepted' % kind)
    ch.state((what, tuple(ch.trace)))
    ch.outcome(what)


# ---- destinations
# (name, options): the recorders of the histories
DEST = (('detfn', [0.1, 0.2]), ('imrate', [0.3]), ('costim', [0.2, 0.5]))
PLACES = ('a', 'b.txt', None)


@harness(3, 5, 'every history of running recorders, redefining one, changing the output directory and leaving files behind, against a reference '
               'of what every file and the terminal have to hold', split=4)
def destinations(ch, B):
    w = model()
    S = pyenv.slat
    home = ch.scratch()
    place = [ch.pick(PLACES, 'destination of recorder %d' % i) for i in (0, 1)]
    mode = [ch.pick(({}, {'append': True}, {'append': False}), None) if place[i] else {} for i in (0, 1)]
    text = []
    for k, xs in DEST:
        text.append(run_to_text(make(None, k, {}, None, list(xs))))
    files, outdir = {}, None

    def put(i):
        r = which[i]
        if place[i] is None:
            return text[r]
        name = place[i] if '.' in place[i] else place[i] + '.csv'
        p = os.path.join(outdir or '.', name)
        if mode[i].get('append'):
            files[os.path.normpath(p)] = files.get(os.path.normpath(p), '') + text[r]
        else:
            files[os.path.normpath(p)] = text[r]
        return ''

    def opts(i):
        return dict(mode[i], filename=place[i]) if place[i] is not None else ({} if i == 0 else {'filename': None})
    if ch.flag('files from before'):
        for n in ('a.csv', 'b.txt'):
            with open(n, 'w') as f:
                f.write('left\n')
            files[n] = 'left\n'
    which = {0: 0, 1: 1}
    for i in (0, 1):
        make('R%d' % i, DEST[i][0], opts(i), None, list(DEST[i][1]))
    for step in range(B):
        a = ch.pick(('run first', 'run second', 'run all', 'redefine first', 'output directory', 'output directory again'), 'step')
        out = ''
        if a == 'run first' or a == 'run second':
            i = 0 if a == 'run first' else 1
            got = run_to_text(S.recorder.lookup('R%d' % i))
            out = put(i)
        elif a == 'run all':
            with pyenv.captured() as b:
                for r in S.recorder.all():
                    r.run()
            got = b.getvalue()
            out = put(0) + put(1)
        elif a == 'redefine first':
            which[0] = 2
            make('R0', DEST[2][0], opts(0), None, list(DEST[2][1]))
            got = ''
        else:
            outdir = 'res' if a == 'output directory' else 'res/deep'
            S.set_output_directory(outdir)
            got = ''
        ch.check(got == out, lambda: 'after "%s" the terminal shows\n%s\ninstead of\n%s' % (a, got, out))
        seen = {}
        for d, _, fs in os.walk(home):
            for n in fs:
                p = os.path.join(d, n)
                seen[os.path.relpath(p, home)] = open(p).read()
        ch.check(seen == files, lambda: 'after "%s" the files are %s instead of %s' % (a, seen, files))
        ch.state((tuple(place), repr(mode), outdir, tuple(sorted(which.items())), tuple(sorted((k, hash(v)) for k, v in files.items()))))
    ch.outcome(str(sorted(files)))


@harness(1, 1, 'names of files: with and without a directory and an extension, with and without an output directory', split=1)
def names(ch, B):
    model()
    S = pyenv.slat
    home = ch.scratch()
    os.mkdir('sub')
    outdir = ch.pick((None, 'res', 'res/x', os.path.join(home, 'abs')), 'output directory')
    if outdir:
        S.set_output_directory(outdir)
    n, dirpart = ch.pick((('f', ''), ('f.txt', ''), ('f.g.csv', ''), ('sub/f', 'sub'), ('sub/f.txt', 'sub'), ('./f', '.'), (os.path.join(home, 'f.x'), home), ('.5', '')), 'name')
    base = os.path.basename(n)
    p = n if dirpart else os.path.join(outdir or '.', n)
    if not os.path.splitext(base)[1]:
        p += '.csv'
    make('R', 'detfn', {'filename': n}, None, [0.1]).run()
    seen = [os.path.relpath(os.path.join(d, x), home) for d, _, fs in os.walk(home) for x in fs]
    ch.check(seen == [os.path.relpath(os.path.join(home, p), home)], lambda: 'file "%s" with output directory %s: wrote %s instead of %s' % (n, outdir, seen, p))
    ch.state((n, outdir))
    ch.outcome(p[-20:])
