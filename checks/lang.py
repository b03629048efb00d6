"""A second reading of the SLAT language: turns a script into the model, the output and the refusals it
has to produce, without the interpreter under test.  It is written from the language's description and
grammar as they are in the repository, with its own scanner and recursive-descent parser."""
import math
import os
import re
from pyworld import World


class Reject(Exception):
    """The script is not one the language allows, or refers to something that is not there."""


class Open(Exception):
    """The description does not say what the script means."""


KEYWORDS = set('''log inputdir outputdir title print detfn probfn collapse demolition collrate im edp fragfn lossfn compgroup structure rebuildcost
demolitioncost imrate edpim edprate dsedp dsim lossds costedp delayim delayedp costim structcost dsrate anncost costrate totalcost pdf deagg
mean_ln_x median_x mean_x sd_ln_x sd_x maq binary revbin lowrev scattered directed hyperbolic powerlaw loglog linear lognormal simple bilevel cost disp
upper_cost lower_cost lower_n upper_n mean_uncert var_uncert message integration recorder analyze set importprobfn importimfn intstats reset'''.split())
FLAGS = sorted('''--stderr --nostderr --append --new --by-fate --by-edp --by-frag --annual --npv --linear --log --db --stdfunc --mu --sd --lambda
--normalise --cols'''.split(), key=len, reverse=True)
SKIP = re.compile(r'(?:[ \t\r\n]|#[^\r\n]*)+')
RULES = [('flag', re.compile('|'.join(FLAGS))), ('punct', re.compile(r'[{}\[\]();:,+*$-]')),
         ('string', re.compile(r"'(?:[^\\']|\\[\s\S])*'")), ('string', re.compile(r'"(?:[^\\"]|\\["\\])*"')),
         ('int', re.compile(r'[0-9]+')), ('float', re.compile(r'[-+]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][-+]?[0-9]+)?')),
         ('id', re.compile(r'[A-Za-z_.][A-Za-z_.0-9]*')), ('file', re.compile(r'[/A-Za-z_.0-9]+'))]


def scan(text):
    out, i = [], 0
    while i < len(text):
        m = SKIP.match(text, i)
        if m:
            i = m.end()
            continue
        if text.startswith('$(', i):
            depth, j = 1, i + 2
            while j < len(text) and depth:
                depth += {'(': 1, ')': -1}.get(text[j], 0)
                j += 1
            if depth:
                raise Reject('unfinished expression')
            out.append(('py', text[i + 2:j - 1]))
            i = j
            continue
        best, kind = 0, None
        for k, r in RULES:
            m = r.match(text, i)
            if m and m.end() - i > best:
                best, kind = m.end() - i, k
        if not best:
            raise Reject('character %r' % text[i])
        w = text[i:i + best]
        out.append(('key', w) if kind == 'id' and w in KEYWORDS else (kind, w))
        i += best
    return out


def unquote(s):
    return re.sub(r'\\([\\\'"])', r'\1', s[1:-1])


class Parser:
    """Commands as tuples; nothing is looked up or computed here."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '')

    def next(self):
        v = self.peek()
        self.i += 1
        return v

    def kind(self, *ks):
        if self.peek()[0] not in ks:
            raise Reject('%s instead of %s' % (self.peek(), ks))
        return self.next()[1]

    def word(self, *ws):
        if self.peek()[0] not in ('key', 'flag', 'punct') or self.peek()[1] not in ws:
            raise Reject('%s instead of %s' % (self.peek(), ws))
        return self.next()[1]

    def at(self, *ws):
        return self.peek()[0] in ('key', 'flag', 'punct') and self.peek()[1] in ws

    def script(self):
        out = []
        while self.peek()[0] != 'end':
            out.append(self.command())
            self.word(';')
        return out

    # ---- parts
    def var(self):
        self.word('$')
        return ('var', self.kind('id'))

    def number(self):
        k, v = self.peek()
        if k == 'int':
            self.next()
            return ('num', int(v))
        if k == 'float':
            self.next()
            return ('num', float(v))
        if k == 'py':
            self.next()
            return ('py', v)
        return self.var()

    def scalar(self):
        if self.peek()[0] == 'string':
            return ('str', unquote(self.next()[1]))
        return self.number()

    def scalars(self, n):
        out = [self.scalar()]
        for _ in range(n - 1):
            self.word(',')
            out.append(self.scalar())
        return out

    def integer(self):
        k, v = self.peek()
        if k == 'int':
            self.next()
            return ('num', int(v))
        if k == 'py':
            self.next()
            return ('py', v)
        return self.var()

    def pairs(self):
        out = []
        while True:
            self.word('[')
            out.append(self.scalars(2))
            self.word(']')
            if not self.at(','):
                return out
            self.next()

    def options(self):
        mu = sd = None
        for _ in range(2):
            if self.at('--mu') and mu is None:
                self.next()
                mu = self.word('mean_ln_x', 'median_x', 'mean_x')
            elif self.at('--sd') and sd is None:
                self.next()
                sd = self.word('sd_ln_x', 'sd_x')
        return mu, sd

    def file(self):
        return self.kind('file', 'id')

    def output(self):
        """Destination, or None."""
        if self.peek()[0] not in ('file', 'id'):
            return None
        f = self.file()
        mode = self.next()[1] if self.at('--append', '--new') else '--new'
        return f, mode == '--append'

    def parameters(self):
        if self.at('['):
            self.next()
            out = [self.parameter()]
            while self.at(','):
                self.next()
                out.append(self.parameter())
            self.word(']')
            return out
        if self.at('('):
            self.next()
            out = {}
            while True:
                k = self.peek()[0]
                key = unquote(self.next()[1]) if k == 'string' else self.kind('id')
                self.word(':')
                out[key] = self.parameters()
                if not self.at(','):
                    break
                self.next()
            self.word(')')
            return out
        return self.parameter()

    def parameter(self):
        k, v = self.peek()
        if k not in ('id', 'string', 'int', 'float'):
            raise Reject('%s is no value' % v)
        self.next()
        return {'id': str, 'string': unquote, 'int': int, 'float': float}[k](v)

    # ---- commands
    def command(self):
        k, w = self.next()
        if k != 'key':
            raise Reject('%s starts no command' % w)
        f = getattr(self, 'c_' + w, None)
        if f is None:
            raise Reject('%s starts no command' % w)
        return (w,) + f()

    def c_log(self):
        flag = self.next()[1] if self.at('--stderr', '--nostderr') else None
        return flag, self.file() if self.peek()[0] in ('file', 'id') else None

    def c_intstats(self):
        return self.word('print', 'reset'),

    def c_title(self):
        return unquote(self.kind('string')),

    def c_inputdir(self):
        return self.file(),

    c_outputdir = c_inputdir

    def c_detfn(self):
        n = self.kind('id')
        k = self.word('hyperbolic', 'powerlaw', 'loglog', 'linear')
        return n, k, self.scalars(3) if k == 'hyperbolic' else self.scalars(2) if k == 'powerlaw' else self.pairs()

    def ref(self):
        return ('str', self.next()[1]) if self.peek()[0] == 'id' else self.var()

    def c_probfn(self):
        n = self.kind('id')
        self.word('lognormal')
        a = self.ref()
        self.word(',')
        return n, a, self.ref(), self.options()

    def c_im(self):
        return self.kind('id'), self.kind('id')

    def c_edp(self):
        return self.kind('id'), self.kind('id'), self.kind('id')

    def c_collapse(self):
        return self.kind('id'), self.scalars(2), self.options()

    c_demolition = c_rebuildcost = c_demolitioncost = c_collapse

    def c_fragfn(self):
        n = self.kind('id')
        if self.at('--db', '--stdfunc'):
            db = False
            if self.at('--db'):
                self.next()
                self.file()
                db = True
            self.word('--stdfunc')
            self.kind('id')
            if not db and self.at('--db'):
                self.next()
                self.file()
            return n, None, None
        return n, self.pairs(), self.options()

    def c_lossfn(self):
        n = self.kind('id')
        if self.word('simple', 'bilevel') == 'simple':
            return n, 'simple', self.pairs(), self.options()
        out = []
        while True:
            self.word('[')
            row = [self.number()]
            for _ in range(4):
                self.word(',')
                row.append(self.number())
            self.word(']')
            out.append(row)
            if not self.at(','):
                return n, 'bilevel', out, None
            self.next()

    def c_compgroup(self):
        ids = [self.kind('id') for _ in range(4)]
        ids.append(self.next()[1] if self.peek()[0] == 'id' else None)
        count = int(self.kind('int'))
        adj = []
        while self.peek()[0] == 'float' and len(adj) < 2:
            adj.append(float(self.next()[1]))
        return ids, count, (adj + [1.0, 1.0])[:1][0], (adj + [1.0, 1.0])[1] if len(adj) > 1 else 1.0

    def c_structure(self):
        n = self.kind('id')
        gs = [self.kind('id')]
        while self.at(','):
            self.next()
            gs.append(self.kind('id'))
        return n, gs

    def c_print(self):
        w = self.word('message', 'title', 'detfn', 'probfn', 'im', 'edp', 'fragfn', 'lossfn', 'compgroup')
        what = None
        if w == 'message':
            if self.peek()[0] == 'string':
                what = ('str', unquote(self.next()[1]))
            elif self.peek()[0] == 'py':
                what = ('py', self.next()[1])
            elif self.at('$'):
                what = self.var()
        elif w != 'title':
            what = self.kind('id')
        return w, what, self.output()

    def c_integration(self):
        self.word('maq')
        tol, evals = self.number(), self.integer()
        method = limit = None
        if self.at('binary', 'revbin', 'lowrev', 'scattered', 'directed'):
            method = self.next()[1]
            limit = self.integer()
        return tol, evals, method, limit

    def floats(self):
        """Points of a recorder."""
        k, v = self.peek()
        if k == 'py':
            return ('py', self.next()[1])
        if k != 'float':
            return self.var()
        a = float(self.next()[1])
        if self.at(':'):
            self.next()
            b = float(self.kind('float'))
            if self.at(':'):
                self.next()
                return ('range', a, b, float(self.kind('float')))
            how = self.word('--linear', '--log')
            return ('counted', a, b, how, int(self.kind('int')))
        out = [a]
        while self.at(','):
            self.next()
            out.append(float(self.kind('float')))
        return ('list', out)

    def cols(self):
        if not self.at('--cols'):
            return None
        self.next()
        out = []
        while True:
            if self.at('mean_ln_x', 'median_x', 'mean_x', 'sd_ln_x', 'sd_x'):
                out.append(('str', self.next()[1]))
            else:
                out.append(self.scalar())
            if not self.at(','):
                return out
            self.next()

    def c_recorder(self):
        rid = self.kind('id')
        k, w = self.next()
        if k != 'key':
            raise Reject('%s is no recorder' % w)
        at = cols = extra = None
        o = None
        if w in ('dsrate', 'collrate'):
            o = self.kind('id')
        elif w in ('detfn', 'probfn', 'imrate', 'edpim', 'edprate', 'dsedp', 'dsim', 'lossds', 'costedp', 'costim', 'delayim', 'delayedp'):
            o, at = self.kind('id'), self.floats()
            cols = self.cols()
        elif w in ('costrate', 'collapse', 'deagg', 'totalcost'):
            o, at = self.kind('id'), self.floats()
        elif w == 'pdf':
            o, at = self.kind('id'), self.floats()
            if self.at('--normalise'):
                self.next()
                extra = True
        elif w == 'structcost':
            o = self.kind('id')
            if self.at('--npv'):
                self.next()
                a = int(self.kind('int'))
                self.word(':')
                b = int(self.kind('int'))
                self.word(':')
                c = int(self.kind('int'))
                at, extra, w = ('years', a, b, c), float(self.kind('float')), 'npv'
            elif self.at('--annual'):
                self.next()
                extra, w = self.options(), 'annual'
                cols = self.cols()
            else:
                w = self.word('--by-fate', '--by-edp', '--by-frag')[2:]
                at = self.floats()
                cols = self.cols()
        else:
            raise Reject('%s is no recorder' % w)
        return rid, w, o, at, cols, extra, self.output()

    def c_analyze(self):
        return ()

    def c_set(self):
        n = self.kind('id')
        if self.peek()[0] == 'py':
            return n, ('py', self.next()[1])
        if self.at('$'):
            return n, self.var()
        return n, ('val', self.parameters())

    def c_importprobfn(self):
        return self.kind('id'), self.file()

    c_importimfn = c_importprobfn


MU = {None: 'meanln', 'mean_ln_x': 'meanln', 'median_x': 'median', 'mean_x': 'mean'}
SD = {None: 'sdln', 'sd_ln_x': 'sdln', 'sd_x': 'sd'}
FN = {'hyperbolic': 'nlh', 'powerlaw': 'plc', 'linear': 'lin', 'loglog': 'log'}
FIVE = ('mean_x', 'mean_ln_x', 'median_x', 'sd_ln_x', 'sd_x')
PLACES = {'detfn': 'fn', 'probfn': 'pf', 'imrate': 'im', 'collapse': 'im', 'collrate': 'im', 'edpim': 'edp', 'edprate': 'edp', 'dsrate': 'cg', 'dsedp': 'cg', 'dsim': 'cg',
          'lossds': 'cg', 'costedp': 'cg', 'costim': 'cg', 'delayim': 'cg', 'delayedp': 'cg', 'costrate': 'cg'}
KINDNAME = {'detfn': 'fn', 'probfn': 'pf', 'im': 'im', 'edp': 'edp', 'fragfn': 'frag', 'lossfn': 'loss', 'compgroup': 'cg'}


def plain(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


class Reference:
    """Runs parsed commands against definitions only; collects what has to be written where."""

    def __init__(self, world=None, settings=None):
        self.w = world or World()
        self.vars, self.titles, self.recs = {}, [], {}
        self.settings = settings
        self.indir = self.outdir = None
        self.files = {}                     # path -> list of pieces
        self.out = []                       # pieces on the terminal
        self.anon = 0

    def run(self, text):
        cmds = Parser(scan(text)).script()          # nothing is done unless all of it can be read
        for c in cmds:
            getattr(self, 'x_' + c[0])(*c[1:])

    # ---- values
    def value(self, v):
        k, x = v
        if k == 'py':
            import numpy
            try:
                return eval(x, {'__builtins__': {}}, {'math': math, 'numpy': numpy, 'list': list, 'map': map})
            except Exception as e:
                raise Reject('expression: %s' % e)
        if k == 'var':
            if x not in self.vars:
                raise Reject('undefined variable ' + x)
            return self.vars[x]
        return x

    def num(self, v):
        x = self.value(v)
        if not plain(x):
            raise Open('%r as a number' % (x,))
        return float(x)

    def need(self, kind, n):
        if n not in self.w.d[kind]:
            raise Reject('undefined %s %s' % (kind, n))
        return n

    def dist(self, pair, opts):
        return (MU[opts[0]], self.num(pair[0]), SD[opts[1]], self.num(pair[1]))

    # ---- definitions
    def x_detfn(self, n, k, args):
        if k in ('hyperbolic', 'powerlaw'):
            self.w.d['fn'][n] = (FN[k],) + tuple(self.num(a) for a in args)
        else:
            ps = [(self.num(a), self.num(b)) for a, b in args]
            self.w.d['fn'][n] = (FN[k], tuple(p[0] for p in ps), tuple(p[1] for p in ps))

    def x_probfn(self, n, f, g, o):
        f, g = self.value(f), self.value(g)
        for x in (g, f):
            if not isinstance(x, str):
                raise Open('%r as a name' % (x,))
        self.w.d['pf'][n] = (MU[o[0]], self.need('fn', f), SD[o[1]], self.need('fn', g))

    def x_im(self, n, f):
        self.w.d['im'][n] = [self.need('fn', f), None, None]

    def x_collapse(self, n, p, o):
        self.w.d['im'][self.need('im', n)][1] = self.dist(p, o)

    def x_demolition(self, n, p, o):
        self.w.d['im'][self.need('im', n)][2] = self.dist(p, o)

    def x_edp(self, n, i, p):
        self.w.d['edp'][n] = (self.need('im', i), self.need('pf', p))

    def x_fragfn(self, n, ps, o):
        if ps is None:
            raise Open('standard fragility functions')
        self.w.d['frag'][n] = tuple(self.dist(p, o) for p in ps)

    def x_lossfn(self, n, k, rows, o):
        if k == 'simple':
            self.w.d['loss'][n] = ('loss',) + tuple(self.dist(p, o) for p in rows)
        else:
            rows = [tuple(self.num(v) for v in r) for r in rows]
            if any(v != int(v) for r in rows for v in r[:2]):
                raise Open('limits between whole numbers')
            self.w.d['loss'][n] = ('bil',) + tuple(rows)

    def x_compgroup(self, ids, count, a, b):
        n, e, f, c, d = ids
        self.w.d['cg'][n] = (self.need('edp', e), self.need('frag', f), self.need('loss', c), d and self.need('loss', d), count, a, b)

    def x_structure(self, n, gs):
        self.w.d['st'][n] = [[], None, None]
        for g in gs:
            if g in self.w.d['st'][n][0]:
                raise Open('a group twice')
            self.w.d['st'][n][0].append(self.need('cg', g))

    def x_rebuildcost(self, n, p, o):
        self.w.d['st'][self.need('st', n)][1] = self.dist(p, o)

    def x_demolitioncost(self, n, p, o):
        self.w.d['st'][self.need('st', n)][2] = self.dist(p, o)

    def x_set(self, n, v):
        self.vars[n] = v[1] if v[0] == 'val' else self.value(v)

    def x_integration(self, tol, evals, method, limit):
        t, e = self.num(tol), self.value(evals)
        s = None
        if method:
            s = self.value(limit)
        for v in (e, s):
            if v is not None and (not plain(v) or v != int(v)):
                raise Open('%r as a limit' % (v,))
        if t <= 0 or e <= 0 or (s is not None and s <= 0):
            raise Open('settings out of range')
        m0, _, _, s0 = self.settings
        self.settings = (method or m0, t, int(e), int(s) if s is not None else s0)

    def x_inputdir(self, d):
        self.indir = d

    def x_outputdir(self, d):
        self.outdir = d

    def data(self, name):
        """A table as the import commands read it: two lines of heading, then numbers."""
        p = name if os.path.dirname(name) else os.path.join(self.indir or '.', name)
        if not os.path.splitext(os.path.basename(p))[1]:
            p += '.csv'
        if not os.path.isfile(p):
            raise Reject('no file ' + p)
        with open(p) as f:
            rows = [[float(x) for x in ln.split()] for ln in f.read().split('\n')[2:] if ln.strip()]
        if len(rows) < 2:
            raise Open('too little data')
        return rows

    def x_importimfn(self, n, f):
        rows = self.data(f)
        a = '@%d' % self.anon
        self.anon += 1
        self.w.d['fn'][a] = ('log', tuple(r[0] for r in rows), tuple(r[1] for r in rows))
        self.w.d['im'][n] = [a, None, None]

    def x_importprobfn(self, n, f):
        xs, mu, sd = [0.0], [0.0], [0.0]
        for r in self.data(f):
            ln = [math.log(v) for v in r[1:] if v != 0]
            if len(ln) < 2:
                raise Open('no dispersion')
            m = sum(ln) / len(ln)
            xs.append(r[0])
            mu.append(math.exp(m))
            sd.append(math.sqrt(sum((v - m) ** 2 for v in ln) / (len(ln) - 1)))
        a, b = '@%d' % self.anon, '@%d' % (self.anon + 1)
        self.anon += 2
        self.w.d['fn'][a] = ('lin', tuple(xs), tuple(mu))
        self.w.d['fn'][b] = ('lin', tuple(xs), tuple(sd))
        self.w.d['pf'][n] = ('median', a, 'sdln', b)

    # ---- output
    def put(self, dest, piece, recorder=False):
        if dest is None:
            self.out.append(piece)
            return
        f, app = dest
        if recorder:
            if not os.path.dirname(f):
                f = os.path.join(self.outdir or '.', f)
            if not os.path.splitext(os.path.basename(f))[1]:
                f += '.csv'
        elif self.outdir is not None:
            raise Open('printing to a file with an output directory')
        f = os.path.normpath(f)
        self.files[f] = (self.files.get(f, []) if app else []) + [piece]

    def x_title(self, s):
        self.titles.append(s)

    def x_print(self, what, v, dest):
        if what == 'message':
            self.put(dest, ('text', '' if v is None else '%s' % (self.value(v),)))
        elif what == 'title':
            self.put(dest, ('title', tuple(self.titles)))
        else:
            self.put(dest, ('object', what, self.need(KINDNAME[what], v)))

    def x_recorder(self, rid, kind, o, at, cols, extra, dest):
        cols = [self.value(c) for c in cols] if cols is not None else None
        if at is not None:
            if at[0] == 'list':
                at = at[1]
            elif at[0] == 'range':
                _, a, d, b = at
                if d == 0:
                    raise Reject('no step')
                n = (b - a) / d
                if n > 10000:
                    raise Open('many points')
                f = n - math.floor(n)
                if 1e-6 < f < 1 - 1e-6 and f >= 0.49:
                    raise Open('a range that ends between its points')
                at = [a + i * d for i in range(int(math.floor(n + 1e-6)) + 1)]
            elif at[0] == 'counted':
                _, a, b, how, n = at
                if n < 2 or n > 10000 or (how == '--log' and (a <= 0 or b <= 0)):
                    raise Open('counted points')
                at = [a + i * (b - a) / (n - 1) if how == '--linear' else math.exp(math.log(a) + i * math.log(b / a) / (n - 1)) for i in range(n)]
            elif at[0] == 'years':
                if at[2] == 0:
                    raise Open('no step')
                at = list(range(at[1], at[3], at[2]))
            else:
                v = self.value(at)
                try:
                    at = [float(x) for x in v]
                except (TypeError, ValueError):
                    raise Open('%r as points' % (v,))
                if isinstance(v, (str, dict)):
                    raise Open('%r as points' % (v,))
        place = PLACES.get(kind, 'st')
        self.need(place, o)
        if kind == 'lossds':
            raise Open('lossds')
        if kind == 'annual':
            cols = cols or [c for c in extra if c] or ['mean_x']
        elif cols is not None:
            ok = {'probfn': lambda c: c in FIVE or (plain(c) and 0 < c < 1), 'edpim': lambda c: c in FIVE or (plain(c) and 0 < c < 1),
                  'by-fate': FIVE.__contains__, 'by-edp': FIVE.__contains__, 'by-frag': FIVE.__contains__}.get(kind)
            if kind in ('dsedp', 'dsim'):
                n = len(self.w.d['frag'][self.w.d['cg'][o][1]])
                ok = lambda c: isinstance(c, int) and 1 <= c <= n
            elif kind in ('costedp', 'costim', 'delayedp', 'delayim'):
                ok = ('mean_x', 'sd_ln_x').__contains__
            if ok is None or not all(ok(c) for c in cols):
                raise Open('columns %r of %s' % (cols, kind))
        self.recs[rid] = (kind, o, None if at is None else list(at), cols, extra, dest)

    def x_analyze(self):
        for rid, (kind, o, at, cols, extra, dest) in self.recs.items():
            self.put(dest, ('table', kind, o, None if at is None else tuple(at), None if cols is None else tuple(cols), extra, self.w.lines(), self.settings,
                            self.groups(o) if kind in ('by-edp', 'by-frag') else None, self.w.d['cg'][o][1] if kind in ('dsedp', 'dsim') else None), recorder=True)

    def groups(self, o):
        """For by-edp and by-frag tables: the groups sharing an EDP, or a fragility function."""
        d = self.w.d
        out = []
        for i in (0, 1):
            m = {}
            for g in d['st'][o][0]:
                m.setdefault(d['cg'][g][i], []).append(g)
            out.append(tuple((k, tuple(v)) for k, v in sorted(m.items())))
        return tuple(out)

    def x_log(self, flag, f):
        pass

    def x_intstats(self, what):
        pass
