"""C21: what a script means.  Every script is given to the interpreter and, independently, to the reference
reading in lang.py; the models built, the files and the text written, and what is refused have to agree."""
import copy
import itertools
import os
import subprocess
import pyenv
import c20
from c20 import ROUGH, FIVE, close
from lang import Reference, Reject, Open
from pymc import harness
from pyworld import *

BASE = None


def start(ch):
    """The model the scripts find, and a directory for what they write."""
    global BASE
    w = c20.model()
    BASE = copy.deepcopy(w.d)
    return ch.scratch()


def empty(ch):
    global BASE
    pyenv.reset(ROUGH)
    BASE = copy.deepcopy(World().d)
    return ch.scratch()


def interpret(script):
    """Run the interpreter on a script; what it printed, and the error if it refused."""
    import SlatInterpreter
    p = os.path.join(os.path.dirname(os.getcwd()), 'script.slat')
    with open(p, 'w', newline='') as f:
        f.write(script)
    with pyenv.captured() as b:
        try:
            SlatInterpreter.main(['slat', p])
            err = None
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
    text = b.getvalue()
    i = text.find(script)
    return text[i + len(script):] if i >= 0 else text, err


def both(ch, script, skip=(), queries=None):
    """Compare; returns 'ok', 'rejected' or 'open'."""
    w = World()
    w.d = copy.deepcopy(BASE)
    ref = Reference(w, ROUGH)
    verdict, why = 'ok', ''
    try:
        ref.run(script)
    except Reject as e:
        verdict, why = 'rejected', str(e)
    except Open as e:
        verdict, why = 'open', str(e)
    text, err = interpret(script)
    show = lambda: '\n--- script\n%s\n---' % script
    if verdict == 'open':
        ch.count('not settled')
        return verdict
    if verdict == 'rejected':
        ch.check(err is not None, lambda: 'accepted although it has to be refused (%s)%s' % (why, show()))
        ch.count('refused')
        return verdict
    if err is not None:
        q = pyenv.ask(w.lines(), ['dist mean 1 sdln 1'], ref.settings)[0]
        if isinstance(q, str) and q.startswith('!model'):
            ch.count('core refuses')
            return 'open'
        ch.fail('refused (%s) although nothing is wrong with it%s' % (err, show()))
    qs = everything(w, rates=False) if queries is None else queries(w)
    try:
        if w.d != BASE or ref.settings != ROUGH:
            compare(ch, w, qs, 'after the script', ref.settings)
        S = pyenv.slat
        for k, c in (('fn', S.detfn), ('pf', S.probfn), ('im', S.im), ('edp', S.edp), ('frag', S.fragfn), ('loss', S.lossfn), ('cg', S.compgroup), ('st', S.structure)):
            got, want = {n for n in c.defs if n is not None}, {n for n in w.d[k] if not n.startswith('@')}
            ch.check(got == want, lambda: 'names of kind %s: %s instead of %s' % (k, sorted(got), sorted(want)))
    except Exception as e:
        e.args = (str(e) + show(),)
        raise
    output(ch, ref, text, show, skip)
    ch.count('accepted')
    return verdict


# ---- what was written
class Mismatch(Exception):
    pass


def table_of(piece):
    _, kind, o, at, cols, extra, lines, settings, groups, frag = piece
    if kind == 'dsrate':
        return None, [pyenv.ask(lines, ['cgr ' + o], settings)[0]]
    if kind == 'collrate':
        c, d = pyenv.ask(lines, ['imr ' + o], settings)[0]
        return None, [[o, d, c]]
    if kind == 'annual':
        r = pyenv.ask(lines, ['sta ' + o], settings)[0]
        return list(cols), [[r[FIVE.index(c)] for c in cols]]
    if cols is None:
        cols = c20.KIND[kind][3] if len(c20.KIND[kind]) > 3 else None
    gs = groups[0 if kind == 'by-edp' else 1] if groups else None
    rows = c20.want(lines, kind, cols, at, settings, o=o, groups=gs, frag=frag, rate=extra if kind == 'npv' else None)
    if kind == 'pdf' and extra:
        top = max([r[1] for r in rows] + [0.0])
        rows = [[x, v / (top or 1.0)] for x, v in rows]
    return c20.labels(kind, cols, gs), rows


def match_table(lines, piece):
    """Consumes the lines of a table."""
    labs, rows = table_of(piece)
    if len(lines) < len(rows) + 1:
        raise Mismatch('%d lines instead of %d' % (len(lines), len(rows) + 1))
    head = lines[0].split()
    if labs is not None and not ''.join(head).endswith(''.join(map(str, labs))):
        raise Mismatch('headings %s instead of %s' % (head, labs))
    for ln, r in zip(lines[1:], rows):
        g = ln.split()
        if len(g) != len(r) or not all(a == b if isinstance(b, str) else close(a, b) for a, b in zip(g, r)):
            raise Mismatch('line "%s" instead of %s' % (ln, r))
    return len(rows) + 1


def match(lines, piece):
    """The number of lines that make up the piece at the start of the lines."""
    k = piece[0]
    if k == 'text':
        want = piece[1].split('\n')
    elif k == 'object':
        kind = {'compgroup': 'compgroup'}.get(piece[1], piece[1])
        want = str(getattr(pyenv.slat, kind).lookup(piece[2])).split('\n')
    elif k == 'title':
        # an empty line may precede the titles
        want = '\n'.join(piece[1]).split('\n')
        for w in ([''] + want if piece[1] else [''], want if piece[1] else []):
            if lines[:len(w)] == w:
                return len(w)
        raise Mismatch('%s instead of the title %s' % (lines, want))
    else:
        return match_table(lines, piece)
    if lines[:len(want)] != want:
        raise Mismatch('%s instead of %s' % (lines[:len(want) + 2], want))
    return len(want)


def output(ch, ref, text, show, skip):
    seen = {}
    for d, _, fs in os.walk('.'):
        for n in fs:
            p = os.path.normpath(os.path.join(d, n))
            if p not in skip:
                with open(p, newline='') as f:
                    seen[p] = f.read()
    ch.check(set(seen) == set(ref.files), lambda: 'files %s instead of %s%s' % (sorted(seen), sorted(ref.files), show()))
    for p, pieces in ref.files.items():
        ch.check(seen[p] == '' or seen[p].endswith('\n'), lambda: 'file %s ends within a line%s' % (p, show()))
        lines = seen[p].split('\n')[:-1]
        for piece in pieces:
            try:
                n = match(lines, piece)
            except Mismatch as e:
                ch.fail('file %s: %s%s' % (p, e, show()))
            lines = lines[n:]
        ch.check(not lines, lambda: 'file %s has more: %s%s' % (p, lines, show()))
        ch.count('pieces', len(pieces))
    lines = text.split('\n')
    for piece in ref.out:
        last = None
        for i in range(len(lines)):
            try:
                n = match(lines[i:], piece)
                last = i + n
                break
            except Mismatch as e:
                pass
        ch.check(last is not None, lambda: 'not on the terminal: %s\n%s%s' % (piece[:6], text, show()))
        lines = lines[last:]
        ch.count('pieces')


# ---- every form of every command
LITS = ('0.1', '2', '.5', '1e-3', '-2', '+0.25', '1.', '3E+0', '0', '$v', '$i', '$(1/8)', '$( 2 * (3 - 1) )', '$(math.exp(-1))', '$(list(map(math.sqrt, [4.0]))[0])', '007', '1.5e-05')
PRE = "set v 0.75; set i 3; set s M; set t 'S'; set l [0.1, 0.4]; set p $(numpy.arange(0.1, 0.55, 0.2)); set n 300;\n"
OPTS = [''] + ['--mu ' + m for m in ('mean_ln_x', 'median_x', 'mean_x')] + ['--sd ' + s for s in ('sd_ln_x', 'sd_x')]
OPTS += [f % (m, s) for m in ('mean_ln_x', 'median_x', 'mean_x') for s in ('sd_ln_x', 'sd_x') for f in ('--mu %s --sd %s',)] + \
        ['--sd %s --mu %s' % (s, m) for m in ('mean_ln_x', 'median_x', 'mean_x') for s in ('sd_ln_x', 'sd_x')]
DEF = ('0.4', '0.3', '0.9', '0.2', '1.7', '0.6', '2.5', '0.8', '3.5', '0.35')


def nums(ch, n, defaults=DEF):
    """n numbers, one of them any literal."""
    v = list(defaults[:n])
    i = ch.choose(n)
    v[i] = ch.pick((v[i],) + LITS if i == 0 else LITS)
    return v


def pairs(v):
    return ', '.join('[%s, %s]' % (v[i], v[i + 1]) for i in range(0, len(v), 2))


FORMS = ('powerlaw', 'hyperbolic', 'loglog', 'linear', 'probfn', 'im', 'edp', 'collapse', 'demolition', 'rebuildcost', 'demolitioncost', 'fragfn', 'simple', 'bilevel',
         'compgroup', 'structure', 'integration', 'import', 'set')


@harness(1, 1, 'every form of every defining command with every combination of its options, and with every kind of number in every place', split=3)
def commands(ch, B):
    f = ch.pick(FORMS, 'command')
    start(ch)
    skip, qs = (), None
    if f == 'powerlaw':
        s = 'detfn X powerlaw %s, %s;' % tuple(nums(ch, 2))
    elif f == 'hyperbolic':
        s = 'detfn X hyperbolic %s, %s, %s;' % tuple(nums(ch, 3, ('1221', '29.8', '62.2')))
    elif f in ('loglog', 'linear'):
        n = ch.pick((2, 3, 4, 1))
        s = 'detfn X %s %s;' % (f, pairs(nums(ch, 2 * n, ('0.1', '5', '0.2', '3', '0.7', '0.9', '1.5', '0.1'))))
    elif f == 'probfn':
        s = 'probfn X lognormal %s, %s %s;' % (ch.pick(('M', '$s', '$t', 'F')), ch.pick(('S', '$t', 'M2')), ch.pick(OPTS))
    elif f == 'im':
        s = ch.pick(('im X F;', 'im X M;', 'im IM M2;', 'im F F;'))
    elif f == 'edp':
        s = ch.pick(('edp X IM P;', 'edp X IM P2;', 'edp E IM P2;', 'edp P IM P;'))
    elif f in ('collapse', 'demolition'):
        s = '%s IM %s, %s %s;' % ((f,) + tuple(nums(ch, 2)) + (ch.pick(OPTS),))
    elif f in ('rebuildcost', 'demolitioncost'):
        s = '%s T %s, %s %s;' % ((f,) + tuple(nums(ch, 2)) + (ch.pick(OPTS),))
    elif f == 'fragfn':
        n = ch.pick((1, 2, 3))
        s = 'fragfn X %s %s;' % (pairs(nums(ch, 2 * n, ('0.02', '0.4', '0.06', '0.3', '0.2', '0.35'))), ch.pick(OPTS))
    elif f == 'simple':
        n = ch.pick((1, 2, 3))
        s = 'fragfn Y %s; lossfn X simple %s %s; compgroup Z E Y X 2;' % (pairs(('-3', '0.4', '-2', '0.3', '-1', '0.35')[:2 * n]), pairs(nums(ch, 2 * n)), ch.pick(OPTS))
    elif f == 'bilevel':
        n = ch.pick((1, 2))
        v = nums(ch, 5 * n, ('1', '3', '0.8', '0.5', '0.2', '2', '4', '2.0', '1.5', '0.3'))
        s = 'fragfn Y %s; lossfn X bilevel %s; compgroup Z E Y X 2;' % (pairs(('-3', '0.4', '-2', '0.3')[:2 * n]), ', '.join('[%s]' % ', '.join(v[i:i + 5]) for i in range(0, 5 * n, 5)))
    elif f == 'compgroup':
        s = 'compgroup %s %s %s %s %s %s %s;' % (ch.pick(('X', 'K', 'E')), ch.pick(('E', 'A')), ch.pick((('G C', 'G C D', 'G D C', 'B H', 'B H H'))), ch.pick(('1', '2', '010', '0')),
                                                ch.pick(('', '1.5', '0.25', '2.', '.5', '+1.25', '2e0')), ch.pick(('', '0.5', '1.0', '-0.', '2')), '')
    elif f == 'structure':
        s = 'structure %s %s;' % (ch.pick(('X', 'T', 'K')), ', '.join(ch.pick(c20.orders(('K', 'K2', 'K3', 'K4'), 3))))
    elif f == 'integration':
        m = ch.pick((None, 'binary', 'revbin', 'lowrev', 'scattered', 'directed'))
        if m is None:
            s = 'integration maq %s %s;' % (ch.pick(('1E-6', '0.01', '$v', '$(1/16)', '1', '0.5')), ch.pick(('1024', '64', '$n', '$(2 * 32)')))
        else:
            s = 'integration maq %s %s %s %s;' % (ch.pick(('0.01', '$(1/1024)')), ch.pick(('1024', '$n', '$(32)')), m, ch.pick(('1024', '8', '$n', '$i', '$(2 ** 3)')))
        qs = lambda w: [q_edpl('E', 0.05), q_edpl('A', 0.4), q_imr('IM'), q_cgd('K', 0.3)]
    elif f == 'import':
        os.makedirs('in/deep')
        tables = {'f': 'IM\nrates\n0.1 5\n0.4 2\n1 .1\n', 'in/f': '# a\n# b\n0.1 7\n0.4 3\n1 .1\n', 'in/deep/f': 'x\ny\n0.2 4\n0.3 3\n2 .2\n3 .1\n',
                  'g.dat': 'p\nq\n0.1 0.01 0.02 0.04\n0.5 0.05 0.07 0\n1.0 0.3 0.2 0.25\n', 'in/g': 'p\nq\n0.1 0.01 0.02 0.03\n0.5 0.15 0.07 .1\n',
                  'fine': '\n\n0.2999 6\n0.3 5\n0.3003 4.5\n0.4 1e-7\n  3   1e-9  \n\n', 'tiny.dat': 'p\nq\n1e-5 1e-6 2e-6 1e-9\n0.2999 5e-5 7e-5 0\n0.3001 1e-4 2e-4 2.5e-5 \n1.0 3 2 25\n'}
        for n, t in tables.items():
            n += '' if '.' in n else '.csv'
            with open(n, 'w') as h:
                h.write(t)
            skip += (n,)
        d = ch.pick(('', 'inputdir in;', 'inputdir in/deep;', 'inputdir in; inputdir in/deep;', 'inputdir nowhere;'))
        c = ch.pick(('importimfn X ', 'importprobfn X ', 'importimfn IM ', 'importprobfn P '))
        s = d + c + ch.pick(('f', 'g', 'g.dat', 'f.csv', 'in/f', 'in/deep/f.csv', './f', 'h', 'fine', 'tiny.dat', './fine', './tiny.dat')) + ';'
        if s.split('import')[1][2] == 'f':
            pass
    else:
        v = ch.pick(LITS + ('word', "'it''s'", "'a \\' b'", '"q"', '[1, 2.5]', '[a, "b"]', '(a: 1)', "(a: 1, 'b c': [1, 2], d: (e: f))", '$l', '$p', '$s', '$w', '$(list([1, 2]))', '[]', '()', '[1,]',
                            '[[1]]', '(a 1)', '$', "'a' 'b'", '1 2', '$("a" + \'b\')', '$(1', '$(nothing)', '$()'))
        s = 'set x %s; print message $x out.txt;' % v
        if v.startswith('$(') is False and v.startswith(('$l', '$p')):
            s = 'set x %s; recorder R detfn F $x out.txt; analyze;' % v
    r = both(ch, PRE + s, skip, qs)
    ch.state(s)
    ch.outcome('%s: %s' % (f, r))


# ---- recorders
ATS = ('0.1', '0.1, 0.4', '.5, +0.2, 1e-1', '0.1:0.1:0.4', '0.4:-0.1:0.1', '0.1:0.1:0.34', '0.2:0.3:0.1', '0.1:0.5 --linear 5', '0.1:0.9 --log 3', '0.3:0.3 --linear 2', '$l', '$p', '$(numpy.arange(0.1, 0.3, 0.1))',
       '$([0.2, 0.1])', '$(list(map(math.sqrt, [0.04, 0.09])))', '', '1', '0.1,', '0.1:0.4', '0.1 0.2', '$none', '0.1:0.0:0.4', '0.1:0.5 --linear', '1:1:3', '[0.1, 0.2]', "'0.1'")
DESTS = ('', 'out', 'out.txt', 'out --new', 'sub/out.csv --append', 'out.x --append')
COLS = {'five': ('', '--cols mean_x', '--cols sd_x, median_x, mean_ln_x', '--cols sd_ln_x, mean_x, sd_x', "--cols 'mean_x', median_x", '--cols', '--cols mean_x sd_x', '--cols unknown'),
        'mixed': ('--cols 0.16, mean_x, $v', '--cols $(84.0/100)'), 'states': ('', '--cols 1', '--cols 3, 1', '--cols $i, 2', '--cols $(1)'),
        'two': ('', '--cols sd_ln_x', '--cols sd_ln_x, mean_x', '--cols mean_x'), 'none': ('', '--cols mean_x')}
RECS = {'detfn': ('detfn F', 'none'), 'probfn': ('probfn P', 'five', 'mixed'), 'imrate': ('imrate IM', 'none'), 'collapse': ('collapse IM', 'none'), 'edpim': ('edpim E', 'five', 'mixed'),
        'edprate': ('edprate E', 'none'), 'dsedp': ('dsedp K', 'states'), 'dsim': ('dsim K', 'states'), 'costedp': ('costedp K', 'two'), 'costim': ('costim K', 'two'),
        'delayedp': ('delayedp K', 'two'), 'delayim': ('delayim K', 'two'), 'costrate': ('costrate K', 'none'), 'totalcost': ('totalcost T', 'none'), 'deagg': ('deagg T', 'none'),
        'by-edp': ('structcost T --by-edp', 'five'), 'by-frag': ('structcost T --by-frag', 'five'), 'by-fate': ('structcost T --by-fate', 'five'),
        'pdf': ('pdf T', 'none'), 'normalised': ('pdf T', 'none')}
OTHER = ['recorder R dsrate K %s;', 'recorder R collrate IM %s;', 'recorder R dsrate X %s;', 'recorder R collrate K %s;', 'recorder R dsrate K 0.1 %s;'] + \
        ['recorder R structcost T --npv %s %%s;' % a for a in ('1:1:4 0.05', '5:10:26 .04', '10:-4:1 0.0', '1:1:2 5', '1:1 0.05', '1.0:1:4 0.05', '4:1:1 0.05', '1:0:3 0.05')] + \
        ['recorder R structcost T --annual %s %s %%s;' % (o, c) for o in OPTS for c in COLS['five'][:4]]


@harness(1, 1, 'every recorder in the language with every way of writing its points, columns and destination', split=2)
def recorders(ch, B):
    k = ch.pick(tuple(sorted(RECS)) + ('other', 'undefined'), 'recorder')
    start(ch)
    os.mkdir('sub')
    if k == 'other':
        s = ch.pick(OTHER) % ch.pick(DESTS)
    elif k == 'undefined':
        r = ch.pick(sorted(RECS))
        w = RECS[r][0].split()
        w[1] = ch.pick(('X', 'F', 'P', 'IM', 'E', 'G', 'C', 'K', 'T'))
        s = 'recorder R %s 0.1;' % ' '.join(w)
    else:
        at = ch.pick(ATS)
        cols = [c for x in RECS[k][1:] for c in COLS[x]]
        # destinations and columns are independent of how the points are written
        if ATS.index(at) in (1, 3, 7, 10):
            c, d = ch.pick(cols), ch.pick(DESTS)
        else:
            c, d = ch.pick(cols[:3]), 'out'
        if k == 'normalised':
            c += ' --normalise'
        s = 'recorder R %s %s %s %s;' % (RECS[k][0], at, c, d)
    left = ch.flag('a file from before') and ' out' in s
    pre = PRE + ("print message 'left' out.csv;\nprint message left out.x;\n".replace('left', 'left') if left else '')
    if left:
        pre = PRE + "print message 'left' out.csv; print message 'left' out.x; print message 'left' sub/out.csv;\n"
    r = both(ch, pre + s + '\nanalyze;')
    ch.state(s)
    ch.outcome('%s: %s' % (k, r))


# ---- small changes to scripts
SAMPLES = ("detfn X powerlaw 0.1, 1.5", "detfn X hyperbolic 1221, 29.8, 62.2", "detfn X loglog [0.1, 2], [0.5, 1.5], [2, 0.1]", "probfn X lognormal M, $t --mu mean_x --sd sd_ln_x", "im X F", "edp X IM P",
           "collapse IM 1.2, 0.47 --mu mean_x", "demolition IM 0.9, $v --sd sd_x --mu mean_x", "fragfn X [0.02, 0.4], [0.06, 0.3] --mu median_x", "lossfn X simple [0.3, 0.4], [1, 0.4]",
           "lossfn X bilevel [1, 3, 0.8, 0.5, 0.2]", "compgroup X E G C D 2 1.5 0.5", "structure X K, K2", "rebuildcost T 14.0, 0.35 --mu mean_x", "demolitioncost T 2, 0.5",
           "print message 'text' f.txt --append", "print title f.txt", "print im IM f.txt --new", "integration maq 0.01 512 directed 64", "recorder R detfn F 0.1, 0.2 f.txt", "recorder R probfn P 0.1:0.1:0.3 --cols mean_x, 0.16 f.txt --append",
           "recorder R edprate E 0.1:0.5 --linear 3 f.txt", "recorder R dsrate K f.txt", "recorder R structcost T --by-fate 0.1, 0.2 --cols sd_x, mean_x f.txt", "recorder R structcost T --annual --mu mean_x --sd sd_x f.txt",
           "recorder R structcost T --npv 1:2:6 0.05 f.txt", "recorder R pdf T 0.1, 0.2 --normalise f.txt", "recorder R dsedp K $p --cols 1, 3 f.txt", "set x [1, 2.5]", "set x (a: 1, b: [2])", "set x $(1 + 2)",
           "title 'one'", "importimfn X f", "log --stderr", "intstats reset", "inputdir in", "outputdir out")
ALPHA = (';', ',', '[', ']', '(', ')', ':', '$', '1', '0.5', 'X', 'K', "'q'", '--mu', 'mean_x', '--cols', '--new', 'a/b', '$(1)', '-', '+', 'title', '{', '*')
STRAY = ('?', '%', '@', '!', '\\', '"', "'", '|', '=', '~', '\x00', '\u00e9', '--', '&', '<')


def pieces(s):
    """The words of a sample."""
    import lang
    out = []
    for k, v in lang.scan(s):
        out.append('$(' + v + ')' if k == 'py' else v)
    return out


@harness(1, 2, 'every sample command with one word (deep: two words) left out, doubled, moved, replaced or inserted, and with stray characters: accepted exactly where the language '
               'allows it, and then with the meaning it gives', split=3)
def tokens(ch, B):
    sample = ch.pick(SAMPLES, 'sample')
    start(ch)
    os.mkdir('a')
    w = pieces(sample) + [';']
    for _ in range(B):
        op = ch.pick(('delete', 'double', 'swap', 'insert', 'replace', 'stray'))
        i = ch.choose(len(w))
        if op == 'delete':
            del w[i]
        elif op == 'double':
            w.insert(i, w[i])
        elif op == 'swap':
            w[i:i + 2] = w[i:i + 2][::-1]
        elif op == 'insert':
            w.insert(i, ch.pick(ALPHA))
        elif op == 'replace':
            w[i] = ch.pick(ALPHA)
        else:
            w.insert(i, ch.pick(STRAY))
        if not w:
            break
    s = PRE + ' '.join(w) + "\ntitle 'end'; print title end.txt; analyze;"
    if 'intstats print' in s:
        return
    r = both(ch, s)
    ch.state(s)
    ch.outcome('%s: %s' % (sample.split()[0], r))


# ---- layout
PROGRAM = ("detfn F loglog [0.01, 0.3], [0.1, 0.1], [0.5, 0.02], [1.0, 0.004]; detfn M powerlaw 0.1, 1.5; detfn S powerlaw .5, 0; im IM F; probfn P lognormal M, S --mu mean_x;"
           "edp E IM P; set v $(1.0 + (2 - 1)); collapse IM 1.2, 0.47 --mu mean_x; fragfn G [0.02, 0.4], [0.06, 0.4] --sd sd_ln_x --mu median_x; lossfn C simple [0.3, 0.4], [$v, 0.4];"
           "compgroup K E G C 2 1.5; structure T K; rebuildcost T 14.0, 0.35; print message 'a # b; c' m.txt; title 'one'; recorder R costim K 0.1:0.2:0.5 --cols mean_x out.x --append; analyze;")
FILL = (' ', '\n', '\t', '\r\n', '\r', '  \n\t ', "# it's; a \"comment\n", '#\n', ' # $( [ \r\n', '#a\n#b\n', '#a\r\n #b\n\n', '')


@harness(1, 2, 'a program with every kind of white space and comment in every place (deep: every two places), and none where words touch', split=2)
def layouts(ch, B):
    import lang
    w = pieces(PROGRAM)
    n = len(w)
    i = ch.choose(n + 1)
    a = ch.pick(FILL)
    gaps = [' '] * (n + 1)
    gaps[i] = a
    if B > 1:
        j = i + ch.choose(n + 1 - i)
        gaps[j] = ch.pick(FILL)
    empty(ch)
    s = gaps[0] + ''.join(x + g for x, g in zip(w, gaps[1:]))
    r = both(ch, s)
    if '' not in gaps:
        ch.check(r == 'ok', 'the program is not accepted: ' + s)
    ch.state(s)
    ch.outcome(r)


@harness(1, 1, 'the program with one kind of white space throughout, none where none is needed, and cut off after every character', split=1)
def cuts(ch, B):
    w = pieces(PROGRAM)
    empty(ch)
    if ch.flag('cut'):
        n = ch.choose(len(PROGRAM) + 1)
        s = PROGRAM[:n]
        r = both(ch, s)
    else:
        f = ch.pick(FILL)
        if f:
            s = f + f.join(w) + f
        else:
            s = w[0]
            for a, b in zip(w, w[1:]):
                s += (' ' if a[-1].isalnum() and (b[0].isalnum() or b[0] in '.-') or a[-1] == '$' else '') + b
        r = both(ch, s)
        ch.check(r == 'ok', 'the program is not accepted: ' + s)
    ch.state(s)
    ch.outcome(r)


# ---- strings and numbers
CHARS = ('a', "'", '"', '\\', ';', '#', '\n', '$(', ' ')


@harness(3, 4, 'every string up to the bound over letters, both quotes, backslashes and characters with a meaning elsewhere, in both kinds of quotes and every place a string is used', split=3)
def strings(ch, B):
    n = ch.choose(B + 1)
    q = ch.pick(("'", '"'))
    t = ''.join(ch.pick(CHARS) for _ in range(n))
    where = ch.pick(('message', 'title', 'variable'))
    empty(ch)
    lit = q + t + q
    s = {'message': 'print message %s out.txt;', 'title': 'title %s; print title out.txt;', 'variable': 'set x %s; print message $x out.txt;'}[where] % lit
    r = both(ch, s + "print message 'after' after.txt;")
    ch.state((where, lit))
    ch.outcome('%s: %s' % (where, r))


DIGITS = ('0', '1', '5', '.', '-', '+', 'e', 'E', '_')


@harness(4, 5, 'every string up to the bound over digits, signs, points and exponents, where a number, a whole number or a point is expected', split=3)
def numbers(ch, B):
    n = 1 + ch.choose(B)
    t = ''.join(ch.pick(DIGITS) for _ in range(n))
    where = ch.pick(('detfn', 'count', 'points')) if n < B else 'detfn'
    empty(ch)
    BASE['fn']['F'] = ('plc', 0.5, 1.0)
    pyenv.slat.detfn('F', 'power law', [0.5, 1.0])
    s = {'detfn': 'detfn X powerlaw %s, 1;', 'count': 'recorder R detfn F 0.1:0.5 --linear %s out.txt; analyze;', 'points': 'recorder R detfn F %s, 0.5 out.txt; analyze;'}[where] % t
    if where == 'count' and len(t) > 3:
        return
    r = both(ch, s)
    ch.state((where, t))
    ch.outcome('%s: %s' % (where, r))


# ---- histories
STEPS = ('set a 0.2;', 'set a 3;', 'set b $a;', 'set a $b;', 'set a [0.1, 0.3];', 'set b $(0.25 * 2);', "set a 'M';", 'set a M2;', 'detfn X powerlaw $a, $b;', 'recorder R detfn F $a r.txt;', 'recorder Q imrate IM $b q.txt --append;',
         'analyze;', 'print message $a m.txt --append;', 'probfn X lognormal $a, S;', 'fragfn X [$b, $a];')


@harness(4, 5, 'every sequence of settings and uses of variables up to the bound: a variable stands for the value it had where it is used', split=2)
def variables(ch, B):
    seq = []
    for i in range(B):
        k = ch.choose(len(STEPS) + 1)
        if k == len(STEPS):
            break
        seq.append(STEPS[k])
    empty(ch)
    w = World()
    w.fn('F', 'plc', 0.5, -1.0)
    w.fn('M', 'plc', 0.1, 1.5)
    w.fn('M2', 'plc', 1.2, 0.9)
    w.fn('S', 'plc', 0.5, 0.0)
    w.im('IM', 'F')
    BASE.update(copy.deepcopy(w.d))
    s = '\n'.join(seq)
    r = both(ch, s)
    ch.state(s)
    ch.outcome(r)


MENU = ('detfn F powerlaw 0.01, -1.5;', 'detfn F loglog [0.01, 0.3], [0.5, 0.02], [1.0, 0.004];', 'detfn M powerlaw 0.1, 1.5;', 'im I F;', 'probfn P lognormal M, M --mu mean_x;', 'edp E I P;', 'collapse I 1.2, 0.5;', 'fragfn G [-3, 0.4];',
        'lossfn C simple [1, 0.4];', 'compgroup K E G C 2;', 'compgroup L E G C C 1 0.5;', 'structure T K;', 'structure T K, L;', 'rebuildcost T 2, 0.3;', 'recorder R costim K 0.3 out.txt;', 'recorder R totalcost T 0.3 out.txt;',
        'recorder R imrate I 0.3 out.txt;', 'analyze;', 'im F M;', 'edp E I Q;')
FULL = (0, 2, 3, 4, 5, 7, 8, 9, 11, 13, 14, 17)


@harness(2, 3, 'every sequence of commands up to the bound put after every beginning of a program: what refers to something not yet defined is refused, everything else follows the latest definitions', split=2)
def programs(ch, B):
    n = ch.choose(len(FULL) + 1)
    seq = [MENU[i] for i in FULL[:n]]
    for _ in range(B):
        k = ch.choose(len(MENU) + 1)
        if k == len(MENU):
            break
        seq.append(MENU[k])
    empty(ch)
    s = '\n'.join(seq)
    r = both(ch, s)
    ch.state(s)
    ch.outcome(r)


# ---- analyses
RUNS = ('analyze;', 'detfn F powerlaw 0.4, -1.2;', 'recorder R imrate IM 0.1, 0.2 out.txt;', 'recorder Q detfn F 0.2 out.txt --append;', 'recorder Q detfn F 0.4;', 'recorder R imrate IM 0.3 q --new;', 'outputdir o;', 'outputdir p;', 'im IM F;')
FIRST = ('', 'recorder R imrate IM 0.1, 0.3 out.txt --append;', 'recorder R imrate IM 0.2 out.txt;', 'recorder Q detfn F 0.2 out.txt --append; recorder R imrate IM 0.3 out.txt --append;', 'recorder R detfn F 0.2; recorder Q imrate IM 0.3 q.csv;',
         "print message 'x' out.txt; recorder Q detfn F 0.2, 0.1 out.txt --append;")


@harness(4, 5, 'every sequence of analyses, definitions of recorders and of what they record, and output directories up to the bound: each analysis writes what every recorder asks for then', split=2)
def analyses(ch, B):
    first = ch.pick(FIRST)
    seq = []
    for i in range(B):
        k = ch.choose(len(RUNS) + 1)
        if k == len(RUNS):
            break
        seq.append(RUNS[k])
    empty(ch)
    w = World()
    w.fn('F', 'plc', 0.5, -1.0)
    w.im('IM', 'F')
    BASE.update(copy.deepcopy(w.d))
    s = first + '\n' + '\n'.join(seq) + '\nanalyze;'
    r = both(ch, s)
    ch.state(s)
    ch.outcome(r)


HEADS = ("title 'one';", "title 'two words';", "title '';", 'print title;', 'print title t.txt --append;', 'print title t.txt;')


@harness(5, 7, 'every sequence of titles and of printing them, after up to six titles: all titles given so far, in order', split=2)
def titles(ch, B):
    seq = ["title 'T%d';" % i for i in range(ch.pick((0, 6)))] + [HEADS[ch.choose(len(HEADS))] for _ in range(B - 1)] + ['print title t.txt --append;']
    empty(ch)
    s = '\n'.join(seq)
    ch.outcome(both(ch, s))
    ch.state(s)


# ---- statistics of the integration
COUNTED = (('recorder r%d edprate e 0.05 out%d.txt; analyze;', 'edpl e 0.05'), ('recorder r%d edprate a 0.05, 0.4 out%d.txt; analyze;', 'edpl a 0.05', 'edpl a 0.4'),
           ('recorder r%d edprate e 0.4 out%d.txt; analyze;', 'edpl e 0.4'), ('integration maq 0.01 512 binary 128;', 'set binary 0.01 512 128'), ('integration maq 1e-4 20 scattered 64;', 'set scattered 1e-4 20 64'),
           ('integration maq 0.02 24;', 'limits 0.02 24'), ('intstats reset;', 'zero'), ('intstats print;', 'read'))


@harness(4, 5, 'every sequence of analyses, settings, intstats reset and intstats print to the bound: each report counts what happened since the reset', split=2)
def intstats(ch, B):
    pyenv.reset(ROUGH)
    ch.scratch()
    w = World()
    w.fn('f', 'log', (0.01, 0.1, 0.5, 1.0, 3.0), (0.3, 0.1, 0.02, 0.004, 1e-5))
    for n, a, b in (('m', 0.1, 1.5), ('m2', 1.2, 0.9), ('s', 0.5, 0.0)):
        w.fn(n, 'plc', a, b)
    w.pf('p', 'mean', 'm', 'sdln', 's')
    w.pf('p2', 'median', 'm2', 'sdln', 's')
    w.im('i', 'f')
    w.edp('e', 'i', 'p')
    w.edp('a', 'i', 'p2')
    pyenv.core.reset_statistics()
    script, done, want = 'integration maq 0.05 256 directed 256;\n', [], []
    for k in range(B + 1):
        c = ch.pick(COUNTED) if k < B else COUNTED[-1]
        script += (c[0] % (k, k) if '%d' in c[0] else c[0]) + '\n'
        if c[1] == 'read':
            want.append(list(done))
        else:
            done += c[1:]
    text, err = interpret(script)
    ch.check(err is None, lambda: 'refused (%s):\n%s' % (err, script))
    got = text.split('Integration Statistics')[1:]
    ch.check(len(got) == len(want), lambda: '%d reports instead of %d:\n%s\n%s' % (len(got), len(want), script, text))
    for g, d in zip(got, want):
        check_statistics(ch, g, tuple(w.lines()), d, ROUGH, script)
    ch.state(script)
    ch.outcome(str(len(want)))


# ---- the log
LOGS = ('log a.log;', 'log b.log;', 'log --stderr;', 'log --nostderr;', 'log --nostderr a.log;', 'log --stderr b.log;', 'bad')


@harness(3, 4, 'every sequence of log commands and logged events up to the bound, run as a program of its own: events reach exactly the destinations selected', split=2)
def logs(ch, B):
    seq = [ch.choose(len(LOGS)) for _ in range(B)]
    empty(ch)
    script, err, cur, files, n = '', True, None, {}, 0
    lines = []
    for k in seq + [len(LOGS) - 1]:
        c = LOGS[k]
        if c == 'bad':
            n += 1
            script += 'integration maq $(-%d.0) 4;' % n
            t = "Can't set tolerance to -%d" % n
            if err:
                lines.append(t)
            if cur:
                files.setdefault(cur, []).append(t)
            continue
        script += c
        if '--stderr' in c:
            err = True
        if '--nostderr' in c:
            err = False
        if '.log' in c:
            f = c.split()[-1][:-1]
            if f in files:
                ch.count('a file again')
                return
            cur = f
    p = os.path.join(os.path.dirname(os.getcwd()), 'script.slat')
    with open(p, 'w') as f:
        f.write(script)
    env = dict(os.environ, PYTHONPATH=pyenv._args['tree'])
    r = subprocess.run(['/usr/bin/python3', os.path.join(pyenv._args['tree'], 'SlatInterpreter.py'), p], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    ch.check(r.returncode == 0, lambda: 'the interpreter failed: %s' % r.stderr.decode()[-500:])
    got = [x.split(';')[0] for x in r.stderr.decode().split('\n') if 'set tolerance' in x]
    got = [g[g.index("Can't"):] for g in got]
    ch.check(got == lines, lambda: '%s\nwrote to the terminal %s instead of %s' % (script, got, lines))
    for f in ('a.log', 'b.log'):
        got = [x[x.index("Can't"):].split(';')[0] for x in open(f).read().split('\n') if 'set tolerance' in x] if os.path.exists(f) else []
        ch.check(got == files.get(f, []), lambda: '%s\nwrote to %s %s instead of %s' % (script, f, got, files.get(f, [])))
    ch.state(script)
    ch.outcome(str(sorted(files)))
