"""What the harnesses of the Python interface share: the modules under test, cleared between
executions, and the reference program that answers the same questions through the C++ classes."""
import contextlib
import io
import math
import subprocess

slat = core = None
_args = None
_oracle = None
SETTINGS = ('directed', 0.001, 2048, 2048)


def start(args):
    """Import the modules under test; they come from the tree built out of the repository."""
    global slat, core, _args, _oracle
    _args = args
    import pyslat
    import pyslatcore
    slat, core = pyslat, pyslatcore
    assert pyslat.__file__.startswith(args['tree']), pyslat.__file__
    core.LogToStdErr(False)
    _oracle = Oracle(args['oracle'])


METHODS = {'binary': 0, 'revbin': 1, 'lowrev': 2, 'scattered': 3, 'directed': 4}


def reset(settings=SETTINGS):
    slat.ClearCaches()
    slat._Input_directory = None
    slat._Output_directory = None
    m, tol, ev, se = settings
    core.IntegrationSettings(tol, ev)
    core.Set_Integration_Search_Limit(se)
    core.Set_Integration_Method(METHODS[m])


class Oracle:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=1 << 16, close_fds=True)
        self.memo = {}
        self.loaded = None

    def ask(self, model, queries, settings=SETTINGS):
        """model: tuple of definition lines; queries: lines.  One list of numbers (or an error text) each."""
        model = tuple(model)
        need = [q for q in queries if (settings, model, q) not in self.memo]
        if need:
            out = []
            if self.loaded != (settings, model):
                out = ['reset', 'set %s %.17g %d %d' % settings] + list(model)
                self.loaded = (settings, model)
            out += ['q ' + q for q in need]
            self.p.stdin.write(('\n'.join(out) + '\n').encode())
            self.p.stdin.flush()
            for q in need:
                ln = self.p.stdout.readline().decode()
                if not ln:
                    raise RuntimeError('the reference program stopped: %s / %s' % (model, q))
                ln = ln.strip()
                self.memo[(settings, model, q)] = ln if ln.startswith('!') else [float(x) for x in ln.split()]
        return [self.memo[(settings, model, q)] for q in queries]


def ask(model, queries, settings=SETTINGS):
    return _oracle.ask(model, queries, settings)


def same(a, b, tol=1e-9):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def same_list(a, b, tol=1e-9):
    return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))


def num(x):
    return '%.17g' % x


@contextlib.contextmanager
def captured():
    """What is printed through sys.stdout meanwhile."""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        yield b


MU = {'mean': 0, 'median': 1, 'meanln': 2}
SD = {'sd': 0, 'sdln': 1}


def mu(n):
    return {'mean': slat.LOGNORMAL_MU_TYPE.MEAN_X, 'median': slat.LOGNORMAL_MU_TYPE.MEDIAN_X, 'meanln': slat.LOGNORMAL_MU_TYPE.MEAN_LN_X}[n]


def sd(n):
    return {'sd': slat.LOGNORMAL_SIGMA_TYPE.SD_X, 'sdln': slat.LOGNORMAL_SIGMA_TYPE.SD_LN_X}[n]


def five(d):
    """The five numbers describing a distribution, as the reference program prints them."""
    if hasattr(d, 'mean_ln'):
        return [d.mean(), d.mean_ln(), d.median(), d.sd_ln(), d.sd()]
    return [d.get_mean_X(), d.get_mu_lnX(), d.get_median_X(), d.get_sigma_lnX(), d.get_sigma_X()]
