"""Builds what the checks need from /repo's working tree, outside /repo.

Products live under /verif/.build (git-ignored), in directories named by the
content hash of everything that goes in, so that a changed source is always
rebuilt and an unchanged one never is.
"""
import hashlib, os, re, shutil, subprocess, sys, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
OUT = os.path.join(VERIF, '.build')
OMC = os.path.join(VERIF, 'mc', 'omc')
JOBS = os.cpu_count() or 4
CXX = 'g++'
HDR = ('.h', '.hpp', '.hh', '.hxx', '.inc', '.inl', '.ipp', '.tcc', '.tpp')


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')


def lib_sources():
    """The library's sources as its makefile lists them."""
    text = open(os.path.join(REPO, 'Makefile.common')).read().replace('\\\n', ' ')
    m = re.search(r'^LIBSRCS\s*=\s*(.*)$', text, re.M)
    names = m.group(1).split() if m else []
    return names


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def headers():
    return [os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(HDR)]


def stub_files():
    r = []
    for d, _, fs in os.walk(os.path.join(VERIF, 'mc', 'stub')):
        r += [os.path.join(d, f) for f in fs]
    return r


def once(path, make):
    """Create directory `path` with make(tmpdir) unless it is there already."""
    if os.path.exists(os.path.join(path, '.done')):
        os.utime(path)              # in use: not to be pruned
        return path
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, '.lock-' + os.path.basename(path)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(path, '.done')):
            return path
        tmp = path + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            make(tmp)
            open(os.path.join(tmp, '.done'), 'w').close()
            shutil.rmtree(path, ignore_errors=True)
            os.rename(tmp, path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prune()
    return path


def prune(keep=60):
    try:
        ds = [os.path.join(OUT, d) for d in os.listdir(OUT) if not d.startswith('.lock') and d != 'obj']
        ds = [d for d in ds if os.path.isdir(d) and '.tmp' not in d]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) < 3600:
                continue
            shutil.rmtree(d, ignore_errors=True)
        store = os.path.join(OUT, 'obj')
        os_ = sorted((os.path.join(store, f) for f in os.listdir(store)), key=os.path.getmtime)
        for f in os_[:-1500]:
            if time.time() - os.path.getmtime(f) > 3600:
                os.unlink(f)
    except OSError:
        pass


FLAGS = {
    'plain': ['-O2', '-g1'],
    'race': ['-O1', '-g1', '-fsanitize=thread'],
    'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DOMC_ASAN'],
}
COMMON = ['-std=gnu++14', '-D_GLIBCXX_ASSERTIONS', '-include', 'functional', '-fopenmp', '-fPIC', '-w']


def omc_lib(variant):
    defs = {'plain': [], 'race': ['-DOMC_RACE'], 'asan': ['-DOMC_ASAN']}[variant]
    files = [os.path.join(OMC, f) for f in ('runtime.cpp', 'omc.h', 'export.map', 'main.cpp')]
    path = os.path.join(OUT, 'omc-%s-%s' % (variant, digest(files, 'v1' + variant)))

    def make(tmp):
        sh([CXX, '-std=gnu++14', '-O2', '-g1', '-w', '-fPIC', '-shared', '-I', OMC] + defs +
           [os.path.join(OMC, 'runtime.cpp'), '-Wl,--version-script=' + os.path.join(OMC, 'export.map'),
            '-o', os.path.join(tmp, 'libomc.so'), '-ldl', '-lpthread'])
    return once(path, make)


def compile_all(srcs, tmp, flags):
    """Objects of the sources in `tmp`; an object made before from the same text, headers and options is used again."""
    dirs = [d for d in flags if d.startswith((SRC, VERIF))]
    base = digest([os.path.join(d, f) for d in dirs for f in os.listdir(d) if f.endswith(HDR)] + stub_files(), ' '.join(flags))
    store = os.path.join(OUT, 'obj')
    os.makedirs(store, exist_ok=True)

    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-4] + '.o')
        keep = os.path.join(store, hashlib.sha256((base + os.path.basename(s)).encode() + open(s, 'rb').read()).hexdigest()[:24] + '.o')
        if os.path.exists(keep):
            os.utime(keep)
            shutil.copy(keep, o)
            return o
        sh([CXX] + COMMON + flags + ['-c', s, '-o', o])
        part = '%s.tmp%d-%d' % (keep, os.getpid(), threading.get_ident())
        shutil.copy(o, part)
        os.rename(part, keep)
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, srcs))


def slat_objs(variant):
    srcs = [os.path.join(SRC, s) for s in lib_sources()]
    path = os.path.join(OUT, 'slat-%s-%s' % (variant, digest(srcs + headers() + stub_files(), 'v1' + ' '.join(FLAGS[variant]))))

    def make(tmp):
        compile_all(srcs, tmp, FLAGS[variant] + ['-I', os.path.join(VERIF, 'mc', 'stub'), '-I', SRC])
    return once(path, make)


def harness(name, variant, with_lib=True, extra_src=()):
    """Compile /verif/checks/<name>.cpp against the library; returns the executable."""
    cpp = [os.path.join(VERIF, 'checks', name + '.cpp')] + list(extra_src)
    common = [os.path.join(VERIF, 'checks', f) for f in os.listdir(os.path.join(VERIF, 'checks')) if f.endswith(HDR)]
    lib_d = slat_objs(variant) if with_lib else None
    omc_d = omc_lib(variant)
    key = digest(cpp + common + headers() + stub_files(), '%s|%s|%s|%s' % (name, variant, lib_d, omc_d))
    path = os.path.join(OUT, 'h-%s-%s-%s' % (name, variant, key))

    def make(tmp):
        fl = FLAGS[variant] + ['-I', os.path.join(VERIF, 'mc', 'stub'), '-I', SRC, '-I', OMC, '-I', os.path.join(VERIF, 'checks')]
        objs = compile_all(cpp, tmp, fl)
        if lib_d:
            objs += [os.path.join(lib_d, o) for o in sorted(os.listdir(lib_d)) if o.endswith('.o')]
        san = ['-fsanitize=address'] if variant == 'asan' else []
        sh([CXX, '-g1'] + san + [os.path.join(OMC, 'main.cpp')] + objs +
           ['-o', os.path.join(tmp, 'run'), '-L', omc_d, '-lomc', '-Wl,-rpath,' + omc_d,
            '-lgsl', '-lgslcblas', '-lm', '-lpthread', '-ldl'])
    return os.path.join(once(path, make), 'run')


# ---- the Python interface -------------------------------------------------
SWIG_DROP = ('-nosafecstrings', '-nofastinit', '-nobuildnone')      # options SWIG 4 no longer has (as the project's wrapper does)


def swig_flags():
    text = open(os.path.join(REPO, 'Makefile.common')).read().replace('\\\n', ' ')
    m = re.search(r'^\s*swig\s+(.*)$', text, re.M)
    fl = m.group(1).split() if m else ['-python', '-c++', '-py3']
    i = fl.index('-o') if '-o' in fl else len(fl)
    return [f for f in fl[:i] if f not in SWIG_DROP]


def pkg(*names):
    return sh(['pkg-config', '--cflags'] + list(names)).split()


PYENV = {'PATH': '/opt/vp/bin:/usr/bin:/bin:/usr/sbin:/sbin', 'HOME': os.environ.get('HOME', '/root'), 'LC_ALL': 'C.UTF-8',
         'PYTHONDONTWRITEBYTECODE': '1'}
PYTHON = '/usr/bin/python3'


def pylib():
    """The library's objects, compiled without replacements, for the Python module and its reference program."""
    lib_d = os.path.join(OUT, 'pylib-' + digest([os.path.join(SRC, s) for s in lib_sources()] + headers(), 'v2'))

    def make_lib(tmp):
        compile_all([os.path.join(SRC, s) for s in lib_sources()], tmp, PYFLAGS + pkg('gsl'))
    return once(lib_d, make_lib)


PYFLAGS = ['-O1', '-g1', '-DBOOST_ALL_DYN_LINK', '-I', SRC]
PYLIBS = ['-lgsl', '-lgslcblas', '-lboost_log', '-lboost_thread', '-lboost_system', '-lboost_filesystem', '-lpthread', '-fopenmp']


def oracle():
    """The program that answers queries through the C++ classes."""
    lib_d = pylib()
    src = os.path.join(VERIF, 'checks', 'oracle.cpp')

    def make(tmp):
        compile_all([src], tmp, PYFLAGS + pkg('gsl'))
        objs = [os.path.join(lib_d, o) for o in sorted(os.listdir(lib_d)) if o.endswith('.o')]
        sh([CXX, os.path.join(tmp, 'oracle.o')] + objs + ['-o', os.path.join(tmp, 'run')] + PYLIBS)
    return os.path.join(once(os.path.join(OUT, 'oracle-' + digest([src], lib_d)), make), 'run')


def pytree():
    """The directory holding pyslat, its core module and the script interpreter, as built from the working tree."""
    f = lambda *n: [os.path.join(SRC, x) for x in n]
    core = f('pyslatcore.cpp', 'pyslatcore.h', 'pyslatcore.i')
    gram = f('slatLexer.g4', 'slatParser.g4')
    pys = f('pyslat.py', 'SlatInterpreter.py')
    lib_d = pylib()
    fl = PYFLAGS

    def make_core(tmp):
        sh(['/usr/bin/swig'] + swig_flags() + ['-o', os.path.join(tmp, 'wrap_pyslatcore.cpp'), core[2]])
        shutil.copy(core[0], os.path.join(tmp, 'pyslatcore.cpp'))
        compile_all([os.path.join(tmp, 'wrap_pyslatcore.cpp'), os.path.join(tmp, 'pyslatcore.cpp')], tmp, fl + pkg('gsl', 'python3'))
        objs = [os.path.join(lib_d, o) for o in sorted(os.listdir(lib_d)) if o.endswith('.o')]
        sh([CXX, '-shared', '-fPIC', os.path.join(tmp, 'wrap_pyslatcore.o'), os.path.join(tmp, 'pyslatcore.o')] + objs +
           ['-o', os.path.join(tmp, '_pyslatcore.so')] + PYLIBS)
        for n in os.listdir(tmp):
            if n not in ('_pyslatcore.so', 'pyslatcore.py'):
                os.unlink(os.path.join(tmp, n))

    def make_gram(tmp):
        g = os.path.join(tmp, 'g')
        os.makedirs(g)
        for x in gram:
            shutil.copy(x, g)
        env = dict(os.environ, **PYENV)
        for x in ('slatLexer.g4', 'slatParser.g4'):
            sh(['antlr4', '-Dlanguage=Python3', '-lib', tmp, '-o', tmp, x], cwd=g, env=env)
        shutil.rmtree(g)
    core_d = once(os.path.join(OUT, 'pycore-' + digest(core + headers(), lib_d + ' '.join(swig_flags()))), make_core)
    gram_d = once(os.path.join(OUT, 'pygram-' + digest(gram)), make_gram)

    def make_tree(tmp):
        for d in (core_d, gram_d):
            for n in os.listdir(d):
                if n.endswith('.py') or n.endswith('.so'):
                    shutil.copy(os.path.join(d, n), tmp)
        for x in pys:
            shutil.copy(x, tmp)
    return once(os.path.join(OUT, 'pytree-' + digest(pys, core_d + gram_d)), make_tree)
