"""Executes the current sources under /repo/runlmc on symbolic values.

Every `import` made by those sources is resolved here: numpy/scipy/paramz/...
become the facades of this package, runlmc modules are read from disk, compiled
and executed with our builtins.  Nothing of the product is copied or rewritten.
"""
import builtins
import collections
import importlib
import os
import types

import numpy as np

from . import sym as S
from . import fnp, fft, fsparse, fscipy, fparamz
from .sym import Sym, SymBool, Unsupported

REPO = os.environ.get('SYMX_REPO', '/repo')

_code_cache = {}

# modules whose real implementation is used unchanged
PASS = {'abc', 'collections', 'contextlib', 'copy', 'enum', 'functools', 'inspect', 'io', 'itertools',
        'operator', 'os', 'os.path', 'pickle', 're', 'string', 'sys', 'textwrap', 'time', 'types', 'typing',
        'warnings', 'weakref', 'numbers', 'random', 'threading', 'queue', 'collections.abc', 'datetime',
        'fractions', 'bisect', 'heapq', 'traceback', 'dataclasses', '__future__', 'six', 'gc', 'json',
        'concurrent', 'concurrent.futures', 'atexit', 'signal', 'tempfile', 'platform', 'keyword', 'builtins'}


class LogRecord:
    def __init__(self, logger, level, msg, args):
        self.logger, self.level, self.msg, self.args = logger, level, msg, args


class FakeLogger:
    def __init__(self, name, sink):
        self.name = name
        self._sink = sink
        self.handlers = []
        self.level = 0
        self.propagate = True

    def _log(level):
        def f(self, msg, *args, **kw):
            self._sink.append(LogRecord(self.name, level, str(msg), args))
        return f
    debug, info, warning, error, critical = map(_log, ('debug', 'info', 'warning', 'error', 'critical'))
    warn = warning
    exception = error

    def log(self, level, msg, *args, **kw):
        names = {10: 'debug', 20: 'info', 30: 'warning', 40: 'error', 50: 'critical'}
        self._sink.append(LogRecord(self.name, names.get(level, str(level)), str(msg), args))

    def isEnabledFor(self, level): return level >= 20
    def getEffectiveLevel(self): return 20
    def setLevel(self, l): pass
    def addHandler(self, h): pass
    def getChild(self, n): return FakeLogger(self.name + '.' + n, self._sink)


class Facade(types.ModuleType):
    """A module with a fixed set of names; anything else is out of reach."""

    def __init__(self, name, d, real=None):
        super().__init__(name)
        self.__dict__.update(d)
        self.__dict__['_real_name'] = real or name
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        try:
            m = importlib.import_module(self.__dict__['_real_name'])
        except ImportError:
            raise Unsupported('%s.%s' % (self.__name__, k))
        if not hasattr(m, k):
            raise AttributeError("module %r has no attribute %r" % (self.__name__, k))
        raise Unsupported('%s.%s' % (self.__name__, k))


def _smax(sel):
    def f(*args, **kw):
        key = kw.get('key')
        it = list(args[0]) if len(args) == 1 else list(args)
        if key is None and it and any(isinstance(x, Sym) for x in it):
            r = it[0]
            for x in it[1:]:
                r = S.smax(S.lift(r), S.lift(x)) if sel == 'max' else S.smin(S.lift(r), S.lift(x))
            return r
        return getattr(builtins, sel)(*args, **kw)
    f.__name__ = sel
    return f


def _sround(x, nd=None):
    return round(x) if nd is None else round(x, nd)


def _math_facade():
    import math

    def u(f, g):
        def h(x):
            l = S.lift(x) if not isinstance(x, np.ndarray) else S.lift(x.reshape(-1)[0])
            return f(l)
        return h
    d = dict(sqrt=u(S.sqrt, 0), exp=u(S.exp, 0), log=lambda x, b=None: S.log(S.lift(x)) if b is None
             else S.log(S.lift(x)) / S.log(S.lift(b)),
             log1p=u(lambda x: S.log(x + 1), 0), expm1=u(lambda x: S.exp(x) - 1, 0),
             log2=u(lambda x: x.log2(), 0), log10=u(lambda x: x.log10(), 0),
             sin=u(lambda x: S.trig('sin', x), 0), cos=u(lambda x: S.trig('cos', x), 0),
             fabs=u(S.sabs, 0), pow=lambda a, b: S.lift(a) ** b, inf=math.inf, nan=math.nan,
             isnan=lambda x: x is S.NAN or (isinstance(x, float) and x != x),
             isinf=lambda x: isinstance(x, S._Inf), isfinite=lambda x: not isinstance(x, S._Inf) and x is not S.NAN,
             gcd=math.gcd, factorial=math.factorial, fsum=lambda it: sum(it), prod=lambda it, start=1: _prod(it, start),
             copysign=lambda a, b: S.ite(S.lift(b) >= 0, S.sabs(S.lift(a)), -S.sabs(S.lift(a))),
             hypot=lambda *a: S.sqrt(sum(S.lift(x) * x for x in a)), isqrt=math.isqrt, comb=math.comb)

    def toint(f):
        def h(x):
            if isinstance(x, (int, float)):
                return f(x)
            x = S.lift(x)
            v = x.__floor__() if f is math.floor else x.__ceil__() if f is math.ceil else x.__trunc__()
            return int(v)
        return h
    d.update(floor=toint(math.floor), ceil=toint(math.ceil), trunc=toint(math.trunc))

    class M(Facade):
        def __getattr__(self, k):
            if k == 'pi':
                return fnp.PI()
            if k == 'e':
                return S.exp(S.ONE())
            return Facade.__getattr__(self, k)
    return M('math', d)


def _prod(it, s):
    for x in it:
        s = s * x
    return s


class _Rand:
    """numpy.random: every draw goes to the harness's generator model."""
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        if k in ('RandomState', 'default_rng', 'Generator'):
            return lambda *a, **kw: _Rand()        # some stream of arbitrary values

        def f(*a, **kw):
            if fscipy.RNG[0] is None:
                raise Unsupported('numpy.random.%s without a model' % k)
            if k == 'integers':
                return fscipy.RNG[0].call('random_integers' if kw.pop('endpoint', False) else 'randint', a, kw)
            return fscipy.RNG[0].call(k, a, kw)
        return f


class _Done:
    def __init__(self, v): self.v = v
    def get(self, timeout=None): return self.v
    def wait(self, timeout=None): pass


class InlinePoolModel:
    """multiprocessing.Pool: order-preserving map, every task run exactly once."""
    def __init__(self, *a, **k): pass
    def map(self, f, it, chunksize=None): return [f(x) for x in it]
    def starmap(self, f, it, chunksize=None): return [f(*x) for x in it]
    def imap(self, f, it, chunksize=None): return iter([f(x) for x in it])
    def imap_unordered(self, f, it, chunksize=None): return iter([f(x) for x in it][::-1])
    def starmap_async(self, f, it, *a, **k): return _Done([f(*x) for x in it])
    def map_async(self, f, it, *a, **k): return _Done([f(x) for x in it])
    def apply_async(self, f, a=(), k={}, *r, **kw): return _Done(f(*a, **k))
    def apply(self, f, a=(), k={}): return f(*a, **k)
    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


_orig_import = builtins.__import__


def _dispatch_import(name, globals=None, locals=None, fromlist=(), level=0):
    l = globals.get('__symx__') if globals is not None else None
    if l is None:
        return _orig_import(name, globals, locals, fromlist, level)
    return l._import(name, globals, locals, fromlist, level)


builtins.__import__ = _dispatch_import


class Loader:
    def __init__(self):
        self.logs = []
        self.mods = {}
        self.stubs = {}
        self.encoded = set()
        self._facades()
        # PyPy does not honour a module's own __builtins__: replacements are
        # placed in the module globals and imports are dispatched on a marker.
        self.shadow = dict(__symx__=self, float=fnp.symfloat, max=_smax('max'), min=_smax('min'),
                           print=lambda *a, **k: None)

    # ---------------------------------------------------------- facades
    def _facades(self):
        F = self.mods
        rnd = _Rand()
        nlin = Facade('numpy.linalg', dict(
            norm=fscipy.norm, solve=fscipy.solve, inv=fscipy.inv, det=fscipy.det, slogdet=fscipy.slogdet,
            cholesky=lambda a: fscipy.cholesky(a, lower=True), LinAlgError=np.linalg.LinAlgError,
            pinv=fscipy.pinv, matrix_power=fscipy.matrix_power, multi_dot=fscipy.multi_dot, eigvalsh=fscipy.eigvalsh))
        fftm = Facade('numpy.fft', {k: getattr(fft, k) for k in (
            'rfft', 'irfft', 'rfftn', 'irfftn', 'rfft2', 'irfft2', 'fft', 'ifft', 'fftn', 'ifftn', 'fft2', 'ifft2',
            'hfft', 'fftshift', 'ifftshift')})
        npf = fnp.NumpyFacade(fftm, nlin, rnd)
        F['numpy'] = npf
        F['numpy.fft'] = fftm
        F['numpy.linalg'] = nlin
        F['numpy.lib'] = npf.lib
        F['numpy.lib.stride_tricks'] = npf.lib.stride_tricks
        F['numpy.random'] = rnd
        sfft = Facade('scipy.fft', dict(vars(fftm), next_fast_len=fft.next_fast_len), 'scipy.fft')
        lin = Facade('scipy.linalg', dict(
            toeplitz=fscipy.toeplitz, circulant=fscipy.circulant, matmul_toeplitz=fscipy.matmul_toeplitz,
            block_diag=fscipy.block_diag, norm=fscipy.norm, cho_factor=fscipy.cho_factor, eigvalsh=fscipy.eigvalsh,
            cholesky=fscipy.cholesky, cho_solve=fscipy.cho_solve, solve=fscipy.solve, inv=fscipy.inv,
            pinv=fscipy.pinv, solve_toeplitz=fscipy.solve_toeplitz, det=fscipy.det, kron=fscipy.kron,
            solve_triangular=fscipy.solve_triangular, hankel=fscipy.hankel, LinAlgError=np.linalg.LinAlgError), 'scipy.linalg')
        sla = Facade('scipy.sparse.linalg', dict(
            LinearOperator=fscipy.LinearOperator, aslinearoperator=fscipy.aslinearoperator,
            **{k: fscipy._krylov(k) for k in ('minres', 'cg', 'gmres', 'bicg', 'bicgstab', 'lsqr', 'lgmres')}),
            'scipy.sparse.linalg')
        sp = Facade('scipy.sparse', dict(
            csr_matrix=fsparse.csr_matrix, csc_matrix=fsparse.csc_matrix, coo_matrix=fsparse.coo_matrix,
            lil_matrix=fsparse.lil_matrix, dok_matrix=fsparse.lil_matrix,
            spmatrix=fsparse.spmatrix, issparse=fsparse.issparse, isspmatrix=fsparse.issparse,
            isspmatrix_csr=fsparse.isspmatrix_csr, isspmatrix_csc=fsparse.isspmatrix_csc,
            vstack=fsparse.vstack, hstack=fsparse.hstack, block_diag=fsparse.block_diag, bmat=fsparse.bmat,
            eye=fsparse.eye, identity=fsparse.identity, diags=fsparse.diags, kron=fsparse.kron, linalg=sla),
            'scipy.sparse')
        dist = Facade('scipy.spatial.distance', dict(
            cdist=fscipy.cdist, pdist=fscipy.pdist, squareform=fscipy.squareform), 'scipy.spatial.distance')
        spatial = Facade('scipy.spatial', dict(distance=dist), 'scipy.spatial')
        special = Facade('scipy.special', dict(gammaln=fscipy.gammaln, loggamma=fscipy.gammaln,
                                               digamma=fscipy.digamma, psi=fscipy.digamma,
                                               ndtri=fscipy._ppf), 'scipy.special')
        stats = Facade('scipy.stats', dict(norm=fscipy._Norm(), truncnorm=fscipy._TruncNorm()), 'scipy.stats')
        signal = Facade('scipy.signal', dict(fftconvolve=fscipy.convolve, convolve=fscipy.convolve,
                                             oaconvolve=fscipy.convolve), 'scipy.signal')
        scipy = Facade('scipy', dict(linalg=lin, signal=signal, fftpack=sfft, sparse=sp, spatial=spatial, special=special, stats=stats, fft=sfft),
                       'scipy')
        for m in (lin, sla, sp, dist, spatial, special, stats, signal, scipy):
            F[m.__name__] = m
        F['scipy.fft'] = F['scipy.fftpack'] = sfft
        F['math'] = _math_facade()
        logs = self.logs
        loggers = {}

        def getLogger(name=None):
            return loggers.setdefault(name, FakeLogger(name, logs))
        F['logging'] = Facade('logging', dict(
            getLogger=getLogger, DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50,
            basicConfig=lambda *a, **k: None, NullHandler=lambda: None, Logger=FakeLogger,
            **{n: (lambda n: lambda *a, **k: getattr(getLogger('root'), n)(*a, **k))(n)
               for n in ('debug', 'info', 'warning', 'error', 'critical')}))
        import multiprocessing as mp
        F['multiprocessing'] = Facade('multiprocessing', dict(
            cpu_count=lambda: 2, Pool=InlinePoolModel, TimeoutError=mp.TimeoutError))
        F['multiprocessing.pool'] = Facade('multiprocessing.pool', dict(Pool=InlinePoolModel, ThreadPool=InlinePoolModel))

        class _Ada:
            def __init__(self, *a, **k):
                raise Unsupported('climin')
        F['climin'] = Facade('climin', dict(Adadelta=_Ada))
        pm, root = fparamz.modules(None)
        F.update(pm)
        self._paramz_done = False

    def _paramz(self):
        if self._paramz_done:
            return
        self._paramz_done = True
        import paramz as real
        base = os.path.dirname(real.__file__)
        for nm in ('domains', 'transformations'):
            full = 'paramz.' + nm
            m = types.ModuleType(full)
            m.__package__ = 'paramz'
            m.__file__ = os.path.join(base, nm + '.py')
            self.mods[full] = m
            self._exec(m, m.__file__)
            setattr(self.mods['paramz'], nm, m)
        fparamz.set_transforms(self.mods['paramz.transformations'])
        for nm in ('core', 'optimization', 'param', 'parameterized', 'model'):
            setattr(self.mods['paramz'], nm, self.mods['paramz.' + nm])
        self.mods['paramz.core'].index_operations = self.mods['paramz.core.index_operations']
        self.mods['paramz.core'].parameter_core = self.mods['paramz.core.parameter_core']

    # ---------------------------------------------------------- import machinery
    def _exec(self, m, path):
        with open(path, 'rb') as f:
            src = f.read()
        k = (path, src)
        code = _code_cache.get(k)
        if code is None:
            code = compile(src, path, 'exec', dont_inherit=True)
            _code_cache[k] = code
        m.__dict__.update(self.shadow)
        exec(code, m.__dict__)

    def _find(self, name):
        """Module object for a dotted name, loading it if needed."""
        m = self.stubs.get(name) or self.mods.get(name)
        if m is not None:
            if name.startswith('paramz'):
                self._paramz()
            return m
        top = name.split('.')[0]
        if top == 'runlmc':
            rel = name.replace('.', '/')
            pkg = os.path.join(REPO, rel)
            if os.path.isdir(pkg):
                path = os.path.join(pkg, '__init__.py')
                m = types.ModuleType(name)
                m.__path__ = [pkg]
                m.__package__ = name
            else:
                path = os.path.join(REPO, rel + '.py')
                if not os.path.exists(path):
                    raise ModuleNotFoundError('No module named %r' % name)
                m = types.ModuleType(name)
                m.__package__ = name.rpartition('.')[0]
            m.__file__ = path
            if '.' in name:
                par, _, leaf = name.rpartition('.')
                self._find(par)
            self.mods[name] = m
            if os.path.exists(path):
                try:
                    self._exec(m, path)
                except BaseException:
                    self.mods.pop(name, None)
                    raise
            if '.' in name:
                setattr(self.mods[par], leaf, m)
            return m
        if name.startswith('paramz'):
            self._paramz()
            if name in self.mods:
                return self.mods[name]
        if name in PASS or top in PASS:
            return importlib.import_module(name)
        raise Unsupported('import of ' + name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if fromlist:
            m = self._find(name)
            for a in fromlist:
                if a != '*' and a not in m.__dict__:
                    try:
                        sub = self._find(name + '.' + a)
                        if not isinstance(m, Facade):
                            setattr(m, a, sub)
                        else:
                            m.__dict__[a] = sub
                    except (ModuleNotFoundError, Unsupported):
                        pass
            return m
        m = self._find(name)
        return m if '.' not in name or level else self._find(name.split('.')[0])

    def load(self, name):
        return self._find(name)
