"""Harness contexts.

A harness is a Python function `h(ctx, **cfg)` that drives the real runlmc code
and states assertions.  The same function runs in two modes:

* SymCtx  - the sources under /repo are executed on symbolic reals (loader.py);
            each assertion becomes an SMT query over the current path condition;
* ConcCtx - the real package with the real numpy, on one assignment: used to
            replay a solver model and to validate the encoding.
"""
import hashlib
import importlib
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym as S
from . import smt, fft, fnp, fscipy, fsparse
from .explore import Explorer, Budget
from .loader import Loader
from .sym import Sym, SymBool, Unsupported, PathAbort


class CheckFailed(Exception):
    """A stated property does not hold (concrete mode, or a solver model)."""

    def __init__(self, label, msg, model=None):
        super().__init__('%s: %s' % (label, msg))
        self.label = label
        self.msg = msg
        self.model = model


class Skip(Exception):
    """Concrete assignment outside of the assumptions."""


class Undecided(Exception):
    pass


REG = {}          # property -> list of (name, fn, configs, opts)


def harness(prop, configs=None, thorough=None, **opts):
    """Register: configs run in both tiers, thorough ones in the thorough tier."""
    def deco(f):
        REG.setdefault(prop, []).append((f.__name__, f, configs if configs is not None else [{}],
                                         thorough or [], opts))
        return f
    return deco


# ------------------------------------------------------------------ symbolic

class SymRNG:
    """numpy.random: each drawn real is an arbitrary value (of the stated sign
    domain); integer draws are arbitrary in range."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def fresh(self, lo=None, hi=None, isint=False):
        self.n += 1
        return self.ctx.real('rnd%d' % self.n, lo=lo, hi=hi, isint=isint)

    def arr(self, size, **k):
        if size is None or size == ():
            return self.fresh(**k)
        shp = fnp._shape(size)
        out = np.empty(shp, dtype=object)
        f = out.reshape(-1)
        for i in range(f.size):
            f[i] = self.fresh(**k)
        return fnp.mk(f.reshape(shp))

    def call(self, name, a, kw):
        if name in ('randn', 'rand'):
            lo, hi = (0, 1) if name == 'rand' else (-8, 8)
            return self.arr(a if a else None, lo=lo, hi=hi)
        if name in ('random', 'random_sample', 'ranf', 'sample'):
            return self.arr(kw.get('size', a[0] if a else None), lo=0, hi=1)
        if name in ('normal', 'standard_normal'):
            if name == 'standard_normal':
                return self.arr(kw.get('size', a[0] if a else None), lo=-8, hi=8)
            loc = kw.get('loc', a[0] if a else 0)
            sc = kw.get('scale', a[1] if len(a) > 1 else 1)
            return self.arr(kw.get('size', a[2] if len(a) > 2 else None), lo=-8, hi=8) * sc + loc
        if name == 'uniform':
            lo = kw.get('low', a[0] if a else 0)
            hi = kw.get('high', a[1] if len(a) > 1 else 1)
            return self.arr(kw.get('size', a[2] if len(a) > 2 else None), lo=0, hi=1) * (hi - lo) + lo
        if name in ('randint', 'random_integers'):
            lo, hi = (a[0], a[1]) if len(a) > 1 and a[1] is not None else (0, a[0])
            if 'high' in kw:
                hi = kw['high']
            size = kw.get('size', a[2] if len(a) > 2 else None)
            top = int(hi) - (1 if name == 'randint' else 0)
            r = self.arr(size, lo=int(lo), hi=top, isint=True)
            if isinstance(r, np.ndarray):
                r._kind = 'i'
            return r
        if name in ('binomial', 'choice'):
            size = kw.get('size', a[2] if name == 'binomial' and len(a) > 2 else a[1] if name == 'choice' and
                          len(a) > 1 else None)
            if name == 'choice':
                vals = list(range(a[0])) if isinstance(a[0], int) else list(a[0])
                if len(vals) != 2 or kw.get('p') is not None:
                    raise Unsupported('numpy.random.choice')
                return self.arr(size, lo=0, hi=1, isint=True) * (vals[1] - vals[0]) + vals[0]
            if a[0] != 1:
                raise Unsupported('numpy.random.binomial')
            return self.arr(size, lo=0, hi=1, isint=True)
        if name in ('seed', 'set_state', 'get_state'):
            return None
        raise Unsupported('numpy.random.' + name)

    def bounded(self, tag, a, b, size):
        return self.arr(size, lo=a, hi=b)


class SymCtx:
    symbolic = True

    def __init__(self, ex, opts):
        self.ex = ex
        self.opts = opts
        self.loader = Loader()
        self.np = self.loader.load('numpy')
        self.asserts = 0
        self.bounds = []
        fscipy.reset_contracts()
        fscipy.RNG[0] = SymRNG(self)
        fscipy.KRYLOV[0] = None
        fsparse.DROP[0] = True

    # ---- product modules
    def mod(self, name):
        return self.loader.load('runlmc.' + name if name else 'runlmc')

    def facade(self, name):
        return self.loader.load(name)

    def stub(self, name, module):
        self.loader.stubs[name] = module

    def patch(self, module, name, obj):
        """stand-in for a function of a library (to be set before the product modules are loaded)"""
        self.loader.load(module).__dict__[name] = obj

    @property
    def logs(self):
        return [(r.level, r.msg) for r in self.loader.logs]

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False):
        v = Sym.var(name, pos=pos or (lo is not None and lo > 0), nonneg=nonneg or (lo is not None and lo >= 0),
                    isint=isint)
        if lo is not None and not (lo == 0 and nonneg):
            self.ex.assume(v >= lo)
        if hi is not None:
            self.ex.assume(v <= hi)
        return v

    def int(self, name, lo, hi):
        return self.real(name, lo, hi, isint=True)

    def vec(self, name, n, **k):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real('%s_%d' % (name, i), **k)
        return fnp.mk(out)

    def mat(self, name, m, n, **k):
        out = np.empty((m, n), dtype=object)
        for i in range(m):
            for j in range(n):
                out[i, j] = self.real('%s_%d_%d' % (name, i, j), **k)
        return fnp.mk(out)

    def ivec(self, name, n, lo, hi):
        """integer-dtype vector with symbolic integer entries"""
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real('%s_%d' % (name, i), lo=lo, hi=hi, isint=True)
        return fnp.mk(out, 'i')

    def symm(self, name, n, **k):
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                out[i, j] = out[j, i] = self.real('%s_%d_%d' % (name, i, j), **k)
        return fnp.mk(out)

    def const(self, x):
        """a concrete array/number as a float-kind value"""
        if isinstance(x, (list, tuple, np.ndarray)):
            return fnp._tof(fnp.asarray(x))
        return Sym.const(x)

    def arr(self, lst):
        return fnp.asarray(lst)

    def els(self, a):
        a = fnp.asarray(a)
        return list(fnp._raw(fnp._tof(a)).reshape(-1))

    def uf(self, name, *args):
        return S.uf(name, *args)

    # math on scalars
    def sqrt(self, x): return S.sqrt(S.lift(x))
    def exp(self, x): return S.exp(S.lift(x))
    def log(self, x): return S.log(S.lift(x))
    def sin(self, x): return S.trig('sin', S.lift(x))
    def cos(self, x): return S.trig('cos', S.lift(x))
    def abs(self, x): return S.sabs(S.lift(x))
    def floor(self, x): return S.floor(S.lift(x))
    def ite(self, c, a, b): return S.ite(c, S.lift(a), S.lift(b))
    def max(self, xs):
        r = S.lift(xs[0])
        for x in xs[1:]:
            r = S.smax(r, x)
        return r
    def min(self, xs):
        r = S.lift(xs[0])
        for x in xs[1:]:
            r = S.smin(r, x)
        return r
    @property
    def pi(self): return fnp.PI()
    def frac(self, a, b): return Sym.const(Fraction(a, b))
    def inv(self, K): return fnp.mk(fscipy.CON.inverse(fnp.asarray(K)).copy())
    def logdet(self, K): return fscipy.logdet_sym(fnp.asarray(K))

    def deriv(self, f, names):
        """gradient of the scalar expression f() w.r.t. the named inputs"""
        v = S.lift(f) if not callable(f) else S.lift(f())
        return [S.diff(v, S.W.vars[n]) for n in names]

    # ---- assumptions / assertions
    def assume(self, b):
        if isinstance(b, np.ndarray):
            for x in fnp._raw(b).reshape(-1):
                self.assume(x)
            return
        if isinstance(b, np.bool_):
            b = bool(b)
        self.ex.assume(b)

    def eq(self, label, got, want, tol=None, **k):
        self.asserts += 1
        g, w = self._cmp_arrays(label, got, want)
        pairs = []
        for a, b in zip(g, w):
            if a is S.NAN or isinstance(a, S._Inf) or b is S.NAN or isinstance(b, S._Inf):
                if isinstance(a, S._Inf) and isinstance(b, S._Inf) and a is b:
                    continue
                self._fail(label, 'non-finite value %s (expected %s)' % (a, b), [])
            pairs.append((a, b))
        if not pairs:
            self.syntactic = getattr(self, 'syntactic', 0) + 1
            return
        self._prove_eq(label, pairs)

    def _cmp_arrays(self, label, got, want):
        try:
            ga = fnp.asarray(got)
        except Exception:
            ga = got
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)) and \
                any(isinstance(x, (np.ndarray, list, tuple)) for x in list(want) + list(got)):
            if len(got) != len(want):
                self._fail(label, 'length %d, expected %d' % (len(got), len(want)), [])
            A, B = [], []
            for i, (x, y) in enumerate(zip(got, want)):
                a, b = self._cmp_arrays('%s[%d]' % (label, i), x, y)
                A += a
                B += b
            return A, B
        if hasattr(got, 'toarray'):
            got = got.toarray()
        ga, wa = fnp.asarray(got), fnp.asarray(want)
        if ga.shape != wa.shape:
            self._fail(label, 'shape %s, expected %s' % (ga.shape, wa.shape), [])
        try:
            return (list(fnp._raw(fnp._tof(ga)).reshape(-1)), list(fnp._raw(fnp._tof(wa)).reshape(-1)))
        except Unsupported:
            raise
        except Exception as e:
            self._fail(label, 'not numeric: %r' % (e,), [])

    def _size(self, nodes, limit):
        seen = set()
        st = list(nodes)
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if len(seen) > limit:
                return limit + 1
            st.extend(a for a in n.args if isinstance(a, (Sym, SymBool)))
        return len(seen)

    def _prove_eq(self, label, pairs):
        pc = self.ex.pc
        t0 = self.opts.get('timeout', 10.0)
        raw_limit = self.opts.get('raw', 3000)
        nodes = [x for p in pairs for x in p]
        if raw_limit and self._size(nodes, raw_limit) <= raw_limit:
            dis = None
            for a, b in pairs:
                d = SymBool.mk('not', SymBool.mk('eq', a, b))
                dis = d if dis is None else SymBool.mk('or', dis, d)
            lin = [b for b in pc if S.is_linear(b)]
            if len(lin) < len(pc):
                v, _ = smt.solve(lin + [dis], self.opts.get('raw_timeout', 2.0), axioms=False)
                if v == 'unsat':
                    smt.STATS.raw += 1
                    return
            v, _ = smt.solve(pc + [dis], self.opts.get('raw_timeout', 2.0), axioms=False)
            if v == 'unsat':
                smt.STATS.raw += 1
                return
        res = []
        for a, b in pairs:
            if a is b:
                continue
            p = (a - b).poly
            if fft.APPROX[0]:
                # trigonometric constants were rounded to rationals (about 1e-18)
                p = {m: c for m, c in p.items() if abs(c) > 1e-9}
            p = S.p_clear(p)
            if p:
                res.append((a, b, p))
        if not res:
            # the normalised disequalities are all 0 != 0
            v, _ = smt.solve(list(pc), 5.0, axioms=False, normeqs=[[{} for _ in pairs]])
            if v == 'unsat':
                smt.STATS.norm += 1
                return
            raise Undecided('%s: solver did not close a trivial query' % label)
        left = []
        for i in range(0, len(res), 8):
            chunk = res[i:i + 8]
            lin = [b for b in pc if S.is_linear(b)]
            if len(lin) < len(pc):
                v, m = smt.solve(lin, min(t0, 3.0), axioms=False, normeqs=[[p for _, _, p in chunk]])
                if v == 'unsat':
                    smt.STATS.norm += 1
                    continue
            v, m = smt.solve(list(pc), t0, axioms=True, model=True, normeqs=[[p for _, _, p in chunk]])
            if v == 'unsat':
                smt.STATS.norm += 1
                continue
            left += chunk
            break
        if not left:
            return
        # counterexample: prefer a tame model with a visible margin
        for a, b, p in left[:4]:
            self._try_model(label, a, b)
        raise Undecided('%s: equality not decided' % label)

    def _try_model(self, label, a, b):
        pc = self.ex.pc
        vs = [v for n, v in S.W.vars.items() if not n.startswith('!')]
        bnd = [v <= 4 for v in vs] + [v >= -4 for v in vs]
        gap = S.bor(SymBool.mk('le', b + Fraction(1, 10), a), SymBool.mk('le', a + Fraction(1, 10), b))
        ne = SymBool.mk('not', SymBool.mk('eq', a, b))
        for extra in ([gap] + bnd, [gap], [ne] + bnd, [ne]):
            v, m = smt.solve(pc + extra, 3.0, axioms=True, model=True)
            if v == 'sat' and m is not None:
                raise CheckFailed(label, 'solver model', m)

    def _fail(self, label, msg, extra):
        """The assertion fails on every value of this path: any model will do."""
        m = self.path_model(extra)
        raise CheckFailed(label, msg, m)

    def path_model(self, extra=()):
        pc = self.ex.pc + list(extra)
        vs = [v for n, v in S.W.vars.items() if not n.startswith('!')]
        bnd = [v <= 4 for v in vs] + [v >= -4 for v in vs]
        for e in (bnd, []):
            v, m = smt.solve(pc + [x for x in e if not isinstance(x, bool)], 4.0, axioms=True, model=True)
            if v == 'sat' and m is not None:
                return m
        return {}

    def check(self, label, b):
        """b must hold on the whole path."""
        self.asserts += 1
        if isinstance(b, np.ndarray):
            r = True
            for x in fnp._raw(b).reshape(-1):
                r = S.band(r, x if isinstance(x, SymBool) else bool(x))
            b = r
        if isinstance(b, np.bool_):
            b = bool(b)
        if b is True:
            self.syntactic = getattr(self, 'syntactic', 0) + 1
            return
        if b is False:
            self._fail(label, 'does not hold', [])
        v, m = smt.solve(self.ex.pc + [S.bnot(b)], self.opts.get('timeout', 10.0), axioms=True, model=True)
        if v == 'unsat':
            smt.STATS.raw += 1
            return
        if v == 'sat':
            vs = [x for n, x in S.W.vars.items() if not n.startswith('!')]
            bnd = [x <= 4 for x in vs] + [x >= -4 for x in vs]
            v2, m2 = smt.solve(self.ex.pc + [S.bnot(b)] + bnd, 3.0, axioms=True, model=True)
            raise CheckFailed(label, 'solver model', m2 if v2 == 'sat' and m2 is not None else m)
        raise Undecided('%s: solver gave no answer' % label)

    def le(self, label, a, b, tol=None):
        for x, y in zip(self.els(a), self.els(b)):
            self.check(label, x <= y)

    def raises(self, label, exc, fn):
        """fn must raise one of exc on the whole path."""
        self.asserts += 1
        try:
            fn()
        except (Unsupported, PathAbort, CheckFailed, Undecided):
            raise
        except exc as e:
            self.syntactic = getattr(self, 'syntactic', 0) + 1
            return e
        except Exception as e:
            self._fail(label, 'raised %r instead of %s' % (e, exc), [])
        self._fail(label, 'no exception', [])

    def decide(self, b):
        """branch in the harness itself"""
        return bool(b)

    def note(self, s):
        if s not in self.bounds:
            self.bounds.append(s)


# ------------------------------------------------------------------ concrete

class ConcCtx:
    symbolic = False

    def __init__(self, env, seed=0, scale=1.0, opts=None):
        self.env = env
        self.rs = random.Random(seed)
        self.scale = scale
        self.used = {}
        self.np = np
        self.asserts = 0
        self.opts = opts or {}
        self.tolf = self.opts.get('tol', 1e-6)
        self._logs = []
        self.gross = self.opts.get('gross', False)
        np.random.seed(seed % (2 ** 31))
        import logging

        class H(logging.Handler):
            def emit(h, rec):
                self._logs.append((rec.levelname.lower(), str(rec.msg)))
        lg = logging.getLogger('runlmc')
        lg.handlers = [H()]
        lg.setLevel(20)
        lg.propagate = False

    def mod(self, name):
        return importlib.import_module('runlmc.' + name if name else 'runlmc')

    def facade(self, name):
        return importlib.import_module(name)

    def stub(self, name, module):
        import sys
        sys.modules[name] = module

    def patch(self, module, name, obj):
        import sys
        m = importlib.import_module(module)
        old = getattr(m, name)
        setattr(m, name, obj)
        for k, r in list(sys.modules.items()):
            if k.startswith('runlmc') and r is not None:
                for a, v in list(vars(r).items()):
                    if v is old:
                        setattr(r, a, obj)

    @property
    def logs(self):
        return list(self._logs)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False):
        if name in self.env:
            v = self.env[name]
        elif name in self.used:
            v = self.used[name]
        else:
            r = random.Random('%s|%s' % (name, self.rs.random() if False else self.rs_seed()))
            if isint:
                v = r.randint(int(lo if lo is not None else -3), int(hi if hi is not None else 3))
            else:
                l = lo if lo is not None else (0.3 if pos or nonneg else -2.0)
                h = hi if hi is not None else max(l + 2.5, 2.0)
                v = r.uniform(float(l), float(h))
        v = int(v) if isint else float(v)
        self.used[name] = v
        if lo is not None and v < lo - 1e-12 or hi is not None and v > hi + 1e-12 or pos and not v > 0 or \
                nonneg and v < 0:
            raise Skip(name)
        return v

    def rs_seed(self):
        return self.opts.get('_seed', 0)

    int = lambda self, name, lo, hi: self.real(name, lo, hi, isint=True)

    def vec(self, name, n, **k):
        return np.array([self.real('%s_%d' % (name, i), **k) for i in range(n)], dtype=float)

    def mat(self, name, m, n, **k):
        return np.array([[self.real('%s_%d_%d' % (name, i, j), **k) for j in range(n)] for i in range(m)],
                        dtype=float).reshape(m, n)

    def ivec(self, name, n, lo, hi):
        return np.array([self.real('%s_%d' % (name, i), lo=lo, hi=hi, isint=True) for i in range(n)], dtype=int)

    def symm(self, name, n, **k):
        o = np.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                o[i, j] = o[j, i] = self.real('%s_%d_%d' % (name, i, j), **k)
        return o

    def const(self, x):
        return np.array(x, dtype=float) if isinstance(x, (list, tuple, np.ndarray)) else float(x)

    def arr(self, lst):
        return np.array(lst)

    def els(self, a):
        return [float(x) for x in np.asarray(a, dtype=float).reshape(-1)]

    def uf(self, name, *args):
        if name in ('gammaln', 'digamma', 'normppf'):      # the library function itself
            import scipy.special
            return float(getattr(scipy.special, {'normppf': 'ndtri'}.get(name, name))(float(args[0])))
        r = random.Random(name)
        a = [r.uniform(0.3, 1.2) for _ in range(4)]
        t = sum((0.7 + 0.3 * i) * float(x) for i, x in enumerate(args))
        return a[0] * math.exp(-0.5 * a[1] * t) + 0.3 * math.cos(a[2] * t + a[3])

    sqrt = staticmethod(lambda x: math.sqrt(x))
    exp = staticmethod(lambda x: math.exp(x))
    log = staticmethod(lambda x: math.log(x))
    sin = staticmethod(lambda x: math.sin(x))
    cos = staticmethod(lambda x: math.cos(x))
    abs = staticmethod(lambda x: abs(x))
    floor = staticmethod(lambda x: math.floor(x))
    ite = staticmethod(lambda c, a, b: a if c else b)
    max = staticmethod(lambda xs: max(xs))
    min = staticmethod(lambda xs: min(xs))
    pi = math.pi
    frac = staticmethod(lambda a, b: a / b)
    inv = staticmethod(lambda K: np.linalg.inv(K))
    logdet = staticmethod(lambda K: np.linalg.slogdet(K)[1])

    def deriv(self, f, names):
        """central differences; f must re-read its inputs through ctx.real"""
        out = []
        for n in names:
            base = self.used[n]

            def at(x):
                self.env = dict(self.env)
                self.env[n] = x
                return float(f())
            h = 0.02 * min(1.0, abs(base)) if base else 0.02
            tab, best, err, last = [], None, math.inf, []
            for k in range(8):
                row = [(at(base + h) - at(base - h)) / (2 * h)]
                for q in range(1, k + 1):
                    c = 2.0 ** (2 * q)
                    row.append((c * row[q - 1] - tab[k - 1][q - 1]) / (c - 1))
                    e = max(abs(row[q] - row[q - 1]), abs(row[q] - tab[k - 1][q - 1]))
                    if e < err:
                        err, best = e, row[q]
                tab.append(row)
                h /= 2
                if err < 1e-10 * (1 + abs(best or 0)):
                    break
            self.env[n] = base
            self.used[n] = base
            if not err <= 1e-6 * (1 + abs(best)):
                raise Skip('numerical derivative not accurate enough')
            out.append(best)
        return out

    def assume(self, b):
        if not np.all(b):
            raise Skip('assumption')

    def eq(self, label, got, want, tol=None, **k):
        self.asserts += 1
        if hasattr(got, 'toarray'):
            got = got.toarray()
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)) and \
                any(isinstance(x, (np.ndarray, list, tuple)) for x in list(want) + list(got)):
            if len(got) != len(want):
                raise CheckFailed(label, 'length %d, expected %d' % (len(got), len(want)))
            for i, (a, b) in enumerate(zip(got, want)):
                self.eq('%s[%d]' % (label, i), a, b, tol=tol)
            return
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise CheckFailed(label, 'shape %s, expected %s' % (g.shape, w.shape))
        try:
            g, w = g.astype(float), w.astype(float)
        except (TypeError, ValueError) as e:
            raise CheckFailed(label, 'not numeric: %s' % e)
        t = self.tolf if tol is None else tol
        if self.gross:
            t = max(t, 1e-3)
        if g.size == 0:
            return
        same_inf = np.isinf(g) & np.isinf(w) & (np.sign(g) == np.sign(w))
        g2, w2 = np.where(same_inf, 0, g), np.where(same_inf, 0, w)
        if not np.isfinite(g2).all():
            if not np.isfinite(w2).all():
                raise Skip('reference not finite')
            raise CheckFailed(label, 'non-finite %s (expected %s)' % (g[:6], w[:6]))
        if not np.isfinite(w2).all():
            raise Skip('reference not finite')
        sc = 1 + np.abs(w2).max() + (np.abs(g2).max() if np.abs(g2).max() < 10 * (1 + np.abs(w2).max()) else 0)
        err = np.abs(g2 - w2).max()
        if not err <= t * sc:
            i = int(np.argmax(np.abs(g2 - w2).reshape(-1)))
            raise CheckFailed(label, 'entry %d is %r, expected %r' % (i, float(g2.reshape(-1)[i]), float(w2.reshape(-1)[i])))

    def check(self, label, b):
        self.asserts += 1
        if not np.all(b):
            raise CheckFailed(label, 'does not hold')

    def le(self, label, a, b, tol=None):
        self.asserts += 1
        t = self.tolf if tol is None else tol
        for x, y in zip(self.els(a), self.els(b)):
            if not x <= y + t * (1 + abs(x) + abs(y)):
                raise CheckFailed(label, '%r > %r' % (x, y))

    def raises(self, label, exc, fn):
        self.asserts += 1
        try:
            fn()
        except exc as e:
            return e
        except (CheckFailed, Skip):
            raise
        except Exception as e:
            raise CheckFailed(label, 'raised %r instead of %s' % (e, exc))
        raise CheckFailed(label, 'no exception')

    def decide(self, b):
        return bool(b)

    def note(self, s):
        pass


def run_concrete(fn, cfg, env, seed, opts, gross=False, timeout=60):
    """Run a harness on the real code in a forked child.
    Returns ('ok'|'fail'|'skip'|'error'|'timeout', text, used values)."""
    import json
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            o = dict(opts)
            o['_seed'] = seed
            o['gross'] = gross
            ctx = ConcCtx(dict(env), seed, opts=o)
            import warnings
            warnings.simplefilter('ignore')
            try:
                fn(ctx, **cfg)
                res = ('ok', '', ctx.used)
            except Skip as e:
                res = ('skip', str(e), ctx.used)
            except CheckFailed as e:
                res = ('fail', str(e), ctx.used)
            except Exception as e:
                tb = traceback.format_exc(limit=-4)
                res = ('error', '%s: %s\n%s' % (type(e).__name__, e, tb), ctx.used)
            os.write(w, json.dumps([res[0], res[1][:3000], {k: float(v) for k, v in res[2].items()}]).encode())
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                return 'timeout', '', {}
            rr, _, _ = select.select([r], [], [], left)
            if rr:
                ch = os.read(r, 1 << 16)
                if not ch:
                    break
                buf += ch
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        a, b, c = json.loads(buf.decode())
        return a, b, c
    except ValueError:
        return 'timeout', 'died', {}


# ------------------------------------------------------------------ one harness

def run_symbolic(fn, cfg, opts, budget, profile=False):
    """Explore all paths of one harness configuration."""
    S.reset_world()
    del fnp.LOWP[:]
    fft.APPROX[0] = False
    smt.STATS = smt.Stats()
    t0 = time.time()
    ex = Explorer(max_paths=opts.get('max_paths', 400), deadline=t0 + budget,
                  branch_timeout=opts.get('branch_timeout', 2.0))
    out = dict(status='held', detail='', model=None, asserts=0, syntactic=0, paths=0, models=[], functions=[],
               notes=[])
    ex.fork_ite = opts.get('fork_ite', False)
    ex.floor_split = opts.get('floor_split', False)
    funcs = set()
    state = {'first': True}
    from .loader import REPO
    root = os.path.join(REPO, 'runlmc')

    def prof(frame, event, arg):
        if event == 'call':
            fnm = frame.f_code.co_filename
            if fnm.startswith(root):
                funcs.add('%s:%s' % (fnm[len(REPO) + 1:], frame.f_code.co_name))

    def one():
        if opts.get('fresh_world', False):
            pass
        ctx = SymCtx(ex, opts)
        first = state['first'] and profile
        state['first'] = False
        if first:
            sys.setprofile(prof)
        try:
            fn(ctx, **cfg)
        finally:
            if first:
                sys.setprofile(None)
            out['asserts'] += ctx.asserts
            out['syntactic'] += getattr(ctx, 'syntactic', 0)
            for n in ctx.bounds:
                if n not in out['notes']:
                    out['notes'].append(n)
        if len(out['models']) < opts.get('validate', 2):
            try:
                out['models'].append(ctx.path_model())
            except Unsupported:
                pass

    try:
        ex.run_all(one)
    except CheckFailed as e:
        out.update(status='candidate', detail=str(e), model=e.model, label=e.label)
    except Undecided as e:
        out.update(status='undecided', detail=str(e))
    except Unsupported as e:
        out.update(status='undecided', detail='%s: %s' % (type(e).__name__, e),
                   trace=traceback.format_exc(limit=-6))
    except RecursionError as e:
        out.update(status='undecided', detail='recursion limit')
    except Exception as e:
        m = {}
        try:
            pc = ex.pc
            v, m = smt.solve(pc, 4.0, axioms=True, model=True)
            m = m or {}
        except Exception:
            m = {}
        out.update(status='candidate', detail='exception %s: %s' % (type(e).__name__, e), model=m,
                   trace=traceback.format_exc(limit=-8), exc=True)
    if fnp.LOWP:
        out['low_precision'] = str(fnp.LOWP[0])
    out['paths'] = ex.paths
    out['decisions'] = ex.decisions
    out['forks'] = ex.forks
    out['unknown_branches'] = ex.unknown_branches
    out['stats'] = smt.STATS.as_dict()
    out['functions'] = sorted(funcs)
    out['time'] = round(time.time() - t0, 3)
    if out['status'] == 'held' and ex.paths == 0:
        out.update(status='undecided', detail='no feasible path')
    return out


def _env(model):
    e = {}
    for k, v in (model or {}).items():
        if k.startswith('!') or k == 'pi':
            continue
        e[k] = float(v)
    return e


def decide(fn, cfg, opts, budget, profile=False, nrand=None):
    """Symbolic verdict plus replays.  status: held | violation | undecided."""
    r = run_symbolic(fn, cfg, opts, budget, profile)
    r['replays'] = []
    seeds = list(range(1, 1 + (nrand if nrand is not None else opts.get('nrand', 12))))
    ct = opts.get('conc_timeout', 60)

    def attempt(env, seed, gross=False):
        a, txt, used = run_concrete(fn, cfg, env, seed, opts, gross, timeout=ct)
        r['replays'].append(a)
        if a in ('fail', 'error'):
            r.update(status='violation', detail=txt, used=used, seed=seed, env=env)
            return True
        return False
    if r.get('low_precision'):
        # exact reals are no model of reduced precision: the replays have to agree to double precision
        opts = dict(opts, tol=min(1e-8, opts.get('tol', 1e-6)))
        for s in seeds[:4]:
            if attempt({}, s):
                r['found_by'] = 'reduced precision (%s) in the code, replayed' % r['low_precision']
                return r
    if r['status'] == 'candidate':
        what = r['detail']
        if attempt(_env(r['model']), 0):
            r['found_by'] = 'solver model'
            return r
        # the model may lie in a region where floats cannot show the difference
        for s in seeds:
            if attempt({}, s):
                r['found_by'] = 'solver counterexample, replayed at a generic point'
                return r
        r.update(status='undecided', detail='counterexample did not replay: ' + what)
    elif r['status'] == 'undecided':
        for s in seeds:
            if attempt({}, s, gross=True):
                r['found_by'] = 'concrete replay of an undecided harness'
                return r
    else:
        bad = None
        n = 0
        for m in r['models']:
            a, txt, used = run_concrete(fn, cfg, _env(m), 0, opts, False, timeout=ct)
            r['replays'].append(a)
            n += a == 'ok'
            if a in ('fail', 'error'):
                bad = (a, txt)
        a, txt, used = run_concrete(fn, cfg, {}, 1, opts, False, timeout=ct)
        r['replays'].append(a)
        n += a == 'ok'
        r['validated'] = n
        if a in ('fail', 'error') or bad:
            for s in [1] + seeds:
                if attempt({}, s, gross=True):
                    r['found_by'] = 'encoding validation'
                    return r
            r['validation_note'] = (bad or (a, txt))[1][:300]
    return r
