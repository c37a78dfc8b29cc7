"""Stochastic trace estimation."""
import itertools
from symx.harness import harness
from . import common as C
from .c13 import same
from .lmc import Solver, asrows, quad


def tape(ctx, bits):
    """numpy.random serves the given bits, whatever way a fair sign is drawn"""
    it = iter(bits)
    used = [0]

    def nxt():
        used[0] += 1
        return next(it)

    def fill(size, f):
        if size is None:
            return f()
        shp = (size,) if isinstance(size, int) else tuple(int(s) for s in size)
        n = 1
        for s in shp:
            n *= s
        vals = [f() for _ in range(n)]
        if ctx.symbolic:
            return ctx.arr(vals).reshape(shp)
        import numpy as np
        return np.array(vals).reshape(shp)

    def randint(lo, hi=None, size=None, **k):
        lo, hi = (0, lo) if hi is None else (lo, hi)
        lo, hi = int(lo), int(hi)
        if hi - lo == 2:
            return fill(size, lambda: lo + nxt())
        raise Unsup()

    def choice(a, size=None, **k):
        a = [0, 1] if isinstance(a, int) and a == 2 else list(a)
        if len(a) != 2 or k.get('p') is not None:
            raise Unsup()
        return fill(size, lambda: a[nxt()])

    def uniform01(*size, **k):
        return fill(k.get('size', (size[0] if len(size) == 1 else size) if size else None), lambda: 0.75 if nxt() else 0.25)

    def binomial(n, p, size=None):
        if n != 1 or p != 0.5:
            raise Unsup()
        return fill(size, nxt)
    fns = dict(randint=randint, choice=choice, binomial=binomial, rand=uniform01,
               random_sample=uniform01, random=uniform01)
    if ctx.symbolic:
        from symx import fscipy

        old = fscipy.RNG[0]

        class R:
            def call(self, name, a, kw):
                if name not in fns:
                    raise Unsup()
                return fns[name](*a, **kw)

            def __getattr__(self, name):
                return getattr(old, name)
        fscipy.RNG[0] = R()
    else:
        import numpy as np
        for k, f in fns.items():
            setattr(np.random, k, f)
    return used




def Unsup():            # noqa
    from symx.sym import Unsupported
    return Unsupported('random draw')


def service(ctx, nit, metrics=False, pool=None):
    p = ctx.mod('util.inline_pool').InlinePool(None) if pool is None else pool
    m = ctx.mod('lmc.metrics').Metrics() if metrics else None
    return ctx.mod('lmc.stochastic_deriv').StochasticDerivService(m, p, nit, 1e-3), m


def mats(ctx, n):
    """a symmetric positive definite K (diagonally dominant) and an arbitrary dK, as operators"""
    Kd = ctx.symm('K', n, lo=-1, hi=1)
    for i in range(n):
        Kd[i, i] = Kd[i, i] + n + 1
    dKd = ctx.symm('dK', n)
    NM = ctx.mod('linalg.numpy_matrix').NumpyMatrix
    return NM(Kd), NM(dKd), asrows(ctx, Kd), asrows(ctx, dKd)


@harness('C14', [dict(n=n, nit=k, metrics=m) for n, k in ((1, 1), (2, 1), (2, 2), (3, 2), (2, 4), (5, 15), (12, 3)) for m in (0, 1)],
         [dict(n=4, nit=3, metrics=0), dict(n=5, nit=2, metrics=0)], budget=60)
def estimator(ctx, n, nit, metrics):
    """for arbitrary signs: average of r'K^-1 dK r over the probes the solver was given; probes are +-1; y solved apart"""
    K, dK, Kr, dKr = mats(ctx, n)
    sol = Solver(ctx)
    y = ctx.vec('y', n)
    keep = ctx.np.array(y)
    sv, m = service(ctx, nit, metrics)
    d = sv.generate(K, y)
    bs = [b for _, b, _ in sol.calls]
    yl = list(y)
    probes = [b for b in bs if not same(ctx, b, yl)]
    ctx.check('one solve per probe', len(probes) == nit)
    ctx.check('every solve uses the requested tolerance', all(float(t) == 1e-3 for _, _, t in sol.calls))
    for r in probes:
        ctx.check('probe size', len(r) == n)
        for v in r:
            ctx.eq('probe entries are +-1', v * v, 1)
    V = asrows(ctx, ctx.inv(ctx.arr(Kr)))
    al = C.mv(V, yl)
    ctx.eq('alpha', ctx.els(d.alpha), al)
    ld = sum((sum((C.mv(V, r)[i] * C.mv(dKr, r)[i] for i in range(n)), 0) for r in probes), 0) / nit
    ctx.eq('trace estimate', d.d_logdet_K(dK), ld)
    ctx.eq('trace estimate again', d.d_logdet_K(dK), ld)
    qd = sum((al[i] * C.mv(dKr, al)[i] for i in range(n)), 0)
    ctx.eq('quadratic term', d.d_normal_quadratic(dK), qd)
    ctx.eq('derivative', d.derivative(dK), (qd - ld) / 2)
    ctx.eq('observations unchanged', y, keep)
    if metrics:
        ctx.check('metrics recorded', len(m.iterations) == 1 and len(m.solv_error) == 1)
        ctx.eq('mean iterations', m.iterations[0], 1)
        ctx.eq('mean error', m.solv_error[0], 0)


@harness('C14', [dict(n=1, nit=1), dict(n=1, nit=3), dict(n=2, nit=1), dict(n=2, nit=2), dict(n=3, nit=1)],
         [dict(n=2, nit=3), dict(n=3, nit=2), dict(n=4, nit=1)], budget=100)
def unbiased(ctx, n, nit):
    """averaged over all sign patterns, exactly tr(K^-1 dK), for arbitrary K, dK, y"""
    K, dK, Kr, dKr = mats(ctx, n)
    Solver(ctx)
    y = ctx.vec('y', n)
    V = asrows(ctx, ctx.inv(ctx.arr(Kr)))
    tot = 0
    al = C.mv(V, list(y))
    N = 0
    for bits in itertools.product((0, 1), repeat=n * nit):
        used = tape(ctx, bits)
        d = service(ctx, nit)[0].generate(K, y)
        ctx.check('draws', used[0] == n * nit)
        tot = tot + d.d_logdet_K(dK)
        N += 1
        if N in (1, 2):
            ctx.eq('alpha independent of the draws', ctx.els(d.alpha), al)
    ctx.eq('mean over all sign patterns', tot / N, sum((V[i][j] * dKr[j][i] for i in range(n) for j in range(n)), 0))


class ShufflePool:
    """runs the tasks in another order (as parallel workers may), results in task order"""

    def __init__(self, order):
        self.order = order

    def _idx(self, n):
        idx = list(range(n))
        return idx[::-1] if self.order == 'rev' else idx[1:] + idx[:1]

    def starmap(self, f, ls, *a, **k):
        ls = list(ls)
        out = [None] * len(ls)
        for i in self._idx(len(ls)):
            out[i] = f(*ls[i])
        return out

    def map(self, f, ls, *a, **k):
        return self.starmap(lambda x: f(x), [(x,) for x in ls])

    def imap(self, f, ls, *a, **k):
        return iter(self.map(f, ls))

    def imap_unordered(self, f, ls, *a, **k):
        ls = list(ls)
        return iter([f(ls[i]) for i in self._idx(len(ls))])       # in order of completion

    def starmap_async(self, f, ls, chunksize=None, callback=None, error_callback=None):
        return _Result(self.starmap(f, ls), callback)

    def map_async(self, f, ls, chunksize=None, callback=None, error_callback=None):
        return _Result(self.map(f, ls), callback)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return _Result(f(*args, **kwds), callback)

    def close(self):
        pass

    join = terminate = close


class _Result:
    def __init__(self, v, callback=None):
        self.v = v
        if callback is not None:
            callback(v)

    def get(self, timeout=None): return self.v
    def wait(self, timeout=None): pass
    def ready(self): return True
    def successful(self): return True


@harness('C14', [dict(n=2, nit=3, order=o, wrap=w, metrics=m) for o in ('rev', 'rot') for w in (0, 1) for m in (0, 1)], budget=60)
def order(ctx, n, nit, order, wrap, metrics):
    """any execution order of the solves, with the pool used directly or through InlinePool"""
    K, dK, Kr, dKr = mats(ctx, n)
    sol = Solver(ctx)
    y = ctx.vec('y', n)
    pool = ShufflePool(order)
    if wrap:
        pool = ctx.mod('util.inline_pool').InlinePool(pool)
    sv, m = service(ctx, nit, metrics, pool)
    d = sv.generate(K, y)
    V = asrows(ctx, ctx.inv(ctx.arr(Kr)))
    yl = list(y)
    probes = [b for _, b, _ in sol.calls if not same(ctx, b, yl)]
    ctx.check('one solve per probe', len(probes) == nit)
    ctx.eq('alpha', ctx.els(d.alpha), C.mv(V, yl))
    ld = sum((sum((C.mv(V, r)[i] * C.mv(dKr, r)[i] for i in range(n)), 0) for r in probes), 0) / nit
    ctx.eq('trace estimate', d.d_logdet_K(dK), ld)
    # the same service again, on other observations: nothing is carried over
    z = ctx.vec('z', n)
    k = len(sol.calls)
    e = sv.generate(K, z)
    pr2 = [b for _, b, _ in sol.calls[k:] if not same(ctx, b, list(z))]
    ctx.eq('alpha, second use', ctx.els(e.alpha), C.mv(V, list(z)))
    ld2 = sum((sum((C.mv(V, r)[i] * C.mv(dKr, r)[i] for i in range(n)), 0) for r in pr2), 0) / nit
    ctx.eq('trace estimate, second use', e.d_logdet_K(dK), ld2)
    ctx.eq('first result unchanged', d.d_logdet_K(dK), ld)
    if metrics:
        ctx.check('metrics recorded per use', len(m.iterations) == 2 and len(m.solv_error) == 2)


@harness('C14', [dict(n=n) for n in (0, 1, 3)], budget=30)
def inline_pool(ctx, n):
    """without a pool tasks run once each, results in order; with one they are delegated"""
    IP = ctx.mod('util.inline_pool').InlinePool
    a = [(ctx.real('a%d' % i), ctx.real('b%d' % i)) for i in range(n)]
    calls = []

    def f(x, y):
        calls.append(1)
        return x - 2 * y
    got = IP(None).starmap(f, a)
    ctx.check('once each', len(calls) == n)
    ctx.check('results', len(list(got)) == n)
    for g, (x, y) in zip(got, a):
        ctx.eq('result', g, x - 2 * y)
    got = IP(ShufflePool('rev')).starmap(f, a)
    for g, (x, y) in zip(got, a):
        ctx.eq('delegated result', g, x - 2 * y)
    ctx.check('once each', len(calls) == 2 * n)
