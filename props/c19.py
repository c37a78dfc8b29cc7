"""The iterative solver."""
from symx.harness import harness
from .c16 import pick


def euclid(ctx, v):
    return ctx.sqrt(sum((a * a for a in v), 0))


class Stop:
    """stands in for scipy's solvers: reports the given iterates, then returns the given solution and code"""

    def __init__(self, ctx, iterates, final, info, inplace):
        self.ctx, self.iterates, self.final, self.info, self.inplace = ctx, iterates, final, info, inplace
        self.calls = 0
        self.stopped = None
        self.used = None

    def __call__(self, name):
        def method(A, b, x0=None, callback=None, **kw):
            self.used = name
            n = len(self.final)
            buf = self.ctx.np.zeros(n)
            if callback is not None:
                for it in self.iterates:
                    self.calls += 1
                    if self.inplace:
                        buf[:] = self.ctx.arr(it) * 1.0
                        x = buf
                    else:
                        x = self.ctx.arr(it) * 1.0
                    try:
                        callback(x)
                    except BaseException:
                        self.stopped = it
                        raise
            if self.inplace:
                buf[:] = self.ctx.arr(self.final) * 1.0
                return buf, self.info
            return self.ctx.arr(self.final) * 1.0, self.info
        return method


def run(ctx, n, calls, minres=True, verbose=True, tol='symbolic', inplace=False, matrix='numpy', info=None, special=(100, 200)):
    its = {0: [0] * n}
    for c in special:
        if c <= calls:
            its[c] = ctx.els(ctx.vec('x%d_' % c, n, lo=-3, hi=3))
    if calls:
        its[0] = ctx.els(ctx.vec('w', n, lo=-3, hi=3))
    final = ctx.els(ctx.vec('z', n, lo=-3, hi=3))
    y = ctx.vec('y', n, lo=-3, hi=3)
    yl = ctx.els(y)
    stub = Stop(ctx, [its.get(i, its[0]) for i in range(1, calls + 1)], final,
                pick(ctx, 'info', [0, 1, -3, 7]) if info is None else info, inplace)
    for nm in ('minres', 'cg'):
        ctx.patch('scipy.sparse.linalg', nm, stub(nm))
    It = ctx.mod('approx.iterative').Iterative
    if matrix == 'fixed':
        Kl = [[2 + i if i == j else (-1) ** (i + j) for j in range(n)] for i in range(n)]
        M = ctx.mod('linalg.numpy_matrix').NumpyMatrix(ctx.arr(Kl) * 1.0)
    elif matrix == 'numpy':
        K = ctx.symm('k', n, lo=-2, hi=2)
        Kl = [[K[i, j] for j in range(n)] for i in range(n)]
        M = ctx.mod('linalg.numpy_matrix').NumpyMatrix(K)
    else:
        t = ctx.arr([2, 1, -1][:n]) * 1.0
        e = [2, 1, -1]
        Kl = [[e[abs(i - j)] for j in range(n)] for i in range(n)]
        M = ctx.mod('linalg.toeplitz').Toeplitz(t)
    kw = {}
    if tol == 'symbolic':
        kw['tol'] = tol = ctx.real('tol', lo=ctx.frac(1, 10 ** 6), hi=1)
    else:
        tol = ctx.frac(1, 10 ** 4)
    if minres is not None:
        kw['minres'] = minres
    if verbose is not None:
        kw['verbose'] = verbose
    before = len(ctx.logs)
    out = It.solve(M, y, **kw)
    logs = [l for l in ctx.logs[before:] if l[0] == 'critical']
    if verbose:
        ctx.check('verbose result', isinstance(out, tuple) and len(out) == 3)
        x, count, error = out
    else:
        x = out

    def residual(v):
        return euclid(ctx, [a - sum((Kl[i][j] * v[j] for j in range(n)), 0) for i, a in enumerate(yl)])
    want = final
    if stub.stopped is not None:
        ctx.check('stops early only at a converged iterate', residual(stub.stopped) <= tol)
        want = stub.stopped
    ctx.eq('solution', x, want)
    res = residual(want)
    if verbose:
        ctx.eq('iterations', count, stub.calls)
        ctx.eq('error', error, res)
    bad = ctx.decide(res > tol) or (stub.stopped is None and stub.info != 0)
    ctx.check('critical message', (len(logs) > 0) == bad)
    ctx.eq('right-hand side', y, yl)
    if minres is not None:
        ctx.check('method', stub.used == ('minres' if minres else 'cg'))


@harness('C19', [dict(n=n, verbose=v, minres=m) for n in (1, 2, 3) for v in (False, True) for m in (True, False)], budget=60)
def unconverged(ctx, n, verbose, minres):
    """any result, code and tolerance"""
    run(ctx, n, pick(ctx, 'calls', [0, 1, 3]), verbose=verbose, minres=minres, inplace=not minres,
        matrix='fixed' if n > 1 else 'numpy')


@harness('C19', [dict(n=n) for n in (1, 2)], budget=60)
def defaults(ctx, n):
    run(ctx, n, 2, tol=None, verbose=None, minres=None, matrix='fixed')


@harness('C19', [dict(n=n, calls=c, minres=m) for n in (1, 2) for c in (99, 100, 101, 200, 205) for m in (True, False)], budget=100)
def early(ctx, n, calls, minres):
    """long iterations: stopping early, at any of the iterates"""
    run(ctx, n, calls, minres=minres, inplace=not minres, info=pick(ctx, 'info', [0, 1]),
        matrix='fixed' if n > 1 else 'numpy')


@harness('C19', [dict(n=n, calls=c) for n in (2, 3) for c in (1, 100)], budget=100)
def structured(ctx, n, calls):
    run(ctx, n, calls, matrix='toeplitz', info=pick(ctx, 'info', [0, 1]), verbose=False)


@harness('C19', [], [dict(n=n, calls=c) for n in (3, 4) for c in (300, 400)], budget=300)
def long_runs(ctx, n, calls):
    run(ctx, n, calls, info=pick(ctx, 'info', [0, 1]), special=(100, 150, 200, 300, 350, 400), inplace=True, matrix='fixed')


@harness('C19', [], [dict(verbose=v) for v in (True, False)], budget=300)
def any_matrix(ctx, verbose):
    run(ctx, 2, pick(ctx, 'calls', [0, 1]), verbose=verbose, info=pick(ctx, 'info', [0, 1]))
