"""The optimizer's stopping rule."""
from symx.harness import harness
from .c16 import pick


def climin(ctx, log, n, shift):
    """stands in for climin.Adadelta: operates in place on x, asks for one gradient per iteration"""
    class Adadelta:
        def __init__(self, wrt, fprime, step_rate=1, decay=0.9, momentum=0, offset=1e-4, args=None):
            self.wrt, self.fprime, self.n_iter = wrt, fprime, 0
            log['settings'] = dict(step_rate=step_rate, decay=decay, momentum=momentum, offset=offset)

        def __iter__(self):
            while True:
                g = self.fprime(self.wrt)
                self.wrt -= shift * g
                self.n_iter += 1
                log['iterations'] = self.n_iter
                yield dict(n_iter=self.n_iter, gradient=g, args=[], kwargs={}, step=0, gms=0, sms=0)
    ctx.patch('climin', 'Adadelta', Adadelta)


def expected(ctx, grads, ratio, drops, max_it):
    """iterations performed on the given gradients"""
    big, left = 0, drops
    for i, g in enumerate(grads):
        norm = ctx.max([ctx.abs(v) for v in g])
        big = ctx.max([big, norm])
        if ctx.decide(norm < ratio * big):
            left -= 1
        if left <= 0 or i + 1 >= max_it:
            return i + 1
    return None


def go(ctx, opt, tag, n, N, want, log, calls, lo=-2):
    """one optimization of at most N iterations on arbitrary gradients, against the rules"""
    grads = [ctx.els(ctx.vec('%sg%d_' % (tag, i), n, lo=lo, hi=2)) for i in range(N)]
    x0 = ctx.vec(tag + 'x', n, lo=-2, hi=2)
    start = ctx.els(x0)
    x = x0
    del calls[:]
    log.clear()
    log['iterations'] = 0
    served = []

    def fp(at):
        if len(served) == N:
            raise AssertionError('more gradients than the iteration budget')
        served.append(1)
        return ctx.arr(grads[len(served) - 1]) * 1.0
    opt.opt(x, f_fp=None, f=None, fp=fp)
    k = expected(ctx, grads, *want)
    ctx.eq(tag + ' iterations', log['iterations'], k)
    ctx.eq(tag + ' callbacks', len(calls), k)
    ctx.eq(tag + ' callback after each iteration', calls, list(range(1, k + 1)))
    last = [s - sum((g[i] for g in grads[:k]), 0) * ctx.frac(1, 8) for i, s in enumerate(start)]
    ctx.eq(tag + ' optimum', opt.x_opt, last)


def setup(ctx, n, N, user):
    log, calls = {}, []
    climin(ctx, log, n, ctx.frac(1, 8))
    A = ctx.mod('models.optimization').AdaDelta
    user = dict(user)
    user['callback'] = lambda: calls.append(log['iterations'])
    return A, log, calls, user


@harness('C20', [dict(n=n, N=N, verbosity=v) for n, N in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 3)) for v in ((0, 2) if N < 4 else (0,))],
         [dict(n=1, N=5, verbosity=0), dict(n=2, N=4, verbosity=1)], budget=200, max_paths=400)
def stopping(ctx, n, N, verbosity):
    """any gradients, ratio, number of permitted drops and iteration budget"""
    ratio = ctx.real('ratio', lo=0, hi=1)
    drops, max_it = pick(ctx, 'drops', [1, 2, 3]), pick(ctx, 'max_it', list(range(1, N + 1)))
    A, log, calls, user = setup(ctx, n, N, dict(min_grad_ratio=ratio, permitted_drops=drops, max_it=max_it, verbosity=verbosity))
    go(ctx, A(**user), 'a', n, N, (ratio, drops, max_it), log, calls)


@harness('C20', [dict(first=f) for f in ('drops', 'budget')], budget=200, max_paths=400)
def reuse(ctx, first):
    """using one optimizer several times, and others beside it"""
    ratio = ctx.frac(1, 2)
    drops, max_it = (1, 3) if first == 'drops' else (2, 2)
    A, log, calls, user = setup(ctx, 1, 3, dict(min_grad_ratio=ratio, permitted_drops=drops, max_it=max_it))
    a = A(**user)
    other = dict(user, permitted_drops=2, max_it=1)
    b = A(**other)
    go(ctx, a, 'a', 1, max_it, (ratio, drops, max_it), log, calls)
    go(ctx, a, 'b', 1, max_it, (ratio, drops, max_it), log, calls)
    go(ctx, b, 'c', 1, 1, (ratio, 2, 1), log, calls)


@harness('C20', [dict(drops=2, max_it=5), dict(drops=3, max_it=6), dict(drops=1, max_it=5)],
         [dict(drops=4, max_it=7), dict(drops=2, max_it=8)], budget=300, max_paths=2000)
def longer(ctx, drops, max_it):
    """longer histories (drops, recoveries, drops again) of positive gradients at a fixed ratio"""
    ratio = ctx.frac(1, 2)
    A, log, calls, user = setup(ctx, 1, max_it, dict(min_grad_ratio=ratio, permitted_drops=drops, max_it=max_it))
    go(ctx, A(**user), 'a', 1, max_it, (ratio, drops, max_it), log, calls, lo=ctx.frac(1, 16))


@harness('C20', [dict(drops=2, max_it=3), dict(drops=2, max_it=4), dict(drops=3, max_it=4)], [dict(drops=3, max_it=5)], budget=400, max_paths=4000)
def reuse_longer(ctx, drops, max_it):
    """the second optimization of one optimizer starts with all its drops and no remembered norm"""
    ratio = ctx.frac(1, 2)
    A, log, calls, user = setup(ctx, 1, max_it, dict(min_grad_ratio=ratio, permitted_drops=drops, max_it=max_it))
    a = A(**user)
    go(ctx, a, 'a', 1, max_it, (ratio, drops, max_it), log, calls, lo=ctx.frac(1, 16))
    go(ctx, a, 'b', 1, max_it, (ratio, drops, max_it), log, calls, lo=ctx.frac(1, 16))


@harness('C20', [dict(given=g) for g in ('none', 'one', 'all')], budget=200)
def settings(ctx, given):
    """user settings reach the update rule and override the defaults of that instance only"""
    A, log, calls, user = setup(ctx, 1, 1, dict(max_it=1))
    d = dict(step_rate=1, decay=ctx.frac(9, 10), momentum=ctx.frac(1, 2), offset=ctx.frac(1, 10 ** 4))
    mine = dict(d)
    names = dict(none=[], one=[pick(ctx, 'which', sorted(d))], all=sorted(d))[given]
    for k in names:
        mine[k] = user[k] = ctx.real('u_' + k, lo=ctx.frac(1, 100), hi=ctx.frac(99, 100))
    keep = dict(user)
    a = A(**user)
    go(ctx, a, 'a', 1, 1, (ctx.frac(1, 10), 5, 1), log, calls)
    for k in d:
        ctx.eq('setting ' + k, log['settings'][k], mine[k])
    ctx.check('arguments kept', sorted(user) == sorted(keep))
    b = A(max_it=1, callback=user['callback'])
    go(ctx, b, 'b', 1, 1, (ctx.frac(1, 10), 5, 1), log, calls)
    for k in d:
        ctx.eq('default ' + k, log['settings'][k], d[k])
    for k in d:
        user.pop(k, None)
    go(ctx, a, 'c', 1, 1, (ctx.frac(1, 10), 5, 1), log, calls)
    for k in d:
        ctx.eq('kept ' + k, log['settings'][k], mine[k])


@harness('C20', [dict()], budget=200, max_paths=400)
def default_rule(ctx):
    """without settings: 5 permitted drops at a tenth of the largest norm"""
    N = 7
    log, calls = {}, []
    climin(ctx, log, 1, ctx.frac(1, 8))
    A = ctx.mod('models.optimization').AdaDelta
    go(ctx, A(max_it=N, callback=lambda: calls.append(log['iterations'])), 'a', 1, N, (ctx.frac(1, 10), 5, N), log, calls)


@harness('C20', [dict()], budget=60)
def default_budget(ctx):
    """without settings, gradients that never drop use the whole budget of 100 iterations"""
    log = {}
    climin(ctx, log, 1, ctx.frac(1, 8))
    A = ctx.mod('models.optimization').AdaDelta
    g = ctx.real('g', lo=-2, hi=2)
    A().opt(ctx.np.zeros(1), fp=lambda x: ctx.arr([g]) * 1.0)
    ctx.eq('iterations', log['iterations'], 100)
