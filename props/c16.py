"""Histories of parameter changes and queries on live models."""
import itertools
from symx.harness import harness
from .c14 import tape
from .lmc import FK, MIX, Solver
from .model import M, points

MODES = ['on-the-fly', 'precompute', 'exact']
QUERIES = ['predict', 'quantiles', 'K', 'logdet', 'loglik', 'gradient']
CHANGES = ['noise', 'coreg', 'diag', 'kernel', 'batch', 'array']


def test_points(m):
    return points(m.ctx, m.P, [[['1/4'] * m.P], [['9/10'] * m.P], [['2/5'] * m.P]][:m.D])[0]


def state(m):
    ctx, mod = m.ctx, m.model
    return (ctx.els(ctx.np.array(mod.param_array)) + [v for Y in mod.Ys for v in ctx.els(Y)] +
            [v for X in mod.Xs for v in ctx.els(X)] + [v for Y in m.Y for v in ctx.els(Y)])


def query(m, q):
    """the answers as a flat list"""
    before = state(m)
    r = answer(m, q)
    m.ctx.eq('%s leaves parameters and data alone' % q, state(m), before)
    return r


def answer(m, q):
    ctx, mod = m.ctx, m.model
    if q == 'predict':
        mean, var = mod.predict(test_points(m))
        return [v for a in list(mean) + list(var) for v in ctx.els(a)]
    if q == 'quantiles':
        return [v for a in mod.predict_quantiles(test_points(m), (50, 97.5)) for v in ctx.els(a)]
    if q == 'K':
        return ctx.els(ctx.np.array(mod.K()))
    if q == 'logdet':
        return [mod.log_det_K()]
    if q == 'loglik':
        return [mod.log_likelihood(), mod.normal_quadratic()]
    return ctx.els(ctx.np.array(mod.gradient))


class Live:
    """a model and the sequence of changes made to it so far"""

    def __init__(self, ctx, mix, mode, tag, normalize=False):
        self.ctx, self.mix, self.mode, self.tag, self.normalize = ctx, mix, mode, tag, normalize
        self.m = M(ctx, mix, prediction=mode, tag=tag, normalize=normalize)
        self.changes = []
        self.n = 0

    def val(self, lo='1/4', hi=3):
        self.n += 1
        return self.ctx.real('%snew%d' % (self.tag, self.n), lo=self.ctx.frac(1, 4), hi=hi)

    def change(self, kind):
        ctx, D = self.ctx, self.m.D
        if kind == 'batch':
            self.m.model.update_model(False)
            todo = [('kernel', [self.val()]), ('noise', [self.val() for _ in range(D)])]
            for t in todo:
                put(ctx, self.m.F, *t)
            self.m.model.update_model(True)
            self.changes += todo
            return
        if kind == 'array':
            mod = self.m.model
            vals = [self.val() for _ in range(int(mod.param_array.shape[0]))]
            self.changes.append(('array', vals))
            mod[:] = ctx.arr(vals)
            return
        e = self.m.F.q[0]
        n = {'noise': D, 'coreg': len(e['A']) * D, 'diag': D, 'kernel': 1}[kind]
        vals = [self.val() for _ in range(n)]
        self.changes.append((kind, vals))
        put(ctx, self.m.F, kind, vals)

    def fresh(self, changes):
        """a model built anew with the parameters as they were after those changes"""
        ctx = self.ctx
        F = FK(ctx, MIX[self.mix], self.tag, setdim=False)
        arr = [c for c in changes if c[0] == 'array']
        if not arr:
            for t in changes:
                put(ctx, F, *t)
        m = M(ctx, self.mix, prediction=self.mode, tag=self.tag, normalize=self.normalize, F=F, ys=self.m.Y)
        if arr:
            for t in changes:
                if t[0] == 'array':
                    m.model[:] = ctx.arr(t[1])
                else:
                    put(ctx, F, *t)
            G = FK(ctx, MIX[self.mix], self.tag, setdim=False)
            G.fk.coreg_vecs = [ctx.np.array(a) for a, e in zip(F.fk.coreg_vecs, F.q) if e['kind'] != 'indep']
            G.fk.coreg_diags = [ctx.np.array(a) for a, e in zip(F.fk.coreg_diags, F.q) if e['kind'] == 'lmc']
            G.fk.noise = ctx.np.array(F.fk.noise)
            for a, b in zip(F.q, G.q):
                b['k'].inv_lengthscale[:] = ctx.els(a['k'].inv_lengthscale)[0]
            m = M(ctx, self.mix, prediction=self.mode, tag=self.tag, normalize=self.normalize, F=G, ys=self.m.Y)
        return m


def put(ctx, F, kind, v):
    e = F.q[0]
    D = F.D
    if kind == 'noise':
        F.fk.noise = ctx.arr(v)
    elif kind == 'coreg':
        F.fk.coreg_vecs = [ctx.arr(v).reshape(len(e['A']), D)] + [ctx.arr(f['A']) for f in F.q[1:] if f['kind'] != 'indep']
    elif kind == 'diag':
        F.fk.coreg_diags = [ctx.arr(v)] + [ctx.arr(f['kap']) for f in F.q[1:] if f['kind'] == 'lmc']
    else:
        e['k'].inv_lengthscale[:] = v[0]


def finish(ctx, log):
    for lv, q, changes, got in log:
        want = query(lv.fresh(changes), q)
        ctx.eq('%s after %s' % (q, ','.join(c[0] for c in changes) or 'nothing'), got, want)


def pick(ctx, name, options):
    """an arbitrary element (a symbolic choice)"""
    k = ctx.int(name, 0, len(options) - 1)
    for i, o in enumerate(options[:-1]):
        if k == i:
            return o
    return options[-1]


@harness('C16', [dict(mode=p, mix='lmc1', first=q) for p in MODES for q in QUERIES] +
         [dict(mode=p, mix='lmc2', first=q) for p, q in (('precompute', 'predict'), ('exact', 'gradient'))],
         [dict(mode=p, mix=x, first=q) for p in MODES for x in ('lmc2', 'lmc22') for q in QUERIES],
         budget=200, max_paths=200, weight=3)
def change_between(ctx, mode, mix, first):
    """query, any change, any query"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    a = Live(ctx, mix, mode, '')
    log = [(a, first, [], query(a.m, first))]
    a.change(pick(ctx, 'change', CHANGES))
    q = pick(ctx, 'query', QUERIES)
    log.append((a, q, list(a.changes), query(a.m, q)))
    finish(ctx, log)


@harness('C16', [dict(mode=p, first=q) for p in MODES for q in QUERIES],
         [dict(mode=p, first=q, mix='lmc2') for p in MODES for q in QUERIES], budget=200, max_paths=200, weight=3)
def two_models(ctx, mode, first, mix='lmc1'):
    """two live models with different data and parameters: query one, change or query either, query both"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    a = Live(ctx, mix, mode, 'a')
    b = Live(ctx, mix, mode, 'b')
    log = [(a, first, [], query(a.m, first))]
    who = pick(ctx, 'who', [a, b])
    what = pick(ctx, 'what', ['kernel', 'noise', 'query', 'same query'])
    if what == 'query' or what == 'same query':
        q = first if what == 'same query' else pick(ctx, 'mid', ['predict', 'loglik'])
        log.append((who, q, [], query(who.m, q)))
    else:
        who.change(what)
    for m in pick(ctx, 'order', [(a, b), (b, a)]):
        log.append((m, first, list(m.changes), query(m.m, first)))
    finish(ctx, log)


@harness('C16', [dict(mode=p) for p in MODES], budget=200, max_paths=200, weight=3)
def two_changes(ctx, mode):
    """change, query, change, query: the later change wins"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    a = Live(ctx, 'lmc1', mode, '')
    log = []
    for i in range(2):
        a.change(pick(ctx, 'change%d' % i, ['noise', 'coreg', 'kernel', 'array']))
        if pick(ctx, 'ask%d' % i, [1, 0]):
            log.append((a, 'predict', list(a.changes), query(a.m, 'predict')))
    log.append((a, 'loglik', list(a.changes), query(a.m, 'loglik')))
    finish(ctx, log)


@harness('C16', [dict(mode=p) for p in MODES], [], budget=100)
def two_sets_of_points(ctx, mode):
    """predictions at one set of points do not depend on predictions made elsewhere before"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    for norm in (False, True):
        a = Live(ctx, 'lmc1', mode, 't%d' % norm, normalize=norm)
        other, _ = points(ctx, 1, [[['1/3'], ['9/10']]])
        flat = lambda r: [v for z in list(r[0]) + list(r[1]) for v in ctx.els(z)]
        f = a.fresh([])
        a.m.model.predict(other)
        a.m.model.predict_quantiles(other)
        ctx.eq('predictions', query(a.m, 'predict'), query(f, 'predict'))
        ctx.eq('predictions', flat(a.m.model.predict(other)), flat(a.fresh([]).model.predict(other)))
        # as many points as before, in the same arrays
        Z = test_points(a.m)
        a.m.model.predict(Z)
        a.m.model.predict_quantiles(Z)
        for A in Z:
            A[...] = A / 2
        want = flat(a.fresh([]).model.predict([A / 2 for A in test_points(a.m)]))
        ctx.eq('predictions elsewhere', flat(a.m.model.predict(Z)), want)
        ctx.eq('quantiles elsewhere', [v for t in a.m.model.predict_quantiles(Z, (30, 60)) for v in ctx.els(t)],
               [v for t in a.fresh([]).model.predict_quantiles([A / 2 for A in test_points(a.m)], (30, 60)) for v in ctx.els(t)])
        ctx.eq('predictions of none', flat(a.m.model.predict([ctx.np.zeros((0, 1))])), [])


@harness('C16', [dict(mode=p, part=k) for p in MODES for k in ('predict', 'quantiles')], [], budget=60)
def results_are_the_callers(ctx, mode, part):
    """overwriting a returned prediction does not reach into later ones"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    a = Live(ctx, 'lmc2', mode, '')
    want = query(a.m, part)
    if part == 'predict':
        r = a.m.model.predict(test_points(a.m))
        r = list(r[0]) + list(r[1])
    else:
        r = a.m.model.predict_quantiles(test_points(a.m), (50, 97.5))
    for v in r:
        v[:] = 7
    ctx.eq('again', query(a.m, part), want)


def put_q(ctx, F, q, kind, v):
    """one kind of parameter of the q-th kernel"""
    e = F.q[q]
    if kind == 'kernel':
        for p, x in zip(e['k'].parameters, v):
            p[:] = x
    elif kind == 'coreg':
        n, D = len(e['A']), F.D
        F.fk.coreg_vecs = [ctx.arr([v[r * D:(r + 1) * D] for r in range(n)]) if f is e else ctx.arr(f['A'])
                           for f in F.q if f['kind'] != 'indep']
    else:
        F.fk.coreg_diags = [ctx.arr(v[:F.D]) if f is e else ctx.arr(f['kap']) for f in F.q if f['kind'] == 'lmc']


@harness('C16', [dict(mode='on-the-fly', mix=x, q=q) for x, q in (('mix', 0), ('mix', 1), ('mix', 3), ('slfm2', 1), ('indep2', 1),
                                                                  ('ads', 1), ('ads', 2), ('p2', 1), ('lmc22', 1))] +
         [dict(mode=p, mix=x, q=q) for p, x, q in (('exact', 'mix', 1), ('precompute', 'mix', 2), ('exact', 'ads', 2), ('precompute', 'lmc22', 1))],
         [dict(mode=p, mix=x, q=q) for p in MODES for x, n in (('mix', 4), ('lmc22', 2)) for q in range(n)], budget=200,
         max_paths=200, weight=3)
def change_any_kernel(ctx, mode, mix, q):
    """several kernels, of every kind and over split inputs: a change to any one of them reaches every query"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    a = M(ctx, mix, prediction=mode)
    e = a.F.q[q]
    q1, q2 = pick(ctx, 'queries', [('predict', 'predict'), ('loglik', 'loglik'), ('gradient', 'gradient'), ('K', 'predict'), ('predict', 'loglik')])
    query(a, q1)
    kind = pick(ctx, 'kind', ['kernel'] + (['coreg'] if e['kind'] != 'indep' else []) + (['diag'] if e['kind'] == 'lmc' else []))
    v = [ctx.real('new%d' % i, lo=ctx.frac(1, 4), hi=3) for i in range(max(2, len(e['A']) * a.D))]
    put_q(ctx, a.F, q, kind, v)
    got = query(a, q2)
    F = FK(ctx, MIX[mix], '', setdim=False)
    put_q(ctx, F, q, kind, v)
    ctx.eq('%s after changing the %s of kernel %d' % (q2, kind, q), got, query(M(ctx, mix, prediction=mode, F=F, ys=a.Y), q2))


LOGGED = ('models.interpolated_llgp', 'models.multigp', 'lmc.stochastic_deriv', 'lmc.likelihood', 'approx.iterative', 'approx.interpolation',
          'lmc.grid_kernel', 'linalg.toeplitz', 'linalg.bttb', 'lmc.functional_kernel')


@harness('C16', [dict(mode=p, metrics=k) for p in MODES for k in (0, 1)], [], budget=100)
def debug_logging(ctx, mode, metrics):
    """switching debug logging on changes no answer"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    want = None
    for on in (0, 1):
        logs = []
        for n in LOGGED:
            try:
                l = getattr(ctx.mod(n), '_LOG', None)
            except ImportError:
                continue
            if l is not None:
                l.isEnabledFor = (lambda lv: True) if on else (lambda lv: lv >= 20)
                logs.append(l)
        try:
            a = M(ctx, 'lmc1' if metrics else 'lmc2', prediction=mode, metrics=bool(metrics))
            put(ctx, a.F, 'noise', [ctx.real('new%d' % d, lo=ctx.frac(1, 4), hi=3) for d in range(a.D)])
            a.model.parameters_changed()
            got = [v for q in QUERIES for v in query(a, q)]
            if metrics:
                m = a.model.metrics
                ctx.check('one entry per update', len(m.grad_norms) == len(m.log_likely) == len(m.iterations))
                got += list(m.log_likely) + list(m.grad_norms)
        finally:
            for l in logs:
                del l.isEnabledFor
        if want is None:
            want = got
    ctx.check('as many', len(got) == len(want))
    for x, y in zip(got, want):
        ctx.eq('same answers', x, y)
