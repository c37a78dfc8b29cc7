"""Validation of models and kernel specifications."""
from symx.harness import harness
from .c16 import pick

SHAPES = [(1,), (2,), (3,), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3), (1, 1, 1), (2, 2, 1), (3, 1, 2)]


def build(ctx, Xs, Ys, normalize):
    """a model whose predictions are not of interest"""
    G = ctx.mod('models.multigp').MultiGP
    np = ctx.np

    class Toy(G):
        def parameters_changed(self):
            pass

        def log_likelihood(self):
            return 0

        def _raw_predict(self, Xs):
            return [np.zeros(len(X)) for X in Xs], [np.ones(len(X)) for X in Xs]
    return Toy(Xs, Ys, normalize=normalize, name='toy')


def outcome(ctx, label, wrong, f):
    if wrong:
        ctx.raises(label, ValueError, f)
        return None
    return f()


def varies(ctx, e):
    return any(ctx.decide(v != e[0]) for v in e[1:])


@harness('C22', [dict(yshape=y, normalize=n) for y in ((1,), (2,), (3,), (2, 1), (2, 2), (1, 1, 1)) for n in (True, False)],
         budget=100, max_paths=300)
def one_output(ctx, yshape, normalize):
    """one output: every combination of shapes, arbitrary observations"""
    xshape = pick(ctx, 'x', SHAPES)
    n = 1
    for s in yshape:
        n *= s
    y = ctx.vec('y', n, lo=-3, hi=3)
    e = ctx.els(y)
    Y = y.reshape(yshape)
    X = ctx.np.arange(_size(xshape)).reshape(xshape) * 1.0
    bad = len(yshape) != 1 or len(xshape) > 2 or xshape[0] != yshape[0]
    bad = bad or not varies(ctx, e)
    m = outcome(ctx, 'one output', bad, lambda: build(ctx, [X], [Y], normalize))
    if m is not None:
        P = 1 if len(xshape) == 1 else xshape[1]
        ctx.check('dimensions', (m.input_dim, m.output_dim) == (P, 1))
        ctx.check('inputs', [tuple(v.shape) for v in m.Xs] == [(xshape[0], P)])
        predictions(ctx, m, P, 1)
    ctx.eq('observations untouched', y, e)


def _size(s):
    n = 1
    for v in s:
        n *= v
    return n


def predictions(ctx, m, P, D):
    """prediction inputs"""
    np = ctx.np
    shape = pick(ctx, 'z', [(0,), (2,), (2, 1), (2, 2), (1, 3), (0, 1), (0, 2)])
    where = D - 1
    Z = [np.zeros((0, P)) for _ in range(D)]
    Z[where] = np.zeros(shape)
    ok = (1 if len(shape) == 1 else shape[1]) == P
    for f in (m.predict, m.predict_quantiles):
        out = outcome(ctx, 'prediction inputs', not ok, lambda: f(Z))
        if out is not None and f == m.predict:
            ctx.check('prediction lengths', [len(v) for v in out[0]] == [0] * where + [shape[0]])


@harness('C22', [dict(D=D, first=s) for D in (2, 3) for s in ((2,), (2, 1), (2, 2))], budget=200, max_paths=400)
def several_outputs(ctx, D, first):
    """several outputs: dimensions agree or not; a constant output anywhere; lengths differ anywhere"""
    S = [(2,), (2, 1), (2, 2), (3, 2), (2, 3)]
    shapes = [first] + [pick(ctx, 'x%d' % i, S if D == 2 or i == 1 else S[:3]) for i in range(1, D)]
    np = ctx.np
    ys = [ctx.vec('y%d_' % i, 2, lo=-3, hi=3) for i in range(D)]
    Xs = [np.arange(_size(s)).reshape(s) * 1.0 for s in shapes]
    dims = {1 if len(s) == 1 else s[1] for s in shapes}
    bad = len(dims) > 1 or any(s[0] != 2 for s in shapes)
    bad = bad or not all(varies(ctx, ctx.els(y)) for y in ys)
    m = outcome(ctx, 'outputs', bad, lambda: build(ctx, Xs, ys, False))
    if m is not None:
        P = dims.pop()
        ctx.check('dimensions', (m.input_dim, m.output_dim) == (P, D))
        predictions(ctx, m, P, D)


@harness('C22', [dict(nx=a, ny=b) for a in (0, 1, 2, 3) for b in (0, 1, 2, 3)], budget=60)
def counts(ctx, nx, ny):
    """numbers of inputs and outputs"""
    Xs = [ctx.np.arange(2) * 1.0 for _ in range(nx)]
    Ys = [ctx.vec('y%d_' % i, 2, lo=-3, hi=3) for i in range(ny)]
    for Y in Ys:
        ctx.assume(Y[0] != Y[1])
    outcome(ctx, 'counts', nx != ny or nx == 0, lambda: build(ctx, Xs, Ys, True))


@harness('C22', [dict(n=n, normalize=z) for n in (1, 2, 3, 4, 7) for z in (True, False)], budget=60)
def constant_output(ctx, n, normalize):
    """an output with a single value, whatever the value"""
    c = ctx.real('c', lo=-3, hi=3)
    y = ctx.arr([c] * n) * 1.0
    v = ctx.arr([0, 1]) * 1.0
    ctx.raises('constant', ValueError, lambda: build(ctx, [ctx.np.zeros(2), ctx.np.zeros(n)], [v, y], normalize))


def kernels(ctx, n, tag):
    R = ctx.mod('kern.rbf').RBF
    return [R(name='%s%d' % (tag, i)) for i in range(n)]


OM = 'omitted'


@harness('C22', [dict(D=D, lmc=l) for D in (OM, 0, 1, 2) for l in (OM, 0, 1, 2)], budget=200, max_paths=600)
def specification(ctx, D, lmc):
    """every combination of kernel lists, ranks and indices"""
    FK = ctx.mod('lmc.functional_kernel').FunctionalKernel
    small = D in (OM, 0)
    slfm = pick(ctx, 'slfm', [OM, 1] if small else [OM, 0, 1, 2])
    indep = pick(ctx, 'indep', [OM, 1] if small else [OM, 0, 1, 2])
    ranks = pick(ctx, 'ranks', [OM, 1] if small else [OM, 0, 1, 2])
    index = pick(ctx, 'index', [OM] if small or indep in (OM, 0) else [OM, 1, 2])
    kw = {}
    if D != OM:
        kw['D'] = D
    if lmc != OM:
        kw['lmc_kernels'] = kernels(ctx, lmc, 'l')
    rs = []
    if ranks != OM:
        rs = [ctx.int('rank%d' % i, -1, 2) for i in range(ranks)]
        if not small:
            rs = [pick(ctx, 'r%d' % i, [-1, 0, 1, 2] if i == 0 else [0, 2]) for i in range(ranks)]
        else:
            rs = [1] * ranks
        kw['lmc_ranks'] = list(rs)
    if slfm != OM:
        kw['slfm_kernels'] = kernels(ctx, slfm, 's')
    if indep != OM:
        kw['indep_gp'] = kernels(ctx, indep, 'i')
    ix = list(range(0 if indep == OM else indep))
    if index != OM:
        ix = [(D - 1 - i) % D for i in range(index)]
        kw['indep_gp_index'] = list(ix)
    c = lambda v: 0 if v == OM else v
    bad = D in (OM, 0) or c(lmc) + c(slfm) + c(indep) == 0 or c(lmc) != c(ranks) or any(r <= 0 for r in rs) \
        or len(ix) != c(indep)
    if not bad and any(i >= D for i in ix):
        return                                          # an output that does not exist: not specified
    lists = {k: list(v) for k, v in kw.items() if k != 'D'}
    fk = outcome(ctx, 'specification', bad, lambda: FK(**kw))
    for k, v in lists.items():
        ctx.check('arguments kept', list(kw[k]) == v)
    if fk is None:
        return
    ctx.check('counts', (fk.Q, fk.D) == (c(lmc) + c(slfm) + c(indep), D))
    ctx.check('ranks', [len(v) for v in fk.coreg_vecs] == list(rs) + [1] * (c(slfm) + c(indep)))
    ctx.check('outputs', all(tuple(v.shape)[1:] == (D,) for v in fk.coreg_vecs) and len(fk.noise) == D)
    for q, d in enumerate(ix):
        ctx.eq('independent kernel', fk.coreg_diags[c(lmc) + c(slfm) + q], [1 if i == d else 0 for i in range(D)])
        ctx.eq('independent kernel', fk.coreg_vecs[c(lmc) + c(slfm) + q], [[0] * D])


@harness('C22', [dict()], budget=100, max_paths=100)
def interpolated(ctx):
    """the interpolated model needs a kernel and a known prediction method"""
    class I(ctx.mod('models.interpolated_llgp').InterpolatedLLGP):
        def parameters_changed(self):
            pass
    FK = ctx.mod('lmc.functional_kernel').FunctionalKernel
    X = [ctx.np.arange(3) * 1.0]
    Y = [ctx.arr([0, 1, 3]) * 1.0]
    pred = pick(ctx, 'prediction', ['on-the-fly', 'precompute', 'exact', 'inexact', ''])
    has = pick(ctx, 'kernel', [True, False])
    kw = dict(prediction=pred, max_procs=1)
    if has:
        kw['functional_kernel'] = FK(D=1, lmc_kernels=kernels(ctx, 1, 'l'), lmc_ranks=[1])
    outcome(ctx, 'model', not has or pred in ('inexact', ''), lambda: I(X, Y, **kw))
