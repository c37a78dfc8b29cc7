"""Which parameters optimization moves, and where it can move them."""
import itertools
from symx.harness import harness
from .lmc import FK, MIX, Solver, leaf
from .model import M
from .c13 import _G
from .c14 import tape

LARGE = dict(MIX)
LARGE['d4'] = dict(D=4, lmc=[('rbf', 3, None), ('periodic', 1, None)], slfm=[('rbf', None), ('matern', None), ('rbf', None)],
                   indep=[('rbf', None)] * 4)
LARGE['kern'] = dict(D=2, lmc=[('periodic', 1, None), ('scaled_scaled_rbf', 2, None)], slfm=[('scaled_periodic', None), ('identity', None)],
                     indep=[('scaled_matern', None), ('periodic', None)])
SPECS = [m for m in LARGE if m not in ('uf',)]


def transform(ctx):
    return ctx.facade('paramz.transformations').Logexp()


def logexp(ctx, v):
    return ctx.els(transform(ctx).f(ctx.arr([v])))[0]


def documented(ctx, F):
    """(label, positive, current value) of every parameter documented to be free"""
    fk = F.fk
    out = []
    for q, e in enumerate(F.q):
        if e['kind'] != 'indep':
            for i, v in enumerate(ctx.els(fk.coreg_vecs[q])):
                out.append(('vector %d[%d]' % (q, i), False, v))
        if e['kind'] == 'lmc':
            for i, v in enumerate(ctx.els(fk.coreg_diags[q])):
                out.append(('diagonal %d[%d]' % (q, i), True, v))
        for nm, h in hyper(e['k']):
            out += [('kernel %d %s' % (q, nm), True, v) for v in ctx.els(h)]
    for d, v in enumerate(ctx.els(fk.noise)):
        out.append(('noise %d' % d, True, v))
    return out


def hyper(k):
    """named hyperparameters of a kernel"""
    out = []
    while hasattr(k, 'scale'):
        out.append(('scale', k.scale))
        k = k.k
    for nm in ('inv_lengthscale', 'period'):
        if hasattr(k, nm):
            out.append((nm, getattr(k, nm)))
    return out


def still(ctx, F, label):
    """what is never tuned: the diagonals of SLFM and the coregionalization of independent kernels"""
    for q, e in enumerate(F.q):
        if e['kind'] == 'slfm':
            ctx.eq('%s: diagonal %d stays zero' % (label, q), F.fk.coreg_diags[q], [0] * F.D)
        if e['kind'] == 'indep':
            ctx.eq('%s: diagonal %d stays at its output' % (label, q), F.fk.coreg_diags[q], e['kap'])
            ctx.eq('%s: vector %d stays zero' % (label, q), F.fk.coreg_vecs[q], [[0] * F.D])


def same(ctx, a, b):
    if ctx.symbolic:
        return a is b or (a - b).poly == {}
    return abs(a - b) <= 1e-10 * (1 + abs(a))


def match(ctx, label, docs, us, also=(), sign=False):
    """each documented value is the transform of an entry of its own, the same one in every round"""
    rounds = [(docs, us)] + list(also)
    left = list(range(len(us)))
    at = []
    f = {False: lambda v: v, True: lambda v: logexp(ctx, v)}
    ctx.check(label + ': as many free values as documented', all(len(u) == len(d) == len(us) for d, u in rounds))
    for k, (nm, pos, v) in enumerate(docs):
        hit = [i for i in left if all(same(ctx, d[k][2], f[pos](u[i])) for d, u in rounds)]
        i = hit[0] if hit else left[0]
        left.remove(i)
        for d, u in rounds:
            ctx.eq('%s: %s' % (label, nm), d[k][2], f[pos](u[i]))
            if pos and sign:
                ctx.check('%s: %s positive' % (label, nm), d[k][2] > 0)
        at.append(i)
    return at


def apart(ctx, n, lo=-3, hi=3):
    """n values in [lo, hi], no two equal"""
    return [lo + (hi - lo) * (4 * i + 1 + 2 * ctx.real('u%d' % i, lo=0, hi=1)) / (4 * n) for i in range(n)]


@harness('C28', [dict(mix=m) for m in SPECS], budget=60)
def moved(ctx, mix):
    """setting the free values to anything sets each documented parameter from an entry of its own, and nothing else"""
    F = FK(ctx, LARGE[mix])
    fk = F.fk
    n = fk._size_transformed()
    rounds = []
    for r in 'uw':
        us = [ctx.real('%s%d' % (r, i), lo=-3, hi=3) for i in range(n)]
        fk.optimizer_array = ctx.arr(us)
        rounds.append((documented(ctx, F), us))
        still(ctx, F, r)
    match(ctx, 'moved', *rounds[0], rounds[1:], sign=True)


@harness('C28', [dict(mix=m) for m in SPECS], budget=60)
def gradients(ctx, mix):
    """the gradient in the free values is the stored one times the derivative of the transform, entry by entry"""
    F = FK(ctx, LARGE[mix])
    fk, D = F.fk, F.D
    n = fk._size_transformed()
    us = apart(ctx, n)
    fk.optimizer_array = ctx.arr(us)
    docs = documented(ctx, F)
    at = match(ctx, 'values', docs, us)
    g1 = [ctx.mat('ga%d' % q, len(e['A']), D) for q, e in enumerate(F.q)]
    g2 = [ctx.vec('gk%d' % q, D) for q, e in enumerate(F.q)]
    g3 = [list(ctx.vec('gp%d' % q, len(e['names']))) if e['names'] else [] for q, e in enumerate(F.q)]
    g4 = ctx.vec('gn', D)
    fk.update_gradient(_G(g1, g2, g3, g4))
    want = {}
    for q, e in enumerate(F.q):
        if e['kind'] != 'indep':
            for i, v in enumerate(ctx.els(g1[q])):
                want['vector %d[%d]' % (q, i)] = v
        if e['kind'] == 'lmc':
            for i, v in enumerate(ctx.els(g2[q])):
                want['diagonal %d[%d]' % (q, i)] = v
    for d, v in enumerate(ctx.els(g4)):
        want['noise %d' % d] = v
    got = ctx.els(fk._transform_gradients(ctx.arr(ctx.els(fk.gradient)) * 1))
    ctx.check('one entry per free value', len(got) == n)
    for (nm, pos, v), i in zip(docs, at):
        if nm in want:
            ctx.eq('gradient of %s' % nm, got[i], ctx.els(transform(ctx).gradfactor(ctx.arr([v]), ctx.arr([want[nm]])))[0] if pos else want[nm])


@harness('C28', [dict(mix=m, fix=f) for m in ('lmc22', 'mix', 'mix3', 'scaled', 'ads') for f in ('noise', 'vector', 'diagonal', 'kernel')],
         budget=60)
def user_fixed(ctx, mix, fix):
    """a parameter the user fixed keeps its value, the others move; released, it moves again"""
    F = FK(ctx, LARGE[mix])
    fk = F.fk
    p = {'noise': lambda: leaf(ctx, fk, fk.noise), 'vector': lambda: leaf(ctx, fk, fk.coreg_vecs[0]),
         'diagonal': lambda: leaf(ctx, fk, fk.coreg_diags[0]), 'kernel': lambda: F.q[0]['k']}[fix]()
    ctx.check('the parameter is one of the kernel', p is not None)
    lab = {'noise': 'noise ', 'vector': 'vector 0', 'diagonal': 'diagonal 0', 'kernel': 'kernel 0'}[fix]
    before = [d for d in documented(ctx, F) if d[0].startswith(lab)]
    p.constrain_fixed()
    n = fk._size_transformed()
    us = apart(ctx, n)
    fk.optimizer_array = ctx.arr(us)
    docs = documented(ctx, F)
    match(ctx, 'others', [d for d in docs if not d[0].startswith(lab)], us)
    after = [d for d in docs if d[0].startswith(lab)]
    ctx.check('something is fixed', len(before) > 0)
    for a, b in zip(before, after):
        ctx.eq('fixed ' + a[0], b[2], a[2])
    still(ctx, F, 'fixed')


@harness('C28', [dict(mix=m) for m in ('lmc2', 'slfm2', 'indep_idx', 'mix', 'ads')], budget=100, raw_timeout=1.0)
def of_models(ctx, mix):
    """a model's free values are those of its kernel, whatever else it holds"""
    Solver(ctx)
    tape(ctx, itertools.repeat(1))
    m = M(ctx, mix)
    F = m.F
    n = m.model._size_transformed()
    us = [ctx.real('u%d' % i, lo=ctx.frac(-3, 2), hi=ctx.frac(3, 2)) for i in range(n)]
    m.model.update_model(False)
    m.model.optimizer_array = ctx.arr(us)
    match(ctx, 'model', documented(ctx, F), us)
    still(ctx, F, 'model')
