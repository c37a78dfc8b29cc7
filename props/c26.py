"""Assembly of an interpolated model: grids, distances, interpolation."""
from symx.harness import harness
from . import common as C
from .c16 import pick
from .lmc import FK, MIX, Solver, euclid
from .model import M, XS, num

UF = {'one': dict(D=2, lmc=[('uf', 1, None)]),
      'both': dict(D=2, P=2, lmc=[('uf', 1, None)]),
      'second': dict(D=2, P=2, lmc=[('uf', 1, [1])]),
      'split': dict(D=2, P=2, lmc=[('uf', 1, [0])], slfm=[('uf', [1])]),
      'mixed': MIX['uf'],
      'reversed': dict(D=2, P=2, lmc=[('uf', 1, [1, 0])], slfm=[('uf', [1])]),
      'three': dict(D=2, P=3, lmc=[('uf', 1, [2, 0])], slfm=[('uf', [1])]),
      'three_a': dict(D=2, P=3, lmc=[('uf', 1, [2])], slfm=[('uf', [1, 2])])}


def dists(ctx, m):
    """the model's distances generate, as a block-Toeplitz matrix, the distances between all pairs of grid points"""
    for ad, axes in m.grids().items():
        got = m.model.grid_axes[ad]
        ctx.check('number of axes', len(got) == len(axes))
        for p, (a, b) in enumerate(zip(got, axes)):
            ctx.check('grid size', len(a) == len(b))
            ctx.eq('grid of dimension %d' % ad[p], a, b)
        pts = [[]]
        for a in axes:
            pts = [p + [v] for p in pts for v in list(a)]
        full = tuple(range(len(ad)))
        d = m.model.dists[ad]
        ctx.check('shape of distances', tuple(d.shape) == tuple(len(a) for a in axes))
        T = C.bttb(ctx.els(d), [len(a) for a in axes])
        if len(pts) <= 30:
            ctx.eq('distances', [v for r in T for v in r], [euclid(ctx, u, v, full) for u in pts for v in pts])
        else:
            ctx.eq('distances', ctx.els(d), [euclid(ctx, pts[0], v, full) for v in pts])


def operator(ctx, m):
    x = ctx.vec('x', sum(m.lens), lo=-2, hi=2)
    ctx.eq('training covariance', m.model.kernel.K.matvec(x), C.mv(m.Kt(m.parts()), ctx.els(x)))


def bounds(ctx, P, kind):
    """lower and upper bound given by the user: one per dimension, inside, at or outside the range of the data"""
    if kind == 'none':
        return None, None
    f = ctx.frac
    los = [[f(-1, 2), f(1, 3), f(-1, 5)], [0 * f(1, 1), f(-1, 1), f(1, 4)]][kind == 'in'][:P]
    his = [[f(3, 2), f(1, 2), f(2, 1)], [f(1, 1), f(9, 10), f(6, 5)]][kind == 'in'][:P]
    if kind == 'lo':
        return los, None
    if kind == 'hi':
        return None, his
    return los, his


SIZES = {1: [1], 2: [1, 2], 3: [2, 1, 3]}


@harness('C26', [dict(spec=s, kind=k) for s in UF for k in ('none', 'out', 'in', 'lo', 'hi')],
         [dict(spec=s, kind=k, big=1) for s in UF for k in ('none', 'out', 'in', 'lo', 'hi')], budget=120)
def assembled(ctx, spec, kind, big=0):
    """grids, distances and training covariance, with different bounds and sizes per dimension"""
    Solver(ctx)
    P = UF[spec].get('P', 1)
    lo, hi = bounds(ctx, P, kind)
    ms = [v + big for v in SIZES[P]]
    conv = lambda v: None if v is None else list(v)
    keep = (conv(lo), conv(hi), list(ms))
    m = M(ctx, None, spec=UF[spec], lo=lo, hi=hi, m=ms if P > 1 else ms[0])
    ctx.check('bounds unchanged', all((a is None) == (b is None) and (a is None or len(a) == len(b)) for a, b in zip((lo, hi, ms), keep)))
    dists(ctx, m)
    operator(ctx, m)


@harness('C26', [dict(spec=s, lens=l) for s in ('one', 'split', 'both') for l in ([2, 2], [3, 2])], budget=120)
def default_size(ctx, spec, lens):
    """without a size, the average number of inputs"""
    Solver(ctx)
    P = UF[spec].get('P', 1)
    xs = [XS[P][0] + [['1/3', '4/5', '1/7'][:P]], XS[P][1]]
    m = M(ctx, None, spec=UF[spec], m=None, lens=lens, xs=[x[:n] for x, n in zip(xs, lens)])
    dists(ctx, m)
    if spec != 'both':
        operator(ctx, m)


@harness('C26', [dict(lens=l) for l in ([2, 2], [2, 3], [3, 2])], budget=120)
def unequal(ctx, lens):
    """outputs of different lengths: training covariance and gradient in the order of the outputs"""
    Solver(ctx)
    xs = [XS[1][0] + [['1/3']], XS[1][1] + [['9/10']]]
    m = M(ctx, 'lmc2', lens=lens, xs=[x[:n] for x, n in zip(xs, lens)])
    dists(ctx, m)
    operator(ctx, m)


@harness('C26', [dict(which=w) for w in ('lo', 'hi')] + [dict(which=w, away=1) for w in ('lo', 'hi')],
         [dict(which=w) for w in ('lo', 'hi', 'both')], budget=200, floor_split=True, max_paths=80)
def symbolic_bounds(ctx, which, away=0):
    """any bound given by the user, in one dimension, as a number or one-element list"""
    Solver(ctx)
    lo = ctx.real('lo', lo=-1, hi=1) if which != 'hi' else None
    hi = ctx.real('hi', lo=-1 if away else 0, hi=1 if away else 2) if which != 'lo' else None
    xs = None if not away else [[['1/2'], ['9/10']]] if which == 'lo' else [[['-9/10'], ['-1/2']]]   # zero is outside the data
    spec = dict(D=1, lmc=[('uf', 1, None)])
    m = M(ctx, None, spec=spec, m=1, xs=xs, lo=None if lo is None else [lo], hi=None if hi is None else [hi])
    dists(ctx, m)
    operator(ctx, m)


@harness('C26', [{}], budget=60)
def flat_inputs(ctx):
    """vectors and single-column matrices are the same inputs"""
    Solver(ctx)
    a = M(ctx, 'lmc2')
    flat = [X.reshape(-1) for X in a.X]
    F = FK(ctx, MIX['lmc2'], '', setdim=False)
    b = ctx.mod('models.interpolated_llgp').InterpolatedLLGP(flat, a.Y, functional_kernel=F.fk, **a.kw)
    x = ctx.vec('x', sum(a.lens), lo=-2, hi=2)
    ctx.eq('training covariance', b.kernel.K.matvec(x), C.mv(a.Kt(a.parts()), ctx.els(x)))
    ctx.eq('inputs', [v for X in b.Xs for v in ctx.els(X)], [v for X in a.model.Xs for v in ctx.els(X)])
    ctx.check('shape', all(X.ndim == 2 for X in b.Xs))
