"""Automatic grid."""
from symx.harness import harness
from . import common as C


def shape_check(ctx, g, lo, hi, m, label):
    """g: axis; lo, hi: smaller of user/data minimum, larger of maxima; m: requested number"""
    e = ctx.els(g)
    ctx.check(label + ' size', len(e) == m + 4 and g.ndim == 1)
    w = (hi - lo) / m
    a, b = lo - 2 * w, hi + 2 * w
    ctx.eq(label + ' points', e, [a + (b - a) * k / (m + 3) for k in range(m + 4)])
    for k in range(m + 3):
        ctx.check(label + ' increasing', e[k] < e[k + 1])
    ctx.check(label + ' two points below the data', e[1] < lo)
    ctx.check(label + ' two points above the data', e[-2] > hi)


MS = [None, [1], [2], [3], [5]]
CF = [dict(lens=l, lo=a, hi=b, m=m) for l, m in (([1, 1], None), ([2], [1]), ([1, 2, 3], None), ([2, 1], [3]))
      for a in (0, 1) for b in (0, 1)]
CF += [dict(lens=[2, 1], lo=0, hi=0, m=[k], P=1) for k in (1, 2, 4, 6)]
CF += [dict(lens=[2, 1], lo=0, hi=1, m=[k], P=1) for k in (25, 64)]
CF += [dict(lens=[1, 1, 4], lo=0, hi=0, m=None), dict(lens=[5], lo=1, hi=0, m=None), dict(lens=[1, 1, 1, 1, 1], lo=0, hi=0, m=None)]
CF += [dict(lens=[2, 1], lo=1, hi=1, m=[2, 3], P=2), dict(lens=[1, 2], lo=0, hi=0, m=None, P=2),
       dict(lens=[2], lo=0, hi=1, m=[4, 1], P=2), dict(lens=[2, 3], lo=1, hi=0, m=[1, 2], P=2)]


@harness('C08', CF, [dict(lens=[2, 2], lo=1, hi=1, m=[2, 3, 1], P=3), dict(lens=[4, 3, 2], lo=0, hi=0, m=None)],
         budget=120, max_paths=300)
def grid(ctx, lens, lo, hi, m, P=1):
    """any inputs, bounds given or not, sizes given or not"""
    np = ctx.np
    Xs = [ctx.mat('X%d' % i, n, P) for i, n in enumerate(lens)]
    LO = ctx.vec('lo', P) if lo else None
    HI = ctx.vec('hi', P) if hi else None
    keep = [np.array(X) for X in Xs]
    ref = []
    for p in range(P):
        col = [v for X in Xs for v in list(X[:, p])]
        a = ctx.min(col + ([LO[p]] if lo else []))
        b = ctx.max(col + ([HI[p]] if hi else []))
        ctx.assume(a < b)
        ref.append((a, b))
    kinds = [None] if m is None else [list(m), tuple(m), np.array(m), np.array([float(v) for v in m])]
    for M in kinds:
        mk = None if M is None else [int(v) for v in M]
        kl, kh = (np.array(LO) if lo else None), (np.array(HI) if hi else None)
        gs = ctx.mod('approx.interpolation').autogrid(Xs, LO, HI, M)
        ctx.check('one axis per dimension', len(gs) == P)
        for p, g in enumerate(gs):
            mm = sum(lens) // len(lens) if m is None else m[p]
            shape_check(ctx, g, ref[p][0], ref[p][1], mm, 'axis %d' % p)
        for X, k in zip(Xs, keep):
            ctx.eq('inputs unchanged', X, k)
        if lo:
            ctx.eq('lower bound unchanged', LO, kl)
        if hi:
            ctx.eq('upper bound unchanged', HI, kh)
        if M is not None:
            ctx.check('sizes unchanged', [int(v) for v in M] == mk)


@harness('C08', [dict(lo=a, hi=b) for a in (0, 1) for b in (0, 1)], budget=60, max_paths=300)
def integer_inputs(ctx, lo, hi):
    """integer inputs and bounds"""
    np = ctx.np
    X = ctx.ivec('X', 3, -5, 5).reshape(3, 1)
    LO = ctx.ivec('lo', 1, -9, 9) if lo else None
    HI = ctx.ivec('hi', 1, -9, 9) if hi else None
    col = ctx.els(X)
    a = ctx.min(col + (ctx.els(LO) if lo else []))
    b = ctx.max(col + (ctx.els(HI) if hi else []))
    ctx.assume(a < b)
    keep = ctx.els(X), (ctx.els(LO) if lo else 0), (ctx.els(HI) if hi else 0)
    gs = ctx.mod('approx.interpolation').autogrid([X], LO, HI, [3])
    shape_check(ctx, gs[0], a, b, 3, 'integer')
    ctx.eq('inputs unchanged', ctx.els(X), keep[0])
    if lo:
        ctx.eq('lower bound unchanged', ctx.els(LO), keep[1])
    if hi:
        ctx.eq('upper bound unchanged', ctx.els(HI), keep[2])


@harness('C08', [dict(lens=[2, 1], P=1), dict(lens=[1, 2], P=2), dict(lens=[2, 1], P=1, user=1)], budget=100, max_paths=300)
def again(ctx, lens, P, user=0):
    """grids do not depend on earlier calls, nor on what the same arrays held then"""
    np = ctx.np
    Xs = [ctx.mat('X%d' % i, n, P) for i, n in enumerate(lens)]
    ref = []
    LO, HI = ctx.vec('lo', P), ctx.vec('hi', P)
    for p in range(P):
        col = [v for X in Xs for v in list(X[:, p])]
        a, b = ctx.min(col + [LO[p]] * user), ctx.max(col + [HI[p]] * user)
        ctx.assume(a < b)
        ref.append((a, b))
    A = ctx.mod('approx.interpolation').autogrid
    old = [np.arange(n * P).reshape(n, P) / 2 - i for i, n in enumerate(lens)]
    if user:
        gs = C.reused(ctx, lambda X, l, h: A(X, l, h, [2] * P), [old, np.array([-9.0] * P), np.array([9.0] * P)], [Xs, LO, HI])
    else:
        gs = C.reused(ctx, lambda X: A(X, None, None, [2] * P), [old], [Xs])
    for p, g in enumerate(gs):
        shape_check(ctx, g, ref[p][0], ref[p][1], 2, 'axis %d' % p)
        g[...] = 0
    gs = A(Xs, LO if user else None, HI if user else None, [2] * P)
    for p, g in enumerate(gs):
        shape_check(ctx, g, ref[p][0], ref[p][1], 2, 'axis %d again' % p)
