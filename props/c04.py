"""Structured (Schur) factorization of a positive definite Toeplitz matrix.

Positive definiteness is stated through the reflection coefficients: every
positive definite symmetric Toeplitz matrix has a unique first row generated by
t0 > 0 and Schur parameters in (-1, 1) (a bijection), so a harness that takes
these as inputs covers all of them; the small sizes take the row itself with
its leading minors positive."""
from symx.harness import harness
from . import common as C


def cholesky(ctx, n, t):
    """oracle: textbook column Cholesky of the dense matrix"""
    T = C.toep(t)
    L = C.zeros(n, n)
    for j in range(n):
        s = T[j][j]
        for k in range(j):
            s = s - L[j][k] * L[j][k]
        L[j][j] = ctx.sqrt(s)
        for i in range(j + 1, n):
            s = T[i][j]
            for k in range(j):
                s = s - L[i][k] * L[j][k]
            L[i][j] = s / L[j][j]
    return L


def minors(ctx, t, n):
    out = []
    T = C.toep(t)
    for k in range(1, n + 1):
        out.append(_det([r[:k] for r in T[:k]]))
    return out


def _det(A):
    if len(A) == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * _det([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(len(A)))


def factor(ctx, n, t):
    np = ctx.np
    keep = np.array(t)
    R = ctx.mod('linalg.shur').shur(t)
    ctx.eq('argument unchanged', t, keep)
    e = ctx.els(R)
    rows = [e[i * n:(i + 1) * n] for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.eq('upper triangular %d,%d' % (i, j), rows[i][j], 0)
    for i in range(n):
        ctx.check('positive diagonal %d' % i, rows[i][i] > 0)
    return rows


@harness('C04', [dict(n=n) for n in (1, 2, 3)], budget=100, timeout=30)
def row(ctx, n):
    """any first row with positive leading minors"""
    t = ctx.vec('t', n)
    for m in minors(ctx, list(t), n):
        ctx.assume(m > 0)
    rows = factor(ctx, n, t)
    G = C.mm(C.tr(rows), rows)
    ctx.eq("C'C", G, C.toep(list(t)))


def from_reflection(t0, ks):
    """Levinson-Durbin in reverse: first row from t0 and reflection coefficients"""
    r = [t0]
    a = []
    err = t0
    for m, k in enumerate(ks):
        acc = k * err
        for i, ai in enumerate(a):
            acc = acc + ai * r[m - i]
        r.append(acc)
        a = [ai - k * bi for ai, bi in zip(a, a[::-1])] + [k]
        err = err * (1 - k * k)
    return r


F = [(3, 5), (-4, 5), (0, 1), (5, 13), (-3, 5), (4, 5)]
LG = [[(3 * i + i * i // 4) % 6 for i in range(n - 1)] for n in (8, 13)]
SL = [[0, None, 1], [0, 1, None], [1, 3, None], [2, None, 0], [2, 2, None],
      [0, 1, 3, None], [3, 2, None, 1], [1, 5, 0, 3, None], [4, 3, 2, 1, None]]


@harness('C04', [dict(ks=[None] * n) for n in (1, 2)] + [dict(ks=k) for k in SL + LG],
         [dict(ks=k) for k in ([0, None, 3, 1, 4], [1, 2, 3, 4, 5, None])], budget=120, timeout=30)
def reflection(ctx, ks):
    """first row generated from any t0 > 0 and reflection coefficients: all of them arbitrary in (-1, 1) up to
    size 3; for sizes 4-6 one arbitrary and the others fixed rationals"""
    t0 = ctx.real('t0', pos=True)
    kk = []
    for i, k in enumerate(ks):
        if k is None:
            v = ctx.real('k%d' % i, lo=-1, hi=1)
            ctx.assume(v > -1)
            ctx.assume(v < 1)
        else:
            v = ctx.frac(*F[k])
        kk.append(v)
    n = len(ks) + 1
    r = from_reflection(t0, kk)
    t = ctx.np.array(r) if not ctx.symbolic else ctx.arr(r)
    rows = factor(ctx, n, t)
    G = C.mm(C.tr(rows), rows)
    ctx.eq("C'C", G, C.toep(list(t)))


@harness('C04', [dict(n=n) for n in (2, 3)], budget=100, timeout=30)
def again(ctx, n):
    """the factor of a row does not depend on earlier factorizations, nor on what the same array held then"""
    t = ctx.vec('t', n)
    for m in minors(ctx, list(t), n):
        ctx.assume(m > 0)
    f = ctx.mod('linalg.shur').shur
    e = ctx.els(C.reused(ctx, f, [ctx.np.array([4.0, 2.0, 1.0][:n])], [t]))
    rows = [e[i * n:(i + 1) * n] for i in range(n)]
    ctx.eq("C'C", C.mm(C.tr(rows), rows), C.toep(list(t)))
