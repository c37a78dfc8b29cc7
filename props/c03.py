"""Eigenvalue bounds.

Symbolic mode uses Gershgorin's theorem as the (only) mathematical lemma: for a
symmetric K, lambda_max <= max_i (K_ii + sum_{j != i} |K_ij|).  The solver
decides, for all contents, that the reported bound dominates every such row
expression of the matrix the object documents.  Concrete replays use the actual
eigenvalues, so a bound that is valid but tighter than Gershgorin is not
reported."""
from symx.harness import harness
from . import common as C
from .c02 import Mk


def rowsums(ctx, D):
    out = []
    for i, r in enumerate(D):
        s = r[i]
        for j, v in enumerate(r):
            if j != i:
                s = s + ctx.abs(v)
        out.append(s)
    return out


def probes(n):
    """unit vectors, windows of ones, alternating signs, hats"""
    out = [[int(i == j) for j in range(n)] for i in {0, n // 2, n - 1}]
    out += [[1] * n, [(-1) ** j for j in range(n)], [1 + min(j, n - 1 - j) for j in range(n)]]
    out += [[int(a <= j < b) for j in range(n)] for a, b in {(0, n // 2 + 1), (n // 4, n - n // 4), (n // 2, n)}]
    return out


def bounded(ctx, M, D, label):
    n = len(D)
    b = M.upper_eig_bound()
    if ctx.symbolic:
        # quadratic forms of fixed vectors: a violation here is an eigenvalue above the bound
        for v in probes(n)[:4] if 'kron' in label else probes(n):
            y = C.mv(D, v)
            ctx.check('%s: quadratic form of %r above the bound' % (label, v),
                      sum((a * b for a, b in zip(v, y) if a), 0) <= b * sum(a * a for a in v))
        for i, s in enumerate(rowsums(ctx, D)):
            ctx.check('%s: bound below Gershgorin row %d' % (label, i), s <= b)
    else:
        import numpy as np
        lam = np.linalg.eigvalsh(np.array(D, dtype=float)).max()
        ctx.check('%s: eigenvalue %r above bound %r' % (label, lam, b), lam <= b + 1e-9 * (1 + abs(lam)))
    b2 = M.upper_eig_bound()
    ctx.eq(label + ': bound repeatable', b2, b)
    x = ctx.vec('x', n)
    ctx.eq(label + ': product after bound', M.matvec(x), C.mv(D, list(x)))
    ctx.eq(label + ': dense view after bound', M.as_numpy(), D)


class PK(Mk):
    """non-negative diagonals (positive semi-definite parts)"""

    def diag(self, n):
        v = self.ctx.vec(self.name('v'), n, nonneg=True)
        return self.ctx.mod('linalg.diag').Diag(v), [[v[i] if i == j else 0 for j in range(n)] for i in range(n)]


def cases(k):
    return {
        'diag1': lambda: Mk.diag(k, 1), 'diag4': lambda: Mk.diag(k, 4), 'ident': lambda: k.ident(3),
        'kron_tt': lambda: k.kron(k.toep(2), k.toep(2)), 'kron_td': lambda: k.kron(k.toep(3), k.diag(2)),
        'kron_dt': lambda: k.kron(k.diag(2), k.toep(2)), 'kron_dd': lambda: k.kron(k.diag(2), k.diag(3)),
        'kron_it': lambda: k.kron(k.ident(2), k.toep(3)), 'kron_ti': lambda: k.kron(k.toep(2), k.ident(2)),
        'sum_tdi': lambda: k.sum(k.toep(3), k.diag(3), k.ident(3)),
        'sum_ttt': lambda: k.sum(k.toep(3), k.toep(3), k.toep(3)),
        'sum_one': lambda: k.sum(k.toep(4)),
        'sum_neg': lambda: k.sum(Mk.diag(k, 3), k.toep(3)),
        'block_t': lambda: k.symblock(2, lambda: k.toep(2)),
        'block_t3': lambda: k.symblock(3, lambda: k.toep(2)),
        'block_d': lambda: k.symblock(3, lambda: k.diag(2)),
        'block_i': lambda: k.symblock(2, lambda: k.ident(2)),
        'block_mixed': lambda: k.block(_mixed(k)),
        'sum_kron': lambda: k.sum(k.kron(k.toep(2), k.diag(2)), k.toep(4)),
        'sum_block': lambda: k.sum(k.symblock(2, lambda: k.toep(2)), k.ident(4)),
        'kron_sum': lambda: k.kron(k.sum(k.toep(2), k.diag(2)), k.diag(2)),
        'kron_kron': lambda: k.kron(k.diag(2), k.kron(k.toep(2), k.ident(2))),
        'diag40': lambda: Mk.diag(k, 40), 'sum_many': lambda: k.sum(*[k.toep(2) for _ in range(6)]),
        'kron_large': lambda: k.kron(k.diag(3), k.toep(3)), 'kron_three': lambda: k.kron(k.kron(k.toep(2), k.toep(2)), k.toep(2)),
        'block_t5': lambda: k.symblock(4, lambda: k.toep(2)), 'block_t7': lambda: k.symblock(2, lambda: k.toep(7)),
        'block_block': lambda: k.symblock(2, lambda: k.symblock(2, lambda: k.toep(2))),
        'block_sum': lambda: k.symblock(2, lambda: k.sum(k.toep(2), k.diag(2))),
    }


def _mixed(k):
    a, b, c = k.toep(2), k.diag(2), k.ident(2)
    return [[a, c], [c, b]]


@harness('C03', [dict(n=n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16)], [dict(n=n) for n in (10, 11, 13, 20, 24, 33)], budget=90,
         timeout=20)
def toeplitz(ctx, n):
    """Toeplitz from any first row"""
    k = Mk(ctx)
    bounded(ctx, *k.toep(n), label='toeplitz(%d)' % n)


@harness('C03', [dict(which=w) for w in cases(None)], budget=120, timeout=20)
def composite(ctx, which):
    """diagonal, identity, Kronecker, sum, block and nestings with positive semi-definite diagonal parts"""
    k = PK(ctx)
    M, D = cases(k)[which]()
    bounded(ctx, M, D, which)


@harness('C03', [dict(n=n) for n in (2, 3)], budget=60, timeout=20)
def quadratic_form(ctx, n):
    """the quadratic form itself: x'Kx <= bound x'x for all x (no lemma), Toeplitz and sums"""
    k = Mk(ctx)
    M, D = k.toep(n)
    b = M.upper_eig_bound()
    x = ctx.vec('x', n)
    y = C.mv(D, list(x))
    q = sum(x[i] * y[i] for i in range(n))
    ctx.check('quadratic form', q <= b * sum(v * v for v in x) + (0 if ctx.symbolic else 1e-9))


@harness('C03', [dict(n=n) for n in (1, 3)])
def integer_row(ctx, n):
    """integer first row"""
    t = ctx.ivec('t', n, -4, 4)
    M = ctx.mod('linalg.toeplitz').Toeplitz(t)
    bounded(ctx, M, C.toep(ctx.els(t)), 'integer toeplitz')
