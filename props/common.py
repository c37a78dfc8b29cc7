"""Shared oracle pieces, written with plain loops so that they run on symbolic
and on floating-point values alike."""


def rows(D):
    return [[D[i][j] for j in range(len(D[0]))] for i in range(len(D))]


def zeros(m, n):
    return [[0] * n for _ in range(m)]


def mv(D, x):
    return [sum((D[i][j] * x[j] for j in range(len(x))), 0) for i in range(len(D))]


def mm(A, B):
    n = len(B[0]) if B else 0
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), 0) for j in range(n)] for i in range(len(A))]


def tr(A):
    return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]


def madd(A, B):
    return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]


def mscale(A, k):
    return [[a * k for a in r] for r in A]


def kron(A, B):
    return [[A[i][j] * B[k][l] for j in range(len(A[0])) for l in range(len(B[0]))]
            for i in range(len(A)) for k in range(len(B))]


def bdiag(*Ms):
    R = sum(len(M) for M in Ms)
    C = sum(len(M[0]) for M in Ms)
    out = zeros(R, C)
    r = c = 0
    for M in Ms:
        for i in range(len(M)):
            for j in range(len(M[0])):
                out[r + i][c + j] = M[i][j]
        r += len(M)
        c += len(M[0])
    return out


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def toep(t):
    n = len(t)
    return [[t[abs(i - j)] for j in range(n)] for i in range(n)]


def bttb(t, sizes):
    """entry (i, j) = t at the per-dimension absolute index difference"""
    N = 1
    for s in sizes:
        N *= s

    def unr(i):
        out = []
        for s in reversed(sizes):
            out.append(i % s)
            i //= s
        return out[::-1]
    idx = [unr(i) for i in range(N)]
    out = zeros(N, N)
    for i in range(N):
        for j in range(N):
            k = 0
            for a, b, s in zip(idx[i], idx[j], sizes):
                k = k * s + abs(a - b)
            out[i][j] = t[k]
    return out


def check_matrix(ctx, label, M, D, full=True, x=None, cols=2, own=False, shares=True):
    """M acts as the dense matrix D (list of rows) in every way.

    own: results are the caller's; shares: results may share memory with the operand"""
    np = ctx.np
    m, n = len(D), len(D[0])
    ctx.check(label + ' shape', tuple(int(s) for s in M.shape) == (m, n))
    if x is None:
        x = ctx.vec('x', n)
    keep = np.array(x)
    ctx.eq(label + ' product with a vector', M.matvec(x), mv(D, list(x)))
    ctx.eq(label + ' operand unchanged', x, keep)
    if not full:
        return
    X = ctx.mat('X', n, cols)
    keep2 = np.array(X)
    ctx.eq(label + ' product with a matrix', M.matmat(X), mm(D, [list(r) for r in X]))
    ctx.eq(label + ' matrix operand unchanged', X, keep2)
    op = M.as_linear_operator()
    ctx.eq(label + ' linear operator on a vector', op.matvec(x), mv(D, list(x)))
    ctx.eq(label + ' linear operator on a matrix', op.matmat(X), mm(D, [list(r) for r in X]))
    ctx.eq(label + ' dense view', M.as_numpy(), D)
    # again, in another order, on other operands
    y = ctx.vec('y', n)
    a = M.matvec(y)
    b = M.matvec(x)
    ctx.eq(label + ' repeated product', a, mv(D, list(y)))
    ctx.eq(label + ' repeated product', b, mv(D, list(x)))
    ctx.eq(label + ' dense view after products', M.as_numpy(), D)
    ctx.eq(label + ' operator after products', M.as_linear_operator().matvec(y), mv(D, list(y)))
    z = np.array(x)      # one operand array with changing contents
    M.matvec(z)
    z[...] = y
    ctx.eq(label + ' product after the operand changed in place', M.matvec(z), mv(D, list(y)))
    Z, Y2 = np.array(X), ctx.mat('Y', n, cols)
    first = M.matmat(Z)
    Z[...] = Y2
    ctx.eq(label + ' matrix product after the operand changed in place', M.matmat(Z), mm(D, [list(r) for r in Y2]))
    if first is not Z and not shares:
        ctx.eq(label + ' earlier matrix product kept', first, mm(D, [list(r) for r in X]))
    if own:     # results belong to the caller: writing into them changes nothing
        for r in (a, b, M.as_numpy(), M.matmat(X)):
            r[...] = 0
        ctx.eq(label + ' product after results were overwritten', M.matvec(y), mv(D, list(y)))
        ctx.eq(label + ' dense view after results were overwritten', M.as_numpy(), D)


def reused(ctx, f, before, now):
    """f(*now), with argument arrays that held `before` in an earlier call (same objects, same shapes)"""
    bufs = []
    for b in before:
        if isinstance(b, list):
            bufs.append([ctx.np.array(v) * 1.0 for v in b])
        else:
            bufs.append(ctx.np.array(b) * 1.0)
    f(*bufs)
    for b, v in zip(bufs, now):
        for bb, vv in (zip(b, v) if isinstance(b, list) else [(b, v)]):
            bb[...] = vv
    return f(*bufs)
