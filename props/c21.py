"""Array utilities."""
from symx.harness import harness
from .c16 import pick


def util(ctx):
    return ctx.mod('util.numpy_convenience')


def lengths(ctx, k, hi=3):
    if k > 3:       # one long list
        return [(7 * i + 2) % 5 + (i == 4) * 20 for i in range(k)]
    return [pick(ctx, 'len%d' % i, list(range(hi + 1))) for i in range(k)]


@harness('C21', [dict(k=k, kind=t) for k in (1, 2, 3, 13) for t in ('list', 'iterator', 'array')], budget=100, max_paths=400)
def tesselate(ctx, k, kind):
    """pieces have the requested lengths and concatenate to the input, for all length lists"""
    lens = lengths(ctx, k, 3 if k < 3 else 2)
    n = sum(lens)
    x = ctx.vec('x', n)
    e = ctx.els(x)
    arg = dict(list=lambda: list(lens), iterator=lambda: iter(lens), array=lambda: ctx.np.array(lens))[kind]()
    out = util(ctx).tesselate(x, arg)
    ctx.check('number of pieces', len(out) == k)
    at = 0
    for p, l in zip(out, lens):
        ctx.check('length', len(p) == l)
        ctx.eq('piece', p, e[at:at + l])
        at += l
    ctx.eq('argument', x, e)
    if kind != 'iterator':
        ctx.check('lengths kept', [int(v) for v in arg] == lens)


@harness('C21', [dict(k=k) for k in (1, 2, 13)], budget=100, max_paths=200)
def tesselate_rows(ctx, k):
    """two-dimensional arrays split along the first axis"""
    lens = lengths(ctx, k, 2)
    X = ctx.np.zeros((sum(lens), 2))
    el = [[ctx.real('m%d_%d' % (i, j)) for j in range(2)] for i in range(sum(lens))]
    for i, r in enumerate(el):
        for j, v in enumerate(r):
            X[i, j] = v
    out = util(ctx).tesselate(X, lens)
    ctx.check('number of pieces', len(out) == k)
    at = 0
    for p, l in zip(out, lens):
        ctx.check('shape', tuple(p.shape) == (l, 2))
        for i in range(l):
            ctx.eq('row', p[i], el[at + i])
        at += l


@harness('C21', [dict(k=k) for k in (0, 1, 2, 3)], budget=100, max_paths=400)
def tesselate_rejects(ctx, k):
    """lengths which do not add up (or none) are rejected"""
    lens = lengths(ctx, k, 2)
    n = pick(ctx, 'n', list(range(5)))
    x = ctx.vec('x', n)
    if k == 0 or sum(lens) != n:
        ctx.raises('mismatch', ValueError, lambda: util(ctx).tesselate(x, lens))
    else:
        util(ctx).tesselate(x, lens)


@harness('C21', [dict(n=n, inclusive=i, kind=t) for n in (0, 1, 2, 3, 4) for i in (True, False) for t in ('array', 'list')],
         [dict(n=5, inclusive=i, kind='array') for i in (True, False)], budget=100, max_paths=400)
def search_descending(ctx, n, inclusive, kind):
    """any array and threshold, with ties"""
    xs = ctx.vec('xs', n, lo=-3, hi=3)
    e = ctx.els(xs)
    x = ctx.real('x', lo=-4, hi=4)
    arg = xs if kind == 'array' else list(e)
    if any(ctx.decide(b > a) for a, b in zip(e, e[1:])):
        ctx.raises('increasing', ValueError, lambda: util(ctx).search_descending(x, arg, inclusive))
        return
    got = util(ctx).search_descending(x, arg, inclusive)
    want = 0
    for v in e:
        if ctx.decide(v >= x if inclusive else v > x):
            want += 1
    ctx.eq('count', got, want)
    ctx.eq('argument', arg, e)


@harness('C21', [dict(n=n, inclusive=i) for n in (9, 20) for i in (True, False)], budget=100, max_paths=400)
def search_long(ctx, n, inclusive):
    """longer descending arrays, distinct entries, one tie"""
    e = [ctx.real('x0')]
    for i in range(1, n):
        g = ctx.real('g%d' % i, pos=True)
        e.append(e[-1] - g * (i != n // 2))
    xs, x = ctx.arr(e) * 1.0, ctx.real('x')
    k = pick(ctx, 'k', list(range(n + 1)))
    if k > 0:
        ctx.assume(e[k - 1] >= x if inclusive else e[k - 1] > x)
    if k < n:
        ctx.assume(e[k] < x if inclusive else e[k] <= x)
    ctx.eq('count', util(ctx).search_descending(x, xs, inclusive), k)
    j = 1 + (k % (n - 1))
    xs[j] = xs[j - 1] + 1
    ctx.raises('increasing', ValueError, lambda: util(ctx).search_descending(x, xs, inclusive))


@harness('C21', [dict(k=k, kind=t) for k in (1, 2, 3, 13) for t in ('array', 'list')], budget=100, max_paths=400)
def begin_end_indices(ctx, k, kind):
    lens = lengths(ctx, k)
    arg = ctx.np.array(lens) if kind == 'array' else list(lens)
    b, e = util(ctx).begin_end_indices(arg)
    want = [sum(lens[:i]) for i in range(k + 1)]
    ctx.eq('begins', b, want[:k])
    ctx.eq('ends', e, want[1:])
    ctx.check('argument', [int(v) for v in arg] == lens)


@harness('C21', [dict(D=D, extra=x, dtype=t) for D in (1, 2, 3, 4, 11) for x in (0, 1) for t in ('object', 'float')], budget=100)
def symmetric_map(ctx, D, extra, dtype):
    """entry (i, j) is the function of entry (min, max), once"""
    A = ctx.mat('a', D, D)
    e = [[A[i, j] for j in range(D)] for i in range(D)]
    c = ctx.real('c')
    calls = []

    def f(v, *a):
        calls.append(v)
        return 3 * v + (a[0] if a else 1)
    kw = dict(dtype=dtype) if dtype != 'object' else {}
    out = util(ctx).symm_2d_list_map(f, A, D, *([c] * extra), **kw)
    ctx.check('shape', tuple(out.shape) == (D, D))
    ctx.eq('entries', ctx.arr([[out[i, j] for j in range(D)] for i in range(D)]),
           ctx.arr([[3 * e[min(i, j)][max(i, j)] + (c if extra else 1) for j in range(D)] for i in range(D)]))
    ctx.eq('argument', A, ctx.arr(e))


@harness('C21', [dict(kind=t) for t in ('list', 'array')], budget=100, max_paths=400)
def chunks(ctx, kind):
    n, size = pick(ctx, 'n', list(range(6)) + [40]), pick(ctx, 'size', [1, 2, 3, 7, 16])
    x = ctx.vec('x', n)
    e = ctx.els(x)
    out = list(util(ctx).chunks(list(e) if kind == 'list' else x, size))
    ctx.check('number', len(out) == -(-n // size))
    for i, c in enumerate(out):
        ctx.eq('chunk', c, e[i * size:(i + 1) * size])


@harness('C21', [dict(lens=l) for l in ((1,), (3,), (2, 3), (3, 1), (2, 2, 2), (1, 3, 2), (2, 0), (0, 2, 1), (11, 13), (1, 40), (3, 4, 5), (2, 2, 2, 2), (2, 1, 3, 2, 1, 2))], budget=100)
def cartesian_product(ctx, lens):
    """all combinations, the last array varying fastest"""
    arrs = [ctx.vec('a%d_' % i, n) for i, n in enumerate(lens)]
    els = [ctx.els(a) for a in arrs]
    out = util(ctx).cartesian_product(*arrs)
    want = [[]]
    for e in els:
        want = [w + [v] for w in want for v in e]
    ctx.check('shape', tuple(out.shape) == (len(want), len(lens)))
    for i, w in enumerate(want):
        ctx.eq('row', out[i], w)
    for a, e in zip(arrs, els):
        ctx.eq('argument', a, e)


@harness('C21', [dict(kinds=k) for k in ('ir', 'ri', 'iir', 'rii')], budget=60)
def cartesian_mixed(ctx, kinds):
    """integer and real arrays together: no entry is rounded"""
    arrs = [(ctx.ivec('a%d_' % i, 2, -5, 5) if k == 'i' else ctx.vec('a%d_' % i, 2)) for i, k in enumerate(kinds)]
    want = [[]]
    for a in arrs:
        want = [w + [v] for w in want for v in ctx.els(a)]
    out = util(ctx).cartesian_product(*arrs)
    for i, w in enumerate(want):
        ctx.eq('row', out[i], w)


@harness('C21', [dict(shape=s) for s in ((1,), (3,), (2, 3), (1, 1), (2, 2, 2), (0,), (2, 0), (60,), (9, 11), (2, 3, 4, 2))], budget=100)
def map_entries(ctx, shape):
    n = 1
    for s in shape:
        n *= s
    x = ctx.vec('x', n)
    e = ctx.els(x)
    c = ctx.real('c')
    X = x.reshape(shape)
    out = util(ctx).map_entries(lambda v: v * v + c, X)
    ctx.check('shape', tuple(out.shape) == tuple(shape))
    ctx.eq('entries', out.reshape(-1), [v * v + c for v in e])
    ctx.eq('argument', x, e)


@harness('C21', [dict(layout=l) for l in ('transposed', 'reversed', 'columns', 'strided', 'axes', 'broadcast')], budget=100)
def map_entries_layout(ctx, layout):
    """arrays which are views of others"""
    x = ctx.vec('x', 6)
    e = ctx.els(x)
    X = x.reshape(2, 3)
    if layout == 'transposed':
        V, want, shape = X.T, [e[0], e[3], e[1], e[4], e[2], e[5]], (3, 2)
    elif layout == 'reversed':
        V, want, shape = x[::-1], e[::-1], (6,)
    elif layout == 'columns':
        V, want, shape = X[:, ::-1], [e[2], e[1], e[0], e[5], e[4], e[3]], (2, 3)
    elif layout == 'strided':
        V, want, shape = x[1::2], e[1::2], (3,)
    elif layout == 'axes':
        V, want, shape = x.reshape(1, 2, 3).T, [e[0], e[3], e[1], e[4], e[2], e[5]], (3, 2, 1)
    else:
        V, want, shape = X[1:, 1:2], [e[4]], (1, 1)
    out = util(ctx).map_entries(lambda v: v * v + 1, V)
    ctx.check('shape', tuple(out.shape) == shape)
    ctx.eq('entries', out.reshape(-1), [v * v + 1 for v in want])
    ctx.eq('argument', x, e)


@harness('C21', [dict(n=n) for n in (1, 2)], budget=100)
def smallest_eig(ctx, n):
    """the smallest eigenvalue of the Toeplitz matrix of a row"""
    t = ctx.vec('t', n, lo=-3, hi=3)
    e = ctx.els(t)
    ctx.eq('eigenvalue', util(ctx).smallest_eig(t), e[0] - ctx.abs(e[1]) if n == 2 else e[0])
    ctx.eq('argument', t, e)
