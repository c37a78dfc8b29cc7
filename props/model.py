"""Interpolated models with concrete inputs, symbolic outputs and parameters, and what they should report."""
from fractions import Fraction
from . import common as C
from .lmc import FK, MIX, Solver, asrows, outs, euclid

XS = {1: [[[0], ['7/10']], [['1/5'], [1]], [['1/2'], ['3/5']]],
      2: [[[0, '1/2'], ['7/10', 0]], [['1/5', 1], [1, '2/5']], [['1/2', '1/3'], ['3/5', '1/4']]],
      3: [[[0, '1/2', 0], ['7/10', 0, 1]], [['1/5', 1, '1/2'], [1, '2/5', '1/3']]]}
ZS = {1: [[['1/4']], [['9/10'], ['1/3']], [['2/5']]],
      2: [[['1/4', '1/4']], [['9/10', '1/2'], ['1/3', '1/5']], [['2/5', 0]]],
      3: [[['1/4', '1/4', '1/2']], [['9/10', '1/2', '1/5'], ['1/3', '1/5', '2/5']]]}
# more points of each output, for the larger configurations
for _P, _D in ((1, 3), (2, 3), (3, 2)):
    for _d in range(_D):
        XS[_P][_d] += [['%d/61' % ((25 * _i + 17 * _d + 7 * _p * _i + 9 * _p + 11) % 61) for _p in range(_P)] for _i in range(30)]


def num(ctx, v):
    f = Fraction(v)
    return ctx.frac(f.numerator, f.denominator)


def points(ctx, P, lst):
    arrs, out = [], []
    for X in lst:
        rows = [[num(ctx, v) for v in r] for r in X]
        out.append(rows)
        arrs.append(ctx.arr(rows) * 1.0 if rows else ctx.np.zeros((0, P)))
    return arrs, out


class M:
    """a model under test with its data and documented meaning"""

    def __init__(self, ctx, mix, prediction='on-the-fly', normalize=False, m=1, lens=None, tag='', metrics=False, xs=None,
                 ys=None, spec=None, F=None, trace=1, solver=True, lo=None, hi=None, unit=1, yunit=None, **kw):
        self.ctx = ctx
        spec = MIX[mix] if spec is None else spec
        self.F = F or FK(ctx, spec, tag, setdim=False, unit=unit)
        self.D, self.P = self.F.D, self.F.P
        lens = lens or [2] * self.D
        self.lens = lens
        self.X, self.xl = points(ctx, self.P, xs or [XS[self.P][d][:n] for d, n in enumerate(lens)])
        if ys is None:
            ys = outs(ctx, tag + 'y', lens)[0]
            for d, Y in enumerate(ys):        # every output varies
                Y[1] = Y[0] + ctx.real('%sgap%d' % (tag, d), lo=1, hi=4)
            if yunit is not None:
                ys = [Y * yunit for Y in ys]
        self.Y = ys
        self.m, self.lo, self.hi = m, lo, hi
        self.ms = list(m) if isinstance(m, (list, tuple)) else [m] * self.P
        self.kw = dict(normalize=normalize, prediction=prediction, m=self.ms if self.P > 1 else m, max_procs=1,
                       metrics=metrics, trace_iterations=trace)
        if lo is not None:
            self.kw.update(lo=lo)
        if hi is not None:
            self.kw.update(hi=hi)
        if m is None:
            del self.kw['m']
            self.ms = None
        self.kw.update(kw)
        self.normalize = normalize
        self.prediction = prediction
        self.model = ctx.mod('models.interpolated_llgp').InterpolatedLLGP(
            self.X, self.Y, functional_kernel=self.F.fk, **self.kw)

    # ---- documented quantities
    def y(self):
        ctx = self.ctx
        out = []
        self.norm = []
        for Y in self.Y:
            e = ctx.els(Y)
            if self.normalize:
                mu = sum(e, 0) / len(e)
                sd = ctx.sqrt(sum(((v - mu) * (v - mu) for v in e), 0) / len(e))
                self.norm.append((mu, sd))
                out += [(v - mu) / sd for v in e]
            else:
                self.norm.append((0, 1))
                out += e
        return out

    def own(self, lens=None):
        return [d for d, n in enumerate(lens or self.lens) for _ in range(n)]

    def grids(self):
        ctx, F = self.ctx, self.F
        I = ctx.mod('approx.interpolation')
        out = {}
        for ad in F.active():
            Xs = [ctx.arr([[r[p] for p in ad] for r in X]) * 1.0 for X in self.xl]
            sel = lambda v: None if v is None else ctx.arr([v[p] for p in ad] if isinstance(v, list) else [v])
            axes = I.autogrid(Xs, sel(self.lo), sel(self.hi), None if self.ms is None else ctx.np.array([self.ms[p] for p in ad]))
            out[ad] = axes
        return out

    def W(self, axes, ad, pl):
        """dense interpolation matrix of the points pl (per output) onto the grid of every output"""
        ctx = self.ctx
        I = ctx.mod('approx.interpolation')
        Xs = [ctx.arr([[r[p] for p in ad] for r in X]) * 1.0 if X else ctx.np.zeros((0, len(ad))) for X in pl]
        m = 1
        for a in axes:
            m *= len(a)
        n = sum(len(X) for X in pl)
        D = self.D
        rows = C.zeros(n, D * m)
        k = 0
        if n:
            W = I.multi_interpolant(Xs, *axes).toarray()
            rows = [[W[i, j] for j in range(D * m)] for i in range(n)]
        return rows

    def KUU(self, axes, ad):
        ctx, F = self.ctx, self.F
        pts = [[]]
        for a in axes:
            pts = [p + [v] for p in pts for v in list(a)]
        tot = None
        full = tuple(range(len(ad)))
        for q in F.active()[ad]:
            g = [[F.q[q]['f'](euclid(ctx, u, v, full)) for v in pts] for u in pts]
            t = C.kron(F.B(q), g)
            tot = t if tot is None else C.madd(tot, t)
        return tot

    def parts(self):
        """per active-dimension set: axes, W, K_UU"""
        g = self.grids()
        return {ad: (g[ad], self.W(g[ad], ad, self.xl), self.KUU(g[ad], ad)) for ad in g}

    def Kt(self, parts):
        n = sum(self.lens)
        own = self.own()
        K = [[self.F.noise[own[i]] if i == j else 0 for j in range(n)] for i in range(n)]
        for ad, (_, W, U) in parts.items():
            K = C.madd(K, C.mm(C.mm(W, U), C.tr(W)))
        return K

    def K(self):
        own = self.own()
        K = self.F.K(self.xl)
        return [[v + self.F.noise[own[i]] if i == j else v for j, v in enumerate(r)] for i, r in enumerate(K)]

    def inv(self, K):
        return asrows(self.ctx, self.ctx.inv(self.ctx.arr(K)))

    def native(self):
        return [sum((self.F.B(q)[d][d] * e['f'](0 * self.F.noise[0]) for q, e in enumerate(self.F.q)), 0)
                for d in range(self.D)]

    def raw(self, zl, clip=True):
        """(mean, variance) per test point, stacked, before undoing the normalization"""
        ctx = self.ctx
        parts = self.parts()
        y = self.y()
        V = self.inv(self.Kt(parts))
        al = C.mv(V, y)
        N = sum(len(Z) for Z in zl)
        mean = [0] * N
        for ad, (axes, W, U) in parts.items():
            Ws = self.W(axes, ad, zl)
            ga = C.mv(U, C.mv(C.tr(W), al))
            mean = [a + b for a, b in zip(mean, C.mv(Ws, ga))] if N else mean
        own = self.own([len(Z) for Z in zl])
        nat = self.native()
        if self.prediction == 'precompute':
            (axes, W, U), = parts.values()
            XU = C.mm(W, U)
            nu = [sum((XU[i][u] * V[i][j] * XU[j][u] for i in range(len(V)) for j in range(len(V))), 0)
                  for u in range(len(U))]
            ex = C.mv(self.W(axes, list(parts)[0], zl), nu)
        else:
            Vk = V if self.prediction == 'on-the-fly' else self.inv(self.K())
            ks = self.F.K(zl, self.xl)
            ex = [sum((k[i] * Vk[i][j] * k[j] for i in range(len(V)) for j in range(len(V))), 0) for k in ks]
        var = [nat[d] + self.F.noise[d] - e for d, e in zip(own, ex)]
        if clip:
            var = [ctx.max([v, 0 * v]) for v in var]
        return mean, var

    def loglik(self):
        ctx = self.ctx
        y = self.y()
        V = self.inv(self.Kt(self.parts()))
        n = len(y)
        qd = sum((y[i] * V[i][j] * y[j] for i in range(n) for j in range(n)), 0)
        return -(ctx.logdet(ctx.arr(self.K())) + qd + n * ctx.log(2 * ctx.pi)) / 2


def split(lst, lens):
    out, k = [], 0
    for n in lens:
        out.append(lst[k:k + n])
        k += n
    return out
