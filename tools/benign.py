#!/usr/bin/env python3
"""benign.py [ID...]: behaviour-preserving rewrites of runlmc, applied one at a time to a scratch copy; every listed check has to
stay quiet (exit 0).  Prints what is undecided.  Development aid; no check uses it."""
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {
    'b01-pow2': ('C01 C12', [('runlmc/linalg/bttb.py', "    return [2 ** (int(xx - 1).bit_length()) for xx in x]\n",
                              "    out = []\n    for xx in x:\n        p = 1\n        while p < xx:\n            p *= 2\n        out.append(p)\n    return out\n")]),
    'b02-toeplitz': ('C01 C02', [('runlmc/linalg/toeplitz.py', "        x_fft = np.fft.rfft(x, n=(len(x) * 2))\n        x_fft *= self._circ_fft\n        return np.fft.irfft(x_fft)[:len(x)]\n",
                                  "        n = len(x)\n        padded = np.zeros(2 * n)\n        padded[:n] = x\n        prod = np.fft.rfft(padded) * self._circ_fft\n        return np.fft.irfft(prod, n=2 * n)[:n]\n")]),
    'b03-offsets': ('C02 C07 C11 C21', [('runlmc/util/numpy_convenience.py', "    ends = np.add.accumulate(lens)\n    begins = np.roll(ends, 1)\n    begins[0] = 0\n",
                                         "    ends = np.cumsum(lens)\n    begins = ends - np.asarray(lens)\n")]),
    'b04-shur': ('C04', [('runlmc/linalg/shur.py', "np.sqrt(1 - rho) * np.sqrt(1 + rho)", "np.sqrt(1 - rho ** 2)")]),
    'b05-clip': ('C05 C07 C15', [('runlmc/approx/interpolation.py', "        coeff_idx[coeff_idx < 0] = 0  # threshold (no wraparound below)\n        coeff_idx[coeff_idx >= grid_size] = grid_size - 1  # none above\n",
                                  "        coeff_idx = np.clip(coeff_idx, 0, grid_size - 1)\n")]),
    'b06-blockdiag': ('C07 C15 C26', [('runlmc/approx/interpolation.py', re.compile(r"    row_lens = \[len\(X\) for X in Xs\]\n    row_begins.*?shape=\(order, ncols\)\)\n", re.S),
                                       "    return scipy.sparse.block_diag(Ws, format='csr')\n"),
                                      ('runlmc/approx/interpolation.py', "    multiout_grid_sizes = np.arange(len(Xs)) * m\n", "")]),
    'b07-autogrid': ('C08 C26', [('runlmc/approx/interpolation.py', "    max_lo = np.vstack([X.min(axis=0) for X in Xs]).min(axis=0)\n    min_hi = np.vstack([X.max(axis=0) for X in Xs]).max(axis=0)\n",
                                  "    stacked = np.concatenate(Xs, axis=0)\n    max_lo = stacked.min(axis=0)\n    min_hi = stacked.max(axis=0)\n")]),
    'b08-bt': ('C12', [('runlmc/lmc/grid_kernel.py', "    bt = np.tensordot(Bs, tops, axes=(0, 0))\n", "    bt = sum(B[:, :, np.newaxis] * top for B, top in zip(Bs, tops))\n")]),
    'b09-coregscale': ('C11 C13 C25', [('runlmc/lmc/likelihood.py', re.compile(r"        rbegins, rends = begin_end_indices\(row_block_lens\)\n.*?        return K\n", re.S),
                                    "        scale = np.repeat(np.repeat(A, row_block_lens, axis=0), col_block_lens, axis=1)\n        return K * scale\n")]),
    'b10-coreggrad': ('C13', [('runlmc/lmc/likelihood.py', "                    dAdt[j] += ai\n                    dAdt.T[j] += ai\n", "                    dAdt[j, :] = ai\n                    dAdt = dAdt + dAdt.T\n")]),
    'b11-probes': ('C13 C14 C16 C27', [('runlmc/lmc/stochastic_deriv.py', "np.random.randint(0, 2, (self._n_it, n)) * 2 - 1", "np.random.choice([-1, 1], size=(self._n_it, n))"),
                               ('runlmc/lmc/stochastic_deriv.py', "        trace = 0\n        for r, rinv in zip(self._rs, self._inv_rs):\n            dr = dKdt.matvec(r)\n            trace += rinv.dot(dr)\n        return trace / self._n_it\n",
                                "        return np.mean([rinv.dot(dKdt.matvec(r))\n                        for r, rinv in zip(self._rs, self._inv_rs)])\n")]),
    'b12-clipvar': ('C15 C16 C17', [('runlmc/models/interpolated_llgp.py', "        var = native_variance - explained_variance\n        var[var < 0] = 0\n\n        endpoints = np.add.accumulate(lens)[:-1]\n",
                                     "        var = np.maximum(native_variance - explained_variance, 0)\n\n        endpoints = np.cumsum(lens)[:-1]\n")]),
    'b13-onthefly': ('C15 C16', [('runlmc/models/interpolated_llgp.py', "        inverted = inverted.reshape(K_test_X.shape).T  # also if no points\n\n        full_mat = K_test_X.dot(inverted)\n        return np.diag(full_mat)\n",
                                  "        inverted = inverted.reshape(K_test_X.shape)  # also if no points\n\n        return (K_test_X * inverted).sum(axis=1)\n")]),
    'b14-quantiles': ('C16 C17', [('runlmc/models/multigp.py', re.compile(r"        quantiles = np.fromiter\(quantiles, dtype=float\)\n.*?        return quantiles\n", re.S),
                                   "        levels = np.array([q / 100. for q in quantiles], dtype=float)\n        z = scipy.stats.norm.ppf(levels)\n        result = []\n        for i, (m, v) in enumerate(zip(mu, var)):\n            q = m[:, None] + np.sqrt(v)[:, None] * z[None, :]\n            if self.normalizer:\n                q = self.normalizer[i].inverse_mean(q)\n            result.append(q)\n        return result\n")]),
    'b15-iterative': ('C19', [('runlmc/approx/iterative.py', "        method = sla.minres if minres else sla.cg\n", "        if minres:\n            method = sla.minres\n        else:\n            method = sla.cg\n"),
                              ('runlmc/approx/iterative.py', "                reconstruction = la.norm(y - op.matvec(x))\n                if reconstruction < tol:\n", "                if residual(x) < tol:\n"),
                              ('runlmc/approx/iterative.py', "        error = la.norm(y - op.matvec(Kinv_y))\n", "        error = residual(Kinv_y)\n"),
                              ('runlmc/approx/iterative.py', "        ctr = 0\n", "        ctr = 0\n\n        def residual(v):\n            return la.norm(op.matvec(v) - y)\n")]),
    'b16-opt': ('C20', [('runlmc/models/optimization.py', "            if grad_norm < min_grad_ratio * rolling_max:\n                permitted_drops -= 1\n\n            if info['n_iter'] >= max_it or permitted_drops <= 0:\n",
                         "            drops += int(grad_norm < min_grad_ratio * rolling_max)\n            out_of_budget = info['n_iter'] >= max_it\n\n            if out_of_budget or drops >= permitted_drops:\n"),
                        ('runlmc/models/optimization.py', "        rolling_max = 0\n", "        rolling_max, drops = 0, 0\n")]),
    'b17-utils': ('C21', [('runlmc/util/numpy_convenience.py', "    option = 'left' if inclusive else 'right'\n    idx = np.searchsorted(xs[::-1], x, option)\n    return len(xs) - idx\n", "    mask = xs >= x if inclusive else xs > x\n    return int(np.count_nonzero(mask))\n"),
                          ('runlmc/util/numpy_convenience.py', "    ends = np.fromiter(accumulate(lenit), dtype=np.int)\n", "    ends = np.cumsum(list(lenit), dtype=int)\n"),
                          ('runlmc/util/numpy_convenience.py', "    arr = np.empty([len(a) for a in arrays] + [narr], dtype=dtype)\n    for i, a in enumerate(np.ix_(*arrays)):\n        arr[..., i] = a\n    return arr.reshape(-1, narr)",
                           "    mesh = np.meshgrid(*arrays, indexing='ij')\n    return np.stack([a.ravel() for a in mesh], axis=-1).astype(dtype).reshape(-1, narr)")]),
    'b18-prior': ('C18', [('runlmc/parameterization/model.py', "        log_transformed_prior = sum(\n            prior.lnpdf(self.param_array[indices]).sum()\n            for prior, indices in self.priors.items())\n",
                           "        log_transformed_prior = 0.\n        for prior, indices in self.priors.items():\n            log_transformed_prior += np.sum(prior.lnpdf(self.param_array[indices]))\n"),
                          ('runlmc/parameterization/model.py', "            np.put(grad, indices, prior.lnpdf_grad(self.param_array[indices]))\n", "            grad[indices] = prior.lnpdf_grad(self.param_array[indices])\n")]),
    'b19-norm': ('C17', [('runlmc/util/normalizer.py', "        Y = np.ma.masked_invalid(Y, copy=False)\n        self.mean = Y.mean(0).view(np.ndarray)\n        self.std = Y.std(0).view(np.ndarray)\n",
                          "        valid = np.ma.masked_invalid(Y, copy=False)\n        self.mean = valid.mean(0).view(np.ndarray)\n        self.std = valid.std(0).view(np.ndarray)\n"),
                         ('runlmc/util/normalizer.py', "        return (X * self.std) + self.mean\n", "        return self.mean + self.std * X\n"),
                         ('runlmc/util/normalizer.py', "        return var * (self.std**2)\n", "        return np.square(self.std) * var\n")]),
    'b20-blocks': ('C02 C12', [('runlmc/linalg/block_diag.py', re.compile(r"        result = np.empty\(self.shape\[0\], dtype=self.dtype\)\n.*?        return result\n", re.S),
                                "        return np.concatenate([block.matvec(x[cbegin:cend]) for _, _, cbegin, cend, block in self._iterate_all()])\n"),
                               ('runlmc/linalg/block_matrix.py', re.compile(r"        result = np.zeros_like\(x, dtype=self.dtype\)\n.*?        return result\n", re.S),
                                "        parts = [x[b:e] for b, e in zip(self.begins, self.ends)]\n        return np.hstack([sum(block.matvec(p) for block, p in zip(row, parts)) for row in self.blocks])\n")]),
    'b21-kron': ('C02 C12', [('runlmc/linalg/kronecker.py', re.compile(r"        for M in \[self.B, self.A\]:\n.*?        return x.reshape\(-1\)\n", re.S),
                              "        X = x.reshape(self.A.shape[1], self.B.shape[1])\n        return self.A.matmat(self.B.matmat(X.T).T).ravel()\n")]),
    'b22-matmat': ('C01 C02', [('runlmc/linalg/matrix.py', "        result = np.empty(shape=(X.shape[1], self.shape[0]))\n        for i, col in enumerate(X.T):\n            result[i] = self.matvec(col)\n        return result.T\n",
                                "        result = np.empty(shape=(self.shape[0], X.shape[1]))\n        for i in range(X.shape[1]):\n            result[:, i] = self.matvec(X[:, i])\n        return result\n")]),
    'b23-mean': ('C23', [('runlmc/mean/constant.py', "        return [np.ones(len(X)) * c for X, c in zip(Xs, self.c)]\n", "        return [np.full(len(X), c) for X, c in zip(Xs, self.c)]\n"),
                         ('runlmc/mean/constant.py', "        return [[np.ones(len(X)) if i == j else np.zeros(len(X))\n                 for j, X in enumerate(Xs)]\n                for i in range(len(self.c))]\n",
                          "        n = len(self.c)\n        grads = []\n        for i in range(n):\n            row = [np.zeros(len(X)) for X in Xs]\n            if i < len(row):\n                row[i] += 1\n            grads.append(row)\n        return grads\n")]),
    'b24-gpy': ('C24', [('runlmc/models/gpy_lmc.py', "        meta = np.repeat(np.arange(len(Xs)), lenls).reshape(-1, 1)\n", "        meta = np.concatenate([np.full(n, i) for i, n in enumerate(lenls)]).reshape(-1, 1)\n"),
                        ('runlmc/models/gpy_lmc.py', "        Qs = Qs.reshape(len(quantiles), -1)\n", "        Qs = Qs[:, :, 0]\n")]),
    'b25-coregmats': ('C11 C12', [('runlmc/lmc/functional_kernel.py', "        return [a.T.dot(a) + np.diag(k) for a, k in zip(cv, cd)]\n",
                                   "        mats = []\n        for a, k in zip(cv, cd):\n            mat = np.einsum('ri,rj->ij', a, a)\n            mat[np.diag_indices(self.D)] += k\n            mats.append(mat)\n        return mats\n")]),
    'b27-exactderiv': ('C13', [('runlmc/lmc/exact_deriv.py', "        return (dKdt * self.Kinv).sum()\n", "        return np.einsum('ij,ji->', self.Kinv, dKdt)\n")]),
    'b28-rbf': ('C09 C10', [('runlmc/kern/rbf.py', "        return np.exp(-0.5 * np.square(dists) * self.inv_lengthscale)\n", "        return np.exp(-(dists ** 2) * self.inv_lengthscale / 2)\n"),
                            ('runlmc/kern/rbf.py', "        sqdists = np.square(dists)\n        exp = np.exp(-0.5 * sqdists * self.inv_lengthscale)\n        return [exp * -0.5 * sqdists]\n",
                             "        return [-np.square(dists) / 2 * self.from_dist(dists)]\n"),
                            ('runlmc/kern/matern32.py', "        return [(1 + scaled_dist) * dexp + d_scaled_dist * exp]\n", "        return [-scaled_dist * d_scaled_dist * exp]\n")]),
    'b29-validate': ('C22', [('runlmc/models/multigp.py', "        dims = set(X.shape[1] for X in Xs if X.ndim > 1)\n        if not dims:\n            dims = {1}\n        if len(dims) != 1:\n",
                              "        dims = {X.shape[1] for X in Xs if X.ndim == 2} or {1}\n        if len(dims) > 1:\n"),
                             ('runlmc/lmc/functional_kernel.py', "        if not all(map(lambda rank: rank > 0, lmc_ranks)):\n", "        if any(rank <= 0 for rank in lmc_ranks):\n")]),
    'b30-cache': ('C15 C16', [('runlmc/models/interpolated_llgp.py', "    @functools.lru_cache(maxsize=1)\n    def _native_variance(self):\n", "    def _native_variance(self):\n"),
                              ('runlmc/models/interpolated_llgp.py', "        self._native_variance.cache_clear()\n", "")]),
    'b31-grids': ('C26', [('runlmc/models/interpolated_llgp.py', "            grid = cartesian_product(*self.grid_axes[active_dim])\n            first = grid[0]\n            grid_shape = list(map(len, self.grid_axes[active_dim]))\n            grid_shape.append(len(self.grid_axes[active_dim]))\n            grid = grid.reshape(grid_shape)\n",
                           "            axes = self.grid_axes[active_dim]\n            grid = np.stack(np.meshgrid(*axes, indexing='ij'), axis=-1)\n            first = np.array([a[0] for a in axes])\n")]),
    'b32-eig': ('C03', [('runlmc/linalg/toeplitz.py', "        abstop = np.abs(self.top)\n        totals = np.copy(abstop)\n        totals[0] = abstop.sum()\n        totals[1:] -= abstop[:0:-1]\n        totals = np.add.accumulate(totals)\n",
                         "        abstop = np.abs(self.top)\n        totals = np.empty(len(abstop))\n        totals[0] = abstop.sum()\n        for i in range(1, len(totals)):\n            totals[i] = totals[i - 1] - abstop[-i] + abstop[i]\n")]),
    'b33-loglik': ('C25', [('runlmc/models/interpolated_llgp.py', "        diag = np.diag(self._dense().L[0])\n        lgdet = np.log(diag).sum() * 2\n        sgn = np.sign(diag).prod()\n",
                            "        diag = self._dense().L[0].diagonal()\n        lgdet = 2 * np.sum(np.log(diag))\n        sgn = np.prod(np.sign(diag))\n")]),
    'b34-bicubic': ('C06', [('runlmc/approx/interpolation.py', "        ycoeff_idx[ycoeff_idx < 0] = 0  # threshold (no wraparound below)\n        ycoeff_idx[ycoeff_idx >= my] = my - 1  # none above\n", "        ycoeff_idx = np.minimum(np.maximum(ycoeff_idx, 0), my - 1)\n"),
                            ('runlmc/approx/interpolation.py', "    dx, dy = gridx[1] - gridx[0], gridy[1] - gridy[0]\n", "    dx = np.diff(gridx[:2])[0]\n    dy = np.diff(gridy[:2])[0]\n")]),
    'b35-bicubic-kron': ('C06 C07', [('runlmc/approx/interpolation.py', re.compile(r"    factors_y = \(samples\[:, 1\] - gridy\[0\]\) / dy\n.*?    return interp2d\n", re.S),
                            "    Wx = interp_cubic(gridx, samples[:, 0])\n    Wy = interp_cubic(gridy, samples[:, 1])\n    rows = [scipy.sparse.kron(Wx[i], Wy[i]) for i in range(n)]\n    return scipy.sparse.vstack(rows, format='csr')\n")]),
    'b36-slfm': ('C12', [('runlmc/lmc/grid_kernel.py', "    toeps = BlockDiag(np.repeat(deduped_toeps, ranks))\n", "    toeps = BlockDiag([t for t, r in zip(deduped_toeps, ranks) for _ in range(r)])\n"),
                         ('runlmc/lmc/grid_kernel.py', "    deduped_toeps = np.array([BTTB(top.ravel(), top.shape)\n                              for top in grid_k[:len(all_coreg)]])\n", "    deduped_toeps = [BTTB(top.ravel(), top.shape)\n                     for top in grid_k[:len(all_coreg)]]\n")]),
    'b37-native': ('C15', [('runlmc/models/interpolated_llgp.py', re.compile(r"        coregs = np.column_stack\(.*?        return native_var\n", re.S),
                            "        fk = self._functional_kernel\n        zero_dist = {v: np.zeros(1) for v in fk.active_dims}\n        native_var = np.array(fk.noise, dtype=float)\n        for B, k in zip(fk.coreg_mats(), fk.eval_kernels(zero_dist)):\n            native_var += np.diag(B) * k[0]\n        return native_var\n")]),
    'b38-inline': ('C14 C15', [('runlmc/util/inline_pool.py', "        if self._pool:\n            return self._pool.starmap(f, ls)\n        return [f(*x) for x in ls]\n",
                                "        if self._pool is None:\n            return list(map(lambda args: f(*args), ls))\n        return self._pool.starmap(f, ls)\n")]),
}


def one(i):
    checks, edits = B[i]
    wt = '/tmp/benign_%s' % i
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            t = open(p).read()
            if isinstance(old, str):
                assert t.count(old) == 1, (i, f, old, t.count(old))
                t = t.replace(old, new)
            else:
                assert len(old.findall(t)) == 1, (i, f, old.pattern)
                t = old.sub(lambda m: new, t)
            open(p, 'w').write(t)
        for c in checks.split():
            r = subprocess.run('. ./env.sh; SYMX_REPO=%s exec /opt/pvenv/bin/python check.py %s --no-evidence -v' % (wt, c), shell=True,
                               cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable='/bin/bash')
            out = r.stdout.decode()
            open('/tmp/benign_%s_%s.log' % (i, c), 'w').write(out)
            last = [l for l in out.split('\n') if re.match(r'C\d\d: ', l)]
            print(i, c, 'rc', r.returncode, (last or [out[-300:]])[-1][:110], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(B):
        one(i)
