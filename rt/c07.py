import numpy as np

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


class fixed_randn:
    """gnp.randn returns the given matrix."""

    def __init__(self, N):
        self.N, self.shapes = N, []

    def __enter__(self):
        self.old = gnp.randn

        def f(*s, **k):
            s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
            self.shapes.append(s)
            return gnp.asarray(self.N)

        gnp.randn = f
        return self

    def __exit__(self, *a):
        gnp.randn = self.old


@check(40)
def unconditional(t):
    n, b, d = t.size("n", 1, 12, 40), t.size("b", 1, 6), t.size("d", 1, 3, 9)
    xt, th = pts(t, n, d, "xt"), theta(t, d)
    K = well(t, xt, th)
    method = t.pick("method", ["chol", "svd"])
    mod = gp.core.Model(None, kernel, None, A(th), meantype="zero")
    with fixed_randn(np.eye(n)) as fr:
        C = np_(mod.sample_paths(A(xt), n, method=method))
    if fr.shapes != [(n, n)] and sum(int(np.prod(s)) for s in fr.shapes) in (0, n * n):
        raise Skip()  # drawn by other means
    t.close("factor", C @ C.T, K, 1e-8)
    N = t.rng.normal(size=(n, b))
    with fixed_randn(N) as fr:
        z = mod.sample_paths(A(xt), b, method=method)
    t.close("linear in the draws", z, C @ N, 1e-8)
    t.true("draw shape", fr.shapes == [(n, b)], got=fr.shapes)
    z = mod.sample_paths(A(xt), b, method=method)
    t.shape("paths", z, (n, b))


@check(60)
def conditional(t):
    nt, ni, m, b, d = t.size("nt", 1, 20), t.size("ni", 1, 8), t.size("m", 1, 8), t.size("b", 1, 5), t.size("d", 1, 3, 9)
    ii, it = t.rng.integers(0, nt, ni), t.rng.integers(0, nt, m)
    zs, zi, lam = t.rng.normal(size=(nt, b)), t.rng.normal(size=ni), t.rng.normal(size=(ni, m))
    t.put(xi_ind=ii, xt_ind=it, zi=zi, lam=lam, ztsim=zs)
    par = t.pick("parameterized", [False, True])
    mp, x = t.rng.normal(size=2), t.rng.random((nt, d))
    mod = gp.core.Model(pmean if par else None, kernel, A(mp) if par else None, A(np.ones(d + 1)), meantype="parameterized" if par else "zero")
    keep = [a.copy() for a in (zs, ii, zi, it, lam)]
    if par:
        xi, xt = x[ii], x[it]
        got = mod.conditional_sample_paths_parameterized_mean(A(zs), A(xi), ii, A(zi), A(xt), it, A(lam))
        mi, mt = pmean_np(xi, mp), pmean_np(xt, mp)
    else:
        zin = zi.reshape(-1, 1) if t.pick("column", [False, True]) else zi
        got = mod.conditional_sample_paths(A(zs), ii, A(zin), it, A(lam))
        mi, mt = np.zeros(ni), np.zeros(m)
    want = zs[it] + lam.T @ ((zi - mi)[:, None] - zs[ii]) + mt[:, None]
    t.close("conditioning", got, want, 1e-9)
    for u, v in zip((zs, ii, zi, it, lam), keep):
        t.same("argument unchanged", u, v)


@check(30)
def through_data(t):
    n, b, d = t.size("n", 2, 12), t.size("b", 1, 4), t.size("d", 1, 3, 9)
    ni = 1 + int(t.rng.integers(n - 1))
    x, th = pts(t, n, d, "x"), theta(t, d)
    well(t, x, th)
    ii = t.rng.permutation(n)[:ni]
    zi = t.rng.normal(size=ni) + 5
    t.put(xi_ind=ii, zi=zi)
    mt = t.pick("meantype", ["zero", "parameterized", "linear_predictor"])
    mp = t.rng.normal(size=2)
    mean = {"zero": None, "parameterized": pmean, "linear_predictor": linear_mean(1)}[mt]
    mod = gp.core.Model(mean, kernel, A(mp) if mt == "parameterized" else None, A(th), meantype=mt)
    zs = mod.sample_paths(A(x), b, method=t.pick("method", ["chol", "svd"]))
    _, _, lam = mod.predict(x[ii], zi, x, return_lambdas=True, convert_out=False)
    it = np.arange(n)
    if mt == "parameterized":
        z = mod.conditional_sample_paths_parameterized_mean(zs, A(x[ii]), ii, A(zi), A(x), it, lam)
    else:
        z = mod.conditional_sample_paths(zs, ii, A(zi), it, lam)
    t.close("observed values", np_(z)[ii], np.repeat(zi[:, None], b, 1), 1e-5)
