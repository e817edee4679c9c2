import numpy as np

from .core import check, np_
from .gpx import A, gp, gnp, kernel, kmat, pts, theta, well


def setup(t, m_lo=0):
    n, m, d = t.size("n", 1, 14, 90), t.size("m", m_lo, 12, 120), t.size("d", 1, 4, 9)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    K = well(t, xi, th)
    xt = pts(t, m, d, "xt")
    if m and t.rng.random() < 0.3:
        xt[0] = xi[-1]
    zi = t.rng.normal(size=n) * t.pick("zscale", [1.0, 1e-3, 1e3]) + t.pick("shift", [0.0, 10.0])
    t.put(zi=zi, xt=xt)
    return n, m, d, xi, xt, zi, th, K, gp.core.Model(None, kernel, None, A(th), meantype="zero")


@check(40)
def predictor(t):
    n, m, d, xi, xt, zi, th, K, mod = setup(t)
    rt = t.pick("return_type", [-1, 0, 1])
    lam, v = mod.kriging_predictor_with_zero_mean(A(xi), A(xt), return_type=rt)
    Kt = kmat(xi, xt, th)
    t.close("K weights = k", K @ np_(lam), Kt, 1e-7)
    prior = kmat(xt, xt, th)
    w = np.linalg.solve(K, Kt)
    if rt == -1:
        t.true("no variance", v is None)
    elif rt == 0:
        t.close("variance", v, np.diag(prior) - (w * Kt).sum(0), 1e-7)
    else:
        t.close("covariance", v, prior - w.T @ Kt, 1e-7)


@check(40)
def predict(t):
    n, m, d, xi, xt, zi, th, K, mod = setup(t, 1)
    z0, x0, y0 = zi.copy(), xi.copy(), xt.copy()
    kw = {}
    if t.pick("tensors", [True, False]):
        a = (A(xi), A(zi), A(xt))
    else:
        a = (xi, zi, xt)
    mean, var, lam = mod.predict(*a, return_lambdas=True, zero_neg_variances=False, **kw)
    Kt = kmat(xi, xt, th)
    w = np.linalg.solve(K, Kt)
    t.close("weights", lam, w, 1e-6)
    t.close("mean", mean, w.T @ zi, 1e-6)
    t.close("variance", var, np.diag(kmat(xt, xt, th)) - (w * Kt).sum(0), 1e-7, 1e-7 * np.exp(th[0]))
    t.true("arguments unchanged", np.array_equal(zi, z0) and np.array_equal(xi, x0) and np.array_equal(xt, y0))
    mean2, var2 = mod.predict(*a, zero_neg_variances=False, convert_out=t.pick("convert_out", [True, False]))
    t.close("mean again", mean2, w.T @ zi, 1e-6)
    t.close("variance again", var2, var, 1e-12)


@check(25)
def interpolation(t):
    n, m, d, xi, xt, zi, th, K, mod = setup(t, 1)
    perm = t.rng.permutation(n)
    mean, var = mod.predict(xi, zi, xi[perm], zero_neg_variances=False)
    t.close("interpolates", mean, zi[perm], 1e-6)
    t.close("zero variance", var, np.zeros(n), 0, 1e-6 * np.abs(K).max())
    mean, var = mod.predict(xi, zi, np.vstack([xt, xi]), zero_neg_variances=True)
    t.close("interpolates", mean[m:], zi, 1e-6)
