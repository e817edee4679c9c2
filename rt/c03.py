import numpy as np

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


def setup(t):
    n, m, d = t.size("n", 1, 12, 60), t.size("m", 1, 8, 70), t.size("d", 1, 3, 9)
    xi, th, xt = pts(t, n, d, "xi"), theta(t, d), pts(t, m, d, "xt")
    K = well(t, xi, th)
    mp = t.rng.normal(size=2) * 3
    zi = t.rng.normal(size=n) + 2
    t.put(zi=zi, meanparam=mp)
    return n, m, d, xi, xt, th, K, mp, zi


@check(40)
def parameterized(t):
    n, m, d, xi, xt, th, K, mp, zi = setup(t)
    mod = gp.core.Model(pmean, kernel, A(mp), A(th), meantype="parameterized")
    tens = t.pick("tensors", [True, False])
    a = (A(xi), A(zi), A(xt)) if tens else (xi, zi, xt)
    keep = [np_(x).copy() for x in a]
    w = np.linalg.solve(K, kmat(xi, xt, th))
    want = pmean_np(xt, mp) + w.T @ (zi - pmean_np(xi, mp))
    mean, var = mod.predict(*a, zero_neg_variances=False)
    t.close("mean", mean, want, 1e-6)
    t.close("variance", var, np.diag(kmat(xt, xt, th)) - (w * kmat(xi, xt, th)).sum(0), 1e-6, 1e-7 * np.exp(th[0]))
    for x, y in zip(a, keep):
        t.same("argument unchanged", x, y)
    t.same("parameters unchanged", mod.meanparam, mp)
    t.same("parameters unchanged", mod.covparam, th)
    mean2, var2 = mod.predict(a[0], a[1].reshape(-1, 1), a[2], zero_neg_variances=False)
    t.close("column observations: mean", mean2, mean, 1e-12)
    t.close("column observations: variance", var2, var, 1e-12)


@check(30)
def column(t):
    n, m, d, xi, xt, th, K, mp, zi = setup(t)
    for mod in (gp.core.Model(None, kernel, None, A(th), meantype="zero"),
                gp.core.Model(linear_mean(1), kernel, None, A(th), meantype="linear_predictor")):
        col = zi.reshape(-1, 1).copy()
        mean, var = mod.predict(xi, zi, xt, zero_neg_variances=False)
        mean2, var2 = mod.predict(xi, col, xt, zero_neg_variances=False)
        t.close("column observations: mean", mean2, mean, 1e-12)
        t.close("column observations: variance", var2, var, 1e-12)
        t.shape("caller's column kept", col, (n, 1))
        t.same("argument unchanged", col.reshape(-1), zi)


@check(30)
def clipping(t):
    """A covariance whose computed variances take both signs and zero (prior lowered at some points)."""
    n, m, d, xi, xt, th, K, mp, zi = setup(t)
    cut = t.rng.normal(size=m) * np.exp(th[0])
    cut[t.rng.random(m) < 0.3] = 0.0

    def kern(x, y, p, pairwise=False):
        if pairwise and np_(x).shape[0] == m:
            return gnp.asarray(cut.copy())
        return kernel(x, y, p, pairwise)

    mt = t.pick("meantype", ["zero", "parameterized", "linear_predictor"])
    mean = {"zero": None, "parameterized": pmean, "linear_predictor": linear_mean(1)}[mt]
    mod = gp.core.Model(mean, kern, A(mp) if mt == "parameterized" else None, A(th), meantype=mt)
    if n == m:
        raise Skip()
    mean0, raw = mod.predict(xi, zi, xt, zero_neg_variances=False)
    w = np.linalg.solve(K, kmat(xi, xt, th))
    if mt != "linear_predictor":
        t.close("unclipped variance", raw, cut - (w * kmat(xi, xt, th)).sum(0), 1e-6, 1e-7 * np.exp(th[0]))
    mean1, v = mod.predict(xi, zi, xt, zero_neg_variances=True)
    t.close("clipped variance", v, np.maximum(np_(raw), 0.0), 1e-12, 1e-15)
    t.close("mean not affected", mean1, mean0, 1e-12)
    mean2, v2 = mod.predict(xi, zi, xt)
    t.close("default clips", v2, np.maximum(np_(raw), 0.0), 1e-12, 1e-15)


@check(2)
def missing(t):
    n, m, d, xi, xt, th, K, mp, zi = setup(t)
    mod = gp.core.Model(pmean, kernel, None, A(th), meantype="parameterized")
    t.raises("missing mean parameters", ValueError, lambda: mod.predict(xi, zi, xt))
