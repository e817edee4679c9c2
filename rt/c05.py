import numpy as np

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


def nll(K, z):
    n = len(z)
    return 0.5 * (n * np.log(2 * np.pi) + np.linalg.slogdet(K)[1] + z @ np.linalg.solve(K, z))


def setup(t):
    n, d = t.size("n", 1, 14, 80), t.size("d", 1, 3, 9)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    K = well(t, xi, th)
    zi = t.rng.normal(size=n) * t.pick("zscale", [1.0, 30.0])
    t.put(zi=zi)
    return n, d, xi, th, K, zi


@check(50)
def zero_mean(t):
    n, d, xi, th, K, zi = setup(t)
    mod = gp.core.Model(None, kernel, None, None, meantype="zero")
    v = mod.negative_log_likelihood_zero_mean(A(th), A(xi), A(zi))
    t.close("value", v, nll(K, zi), 1e-7, 1e-7, shape=False)


@check(50)
def with_mean(t):
    n, d, xi, th, K, zi = setup(t)
    mp = t.rng.normal(size=2)
    t.put(meanparam=mp)
    mod = gp.core.Model(pmean, kernel, None, None, meantype="parameterized")
    v = mod.negative_log_likelihood(A(mp), A(th), A(xi), A(zi))
    t.close("value", v, nll(K, zi - pmean_np(xi, mp)), 1e-7, 1e-7, shape=False)


@check(30)
def quadratic(t):
    n, d, xi, th, K, zi = setup(t)
    mod = gp.core.Model(None, kernel, None, A(th), meantype="zero")
    t.close("norm", mod.norm_k_sqrd_with_zero_mean(A(xi), A(zi), A(th)), zi @ np.linalg.solve(K, zi), 1e-6, shape=False)
    a, b, c = mod.k_inverses(A(xi), A(zi), A(th))
    t.close("zKz", a, zi @ np.linalg.solve(K, zi), 1e-6, shape=False)
    t.close("K-1 1", b, np.linalg.solve(K, np.ones(n)), 1e-6, shape=False)
    t.close("K-1 z", c, np.linalg.solve(K, zi), 1e-6, shape=False)


@check(60)
def not_factorisable(t):
    n, d = t.size("n", 2, 8), t.size("d", 1, 3, 9)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    zi = t.rng.normal(size=n)
    neg, by = t.rng.integers(n), t.pick("margin", [None, 1e-9, 1e-7, 1e-4, 1e-1])

    def bad(x, y, p, pairwise=False):
        K = kmat(x, x, p).copy()
        if by is None:
            K[neg, neg] = -1.0 - abs(K[neg, neg])
        else:  # smallest eigenvalue just below zero
            K -= (np.linalg.eigvalsh(K)[0] + by * np.abs(K).max()) * np.eye(n)
        return gnp.asarray(K)

    mod = gp.core.Model(None, bad, None, None, meantype="zero")
    modm = gp.core.Model(pmean, bad, None, None, meantype="parameterized")
    for f in (lambda: mod.negative_log_likelihood_zero_mean(A(th), A(xi), A(zi)),
              lambda: modm.negative_log_likelihood(A([0.1, 0.2]), A(th), A(xi), A(zi))):
        try:
            v = float(np_(f()).reshape(()))
        except np.linalg.LinAlgError:
            t.true("torch reports plus infinity", t.backend == "numpy")
            continue
        t.true("plus infinity", v == np.inf, got=v)
