import numpy as np

from .c05 import nll
from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


def setup(t):
    q = t.size("q", 1, 4)
    n, d = t.size("n", q + 1, 14, 70), t.size("d", 1, 3, 9)
    n = max(n, q + 1)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    K, P = well(t, xi, th), basis(xi, q)
    if np.linalg.cond(P) > 1e4:
        raise Skip()
    zi = t.rng.normal(size=n) * 2 + 1
    t.put(n=n, zi=zi)
    W = np.linalg.svd(P.T)[2][q:].T
    return n, q, xi, th, K, P, W, zi, gp.core.Model(linear_mean(q), kernel, None, None, meantype="linear_predictor")


@check(60)
def reml(t):
    n, q, xi, th, K, P, W, zi, mod = setup(t)
    want = nll(W.T @ K @ W, W.T @ zi)
    t.close("value", mod.negative_log_restricted_likelihood(A(th), A(xi), A(zi)), want, 1e-7, 1e-6, shape=False)
    b = t.rng.normal(size=q) * t.pick("bscale", [1.0, 20.0])
    t.close("mean part ignored", mod.negative_log_restricted_likelihood(A(th), A(xi), A(zi + P @ b)), want, 1e-5, 1e-5, shape=False)


@check(30)
def norm(t):
    n, q, xi, th, K, P, W, zi, mod = setup(t)
    y = W.T @ zi
    t.close("norm", mod.norm_k_sqrd(A(xi), A(zi), A(th)), y @ np.linalg.solve(W.T @ K @ W, y), 1e-6, shape=False)


@check(15)
def not_factorisable(t):
    n, q, xi, th, K, P, W, zi, mod = setup(t)
    w = W[:, 0]

    def bad(x, y, p, pairwise=False):
        K = kmat(x, x, p).copy()
        return gnp.asarray(K - (1 + w @ K @ w) * np.outer(w, w))

    mod = gp.core.Model(linear_mean(q), bad, None, None, meantype="linear_predictor")
    try:
        v = float(np_(mod.negative_log_restricted_likelihood(A(th), A(xi), A(zi))).reshape(()))
    except np.linalg.LinAlgError:
        t.true("torch reports plus infinity", t.backend == "numpy")
        return
    t.true("plus infinity", v == np.inf, got=v)
