import numpy as np

from .c09 import closed
from .core import Skip, check, np_
from .gpx import A, gp, gnp


@check(60)
def covariance(t):
    n, m, d, p = t.size("n", 1, 9, 40), t.size("m", 1, 9, 40), t.size("d", 1, 4, 9), t.size("p", 0, 5)
    x, y = t.rng.normal(size=(n, d)), t.rng.normal(size=(m, d))
    th = np.concatenate([[t.rng.normal() * 2], t.rng.normal(size=d)])
    if t.rng.random() < 0.3:
        y[0] = x[0]
    t.put(x=x, y=y, theta=th)
    s2, r = np.exp(th[0]), np.exp(th[1:])
    D = lambda a, b: np.sqrt((((a[:, None, :] - b[None]) * r) ** 2).sum(-1))
    k = gp.kernel.maternp_covariance
    xa, ya, ta = A(x), A(y), A(th)
    K = np_(k(xa, ya, p, ta))
    t.close("cross", K, s2 * closed(p, D(x, y)), 1e-6, 1e-6 * s2)
    t.close("symmetric", np_(k(ya, xa, p, ta)).T, K, 1e-6)
    S = s2 * closed(p, D(x, x))
    for z in (xa, None):
        t.close("self", k(xa, z, p, ta), S, 1e-6, 1e-6 * s2)
        t.close("self pairwise", k(xa, z, p, ta, True), np.full(n, s2), 1e-12)
    X2 = A(x.copy())
    if d:
        t.close("identical sets", k(xa, X2, p, ta), S, 1e-6, 2e-6 * s2)
        extra = np_(k(xa, xa, p, ta)) - np_(k(xa, X2, p, ta))
        t.true("tiny diagonal", np.abs(np.diag(np_(k(xa, xa, p, ta))) - s2).max() <= 1e-13 * s2 and np.abs(extra).max() < 1e-6 * s2, got=extra)
    q = min(n, m)
    t.close("pairwise", k(A(x[:q]), A(y[:q]), p, ta, True), s2 * closed(p, np.diag(D(x[:q], y[:q]))), 1e-6, 1e-6 * s2)
    for a, b in ((xa, x), (ya, y), (ta, th)):
        t.same("argument unchanged", a, b)


@check(15)
def diagonal_term(t):
    """The term added on the diagonal is exactly 10 eps sigma2, nothing off the diagonal."""
    n, d = t.size("n", 2, 8), t.size("d", 1, 3, 9)
    x = 3.0 * np.arange(n)[:, None] + np.zeros((n, d)) + t.rng.random((n, d))
    th = np.concatenate([[0.0], np.zeros(d)])
    xa = A(x)
    K = np_(gp.kernel.maternp_covariance(xa, t.pick("second", [None, xa]), 1, A(th)))
    e = np.diag(K) - 1.0
    t.close("diagonal", e, np.full(n, 10 * np.finfo(float).eps), 0.2, 0.0)
    D = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    off = ~np.eye(n, dtype=bool)
    t.close("off diagonal", K[off], closed(1, D)[off], 1e-7, 1e-12)
