import numpy as np

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


@check(60)
def loo(t):
    mt = t.pick("meantype", ["zero", "parameterized", "linear_predictor"])
    q = t.size("q", 1, 3)
    n, d = t.size("n", q + 2 if mt == "linear_predictor" else 2, 12, 40), t.size("d", 1, 3, 9)
    n = max(n, q + 2)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    K = well(t, xi, th, 1e6)
    mp = t.rng.normal(size=2) * 3
    zi = t.rng.normal(size=n) * t.pick("zscale", [1.0, 100.0]) + 3
    t.put(n=n, zi=zi, meanparam=mp)
    mean = {"zero": None, "parameterized": pmean, "linear_predictor": linear_mean(q)}[mt]
    mod = gp.core.Model(mean, kernel, A(mp) if mt == "parameterized" else None, A(th), meantype=mt)
    P = basis(xi, q)
    z = np.zeros(n)
    s = np.zeros(n)
    for i in range(n):
        o = np.arange(n) != i
        k = K[o][:, [i]]
        if mt == "linear_predictor":
            if np.linalg.cond(P[o]) > 1e4:
                raise Skip()
            w, mu = uk(K[o][:, o], k, P[o], P[[i]])
            z[i] = w[:, 0] @ zi[o]
        else:
            w = np.linalg.solve(K[o][:, o], k)
            m = pmean_np(xi, mp) if mt == "parameterized" else np.zeros(n)
            z[i] = m[i] + w[:, 0] @ (zi - m)[o]
        s[i] = K[i, i] - 2 * w[:, 0] @ k[:, 0] + w[:, 0] @ K[o][:, o] @ w[:, 0]
    tens = t.pick("tensors", [True, False])
    zin = zi.reshape(-1, 1) if t.pick("column", [False, True]) else zi
    keep = zin.copy()
    zl, sl, el = mod.loo(A(xi) if tens else xi, A(zin) if tens else zin)
    t.close("prediction", zl, z, 1e-5)
    t.close("variance", sl, s, 1e-5, 1e-7 * np.exp(th[0]))
    t.close("error", el, zi - z, 1e-5, 1e-5 * np.abs(zi).max())
    t.same("argument unchanged", zin, keep)


@check(10)
def diagonal_of_the_inverse(t):
    from gpmp.core import linalg

    n, d = t.size("n", 1, 12), t.size("d", 1, 3, 9)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    K = well(t, xi, th, 1e6)
    L, want = np.linalg.cholesky(K), np.diag(np.linalg.inv(K))
    t.close("from the lower factor", linalg.diag_Kinv_from_chol(A(L)), want, 1e-6)
    t.close("from the upper factor", linalg.diag_Kinv_from_chol(A(L.T.copy()), lower=False), want, 1e-6)
