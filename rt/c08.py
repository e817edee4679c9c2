import numpy as np

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


def rough(th):
    """Amplitude with fast variations in every parameter: the size of the step shows in the differences."""
    return 1.0 + 1e-4 * np.sin(800.0 * np_(th).astype(float)).sum()


@check(60)
def fisher(t):
    contrast = t.pick("contrasts", [False, True])
    q = t.size("q", 1, 3)
    n, d = t.size("n", q + 1 if contrast else 1, 10, 30), t.size("d", 1, 4, 9)
    n = max(n, q + 1) if contrast else n
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    K = well(t, xi, th, 1e5)
    e = t.pick("epsilon", [None, 1e-3, 1e-2, 0.1, 2e-4])
    kern, km = kernel, kmat
    if t.pick("rough", [False, True]):
        kern = lambda x, y, u, pairwise=False: kernel(x, y, u, pairwise) * rough(u)
        km = lambda x, y, u: kmat(x, y, u) * rough(u)
        K = km(xi, xi, th)
    h = 1e-3 if e is None else e
    p = d + 1
    D = []
    for i in range(p):
        u = np.eye(p)[i] * h
        D.append((-km(xi, xi, th + 2 * u) + 8 * km(xi, xi, th + u) - 8 * km(xi, xi, th - u) + km(xi, xi, th - 2 * u)) / (12 * h))
    kw = {} if e is None else {"epsilon": e}
    if contrast:
        P = basis(xi, q)
        if np.linalg.cond(P) > 1e4:
            raise Skip()
        W = np.linalg.svd(P.T)[2][q:].T
        K, D = W.T @ K @ W, [W.T @ X @ W for X in D]
        mod = gp.core.Model(linear_mean(q), kern, None, A(th), meantype="linear_predictor")
        f = mod.fisher_information_cpd
    else:
        mod = gp.core.Model(None, kern, None, A(th), meantype="zero")
        f = t.pick("route", [mod.fisher_information, mod.fisher_information_cpd])
    S = [np.linalg.solve(K, X) for X in D]
    want = np.array([[0.5 * np.trace(a @ b) for b in S] for a in S])
    other = t.pick("explicit", [False, True])
    if other:
        mod.covparam = A(th + 1)
        kw["covparam"] = A(th)
    F = f(A(xi), **kw)
    t.close("entries", F, want, 1e-5, 1e-6)
    t.close("symmetric", np_(F), np_(F).T, 1e-9)
    t.close("parameters unchanged", mod.covparam, th + 1 if other else th, 0, 0)
