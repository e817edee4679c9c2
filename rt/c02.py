import numpy as np

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pts, theta, uk, well


def setup(t):
    q = t.size("q", 1, 4)
    n, m, d = t.size("n", q, 14, 80), t.size("m", 0, 8, 90), t.size("d", 1, 3, 9)
    n = max(n, q)
    xi, th, xt = pts(t, n, d, "xi"), theta(t, d), pts(t, m, d, "xt")
    K = well(t, xi, th)
    P, Pt = basis(xi, q), basis(xt, q)
    if np.linalg.cond(P) > 1e4:
        raise Skip()
    t.put(n=n)
    mod = gp.core.Model(linear_mean(q), kernel, None, A(th), meantype="linear_predictor")
    return n, m, q, xi, xt, th, K, P, Pt, mod


def verify(t, lam, v, rt, xi, xt, th, K, P, Pt):
    Kt = kmat(xi, xt, th)
    lam = np_(lam)
    w, mu = uk(K, Kt, P, Pt)
    t.shape("weights", lam, Kt.shape)
    t.close("unbiased", P.T @ lam, Pt.T, 1e-6)
    t.close("weights", lam, w, 1e-5, 1e-7)
    C = kmat(xt, xt, th) - w.T @ Kt - Kt.T @ w + w.T @ K @ w
    if rt == -1:
        t.true("no variance", v is None)
    elif rt == 0:
        t.close("variance", v, np.diag(C), 1e-5, 1e-6 * np.exp(th[0]))
    else:
        t.close("covariance", v, C, 1e-5, 1e-6 * np.exp(th[0]))


@check(50)
def regular(t):
    n, m, q, xi, xt, th, K, P, Pt, mod = setup(t)
    rt = t.pick("return_type", [-1, 0, 1])
    lam, v = mod.kriging_predictor(A(xi), A(xt), return_type=rt)
    verify(t, lam, v, rt, xi, xt, th, K, P, Pt)


@check(50)
def fallback(t):
    """The augmented solve is made to fail, as LAPACK does on a singular matrix."""
    n, m, q, xi, xt, th, K, P, Pt, mod = setup(t)
    if n <= q:
        raise Skip()
    rt = t.pick("return_type", [-1, 0, 1])
    with broken_solve(n + q) as hit:
        lam, v = mod.kriging_predictor(A(xi), A(xt), return_type=rt)
    if not hit:
        raise Skip()
    verify(t, lam, v, rt, xi, xt, th, K, P, Pt)


class broken_solve:
    """numpy/scipy/torch solves of an N x N system raise the library's own error."""

    def __init__(self, N):
        self.N, self.hit = N, []

    def __enter__(self):
        import scipy.linalg

        self.saved = []

        def wrap(mod, name, err):
            f = getattr(mod, name, None)
            if f is None:
                return
            self.saved.append((mod, name, f))

            def g(a, *r, **k):
                if getattr(a, "shape", (0,))[0] == self.N:
                    self.hit.append(name)
                    raise err("singular matrix")
                return f(a, *r, **k)

            setattr(mod, name, g)

        wrap(scipy.linalg, "solve", scipy.linalg.LinAlgError)
        wrap(np.linalg, "solve", np.linalg.LinAlgError)
        if gnp._gpmp_backend_ == "torch":
            import torch

            err = getattr(torch.linalg, "LinAlgError", RuntimeError)
            wrap(torch.linalg, "solve", err)
            wrap(gnp, "solve", err) if gnp.solve is torch.linalg.solve else None
        else:
            wrap(gnp, "solve", np.linalg.LinAlgError)
        return self.hit

    def __exit__(self, *a):
        for mod, name, f in self.saved[::-1]:
            setattr(mod, name, f)


@check(30)
def predict(t):
    n, m, q, xi, xt, th, K, P, Pt, mod = setup(t)
    zi = t.rng.normal(size=n) + basis(xi, q) @ t.rng.normal(size=q) * 5
    t.put(zi=zi)
    mean, var, lam = mod.predict(xi, zi, xt, return_lambdas=True, zero_neg_variances=False)
    verify(t, lam, var, 0, xi, xt, th, K, P, Pt)
    w, mu = uk(K, kmat(xi, xt, th), P, Pt)
    t.close("mean", mean, w.T @ zi, 1e-6)
    b = t.rng.normal(size=q) * 3
    mean2, var2 = mod.predict(xi, zi + P @ b, xt, zero_neg_variances=False)
    t.close("mean shift reproduced", mean2, w.T @ zi + Pt @ b, 1e-5)
