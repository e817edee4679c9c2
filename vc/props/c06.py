import numpy as np

from .. import gp, la, run
from ..arr import SArr, sarr, sreal, toR
from ..core import ctx, ind, rlog, rsum
from ..gp import fn
from ..terms import Fraction, I, ONE, R, ZERO, ieq, ile, ilt, toI
from .c05 import is_inf, nll_spec

FUNCTIONS = [
    "core.model.Model.negative_log_restricted_likelihood", "core.likelihood.negative_log_restricted_likelihood",
    "core.linalg.compute_contrast_matrix", "core.linalg.compute_contrast_covariance", "core.linalg.norm_k_sqrd",
    "core.linalg.qr_nullspace",
]


def setup():
    import gpmp as g

    n, d, q = run.integer("n", 1), run.integer("d", 1), run.integer("q", 1)
    ctx().assume(ilt(toI(q), toI(n)))
    th, k, mf = gp.mk("theta", (run.integer("p", 1),)), gp.Kernel(), gp.MeanFn(q)
    mod = g.core.Model(mf, k, None, None, meantype="linear_predictor")
    ctx().assumptions.add("mean basis of full column rank at the observation points")
    return g, n, q, gp.points("xi", n, d), gp.vector("zi", n), th, k, mf, mod


def contrasts():
    g, n, q, xi, zi, th, k, mf, mod = setup()
    P = mf(xi, None)
    from gpmp.core import linalg

    W = linalg.compute_contrast_matrix(P)
    run.same_shape("contrast-count", W, (n, n - q))
    run.eq("orthonormal", W.T @ W, fn((n - q, n - q), lambda i, j: ind(ieq(i, j))))
    run.eq("cancel-mean", W.T @ P, fn((n - q, q), lambda i, j: ZERO))
    K = k(xi, xi, th)
    G = linalg.compute_contrast_covariance(W, K)
    run.eq("contrast-covariance", G, fn((n - q, n - q), lambda i, j: rsum(toI(n), lambda a: rsum(toI(n), lambda b: toR(W.elem((a, i))) * toR(K.elem((a, b))) * toR(W.elem((b, j)))))))
    Q1, W2, Rq = linalg.qr_nullspace(P)
    run.eq("nullspace-W", W2.T @ P, fn((n - q, q), lambda i, j: ZERO))
    run.eq("nullspace-QR", Q1 @ Rq, P)


def value():
    g, n, q, xi, zi, th, k, mf, mod = setup()
    ctx().ghost["may_fail"] = lambda what, A: what == "cholesky"
    raised, v = None, None
    try:
        v = mod.negative_log_restricted_likelihood(th, xi, zi)
    except np.linalg.LinAlgError as e:
        raised = e
    if any("False" in s for s in ctx().notes):
        if ctx().ghost["backend"] == "torch":
            run.true("failure-gives-plus-infinity", raised is None and is_inf(v))
        else:
            run.true("failure-is-reported", raised is not None or is_inf(v))
        return
    Q, _ = la.qr(mf(xi, None), "complete")
    W = Q[:, q:]
    K = k(xi, xi, th)
    run.true("no-spurious-failure", raised is None)
    run.eq("reml", v, sreal(nll_spec(W.T @ (K @ W), W.T @ zi, n - q)))
    zz = zi + mf(xi, None) @ gp.vector("beta", q)
    v2 = mod.negative_log_restricted_likelihood(th, xi, zz)
    run.eq("invariant-under-mean", v2, v)


def norm():
    g, n, q, xi, zi, th, k, mf, mod = setup()
    v = mod.norm_k_sqrd(xi, zi, th)
    Q, _ = la.qr(mf(xi, None), "complete")
    W = Q[:, q:]
    M, y, N = la.inv(W.T @ (k(xi, xi, th) @ W)), W.T @ zi, toI(n - q)
    run.eq("norm", sarr(v).reshape(()), sreal(rsum(N, lambda i: rsum(N, lambda j: toR(y.elem((i,))) * toR(M.elem((i, j))) * toR(y.elem((j,)))))))


TASKS = [contrasts, value, norm]
