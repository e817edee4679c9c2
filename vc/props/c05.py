import numpy as np

from .. import gp, la, run
from ..arr import SArr, sarr, sreal, toR
from ..core import ctx, ind, rinv, rlog, rsum
from ..fakes import PI
from ..gp import fn
from ..terms import Fraction, I, ONE, R, ZERO, ieq, ile, ilt, toI

FUNCTIONS = [
    "core.model.Model.negative_log_likelihood", "core.model.Model.negative_log_likelihood_zero_mean",
    "core.likelihood.negative_log_likelihood", "core.likelihood.negative_log_likelihood_zero_mean",
    "core.linalg.norm_k_sqrd_with_zero_mean", "core.linalg.k_inverses", "num.*.cholesky_solve", "num.*.cholesky_inv",
]


def setup():
    import gpmp as g

    n, d = run.integer("n", 1), run.integer("d", 1)
    return g, n, gp.points("xi", n, d), gp.vector("zi", n), gp.mk("theta", (run.integer("p", 1),)), gp.Kernel()


def nll_spec(K, z, n):
    """1/2 (n log 2pi + log det K + z^T K^-1 z), log det K = 2 sum log L_ii."""
    N = toI(n)
    L, M = la.cholesky(K), la.inv(K)
    ld = rsum(N, lambda i: rlog(toR(L.elem((i, i))))).scale(2)
    qf = rsum(N, lambda i: rsum(N, lambda j: toR(z.elem((i,))) * toR(M.elem((i, j))) * toR(z.elem((j,)))))
    return (toR(sarr(n)) * rlog(PI() * R.num(2)) + ld + qf).scale(Fraction(1, 2))


def zero():
    g, n, xi, zi, th, k = setup()
    mod = g.core.Model(None, k, None, None, meantype="zero")
    v = mod.negative_log_likelihood_zero_mean(th, xi, zi)
    run.eq("nll", v, sreal(nll_spec(k(xi, xi, th), zi, n)))


def mean():
    g, n, xi, zi, th, k = setup()
    mf, mp = gp.MeanFn(1), gp.mk("mu", (run.integer("r", 1),))
    mod = g.core.Model(mf, k, None, None, meantype="parameterized")
    v = mod.negative_log_likelihood(mp, th, xi, zi)
    mi = mf(xi, mp)
    zc = fn((n,), lambda i: toR(zi.elem((i,))) - toR(mi.elem((i, 0))))
    run.eq("nll", v, sreal(nll_spec(k(xi, xi, th), zc, n)))


def failure():
    g, n, xi, zi, th, k = setup()
    import gpmp.num as gnp

    ctx().ghost["may_fail"] = lambda what, A: what == "cholesky"
    mod = g.core.Model(None, k, None, None, meantype="zero")
    raised = None
    try:
        v = mod.negative_log_likelihood_zero_mean(th, xi, zi)
    except np.linalg.LinAlgError as e:
        raised = e
    if any("False" in s for s in ctx().notes):
        if ctx().ghost["backend"] == "torch":
            run.true("failure-gives-plus-infinity", raised is None and is_inf(v))
        else:
            run.true("failure-is-reported", raised is not None or is_inf(v))
    else:
        run.true("no-spurious-failure", raised is None)
        run.eq("nll", v, sreal(nll_spec(k(xi, xi, th), zi, n)))


def is_inf(v):
    if isinstance(v, float):
        return v == float("inf")
    from ..terms import _infsign

    return _infsign(toR(v)) == 1


def quadratic():
    g, n, xi, zi, th, k = setup()
    N = toI(n)
    mod = g.core.Model(None, k, None, None, meantype="zero")
    M = la.inv(k(xi, xi, th))
    qf = rsum(N, lambda i: rsum(N, lambda j: toR(zi.elem((i,))) * toR(M.elem((i, j))) * toR(zi.elem((j,)))))
    v = mod.norm_k_sqrd_with_zero_mean(xi, zi, th)
    run.eq("norm", sarr(v).reshape(()), sreal(qf))
    a, b, c = mod.k_inverses(xi, zi, th)
    run.eq("k-inverses-norm", a, sreal(qf))
    run.eq("k-inverses-1", b, fn((n,), lambda i: rsum(N, lambda j: toR(M.elem((i, j))))))
    run.eq("k-inverses-z", c, fn((n,), lambda i: rsum(N, lambda j: toR(M.elem((i, j))) * toR(zi.elem((j,))))))


TASKS = [zero, mean, failure, quadratic]
