from .. import gp, la, run
from ..arr import toR
from ..core import ctx, rsum
from ..gp import fn
from ..terms import I, ile, toI

FUNCTIONS = [
    "core.model.Model.predict", "core.model.Model.kriging_predictor", "core.kriging.select_predictor",
    "core.kriging.kriging_predictor", "core.kriging._kriging_predictor_nullspace",
    "core.kriging._compute_posterior_variance", "num.*.solve", "num.*.cholesky_solve",
]


def setup():
    import gpmp as g

    n, m, d, q = run.integer("n", 1), run.integer("m", 0), run.integer("d", 1), run.integer("q", 1)
    ctx().assume(ile(toI(q), toI(n)))
    xi, xt, zi = gp.points("xi", n, d), gp.points("xt", m, d), gp.vector("zi", n)
    th = gp.mk("theta", (run.integer("p", 1),))
    k = gp.Kernel()
    mf = gp.MeanFn(q)
    mod = g.core.Model(mf, k, None, th, meantype="linear_predictor")
    ctx().assumptions.add("mean basis of full column rank at the observation points; augmented system nonsingular")
    return g, n, m, q, xi, xt, zi, th, k, mf, mod


def check(tag, lam, v, rt, n, m, q, xi, xt, th, k, mf):
    K, Kt, P, Pt = k(xi, xi, th), k(xi, xt, th), mf(xi, None), mf(xt, None)
    Q, _ = la.qr(P, "complete")
    W = Q[:, q:]
    run.same_shape(tag + "weights", lam, (n, m))
    run.eq(tag + "unbiased", P.T @ lam, Pt.T)
    run.eq(tag + "stationary", W.T @ (K @ lam), W.T @ Kt)
    if rt == -1:
        run.true(tag + "no-variance", v is None)
        return
    KL = K @ lam
    def cov(j, l):
        return rsum(toI(n), lambda i: toR(lam.elem((i, j))) * (toR(KL.elem((i, l))) - toR(Kt.elem((i, l)))) - toR(Kt.elem((i, j))) * toR(lam.elem((i, l))))
    if rt == 0:
        prior = k(xt, None, th, pairwise=True)
        run.eq(tag + "variance", v, fn((m,), lambda j: toR(prior.elem((j,))) + cov(j, j)))
    else:
        prior = k(xt, None, th)
        run.eq(tag + "covariance", v, fn((m, m), lambda j, l: toR(prior.elem((j, l))) + cov(j, l)))


def predictor(rt):
    g, n, m, q, xi, xt, zi, th, k, mf, mod = setup()
    ctx().ghost["may_fail"] = lambda what, A: what == "solve" and A.segs is not None
    lam, v = mod.kriging_predictor(xi, xt, return_type=rt)
    tag = "fallback:" if any("False" in s for s in ctx().notes) else "regular:"
    check(tag, lam, v, rt, n, m, q, xi, xt, th, k, mf)


def variance():
    predictor(0)


def covariance():
    predictor(1)


def weights_only():
    predictor(-1)


def predict():
    g, n, m, q, xi, xt, zi, th, k, mf, mod = setup()
    ctx().ghost["may_fail"] = lambda what, A: what == "solve" and A.segs is not None
    mean, var, lam = mod.predict(xi, zi, xt, return_lambdas=True, zero_neg_variances=False)
    tag = "fallback:" if any("False" in s for s in ctx().notes) else "regular:"
    check(tag, lam, var, 0, n, m, q, xi, xt, th, k, mf)
    run.eq(tag + "mean", mean, fn((m,), lambda j: rsum(toI(n), lambda i: toR(lam.elem((i, j))) * toR(zi.elem((i,))))))


TASKS = [variance, covariance, weights_only, predict]
