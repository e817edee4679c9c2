from .. import gp, run
from ..arr import toR
from ..core import rsum
from ..gp import fn
from ..terms import toI

FUNCTIONS = [
    "core.model.Model.predict", "core.model.Model.__init__", "core.utils.ensure_shapes_and_type",
    "core.kriging.select_predictor", "core.kriging.kriging_predictor_with_zero_mean",
    "core.kriging._compute_posterior_variance", "num.*.cholesky_solve", "num.*.asarray",
]


def setup():
    import gpmp as g

    n, m, d = run.integer("n", 1), run.integer("m", 0), run.integer("d", 1)
    xi, xt, zi = gp.points("xi", n, d), gp.points("xt", m, d), gp.vector("zi", n)
    th = gp.mk("theta", (run.integer("p", 1),))
    k = gp.Kernel()
    mod = g.core.Model(None, k, None, th, meantype="zero")
    return g, n, m, d, xi, xt, zi, th, k, mod


def predictor():
    g, n, m, d, xi, xt, zi, th, k, mod = setup()
    K, Kt = k(xi, xi, th), k(xi, xt, th)
    for rt in (0, 1, -1):
        lam, v = mod.kriging_predictor_with_zero_mean(xi, xt, return_type=rt)
        run.same_shape("weights", lam, (n, m))
        # K lambda = Kt
        run.eq("kriging-equations", K @ lam, Kt)
        if rt == -1:
            run.true("no-variance", v is None)
        elif rt == 0:
            prior = k(xt, None, th, pairwise=True)
            run.eq("variance", v, fn((m,), lambda j: toR(prior.elem((j,))) - rsum(toI(n), lambda i: toR(lam.elem((i, j))) * toR(Kt.elem((i, j))))))
        else:
            prior = k(xt, None, th)
            run.eq("covariance", v, fn((m, m), lambda j, l: toR(prior.elem((j, l))) - rsum(toI(n), lambda i: toR(lam.elem((i, j))) * toR(Kt.elem((i, l))))))


def predict():
    g, n, m, d, xi, xt, zi, th, k, mod = setup()
    K, Kt = k(xi, xi, th), k(xi, xt, th)
    mean, var, lam = mod.predict(xi, zi, xt, return_lambdas=True, zero_neg_variances=False, convert_out=False)
    run.eq("kriging-equations", K @ lam, Kt)
    run.eq("mean", mean, fn((m,), lambda j: rsum(toI(n), lambda i: toR(lam.elem((i, j))) * toR(zi.elem((i,))))))
    prior = k(xt, None, th, pairwise=True)
    run.eq("variance", var, fn((m,), lambda j: toR(prior.elem((j,))) - rsum(toI(n), lambda i: toR(lam.elem((i, j))) * toR(Kt.elem((i, j))))))


def interpolation():
    g, n, m, d, xi, xt, zi, th, k, mod = setup()
    mean, var = mod.predict(xi, zi, xi, zero_neg_variances=False)
    run.eq("interpolates", mean, zi)
    run.eq("zero-variance", var, fn((n,), lambda j: toR(0)))


TASKS = [predictor, predict, interpolation]
