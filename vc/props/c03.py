from .. import gp, run
from ..arr import toR
from ..core import ind, rsum
from ..gp import fn
from ..terms import ONE, ZERO, rle0, toI

FUNCTIONS = [
    "core.model.Model.predict", "core.utils.ensure_shapes_and_type", "core.utils.validate_model_mean",
    "core.kriging.select_predictor", "core.kriging.kriging_predictor_with_zero_mean",
]


def setup():
    import gpmp as g

    n, m, d = run.integer("n", 1), run.integer("m", 0), run.integer("d", 1)
    xi, xt, zi = gp.points("xi", n, d), gp.points("xt", m, d), gp.vector("zi", n)
    th, mp = gp.mk("theta", (run.integer("p", 1),)), gp.mk("mu", (run.integer("r", 1),))
    k, mf = gp.Kernel(), gp.MeanFn(1)
    return g, n, m, xi, xt, zi, th, mp, k, mf


def parameterized():
    g, n, m, xi, xt, zi, th, mp, k, mf = setup()
    mod = g.core.Model(mf, k, mp, th, meantype="parameterized")
    zero = g.core.Model(None, k, None, th, meantype="zero")
    vers = [a.buf.ver for a in (xi, zi, xt, th, mp)]
    mi, mt = mf(xi, mp), mf(xt, mp)
    mean, var, lam = mod.predict(xi, zi, xt, return_lambdas=True, zero_neg_variances=False)
    zc = fn((n,), lambda i: toR(zi.elem((i,))) - toR(mi.elem((i, 0))))
    mean0, var0 = zero.predict(xi, zc, xt, zero_neg_variances=False)
    run.eq("mean-restored", mean, fn((m,), lambda j: toR(mean0.elem((j,))) + toR(mt.elem((j, 0)))))
    run.eq("variance-of-zero-mean", var, var0)
    run.true("arguments-unmodified", [a.buf.ver for a in (xi, zi, xt, th, mp)] == vers)


def column():
    g, n, m, xi, xt, zi, th, mp, k, mf = setup()
    zcol = gp.mk("zi", (n, 1))
    zcol = fn((n, 1), lambda i, j: toR(zi.elem((i,))))
    for mt in ("zero", "parameterized"):
        mod = g.core.Model(mf if mt != "zero" else None, k, mp, th, meantype=mt)
        mean, var = mod.predict(xi, zi, xt, zero_neg_variances=False)
        v0 = zcol.buf.ver
        mean2, var2 = mod.predict(xi, zcol, xt, zero_neg_variances=False)
        run.eq("column-mean", mean2, mean)
        run.eq("column-variance", var2, var)
        run.true("arguments-unmodified", zcol.buf.ver == v0 and zcol.shp[1].const == 1)


def clipping():
    g, n, m, xi, xt, zi, th, mp, k, mf = setup()
    for mt in ("zero", "parameterized"):
        mod = g.core.Model(mf if mt != "zero" else None, k, mp, th, meantype=mt)
        mean, var = mod.predict(xi, zi, xt, zero_neg_variances=False)
        lam, var0 = mod.kriging_predictor_with_zero_mean(xi, xt)
        run.eq("unclipped", var, var0)
        mean2, var2 = mod.predict(xi, zi, xt, zero_neg_variances=True)
        run.eq("mean-unchanged", mean2, mean)
        run.eq("clipped", var2, fn((m,), lambda j: ind(rle0(toR(var.elem((j,))).neg())) * toR(var.elem((j,)))))


def missing_meanparam():
    g, n, m, xi, xt, zi, th, mp, k, mf = setup()
    mod = g.core.Model(mf, k, None, th, meantype="parameterized")
    try:
        mod.predict(xi, zi, xt)
        ok = False
    except ValueError:
        ok = True
    run.true("missing-meanparam-rejected", ok)


TASKS = [parameterized, column, clipping, missing_meanparam]
