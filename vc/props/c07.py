from .. import core, gp, run
from ..arr import toR
from ..core import ctx, ind, rsum
from ..gp import fn
from ..terms import I, ZERO, ieq, ile, ilt, toI

FUNCTIONS = [
    "core.model.Model.sample_paths", "core.model.Model.conditional_sample_paths",
    "core.model.Model.conditional_sample_paths_parameterized_mean", "core.sample_paths.sample_paths",
    "core.sample_paths.conditional_sample_paths", "core.sample_paths.conditional_sample_paths_parameterized_mean",
]


def index_array(name, n, hi):
    hi = toI(hi)
    core.INTHOOKS[name] = lambda args: [f for a in args for f in (ile(I(), I.fn(name, *a)), ilt(I.fn(name, *a), hi))]
    return gp.mk(name, (n,), "i")


def unconditional(method):
    import gpmp as g

    n, d, b = run.integer("n", 1), run.integer("d", 1), run.integer("b", 1)
    xt, th, k = gp.points("xt", n, d), gp.mk("theta", (run.integer("p", 1),)), gp.Kernel()
    mod = g.core.Model(None, k, None, th, meantype="zero")
    N = gp.mk("N", (n, b))
    asked = []

    def drawer(kind, shape, ret=[None]):
        asked.append((kind, shape))
        return ret[0] if kind == "normal" else None

    ctx().ghost["drawer"] = lambda kind, shape: drawer(kind, shape, [fn((n, n), lambda i, j: ind(ieq(i, j)))])
    C = mod.sample_paths(xt, n, method=method)
    run.eq("factor", C @ C.T, k(xt, xt, th))
    ctx().ghost["drawer"] = lambda kind, shape: drawer(kind, shape, [N])
    z = mod.sample_paths(xt, b, method=method)
    run.eq("linear-in-draws", z, fn((n, b), lambda i, j: rsum(toI(n), lambda l: toR(C.elem((i, l))) * toR(N.elem((l, j))))))
    run.true("one-standard-normal-array", len(asked) == 2 and all(a[0] == "normal" for a in asked))
    run.same_shape("draw-shape", gp.mk("x", asked[1][1]), (n, b))


def chol():
    unconditional("chol")


def svd():
    unconditional("svd")


def setup():
    import gpmp as g

    nt, ni, m, b, d = [run.integer(s, 1) for s in ("nt", "ni", "m", "b", "d")]
    ii, it = index_array("xi_ind", ni, nt), index_array("xt_ind", m, nt)
    zs, zi, lam = gp.mk("ztsim", (nt, b)), gp.vector("zi", ni), gp.mk("lam", (ni, m))
    return g, nt, ni, m, b, d, ii, it, zs, zi, lam


def row(a, i):
    return a.elem((i,))


def conditional():
    g, nt, ni, m, b, d, ii, it, zs, zi, lam = setup()
    mod = g.core.Model(None, gp.Kernel(), None, gp.mk("theta", (2,)), meantype="zero")
    for z in (zi, fn((ni, 1), lambda i, j: toR(zi.elem((i,))))):
        out = mod.conditional_sample_paths(zs, ii, z, it, lam)
        want = fn((m, b), lambda j, l: toR(zs.elem((row(it, j), l))) + rsum(toI(ni), lambda i: toR(lam.elem((i, j))) * (toR(zi.elem((i,))) - toR(zs.elem((row(ii, i), l))))))
        run.eq("conditioning-by-kriging", out, want)
    run.true("arguments-unmodified", all(a.buf.ver == 0 for a in (ii, it, zs, zi, lam)))


def conditional_mean():
    g, nt, ni, m, b, d, ii, it, zs, zi, lam = setup()
    mf, mp = gp.MeanFn(1), gp.mk("mu", (run.integer("r", 1),))
    xi, xt = gp.points("xi", ni, d), gp.points("xt", m, d)
    mod = g.core.Model(mf, gp.Kernel(), mp, gp.mk("theta", (2,)), meantype="parameterized")
    mi, mt = mf(xi, mp), mf(xt, mp)
    out = mod.conditional_sample_paths_parameterized_mean(zs, xi, ii, zi, xt, it, lam)
    want = fn((m, b), lambda j, l: toR(zs.elem((row(it, j), l))) + toR(mt.elem((j, 0))) + rsum(toI(ni), lambda i: toR(lam.elem((i, j))) * (toR(zi.elem((i,))) - toR(mi.elem((i, 0))) - toR(zs.elem((row(ii, i), l))))))
    run.eq("conditioning-by-kriging", out, want)


def through_data():
    """Observation points are the prediction points: conditional paths take the observed values."""
    import gpmp as g

    nt, ni, b, d = [run.integer(s, 1) for s in ("nt", "ni", "b", "d")]
    ii = index_array("xi_ind", ni, nt)
    xi, zs, zi = gp.points("xi", ni, d), gp.mk("ztsim", (nt, b)), gp.vector("zi", ni)
    th, k = gp.mk("theta", (run.integer("p", 1),)), gp.Kernel()
    want = fn((ni, b), lambda j, l: toR(zi.elem((j,))))
    mod = g.core.Model(None, k, None, th, meantype="zero")
    lam, _ = mod.kriging_predictor_with_zero_mean(xi, xi)
    run.eq("observed-values", mod.conditional_sample_paths(zs, ii, zi, ii, lam), want)
    mf, mp = gp.MeanFn(1), gp.mk("mu", (run.integer("r", 1),))
    mod = g.core.Model(mf, k, mp, th, meantype="parameterized")
    lam, _ = mod.kriging_predictor_with_zero_mean(xi, xi)
    run.eq("observed-values", mod.conditional_sample_paths_parameterized_mean(zs, xi, ii, zi, xi, ii, lam), want)


TASKS = [chol, svd, conditional, conditional_mean, through_data]
