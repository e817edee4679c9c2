from .. import gp, la, run
from ..arr import SArr, sarr, toR
from ..core import ctx, ind, rinv, rsum
from ..gp import fn
from ..terms import I, ONE, ZERO, ieq, ile, ilt, toI

FUNCTIONS = [
    "core.model.Model.loo", "core.loo.loo", "core.loo._loo_with_zero_mean", "core.loo._loo_with_parameterized_mean",
    "core.loo._loo_with_linear_predictor_mean_cpd", "core.linalg.diag_Kinv_from_chol", "num.*.cholesky_solve",
    "num.*.solve_triangular",
]


def setup(q=None):
    import gpmp as g

    n, d = run.integer("n", 2), run.integer("d", 1)
    xi, zi = gp.points("xi", n, d), gp.vector("zi", n)
    th = gp.mk("theta", (run.integer("p", 1),))
    return g, n, xi, zi, th, gp.Kernel()


def weights(M, i):
    """Leave-one-out weights for point i: e_i - M[i, :] / M[i, i]."""
    return lambda j: ind(ieq(i, j)) - toR(M.elem((i, j))) * rinv(toR(M.elem((i, i))))


def spec(tag, out, K, z, n, M, centre=None):
    """out = (zloo, s2, eloo) is the prediction of z_i from the others by weights w."""
    zloo, s2, e = out
    N = toI(n)
    zc = (lambda j: toR(z.elem((j,)))) if centre is None else (lambda j: toR(z.elem((j,))) - centre(j))
    for nm, a in (("zloo", zloo), ("sigma2loo", s2), ("eloo", e)):
        run.same_shape(tag + nm, a, (n,))

    def body(ix):
        (i,) = ix
        w = weights(M, i)
        run.eq(tag + "weight-of-left-out-is-zero", w(i), ZERO)
        run.eq(tag + "prediction", toR(zloo.elem((i,))), rsum(N, lambda j: w(j) * zc(j)) + (ZERO if centre is None else centre(i)))
        run.eq(tag + "variance", toR(s2.elem((i,))),
               toR(K.elem((i, i))) - rsum(N, lambda j: w(j) * toR(K.elem((j, i)))).scale(2)
               + rsum(N, lambda j: w(j) * rsum(N, lambda l: toR(K.elem((j, l))) * w(l))))
        run.eq(tag + "error", toR(e.elem((i,))), toR(z.elem((i,))) - toR(zloo.elem((i,))))

    run.forall_ix((N,), body)


def zero():
    g, n, xi, zi, th, k = setup()
    N = toI(n)
    K = k(xi, xi, th)
    mod = g.core.Model(None, k, None, th, meantype="zero")
    out = mod.loo(xi, zi)
    M = la.inv(K)
    la.cholesky(K)
    spec("", out, K, zi, n, M)

    def body(ix):
        i, j = ix
        w = weights(M, i)
        # kriging equations of the reduced problem, row j != i
        with run.sub(run.band(T_ne(i, j))) as ok:
            if ok:
                run.eq("reduced-kriging-equation", rsum(N, lambda l: toR(K.elem((j, l))) * w(l)), toR(K.elem((j, i))))

    run.forall_ix((N, N), body)


def T_ne(i, j):
    from ..terms import bnot

    return bnot(ieq(i, j))


def parameterized():
    g, n, xi, zi, th, k = setup()
    mp, mf = gp.mk("mu", (run.integer("r", 1),)), gp.MeanFn(1)
    K = k(xi, xi, th)
    mod = g.core.Model(mf, k, mp, th, meantype="parameterized")
    out = mod.loo(xi, zi)
    mi = mf(xi, mp)
    spec("", out, K, zi, n, la.inv(K), centre=lambda j: toR(mi.elem((j, 0))))


def linear():
    g, n, xi, zi, th, k = setup()
    N = toI(n)
    q = run.integer("q", 1)
    ctx().assume(ilt(toI(q), N))
    mf = gp.MeanFn(q)
    K, P = k(xi, xi, th), mf(xi, None)
    mod = g.core.Model(mf, k, None, th, meantype="linear_predictor")
    out = mod.loo(xi, zi)
    Q, _ = la.qr(P, "complete")
    W = Q[:, q:]
    G = W.T @ (K @ W)
    M = W @ (la.inv(G) @ W.T)
    spec("", out, K, zi, n, M)

    def body(ix):
        i, l = ix
        w = weights(M, i)
        run.eq("unbiased", rsum(N, lambda j: toR(P.elem((j, l))) * w(j)), toR(P.elem((i, l))))

    run.forall_ix((N, toI(q)), body)

    def body2(ix):
        i, r = ix
        w = weights(M, i)
        # W^T (K w - K e_i + e_i / M_ii) = 0: stationarity on every contrast that ignores row i
        lhs = rsum(N, lambda j: toR(W.elem((j, r))) * (rsum(N, lambda l: toR(K.elem((j, l))) * w(l)) - toR(K.elem((j, i)))))
        run.eq("stationary", lhs + toR(W.elem((i, r))) * rinv(toR(M.elem((i, i)))), ZERO)

    run.forall_ix((N, toI(n - q)), body2)


def column():
    g, n, xi, zi, th, k = setup()
    zc = fn((n, 1), lambda i, j: toR(zi.elem((i,))))
    mod = g.core.Model(None, k, None, th, meantype="zero")
    a, b = mod.loo(xi, zi), mod.loo(xi, zc)
    for nm, x, y in zip(("zloo", "sigma2loo", "eloo"), a, b):
        run.eq("column-" + nm, y, x)


def diagonal():
    """Diagonal of the inverse from either triangular factor."""
    from gpmp.core import linalg

    n = run.integer("n", 1)
    xi, k = gp.points("xi", n, run.integer("d", 1)), gp.Kernel()
    K = k(xi, xi, gp.mk("theta", (run.integer("p", 1),)))
    L, M = la.cholesky(K), la.inv(K)
    want = fn((n,), lambda i: toR(M.elem((i, i))))
    run.eq("lower-default", linalg.diag_Kinv_from_chol(L), want)
    run.eq("lower", linalg.diag_Kinv_from_chol(L, lower=True), want)
    run.eq("upper", linalg.diag_Kinv_from_chol(L.T, lower=False), want)


TASKS = [zero, parameterized, linear, column, diagonal]
