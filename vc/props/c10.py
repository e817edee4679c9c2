from .. import gp, run
from ..arr import SArr, sarr, toR, unary
from ..core import ctx, ind, rexp, rfn, prove_nonneg, rsqrt, rsum
from ..gp import fn
from ..terms import Fraction, I, NONNEG, ONE, POS, R, REBUILD, ZERO, ieq, ile, toI

FUNCTIONS = [
    "kernel.matern.maternp_covariance", "kernel.matern.maternp_covariance_ii_or_tt", "kernel.matern.maternp_covariance_it",
    "num.*.scaled_distance", "num.*.scaled_distance_elementwise", "num.torch_backend.cdist", "num.torch_backend.custom_sqrt",
]


def kappa(p, h):
    """Contract of maternp_kernel (proved in C09): a function of p and the distance, one at zero."""
    if h.const == 0:
        return ONE
    return rfn("kappa", R.ofI(toI(p)), h)


REBUILD["kappa"] = lambda q, h: ONE if h.const == 0 else rfn("kappa", q, h)


def setup():
    import gpmp.kernel.matern as M

    n, m, d, p = run.integer("n", 0), run.integer("m", 0), run.integer("d", 1), run.integer("p", 0)
    x, y, th = gp.points("x", n, d), gp.points("y", m, d), gp.mk("theta", (d + 1,))

    def contract(order, h):
        h = sarr(h)
        run.forall_ix(h.shp, lambda ix: run.record("maternp_kernel-precondition", prove_nonneg(toR(h.elem(ix)))))
        run.true("maternp_kernel-order", toI(order).key() == toI(p).key())
        return unary(h, lambda r: kappa(p, r))

    M.maternp_kernel = gp.stand(M.maternp_kernel, contract)
    ctx().assumptions.add("maternp_kernel by its contract (C09): depends on order and distance only, one at distance zero")
    return M, n, m, d, p, x, y, th


def dist(x, i, y, j, d, th):
    return rsqrt(rsum(toI(d), lambda l: (rexp(toR(th.elem((l.add(I((), 1)),)))) * (toR(x.elem((i, l))) - toR(y.elem((j, l))))) * (rexp(toR(th.elem((l.add(I((), 1)),)))) * (toR(x.elem((i, l))) - toR(y.elem((j, l)))))))


def s2(th):
    return rexp(toR(th.elem((I(),))))


def cross():
    M, n, m, d, p, x, y, th = setup()
    K = M.maternp_covariance(x, y, p, th)
    run.eq("cross-covariance", K, fn((n, m), lambda i, j: s2(th) * kappa(p, dist(x, i, y, j, d, th))))
    L = M.maternp_covariance(y, x, p, th)
    run.eq("symmetric", L, K.T)
    run.true("arguments-unmodified", all(a.buf.ver == 0 for a in (x, y, th)))


def pairwise():
    M, n, m, d, p, x, y, th = setup()
    y = gp.points("y", n, d)
    K = M.maternp_covariance(x, y, p, th, pairwise=True)
    F = M.maternp_covariance(x, y, p, th)
    run.eq("pairwise-entries", K, fn((n,), lambda i: toR(F.elem((i, i)))))


def self_set():
    M, n, m, d, p, x, y, th = setup()
    import gpmp.num as gnp

    tiny = R.num(Fraction(10)) * toR(sarr(gnp.finfo(gnp.float64).eps))
    F = M.maternp_covariance(x, gp.points("x", n, d), p, th)
    want = fn((n, n), lambda i, j: toR(F.elem((i, j))) + ind(ieq(i, j)) * tiny * s2(th))
    for y2 in (x, None):
        K = M.maternp_covariance(x, y2, p, th)
        run.eq("self-covariance", K, want)
        # enlarged, since coefficients below 1e-12 count as rounding
        run.eq("diagonal-term", fn((n, n), lambda i, j: (toR(K.elem((i, j))) - toR(F.elem((i, j)))).scale(10**15)),
               fn((n, n), lambda i, j: (ind(ieq(i, j)) * tiny * s2(th)).scale(10**15)))
        v = M.maternp_covariance(x, y2, p, th, pairwise=True)
        run.eq("self-pairwise", v, fn((n,), lambda i: toR(F.elem((i, i)))))


TASKS = [cross, pairwise, self_set]
