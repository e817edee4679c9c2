from .. import gp, run
from ..arr import SArr, sreal, toR
from ..core import ctx, ind, rexp, rgammaln, rinv, rmin, rnonneg, rpow, rsqrt, rsum
from ..gp import fn
from ..terms import Fraction, I, NONNEG, ONE, R, ZERO, ieq, toI

FUNCTIONS = [
    "kernel.matern.maternp_kernel", "kernel.matern.matern32_kernel", "kernel.exponential.exponential_kernel",
    "num.shared.compute_gammaln", "num.*.gammaln", "num.*.inftobigf",
]
CLAMP = "distances with c h > 1000 are evaluated at c h = 1000 (both values underflow to zero in double precision)"


def setup(p_lo=0):
    n, p = run.integer("n", 0), run.integer("p", p_lo)
    NONNEG.add("h")
    return n, p, gp.vector("h", n)


def cst(p):
    return rsqrt(R.ofI(toI(p)) + R.num(Fraction(1, 2))).scale(2)


def lf(k):
    """log k! (gammaln(k + 1))"""
    return rgammaln(R.ofI(toI(k).add(I((), 1))))


def coef(p, i):
    return rexp(lf(p) - lf(p.scale(2)) + lf(p.add(i)) - lf(i) - lf(p.add(i, -1)))


def clamped(h, p):
    ctx().assumptions.add(CLAMP)
    return rmin(h, R.num(1000) * rinv(cst(p)))


def term(p, h, i):
    return coef(p, i) * rpow(cst(p).scale(2) * h, R.ofI(p.add(i, -1)))


def closed_form(p, h):
    """exp(-c h) sum_{i=0}^{p} p!/(2p)! (p+i)!/(i!(p-i)!) (2 c h)^(p-i), the last term being 1."""
    return rexp((cst(p) * h).neg()) * (ONE + rsum(p, lambda i: term(p, h, i)))


def invariant(p, h, n):
    p = toI(p)
    return lambda k: fn((n,), lambda j: ONE + rsum(toI(k), lambda i: term(p, clamped(toR(h.elem((j,))), p), i)))


def order_p():
    import gpmp.kernel.matern as M

    n, p, h = setup()
    ctx().ghost["invariants"] = {"maternp_kernel": invariant(p, h, n)}
    v = M.maternp_kernel(p, h)
    P = toI(p)
    run.eq("closed-form", v, fn((n,), lambda j: closed_form(P, clamped(toR(h.elem((j,))), P))))
    run.true("argument-unmodified", h.buf.ver == 0)


def last_term():
    n, p, h = setup()
    P = toI(p)
    run.eq("last-coefficient-is-one", sreal(coef(P, P)), sreal(ONE))


def at_zero():
    import gpmp.kernel.matern as M

    n, p, _ = setup()
    h = fn((n,), lambda j: ZERO)
    ctx().ghost["invariants"] = {"maternp_kernel": invariant(p, h, n)}
    v = M.maternp_kernel(p, h)
    run.eq("one-at-zero", v, fn((n,), lambda j: ONE))


def nonnegative():
    import gpmp.kernel.matern as M

    n, p, h = setup()
    ctx().ghost["invariants"] = {"maternp_kernel": invariant(p, h, n)}
    v = M.maternp_kernel(p, h)
    run.forall_ix(v.shp, lambda ix: run.record("nonnegative", rnonneg(toR(v.elem(ix)))))


def history():
    """The value does not depend on which order was evaluated before."""
    import gpmp.kernel.matern as M
    import gpmp.num as gnp

    n, p, h = setup()
    q = run.integer("q", 0)
    r = run.integer("r", 0)
    for first in (q, r):
        t = gnp.compute_gammaln(first)
    t = gnp.compute_gammaln(p)
    run.eq("gammaln-table", t, fn((2 * p + 2,), lambda k: rgammaln(R.ofI(k))))


def special():
    import gpmp.kernel as K

    n, _, h = setup()
    zero, one = run.integer("p0", 0, 0), run.integer("p1", 1, 1)
    z, o1 = I(), I((), 1)
    ctx().assume(ieq(toI(zero), z))
    ctx().assume(ieq(toI(one), o1))
    v = K.maternp_kernel(zero, h)
    run.eq("order-zero", v, fn((n,), lambda j: toR(K.exponential_kernel(fn((), lambda: cst(z) * clamped(toR(h.elem((j,))), z))).elem(()))))
    w = K.matern32_kernel(fn((n,), lambda j: clamped(toR(h.elem((j,))), o1)))
    run.eq("order-one", K.maternp_kernel(one, h), w)
    e = K.exponential_kernel(h)
    run.eq("exponential", e, fn((n,), lambda j: rexp(toR(h.elem((j,))).neg())))
    m = K.matern32_kernel(h)
    def c32(j):
        t = rsqrt(R.num(6)) * toR(h.elem((j,)))
        return (ONE + t) * rexp(t.neg())
    run.eq("matern32", m, fn((n,), c32))


TASKS = [order_p, last_term, at_zero, nonnegative, history, special]
