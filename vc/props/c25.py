"""Gaussian scoring rules: closed forms of their defining integrals (C25).

The reference forms below are primitives of F^2 and (1 - F)^2; that they are is proved in
lean/Scores.lean from Phi' = phi, phi'(t) = -t phi(t)."""
from .. import gp, run
from ..arr import SInt, sarr, sreal, toR
from ..core import ctx, rinv, rite, rsqrt
from ..fakes import PI, Phi, phi
from ..terms import I, R, ieq, rle0, rlt0

FUNCTIONS = ["misc.scoringrules." + f for f in ("crps_gaussian", "h1", "ei1_up", "ei2_up", "tcrps_gaussian")]
INF = float("inf")


def below(s):
    """Integral of Phi^2 on (-inf, s]."""
    return s * Phi(s) * Phi(s) + phi(s).scale(2) * Phi(s) - Phi(rsqrt(R.num(2)) * s) * rinv(rsqrt(PI()))


def above(s):
    """Integral of (1 - Phi)^2 on [s, inf)."""
    return below(s.neg())


def setting():
    n = run.integer("n", 1)
    single = ctx().branch(ieq(n.i, I((), 1)))
    mu, s, z = (gp.mk(k, (n,)) for k in ("mu", "sigma", "z"))
    i = run.integer("i", 0, n.i.add(I((), -1)))
    if single:
        i = SInt(I())
    e = [toR(v.elem((i.i,))) for v in (mu, s, z)]
    ctx().assume(rlt0(e[1].neg()))
    return n, i, (mu, s, z), e


def place(n, i, z, o, bounds):
    """Decide where observation i lies among the bounds; at a bound it is that bound."""
    for b in bounds:
        if b is None or ctx().branch(rlt0(o - b)) or ctx().branch(rlt0(b - o)):
            continue
        return gp.fn((n,), lambda j, b=b, z=z: rite(ieq(j, i.i), b, toR(z.elem((j,))))), b
    return z, o


def entry(name, got, n, i, want):
    got = sarr(got)
    run.same_shape(name, got, (n.i,))
    run.eq(name, sreal(toR(got.elem((i.i,)))), sreal(want))


def crps():
    from gpmp.misc import scoringrules as S

    n, i, (mu, s, z), (m, d, o) = setting()
    t = (o - m) * rinv(d)
    want = d * (below(t) + above(t))
    entry("crps", S.crps_gaussian(mu, s, z), n, i, want)
    entry("whole-line", S.tcrps_gaussian(mu, s, z), n, i, want)


def improvement(threshold):
    def task():
        from gpmp.misc import scoringrules as S

        n, i, (mu, s, z), (m, d, o) = setting()
        if threshold == "scalar":
            z = run.real("c")
            o = toR(z)
        t = (m - o) * rinv(d)
        entry("one", S.ei1_up(mu, s, z), n, i, d * (t * Phi(t) + phi(t)))
        # 1 - F^2 = 2 (1 - F) - (1 - F)^2
        entry("two", S.ei2_up(mu, s, z), n, i, d * (t * Phi(t) + phi(t)).scale(2) - d * above(t.neg()))

    return task


def bounds(lower, upper):
    def task():
        from gpmp.misc import scoringrules as S

        n, i, (mu, s, z), (m, d, o) = setting()
        a = run.real("a") if lower else -INF
        b = run.real("b") if upper else INF
        ra, rb = (toR(a) if lower else None), (toR(b) if upper else None)
        if lower and upper:
            ctx().assume(rlt0(ra - rb))
        z, o = place(n, i, z, o, (ra, rb))

        def sc(x):
            return (x - m) * rinv(d)

        if lower and ctx().branch(rle0(o - ra)):
            want = above(sc(ra)) - (above(sc(rb)) if upper else R.num(0))
        elif upper and ctx().branch(rlt0(rb - o)):
            want = below(sc(rb)) - (below(sc(ra)) if lower else R.num(0))
        else:
            want = below(sc(o)) + above(sc(o))
            want = want - (below(sc(ra)) if lower else R.num(0)) - (above(sc(rb)) if upper else R.num(0))
        entry("score", S.tcrps_gaussian(mu, s, z, a=a, b=b), n, i, d * want)

    return task


def additive(lower, upper):
    def task():
        from gpmp.misc import scoringrules as S

        n, i, (mu, s, z), (m, d, o) = setting()
        a = run.real("a") if lower else -INF
        c = run.real("c")
        b = run.real("b") if upper else INF
        if lower:
            ctx().assume(rlt0(toR(a) - toR(c)))
        if upper:
            ctx().assume(rlt0(toR(c) - toR(b)))
        z, o = place(n, i, z, o, (toR(a) if lower else None, toR(c), toR(b) if upper else None))
        whole = sarr(S.tcrps_gaussian(mu, s, z, a=a, b=b))
        parts = S.tcrps_gaussian(mu, s, z, a=a, b=c) + S.tcrps_gaussian(mu, s, z, a=c, b=b)
        entry("adjacent", parts, n, i, toR(whole.elem((i.i,))))

    return task


NAMES = {(True, True): "finite", (False, True): "below", (True, False): "above", (False, False): "line"}


def named(f, name):
    f.__name__ = name
    return f


TASKS = (
    [crps]
    + [named(improvement(k), "improvement_" + k) for k in ("vector", "scalar")]
    + [named(bounds(*k), "truncated_" + v) for k, v in NAMES.items() if v != "line"]
    + [named(additive(*k), "additive_" + v) for k, v in NAMES.items()]
)
