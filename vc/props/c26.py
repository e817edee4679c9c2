"""Designs: sizes, boxes, the regular grid, distances (C26)."""
from .. import gp, run
from ..arr import ext_over, reduce_ext, sarr, sreal, toR
from ..core import ctx, rinv, rmax, rsqrt, rsum
from ..gp import fn
from ..terms import I, R, ZERO, ieq, rle0, rlt0, toI

FUNCTIONS = ["misc.designs." + f for f in ("maxdist", "mindist", "filldist_approx", "scale", "regulargrid", "randunif", "ldrandunif", "maximinlhs", "maximinldlhs")]


def box(d):
    lo, hi = gp.mk("lo", (d,)), gp.mk("hi", (d,))
    if isinstance(d, int):
        for k in range(d):
            ctx().assume(rlt0(toR(lo.elem((I((), k),))) - toR(hi.elem((I((), k),)))))
    return lo, hi


def dist(x, i, y, j, d):
    def sq(k):
        t = toR(x.elem((i, k))) - toR(y.elem((j, k)))
        return t * t

    return rsqrt(rsum(toI(d), sq))


def uniform(log):
    """Draws in [0, 1]: the entries an obligation speaks about are put in that range."""

    def drawer(kind, shape):
        if kind != "uniform":
            return None
        u = gp.mk("u%d" % len(log), shape)
        log.append(u)
        return u

    return drawer


def inside(name, x, n, d, lo, hi, log):
    x = sarr(x)
    run.same_shape(name, x, (toI(n), toI(d)))
    run.true(name + "-drawn", len(log) >= 1)

    def body(ix):
        c = ctx()
        for u in log:
            e = toR(u.elem(ix))
            c.assume(rle0(e.neg()))
            c.assume(rle0(e - R.num(1)))
        l, h, v = toR(lo.elem((ix[1],))), toR(hi.elem((ix[1],))), toR(x.elem(ix))
        c.assume(rlt0(l - h))
        # v = l + e (h - l) for a draw e
        ok = False
        for u in log:
            e = toR(u.elem(ix))
            ok = ok or run.prove_zero(v - l - e * (h - l))[0]
        run.record(name + "-is-a-scaled-draw", ok)

    run.forall_ix(x.shp, body)


def scale():
    import gpmp.misc.designs as D

    n, d = run.integer("n", 1), run.integer("d", 1)
    lo, hi = box(d)
    u = gp.mk("u", (n, d))
    run.eq("affine", D.scale(u, [lo, hi]), fn((n, d), lambda i, k: toR(lo.elem((k,))) + toR(u.elem((i, k))) * (toR(hi.elem((k,))) - toR(lo.elem((k,))))))


def range_of_scaled():
    """l <= l + e (h - l) <= h for e in [0, 1]."""
    l, h, e = R.arr("l"), R.arr("h"), R.arr("e")
    c = ctx()
    c.assume(rlt0(l - h))
    c.assume(rle0(e.neg()))
    c.assume(rle0(e - R.num(1)))
    v = l + e * (h - l)
    run.true("at-least-lower", rle0(l - v))
    run.true("at-most-upper", rle0(v - h))


def grid(d, common):
    def task():
        import gpmp.misc.designs as D

        ns = [run.integer("n", 1)] * d if common else [run.integer("n%d" % k, 1) for k in range(d)]
        lo, hi = box(d)
        one = [ctx().branch(ieq(m.i, I((), 1))) for m in ns]
        ns = [1 if o else m for o, m in zip(one, ns)]
        x = sarr(D.regulargrid(d, ns[0] if common else list(ns), [lo, hi]))
        N = toI(1)
        for m in ns:
            N = N.mul(toI(m))
        run.same_shape("grid", x, (N, I((), d)))
        # a generic combination of levels
        q = [I() if o else run.integer("q%d" % k, 0, toI(m).add(I((), -1))).i for k, (o, m) in enumerate(zip(one, ns))]
        r = I()
        for k in range(d):
            r = r.mul(toI(ns[k])).add(q[k])
        for k in range(d):
            l, h = toR(lo.elem((I((), k),))), toR(hi.elem((I((), k),)))
            want = l if one[k] else l + R.ofI(q[k]) * (h - l) * rinv(R.ofI(toI(ns[k]).add(I((), -1))))
            run.eq("level", sreal(toR(x.elem((r, I((), k))))), sreal(want))
            if not one[k]:
                last = R.ofI(toI(ns[k]).add(I((), -1)))
                run.eq("last-level-is-the-upper-bound", sreal(l + last * (h - l) * rinv(last)), sreal(h))

    task.__name__ = "grid_%d_%s" % (d, "common" if common else "each")
    return task


def best_of(kind, k):
    def task():
        import gpmp.misc.designs as D

        n, d = run.integer("n", 1), run.integer("d", 1)
        lo, hi = box(d)
        log, marks = [], []
        c = ctx()
        c.ghost["drawer"] = uniform(log)

        def score(x):
            s = R.arr("s%d" % len(marks))
            c.assume(rlt0(s.neg()))
            marks.append(s)
            return sreal(s)

        c.ghost["discrepancy"] = score
        # one point has no pair; more have some, summed up by their smallest distance
        c.ghost["pdist"] = lambda x: gp.mk("none", (0,)) if c.branch(ieq(x.shp[0], I((), 1))) else sarr([score(x)])
        if kind != "randunif":
            c.ghost["bounded"] = k
        kw = {"max_iter": k} if kind in ("ldrandunif", "maximinlhs") else {}
        x = getattr(D, kind)(d, n, [lo, hi], **kw)
        inside("design", x, n, d, lo, hi, log)

    task.__name__ = kind + ("" if k is None else "_%d" % k)
    task.max_paths = 2000
    return task


def pairs(n):
    """Separation and diameter of n points: attained by a pair and a bound for every pair."""

    def task():
        import gpmp.misc.designs as D

        d = run.integer("d", 1)
        x = gp.mk("x", (n, d))
        ctx().ghost["bounded"] = n
        ds = [dist(x, I((), i), x, I((), j), d) for i in range(n) for j in range(i)]
        lo = hi = ds[0]
        for e in ds[1:]:
            lo, hi = (lo if ctx().branch(rle0(lo - e)) else e), (hi if ctx().branch(rle0(e - hi)) else e)
        run.eq("separation", sreal(toR(D.mindist(x))), sreal(lo))
        run.eq("diameter", sreal(toR(D.maxdist(x))), sreal(hi))

    task.__name__ = "pairs_%d" % n
    return task


def pairs_any():
    """Any number of points: extremes of the vector of pair distances."""
    import gpmp.misc.designs as D

    n, d, m = run.integer("n", 2), run.integer("d", 1), run.integer("m", 1)
    x = gp.mk("x", (n, d))
    P = gp.mk("P", (m,))
    seen = []

    def pd(y):
        run.eq("distances-of-the-sample", y, x)
        seen.append(1)
        return P

    ctx().ghost["pdist"] = pd
    for f, op in ((D.mindist, "min"), (D.maxdist, "max")):
        seen.clear()
        got = f(x)
        if seen:
            run.eq(op, sreal(toR(got)), reduce_ext(P, op))


def fill():
    import gpmp.misc.designs as D

    n, d, m = run.integer("n", 1), run.integer("d", 1), run.integer("m", 1)
    x, y = gp.mk("x", (n, d)), gp.mk("y", (m, d))

    def near(j):
        return ext_over("min", n.i, lambda i: dist(x, i, y, j, d))

    def upto(k):
        """Recursive definition of the largest of the first k nearest distances."""
        k = toI(k)
        if k.const == 0:
            return sreal(ZERO)
        p = k.add(I((), -1))
        if len(p.t) == 1 and p.c == 0 and str(p.t[0][0][1]).startswith("k~"):
            return sreal(rmax(R.arr("M", p), near(p)))
        return sreal(R.arr("M", k))

    ctx().ghost["invariants"] = {"filldist_approx": upto}
    lo, hi = box(d)
    got = D.filldist_approx(x, [lo, hi], x=y)
    run.eq("fill", sreal(toR(got)), sreal(R.arr("M", m.i)))


TASKS = (
    [scale, range_of_scaled, pairs_any, fill]
    + [pairs(n) for n in (2, 3)]
    + [grid(d, c) for d in (1, 2, 3) for c in (True, False)]
    + [best_of("randunif", None), best_of("maximinldlhs", 10)]
    + [best_of(k, r) for k in ("ldrandunif", "maximinlhs") for r in (1, 2, 3)]
)
