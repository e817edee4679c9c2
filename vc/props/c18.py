from .. import fakes, gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, rlog, rmax, rsum, rinv
from ..gp import fn
from ..terms import I, ONE, R, ZERO, bnot, ile, ilt, rle0, rlt0, toI

FUNCTIONS = ["kernel.prior_helpers.resolve_logsigma2_logrho_prior_args", "kernel.prior_helpers._minimum_nonzero_gap_distance_1d", "kernel.prior_helpers._componentwise_logrho_min_from_xi", "kernel.prior_helpers.compute_logrho_min_from_xi",
             "kernel.bounds._minimum_nonzero_gap_distance_1d", "kernel.bounds.empirical_bounds_factory"]
INF = lambda: toR(float("inf"))
BOUND = "one to three coordinates (any number of points and any values)"


def gap(col):
    """Smallest positive difference of neighbours in sorted order (lean/Gaps.lean: of all pairs), or None."""
    if not ctx().branch(ilt(I((), 1), col.shp[0])):
        return None
    s = fakes.sort(col)
    df = s[1:] - s[:-1]
    df = df[df > 0.0]
    if not ctx().branch(ilt(I(), df.shp[0])):
        return None
    return toR(df.min())


def gaps(mod):
    def task():
        import importlib

        M = importlib.import_module("gpmp.kernel." + mod)
        n = run.integer("n", 1)
        x = gp.mk("x", (n,))
        got = M._minimum_nonzero_gap_distance_1d(x)
        g = gap(x)
        if g is None:
            run.eq("no-gap", sreal(toR(got)), sreal(INF()))
        else:
            run.eq("smallest-gap", sreal(toR(got)), sreal(g))
        run.true("points-unmodified", x.buf.ver == 0)

    task.__name__ = "gap_" + mod
    return task


def stubbed(M, d):
    """The gap of each coordinate by its contract: positive or infinite, chosen by the path."""
    seen = []
    gs = []
    for j in range(d):
        if ctx().branch(rle0(R.arr("nogap%d" % j))):
            gs.append(None)
        else:
            r = R.arr("gap%d" % j)
            ctx().assume(rlt0(r.neg()))
            gs.append(r)

    def f(xj):
        xj = sarr(xj)
        j = len(seen)
        seen.append(xj)
        return float("inf") if gs[j] is None else sreal(gs[j])

    M._minimum_nonzero_gap_distance_1d = gp.stand(M._minimum_nonzero_gap_distance_1d, f)
    return gs, seen


def columns(seen, x, n, d):
    run.true("one-gap-per-coordinate", len(seen) == d)
    for j in range(d):
        run.eq("coordinate-%d" % j, seen[j], fn((n,), lambda i: toR(x.elem((i, I((), j))))))


def lower(d):
    def task():
        import gpmp.kernel.prior_helpers as H
        import gpmp.num as gnp

        n = run.integer("n", 1)
        ctx().ghost["bounded"] = BOUND
        x = gp.mk("x", (n, d))
        f = run.real("factor")
        keep = H._minimum_nonzero_gap_distance_1d
        try:
            gs, seen = stubbed(H, d)
            if ctx().branch(rle0(toR(f))):
                try:
                    H.compute_logrho_min_from_xi(x, f)
                except ValueError:
                    run.record("factor-checked", True)
                else:
                    run.record("factor-checked", False, "accepted")
                return
            got = H.compute_logrho_min_from_xi(x, f)
        finally:
            H._minimum_nonzero_gap_distance_1d = keep
        columns(seen, x, n, d)
        run.same_shape("bound", got, (d,))
        for j in range(d):
            col = x[:, j]
            rg = toR(gnp.max(col)) - toR(gnp.min(col))
            ctx().assume(rle0(rg.neg()))
            e = toR(sarr(got).elem((I((), j),)))
            pos = ctx().branch(rlt0(rg.neg()))
            if pos:
                lr = rlog(rg * toR(f))
            if gs[j] is None:
                run.eq("no-gap", sreal(e), sreal(lr if pos else INF().neg()))
            elif not pos:
                run.eq("gap-only", sreal(e), sreal(rlog(gs[j])))
            else:
                run.eq("larger-of-both", sreal(e), sreal(rmax(rlog(gs[j]), lr)))
        run.true("points-unmodified", x.buf.ver == 0)

    task.__name__ = "lower_%d" % d
    return task


def box(d, q):
    def task():
        import gpmp.kernel.bounds as Bd

        n = run.integer("n", 1)
        ctx().ghost["bounded"] = BOUND
        x, z = gp.mk("x", (n, d)), gp.mk("z", (n,))
        lo, up, le = run.real("lo", 0), run.real("up", 0), run.real("le", 0)
        ctx().assume(rle0(toR(lo) - toR(up)))
        N = toI(n)
        mean = rsum(N, lambda k: toR(z.elem((k,)))) * rinv(R.ofI(N))
        var = rsum(N, lambda k: (toR(z.elem((k,))) - mean) * (toR(z.elem((k,))) - mean)) * rinv(R.ofI(N))
        ctx().assume(rlt0(var.neg()))
        keep = Bd._minimum_nonzero_gap_distance_1d
        try:
            gs, seen = stubbed(Bd, d)
            got = sarr(Bd.empirical_bounds_factory(x, z, mean_paramlength=q, var_lower_factor=lo, var_upper_factor=up, length_lower_factor=le))
        finally:
            Bd._minimum_nonzero_gap_distance_1d = keep
        columns(seen, x, n, d)
        run.same_shape("box", got, (q + 1 + d, 2))
        want = [(INF().neg(), INF())] * q + [(rlog(toR(lo) * var), rlog(toR(up) * var))]
        want += [(INF().neg(), INF() if g is None else rlog(toR(le) * g).neg()) for g in gs]
        for i, (a, b) in enumerate(want):
            for c, w in ((0, a), (1, b)):
                run.eq("row-%s" % ("mean" if i < q else "variance" if i == q else "length"), sreal(toR(got.elem((I((), i), I((), c))))), sreal(w))
        # lean/Gaps.lean: the variance row, the only one with two finite ends, is ordered
        run.true("points-unmodified", x.buf.ver == 0 and z.buf.ver == 0)

    task.__name__ = "box_%d_%d" % (d, q)
    return task


def by_column(M, x, n):
    """The gap of any coordinate by its contract: the column is recognised by its entries."""
    from ..core import rite

    def f(xj):
        xj = sarr(xj)
        row = I.var("row~")
        (a, p), = next(iter(toR(xj.elem((row,))).terms.values()))[1][1]
        j = a.args[1]
        run.same_shape("whole-coordinate", xj, (n,))
        run.record("column-of-the-points", a.name == "x" and a.args[0].key() == row.key() and p == 1)
        return sreal(rite(rle0(R.arr("nogap", j)), INF(), R.arr("gap", j)))

    M._minimum_nonzero_gap_distance_1d = gp.stand(M._minimum_nonzero_gap_distance_1d, f)


def lower_any():
    import gpmp.kernel.prior_helpers as H
    from ..arr import ext_over

    ctx().ghost["summarise"] = True
    n, d = run.integer("n", 1), run.integer("d", 1)
    x = gp.mk("x", (n, d))
    f = run.real("factor", 0)
    keep = H._minimum_nonzero_gap_distance_1d
    try:
        by_column(H, x, n)
        got = H.compute_logrho_min_from_xi(x, f)
    finally:
        H._minimum_nonzero_gap_distance_1d = keep

    def want(j):
        rg = ext_over("max", toI(n), lambda i: R.arr("x", i, j)) - ext_over("min", toI(n), lambda i: R.arr("x", i, j))
        lr = rlog(rg * toR(f))
        return rg, lr

    run.same_shape("bound", got, (d,))
    j = run.integer("j", 0)
    ctx().assume(ilt(toI(j), toI(d)))
    rg, lr = want(toI(j))
    ctx().assume(rle0(rg.neg()))
    e = toR(sarr(got).elem((toI(j),)))
    pos, none = ctx().branch(rlt0(rg.neg())), ctx().branch(rle0(R.arr("nogap", toI(j))))
    g = rlog(R.arr("gap", toI(j)))
    w = (lr if pos else INF().neg()) if none else (rmax(g, lr) if pos else g)
    run.eq("larger-of-both", sreal(e), sreal(w))
    run.true("points-unmodified", x.buf.ver == 0)


def box_any():
    import gpmp.kernel.bounds as Bd

    ctx().ghost["summarise"] = True
    n, d, q = run.integer("n", 1), run.integer("d", 1), run.integer("q", 0)
    x, z = gp.mk("x", (n, d)), gp.mk("z", (n,))
    lo, up, le = run.real("lo", 0), run.real("up", 0), run.real("le", 0)
    N = toI(n)
    mean = rsum(N, lambda k: toR(z.elem((k,)))) * rinv(R.ofI(N))
    var = rsum(N, lambda k: (toR(z.elem((k,))) - mean) * (toR(z.elem((k,))) - mean)) * rinv(R.ofI(N))
    ctx().assume(rlt0(var.neg()))
    keep = Bd._minimum_nonzero_gap_distance_1d
    try:
        by_column(Bd, x, n)
        got = sarr(Bd.empirical_bounds_factory(x, z, mean_paramlength=q, var_lower_factor=lo, var_upper_factor=up, length_lower_factor=le))
    finally:
        Bd._minimum_nonzero_gap_distance_1d = keep
    run.same_shape("box", got, (q + 1 + d, 2))
    end = lambda i, c: sreal(toR(got.elem((toI(i), I((), c)))))
    i, j = run.integer("i", 0), run.integer("j", 0)
    if ctx().branch(ilt(toI(i), toI(q))):
        run.eq("row-mean", end(i, 0), sreal(INF().neg()))
        run.eq("row-mean", end(i, 1), sreal(INF()))
    run.eq("row-variance", end(q, 0), sreal(rlog(toR(lo) * var)))
    run.eq("row-variance", end(q, 1), sreal(rlog(toR(up) * var)))
    ctx().assume(ilt(toI(j), toI(d)))
    none = ctx().branch(rle0(R.arr("nogap", toI(j))))
    run.eq("row-length", end(q + 1 + j, 0), sreal(INF().neg()))
    run.eq("row-length", end(q + 1 + j, 1), sreal(INF() if none else rlog(toR(le) * R.arr("gap", toI(j))).neg()))
    run.true("points-unmodified", x.buf.ver == 0 and z.buf.ver == 0)


TASKS = [gaps("prior_helpers"), gaps("bounds")] + [lower(d) for d in (1, 2, 3)] + [box(d, q) for d in (1, 2, 3) for q in (0, 1, 2)]

def prior_arguments():
    """The bound handed to a prior is the stated one, or the one of all rows of the array or loader."""
    import gpmp.kernel.prior_helpers as H
    from ..arr import concat

    n, m, d = run.integer("n", 1), run.integer("m", 1), run.integer("d", 1)
    x, x2, c0, f = gp.mk("x", (n, d)), gp.mk("x2", (m, d)), gp.mk("c0", (1 + d,)), run.real("factor", 0)
    seen = []

    class Loader:
        class dataset:
            x_list = [x, x2]

    def bound(xi, prior_rho_min_range_factor=None, **kw):
        seen.append((xi, prior_rho_min_range_factor))
        return gp.mk("bound", (d,))

    keep, H.compute_logrho_min_from_xi = H.compute_logrho_min_from_xi, gp.stand(H.compute_logrho_min_from_xi, bound)
    try:
        for src, want in (({"xi": x}, x), ({"dataloader": Loader()}, concat([x, x2], 0))):
            del seen[:]
            out = H.resolve_logsigma2_logrho_prior_args(covparam0_prior=c0, prior_rho_min_range_factor=f, **src)
            run.true("asked-once", len(seen) == 1)
            run.eq("all-rows", seen[0][0], want)
            run.eq("factor", sreal(toR(seen[0][1])), f)
            run.eq("bound", out[6], gp.mk("bound", (d,)))
            run.eq("reference-lengths", out[5], fn((d,), lambda i: R.arr("c0", i.add(I((), 1))).neg()))
            run.eq("reference-variance", sreal(toR(out[4])), sreal(R.arr("c0", I())))
        del seen[:]
        out = H.resolve_logsigma2_logrho_prior_args(covparam0_prior=c0, xi=x, prior_logrho_min=gp.mk("given", (d,)))
        run.eq("stated-bound", out[6], gp.mk("given", (d,)))
    finally:
        H.compute_logrho_min_from_xi = keep


lower_any.closing = box_any.closing = True
TASKS += [lower_any, box_any, prior_arguments]
