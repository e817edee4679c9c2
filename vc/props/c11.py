from .. import gp, run
from ..arr import SBool, SInt, sarr, sreal, toR
from ..core import ctx
from ..gp import fn
from ..arr import concat
from ..terms import Fraction, I, R, ile, ilt, rle0, toI

FUNCTIONS = [
    "dataloader.Dataset.__init__", "dataloader.Dataset._compute_shard_bounds", "dataloader.Dataset.__len__", "dataloader.Dataset.__getitem__",
    "dataloader.Dataset._reduce_min", "dataloader.Dataset._reduce_max", "dataloader.Dataset._reduce_mean", "dataloader.Dataset._reduce_var",
    "dataloader.Dataset._reduce_std", "dataloader.Dataset._reduce_quantile", "dataloader.Dataset._reduce_median",
    "num.*.concatenate", "num.*.min", "num.*.max", "num.*.minimum", "num.*.maximum", "num.torch_backend.percentile",
]


def shards(k, zdim=1):
    """k consecutive non-empty pieces of the arrays x, z."""
    import gpmp.dataloader as D

    d = run.integer("d", 1)
    ns = [run.integer("n%d" % i, 1) for i in range(k)]
    n = 0
    for v in ns:
        n = n + v
    x = gp.mk("x", (n, d))
    z = gp.mk("z", (n,)) if zdim == 1 else gp.mk("z", (n, run.integer("q", 1)))
    xs, zs, at = [], [], 0
    for v in ns:
        xs.append(piece(x, at, v))
        zs.append(piece(z, at, v))
        at = at + v
    ctx().ghost["bounded"] = "one to three shards (any sizes)"
    return D, n, d, x, z, xs, zs


def piece(a, at, ln):
    o = toI(at)
    return fn((ln,) + tuple(a.shape[1:]), lambda i, *r: toR(a.elem((i.add(o),) + r)))


def rows(k, zdim):
    def task():
        D, n, d, x, z, xs, zs = shards(k, zdim)
        ds = D.Dataset(xs, zs)
        run.eq("length", sarr(len_of(ds)), sarr(n))
        i = run.integer("i", 0)
        ctx().assume(ilt(toI(i), toI(n)))
        xi, zi = ds[i]
        run.eq("input-row", xi, x[i])
        run.eq("output-row", zi, z[i])
        run.true("arrays-unmodified", all(a.buf.ver == 0 for a in xs + zs))

    return task


def len_of(ds):
    return type(ds).__len__(ds)


def stats(k, zdim):
    def task():
        D, n, d, x, z, xs, zs = shards(k, zdim)
        import gpmp.num as gnp

        xs = [gp.mk("x%d" % i, a.shape) for i, a in enumerate(xs)]
        zs = [gp.mk("z%d" % i, a.shape) for i, a in enumerate(zs)]
        x, z = (concat(xs, 0), concat(zs, 0)) if k > 1 else (xs[0], zs[0])
        one = D.Dataset(x, z)
        ds = D.Dataset(xs, zs)
        q = sreal(R.arr("q"))
        ctx().assume(rle0(toR(q).neg())), ctx().assume(rle0(toR(q) - R.num(1)))
        for f, a in (("x", x), ("z", z)):
            N = toI(n)
            m = a.mean(axis=0)
            spec = {
                "min": gnp.min(a, axis=0), "max": gnp.max(a, axis=0), "mean": m,
                "median": gnp.percentile(a, 50.0, axis=0),
            }
            for s in ("min", "max", "mean", "median"):
                run.eq(f + "-" + s, getattr(ds, f + "_" + s)(), spec[s])
                run.eq(f + "-" + s + "-unsplit", getattr(one, f + "_" + s)(), spec[s])
            run.eq(f + "-quantile", getattr(ds, f + "_quantile")(q), gnp.percentile(a, q * 100.0, axis=0))
            if ctx().branch(ilt(I((), 1), N)):
                v = gnp.sum((a - m) ** 2, axis=0) / (n - 1)
                run.eq(f + "-var", getattr(ds, f + "_var")(), v)
                run.eq(f + "-std", getattr(ds, f + "_std")(), gnp.sqrt(v))
                run.eq(f + "-var-unsplit", getattr(one, f + "_var")(), v)
                run.eq(f + "-std-unsplit", getattr(one, f + "_std")(), gnp.sqrt(v))
        run.true("arrays-unmodified", all(a.buf.ver == 0 for a in xs + zs))

    return task


def rejects():
    D, n, d, x, z, xs, zs = shards(2)

    def refused(name, X, Z):
        try:
            D.Dataset(X, Z)
        except Exception as e:
            run.true(name, type(e).__name__ not in ("Unsupported", "Split"))
        else:
            run.true(name, False)

    refused("more-input-shards", xs, [zs[0]])
    refused("more-output-shards", [xs[0]], zs)
    m = run.integer("m", 1)
    w = gp.mk("w", (m,))
    a = D.Dataset(xs[0], zs[0])
    try:
        D.Dataset([xs[0], xs[1]], [zs[0], w])
        ok = True
    except AssertionError:
        ok = False
    run.true("row-counts-match-iff-accepted", ctx().decide(ieq_(m, xs[1].shape[0])) is ok)


def ieq_(a, b):
    from ..terms import ieq

    return ieq(toI(a), toI(b))


TASKS = []
for k in (1, 2, 3):
    for zd in (1, 2):
        for mk_ in (rows, stats):
            if k == 3 and zd == 2 and mk_ is stats:
                continue
            t = mk_(k, zd)
            t.__name__ = "%s_%d_shards_%dd" % (mk_.__name__, k, zd)
            TASKS.append(t)
TASKS.append(rejects)


def pieces(zdim):
    """Any number of non-empty shards: shard k has m(k) rows."""
    import gpmp.dataloader as D
    from ..instr import SymList

    ctx().ghost["summarise"] = True
    S, d = run.integer("S", 1), run.integer("d", 1)
    if ctx().branch(ieq_(S, 1)):
        S = 1
    run.intfact("m", lambda a: [ile(I((), 1), I.fn("m", a))])
    q = run.integer("q", 1)

    def shard(name, *tail):
        return SymList.of(S, lambda k: fn((SInt(I.fn("m", k)),) + tail, lambda *ix: R.arr(name, toI(k), *ix)))

    return D, S, d, shard("x", d), shard("z", *((q,) if zdim == 2 else ()))


def any_rows(zdim):
    def task():
        from ..loops import isum

        D, S, d, xs, zs = pieces(zdim)
        ds = D.Dataset(xs, zs)
        start = lambda k: isum(k, lambda j: I.fn("m", j))
        run.eq("length", sarr(len_of(ds)), sarr(SInt(start(toI(S)))))
        k, l = run.integer("k", 0), run.integer("l", 0)
        ctx().assume(ilt(toI(k), toI(S)))
        ctx().assume(ilt(toI(l), I.fn("m", toI(k))))
        xi, zi = ds[SInt(start(toI(k)).add(toI(l)))]
        run.eq("input-row", xi, xs[k][l])
        run.eq("output-row", zi, zs[k][l])

    return task


def any_stats(zdim):
    """Statistics of the rows of all shards: sums over shards of sums over rows."""

    def task():
        from ..arr import ext_over
        from ..core import rinv, rsqrt, rsum
        from ..loops import isum
        import gpmp.num as gnp

        D, S, d, xs, zs = pieces(zdim)
        ds = D.Dataset(xs, zs)
        s = toI(S)
        rows = lambda k: I.fn("m", k)
        N = R.ofI(isum(s, rows))
        q = sreal(R.arr("q"))
        ctx().assume(rle0(toR(q).neg())), ctx().assume(rle0(toR(q) - R.num(1)))
        for f, a in (("x", xs), ("z", zs)):
            tail = a[0].shape[1:]
            every = lambda g: rsum(s, lambda k: rsum(rows(k), lambda i: g(k, i)))
            get = lambda k, i, ix: R.arr(f, k, i, *ix)
            mean = lambda *ix: every(lambda k, i: get(k, i, ix)) * rinv(N)
            run.eq(f + "-mean", getattr(ds, f + "_mean")(), fn(tail, mean))
            for op in ("min", "max"):
                run.eq(f + "-" + op, getattr(ds, f + "_" + op)(), fn(tail, lambda *ix: ext_over(
                    op, s, lambda k: ext_over(op, rows(k), lambda i: get(k, i, ix)))))
            if ctx().branch(ilt(I((), 1), isum(s, rows))):
                var = lambda *ix: every(lambda k, i: (get(k, i, ix) - mean(*ix)) * (get(k, i, ix) - mean(*ix))) * rinv(N - R.num(1))
                run.eq(f + "-var", getattr(ds, f + "_var")(), fn(tail, var))
                run.eq(f + "-std", getattr(ds, f + "_std")(), fn(tail, lambda *ix: rsqrt(var(*ix))))
            whole = a.concat(0)
            run.eq(f + "-quantile", getattr(ds, f + "_quantile")(q), gnp.percentile(whole, q * 100.0, axis=0))
            run.eq(f + "-median", getattr(ds, f + "_median")(), gnp.percentile(whole, 50.0, axis=0))

    return task


def whole():
    """The array the quantiles are taken of has row l of shard k at position m(0) + ... + m(k-1) + l."""
    from ..loops import isum

    D, S, d, xs, zs = pieces(1)
    start = lambda k: isum(k, lambda j: I.fn("m", j))
    a = xs.concat(0)
    run.same_shape("rows", a, (SInt(start(toI(S))), d))
    k, l = run.integer("k", 0), run.integer("l", 0)
    ctx().assume(ilt(toI(k), toI(S)))
    ctx().assume(ilt(toI(l), I.fn("m", toI(k))))
    if S == 1:
        return
    at = start(toI(k)).add(toI(l))
    piece = I.fn("piece!m(@)", at)
    run.true("row-from-its-shard", SBool(ieq_(piece, k)))
    run.true("row-at-its-place", SBool(ieq_(at.add(start(piece), -1), l)))
    run.eq("row", a[SInt(at)], fn((d,), lambda j: R.arr("x", piece, at.add(start(piece), -1), j)))


for zd in (1, 2):
    for mk_, nm in ((any_rows, "rows"), (any_stats, "stats")):
        t = mk_(zd)
        t.__name__ = "%s_any_number_of_shards_%dd" % (nm, zd)
        t.closing = True
        TASKS.append(t)
whole.closing = True
TASKS.append(whole)
