from .. import gp, run
from ..arr import SBool, sarr, sreal, toB, toR
from ..core import ctx, ind, rsqrt, rsum, rinv, rite, prove_zero
from ..gp import fn
from ..terms import Fraction, I, ONE, R, ZERO, bnot, ile, ilt, rlt0, toI

FUNCTIONS = ["dataloader." + c + "." + m for c in ("Normalizer", "RobustScaler", "MinMaxScaler", "ObservationScaler") for m in ("__init__", "fit", "transform", "inverse_transform")] + ["num.*.std", "num.torch_backend.percentile"]


def setup():
    import gpmp.dataloader as D

    n, d, m = run.integer("n", 1), run.integer("d", 1), run.integer("m", 1)
    return D, n, d, m, gp.mk("data", (n, d)), gp.mk("y", (m, d))


def guard(s):
    """The spread, or one when it is below the guard."""
    return rite(rlt0(s - R.num(Fraction(1, 10**8))), ONE, s)


def roundtrip(name, sc, y, shape):
    own = lambda: fn(shape, lambda *ix: toR(y.elem(ix)))
    for copy in (True, False):
        t = sc.transform(y if copy else own(), copy=copy)
        run.same_shape(name + "-transform-shape", t, shape)
        run.eq(name + "-inverse-of-transform", sc.inverse_transform(t, copy=copy), y)
        u = sc.inverse_transform(y if copy else own(), copy=copy)
        run.eq(name + "-transform-of-inverse", sc.transform(u, copy=copy), y)
    run.true(name + "-argument-unmodified", y.buf.ver == 0)


def affine(name, got, x, loc, spread, n, d):
    run.eq(name, got, fn((n, d), lambda i, j: (toR(x.elem((i, j))) - loc(j)) * rinv(guard(spread(j)))))


def normalizer():
    D, n, d, m, x, y = setup()
    sc = D.Normalizer.fit(x)
    N = toI(n)
    mean = lambda j: rsum(N, lambda k: toR(x.elem((k, j)))) * rinv(R.ofI(N))
    var = lambda j: rsum(N, lambda k: (toR(x.elem((k, j))) - mean(j)) * (toR(x.elem((k, j))) - mean(j))) * rinv(R.ofI(N))
    affine("normalizer-fitted-map", sc.transform(x), x, mean, lambda j: rsqrt(var(j)), n, d)
    roundtrip("normalizer", sc, y, (m, d))
    t = sc.transform(x)
    run.eq("normalizer-mean-zero", sarr(fn((d,), lambda j: rsum(N, lambda k: toR(t.elem((k, j)))))), fn((d,), lambda j: ZERO))
    j = I.var("j")
    ctx().assume(ile(I(), j)), ctx().assume(ilt(j, toI(d)))
    if ctx().branch(rlt0(rsqrt(var(j)) - R.num(Fraction(1, 10**8)))):
        return
    run.eq("normalizer-unit-deviation", sreal(rsum(N, lambda k: toR(t.elem((k, j))) * toR(t.elem((k, j)))) - R.ofI(N)), sreal(ZERO))
    run.true("data-unmodified", x.buf.ver == 0)


def normalizer_any():
    D, n, d, m, x, y = setup()
    sc = D.Normalizer(gp.mk("loc", (1, d)), gp.mk("spread", (1, d)))
    roundtrip("normalizer", sc, y, (m, d))


def robust():
    D, n, d, m, x, y = setup()
    a, b = sreal(R.arr("qlow")), sreal(R.arr("qhigh"))
    ctx().assume(ile(I(), I()))
    ctx().assume(rlt0(toR(a) - toR(b)))
    from .. import fakes

    def pc(q, j):
        return fakes.pct(toR(q), toI(n), lambda k: toR(x.elem((k, j))))

    sc = D.RobustScaler.fit(x, q_low=a, q_high=b)
    spread = lambda j: pc(b, j) - pc(a, j)
    affine("robust-fitted-map", sc.transform(x), x, lambda j: pc(50, j), spread, n, d)
    roundtrip("robust", sc, y, (m, d))
    sc = D.RobustScaler.fit(x)
    affine("robust-default-levels", sc.transform(x), x, lambda j: pc(50, j), lambda j: pc(75, j) - pc(25, j), n, d)
    t = sc.transform(x)
    run.eq("robust-median-zero", fn((d,), lambda j: fakes.pct(R.num(50), toI(n), lambda k: toR(t.elem((k, j))))), fn((d,), lambda j: ZERO))
    sc = D.RobustScaler(gp.mk("loc", (1, d)), gp.mk("spread", (1, d)))
    roundtrip("robust", sc, y, (m, d))
    run.true("data-unmodified", x.buf.ver == 0)


def minmax():
    D, n, d, m, x, y = setup()
    import gpmp.num as gnp

    sc = D.MinMaxScaler.fit(x)
    lo, hi = gnp.min(x, axis=0, keepdims=True), gnp.max(x, axis=0, keepdims=True)
    e = lambda a, j: toR(a.elem((I(), j)))
    affine("minmax-fitted-map", sc.transform(x), x, lambda j: e(lo, j), lambda j: e(hi, j) - e(lo, j), n, d)
    roundtrip("minmax", sc, y, (m, d))
    t = sc.transform(x)
    tl, th = gnp.min(t, axis=0), gnp.max(t, axis=0)
    j = I.var("j")
    ctx().assume(ile(I(), j)), ctx().assume(ilt(j, toI(d)))
    if not ctx().branch(rlt0(e(hi, j) - e(lo, j) - R.num(Fraction(1, 10**8)))):
        run.eq("minmax-minimum-zero", sreal(toR(tl.elem((j,)))), sreal(ZERO))
        run.eq("minmax-maximum-one", sreal(toR(th.elem((j,)))), sreal(ONE))
    sc = D.MinMaxScaler(gp.mk("lo", (1, d)), gp.mk("hi", (1, d)))
    roundtrip("minmax", sc, y, (m, d))
    run.true("data-unmodified", x.buf.ver == 0)


def observation():
    D, n, d, m, x, y = setup()
    z, w = gp.mk("z", (n,)), gp.mk("w", (m,))
    sc = D.ObservationScaler.fit(z)
    N = toI(n)
    mean = rsum(N, lambda k: toR(z.elem((k,)))) * rinv(R.ofI(N))
    var = rsum(N, lambda k: (toR(z.elem((k,))) - mean) * (toR(z.elem((k,))) - mean)) * rinv(R.ofI(N))
    run.eq("observation-fitted-map", sc.transform(z), fn((n,), lambda i: (toR(z.elem((i,))) - mean) * rinv(guard(rsqrt(var)))))
    roundtrip("observation", sc, w, (m,))
    sc = D.ObservationScaler(sreal(R.arr("loc")), sreal(R.arr("spread")))
    roundtrip("observation", sc, w, (m,))
    run.true("data-unmodified", z.buf.ver == 0)


TASKS = [normalizer, normalizer_any, robust, minmax, observation]
