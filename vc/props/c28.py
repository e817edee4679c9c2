"""Performance figures from the predictions of an arbitrary model (C28)."""
import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, rinv, rlog, rsqrt, rsum
from ..fakes import Phi
from ..gp import fn
from ..terms import I, ONE, R, rlt0, toI

FUNCTIONS = ["modeldiagnosis.performance." + f for f in ("compute_performance", "_as_1d")]


def figures(pre, names, out, n, z, e, v, pit, column):
    N = toI(n)
    inv = rinv(R.ofI(N))
    mean = rsum(N, z) * inv
    tss = rsum(N, lambda i: (z(i) - mean) * (z(i) - mean))
    ss = rsum(N, lambda i: e(i) * e(i))
    std, rmse = rsqrt(tss * inv), rsqrt(ss * inv)
    ratio = ss * rinv(tss)
    want = {
        "std": std, "tss": tss, names[0]: ss, names[0] + "_over_tss": ratio, "rmse": rmse,
        "rmse_over_std": rmse * rinv(std), names[1]: ONE - ratio,
        "log10_%s_over_tss" % names[0]: rlog(ratio) * rinv(rlog(R.num(10))),
    }
    c = ctx()
    run.true(pre + "n", out[pre + "n"] == n)
    for k, w in want.items():
        run.true(pre + k + "-reported", pre + k in out)
        run.eq(pre + k, sreal(toR(out[pre + k])), sreal(w))
    run.true(pre + "pit-when-asked-for", (pre + "pit" in out) == pit)
    if pit:
        got = sarr(out[pre + "pit"])
        run.same_shape(pre + "pit", got, (N, I((), 1)) if column else (N,))

        def body(ix):
            i = ix[0]
            c.assume(rlt0(v(i).neg()))
            run.eq(pre + "pit", sreal(toR(got.elem((i, I()) if column else (i,)))), sreal(Phi(e(i) * rinv(rsqrt(v(i))))))

        run.forall_ix((N,), body)


def positive(n, z, e):
    """Neither the data nor the residuals are constant zero."""
    N = toI(n)
    mean = rsum(N, z) * rinv(R.ofI(N))
    for s in (rsum(N, lambda i: (z(i) - mean) * (z(i) - mean)), rsum(N, lambda i: e(i) * e(i))):
        ctx().assume(rlt0(s.neg()))


def performance(loo, test, given, pit, column):
    def task():
        from gpmp.modeldiagnosis.performance import compute_performance

        n, m, d = run.integer("n", 2), run.integer("m", 2), run.integer("d", 1)
        xi, xt = gp.points("xi", n, d), gp.points("xt", m, d)
        zi, zt = (gp.mk(k, (s, 1) if column else (s,)) for k, s in (("zi", n), ("zt", m)))
        zl, vl, el, zp, vp = (gp.vector(k, s) for k, s in (("zl", n), ("vl", n), ("el", n), ("zp", m), ("vp", m)))
        at = lambda x, col=False: lambda i: toR(x.elem((i, I()) if col else (i,)))
        Z, ZT = at(zi, column), at(zt, column)
        # the error is that of the prediction (contract of loo, C04)
        el = fn((n,), lambda i: Z(i) - at(zl)(i))
        asked = []

        class Model:
            def loo(self, x, z, **kw):
                asked.append("loo")
                run.eq("loo-of-the-inputs", x, xi)
                run.eq("loo-of-the-data", z, zi)
                return zl, vl, el

            def predict(self, x, z, y, **kw):
                asked.append("predict")
                run.eq("predict-from-the-inputs", x, xi)
                run.eq("predict-from-the-data", z, zi)
                run.eq("predict-at-the-test-points", y, xt)
                return (zp, vp) if kw.get("convert_out") is False else outside(zp, vp)

        kw = {}
        if test:
            kw["xtzt"] = (xt, zt)
            if given:
                kw["zpmzpv"] = (zp, vp)
        if loo and given:
            kw["loo_res"] = (zl, vl, el)
        if loo:
            positive(n, Z, at(el))
        if test:
            positive(m, ZT, lambda i: ZT(i) - at(zp)(i))
        out = compute_performance(Model(), xi, zi, loo=loo, compute_pit=pit, **kw)
        run.true("asked-only-for-what-is-needed", set(asked) <= ((set() if given else {"loo"}) if loo else set()) | ((set() if given else {"predict"}) if test else set()))
        run.true("nothing-else", all(k.startswith("loo_") and loo or k.startswith("test_") and test for k in out), sorted(out))
        if loo:
            figures("loo_", ("press", "Q2"), out, n, Z, at(el), at(vl), pit, column)
        if test:
            figures("test_", ("rss", "R2"), out, m, ZT, lambda i: ZT(i) - at(zp)(i), at(vp), pit, column)

    task.__name__ = "_".join(k for k, b in (("loo", loo), ("test", test), ("given", given), ("pit", pit), ("column", column)) if b)
    return task


def outside(*xs):
    """Converted results: NumPy arrays whatever the backend."""
    import gpmp.num as gnp

    return tuple(gnp.to_np(x) for x in xs)


TASKS = [performance(*k) for k in itertools.product((True, False), repeat=5) if k[0] or k[1]]
