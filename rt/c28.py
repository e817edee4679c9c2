"""Performance figures recomputed from deletion and kriging, or from the predictions handed over."""
import math

import numpy as np
from scipy.special import ndtr

from gpmp.modeldiagnosis.performance import compute_performance

from .core import Skip, check, np_
from .gpx import A, basis, gp, gnp, kernel, kmat, linear_mean, pmean, pmean_np, pts, theta, uk, well


def shaped(t, name, z):
    z = z.reshape(-1, 1) if t.pick(name + " column", [False, True]) else z
    return A(z) if t.pick(name + " tensor", [True, False]) else z


def figures(t, out, pre, z, e, var, names, pit):
    n = len(z)
    tss, ss = float(((z - z.mean()) ** 2).sum()), float((e**2).sum())
    std = math.sqrt(tss / n)
    want = {
        "n": n, "std": std, "tss": tss, names[0]: ss, names[0] + "_over_tss": ss / tss,
        "log10_%s_over_tss" % names[0]: math.log10(ss / tss), "rmse": math.sqrt(ss / n),
        "rmse_over_std": math.sqrt(ss / n) / std, names[1]: 1 - ss / tss,
    }
    for k, w in want.items():
        if t.true(pre + k + " reported", pre + k in out, got=sorted(out)) is False:
            continue
        t.close(pre + k, np_(out[pre + k]).reshape(()), w, 1e-5, 1e-6)
    t.true(pre + "pit present when asked for", (pre + "pit" in out) == pit)
    if pit:
        p = np_(out[pre + "pit"])
        t.true(pre + "pit one per observation", p.size == n, shape=list(p.shape))
        p = p.reshape(-1)
        t.close(pre + "pit", p, ndtr(e / np.sqrt(var)), 1e-4, 1e-5)
        t.true(pre + "pit in the unit interval", bool(((p >= 0) & (p <= 1)).all()))


def only(t, out, loo, test):
    bad = [k for k in out if not (loo and k.startswith("loo_") or test and k.startswith("test_"))]
    t.true("nothing that was not asked for", not bad, keys=bad)


def predictions(K, Kt, ktt, P, Pt, z, m, mt, mi):
    """Kriging prediction and variance at the columns of Kt."""
    if mt == "linear_predictor":
        if np.linalg.cond(P) > 1e4:
            raise Skip()
        w, _ = uk(K, Kt, P, Pt)
        zp = w.T @ z
    else:
        w = np.linalg.solve(K, Kt)
        zp = m + w.T @ (z - mi)
    return zp, ktt - 2 * (w * Kt).sum(0) + (w * (K @ w)).sum(0)


@check(60)
def own_predictions(t):
    mt = t.pick("meantype", ["zero", "parameterized", "linear_predictor"])
    q = t.size("q", 1, 2)
    n, d, m = t.size("n", q + 3, 10, 30), t.size("d", 1, 3), t.size("m", 2, 8, 60)
    xi, th = pts(t, n, d, "xi"), theta(t, d)
    xt = pts(t, m, d, "xt")
    K = well(t, xi, th, 1e5)
    mp = t.rng.normal(size=2)
    zi, zt = t.rng.normal(size=n) + 3, 2 * t.rng.normal(size=m) + 3
    t.put(zi=zi, zt=zt, meanparam=mp)
    mean = {"zero": None, "parameterized": pmean, "linear_predictor": linear_mean(q)}[mt]
    mod = gp.core.Model(mean, kernel, A(mp) if mt == "parameterized" else None, A(th), meantype=mt)
    P, Pt = basis(xi, q), basis(xt, q)
    mi, mm = (pmean_np(xi, mp), pmean_np(xt, mp)) if mt == "parameterized" else (np.zeros(n), np.zeros(m))
    loo, test, pit = t.pick("loo", [True, True, False]), t.pick("test", [True, True, False]), t.pick("pit", [True, False])
    arg = shaped(t, "zi", zi)
    kw = {"xtzt": (A(xt) if t.pick("xt tensor", [True, False]) else xt, shaped(t, "zt", zt))} if test else {}
    out = compute_performance(mod, A(xi) if t.pick("xi tensor", [True, False]) else xi, arg, loo=loo, compute_pit=pit, **kw)
    only(t, out, loo, test)
    if loo:
        zl, vl = np.zeros(n), np.zeros(n)
        for i in range(n):
            o = np.arange(n) != i
            a, b = predictions(K[o][:, o], K[o][:, [i]], K[[i], [i]], P[o], P[[i]], zi[o], mi[[i]], mt, mi[o])
            zl[i], vl[i] = a[0], b[0]
        if vl.min() < 1e-6 * K[0, 0]:
            raise Skip()
        figures(t, out, "loo_", zi, zi - zl, vl, ("press", "Q2"), pit)
    if test:
        zp, vp = predictions(K, kmat(xi, xt, th), np.diag(kmat(xt, xt, th)), P, Pt, zi, mm, mt, mi)
        if vp.min() < 1e-6 * K[0, 0]:
            raise Skip()
        figures(t, out, "test_", zt, zt - zp, vp, ("rss", "R2"), pit)


class Never:
    """A model that must not be asked."""

    def loo(self, *a, **k):
        raise AssertionError("leave-one-out predictions recomputed")

    def predict(self, *a, **k):
        raise AssertionError("predictions recomputed")


@check(80)
def given_predictions(t):
    n, m = t.size("n", 2, 10), t.size("m", 2, 8, 60)
    zi, zl, vl = 3 * t.rng.normal(size=n), t.rng.normal(size=n), np.exp(t.rng.normal(size=n))
    zt, zp, vp = 3 * t.rng.normal(size=m) + 1, t.rng.normal(size=m), np.exp(t.rng.normal(size=m))
    unit = t.pick("unit", [1.0, 1.0, 1e-7, 1e6])
    zi, zl, zt, zp, vl, vp = zi * unit, zl * unit, zt * unit, zp * unit, vl * unit**2, vp * unit**2
    t.put(zi=zi, zl=zl, vl=vl, zt=zt, zp=zp, vp=vp)
    pit = t.pick("pit", [True, False])
    give = lambda name, *a: tuple(A(v) for v in a) if t.pick(name + " tensors", [True, False]) else a
    loo, test = t.pick("loo", [True, False]), t.pick("test", [True, False])
    kw = {}
    if test:
        kw = {"xtzt": (np.zeros((m, 1)), shaped(t, "zt", zt)), "zpmzpv": give("predictions", zp, vp)}
    out = compute_performance(
        Never(), np.zeros((n, 1)), shaped(t, "zi", zi), loo=loo, loo_res=give("loo", zl, vl, zi - zl), compute_pit=pit, **kw
    )
    only(t, out, loo, test)
    if loo:
        figures(t, out, "loo_", zi, zi - zl, vl, ("press", "Q2"), pit)
    if test:
        figures(t, out, "test_", zt, zt - zp, vp, ("rss", "R2"), pit)
