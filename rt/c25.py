"""Gaussian scoring rules against numerical integrals of their definitions."""
import math

import numpy as np
from scipy.special import ndtr

import gpmp.num as gnp
from gpmp.misc import scoringrules as S

from .core import check, np_

GX, GW = np.polynomial.legendre.leggauss(60)


def integral(f, a, b, breaks=()):
    """Piecewise Gauss-Legendre on [a, b]."""
    pts = sorted({a, b, *[x for x in breaks if a < x < b]})
    s = 0.0
    for l, r in zip(pts, pts[1:]):
        k = max(1, int(math.ceil((r - l) / 0.5)))
        e = np.linspace(l, r, min(k, 60) + 1)
        m, h = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        s += (h[:, None] * GW * f(m[:, None] + h[:, None] * GX)).sum()
    return s


def tcrps(mu, s, z, a, b):
    """Integral of (F - 1(z <= u))^2 between the bounds; in units of s around mu."""
    t = (z - mu) / s
    lo, hi = max((a - mu) / s, min(-40.0, t)), min((b - mu) / s, max(40.0, t))
    if hi <= lo:
        return 0.0
    edges = [t, -9.0, 9.0]
    return s * integral(lambda u: (ndtr(u) - (u >= t)) ** 2, lo, hi, edges)


def ei(mu, s, z, k):
    """E max(X_1, .., X_k, z) - z, that is the integral of 1 - F^k above z."""
    t = (z - mu) / s
    hi = max(t, 12.0)
    return s * integral(lambda u: 1 - ndtr(u) ** k, t, hi, [-12.0])


def batch(t):
    n = t.size("n", 1, 6, 50)
    mu, z = 2 * t.rng.normal(size=n), 2 * t.rng.normal(size=n)
    s = np.exp(t.rng.normal(size=n) * t.pick("spread", [0.3, 1.0]))
    if t.pick("tie", [False, False, True]):
        z[0] = mu[0]
    t.put(mu=mu, sigma=s, z=z)
    return n, mu, s, z


def vec(t, x):
    return gnp.asarray(x)


@check(60)
def crps(t):
    n, mu, s, z = batch(t)
    got = S.crps_gaussian(vec(t, mu), vec(t, s), vec(t, z))
    t.shape("scores", got, (n,))
    want = [tcrps(*r, -np.inf, np.inf) for r in zip(mu, s, z)]
    t.close("integral of the squared difference", got, want, 1e-8, 1e-9)
    t.close("whole line", S.tcrps_gaussian(vec(t, mu), vec(t, s), vec(t, z)), want, 1e-8, 1e-9)
    t.true("nonnegative", bool((np_(got) >= 0).all()))


@check(60)
def improvement(t):
    n, mu, s, z = batch(t)
    how = t.pick("threshold", ["vector", "scalar"])
    zz = z if how == "vector" else np.full(n, float(z[0]))
    arg = vec(t, z) if how == "vector" else gnp.asarray(float(z[0]))
    for k, f in ((1, S.ei1_up), (2, S.ei2_up)):
        got = f(vec(t, mu), vec(t, s), arg)
        t.close("expected improvement of %d" % k, got, [ei(m, a, b, k) for m, a, b in zip(mu, s, zz)], 1e-6, 1e-7)


@check(120)
def truncated(t):
    n, mu, s, z = batch(t)
    c = np.sort(2.5 * t.rng.normal(size=3))
    a, m, b = map(float, c)
    if t.pick("at an observation", [False, True]):
        m = float(z[0])
        a, b = min(a, m - 0.3), max(b, m + 0.7)
    a = -np.inf if t.pick("lower", ["finite", "inf"]) == "inf" else a
    b = np.inf if t.pick("upper", ["finite", "inf"]) == "inf" else b
    t.put(a=a, m=m, b=b)
    A = (vec(t, mu), vec(t, s), vec(t, z))
    whole = np_(S.tcrps_gaussian(*A, a=a, b=b))
    t.shape("scores", whole, (n,))
    t.close("integral between the bounds", whole, [tcrps(*r, a, b) for r in zip(mu, s, z)], 1e-6, 1e-6)
    parts = np_(S.tcrps_gaussian(*A, a=a, b=m)) + np_(S.tcrps_gaussian(*A, a=m, b=b))
    t.close("adjacent intervals add up", parts, whole, 1e-6, 1e-6)
    if np.isfinite(a) and np.isfinite(b):
        # reflection
        t.close("reflection", S.tcrps_gaussian(-A[0], A[1], -A[2], a=-b, b=-a), whole, 1e-6, 1e-6)


@check(40)
def units(t):
    """Scores and improvements are in the unit of the observations, however small or large it is."""
    n, mu, s, z = batch(t)
    c = t.pick("unit", [1e-9, 1e-4, 1e7])
    a, b = sorted(2 * t.rng.normal(size=2))
    one = [vec(t, v) for v in (mu, s, z)]
    two = [vec(t, v * c) for v in (mu, s, z)]
    forms = [("crps", S.crps_gaussian, {}), ("first improvement", S.ei1_up, {}), ("second improvement", S.ei2_up, {}),
             ("below", S.tcrps_gaussian, {"b": b}), ("above", S.tcrps_gaussian, {"a": a}), ("between", S.tcrps_gaussian, {"a": a, "b": b})]
    for name, f, kw in forms:
        want = np_(f(*one, **kw)) * c
        t.close(name, f(*two, **{k: v * c for k, v in kw.items()}), want, 1e-6, 1e-6 * c)
