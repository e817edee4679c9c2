from math import erf, log, sqrt

import numpy as np

import gpmp as gp
import gpmp.num as gnp
from gpmp.kernel import priors as P

from .core import check, np_
from .gpx import A, kernel, linear_mean, pts, theta, well


def f(x):
    return float(np_(x).reshape(()))


def gauss(v, v0, gamma, cov):
    """Log of the normal density in log variance, up to its constant, by bisection on the coverage."""
    lo, hi = 1e-6, 50.0
    for _ in range(200):
        z = (lo + hi) / 2
        lo, hi = (z, hi) if erf(z / sqrt(2)) < cov else (lo, z)
    s = log(gamma) / z
    return -0.5 * ((v - v0) / s) ** 2


def barrier(r, rmin, r0, alpha):
    s = r - rmin
    with np.errstate(all="ignore"):
        return np.where(s > 0, alpha * (s - (r0 - rmin) * np.log(np.where(s > 0, s, 1.0))), np.inf)


def power(th, lam=1.0, cv=9.21, lr=0.0, lo=-9.21, hi=9.21, pen=100.0):
    v, p = th[0], th[1:]
    return -lam * v - pen * max(v - cv, 0) - lr * p.sum() - pen * np.maximum(lo - p, 0).sum() - pen * np.maximum(p - hi, 0).sum()


@check(60)
def criteria(t):
    n, d, q = t.size("n", 4, 9), t.size("d", 1, 3, 9), t.size("q", 1, 2)
    x, th = pts(t, n, d), theta(t, d)
    well(t, x, th, 1e8)
    z = t.rng.normal(size=n)
    m = gp.core.Model(linear_mean(q), kernel, meanparam=A([]), covparam=A(th))
    X, Z, TH = A(x), A(z), A(th)
    nl = f(m.negative_log_restricted_likelihood(TH, X, Z))
    lam = t.pick("lambda", [1.0, 0.5, 3.0])
    t.close("jeffreys", f(P.neg_log_restricted_posterior_with_jeffreys_prior(m, TH, X, Z, lambda_var=lam)), nl + lam * th[0])
    t.close("jeffreys default", f(P.neg_log_restricted_posterior_with_jeffreys_prior(m, TH, X, Z)), nl + th[0])
    F = np_(m.fisher_information(X, TH))
    if np.all(np.isfinite(F)) and np.linalg.cond(F) < 1e8:
        t.close("reference", f(P.log_prior_reference(m, TH, X)), 0.5 * np.linalg.slogdet(F)[1], 1e-6, 1e-6)
    t.close("power law", f(P.neg_log_restricted_posterior_power_laws_prior(m, TH, X, Z)), nl - power(th))
    v0 = float(t.rng.normal())
    gamma, cov, al = float(1.1 + 3 * t.rng.random()), t.pick("coverage", [0.5, 0.9, 0.95, 0.99]), float(0.2 + 3 * t.rng.random())
    g = gauss(th[0], v0, gamma, cov)
    t.close("variance prior", f(P.neg_log_restricted_posterior_logsigma2_prior(m, TH, X, Z, v0, gamma=gamma, sigma2_coverage=cov)), nl - g)
    r = -th[1:]
    rmin = r - t.rng.random(d) * 2 - 0.01
    if t.pick("outside", [False, False, True]):
        rmin[int(t.rng.integers(d))] += 4.0
    r0 = np.maximum(rmin + 0.05 + 3 * t.rng.random(d), rmin + 0.05)
    t.put(logrho=r, logrho_min=rmin, logrho_0=r0, gamma=gamma, alpha=al, log_sigma2_0=v0)
    b = barrier(r, rmin, r0, al).sum()
    got = f(P.neg_log_restricted_posterior_with_logrho_prior(m, TH, X, Z, A(rmin), A(r0), alpha=al))
    t.close("length prior", got, nl + b)
    got = f(P.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
        m, TH, X, Z, v0, gamma=gamma, sigma2_coverage=cov, logrho_min=A(rmin), logrho_0=A(r0), alpha=al))
    t.close("both priors", got, nl - g + b)
    t.same("parameters untouched", TH, th)


@check(60)
def variance_prior(t):
    d = t.size("d", 1, 3, 9)
    th = t.rng.normal(size=1 + d)
    gamma, cov = float(1.01 + 5 * t.rng.random()), float(0.02 + 0.97 * t.rng.random())
    v0 = float(t.rng.normal() * 3)
    t.put(theta=th, gamma=gamma, coverage=cov, log_sigma2_0=v0)
    lp = lambda v: f(P.log_prior_gaussian_logsigma2(A(np.concatenate([[v], th[1:]])), v0, gamma=gamma, sigma2_coverage=cov))
    t.close("value", lp(th[0]), gauss(th[0], v0, gamma, cov), 1e-6)
    # deviation read off the density, then the probability of the central interval
    s = sqrt(1.0 / (2 * (lp(v0) - lp(v0 + 1.0))))
    t.close("coverage", erf(log(gamma) / s / sqrt(2)), cov, 1e-6)
    t.close("symmetric", lp(v0 - 0.7), lp(v0 + 0.7), 1e-9)
    bad = t.pick("bad", [dict(gamma=1.0), dict(gamma=0.5), dict(sigma2_coverage=1.0), dict(sigma2_coverage=0.0), dict(sigma2_coverage=1.2)])
    t.raises("range checked", ValueError, lambda: P.log_prior_gaussian_logsigma2(A(th), v0, **bad))


@check(60)
def length_prior(t):
    d = t.size("d", 1, 4, 9)
    rmin = t.rng.normal(size=d) * 3
    gap = 0.05 + 4 * t.rng.random(d)
    r0 = rmin + gap
    al = float(0.1 + 3 * t.rng.random())
    t.put(logrho_min=rmin, logrho_0=r0, alpha=al)
    F = lambda r: np_(P.neglog_f_logrho(A(r), A(rmin), A(r0), alpha=al))
    t.true("infinite at the bound", np.all(np.isposinf(F(rmin))))
    t.true("infinite below", np.all(np.isposinf(F(rmin - 10 * t.rng.random(d)))))
    near = F(rmin + 1e-9)
    t.true("finite above", np.all(np.isfinite(near)))
    base = F(r0)
    for k in (0.01, 0.3, 0.9, 0.999, 1.001, 1.2, 3.0, 50.0, 1e4):
        t.true("minimum at the reference", np.all(F(rmin + k * gap) >= base - 1e-9 * (1 + np.abs(base))), k=k)
    us = rmin[None, :] + gap[None, :] * np.array([1.1, 2.0, 5.0, 30.0])[:, None]
    slopes = np.array([(F(u + 0.01 * gap) - F(u)) / (0.01 * gap) for u in us])
    t.true("slope increases beyond the reference", np.all(np.diff(slopes, axis=0) > -1e-6 * al) and np.all(slopes > 0))
    far = rmin + 1e5 * gap
    t.close("requested slope far out", (F(far + 1e4 * gap) - F(far)) / (1e4 * gap), np.full(d, al), 1e-3)
    v = t.rng.normal(size=1)
    r = rmin + gap * (0.2 + 2 * t.rng.random(d))
    th = np.concatenate([v, -r])
    t.close("log prior is minus the sum", f(P.log_prior_logrho_barrier_linear(A(th), A(rmin), A(r0), alpha=al)), -F(r).sum())
    th2 = th.copy()
    j = int(t.rng.integers(d))
    th2[1 + j] = -(rmin[j] - 0.1)
    t.true("minus infinity outside", np.isneginf(f(P.log_prior_logrho_barrier_linear(A(th2), A(rmin), A(r0), alpha=al))))
    t.raises("slope checked", ValueError, lambda: P.neglog_f_logrho(A(r), A(rmin), A(r0), alpha=t.pick("bad", [0.0, -1.0])))
    r1 = r0.copy()
    r1[j] = rmin[j] - t.pick("under", [0.0, 1.0])
    t.raises("reference checked", ValueError, lambda: P.neglog_f_logrho(A(r), A(rmin), A(r1), alpha=al))


@check(60)
def power_law(t):
    d = t.size("d", 1, 4, 9)
    th = t.rng.normal(size=1 + d) * t.pick("scale", [1.0, 5.0, 12.0])
    kw = dict(lambda_var=float(2 * t.rng.random()), cut_logvariance_high=float(5 * t.rng.normal()), lambda_lengthscales=float(t.rng.random()),
              cut_loginvrho_low=-float(8 * t.rng.random()), cut_loginvrho_high=float(8 * t.rng.random()), penalty_factor=float(1 + 99 * t.rng.random()))
    t.put(theta=th, **kw)
    got = f(P.log_prior_power_law(A(th), **kw))
    t.close("value", got, power(th, *kw.values()))
    v = kw["cut_logvariance_high"] + np.sort(5 * t.rng.random(4))
    lp = [f(P.log_prior_power_law(A(np.concatenate([[u], th[1:]])), **kw)) for u in v]
    t.true("larger variances beyond the cutoff are not rewarded", all(a >= b - 1e-9 for a, b in zip(lp, lp[1:])), logvariances=v, values=lp)
    t.close("jeffreys", f(P.log_prior_jeffreys_variance(A(th), kw["lambda_var"])), -kw["lambda_var"] * th[0])
