"""Inputs and reference formulas in plain numpy."""
import numpy as np

import gpmp as gp
import gpmp.num as gnp

from .core import np_


def dist(x, y):
    return np.sqrt(((x[:, None, :] - y[None, :, :]) ** 2).sum(-1))


def kmat(x, y, th):
    """Reference covariance: nonstationary amplitude times Matern 3/2, th = (log s2, -log rho...)."""
    x, y, th = np_(x).astype(float), np_(y).astype(float), np_(th).astype(float)
    h = np.sqrt(3.0) * dist(x * np.exp(th[1:]), y * np.exp(th[1:]))
    a = lambda u: 1.0 + 0.3 * np.sin(3 * u.sum(1))
    return np.exp(th[0]) * a(x)[:, None] * a(y)[None, :] * (1 + h) * np.exp(-h)


def kernel(x, y, th, pairwise=False):
    if y is None:
        y = x
    K = kmat(x, y, th)
    return gnp.asarray(np.ascontiguousarray(np.diag(K)) if pairwise else K)


def basis(x, q):
    x = np_(x).astype(float)
    cols = [np.ones(len(x))] + [x[:, j % x.shape[1]] ** (1 + j // x.shape[1]) for j in range(q - 1)]
    return np.stack(cols[:q], 1)


def linear_mean(q):
    return lambda x, param: gnp.asarray(basis(x, q))


def pmean_np(x, p):
    x, p = np_(x).astype(float), np_(p).astype(float)
    return p[0] + p[1] * x[:, 0] + np.sin(x.sum(1))


def pmean(x, p):
    return gnp.asarray(pmean_np(x, p).reshape(-1, 1))


def pts(t, n, d, name="x"):
    x = t.rng.random((n, d))
    t.put(**{name: x})
    return x


def theta(t, d):
    level = t.pick("log variance", [0.0, 0.0, 0.0, 14.0, -22.0])
    th = np.concatenate([[t.rng.normal() + level], 1.0 + 0.7 * t.rng.normal(size=d)])
    t.put(theta=th)
    return th


def well(t, x, th, lim=1e7):
    from .core import Skip

    K = kmat(x, x, th)
    if np.linalg.cond(K) > lim:
        raise Skip()
    return K


def A(x):
    """Backend array."""
    return gnp.asarray(np.asarray(x, dtype=float))


def uk(K, Kt, P, Pt):
    """Universal kriging weights and multipliers from the augmented system."""
    n, q = P.shape
    L = np.block([[K, P], [P.T, np.zeros((q, q))]])
    s = np.linalg.solve(L, np.vstack([Kt, Pt.T]))
    return s[:n], s[n:]
