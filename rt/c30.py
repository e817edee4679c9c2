"""Every common primitive against one reference, whichever backend is running."""
import math

import numpy as np
from scipy.special import gammaln, log_ndtr, ndtr
from scipy.stats import multivariate_normal as mvn

from .core import Skip, check, np_
from .gpx import A, gnp


def put(t, name, v):
    t.put(**{name: v})
    return v


def array(t, name, nd=None, lo=1, hi=4):
    nd = t.pick(name + " ndim", [1, 2, 3]) if nd is None else nd
    shape = tuple(t.size("%s size %d" % (name, k), lo, hi, hi) for k in range(nd))
    x = np.round(t.rng.standard_normal(shape) * t.pick(name + " scale", [1.0, 0.1, 30.0]), 3)
    return put(t, name, x)


def agree(t, what, got, want, rtol=1e-9, atol=1e-10):
    want = np.asarray(want)
    t.true(what + " shape", np_(got).shape == want.shape, got=list(np_(got).shape), want=list(want.shape))
    t.close(what, np_(got), want, rtol, atol)


@check(40)
def elementwise(t):
    x = array(t, "x")
    p = np.abs(x) + 0.01
    with np.errstate(all="ignore"):
        for name, v, f in (
            ("exp", x, np.exp), ("log", p, np.log), ("log10", p, np.log10), ("log1p", p, np.log1p), ("sqrt", p, np.sqrt), ("sin", x, np.sin),
            ("cos", x, np.cos), ("tan", x, np.tan), ("tanh", x, np.tanh), ("floor", x, np.floor), ("ceil", x, np.ceil), ("abs", x, np.abs), ("gammaln", p, gammaln),
        ):
            agree(t, name, getattr(gnp, name)(A(v)), f(v), 1e-8)
            if name not in ("floor", "ceil", "abs"):
                s = float(v.reshape(-1)[0])
                t.close(name + " of a number", np_(getattr(gnp, name)(s)).reshape(()), f(s), 1e-8, 1e-10)
    k = t.rng.integers(1, 9, 4)
    agree(t, "gammaln of integers", gnp.gammaln(gnp.asarray(k)), gammaln(k))
    y = put(t, "y", np.round(x + t.rng.standard_normal(x.shape), 3))
    agree(t, "maximum", gnp.maximum(A(x), A(y)), np.maximum(x, y))
    agree(t, "minimum", gnp.minimum(A(x), A(y)), np.minimum(x, y))
    agree(t, "maximum with a number", gnp.maximum(A(x), 0.3), np.maximum(x, 0.3))
    agree(t, "minimum with a number", gnp.minimum(0.3, A(x)), np.minimum(x, 0.3))
    lo, hi = t.pick("clip", [(-0.5, 0.5), (None, 0.2), (0.1, None)])
    agree(t, "clip", gnp.clip(A(x), lo, hi), np.clip(x, lo, hi))
    agree(t, "clip by arrays", gnp.clip(A(x), A(np.minimum(x, y) - 0.1), A(y)), np.minimum(np.maximum(x, np.minimum(x, y) - 0.1), y))
    agree(t, "where", gnp.where(A(x) > A(y), A(x), A(2 * y)), np.where(x > y, x, 2 * y))
    for name in ("logical_and", "logical_or"):
        agree(t, name, getattr(gnp, name)(A(x) > 0, A(y) > 0), getattr(np, name)(x > 0, y > 0))
    agree(t, "logical_not", gnp.logical_not(A(x) > 0), x <= 0)
    z = x + t.rng.choice([0.0, 1e-9, 1e-6, 1e-2], x.shape) * np.abs(x)
    agree(t, "isclose", gnp.isclose(A(x), A(z)), np.abs(x - z) <= 1e-8 + 1e-5 * np.abs(z))
    t.true("allclose", bool(gnp.allclose(A(x), A(z))) == bool(np.all(np.abs(x - z) <= 1e-8 + 1e-5 * np.abs(z))))
    t.true("array_equal", bool(gnp.array_equal(A(x), A(x.copy()))) and bool(gnp.array_equal(A(x), A(y))) == bool((x == y).all()))
    t.true("array_equal of other shapes", not bool(gnp.array_equal(A(x), A(np.concatenate([x, x])))))


@check(30)
def specials(t):
    x = array(t, "x", 1, 3, 6)
    v = x.copy()
    for i, s in enumerate((np.nan, np.inf, -np.inf)):
        v[t.rng.integers(len(v))] = s
    put(t, "with specials", v)
    agree(t, "isnan", gnp.isnan(A(v)), np.isnan(v))
    agree(t, "isinf", gnp.isinf(A(v)), np.isinf(v))
    agree(t, "isfinite", gnp.isfinite(A(v)), np.isfinite(v))
    big = float(np.finfo(float).max)
    agree(t, "nan_to_num", gnp.nan_to_num(A(v)), np.where(np.isnan(v), 0, np.where(v == np.inf, big, np.where(v == -np.inf, -big, v))))
    agree(t, "nan_to_num with values", gnp.nan_to_num(A(v), nan=1.5, posinf=2.5, neginf=-3.5), np.where(np.isnan(v), 1.5, np.where(v == np.inf, 2.5, np.where(v == -np.inf, -3.5, v))))
    w = np.where(np.isnan(v), 0.5, v)
    agree(t, "inftobigf", gnp.inftobigf(A(w)), np.where(np.isinf(w), big / 1000.0, w))
    agree(t, "inftobigf with a value", gnp.inftobigf(A(w), 7.0), np.where(np.isinf(w), 7.0, w))
    t.true("infinities", float(gnp.safe_inf()) == math.inf and float(gnp.safe_neginf()) == -math.inf)
    t.true("constants", gnp.inf == math.inf and gnp.pi == math.pi and math.isnan(gnp.nan) and gnp.eps == np.finfo(float).eps and gnp.fmax == big)


@check(60)
def reductions(t):
    x = array(t, "x", None, 1, 5)
    axis = t.pick("axis", [None] + list(range(-x.ndim, x.ndim)))
    keep = t.pick("keepdims", [False, True])
    kw = {} if axis is None else {"axis": axis}
    n = x.size if axis is None else x.shape[axis]
    for name in ("sum", "mean", "prod"):
        ref = getattr(np, name)
        if axis is not None and keep:
            agree(t, name, getattr(gnp, name)(A(x), keepdims=True, **kw), ref(x, keepdims=True, **kw))
        else:
            agree(t, name, getattr(gnp, name)(A(x), **kw), ref(x, **kw))
    for name in ("min", "max"):
        agree(t, name, getattr(gnp, name)(A(x), keepdims=keep, **kw), getattr(np, name)(x, keepdims=keep, **kw))
    for ddof in (0, 1):
        if n > ddof:
            m = x.mean(axis=axis, keepdims=True)
            v = ((x - m) ** 2).sum(axis=axis, keepdims=keep) / (n - ddof)
            agree(t, "var", gnp.var(A(x), ddof=ddof, keepdims=keep, **kw), v)
            agree(t, "std", gnp.std(A(x), ddof=ddof, keepdims=keep, **kw), np.sqrt(v))
    if n > 0:
        m = x.mean(axis=axis, keepdims=True)
        agree(t, "var by default", gnp.var(A(x), **kw), ((x - m) ** 2).sum(axis=axis) / n)
        agree(t, "std by default", gnp.std(A(x), **kw), np.sqrt(((x - m) ** 2).sum(axis=axis) / n))
    for name in ("any", "all"):
        agree(t, name, getattr(gnp, name)(A(x) > 0.2, **kw), getattr(np, name)(x > 0.2, **kw))
    if len(np.unique(x)) == x.size:
        for name in ("argmin", "argmax"):
            agree(t, name, getattr(gnp, name)(A(x), **kw), getattr(np, name)(x, **kw))
    q = t.pick("q", [0.0, 12.5, 50.0, 90.0, 100.0])
    agree(t, "percentile", gnp.percentile(A(x), q, keepdims=keep, **kw), np.percentile(x, q, keepdims=keep, **kw))
    qs = np.array([5.0, 50.0, 77.0])
    agree(t, "percentiles", gnp.percentile(A(x), A(qs), **kw), np.percentile(x, qs, **kw))
    if axis is not None:
        agree(t, "cumsum", gnp.cumsum(A(x), axis=axis), np.cumsum(x, axis=axis))
        agree(t, "diff", gnp.diff(A(x), axis=axis), np.diff(x, axis=axis))
        agree(t, "sort", gnp.sort(A(x), axis=axis), np.sort(x, axis=axis))
        agree(t, "norm", gnp.norm(A(x), axis=axis), np.sqrt((x**2).sum(axis=axis)))
        agree(t, "1-norm", gnp.norm(A(x), axis=axis, ord=1), np.abs(x).sum(axis=axis))
        agree(t, "largest entry", gnp.norm(A(x), axis=axis, ord=np.inf), np.abs(x).max(axis=axis))
    else:
        agree(t, "sort", gnp.sort(A(x)), np.sort(x))
        agree(t, "diff", gnp.diff(A(x)), np.diff(x))
        if x.ndim <= 2:
            agree(t, "norm", gnp.norm(A(x)), math.sqrt((x**2).sum()))
            s = math.sqrt((x**2).sum()) if x.ndim == 1 else np.linalg.svd(x, compute_uv=False)[0]
            agree(t, "2-norm", gnp.norm(A(x), ord=2), s, 1e-8)
    r = np.round(x)
    agree(t, "unique", gnp.unique(A(r)), np.unique(r))
    if x.ndim == 2:
        agree(t, "unique rows", gnp.unique(A(r), axis=0), np.unique(r, axis=0))


@check(60)
def statistics(t):
    n, d = t.size("observations", 2, 7), t.size("variables", 1, 4)
    x = put(t, "x", np.round(t.rng.standard_normal((d, n)), 3))
    rowvar = t.pick("rowvar", [True, False])
    bias, ddof = t.pick("bias", [False, True]), t.pick("ddof", [None, 0, 1])
    k = (0 if bias else 1) if ddof is None else ddof
    form = t.pick("form", ["one vector", "matrix", "two vectors", "two matrices"])
    y = None
    if form == "one vector":
        m, rows = x[0], x[:1]
    elif form == "matrix":
        m, rows = (x if rowvar else x.T), x
    else:
        z = put(t, "y", np.round(t.rng.standard_normal((d, n)), 3))
        if form == "two vectors":
            m, y, rows = x[0], z[0], np.array([x[0], z[0]])
        else:
            m, y, rows = (x if rowvar else x.T), (z if rowvar else z.T), np.concatenate([x, z])
    c = rows - rows.mean(1, keepdims=True)
    want = c @ c.T / (n - k)
    got = np_(gnp.cov(A(m), None if y is None else A(y), rowvar=rowvar, bias=bias, ddof=ddof))
    t.true("cov size", got.size == want.size, got=list(got.shape))
    t.close("cov", got.reshape(want.shape), want, 1e-9, 1e-10)
    w = put(t, "frequencies", t.rng.integers(1, 4, n))
    r = np.repeat(rows, w, axis=1)
    c = r - r.mean(1, keepdims=True)
    if r.shape[1] > k and form == "matrix":
        got = np_(gnp.cov(A(m), rowvar=rowvar, bias=bias, ddof=ddof, fweights=gnp.asarray(w)))
        t.close("cov with frequencies", got.reshape(want.shape), c @ c.T / (r.shape[1] - k), 1e-9, 1e-10)


def spd(t, n):
    Q, _ = np.linalg.qr(t.rng.standard_normal((n, n)))
    return put(t, "K", (Q * t.rng.uniform(0.3, 4.0, n)) @ Q.T)


@check(60)
def linear_algebra(t):
    n, m = t.size("n", 1, 5, 8), t.size("m", 1, 4)
    K = spd(t, n)
    K = (K + K.T) / 2
    B = put(t, "B", np.round(t.rng.standard_normal((n, m)), 3))
    X = np.linalg.solve(K, B)
    G = K + np.round(t.rng.standard_normal((n, n)), 3) * 0.3
    if np.linalg.cond(G) > 1e3:
        raise Skip()
    agree(t, "solve", gnp.solve(A(G), A(B)), np.linalg.solve(G, B), 1e-8, 1e-9)
    agree(t, "solve, one right-hand side", gnp.solve(A(G), A(B[:, 0])), np.linalg.solve(G, B[:, 0]), 1e-8, 1e-9)
    agree(t, "symmetric solve", gnp.solve(A(K), A(B), assume_a="pos"), X, 1e-8, 1e-9)
    S, L = gnp.cholesky_solve(A(K), A(B))
    agree(t, "cholesky_solve", S, X, 1e-8, 1e-9)
    agree(t, "factor of cholesky_solve", L, np.linalg.cholesky(K), 1e-8, 1e-9)
    t.close("cholesky_solve, one right-hand side", np_(gnp.cholesky_solve(A(K), A(B[:, 0]))[0]).reshape(-1), X[:, 0], 1e-8, 1e-9)
    agree(t, "cholesky", gnp.cholesky(A(K)), np.linalg.cholesky(K), 1e-8, 1e-9)
    agree(t, "cholesky_inv", gnp.cholesky_inv(A(K)), np.linalg.inv(K), 1e-8, 1e-9)
    agree(t, "inv", gnp.inv(A(G)), np.linalg.inv(G), 1e-8, 1e-9)
    agree(t, "logdet", gnp.logdet(A(K)), 2 * np.log(np.diag(np.linalg.cholesky(K))).sum(), 1e-8, 1e-9)
    agree(t, "cond", gnp.cond(A(G)), np.linalg.cond(G), 1e-7)
    agree(t, "trace", gnp.trace(A(G)), np.diag(G).sum())
    for lower in (False, True):
        c, low = gnp.cho_factor(A(K), lower=lower)
        t.true("cho_factor side", bool(low) == lower)
        agree(t, "cho_solve", gnp.cho_solve((c, low), A(B)), X, 1e-8, 1e-9)
        F = np.tril(np_(c)) if lower else np.triu(np_(c))
        t.close("cho_factor", F @ F.T if lower else F.T @ F, K, 1e-8, 1e-9)
        T_ = np.linalg.cholesky(K) if lower else np.linalg.cholesky(K).T
        for trans, unit in ((0, False), (1, False), ("T", False), ("N", True), (1, True), (2, False), ("C", True)):
            U = T_ - np.diag(np.diag(T_)) + np.eye(n) if unit else T_
            want = np.linalg.solve(U.T if trans in (1, 2, "T", "C") else U, B)
            got = gnp.solve_triangular(A(T_), A(B), trans=trans, lower=lower, unit_diagonal=unit)
            agree(t, "solve_triangular trans=%s lower=%s unit=%s" % (trans, lower, unit), got, want, 1e-7, 1e-7 * (1 + np.abs(want).max()))
    R = put(t, "R", np.round(t.rng.standard_normal((n, m)), 3))
    q, r = (np_(v) for v in gnp.qr(A(R)))
    k = min(n, m)
    t.shape("qr", q, (n, k))
    t.shape("qr", r, (k, m))
    t.close("qr", q @ r, R, 1e-8, 1e-9)
    t.close("qr orthogonality", q.T @ q, np.eye(k), 1e-8, 1e-9)
    t.close("qr triangle", np.tril(r, -1), np.zeros_like(r), 1e-8, 1e-9)
    for full in (True, False):
        u, s, vh = (np_(v) for v in gnp.svd(A(R), full))
        t.close("svd", (u[:, :k] * s) @ vh[:k], R, 1e-8, 1e-8)
        t.close("singular values", s, np.linalg.svd(R, compute_uv=False), 1e-7, 1e-8)
        t.shape("svd", u, (n, n if full else k))
    agree(t, "matmul", gnp.matmul(A(G), A(B)), G @ B)
    agree(t, "inner", gnp.inner(A(G), A(K)), G @ K.T)
    agree(t, "einsum", gnp.einsum("ij,ik->kj", A(G), A(B)), B.T @ G)
    agree(t, "diag", gnp.diag(A(G)), np.array([G[i, i] for i in range(n)]))
    agree(t, "diag of a vector", gnp.diag(A(B[:, 0])), np.eye(n) * B[:, 0])


@check(60)
def distances(t):
    n, m, d = t.size("n", 1, 6), t.size("m", 1, 6), t.size("d", 1, 4)
    x, y = (put(t, k, np.round(t.rng.standard_normal((s, d)), 3)) for k, s in (("x", n), ("y", m)))
    if t.pick("shared points", [False, True]):
        y[0] = x[-1]
    r = put(t, "log inverse ranges", np.round(t.rng.standard_normal(d), 3))
    D = lambda a, b, s=1.0: np.sqrt(((s * (a[:, None] - b[None])) ** 2).sum(2))
    e = np.exp(r)
    tol = 3e-7 * (1 + np.abs(x).max() + np.abs(y).max())
    te = tol * e.max() + tol
    X = A(x)
    agree(t, "cdist", gnp.cdist(X, A(y)), D(x, y), 1e-7, tol)
    agree(t, "cdist with itself", gnp.cdist(X, X), D(x, x), 1e-7, tol)
    agree(t, "scaled_distance", gnp.scaled_distance(A(r), X, A(y)), D(x, y, e), 1e-7, te)
    agree(t, "scaled_distance with itself", gnp.scaled_distance(A(r), X, X), D(x, x, e), 1e-7, te)
    z = put(t, "z", np.round(t.rng.standard_normal((n, d)), 3))
    agree(t, "scaled_distance_elementwise", gnp.scaled_distance_elementwise(A(r), X, A(z)), np.sqrt(((e * (x - z)) ** 2).sum(1)), 1e-8, 1e-9)
    agree(t, "scaled_distance_elementwise with itself", gnp.scaled_distance_elementwise(A(r), X, X), np.zeros(n))
    agree(t, "scaled_distance_elementwise without second points", gnp.scaled_distance_elementwise(A(r), X, None), np.zeros(n))


@check(60)
def densities(t):
    x = array(t, "x", t.pick("ndim", [1, 2]))
    loc = put(t, "loc", round(t.rng.standard_normal(), 3))
    s = put(t, "scale", round(float(np.exp(t.rng.standard_normal())), 3))
    if t.pick("array parameters", [False, True]):
        loc, s = loc + np.round(t.rng.standard_normal(x.shape), 3), s * np.round(np.exp(t.rng.standard_normal(x.shape)), 3)
    a = lambda v: A(v) if isinstance(v, np.ndarray) else v
    u = (x - loc) / s
    pdf = np.exp(-u * u / 2) / (s * math.sqrt(2 * math.pi))
    N = gnp.normal
    agree(t, "normal.pdf", N.pdf(A(x), a(loc), a(s)), pdf, 1e-8, 1e-300)
    agree(t, "normal.logpdf", N.logpdf(A(x), a(loc), a(s)), -u * u / 2 - np.log(s) - 0.5 * math.log(2 * math.pi), 1e-8)
    agree(t, "normal.cdf", N.cdf(A(x), a(loc), a(s)), ndtr(u), 1e-8, 1e-14)
    agree(t, "normal.logcdf", N.logcdf(A(x), a(loc), a(s)), log_ndtr(u), 1e-6, 1e-12)
    agree(t, "normal.pdf by keyword", N.pdf(A(x), scale=2.5), np.exp(-((x / 2.5) ** 2) / 2) / (2.5 * math.sqrt(2 * math.pi)), 1e-8, 1e-300)
    agree(t, "standard normal", N.cdf(A(x)), ndtr(x), 1e-8, 1e-14)
    agree(t, "standard normal.pdf", N.pdf(A(x)), np.exp(-x * x / 2) / math.sqrt(2 * math.pi), 1e-8, 1e-300)
    agree(t, "standard normal.logpdf", N.logpdf(A(x)), -x * x / 2 - 0.5 * math.log(2 * math.pi), 1e-8)
    agree(t, "standard normal.logcdf", N.logcdf(A(x)), log_ndtr(x), 1e-6, 1e-12)
    v, m0 = round(float(np.exp(t.rng.standard_normal())), 3), round(t.rng.standard_normal(), 3)
    w = -((x - m0) ** 2) / (2 * v) - 0.5 * math.log(2 * math.pi * v)
    cov = v if t.pick("variance", ["number", "matrix"]) == "number" else A([[v]])
    M = gnp.multivariate_normal
    y = x.reshape(-1)
    t.close("scalar logpdf", np_(M.logpdf(A(y), m0, cov)).reshape(-1), w.reshape(-1), 1e-8, 1e-9)
    t.close("scalar logpdf of a column", np_(M.logpdf(A(y.reshape(-1, 1)), m0, cov)).reshape(-1), w.reshape(-1), 1e-8, 1e-9)
    t.close("scalar cdf", np_(M.cdf(A(y), m0, cov)).reshape(-1), ndtr((y - m0) / math.sqrt(v)), 1e-8, 1e-12)


@check(30)
def joint_densities(t):
    d, n = t.size("d", 2, 4), t.size("n", 1, 4)
    K = spd(t, d)
    K = (K + K.T) / 2
    mean = put(t, "mean", np.round(t.rng.standard_normal(d), 3) if t.pick("vector mean", [True, False]) else np.float64(0.4))
    x = put(t, "x", np.round(t.rng.standard_normal((n, d)), 3))
    c = x - mean
    want = -0.5 * (c * np.linalg.solve(K, c.T).T).sum(1) - 0.5 * np.linalg.slogdet(K)[1] - 0.5 * d * math.log(2 * math.pi)
    mu = A(mean) if mean.ndim else float(mean)
    M = gnp.multivariate_normal
    t.close("logpdf", np_(M.logpdf(A(x), mu, A(K))).reshape(-1), want, 1e-7, 1e-8)
    t.close("logpdf of one point", np_(M.logpdf(A(x[0]), mu, A(K))).reshape(-1), want[:1], 1e-7, 1e-8)
    ref = mvn.cdf(x, mean=np.zeros(d) + mean, cov=K)
    t.close("cdf", np_(M.cdf(A(x[0]), mu, A(K))).reshape(()), np.reshape(ref, -1)[0], 1e-3, 1e-4)
    if d <= 3:
        t.close("cdf of several points", np_(M.cdf(A(x), mu, A(K))).reshape(-1), np.reshape(ref, -1), 1e-3, 1e-4)
    want = -0.5 * (x * np.linalg.solve(K, x.T).T).sum(1) - 0.5 * np.linalg.slogdet(K)[1] - 0.5 * d * math.log(2 * math.pi)
    t.close("logpdf without a mean", np_(M.logpdf(A(x), cov=A(K))).reshape(-1), want, 1e-7, 1e-8)
    t.close("cdf without a mean", np_(M.cdf(A(x[0]), cov=A(K))).reshape(()), mvn.cdf(x[0], mean=np.zeros(d), cov=K), 1e-3, 1e-4)
    t.close("standard logpdf", np_(M.logpdf(A(x[0]))).reshape(-1), -0.5 * x[0] ** 2 - 0.5 * math.log(2 * math.pi), 1e-8, 1e-9)
    t.close("standard cdf", np_(M.cdf(A(x[0]))).reshape(-1), ndtr(x[0]), 1e-8, 1e-12)


@check(60)
def shapes(t):
    x = array(t, "x", None, 1, 4)
    axis = t.pick("axis", list(range(-x.ndim, x.ndim)))
    X = A(x)
    y = put(t, "y", np.round(t.rng.standard_normal(x.shape), 3))
    agree(t, "reshape", gnp.reshape(X, (-1,)), x.reshape(-1))
    agree(t, "concatenate", gnp.concatenate((X, A(y)), axis=axis), np.concatenate((x, y), axis=axis))
    agree(t, "stack", gnp.stack((X, A(y)), axis=axis), np.stack((x, y), axis=axis))
    agree(t, "hstack", gnp.hstack((X, A(y))), np.hstack((x, y)))
    agree(t, "vstack", gnp.vstack((X, A(y))), np.vstack((x, y)))
    agree(t, "tile", gnp.tile(X, (2,) + (1,) * (x.ndim - 1)), np.concatenate((x, x), axis=0))
    agree(t, "expand_dims", gnp.expand_dims(X, axis), np.expand_dims(x, axis))
    if x.ndim >= 2:
        i, j = t.pick("swap", [(0, 1), (1, 0), (0, -1), (-2, -1)])
        agree(t, "transpose", gnp.transpose(X, i, j), np.swapaxes(x, i, j))
    L = t.size("length", 2, 12)
    z = t.rng.standard_normal((L,) + x.shape[1:])
    k = t.size("cuts", 1, min(3, L - 1))
    cuts = put(t, "bounds", sorted(int(v) for v in t.rng.choice(np.arange(1, L), k, replace=False)))
    if sum(cuts) != L:
        parts = gnp.split(A(z), cuts)
        edges = [0] + cuts + [L]
        t.true("split count", len(parts) == k + 1)
        for p, a, b in zip(parts, edges, edges[1:]):
            agree(t, "split", p, z[a:b])
        w = np.swapaxes(z[..., None], 0, -1)
        for p, a, b in zip(gnp.split(A(w), cuts, w.ndim - 1), edges, edges[1:]):
            agree(t, "split along the last axis", p, w[..., a:b])
    a, b = put(t, "a", np.round(t.rng.standard_normal(t.size("na", 1, 4)), 3)), put(t, "b", np.round(t.rng.standard_normal(t.size("nb", 1, 4)), 3))
    one = np.ones((len(b), len(a)))
    for g, w in zip(gnp.meshgrid(A(a), A(b)), (one * a, one * b[:, None])):
        agree(t, "meshgrid", g, w)
    for g, w in zip(gnp.meshgrid(A(a), A(b), indexing="ij"), ((one * a).T, (one * b[:, None]).T)):
        agree(t, "meshgrid by rows", g, w)
    n, m = t.size("n", 1, 6), t.size("m", 1, 6)
    agree(t, "linspace", gnp.linspace(-1.0, 2.0, n), np.linspace(-1.0, 2.0, n))
    agree(t, "logspace", gnp.logspace(-1.0, 2.0, n), 10 ** np.linspace(-1.0, 2.0, n))
    agree(t, "arange", gnp.arange(n), np.arange(n))
    agree(t, "arange with a step", gnp.arange(1, 9, n), np.arange(1, 9, n))
    agree(t, "eye", gnp.eye(n), np.eye(n))
    agree(t, "rectangular eye", gnp.eye(n, m), (np.arange(n)[:, None] == np.arange(m)) * 1.0)
    agree(t, "zeros", gnp.zeros((n, m)), np.zeros((n, m)))
    agree(t, "ones", gnp.ones((n, m)), np.ones((n, m)))
    agree(t, "full", gnp.full((n, m), 2.5), np.zeros((n, m)) + 2.5)
    t.shape("empty", np_(gnp.empty((n, m))), (n, m))
    agree(t, "zeros_like", gnp.zeros_like(X), 0 * x)
    agree(t, "ones_like", gnp.ones_like(X), 0 * x + 1)
    agree(t, "full_like", gnp.full_like(X, 1.5), 0 * x + 1.5)
    t.shape("empty_like", np_(gnp.empty_like(X)), x.shape)


@check(40)
def conversions(t):
    x = array(t, "x", t.pick("ndim", [1, 2]))
    for v in (x, x.tolist(), x.astype(np.float32), A(x)):
        g = gnp.asarray(v)
        t.true("asarray gives an array", bool(gnp.isarray(g)))
        t.true("double precision", np_(g).dtype == np.float64, got=str(np_(g).dtype))
        agree(t, "asarray", g, np.asarray(v, dtype=np.float64) if not hasattr(v, "detach") else x)
        t.true("array in double precision", np_(gnp.array(v)).dtype == np.float64)
        agree(t, "array", gnp.array(v), np.asarray(v, dtype=np.float64) if not hasattr(v, "detach") else x)
    k = put(t, "k", t.rng.integers(-5, 6, 4))
    agree(t, "asarray of integers", gnp.asarray(k), k)
    t.true("integers stay integers", np_(gnp.asarray(k)).dtype.kind == "i")
    agree(t, "asdouble", gnp.asdouble(gnp.asarray(k)), k)
    t.true("asdouble precision", np_(gnp.asdouble(gnp.asarray(k))).dtype == np.float64)
    big = x * t.pick("magnitude", [1.0, 1e3, 1e9])
    agree(t, "asint", gnp.asint(A(big)), np.trunc(big).astype(np.int64))
    t.true("asint kind", np_(gnp.asint(A(big))).dtype.kind == "i")
    for dt, f in ((float, np.float64), (int, np.int64), (bool, np.bool_)):
        g = gnp.asarray(k, dtype=dt)
        agree(t, "asarray to %s" % dt.__name__, g, k.astype(f))
        t.true("kind asked for", np_(g).dtype == np.dtype(f), got=str(np_(g).dtype))
    s = float(x.reshape(-1)[0])
    t.close("asarray of a number", np_(gnp.asarray(s)).reshape(-1), np.array([s]), 0, 0)
    t.true("asarray of a number is double", np_(gnp.asarray(s)).dtype == np.float64)
    for v in (s, 3, True, gnp.asarray(s), A([[s]]), np.float64(s)):
        r = gnp.to_scalar(v)
        t.true("to_scalar", isinstance(r, (int, float, bool)) and float(r) == float(np_(v).reshape(())))
    t.true("to_np", isinstance(gnp.to_np(A(x)), np.ndarray) and bool((gnp.to_np(A(x)) == x).all()))
    c = A(x.copy())
    d = gnp.copy(c)
    d[0] = 99.0
    agree(t, "copy leaves the original alone", c, x)
    t.true("isarray", bool(gnp.isarray(c)) and not gnp.isarray(1.0) and not gnp.isarray([1.0]))
    t.true("isscalar", bool(gnp.isscalar(1.5)) and bool(gnp.isscalar(2)) and not gnp.isscalar([1.0]) and not gnp.isscalar(A([1.0, 2.0])))
    h = 0.01
    f = lambda u: A(x) * u**3 + A(x) ** 2 * u
    t.close("derivative_finite_diff", np_(gnp.derivative_finite_diff(f, 0.7, h)), 3 * x * 0.49 + x**2, 1e-7, 1e-7 * (1 + np.abs(x).max() ** 2))
    for p in (2, 1, 4, 3, 0):
        want = gammaln(np.arange(2 * p + 2))
        agree(t, "compute_gammaln", gnp.compute_gammaln(p), want)


@check(40)
def asked_types(t):
    """Arrays of an asked type, from every kind of argument."""
    x = array(t, "x", t.pick("ndim", [1, 2]))
    k = t.rng.integers(-5, 6, 4)
    for dt, f in ((float, np.float64), (int, np.int64), (bool, np.bool_)):
        for v, w in ((x, x), (A(x), x), (x.tolist(), x), (gnp.asarray(k), k), (k.tolist(), k), (x > 0, x > 0), (gnp.asarray(x > 0), x > 0)):
            for name in ("asarray", "array"):
                g = getattr(gnp, name)(v, dtype=dt)
                agree(t, "%s to %s" % (name, dt.__name__), g, np.asarray(w).astype(f))
                t.true("kind asked for", np_(g).dtype == np.dtype(f), got=str(np_(g).dtype), of=name)
        for v in (2.7, -3, True):
            g = gnp.asarray(v, dtype=dt)
            t.close("number to %s" % dt.__name__, np_(g).reshape(-1), np.array([v]).astype(f), 0, 0)
            t.true("kind asked for", np_(g).dtype == np.dtype(f), got=str(np_(g).dtype), of=repr(v))
        n, m = t.size("n", 1, 5), t.size("m", 1, 5)
        made = [("zeros", gnp.zeros((n, m), dtype=dt), np.zeros((n, m))), ("ones", gnp.ones((n,), dtype=dt), np.ones(n)),
                ("full", gnp.full((n, m), 3.7, dtype=dt), np.full((n, m), 3.7)), ("eye", gnp.eye(n, dtype=dt), np.eye(n))]
        if dt is not bool:
            made.append(("linspace", gnp.linspace(0.0, float(n), n + 1, dtype=dt), np.linspace(0.0, float(n), n + 1)))
        for name, g, w in made:
            agree(t, "%s of %s" % (name, dt.__name__), g, w.astype(f))
            t.true("kind asked for", np_(g).dtype == np.dtype(f), got=str(np_(g).dtype), of=name)
    for name, g in (("zeros", gnp.zeros((2,))), ("ones", gnp.ones((2,))), ("full", gnp.full((2,), 0.5)), ("eye", gnp.eye(2)), ("linspace", gnp.linspace(0.0, 1.0, 3))):
        t.true("double precision unless asked", np_(g).dtype == np.float64, got=str(np_(g).dtype), of=name)
    lo, hi = np.minimum(x, 0.3) - 0.2, np.maximum(x, 0.3) - 0.1
    for a, b in ((A(lo), A(hi)), (lo, hi), (A(lo), 50.0), (-50.0, A(hi)), (None, A(hi)), (A(lo), None), (-1, 1), (lo, A(hi))):
        w = np.maximum(x, np_(a)) if a is not None else x
        w = np.minimum(w, np_(b)) if b is not None else w
        agree(t, "clip", gnp.clip(A(x), a, b), w)
    agree(t, "clip of a list", gnp.clip(x.tolist(), -1.0, 0.5), np.clip(x, -1.0, 0.5))
    agree(t, "clip of integers", gnp.clip(gnp.asarray(k), -2, 3), np.clip(k, -2, 3))


@check(20)
def draws(t):
    n, k = t.size("n", 2, 8), t.size("k", 1, 5)
    gnp.set_seed(t.pick("seed", [0, 3, 17]))
    u = np_(gnp.rand(n, k))
    t.shape("rand", u, (n, k))
    t.true("rand in the unit interval", bool(((u >= 0) & (u < 1)).all()))
    t.shape("randn", np_(gnp.randn(n, k)), (n, k))
    p = np_(gnp.permutation(n))
    t.true("permutation", sorted(p.tolist()) == list(range(n)), got=p.tolist())
    x = np.round(t.rng.standard_normal((n, 2)), 3)
    t.true("permuted rows", sorted(map(tuple, np_(gnp.permutation(A(x))).tolist())) == sorted(map(tuple, x.tolist())))
    c = np_(gnp.choice(n, size=k))
    t.true("choice", c.shape == (k,) and bool(((c >= 0) & (c < n)).all()), got=c.tolist())
    c = np_(gnp.choice(n, size=min(n, k), replace=False))
    t.true("choice without replacement", len(set(c.tolist())) == min(n, k) and bool(((c >= 0) & (c < n)).all()), got=c.tolist())
    w = np.zeros(n)
    w[t.size("only", 0, n - 1)] = 1.0
    c = np_(gnp.choice(n, size=k, p=w))
    t.true("choice with probabilities", bool((w[c.astype(int)] == 1.0).all()), got=c.tolist())
    gnp.set_seed(5)
    a = np_(gnp.rand(n))
    gnp.set_seed(5)
    t.true("seeded draws repeat", bool((np_(gnp.rand(n)) == a).all()))
