"""One contract per numerical primitive, discharged on both backends (C30)."""
from fractions import Fraction

from .. import gp, run
from ..arr import SArr, ext_over, toR, unI
from ..core import ctx, rexp, rinv, rite, rlog, rmax, rmin, rsqrt, rsum
from ..fakes import PI, Phi
from ..gp import fn
from ..terms import I, R, ieq, ile, ilt, rlt0, toI

FUNCTIONS = ["num.*." + f for f in (
    "sum", "mean", "std", "var", "min", "max", "diff", "norm", "cov", "maximum", "minimum", "clip", "where", "inftobigf",
    "solve", "solve_triangular", "cho_factor", "cho_solve", "cholesky_solve", "cholesky_inv", "cholesky", "inv", "logdet",
    "trace", "matmul", "einsum", "diag", "inner", "cdist", "custom_sqrt", "scaled_distance", "scaled_distance_elementwise",
    "normal.pdf", "normal.logpdf", "normal.cdf", "normal.logcdf", "multivariate_normal.logpdf", "multivariate_normal.cdf", "multivariate_normal._mean_*",
    "split", "_sizes_from_bounds", "transpose", "expand_dims", "meshgrid", "reshape", "concatenate", "stack", "hstack", "vstack", "tile",
    "asarray", "array", "asdouble", "to_np", "to_scalar", "isarray", "copy", "linspace", "arange", "eye", "zeros", "ones", "full",
    "scalar_safe", "axis_to_dim",
)] + ["num.shared.derivative_finite_diff"]


def num():
    import gpmp.num as gnp

    return gnp


def at(x, *ix):
    return toR(x.elem(tuple(ix)))


def total(x, axis):
    """Sum of an array over one axis, or over all."""
    g = lambda *ix: at(x, *ix)
    nd = len(x.shp)
    if axis is None:
        f = lambda *ix: g(*ix)
        if nd == 1:
            return rsum(x.shp[0], f)
        return rsum(x.shp[0], lambda i: rsum(x.shp[1], lambda j: f(i, j)))
    ax = axis % nd
    return lambda *ix: rsum(x.shp[ax], lambda k: g(*ix[:ax], k, *ix[ax:]))


def laid(x, axis, keep, f):
    """f over the remaining indices, laid out as a reduction of x along axis."""
    nd = len(x.shp)
    if axis is None:
        return fn(tuple(1 for _ in range(nd)) if keep else (), lambda *ix: f())
    ax = axis % nd
    rest = [s for d, s in enumerate(x.shp) if d != ax]
    if keep:
        return fn(tuple(I((), 1) if d == ax else s for d, s in enumerate(x.shp)), lambda *ix: f(*[i for d, i in enumerate(ix) if d != ax]))
    return fn(tuple(rest), lambda *ix: f(*ix))


def matrix(name="x", lo=1):
    n, m = run.integer("n", lo), run.integer("m", lo)
    return gp.mk(name, (n, m)), n, m


def arg(axis, keep=False):
    kw = {} if axis is None else {"axis": axis}
    if keep:
        kw["keepdims"] = True
    return kw


def reduction(nd, axis, keep):
    def task():
        gnp = num()
        n = run.integer("n", 2)
        x = gp.vector("x", n) if nd == 1 else gp.mk("x", (n, run.integer("m", 2)))
        cnt = toI(n) if nd == 1 else x.shp[axis % 2] if axis is not None else None
        inv = rinv(R.ofI(cnt)) if cnt is not None else rinv(R.ofI(x.shp[0]) * R.ofI(x.shp[1]))
        tot = total(x, axis)
        S = (lambda *ix: tot) if axis is None else tot
        if axis is not None or not keep:
            run.eq("sum", gnp.sum(x, **arg(axis, keep)), laid(x, axis, keep, S))
            run.eq("mean", gnp.mean(x, **arg(axis, keep)), laid(x, axis, keep, lambda *ix: S(*ix) * inv))
        sq = total(x * x, axis)
        Q = (lambda *ix: sq) if axis is None else sq
        size = R.ofI(cnt) if cnt is not None else R.ofI(x.shp[0]) * R.ofI(x.shp[1])
        for ddof in (0, 1):
            v = lambda *ix: (Q(*ix) - S(*ix) * S(*ix) * inv) * rinv(size - R.num(ddof))
            for kw in ({"ddof": ddof},) + (({},) if ddof == 0 else ()):
                run.eq("var", gnp.var(x, **arg(axis, keep), **kw), laid(x, axis, keep, v))
            s = gnp.std(x, ddof=ddof, **arg(axis, keep))
            run.eq("std", s * s, laid(x, axis, keep, v))
        for op in ("min", "max"):
            if axis is None and nd == 2:
                w = lambda: ext_over(op, x.shp[0], lambda i: ext_over(op, x.shp[1], lambda j: at(x, i, j)))
            else:
                ax = 0 if axis is None else axis % nd
                w = lambda *ix: ext_over(op, x.shp[ax], lambda k: at(x, *ix[:ax], k, *ix[ax:]))
            run.eq(op, getattr(gnp, op)(x, **arg(axis, keep)), laid(x, axis, keep, w))

    task.__name__ = "reduction_%dd_%s%s" % (nd, axis, "_kept" if keep else "")
    return task


def differences():
    gnp = num()
    x, n, m = matrix(lo=2)
    for axis, kw in ((1, {}), (1, {"axis": 1}), (0, {"axis": 0}), (0, {"axis": -2})):
        want = fn((n, m - 1), lambda i, j: at(x, i, j.add(I((), 1))) - at(x, i, j)) if axis else fn((n - 1, m), lambda i, j: at(x, i.add(I((), 1)), j) - at(x, i, j))
        run.eq("diff", gnp.diff(x, **kw), want)


def norms():
    gnp = num()
    x, n, m = matrix()
    v = gp.vector("v", n)
    for kw in ({}, {"ord": 2}):
        r = gnp.norm(v, **kw)
        run.eq("vector-norm", r * r, fn((), lambda: rsum(toI(n), lambda i: at(v, i) * at(v, i))))
        for ax in (0, 1, -1):
            r = gnp.norm(x, axis=ax, **kw)
            run.eq("norm-along-axis", r * r, laid(x, ax, False, total(x * x, ax)))
    r = gnp.norm(x)
    run.eq("frobenius", r * r, fn((), lambda: total(x * x, None)))


def covariances(form, rowvar):
    def task():
        gnp = num()
        n, d = run.integer("n", 3), run.integer("d", 2)
        x, y = gp.mk("x", (d, n)), gp.mk("y", (d, n))
        u, w = gp.vector("u", n), gp.vector("w", n)
        m, o, rows, g = {
            "vector": (u, None, 1, lambda a, i: at(u, i)),
            "matrix": (x if rowvar else x.T, None, d, lambda a, i: at(x, a, i)),
            "vectors": (u, w, 2, lambda a, i: at(u if a.const == 0 else w, i)),
            "matrices": (x if rowvar else x.T, y if rowvar else y.T, None, None),
        }[form]
        N = R.ofI(toI(n))
        for kw, k in (({}, 1), ({"bias": True}, 0), ({"ddof": 0}, 0), ({"ddof": 1, "bias": True}, 1), ({"ddof": 2}, 2)):
            got = gnp.cov(m, o, rowvar=rowvar, **kw)

            def c(g, h):
                s = lambda f: rsum(toI(n), f)
                return (s(lambda i: g(i) * h(i)) - s(g) * s(h) * rinv(N)) * rinv(N - R.num(k))

            if form == "vector":
                run.eq("variance", got, fn((), lambda: c(lambda i: at(u, i), lambda i: at(u, i))))
            elif form == "matrix":
                run.eq("covariance", got, fn((d, d), lambda a, b: c(lambda i: at(x, a, i), lambda i: at(x, b, i))))
            elif form == "vectors":
                for a, p in enumerate((u, w)):
                    for b, q in enumerate((u, w)):
                        run.eq("covariance", got[a, b], fn((), lambda: c(lambda i: at(p, i), lambda i: at(q, i))))
                run.same_shape("covariance", got, (I((), 2), I((), 2)))
            else:
                run.same_shape("covariance", got, (toI(d).scale(2), toI(d).scale(2)))
                for a, p in enumerate((x, y)):
                    for b, q in enumerate((x, y)):
                        blk = got[(slice(None, d) if a == 0 else slice(d, None)), (slice(None, d) if b == 0 else slice(d, None))]
                        run.eq("covariance", blk, fn((d, d), lambda s, t: c(lambda i: at(p, s, i), lambda i: at(q, t, i))))

    task.__name__ = "cov_%s_%s" % (form, "rows" if rowvar else "columns")
    return task


def elementwise():
    gnp = num()
    x, n, m = matrix()
    y = gp.mk("y", (n, m))
    sh = (n, m)
    run.eq("maximum", gnp.maximum(x, y), fn(sh, lambda *i: rmax(at(x, *i), at(y, *i))))
    run.eq("minimum", gnp.minimum(x, y), fn(sh, lambda *i: rmin(at(x, *i), at(y, *i))))
    c = run.real("c")
    run.eq("maximum-number", gnp.maximum(x, c), fn(sh, lambda *i: rmax(at(x, *i), toR(c))))
    run.eq("minimum-number", gnp.minimum(c, x), fn(sh, lambda *i: rmin(at(x, *i), toR(c))))
    lo, hi = run.real("lo"), run.real("hi")
    ctx().assume(rlt0(toR(lo) - toR(hi)))
    run.eq("clip", gnp.clip(x, lo, hi), fn(sh, lambda *i: rmin(rmax(at(x, *i), toR(lo)), toR(hi))))
    run.eq("clip-below", gnp.clip(x, lo), fn(sh, lambda *i: rmax(at(x, *i), toR(lo))))
    run.eq("clip-above", gnp.clip(x, None, hi), fn(sh, lambda *i: rmin(at(x, *i), toR(hi))))
    run.eq("where", gnp.where(x > 0.0, x, y), fn(sh, lambda *i: rite(rlt0(at(x, *i).neg()), at(x, *i), at(y, *i))))
    run.eq("finite-unchanged", gnp.inftobigf(x), x)
    run.eq("exp", gnp.exp(x), fn(sh, lambda *i: rexp(at(x, *i))))
    p = gnp.exp(y)
    run.eq("log", gnp.log(p), y)
    run.eq("log10", gnp.log10(p), fn(sh, lambda *i: at(y, *i) * rinv(rlog(R.num(10)))))
    run.eq("sqrt", gnp.sqrt(p), fn(sh, lambda *i: rexp(at(y, *i).scale(Fraction(1, 2)))))
    run.eq("exp-of-a-number", gnp.exp(c), fn((), lambda: rexp(toR(c))))


def solves():
    gnp = num()
    n, m = run.integer("n", 1), run.integer("m", 1)
    k, x, th = gp.Kernel(), gp.points("x", n, run.integer("d", 1)), gp.mk("theta", (2,))
    K = k(x, x, th)
    B = gp.mk("B", (n, m))
    eye = gnp.eye(n)
    S, L = gnp.cholesky_solve(K, B)
    run.eq("cholesky_solve", K @ S, B)
    run.eq("factor", L @ L.T, K)
    b = gp.vector("b", n)
    s = gnp.cholesky_solve(K, b)[0]
    run.eq("cholesky_solve-vector", (K @ s.reshape(-1, 1)).reshape(-1), b)
    for lower in (True, False):
        f = gnp.cho_factor(K, lower=lower)
        run.eq("cho_solve", K @ gnp.cho_solve(f, B), B)
        T = L if lower else L.T
        for trans in (0, "N", 1, "T"):
            X = gnp.solve_triangular(T, B, trans=trans, lower=lower)
            run.eq("solve_triangular", (T.T if trans in (1, "T") else T) @ X, B)
    run.eq("cholesky_inv", K @ gnp.cholesky_inv(K), eye)
    run.eq("inv", K @ gnp.inv(K), eye)
    run.eq("solve", K @ gnp.solve(K, B), B)
    run.eq("solve-vector", K @ gnp.solve(K, b), b)
    run.eq("logdet", gnp.logdet(K), fn((), lambda: rsum(toI(n), lambda i: rlog(at(L, i, i))).scale(2)))
    run.eq("trace", gnp.trace(K), fn((), lambda: rsum(toI(n), lambda i: at(K, i, i))))
    run.eq("diag", gnp.diag(K), fn((n,), lambda i: at(K, i, i)))
    run.eq("matmul", gnp.matmul(K, B), fn((n, m), lambda i, j: rsum(toI(n), lambda l: at(K, i, l) * at(B, l, j))))
    run.eq("inner", gnp.inner(b, b), fn((), lambda: rsum(toI(n), lambda i: at(b, i) * at(b, i))))
    run.eq("einsum", gnp.einsum("ij,ik->kj", K, B), fn((m, n), lambda a, j: rsum(toI(n), lambda i: at(K, i, j) * at(B, i, a))))


def distances():
    gnp = num()
    n, m, d = run.integer("n", 1), run.integer("m", 1), run.integer("d", 1)
    x, y, z, r = gp.mk("x", (n, d)), gp.mk("y", (m, d)), gp.mk("z", (n, d)), gp.vector("r", d)
    one = lambda k: R.num(1)
    inv = lambda k: rexp(at(r, k).scale(2))

    def sq(a, b, w):
        def f(i, j):
            return rsum(toI(d), lambda k: w(k) * (at(a, i, k) - at(b, j, k)) * (at(a, i, k) - at(b, j, k)))
        return f

    for name, got, a, b, w in (
        ("cdist", gnp.cdist(x, y), x, y, one), ("cdist-itself", gnp.cdist(x, x), x, x, one),
        ("scaled_distance", gnp.scaled_distance(r, x, y), x, y, inv), ("scaled_distance-itself", gnp.scaled_distance(r, x, x), x, x, inv),
    ):
        run.eq(name, got * got, fn((a.shp[0], b.shp[0]), sq(a, b, w)))
    e = gnp.scaled_distance_elementwise(r, x, z)
    run.eq("elementwise", e * e, fn((n,), lambda i: sq(x, z, inv)(i, i)))
    for o in (x, None):
        run.eq("elementwise-itself", gnp.scaled_distance_elementwise(r, x, o), fn((n,), lambda i: R.num(0)))


def densities(arrays):
    def task():
        gnp = num()
        n = run.integer("n", 1)
        x = gp.vector("x", n)
        if arrays:
            loc, s = gp.vector("loc", n), gnp.exp(gp.vector("ls", n))
        else:
            loc, s = run.real("loc"), run.real("s", 0.0)
        L = lambda i: at(loc, i) if arrays else toR(loc)
        S = lambda i: at(s, i) if arrays else toR(s)
        u = lambda i: (at(x, i) - L(i)) * rinv(S(i))
        lc = rlog(PI() * R.num(2)).scale(Fraction(1, 2))
        half = lambda i: (u(i) * u(i)).scale(Fraction(-1, 2))
        N = gnp.normal
        for how in (lambda f: f(x, loc, s), lambda f: f(x, loc=loc, scale=s)):
            run.eq("pdf", how(N.pdf), fn((n,), lambda i: rexp(half(i)) * rinv(S(i) * rsqrt(PI() * R.num(2)))))
            run.eq("logpdf", how(N.logpdf), fn((n,), lambda i: half(i) - rlog(S(i)) - lc))
            run.eq("cdf", how(N.cdf), fn((n,), lambda i: Phi(u(i))))
            run.eq("logcdf", how(N.logcdf), fn((n,), lambda i: rlog(Phi(u(i)))))
        run.eq("standard-cdf", N.cdf(x), fn((n,), lambda i: Phi(at(x, i))))
        run.eq("standard-pdf", N.pdf(x), fn((n,), lambda i: rexp((at(x, i) * at(x, i)).scale(Fraction(-1, 2))) * rinv(rsqrt(PI() * R.num(2)))))

    task.__name__ = "densities_" + ("arrays" if arrays else "numbers")
    return task


def joint_density(mean):
    def task():
        gnp = num()
        n, d = run.integer("n", 2), run.integer("d", 2)
        k, p, th = gp.Kernel(), gp.points("p", d, run.integer("q", 1)), gp.mk("theta", (2,))
        K = k(p, p, th)
        x = gp.mk("x", (n, d))
        mu = gp.vector("mu", d) if mean == "vector" else run.real("mu")
        M = lambda j: at(mu, j) if mean == "vector" else toR(mu)
        _, L = gnp.cholesky_solve(K, x.T)
        c = fn((n, d), lambda i, j: at(x, i, j) - M(j))
        S = gnp.cholesky_solve(K, c.T)[0]
        ld = rsum(toI(d), lambda i: rlog(at(L, i, i))).scale(2)

        def want(i):
            return (rsum(toI(d), lambda j: at(c, i, j) * at(S, j, i)) + ld + R.ofI(toI(d)) * rlog(PI() * R.num(2))).scale(Fraction(-1, 2))

        run.eq("logpdf", gnp.multivariate_normal.logpdf(x, mu, K), fn((n,), want))
        got = gnp.multivariate_normal.logpdf(x[0], mu, K)
        run.eq("logpdf-of-one-point", got.reshape(()), fn((), lambda: want(I())))
        v, m0 = run.real("v", 0.0), run.real("m0")
        y = gp.vector("y", n)
        u2 = lambda i: (at(y, i) - toR(m0)) * (at(y, i) - toR(m0)) * rinv(toR(v))
        w = fn((n,), lambda i: (u2(i) + rlog(PI() * R.num(2)) + rlog(toR(v))).scale(Fraction(-1, 2)))
        for Y in (y, y.reshape(-1, 1)):
            run.eq("scalar-logpdf", gnp.multivariate_normal.logpdf(Y, m0, v).reshape(-1), w)
        run.eq("scalar-cdf", gnp.multivariate_normal.cdf(y, m0, v).reshape(-1), fn((n,), lambda i: Phi((at(y, i) - toR(m0)) * rinv(rsqrt(toR(v))))))

    task.__name__ = "joint_density_%s_mean" % mean
    return task


def layout():
    gnp = num()
    n, m = run.integer("n", 1), run.integer("m", 1)
    x, y = gp.mk("x", (n, m)), gp.mk("y", (n, m))
    a, b = gp.vector("a", n), gp.vector("b", m)
    for i, j in ((0, 1), (1, 0), (-1, 0)):
        run.eq("transpose", gnp.transpose(x, i, j), fn((m, n), lambda i, j: at(x, j, i)))
    run.eq("expand-first", gnp.expand_dims(a, 0), fn((1, n), lambda i, j: at(a, j)))
    run.eq("expand-last", gnp.expand_dims(a, -1), fn((n, 1), lambda i, j: at(a, i)))
    for kw, sh, f in (
        ({}, (m, n), (lambda i, j: at(a, j), lambda i, j: at(b, i))), ({"indexing": "xy"}, (m, n), (lambda i, j: at(a, j), lambda i, j: at(b, i))),
        ({"indexing": "ij"}, (n, m), (lambda i, j: at(a, i), lambda i, j: at(b, j))),
    ):
        A, B = gnp.meshgrid(a, b, **kw)
        run.eq("meshgrid-first", A, fn(sh, f[0]))
        run.eq("meshgrid-second", B, fn(sh, f[1]))
    for kw in ({}, {"axis": 0}):
        c = gnp.concatenate((x, y), **kw)
        run.eq("concatenate-first", c[:n], x)
        run.eq("concatenate-second", c[n:], y)
    c = gnp.concatenate((x, y), axis=1)
    run.eq("concatenate-columns", c[:, :m], x)
    run.eq("concatenate-columns", c[:, m:], y)
    for ax, sel in ((0, lambda s, k: s[k]), (1, lambda s, k: s[:, k]), (2, lambda s, k: s[:, :, k]), (-1, lambda s, k: s[:, :, k])):
        s = gnp.stack((x, y), axis=ax)
        run.eq("stack", sel(s, 0), x)
        run.eq("stack", sel(s, 1), y)
    run.eq("vstack", gnp.vstack((a, a))[1], a)
    run.eq("hstack", gnp.hstack((a, b))[n:], b)
    run.eq("hstack-columns", gnp.hstack((x, y))[:, m:], y)
    run.eq("tile", gnp.tile(a, (2, 1)), fn((2, n), lambda i, j: at(a, j)))
    run.eq("reshape", gnp.reshape(x, (-1, 1)).reshape(n, m), x)


def splitting():
    gnp = num()
    n, d = run.integer("n", 4), run.integer("d", 1)
    i, j = run.integer("i", 1), run.integer("j", 2)
    c = ctx()
    c.assume(ilt(i.i, j.i))
    c.assume(ilt(j.i, n.i))
    x, y = gp.mk("x", (n, d)), gp.mk("y", (d, n))
    if c.branch(ieq(i.i.add(j.i), n.i)):
        return
    for parts, want in ((gnp.split(x, [i, j]), (x[:i], x[i:j], x[j:])), (gnp.split(y, [i, j], 1), (y[:, :i], y[:, i:j], y[:, j:])), (gnp.split(x, [i]), (x[:i], x[i:]))):
        run.true("number-of-parts", len(parts) == len(want))
        for p, w in zip(parts, want):
            run.eq("part", p, w)


def conversion():
    gnp = num()
    x, n, m = matrix()
    for f in (gnp.asarray, gnp.array, gnp.asdouble, gnp.copy, gnp.to_np):
        run.eq(f.__name__ if hasattr(f, "__name__") else "conversion", f(x), x)
    run.eq("asarray-float", gnp.asarray(x, dtype=float), x)
    run.true("isarray", gnp.isarray(x) and not gnp.isarray(1.0))
    c = run.real("c")
    run.eq("number", gnp.asarray(c).reshape(()), fn((), lambda: toR(c)))
    s = gnp.to_scalar(gnp.asarray(c))
    run.eq("to_scalar", fn((), lambda: toR(s)), fn((), lambda: toR(c)))
    run.true("to_scalar-number", gnp.to_scalar(2.5) == 2.5 and gnp.to_scalar(3) == 3)
    y = gnp.copy(x)
    y[0, 0] = 5.0
    run.eq("copy-independent", x, gp.mk("x", (n, m)))
    a, b = run.real("a"), run.real("b")
    run.eq("list", gnp.asarray([[a, b], [b, a]]), fn((2, 2), lambda i, j: rite(ieq(i, j), toR(a), toR(b))))
    for got, v in ((gnp.zeros((n, m)), 0), (gnp.ones((n, m)), 1), (gnp.full((n, m), 2.5), Fraction(5, 2)), (gnp.zeros_like(x), 0), (gnp.ones_like(x), 1), (gnp.full_like(x, 2.5), Fraction(5, 2))):
        run.eq("constant", got, fn((n, m), lambda i, j: R.num(v)))
    run.eq("eye", gnp.eye(n), fn((n, n), lambda i, j: rite(ieq(i, j), R.num(1), R.num(0))))
    k = run.integer("k", 2)
    run.eq("linspace", gnp.linspace(a, b, k), fn((k,), lambda i: toR(a) + R.ofI(i) * (toR(b) - toR(a)) * rinv(R.ofI(toI(k)) - R.num(1))))
    run.eq("arange", gnp.arange(n), fn((n,), lambda i: R.ofI(i)))


def finite_difference():
    """Exact for polynomials of degree four."""
    gnp = num()
    x, h = run.real("x"), run.real("h", 0.0)
    cs = [gp.vector("c%d" % k, run.integer("n", 1)) for k in range(5)]

    def f(u):
        r = cs[0]
        for k in range(1, 5):
            r = r + cs[k] * u**k
        return r

    X = toR(x)
    pw = lambda k: R.num(1) if k == 0 else X * pw(k - 1)
    run.eq("derivative", gnp.derivative_finite_diff(f, x, h), fn(cs[0].shp, lambda i: sum((at(cs[k], i).scale(k) * pw(k - 1) for k in range(1, 5)), R.num(0))))


TASKS = (
    [reduction(1, None, False), reduction(1, None, True), reduction(1, 0, False), reduction(1, -1, True)]
    + [reduction(2, a, k) for a in (None, 0, 1, -1, -2) for k in (False, True)]
    + [differences, norms, elementwise, solves, distances, layout, splitting, conversion, finite_difference]
    + [covariances(f, r) for f in ("vector", "matrix", "vectors", "matrices") for r in (True, False)]
    + [densities(True), densities(False), joint_density("vector"), joint_density("number")]
)
