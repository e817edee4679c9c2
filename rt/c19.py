import numpy as np

import gpmp.num as gnp
from gpmp.kernel import parameter_selection as S

from .core import Skip, check, np_


class patched:
    """Put another optimiser in place of SciPy's."""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        import scipy.optimize as so

        self.keep = [(so, so.minimize)] + ([(S, S.minimize)] if hasattr(S, "minimize") else [])
        for m, _ in self.keep:
            m.minimize = self.f

    def __exit__(self, *a):
        for m, f in self.keep:
            m.minimize = f


def scripted(points, final, seen):
    """An optimiser that visits the given points and reports one of them, through the public minimize interface."""
    from scipy.optimize import OptimizeResult

    def minimize(fun, x0, method=None, jac=None, bounds=None, options=None, **kw):
        buf, vals = np.empty_like(points[0]), []
        for p in points:  # optimisers may reuse the array they evaluate at
            buf[:] = p
            vals.append(fun(buf))
        buf[:] = 0.0
        seen.update(bounds=bounds, method=method, x0=x0, options=options, jac=jac)
        k = final
        return OptimizeResult(x=points[k].copy(), fun=vals[k], success=True, status=0, message="", nfev=len(vals), nit=1)

    return minimize


def table(vals):
    it = iter(vals)

    def f(p):
        v = next(it)
        if v == "fail":
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        return v

    return f


@check(150)
def visited(t):
    d, k = t.size("d", 1, 4), t.size("visits", 1, 8)
    if t.pick("long", [False] * 4 + [True]):
        k *= int(t.rng.integers(10, 120))
    pts = [t.rng.normal(size=d) for _ in range(k)]
    vals = []
    for _ in range(k):
        u = t.rng.random()
        vals.append("fail" if u < 0.12 else float("inf") if u < 0.24 else float("nan") if u < 0.36 else float(np.round(t.rng.normal(), 1)))
    final = int(t.rng.integers(k))
    t.put(points=pts, values=[str(v) for v in vals], reported=final)
    seen = {}
    p0 = t.rng.normal(size=d)
    crit = table(vals)
    with patched(scripted(pts, final, seen)):
        x, r = S.autoselect_parameters(p0, crit, None, info=True, method=t.pick("method", ["SLSQP", "L-BFGS-B"]))
    num = [float("inf") if v == "fail" else v for v in vals]
    t.true("history length", len(r.history_params) == k and len(r.history_criterion) == k)
    for i in range(k):
        t.same("history point", r.history_params[i], pts[i])
        t.true("history value", np.array_equal(float(r.history_criterion[i]), num[i], equal_nan=True), i=i)
    fin = [v for v in num if np.isfinite(v)]
    if fin:
        t.true("returned value is the best finite one", float(r.fun) == min(fin), got=float(r.fun), best=min(fin))
        hit = [i for i in range(k) if np.array_equal(pts[i], np_(x))]
        t.true("returned point was visited with that value", any(num[i] == float(r.fun) for i in hit), x=x)
    t.same("result point", r.x, np_(x))
    t.same("final point", r.final_params, np_(x))
    t.same("initial point", r.initial_params, p0)
    t.true("flag tells whether the reported point was kept", bool(r.best_value_returned) == bool(np.array_equal(np_(x), pts[final])))
    t.true("criterion kept", r.selection_criterion is crit)


@check(80)
def box(t):
    d = t.size("d", 1, 4) * t.pick("many", [1, 1, 1, 7])
    p0 = t.rng.normal(size=d) * t.pick("scale", [1.0, 30.0, 480.0, 495.0])
    delta = t.pick("delta", [10.0, 0.5, 1e4])
    mode = t.pick("mode", ["auto", "none", "user"])
    user = [(float(a), float(a) + 1 + float(t.rng.random())) for a in t.rng.normal(size=d)] if mode == "user" else None
    t.put(p0=p0, bounds=repr(user))
    seen = {}
    with patched(scripted([p0.copy()], 0, seen)):
        _, r = S.autoselect_parameters(gnp.asarray(p0), lambda p: 0.0, None, bounds=user, bounds_auto=mode != "none", bounds_delta=delta, info=True)
    if "bounds" not in seen:
        raise Skip()
    b = seen["bounds"]
    if mode == "user":
        t.true("user bounds unchanged", b is user or [tuple(map(float, u)) for u in b] == user)
    elif mode == "none":
        t.true("no bounds", b is None)
    else:
        b = np.array([[float(np_(u)) for u in row] for row in b])
        t.shape("bounds", b, (d, 2))
        t.close("lower", b[:, 0], np.maximum(p0 - delta, -500.0))
        t.close("upper", b[:, 1], np.minimum(p0 + delta, 500.0))
    t.same("start", seen["x0"], p0)
    if b is not None and mode == "auto":
        t.true("recorded bounds", r.bounds is seen["bounds"] or len(r.bounds) == d)


@check(40)
def real_search(t):
    """The real optimisers on criteria with holes."""
    d = t.size("d", 1, 3)
    a, w = t.rng.normal(size=d), t.rng.random(d) + 0.2
    hole = t.pick("hole", ["none", "inf", "fail", "nan"])
    visits = []

    def J(p):
        p = np.asarray(p, dtype=float)
        v = float((w * (p - a) ** 2).sum() + 0.3 * np.sin(5 * p).sum())
        if hole != "none" and p[0] > a[0] + 0.4:
            v = "fail" if hole == "fail" else float(hole)
        visits.append((p.copy(), float("inf") if v == "fail" else v))
        if v == "fail":
            raise np.linalg.LinAlgError("singular matrix")
        return v

    def G(p):
        p = np.asarray(p, dtype=float)
        return 2 * w * (p - a) + 1.5 * np.cos(5 * p)

    p0 = a - 1.0 - t.rng.random(d)
    user = [(float(u), float(u) + 2.0) for u in p0 - 0.5] if t.pick("bounded", [False, True]) else None
    t.put(a=a, w=w, p0=p0)
    with np.errstate(all="ignore"):
        x, r = S.autoselect_parameters(p0.copy(), J, G, bounds=user, info=True, method=t.pick("method", ["SLSQP", "L-BFGS-B"]))
    rec = list(zip(r.history_params, r.history_criterion))
    t.true("history is the sequence of evaluations", len(rec) == len(visits) and all(
        np.array_equal(u, v[0]) and np.array_equal(float(f), v[1], equal_nan=True) for (u, f), v in zip(rec, visits)))
    fin = [v for _, v in visits if np.isfinite(v)]
    t.true("no visited point is better", float(r.fun) <= min(fin), got=float(r.fun), best=min(fin))
    q = np_(x)
    t.close("reported value at the returned point", float(r.fun), float((w * (q - a) ** 2).sum() + 0.3 * np.sin(5 * q).sum()), 1e-12)
    b = np.array(user) if user is not None else np.stack([p0 - 10, p0 + 10], 1)
    t.true("inside the bounds", np.all(q >= b[:, 0] - 1e-9) and np.all(q <= b[:, 1] + 1e-9), x=q, bounds=b)


@check(10)
def method_checked(t):
    t.raises("unknown method refused", ValueError, lambda: S.autoselect_parameters(np.zeros(2), lambda p: 0.0, None, method=t.pick("m", ["BFGS", "nelder"])))

    def boom(p):
        raise KeyError("x")

    t.raises("other failures are not hidden", KeyError, lambda: S.autoselect_parameters(np.zeros(2), boom, lambda p: p))
