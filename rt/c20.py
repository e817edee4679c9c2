"""Selection criteria on arrays and on loaders, failures, mean and covariance parameters."""
import itertools

import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset
from gpmp.kernel import parameter_selection as S

from .core import check, np_

TORCH = gnp._gpmp_backend_ == "torch"


def failure(t):
    if TORCH:
        import torch

        return t.pick("error", [torch.linalg.LinAlgError("linalg.cholesky: the input is not positive-definite"), RuntimeError("cholesky: singular")])
    return t.pick("error", [np.linalg.LinAlgError("Matrix is not positive definite"), np.linalg.LinAlgError("Singular matrix")])


class Odd(Exception):
    pass


def loader(t):
    n, b = t.size("n", 1, 23), t.size("batch", 1, 9, 60)
    d = t.size("d", 1, 3, 9)
    x, z = t.rng.normal(size=(n, d)), t.rng.normal(size=n)
    drop = t.pick("drop_last", [False, False, True]) and n >= b
    t.put(x=x, z=z)
    ld = DataLoader(Dataset(gnp.asarray(x), gnp.asarray(z).reshape(-1, 1)), batch_size=b, shuffle=False, drop_last=drop)
    cuts = [(i, min(i + b, n)) for i in range(0, n, b)]
    if drop:
        cuts = [c for c in cuts if c[1] - c[0] == b]
    return ld, [(x[a:e], z[a:e]) for a, e in cuts]


def crit_np(p, x, z):
    return float(((x @ p[: x.shape[1]] - z) ** 2).sum() + (p**3).sum() + z.sum())


def grad_np(p, x, z):
    g = 3 * p**2
    g[: x.shape[1]] += 2 * x.T @ (x @ p[: x.shape[1]] - z)
    return g


def crit(p, x, z):
    r = gnp.matmul(x, p[: x.shape[1]]) - z.reshape(-1)
    return gnp.sum(r**2) + gnp.sum(p**3) + gnp.sum(z)


@check(60)
def single(t):
    n, d = t.size("n", 1, 6), t.size("d", 1, 3, 9)
    x, z, p = t.rng.normal(size=(n, d)), t.rng.normal(size=n), t.rng.normal(size=d + t.size("more", 0, 2))
    kind = t.pick("kind", ["value", "failure", "other"])
    t.put(x=x, z=z, p=p)
    exc = failure(t) if kind == "failure" else Odd("file not found")

    def f(q, a, b):
        if kind != "value":
            raise exc
        return crit(q, a, b)

    c = gnp.DifferentiableSelectionCriterion(f, gnp.asarray(x), gnp.asarray(z))
    ways = ["evaluate_pre_grad"] + (["evaluate", "evaluate_no_grad"] if kind != "failure" else [])
    for w in ways:
        g = lambda: getattr(c, w)(gnp.asarray(p) if w != "evaluate_pre_grad" else p)
        if kind == "value":
            t.close(w, float(np_(g())), crit_np(p, x, z), 1e-9)
        elif kind == "failure":
            t.true(w + " infinite", float(g()) == float("inf"))
        else:
            t.raises(w, Odd, g)
    if TORCH and kind != "other":
        c.evaluate_pre_grad(p)
        t.close("gradient", c.gradient(p), grad_np(p, x, z) if kind == "value" else np.zeros_like(p), 1e-8)
        q = p + 1
        c.evaluate_pre_grad(q)
        t.close("gradient at another point", c.gradient(q), grad_np(q, x, z) if kind == "value" else np.zeros_like(p), 1e-8)


@check(120)
def batches(t):
    ld, parts = loader(t)
    d = parts[0][0].shape[1]
    red, bpe = t.pick("reduction", ["mean", "sum", None]), t.pick("batches_per_eval", [0, 0, 1, 2, 3, 5, 9])
    kw = {} if red is None else {"reduction": red}
    bad = t.pick("failing batch", [None, None, 0, 1])
    calls = [0]

    def f(q, a, b):
        calls[0] += 1
        if bad is not None and len(np_(a)) == len(parts[bad % len(parts)][0]) and np.array_equal(np_(a), parts[bad % len(parts)][0]):
            raise failure(t)
        return crit(q, a, b)

    c = gnp.BatchDifferentiableSelectionCriterion(f, ld, batches_per_eval=bpe, **kw)
    cyc = itertools.cycle(range(len(parts)))
    for k in range(4):
        p = t.rng.normal(size=d + 1)
        w = t.pick("way%d" % k, ["evaluate", "evaluate_no_grad", "evaluate_pre_grad"])
        todo = [next(cyc) for _ in range(bpe)] if bpe else range(len(parts))
        v = float(np_(getattr(c, w)(gnp.asarray(p))))
        if bad is not None and bad % len(parts) in todo:
            t.true("infinite", v == float("inf"), way=w, got=v)
            if TORCH and w == "evaluate_pre_grad":
                t.close("zero gradient", c.gradient(p), np.zeros_like(p))
            if bpe:
                break  # the batches after the failing one belong to the next evaluation
            continue
        rows = np.array([len(parts[i][0]) for i in todo], dtype=float)
        div = rows.sum() if red != "sum" else 1.0
        want = float((np.array([crit_np(p, *parts[i]) for i in todo]) * rows).sum() / div)
        t.close(w, v, want, 1e-9)
        if TORCH and w == "evaluate_pre_grad":
            t.close("gradient", c.gradient(p), sum(grad_np(p, *parts[i]) * r for i, r in zip(todo, rows)) / div, 1e-8)


@check(15)
def refused(t):
    ld, parts = loader(t)
    C = gnp.BatchDifferentiableSelectionCriterion
    t.raises("reduction", ValueError, lambda: C(crit, ld, reduction="median"))
    t.raises("count", ValueError, lambda: C(crit, ld, batches_per_eval=-1))
    x, z = gnp.asarray(parts[0][0]), gnp.asarray(parts[0][1])
    M = S.make_selection_criterion_with_gradient
    t.raises("both sources", ValueError, lambda: M(None, crit, xi=x, zi=z, dataloader=ld))
    t.raises("no source", ValueError, lambda: M(None, crit))


def split_crit(m, *a):
    """Criterion of [meanparam, covparam] that depends on both and on the rows."""
    mp, cp, x, z = a if len(a) == 4 else (None,) + a
    s = gnp.sum((gnp.sum(x, axis=1) * cp[0] - z.reshape(-1)) ** 2) + gnp.sum(cp**2)
    return s if mp is None else s + gnp.sum((mp - 1.0) ** 2) * gnp.sum(z**2)


def split_np(p, q, x, z):
    s = ((x.sum(1) * p[q] - z) ** 2).sum() + (p[q:] ** 2).sum()
    return float(s + ((p[:q] - 1.0) ** 2).sum() * (z**2).sum())


@check(60)
def maker(t):
    """Values through the maker and through a selection, with stated and default numbers of batches and mean parameters."""
    ld, parts = loader(t)
    use, pm = t.pick("loader", [True, True, False]), t.pick("parameterized_mean", [True, False, None])
    q = t.size("q", 1, 3) if pm else 0
    bpe = t.pick("batches_per_eval", [None, 0, 1, 2, 5]) if use else None
    src = {"dataloader": ld} if use else {"xi": gnp.asarray(parts[0][0]), "zi": gnp.asarray(parts[0][1])}
    kw = dict(src)
    if pm is not None:
        kw["parameterized_mean"] = pm
    if pm and (q > 1 or t.pick("stated", [True, False])):
        kw["meanparam_len"] = q
    if bpe is not None:
        kw["batches_per_eval"] = bpe
    cyc = itertools.cycle(range(len(parts)))
    todo = lambda: [0] if not use else [next(cyc) for _ in range(bpe)] if bpe else range(len(parts))

    def want(p):
        ix = todo()
        rows = np.array([len(parts[i][0]) for i in ix], dtype=float)
        return float((np.array([split_np(p, q, *parts[i]) for i in ix]) * rows).sum() / (rows.sum() if use else rows[0]))

    fs = S.make_selection_criterion_with_gradient(None, split_crit, **kw)
    for k in range(3):
        p = t.rng.normal(size=q + 2)
        w = int(t.pick("way%d" % k, [0, 1, 2]))
        t.close("value %d" % w, float(np_(fs[w](p if w == 1 else gnp.asarray(p)))), want(p), 1e-9)
    if bpe:
        kw["method_options"] = {"maxiter": 1}
    model = Model()
    _, info = S.select_parameters_with_criterion(
        model, split_crit, meanparam0=gnp.asarray(np.zeros(q)) if pm else None, covparam0=gnp.asarray(np.zeros(2)), info=True, **kw)
    if bpe and bpe % len(parts):
        return  # the first batch of the next evaluation depends on how many evaluations the search made
    cyc = itertools.cycle(range(len(parts)))
    p = t.rng.normal(size=q + 2)
    t.close("reported criterion", float(np_(info["selection_criterion_nograd"](gnp.asarray(p)))), want(p), 1e-9)


class Model:
    meanparam = covparam = None


@check(80)
def selection(t):
    """Mean and covariance parameters keep their places from the start to the final model."""
    ld, parts = loader(t)
    d = parts[0][0].shape[1]
    pm, use, upd = t.pick("parameterized_mean", [True, True, False]), t.pick("loader", [True, False]), t.pick("update", [True, False])
    q, k = (t.size("q", 1, 3) if pm else 0), t.size("c", 1, 4)
    m0, c0, a = t.rng.normal(size=max(q, 1)), t.rng.normal(size=k), t.rng.normal(size=q + k)
    hole = t.pick("hole", [False, True])
    t.put(m0=m0, c0=c0, target=a)
    model = Model()
    if upd:
        model.meanparam, model.covparam = gnp.asarray(m0), gnp.asarray(c0)
    seen = []

    def f(m, *args):
        t.true("model handed to the criterion", m is model)
        if pm:
            mp, cp, x, z = args
        else:
            cp, x, z = args
            mp = cp[:0]
        seen.append((np.array(np_(mp)).copy(), np.array(np_(cp)).copy(), np_(x).shape))
        t.shape("mean parameters", mp, (q,))
        t.shape("covariance parameters", cp, (k,))
        if hole and float(np_(cp)[0]) > a[q] + 0.3 and len(seen) > 1:
            raise failure(t)
        s = gnp.sum((cp - gnp.asarray(a[q:])) ** 2)
        if pm:
            s = s + 2.0 * gnp.sum((mp - gnp.asarray(a[:q])) ** 2)
        return s + gnp.sum((x * 0.0)) + 1.0

    if hole:
        c0[0] = a[q] - 0.5
        if upd:
            model.covparam = gnp.asarray(c0)
    src = {"dataloader": ld} if use else {"xi": gnp.asarray(parts[0][0]), "zi": gnp.asarray(parts[0][1])}
    kw = dict(src, parameterized_mean=pm, meanparam_len=max(q, 1), info=True, method=t.pick("method", ["SLSQP", "L-BFGS-B"]))
    if t.pick("defaults", [True, False]):
        if q <= 1:
            del kw["meanparam_len"]
        if not pm:
            del kw["parameterized_mean"]
    if upd:
        out, info = S.update_parameters_with_criterion(model, f, **kw)
    else:
        out, info = S.select_parameters_with_criterion(model, f, meanparam0=gnp.asarray(m0) if pm else None, covparam0=gnp.asarray(c0), **kw)
    t.true("model returned", out is model)
    t.close("first mean", seen[0][0], m0[:q])
    t.close("first covariance", seen[0][1], c0)
    if not hole:
        t.close("covariance in the model", model.covparam, a[q:], 1e-3, 1e-2)
        if pm:
            t.close("mean in the model", model.meanparam, a[:q], 1e-3, 1e-2)
    best = min(range(len(info.history_criterion)), key=lambda i: float(info.history_criterion[i]) if np.isfinite(float(info.history_criterion[i])) else 1e300)
    hp = np_(info.history_params[best])
    t.close("covariance entries", model.covparam, hp[q:], 1e-9, 1e-9)
    t.close("info covariance", info["covparam"], hp[q:], 1e-9, 1e-9)
    t.close("info start", info["covparam0"], c0)
    if pm:
        t.close("mean entries", model.meanparam, hp[:q], 1e-9, 1e-9)
        t.close("info mean", info["meanparam"], hp[:q], 1e-9, 1e-9)
        t.close("info mean start", info["meanparam0"], m0)
    hole = False
    for key in ("selection_criterion", "selection_criterion_nograd"):
        p = t.rng.normal(size=q + k)
        v = float(np_(info[key](gnp.asarray(p))))
        t.close(key, v, 1.0 + ((p[q:] - a[q:]) ** 2).sum() + 2 * ((p[:q] - a[:q]) ** 2).sum(), 1e-8)


@check(20)
def failing_start(t):
    """A search whose criterion fails at some points goes on and returns a point where it did not."""
    d = t.size("d", 1, 3, 9)
    a = t.rng.normal(size=d)
    use = t.pick("loader", [True, False])
    ld, parts = loader(t)
    n = [0]
    first = t.pick("fails at", [1, 2, 3])

    def f(m, cp, x, z):
        n[0] += 1
        if n[0] == first + 1:
            raise failure(t)
        return gnp.sum((cp - gnp.asarray(a)) ** 2)

    src = {"dataloader": ld} if use else {"xi": gnp.asarray(parts[0][0]), "zi": gnp.asarray(parts[0][1])}
    model = Model()
    _, info = S.select_parameters_with_criterion(model, f, covparam0=gnp.asarray(a + 1.0), info=True, method=t.pick("method", ["SLSQP", "L-BFGS-B"]), **src)
    h = [float(v) for v in info.history_criterion]
    if not any(np.isfinite(v) for v in h):
        return
    t.true("best visited returned", float(info.fun) == min(v for v in h if np.isfinite(v)), history=h, got=float(info.fun))
