import numpy as np

import gpmp.num as gnp
from gpmp.kernel import bounds as B
from gpmp.kernel import prior_helpers as H

from .core import check, np_
from .gpx import A


def points(t):
    n, d = t.size("n", 1, 14, 60), t.size("d", 1, 4, 9)
    kind = t.pick("kind", ["random", "grid", "repeated", "mixed", "close"])
    x = t.rng.normal(size=(n, d)) * t.pick("scale", [1.0, 1e-5, 1e4, 1e-12])
    if kind == "grid":
        x = np.round(x * 3) / 3
    if kind in ("repeated", "mixed") and n > 2:
        x[t.rng.integers(n, size=n // 2)] = x[0]
    if kind == "mixed":
        x[:, int(t.rng.integers(d))] = t.pick("constant", [0.0, -2.5])
    if kind == "close" and n > 1:
        x = np.round(x / np.abs(x).max(), 3)
        x[-1] = x[0] + t.pick("gap", [1e-4, 1e-7, 1e-10])
    t.put(x=x)
    return n, d, x


def gaps(x):
    """Smallest nonzero gap per coordinate by all pairs."""
    out = []
    for c in x.T:
        g = np.abs(c[:, None] - c[None, :])
        g = g[g > 0]
        out.append(g.min() if g.size else np.inf)
    return np.array(out)


@check(100)
def lower_bound(t):
    n, d, x = points(t)
    fac = float(t.pick("factor", [0.05, 0.3, 1.0, 2.5, 1e-4, 1e-12]))
    X = A(x)
    got = np_(H.compute_logrho_min_from_xi(X, fac))
    g, r = gaps(x), x.max(0) - x.min(0)
    with np.errstate(divide="ignore"):
        lg = np.where(np.isfinite(g), np.log(np.where(np.isfinite(g), g, 1.0)), -np.inf)
        lr = np.log(r * fac)
    t.shape("bound", got, (d,))
    t.close("larger of gap and range bounds", got, np.maximum(lg, lr), 1e-7, 1e-7)
    t.true("never below either", np.all(got >= lg - 1e-7) and np.all(got >= lr - 1e-7), got=got, gap=lg, range=lr)
    t.same("points untouched", X, x)
    t.raises("factor checked", ValueError, lambda: H.compute_logrho_min_from_xi(X, t.pick("bad", [0.0, -1.0])))


@check(40)
def prior_arguments(t):
    """The lower bound a prior gets: the one stated, or the one of all rows, given as an array or through a loader of several shards."""
    from gpmp.dataloader import DataLoader, Dataset

    n, d, x = points(t)
    c0, z = t.rng.normal(size=1 + d), t.rng.normal(size=n)
    fac = float(t.pick("factor", [0.05, 0.3, 1.0]))
    cuts = sorted(set(t.rng.integers(1, n, size=2).tolist())) if n > 1 else []
    ds = Dataset([A(v) for v in np.split(x, cuts)], [A(v) for v in np.split(z, cuts)])
    use = t.pick("source", ["arrays", "loader"])
    src = {"xi": A(x)} if use == "arrays" else {"dataloader": DataLoader(ds, batch_size=max(n // 2, 1))}
    stated = t.rng.normal(size=d) if t.pick("stated", [False, False, True]) else None
    kw = {} if stated is None else {"prior_logrho_min": A(stated)}
    out = H.resolve_logsigma2_logrho_prior_args(covparam0_prior=A(c0), prior_rho_min_range_factor=fac, **src, **kw)
    want = np_(H.compute_logrho_min_from_xi(A(x), fac)) if stated is None else stated
    t.close("lower bound", out[6], want, 1e-12, 1e-12)
    t.close("reference variance", float(np_(out[4])), c0[0], 1e-12)
    t.close("reference lengths", out[5], -c0[1:], 1e-12)
    t.close("factor", out[3], fac, 1e-12)


@check(100)
def search_box(t):
    n, d, x = points(t)
    z = t.rng.normal(size=n) * t.pick("zscale", [1.0, 1e-3, 50.0])
    if n > 1 and t.pick("constant z", [False, False, False, True]):
        z[:] = t.pick("z value", [0.0, 1.0])
    q = t.size("q", 0, 3)
    lo, up, le = t.pick("factors", [(2.0, 10.0, 2.0), (0.1, 10.0, 0.5), (1.0, 1.0, 1.0), (2.0, 3.0, 7.0)])
    zz = A(z) if t.pick("z shape", ["flat", "column"]) == "flat" else A(z.reshape(-1, 1))
    t.put(z=z)
    X = A(x)
    with np.errstate(divide="ignore"):
        box = np_(B.empirical_bounds_factory(X, zz, mean_paramlength=q, var_lower_factor=lo, var_upper_factor=up, length_lower_factor=le))
        v = z.var()
        lv = np.log([lo * v, up * v])
    t.shape("box", box, (q + 1 + d, 2))
    t.true("mean parameters free", np.all(np.isneginf(box[:q, 0])) and np.all(np.isposinf(box[:q, 1])))
    if v > 1e-25:
        t.close("variance row", box[q], lv, 1e-7, 1e-7)
    g = gaps(x)
    for j in range(d):
        row = box[q + 1 + j]
        t.true("no lower end on the inverse length", np.isneginf(row[0]), row=row)
        if np.isfinite(g[j]):
            t.close("upper end from the gap", row[1], -np.log(le * g[j]), 1e-7, 1e-7)
        else:
            t.true("constant coordinate is unbounded", np.isposinf(row[1]), row=row)
    t.true("ordered", np.all(box[:, 0] <= box[:, 1]), box=box)
    t.same("points untouched", X, x)
