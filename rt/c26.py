"""Designs: size, box, grid, and distances against plain loops."""
import itertools
import math

import numpy as np

from gpmp.misc import designs as D

from .core import check


def box_(t, d):
    lo = t.rng.normal(size=d) * 3
    hi = lo + np.exp(t.rng.normal(size=d))
    b = [lo, hi] if t.pick("box", ["arrays", "lists"]) == "arrays" else [list(map(float, lo)), list(map(float, hi))]
    t.put(lo=lo, hi=hi)
    return b, lo, hi


def inside(t, x, n, d, lo, hi):
    t.shape("design", x, (n, d))
    x = np.asarray(x)
    tol = 1e-12 * (1 + np.abs(lo) + np.abs(hi))
    t.true("inside the box", bool(np.isfinite(x).all() and (x >= lo - tol).all() and (x <= hi + tol).all()))


@check(60)
def grid(t):
    d = t.size("d", 1, 4)
    b, lo, hi = box_(t, d)
    if t.pick("sizes", ["common", "each"]) == "common":
        n = t.size("n", 1, 4)
        each = [n] * d
    else:
        n = each = [int(k) for k in t.rng.integers(1, 6, size=d)]
        if t.pick("one long", [False, False, True]):
            each[int(t.rng.integers(d))] = int(t.rng.integers(6, 300 if d < 3 else 30))
        t.put(each=each)
        n = list(n)
    x = D.regulargrid(d, n, b)
    N = math.prod(each)
    inside(t, x, N, d, lo, hi)
    levels = [[lo[j] + (hi[j] - lo[j]) * k / (m - 1) if m > 1 else lo[j] for k in range(m)] for j, m in enumerate(each)]
    want = np.array(list(itertools.product(*levels)))
    order = np.lexsort(np.round(np.asarray(x), 9).T[::-1])
    t.close("product of evenly spaced levels", np.asarray(x)[order], want, 1e-9, 1e-9)


@check(40)
def random_designs(t):
    d, n = t.size("d", 1, 4), t.size("n", 1, 9)
    b, lo, hi = box_(t, d)
    np.random.seed(int(t.rng.integers(2**31)))
    kind = t.pick("design", ["randunif", "ldrandunif", "maximinlhs", "maximinldlhs"])
    if kind == "maximinldlhs":
        n = min(n, 3)
    if kind == "ldrandunif":
        d = t.pick("dimension", [d, d, 80])
        b, lo, hi = box_(t, d)
    kw = {"max_iter": int(t.rng.integers(1, 6))} if kind in ("ldrandunif", "maximinlhs") else {}
    x = getattr(D, kind)(d, n, b, **kw)
    inside(t, x, n, d, lo, hi)
    if "lhs" in kind:
        cell = np.floor((np.asarray(x) - lo) / (hi - lo) * n - 1e-9).astype(int)
        t.true("one point in each slice", all(len(set(c)) == n for c in cell.T), cells=cell)


@check(40)
def scaling(t):
    d, n = t.size("d", 1, 4), t.size("n", 1, 8)
    b, lo, hi = box_(t, d)
    u = t.rng.uniform(size=(n, d))
    t.close("affine map", D.scale(u, b), lo + u * (hi - lo), 1e-12, 1e-12)


def near(x):
    D_ = [math.dist(x[i], x[j]) for i in range(len(x)) for j in range(i)]
    return min(D_), max(D_)


@check(60)
def distances(t):
    d, n, m = t.size("d", 1, 4), t.size("n", 2, 10), t.size("m", 1, 10)
    x, y = t.rng.normal(size=(n, d)), 2 * t.rng.normal(size=(m, d))
    if t.pick("repeated point", [False, False, True]):
        x[1] = x[0]
    t.put(x=x, y=y)
    lo, hi = near(x)
    t.close("separation", D.mindist(x), lo, 1e-12, 1e-12)
    t.close("diameter", D.maxdist(x), hi, 1e-12, 1e-12)
    far = max(min(math.dist(p, q) for p in x) for q in y)
    b = [[0.0] * d, [1.0] * d]
    t.close("fill distance", D.filldist_approx(x, b, x=y), far, 1e-12, 1e-12)


@check(10)
def fill_random(t):
    """Test points drawn at random in the box: close to the value on other points of the box."""
    d, n = t.size("d", 1, 2), t.size("n", 1, 6)
    b, lo, hi = box_(t, d)
    x = lo + t.rng.uniform(size=(n, d)) * (hi - lo)
    y = lo + t.rng.uniform(size=(1500, d)) * (hi - lo)
    t.put(x=x)
    far = np.sqrt(((x[:, None] - y) ** 2).sum(-1)).min(0).max()
    got = D.filldist_approx(x, b, n=1500)
    t.true("fill distance on random points", abs(got - far) <= 0.3 * np.linalg.norm(hi - lo) and got > 0, got=float(got), want=float(far))
