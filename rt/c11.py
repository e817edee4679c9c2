import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import Dataset

from .core import check, np_


def data(t, lo=1):
    n, d = t.size("n", lo, 14, 60), t.size("d", 1, 4, 9)
    x = t.rng.normal(size=(n, d)) * 3
    zs = t.pick("z", ["vector", "column", "matrix"])
    z = t.rng.normal(size={"vector": (n,), "column": (n, 1), "matrix": (n, 2)}[zs]) + 5
    return n, x, z


def cut(t, n, k=None):
    k = t.size("shards", 1, min(n, 5), 25) if k is None else k
    k = min(k, n)
    b = np.sort(t.rng.choice(np.arange(1, n), size=k - 1, replace=False)) if k > 1 else np.array([], int)
    t.put(bounds=str(b.tolist()))
    return [0] + b.tolist() + [n]


def shards(a, b):
    return [gnp.asarray(a[u:v].copy()) for u, v in zip(b[:-1], b[1:])]


def sharded(t, lo=1, k=None):
    n, x, z = data(t, lo)
    b = cut(t, n, k)
    return n, x, z, b, Dataset(shards(x, b), shards(z, b))


@check(60)
def rows(t):
    n, x, z, b, D = sharded(t)
    t.true("length", len(D) == n, got=len(D), want=n)
    for i in range(n):
        xi, zi = D[i]
        t.same("input row %d" % i, xi, x[i])
        t.same("output row %d" % i, zi, z[i])


@check(60)
def stats(t):
    n, x, z, b, D = sharded(t, 2)
    for f, a in (("x", x), ("z", z)):
        g = lambda s: getattr(D, "%s_%s" % (f, s))
        t.close(f + " min", g("min")(), a.min(0))
        t.close(f + " max", g("max")(), a.max(0))
        t.close(f + " mean", g("mean")(), a.mean(0), 1e-9, 1e-10)
        t.close(f + " var", g("var")(), a.var(0, ddof=1), 1e-9, 1e-10)
        t.close(f + " std", g("std")(), a.std(0, ddof=1), 1e-9, 1e-10)
        t.close(f + " median", g("median")(), np.median(a, 0), 1e-9, 1e-10)
        q = t.pick("q", [0.0, 1.0, 0.5, 0.25, float(t.rng.random())])
        t.close(f + " quantile", g("quantile")(q), np.quantile(a, q, axis=0), 1e-9, 1e-10)
    for s, u in zip(D.x_list, shards(x, b)):
        t.same("rows unchanged by the statistics", s, u)
    for s, u in zip(D.z_list, shards(z, b)):
        t.same("outputs unchanged by the statistics", s, u)
    t.raises("quantile level", ValueError, lambda: D.x_quantile(1.5))


@check(20)
def rejected(t):
    n, x, z = data(t, 2)
    b = cut(t, n)
    X, Z = shards(x, b), shards(z, b)
    t.raises("shard counts", AssertionError, lambda: Dataset(X + [X[0]], Z))
    j = int(t.rng.integers(len(Z)))
    bad = list(Z)
    bad[j] = Z[j][:-1]
    t.raises("row counts", AssertionError, lambda: Dataset(X, bad))
    if len(X) > 1:
        t.raises("missing shard", AssertionError, lambda: Dataset(X, Z[:-1]))
