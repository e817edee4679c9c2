import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import Dataset

from .c11 import sharded
from .core import check, np_


def labelled(t, lo=1):
    """Rows that identify themselves: x[:, 0] and z[:, 0] hold the row number."""
    n, x, z, b, _ = sharded(t, lo)
    x[:, 0] = np.arange(n)
    z = z.reshape(n, -1)
    z[:, 0] = np.arange(n) + 1000
    from .c11 import shards

    return n, x, z, Dataset(shards(x, b), shards(z, b))


def content(D):
    X = np.concatenate([np_(a) for a in D.x_list], 0) if D.x_list else np.zeros((0, 1))
    Z = np.concatenate([np_(a) for a in D.z_list], 0) if D.z_list else np.zeros((0, 1))
    return X, Z


def rows_are(t, what, D, x, z, idx):
    X, Z = content(D)
    t.true(what + ": number of rows", len(D) == len(idx) == len(X) == len(Z), got=len(D), want=len(idx))
    if not len(idx):
        return
    got = np.sort(X[:, 0]).astype(int)
    t.same(what + ": rows", got, np.sort(np.asarray(idx, int)))
    k = X[:, 0].astype(int)
    t.same(what + ": inputs", X, x[k])
    t.same(what + ": outputs paired", Z, z[k])


@check(60)
def subset(t):
    n, x, z, D = labelled(t)
    m = t.size("m", 1, 12)
    idx = t.rng.integers(0, n, size=m) if t.pick("repeat", [True, False]) else t.rng.permutation(n)[: min(m, n)]
    t.put(indices=str(idx.tolist()))
    S = D.subset(gnp.asarray(idx, dtype=int))
    rows_are(t, "subset", S, x, z, idx)
    X, Z = content(D)
    t.same("dataset unchanged", X, x)
    t.same("outputs unchanged", Z, z)


@check(60)
def split(t):
    n, x, z, D = labelled(t)
    r = t.pick("ratios", [(0.8, 0.1, 0.1), (0.6, 0.2, 0.2), (0.5, 0.5, 0.0), (1.0, 0.0, 0.0), (0.34, 0.33, 0.33), (0.0, 0.25, 0.75)])
    seed = t.pick("seed", [None, 0, 1, 77])
    parts = Dataset.split(D, r, seed)
    a, b = int(r[0] * n), int(r[1] * n)
    t.true("sizes", [len(p) for p in parts] == [a, b, n - a - b], got=[len(p) for p in parts], want=[a, b, n - a - b])
    used = []
    for p in parts:
        X, Z = content(p)
        k = X[:, 0].astype(int) if len(p) else np.array([], int)
        rows_are(t, "part", p, x, z, k)
        used += k.tolist()
    t.true("every row in exactly one part", sorted(used) == list(range(n)), got=sorted(used))
    if seed is not None:
        again = Dataset.split(D, r, seed)
        for p, q in zip(parts, again):
            t.same("same seed, same parts", content(p)[0], content(q)[0])
    t.raises("ratios not summing to one", AssertionError, lambda: Dataset.split(D, (0.5, 0.1, 0.1)))


@check(80)
def folds(t):
    n = t.size("n", 2, 20, 80)
    k = int(t.rng.integers(2, n + 1)) if t.trial % 3 else t.pick("k", [v for v in (2, 3, 4, n) if v <= n])
    t.put(folds=k)
    seed = t.pick("seed", [None, 0, 3])
    F = Dataset.k_fold_indices(n, k, seed)
    t.true("number of folds", len(F) == k, got=len(F), want=k)
    check_folds(t, F, n)
    if seed is not None:
        for (a, b), (c, d) in zip(F, Dataset.k_fold_indices(n, k, seed)):
            t.same("same seed, same folds", b, d)


def check_folds(t, F, n):
    seen = []
    for tr, va in F:
        tr, va = np_(tr).tolist(), np_(va).tolist()
        seen += va
        t.true("training is the complement", sorted(tr + va) == list(range(n)), got=[tr, va])
    t.true("validation parts cover once", sorted(seen) == list(range(n)), got=sorted(seen))
    s = [len(np_(va)) for _, va in F]
    t.true("balanced", max(s) - min(s) <= 1, got=s)


@check(30)
def repeated(t):
    n = t.size("n", 2, 15)
    k, r = t.size("k", 2, 4), t.size("repeats", 1, 4)
    k = min(k, n)
    seed = t.pick("seed", [None, 5])
    F = Dataset.repeated_k_fold_indices(n, k, r, seed)
    t.true("number of splits", len(F) == k * r, got=len(F))
    for j in range(r):
        check_folds(t, F[j * k : (j + 1) * k], n)
    if seed is not None:
        for j in range(r):
            for (a, b), (c, d) in zip(F[j * k : (j + 1) * k], Dataset.k_fold_indices(n, k, seed + j)):
                t.same("repetition %d" % j, b, d)
