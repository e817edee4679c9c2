import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import DataLoader, collate_batches

from .c12 import labelled
from .core import check, np_


def loader(t, lo=1):
    n, x, z, D = labelled(t, lo)
    b = t.pick("batch", [None, 1, 2, 3, 4, 7, n, n + 3])
    sh, dr, seed = t.pick("shuffle", [False, True]), t.pick("drop", [False, True]), t.pick("seed", [None, 0, 9])
    L = DataLoader(D, b, shuffle=sh, drop_last=dr, seed=seed)
    return n, x, z, D, L, (n if b is None else b), sh, dr, seed


def run_pass(t, L, n, x, z, b, sh, dr):
    B = list(L)
    sizes = [int(np_(a).shape[0]) for a, _ in B]
    full, rest = divmod(n, b)
    want = [b] * full + ([rest] if rest and not dr else [])
    t.true("batch sizes", sizes == want, got=sizes, want=want)
    t.true("advertised number of batches", len(L) == len(B), got=len(L), want=len(B))
    rows = []
    for a, c in B:
        a, c = np_(a), np_(c)
        k = a[:, 0].astype(int)
        t.same("inputs", a, x[k])
        t.same("outputs paired", c, z[k])
        rows += k.tolist()
    t.true("no row twice", len(set(rows)) == len(rows), got=rows)
    t.true("rows delivered", len(rows) == sum(want), got=rows)
    if not sh:
        t.true("dataset order", rows == list(range(len(rows))), got=rows)
    return rows


@check(80)
def one_pass(t):
    n, x, z, D, L, b, sh, dr, seed = loader(t)
    first = run_pass(t, L, n, x, z, b, sh, dr)
    second = run_pass(t, L, n, x, z, b, sh, dr)
    if seed is not None:
        L.set_epoch(0)
        t.true("same epoch, same order", run_pass(t, L, n, x, z, b, sh, dr) == first, got=first)
        t.true("next epoch", run_pass(t, L, n, x, z, b, sh, dr) == second, got=second)


@check(40)
def indexing(t):
    n, x, z, D = labelled(t)
    b, dr = t.size("batch", 1, 6, 60), t.pick("drop", [False, True])
    L = DataLoader(D, b, shuffle=False, drop_last=dr)
    B = list(DataLoader(D, b, shuffle=False, drop_last=dr))
    t.true("length", len(L) == len(B))
    for i in range(len(B)):
        for j in (i, i - len(B)):
            t.same("batch inputs", L[j][0], B[i][0])
            t.same("batch outputs", L[j][1], B[i][1])
    t.true("slice", len(L[0 : len(B)]) == len(B))
    t.raises("out of range", IndexError, lambda: L[len(B)])
    if B:
        X, Z = collate_batches(B)
        t.same("collated inputs", X, x[: np_(X).shape[0]])
        t.same("collated outputs", Z, z[: np_(Z).shape[0]])
    t.raises("shuffled indexing", RuntimeError, lambda: DataLoader(D, b, shuffle=True)[0])
    t.raises("batch size", ValueError, lambda: DataLoader(D, 0))


@check(40)
def infinite(t):
    n, x, z, D = labelled(t)
    b, sh = t.size("batch", 1, 6, 60), t.pick("shuffle", [False, True])
    it = iter(DataLoader(D, b, shuffle=sh, infinite=True, seed=1))
    per = -(-n // b)
    for _ in range(2):
        rows = [int(k) for _ in range(per) for k in np_(next(it)[0])[:, 0]]
        t.true("each cycle delivers every row", sorted(rows) == list(range(n)), got=rows)


@check(50)
def averages(t):
    n, x, z, D, L, b, sh, dr, seed = loader(t)
    if dr and n < b:
        return
    kept = (n // b) * b if dr else n
    got = np_(L.reduce_mean(lambda a, c: gnp.mean(a, axis=0)))
    if not dr or kept == n:
        t.close("average of inputs", got, x.mean(0), 1e-9, 1e-9)
        t.close("average of outputs", L.reduce_mean(lambda a, c: gnp.mean(c, axis=0)), z.mean(0), 1e-9, 1e-9)
        t.close("scalar average", L.reduce_mean(lambda a, c: gnp.mean(a * 1.0)), x.mean(), 1e-9, 1e-9, shape=False)
    elif not sh:
        t.close("average of kept rows", got, x[:kept].mean(0), 1e-9, 1e-9)
    if not sh and not dr:
        w = np.array([float(i + 1) for i in range(-(-n // b))])
        s = np.array([min(b, n - i * b) for i in range(len(w))])
        vals = iter(w)
        t.close("row weights", L.reduce_mean(lambda a, c: gnp.asarray([next(vals)])), [(w * s).sum() / n], 1e-9)
