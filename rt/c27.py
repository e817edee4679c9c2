"""Tables against a plain dictionary of cells, over histories of selections and updates."""
import numpy as np

from gpmp.misc.dataframe import DataFrame

from .core import check


def slice_(rng, n):
    k = int(rng.integers(5))
    if k == 0:
        return slice(None)
    a, b = sorted(int(v) for v in rng.integers(0, n + 1, size=2))
    return [slice(a, b), slice(a, None), slice(None, b), slice(None, None, 2)][k - 1]


def key_(rng, R, C):
    """A key and the rows and columns it addresses."""
    kind = int(rng.integers(6))
    i, j = R.index(R[rng.integers(len(R))]), C.index(C[rng.integers(len(C))])  # a repeated name means its first place
    if kind == 0:
        return R[i], [i], list(range(len(C)))
    if kind == 1:
        return C[j], list(range(len(R))), [j]
    if kind == 2:
        return (R[i], C[j]), [i], [j]
    s, u = slice_(rng, len(R)), slice_(rng, len(C))
    if kind == 3:
        return (s, C[j]), list(range(len(R)))[s], [j]
    if kind == 4:
        return (R[i], u), [i], list(range(len(C)))[u]
    return (s, u), list(range(len(R)))[s], list(range(len(C)))[u]


def fresh(rng, names, new):
    """Mostly a new name, sometimes one that is in use."""
    return names[rng.integers(len(names))] if rng.integers(4) == 0 else new


def same(t, what, df, cells, R, C):
    t.true(what + ": names", list(df.rownames) == list(R) and list(df.colnames) == list(C), rows=list(df.rownames), cols=list(df.colnames), want=[list(R), list(C)])
    t.shape(what + ": cells", df.data, (len(R), len(C)))
    t.same(what + ": cells", np.asarray(df.data), np.asarray(cells, dtype=float).reshape(len(R), len(C)))


@check(150)
def histories(t):
    rng = t.rng
    r, c = t.size("rows", 1, 4), t.size("cols", 1, 4, 14)
    R, C = ["r%d" % k for k in range(r)], ["c%d" % k for k in range(c)]
    M = rng.normal(size=(r, c))
    names = list(R), list(C)
    df = DataFrame(M.copy(), names[1], names[0])
    others = []
    log = []
    for step in range(t.size("steps", 1, 8, 40)):
        op = ["get", "get", "set", "row", "col", "cat0", "cat1", "refuse"][int(rng.integers(8))]
        log.append(op)
        t.put(history=log)
        if op == "get":
            key, ri, ci = key_(rng, R, C)
            log[-1] = "get %r" % (key,)
            got = df[key]
            sub = M[np.ix_(ri, ci)]
            if isinstance(key, tuple) and not any(isinstance(k, slice) for k in key):
                t.same("cell", float(got), float(sub[0, 0]))
            else:
                same(t, "selection", got, sub, [R[i] for i in ri], [C[j] for j in ci])
                others.append((got, sub.copy(), [R[i] for i in ri], [C[j] for j in ci]))
        elif op == "set":
            key, ri, ci = key_(rng, R, C)
            log[-1] = "set %r" % (key,)
            if isinstance(key, tuple) and not any(isinstance(k, slice) for k in key) or rng.integers(2):
                v = float(rng.normal())
                M[np.ix_(ri, ci)] = v
            else:
                v = rng.normal(size=(len(ri), len(ci)))
                M[np.ix_(ri, ci)] = v
                if isinstance(key, str) or not all(isinstance(k, slice) for k in key):
                    v = v.reshape(-1)
            df[key] = v
        elif op == "row":
            v = rng.normal(size=len(C))
            new = fresh(rng, R, "r%d+" % step)
            df.append_row(v, new)
            M, R = np.vstack([M, v]), R + [new]
        elif op == "col":
            v = rng.normal(size=len(R))
            new = fresh(rng, C, "c%d+" % step)
            df.append_col(v, new)
            M, C = np.hstack([M, v[:, None]]), C + [new]
        elif op in ("cat0", "cat1"):
            k = int(rng.integers(1, 3))
            if op == "cat0":
                W, Rn, Cn = rng.normal(size=(k, len(C))), [fresh(rng, R, "r%d_%d" % (step, q)) for q in range(k)], C
                new = df.concat(DataFrame(W, list(Cn), Rn))
                N, R2, C2 = np.vstack([M, W]), R + Rn, C
            else:
                W, Rn, Cn = rng.normal(size=(len(R), k)), R, [fresh(rng, C, "c%d_%d" % (step, q)) for q in range(k)]
                new = df.concat(DataFrame(W, Cn, list(Rn)), axis=1)
                N, R2, C2 = np.hstack([M, W]), R, C + Cn
            same(t, "concatenation", new, N, R2, C2)
            if rng.integers(2):
                others.append((df, M.copy(), list(R), list(C)))
                df, M, R, C = new, N, R2, C2
            else:
                others.append((new, N.copy(), list(R2), list(C2)))
        else:
            t.raises("unknown name", KeyError, lambda: df["no such name"])
            W = DataFrame(rng.normal(size=(1, len(C))), ["x" + k for k in C], ["new"])
            t.raises("other columns", ValueError, lambda: df.concat(W))
        same(t, "table", df, M, R, C)
        for o in others:
            same(t, "another table", *o)
    t.true("names given by the caller unchanged", names == (["r%d" % k for k in range(r)], ["c%d" % k for k in range(c)]), names=names)


@check(40)
def shown(t):
    r, c = t.size("rows", 1, 4), t.size("cols", 1, 4, 14)
    M = t.rng.normal(size=(r, c)) * 10.0 ** t.rng.integers(-4, 5, size=(r, c))
    if t.pick("special", [False, True]):
        M[0, 0] = [0.0, np.inf, -np.inf][int(t.rng.integers(3))]
    t.put(M=M)
    R, C = ["r%d" % k for k in range(r)], ["c%d" % k for k in range(c)]
    lines = repr(DataFrame(M, C, R)).split("\n")
    t.true("header", len(lines) == r + 1 and lines[0].split() == C, lines=lines)
    for i in range(r):
        w = lines[i + 1].split()
        t.true("row name", w[0] == R[i] + ":", line=lines[i + 1])
        v = np.array([float(x.replace("Inf", "inf")) for x in w[1:]])
        t.close("values", v, M[i], 6e-3, 0)
