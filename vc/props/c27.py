"""Labelled tables: one operation from an arbitrary table (C27)."""
import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx
from ..terms import I

FUNCTIONS = ["misc.dataframe.DataFrame." + f for f in ("__init__", "__getitem__", "__setitem__", "append_row", "append_col", "concat")]
SIZES = [(r, c) for r in (1, 2, 3) for c in (1, 2, 3)]


def cell(x, i, j):
    return toR(x.elem((I((), i), I((), j))))


def table(r, c, tag=""):
    """A table with r rows and c columns and arbitrary cells."""
    from gpmp.misc.dataframe import DataFrame

    ctx().ghost["bounded"] = 3
    x = gp.mk("x" + tag, (r, c))
    R_, C = ["r%s%d" % (tag, k) for k in range(r)], ["c%s%d" % (tag, k) for k in range(c)]
    return DataFrame(x, C, R_), x, R_, C


def is_table(name, df, cells, R_, C):
    run.true(name + "-names", list(df.rownames) == list(R_) and list(df.colnames) == list(C), "%s %s" % (df.rownames, df.colnames))
    run.same_shape(name, sarr(df.data), (I((), len(R_)), I((), len(C))))
    for i in range(len(R_)):
        for j in range(len(C)):
            run.eq(name + "-cell", sreal(cell(sarr(df.data), i, j)), sreal(cells(i, j)))


def keys(R_, C):
    S = [slice(None), slice(1, None), slice(None, -1), slice(0, 1), slice(None, None, -1), slice(1, 1)]
    r, c = list(range(len(R_))), list(range(len(C)))
    for i in r:
        yield R_[i], [i], c
    for j in c:
        yield C[j], r, [j]
    for i, j in itertools.product(r, c):
        yield (R_[i], C[j]), [i], [j]
    for s in S:
        for j in c:
            yield (s, C[j]), r[s], [j]
        for i in r:
            yield (R_[i], s), [i], c[s]
        for u in S:
            yield (s, u), r[s], c[u]


def point(key):
    return isinstance(key, tuple) and not any(isinstance(k, slice) for k in key)


def select(r, c):
    def task():
        df, x, R_, C = table(r, c)
        for key, ri, ci in keys(R_, C):
            got = df[key]
            if point(key):
                run.eq("cell", sreal(toR(got)), sreal(cell(x, ri[0], ci[0])))
                continue
            is_table("selection", got, lambda i, j: cell(x, ri[i], ci[j]), [R_[i] for i in ri], [C[j] for j in ci])
        is_table("table-unchanged", df, lambda i, j: cell(x, i, j), R_, C)
        run.true("argument-unmodified", x.buf.ver == 0)

    task.__name__ = "select_%dx%d" % (r, c)
    return task


def assign(r, c):
    def task():
        for how in ("number", "array"):
            for key, ri, ci in list(keys(["r%d" % k for k in range(r)], ["c%d" % k for k in range(c)])):
                df, x, R_, C = table(r, c)
                if how == "number" or point(key):
                    v = run.real("v")
                    val = lambda i, j: toR(v)
                elif not ri or not ci:
                    continue
                else:
                    flat = isinstance(key, str) or not all(isinstance(k, slice) for k in key)
                    v = gp.mk("w", (len(ri) * len(ci),) if flat else (len(ri), len(ci)))
                    val = lambda i, j: toR(v.elem((I((), max(ri.index(i), ci.index(j))),)) if flat else v.elem((I((), ri.index(i)), I((), ci.index(j)))))
                df[key] = v
                is_table("assigned", df, lambda i, j: val(i, j) if i in ri and j in ci else cell(x, i, j), R_, C)
                run.true("argument-unmodified", x.buf.ver == 0)

    task.__name__ = "assign_%dx%d" % (r, c)
    return task


def grow(r, c):
    def task():
        df, x, R_, C = table(r, c)
        v = gp.mk("v", (c,))
        df.append_row(v, "new")
        is_table("row-appended", df, lambda i, j: cell(x, i, j) if i < r else toR(v.elem((I((), j),))), R_ + ["new"] if len(R_) == r else R_, C)
        run.true("names-of-the-caller", len(R_) == r and len(C) == c)
        df, x, R_, C = table(r, c)
        w = gp.mk("w", (r,))
        df.append_col(w, "new")
        is_table("column-appended", df, lambda i, j: cell(x, i, j) if j < c else toR(w.elem((I((), i),))), R_, C + ["new"] if len(C) == c else C)
        run.true("names-of-the-caller", len(R_) == r and len(C) == c)

    task.__name__ = "append_%dx%d" % (r, c)
    return task


def concat(r, c):
    def task():
        from gpmp.misc.dataframe import DataFrame

        for k in (1, 2):
            df, x, R_, C = table(r, c)
            y, S = gp.mk("y", (k, c)), (["s0", "r0"] if k == 2 else ["s0"])
            both = df.concat(DataFrame(y, list(C), S))
            is_table("below", both, lambda i, j: cell(x, i, j) if i < r else cell(y, i - r, j), R_ + S, C)
            both.append_col(gp.mk("z", (r + k,)), "later")
            is_table("parts-unchanged", df, lambda i, j: cell(x, i, j), ["r%d" % q for q in range(r)], ["c%d" % q for q in range(c)])
            df, x, R_, C = table(r, c)
            y, S = gp.mk("y", (r, k)), (["c0", "s0"] if k == 2 else ["s0"])
            both = df.concat(DataFrame(y, S, list(R_)), axis=1)
            is_table("beside", both, lambda i, j: cell(x, i, j) if j < c else cell(y, i, j - c), R_, C + S)
            both.append_row(gp.mk("z", (c + k,)), "later")
            is_table("parts-unchanged", df, lambda i, j: cell(x, i, j), ["r%d" % q for q in range(r)], ["c%d" % q for q in range(c)])
        df, x, R_, C = table(r, c)
        for other, axis in ((table(1, c, "o")[0], 0), (table(r, 1, "o")[0], 1)):
            try:
                df.concat(other, axis=axis)
                run.true("other-names-refused", False)
            except ValueError:
                run.true("other-names-refused", True)

    task.__name__ = "concat_%dx%d" % (r, c)
    return task


def unknown():
    df, x, R_, C = table(2, 2)
    try:
        df["nothing"]
        run.true("unknown-name-refused", False)
    except KeyError:
        run.true("unknown-name-refused", True)
    try:
        df["nothing"] = 0.0
        run.true("unknown-name-refused", False)
    except KeyError:
        run.true("unknown-name-refused", True)
    is_table("unchanged", df, lambda i, j: cell(x, i, j), R_, C)


TASKS = [f(*s) for f in (select, assign, grow, concat) for s in SIZES] + [unknown]
