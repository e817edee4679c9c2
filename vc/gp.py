"""Symbolic Gaussian-process inputs: points, observations, uninterpreted kernel and mean."""
import inspect

from . import terms as T
from .arr import SArr, akeyarr, mk, nameof, sarr, toR, unI
from .core import ctx, ind, renorm, rsum
from .run import integer
from .terms import I, R, ieq, toI


def stand(f, g):
    """g in place of f, whichever way (by position or by keyword) the caller passes the arguments f declares."""
    try:
        sf, sg = inspect.signature(f), inspect.signature(g)
    except (TypeError, ValueError):
        return g
    lead = [p for p in sg.parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.default is p.empty]

    def h(*a, **k):
        try:
            sg.bind(*a, **k)
        except TypeError:
            got = {}
            for name, v in sf.bind(*a, **k).arguments.items():
                got.update(v) if sf.parameters[name].kind is inspect.Parameter.VAR_KEYWORD else got.__setitem__(name, v)
            first = [name for name in sf.parameters if name in got][: len(lead)]
            a, k = [got.pop(name) for name in first], got
        return g(*a, **k)

    h.__signature__ = sf
    return h


def rowtok(x, i):
    """(base name, row index) of row i of a point array."""
    e = toR(x.elem((i, I.var("#c"))))
    if len(e.terms) == 1:
        c, (b, ats) = next(iter(e.terms.values()))
        if c == 1 and not b and len(ats) == 1 and ats[0][1] == 1 and ats[0][0].kind == "a":
            a = ats[0][0]
            if len(a.args) == 2 and a.args[1].key() == "#c":
                return a.name, a.args[0]
    # rows of a computed array: a function of the row's symbolic content
    k = e.key()
    return nameof("row", k), I()


def kname(theta, b1, b2):
    nm = "k|%s|%s|%s" % (theta, b1, b2)
    if b1 == b2:
        T.SYM2.add(nm)
    return nm


def kelem(theta, x, i, y, j):
    (b1, r1), (b2, r2) = rowtok(x, i), rowtok(y, j)
    if b2 < b1:
        (b1, r1), (b2, r2) = (b2, r2), (b1, r1)
    return R.arr(kname(theta, b1, b2), r1, r2)


def thetakey(p):
    if p is None:
        return "None"
    p = sarr(p)
    if len(p.shp) == 1 and not p.shp[0].t:
        # a parameter vector of known length is identified by its entries
        return nameof("th", "|".join(renorm(toR(p.elem((I((), i),)))).key() for i in range(p.shp[0].c)))
    return nameof("th", akeyarr(p))


class Kernel:
    """An arbitrary symmetric kernel k_theta(x, y), no noise term."""

    __name__ = "kernel"

    def __init__(self, nugget=False):
        self.calls = []
        self.nugget = nugget

    def __call__(self, x, y, covparam, pairwise=False):
        x = sarr(x)
        th = thetakey(covparam)
        self.calls.append((th, pairwise))
        same = y is None or y is x
        y = x if y is None else sarr(y)
        if len(x.shp) != 2 or len(y.shp) != 2:
            raise ValueError("points must be 2d")
        nug = R.arr("nugget|" + th) if (self.nugget and same) else None
        if pairwise:
            n = x.shp[0]
            if n.key() != y.shp[0].key() and not ctx().branch(ieq(n, y.shp[0])):
                raise ValueError("pairwise: row counts differ")
            return SArr((n,), lambda ix: kelem(th, x, ix[0], y, ix[0]) + (nug if nug is not None else R.num(0)), "f")
        return SArr(
            (x.shp[0], y.shp[0]),
            lambda ix: kelem(th, x, ix[0], y, ix[1]) + (nug * ind(ieq(ix[0], ix[1])) if nug is not None else R.num(0)), "f",
        )


class MeanFn:
    """An arbitrary mean basis x -> (m_1(x), ..., m_q(x)); q may be symbolic."""

    __name__ = "mean"

    def __init__(self, q):
        self.q = toI(q)

    def __call__(self, x, param):
        x = sarr(x)
        th = thetakey(param)

        def get(ix):
            b, r = rowtok(x, ix[0])
            return R.arr("p|%s|%s" % (th, b), r, ix[1])

        return SArr((x.shp[0], self.q), get, "f")


def points(name, n, d):
    return mk(name, (n, d))


def vector(name, n):
    return mk(name, (n,))


def dot(n, f):
    return rsum(toI(n), f)


def fn(shape, f):
    """Array given by an element function of SInt-free indices."""
    return SArr(shape, lambda ix: f(*ix), "f")
