"""Assumed contracts of the external libraries seen by gpmp: numpy, scipy, torch, math.

Everything here is trusted (external functions); everything under /repo/gpmp is executed.
Anything not described here raises Unsupported when reached with symbolic data.
"""
import math as _math
import types
from statistics import StatisticsError as _StatError

import numpy as np

from . import arr as A
from . import core, la
from . import terms as T
from .arr import SArr, SBool, SInt, Sym, akeyarr, binop, broadcast_to, cmpop, mk, nameof, sarr, scalar, sreal, toB, toR, unary, unI, wrapB
from .core import ctx, ind, scope, rabs, rexp, rfn, rgammaln, rinv, rlog, rmax, rmin, rpow, rsqrt, rsum
from .terms import B, FALSE, I, ONE, R, TRUE, Unsupported, ZERO, band, bnot, bor, fresh_uid, ieq, ile, ilt, req0, rle0, rlt0, toI


class ndarray:
    pass


class Tensor:
    pass


class npgeneric:
    pass


class npfloating(npgeneric):
    pass


class npinteger(npgeneric):
    pass


def torch_mode():
    return ctx().ghost.get("backend") == "torch"


def issym(x):
    if isinstance(x, (Sym, R, I)):
        return True
    if isinstance(x, (list, tuple)):
        return any(issym(e) for e in x)
    if isinstance(x, dict):
        return any(issym(e) for e in x.values())
    from .instr import SymList, SRange

    return isinstance(x, (SymList, SRange))


def tonp(x):
    """Concrete value of a constant symbolic object; Unsupported otherwise."""
    if isinstance(x, SArr):
        if any(s.const is None for s in x.shp):
            raise Unsupported("symbolic array where a constant is required")
        shp = tuple(s.const for s in x.shp)
        out = np.empty(shp, dtype={"f": float, "i": int, "b": bool}[x.kind])
        for ix in np.ndindex(*shp):
            e = x.elem(ix)
            if isinstance(e, R):
                c = e.const
                if c is None:
                    raise Unsupported("symbolic array where a constant is required")
                out[ix] = float(c)
            elif isinstance(e, I):
                if e.const is None:
                    raise Unsupported("symbolic integer where a constant is required")
                out[ix] = e.const
            else:
                d = ctx().decide(e)
                if d is None:
                    raise Unsupported("symbolic truth value where a constant is required")
                out[ix] = d
        return out
    if isinstance(x, SInt):
        raise Unsupported("symbolic integer where a constant is required")
    if isinstance(x, SBool):
        raise Unsupported("symbolic truth value where a constant is required")
    if isinstance(x, list):
        return [tonp(e) for e in x]
    if isinstance(x, tuple):
        return tuple(tonp(e) for e in x)
    if isinstance(x, dict):
        return {k: tonp(v) for k, v in x.items()}
    return x


def fromnp(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in "fiub":
            return x
        return sarr(x)
    if isinstance(x, (np.floating,)):
        return sreal(toR(float(x)))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, tuple):
        return tuple(fromnp(e) for e in x)
    if isinstance(x, list):
        return [fromnp(e) for e in x]
    return x


def concrete(f):
    def g(*a, **k):
        try:
            a2, k2 = tonp(tuple(a)), tonp(dict(k))
        except Unsupported as e:
            raise Unsupported("external %s on symbolic data" % getattr(f, "__name__", f))
        return fromnp(f(*a2, **k2))

    g.__name__ = getattr(f, "__name__", "f")
    return g


class NS(types.ModuleType):
    """Facade module; unknown attributes fall back to the real module on constants."""

    def __init__(self, name, real=None, **kw):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(kw)
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = self.__dict__.get("_real")
        if real is None:
            nm = self.__name__ + "." + n

            def f(*a, **k):
                raise Unsupported("external function %s has no contract" % nm)

            f.__name__ = n
            return f
        v = getattr(real, n)
        if isinstance(v, types.ModuleType):
            return NS(v.__name__, v)
        if isinstance(v, type) or not callable(v):
            return v
        return concrete(v)


class Stub(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        nm = self.__name__ + "." + n

        def f(*a, **k):
            raise Unsupported("stubbed %s" % nm)

        return f


# ------------------------------------------------------------------ tags
def tag(a, **m):
    if isinstance(a, SArr):
        r = SArr(a.shp, buf=a.buf, view=a.vw, dtype=a.kind)
        r.segs = a.segs
        r.meta = dict(a.meta or {}, **m)
        for k in [k for k, v in r.meta.items() if v is None]:
            del r.meta[k]
        return r
    return a


# ------------------------------------------------------------------ common functions
def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(dimI(x) for x in s)
    if isinstance(s, SArr) and s.shp:
        return tuple(dimI(x) for x in s.tolist())
    return (dimI(s),)


def dimI(x):
    if isinstance(x, SArr):
        x = x.item()
    i = toI(x)
    if i.const is not None:
        if i.const < 0:
            raise ValueError("negative dimensions are not allowed")
    elif not ctx().branch(ile(I(), i)):
        raise ValueError("negative dimensions are not allowed")
    return i


def cval(v, dt):
    k = A.dtkind(dt)
    e = sarr(v)
    if k is None:
        k = e.kind
    return e, k


def full(shape, v, dtype=None, **kw):
    shape = shape_of(shape)
    e = sarr(v)
    k = A.dtkind(dtype) or e.kind
    if e.shp:
        return A.astype(broadcast_to(e, tuple(unI(s) for s in shape)), k)
    x = A.conv_kind(e.elem(()), k) if k != e.kind else e.elem(())
    return SArr(shape, lambda ix: x, k)


def zeros(*shape, dtype=None, **kw):
    shape = shape[0] if len(shape) == 1 else shape
    k = A.dtkind(dtype) or "f"
    return SArr(shape_of(shape), lambda ix: ZERO if k == "f" else I() if k == "i" else FALSE, k)


def ones(*shape, dtype=None, **kw):
    shape = shape[0] if len(shape) == 1 else shape
    k = A.dtkind(dtype) or "f"
    return SArr(shape_of(shape), lambda ix: ONE if k == "f" else I((), 1) if k == "i" else TRUE, k)


_ec = [0]


def empty(*shape, dtype=None, **kw):
    shape = shape[0] if len(shape) == 1 else shape
    k = A.dtkind(dtype) or "f"
    c = ctx()
    n = c.ghost["empty"] = c.ghost.get("empty", 0) + 1
    return mk("uninit#%d" % n, shape_of(shape), k)


def like(f):
    def g(x, *a, dtype=None, **kw):
        x = sarr(x)
        return f(tuple(unI(s) for s in x.shp), *a, dtype=dtype if dtype is not None else x.kind, **kw)

    return g


def full_like(x, v, dtype=None, **kw):
    x = sarr(x)
    return full(tuple(unI(s) for s in x.shp), v, dtype=dtype if dtype is not None else x.kind)


def eye(n, M=None, k=0, dtype=None, m=None, **kw):
    M = m if M is None else M
    n = dimI(n)
    mm = n if M is None else dimI(M)
    kk = A.dtkind(dtype) or "f"
    ki = toI(k)

    def get(ix):
        b = ieq(ix[0].add(ki), ix[1])
        if kk == "f":
            return ind(b)
        if kk == "b":
            return b
        return A.iite(b, I((), 1), I())

    return SArr((n, mm), get, kk)


def arange(*a, dtype=None, **kw):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if any(isinstance(x, float) for x in (lo, hi, st)) or any(isinstance(x, SArr) and x.kind == "f" for x in (lo, hi, st)):
        return concrete(np.arange)(lo, hi, st)
    lo, hi, st = [toI(x.item() if isinstance(x, SArr) else x) for x in (lo, hi, st)]
    d = hi.add(lo, -1)
    if not ctx().branch(ilt(I(), d)) if d.const is None else d.const <= 0:
        n = I()
    elif st.const == 1:
        n = d
    else:
        n = A.ifloordiv(d.add(st).add(I((), -1)), st)
    k = A.dtkind(dtype) or "i"
    r = SArr((n,), lambda ix: lo.add(ix[0].mul(st)), "i")
    return A.astype(r, k) if k != "i" else r


def np_asarray(x, dtype=None, copy=None, **kw):
    if isinstance(x, SArr):
        r = x
        if dtype is not None and A.dtkind(dtype) != x.kind:
            r = A.astype(x, dtype)
        if not r.shp:
            r = tag(r, nd0=1, py=None)
        elif r.meta and r.meta.get("py"):
            r = tag(r, py=None)
        return r
    if isinstance(x, (list, tuple)) and any(hasattr(e, "__array_facade__") for e in x):
        raise Unsupported("asarray of objects")
    if hasattr(x, "__array_facade__"):
        return x.__array_facade__()
    r = sarr(x)
    if dtype is not None:
        r = A.astype(r, dtype)
    if not r.shp:
        r = tag(r, nd0=1, py=None)
    return r


def np_array(x, dtype=None, copy=True, **kw):
    r = np_asarray(x, dtype)
    if isinstance(x, SArr):
        m = r.meta
        r = r.copy()
        r.meta = m
    return r


def t_items(x):
    """Tensors inside a list stand for numbers: they must have a single element."""
    if isinstance(x, (list, tuple)):
        return [t_items(e) for e in x]
    if isinstance(x, SArr) and x.shp:
        if any(not ctx().branch(ieq(s, I((), 1))) for s in x.shp):
            raise ValueError("only one element tensors can be converted to Python scalars")
        return A.reshape(x, ())
    return x


def t_tensor(x, dtype=None, **kw):
    if isinstance(x, SArr):
        r = x.copy()
    else:
        r = sarr(t_items(x))
    if dtype is not None:
        r = A.astype(r, dtype)
    return tag(r, py=None, np=None, nd0=None)


def t_as_tensor(x, dtype=None, **kw):
    r = sarr(t_items(x) if isinstance(x, (list, tuple)) else x)
    if dtype is not None and A.dtkind(dtype) != r.kind:
        r = A.astype(r, dtype)
    return tag(r, py=None, np=None, nd0=None) if r.meta else r


def u(f, name=None, dt="f"):
    def g(x, out=None, **kw):
        r = unary(sarr(x), f, dt)
        return r

    return g


def rfnu(name):
    return u(lambda r: rfn(name, r))


LN10 = None


def rlog10(r):
    return rlog(r) * rinv(rlog(R.num(10)))


def rlog2(r):
    return rlog(r) * rinv(rlog(R.num(2)))


def rlog1p(r):
    return rlog(ONE + r)


def rexpm1(r):
    return rexp(r) - ONE


def rtanh(r):
    return rfn("tanh", r)


def rfloor_f(r):
    from .arr import rfloor

    f = rfloor(r)
    return f if isinstance(f, R) else toR(f)


def rceil_f(r):
    from .arr import rceil

    f = rceil(r)
    return f if isinstance(f, R) else toR(f)


def rsignf(r):
    return ind(rlt0(r.neg())) - ind(rlt0(r))


def b2(f):
    def g(a, b, **kw):
        return binop(a, b, f)

    return g


def maximum(a, b, **kw):
    a, b = sarr(a), sarr(b)
    if a.kind == "i" and b.kind == "i":
        return A.intop(a, b, A.imax, rmax)
    return binop(a, b, rmax)


def minimum(a, b, **kw):
    a, b = sarr(a), sarr(b)
    if a.kind == "i" and b.kind == "i":
        return A.intop(a, b, A.imin, rmin)
    return binop(a, b, rmin)


def clip(x, a_min=None, a_max=None, min=None, max=None, out=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = sarr(x)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def isfinite(x, **kw):
    if torch_mode() and not isinstance(x, SArr):
        raise TypeError("isfinite(): argument 'input' must be Tensor")
    x = sarr(x)
    if x.kind != "f":
        return A.ret_b(SArr(x.shp, lambda ix: TRUE, "b"))
    g = x.reader()
    return SArr(x.shp, lambda ix: finite_cond(toR(g(ix))), "b")


def finite_cond(r):
    """Finiteness of a real term: only the tagged non-finite symbols can be non-finite."""
    q = T.infcase(r, "nan")
    if q is not None:
        return bor(band(q[0], finite_cond(q[1])), band(bnot(q[0]), finite_cond(q[2])))
    if T._infsign(r) is not None or A.isnan(r):
        return FALSE
    q = T.infcase(r)
    if q is not None:
        return bor(band(q[0], finite_cond(q[1])), band(bnot(q[0]), finite_cond(q[2])))
    h = ctx().ghost.get("finite_hook")
    if h is not None:
        return h(r)
    return TRUE


def isnan(x, **kw):
    x = sarr(x)
    g = x.reader()
    h = ctx().ghost.get("nan_hook")

    def get(ix):
        r = toR(g(ix))
        b = A.nancond(r)
        if b.op == "T" or h is None:
            return b
        return bor(b, h(r))

    return SArr(x.shp, get, "b")


def isinf(x, **kw):
    x = sarr(x)
    g = x.reader()
    h = ctx().ghost.get("inf_hook")

    def get(ix):
        r = toR(g(ix))
        if T._infsign(r) is not None:
            return TRUE
        return FALSE if h is None else h(r)

    return SArr(x.shp, get, "b")


def nan_to_num(x, *a, **kw):
    if ctx().ghost.get("nan_hook"):
        raise Unsupported("nan_to_num with non-finite data")
    x = sarr(x)
    return x.copy() if kw.get("copy", True) else x


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    a, b = sarr(a), sarr(b)
    return rabs_arr(a - b) <= (atol + rtol * rabs_arr(b))


def rabs_arr(a):
    return unary(a, rabs)


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return A.reduce_all(isclose(a, b, rtol, atol))


def array_equal(a, b, **kw):
    a, b = sarr(a), sarr(b)
    if len(a.shp) != len(b.shp):
        return False
    for s, t in zip(a.shp, b.shp):
        if s.key() != t.key() and not ctx().branch(ieq(s, t)):
            return False
    r = A.reduce_all(a == b)
    return bool(r)


def red(f):
    def g(x, axis=None, keepdims=False, dim=None, keepdim=False, dtype=None, out=None, **kw):
        return scal0(f(sarr(x), dim if dim is not None else axis, keepdims or keepdim))

    return g


def scal0(a):
    return a


def r_all(x, axis=None, dim=None, keepdims=False, keepdim=False, **kw):
    return A.reduce_all(sarr(x), dim if dim is not None else axis)


def r_any(x, axis=None, dim=None, **kw):
    return A.bnot_arr(A.reduce_all(A.bnot_arr(boolarr(x)), dim if dim is not None else axis))


def boolarr(x):
    x = sarr(x)
    return x if x.kind == "b" else A.imap(x, A.eB, "b")


def np_var(x, axis=None, ddof=0, keepdims=False, correction=None, **kw):
    return A.reduce_var(x, axis, ddof if correction is None else correction, keepdims)


def np_std(x, axis=None, ddof=0, keepdims=False, correction=None, **kw):
    return unary(np_var(x, axis, ddof, keepdims, correction), rsqrt)


def t_var(x, dim=None, correction=1, keepdim=False, unbiased=None, **kw):
    if unbiased is not None:
        correction = 1 if unbiased else 0
    return A.reduce_var(x, dim, correction, keepdim)


def t_std(x, dim=None, correction=1, keepdim=False, unbiased=None, **kw):
    return unary(t_var(x, dim, correction, keepdim, unbiased), rsqrt)


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, correction=None, **kw):
    if fweights is not None or aweights is not None:
        raise Unsupported("cov weights")
    # a vector is one variable, whatever rowvar says
    rows = [v.reshape(1, -1) if len(v.shp) == 1 else v if rowvar else v.T for v in (sarr(m), *([] if y is None else [sarr(y)]))]
    m = rows[0] if len(rows) == 1 else concatenate(rows, axis=0)
    if correction is not None:
        ddof = correction
    if ddof is None:
        ddof = 0 if bias else 1
    n = m.shp[1]
    dv = m - A.reduce_mean(m, 1, True)
    r = A.matmul(dv, dv.T) / unI(n.add(toI(ddof), -1))
    return r.reshape(()) if r.shp[0].const == 1 else r


def prod(x, axis=None, **kw):
    x = sarr(x)
    ax = A.axes_of(x, axis)
    if any(x.shp[d].const is None for d in ax):
        # opaque product with congruence
        if len(ax) != 1:
            raise Unsupported("symbolic product")
        d = ax[0]
        g, nd, n = x.reader(), len(x.shp), x.shp[d]

        def get(ix):
            from .core import scope

            uu = T.fresh_uid()
            with scope((uu, I(), n)):
                e = toR(g(A._full(nd, ax, False, ix, [I.bv(uu)])))
            return R.atom(T.Atom("red", "Rprod", (T.Bind(uu, n, e),)))

        return SArr(A.reduce_shape(x, ax, False), get, "f")
    import itertools

    g, nd = x.reader(), len(x.shp)

    def get(ix):
        r = I((), 1) if x.kind == "i" else ONE
        for rr in itertools.product(*[range(x.shp[d].const) for d in ax]):
            e = g(A._full(nd, ax, False, ix, [I((), v) for v in rr]))
            r = r.mul(e) if x.kind == "i" else r * toR(e)
        return r

    return SArr(A.reduce_shape(x, ax, False), get, "i" if x.kind == "i" else "f")


def diff(x, n=1, axis=-1, dim=None, **kw):
    x = sarr(x)
    d = (dim if dim is not None else axis) % len(x.shp)
    if n != 1:
        raise Unsupported("diff order")
    k1 = tuple(slice(1, None) if i == d else slice(None) for i in range(len(x.shp)))
    k0 = tuple(slice(None, -1) if i == d else slice(None) for i in range(len(x.shp)))
    return x[k1] - x[k0]


def trace(x, **kw):
    return A.reduce_sum(A.diag(sarr(x)))


def np_reshape(x, shape, **kw):
    return sarr(x).reshape(shape)


def np_transpose(x, axes=None):
    x = sarr(x)
    return x.transpose() if axes is None else x.transpose(*axes)


def expand_dims(x, axis):
    return sarr(x).unsqueeze(axis)


def squeeze(x, axis=None, dim=None):
    return sarr(x).squeeze(axis if dim is None else dim)


def atleast_1d(x):
    x = sarr(x)
    return x.reshape(1) if not x.shp else x


def atleast_2d(x):
    x = sarr(x)
    if not x.shp:
        return x.reshape(1, 1)
    return x.reshape(1, -1) if len(x.shp) == 1 else x


def vstack(xs, **kw):
    xs = list(xs)
    return A.concat([atleast_2d(x) for x in xs], 0)


def hstack(xs, **kw):
    xs = [atleast_1d(sarr(x)) for x in xs]
    return A.concat(xs, 0 if len(xs[0].shp) == 1 else 1)


def concatenate(xs, axis=0, dim=None, **kw):
    if dim is not None:
        axis = dim
    if axis is None:
        return A.concat([sarr(x).ravel() for x in xs], 0)
    if isinstance(xs, SArr):
        xs = [xs[i] for i in range(len(xs))]
    return A.concat(xs, axis)


def stack(xs, axis=0, dim=None, **kw):
    from .instr import SymList

    if dim is not None:
        axis = dim
    if isinstance(xs, SymList):
        r = xs.to_array()
        return r if axis == 0 else A.permute(r, _moveaxis(len(r.shp), 0, axis))
    return A.stack(list(xs), axis)


def _moveaxis(n, s, d):
    o = [i for i in range(n) if i != s % n]
    o.insert(d % n, s % n)
    return tuple(o)


def column_stack(xs):
    xs = [sarr(x) for x in xs]
    return A.concat([x.reshape(-1, 1) if len(x.shp) == 1 else x for x in xs], 1)


def tile(x, reps):
    x = sarr(x)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [toI(r) for r in reps]
    nd = max(len(reps), len(x.shp))
    reps = [I((), 1)] * (nd - len(reps)) + reps
    shp = (I((), 1),) * (nd - len(x.shp)) + x.shp
    k = nd - len(x.shp)
    g = x.reader()
    out = tuple(s.mul(r) for s, r in zip(shp, reps))

    def get(ix):
        o = []
        for d in range(k, nd):
            if shp[d].const == 1:
                o.append(I())
            elif reps[d].const == 1:
                o.append(ix[d])
            else:
                o.append(A.divmod_nf(ix[d], shp[d])[1])
        return g(tuple(o))

    return SArr(out, get, x.kind)


def repeat(x, n, axis=None):
    x = sarr(x)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    n = toI(n)
    g = x.reader()
    out = x.shp[:axis] + (x.shp[axis].mul(n),) + x.shp[axis + 1 :]

    def get(ix):
        q = A.divmod_nf(ix[axis], n)[0] if x.shp[axis].const != 1 else I()
        return g(ix[:axis] + (q,) + ix[axis + 1 :])

    return SArr(out, get, x.kind)


def meshgrid(*xs, indexing="xy", **kw):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    xs = [sarr(x) for x in xs]
    n = len(xs)
    shp = [x.shp[0] for x in xs]
    out = []
    for d, x in enumerate(xs):
        g = x.reader()
        order = list(range(n))
        if indexing == "xy" and n >= 2:
            order[0], order[1] = 1, 0
        oshape = tuple(shp[o] for o in order)
        pos = order.index(d)
        out.append(SArr(oshape, (lambda g, pos: lambda ix: g((ix[pos],)))(g, pos), x.kind))
    return out


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, steps=None, **kw):
    n = toI(steps if steps is not None else num)
    a, b = sarr(start), sarr(stop)
    if n.const == 1:
        d = sreal(ZERO)
    else:
        d = (b - a) / (unI(n.add(I((), -1))) if endpoint else unI(n))
    sh = A.bshape(a.shp, b.shp)
    ga, gd = a.reader(), sarr(d).reader()

    def get(ix):
        e = ix[1:]
        return toR(ga(A.bidx(a.shp, sh, e))) + toR(ix[0]) * toR(gd(A.bidx(sarr(d).shp, sh, e)))

    r = SArr((n,) + sh, get, "f")
    return (r, d) if retstep else r


def np_sum(x, axis=None, dtype=None, keepdims=False, dim=None, keepdim=False, **kw):
    from .instr import SymList

    return A.reduce_sum(boolint(x), dim if dim is not None else axis, keepdims or keepdim)


def boolint(x):
    x = sarr(x)
    return A.astype(x, "i") if x.kind == "b" and all(s.const is not None for s in x.shp) else x


def np_mean(x, axis=None, dtype=None, keepdims=False, dim=None, keepdim=False, **kw):
    return A.reduce_mean(sarr(x), dim if dim is not None else axis, keepdims or keepdim)


def np_max(x, axis=None, keepdims=False, **kw):
    return A.reduce_ext(sarr(x), "max", axis, keepdims)


def np_min(x, axis=None, keepdims=False, **kw):
    return A.reduce_ext(sarr(x), "min", axis, keepdims)


class MinMax:
    def __init__(self, values, indices=None):
        self.values, self._i = values, indices

    @property
    def indices(self):
        return self._i()

    def __iter__(self):
        return iter((self.values, self.indices))

    def __getitem__(self, k):
        return (self.values, self.indices)[k]


def t_ext(op):
    def f(x, other=None, dim=None, keepdim=False, **kw):
        if isinstance(other, SArr):
            return (maximum if op == "max" else minimum)(x, other)
        if other is not None:
            dim = other
        x = sarr(x)
        if dim is None:
            return A.reduce_ext(x, op)
        return MinMax(A.reduce_ext(x, op, dim, keepdim), lambda: A.argext(x, op, dim))

    return f


def argmax(x, axis=None, dim=None, **kw):
    return A.argext(sarr(x), "max", axis if dim is None else dim)


def argmin(x, axis=None, dim=None, **kw):
    return A.argext(sarr(x), "min", axis if dim is None else dim)


def t_norm(x, p="fro", dim=None, keepdim=False, **kw):
    if p not in (2, "fro"):
        raise Unsupported("norm order")
    return np_norm(x, None, dim, keepdim)


def np_norm(x, ord=None, axis=None, keepdims=False, dim=None, **kw):
    x = sarr(x)
    if dim is not None:
        axis = dim
    if ord == 2 and axis is None and len(x.shp) == 2:
        r = nameof("spectral", akeyarr(x))
        return SArr((), lambda ix: R.arr(r), "f")
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    return unary(A.reduce_sum(x * x, axis, keepdims), rsqrt)


def split(x, ind_or, axis=0):
    x = sarr(x)
    if isinstance(ind_or, (int, SInt)):
        raise Unsupported("split sections")
    l = ind_or.tolist() if isinstance(ind_or, SArr) else list(ind_or)
    out, prev = [], 0
    for b in list(l) + [None]:
        key = tuple(slice(prev, b) if d == axis else slice(None) for d in range(len(x.shp)))
        out.append(x[key])
        prev = b
    return out


def t_split(x, sizes, dim=0):
    x = sarr(x)
    if isinstance(sizes, (int, SInt)):
        raise Unsupported("torch.split by size")
    out, o = [], 0
    for s in sizes:
        key = tuple(slice(o, o + s) if d == dim else slice(None) for d in range(len(x.shp)))
        out.append(x[key])
        o = o + s
    if not ctx().branch(ieq(toI(o), x.shp[dim])):
        raise RuntimeError("split_with_sizes expects split_sizes to sum exactly")
    return out


def sort(x, axis=-1, **kw):
    """The entries rearranged by some permutation, in nondecreasing order."""
    from .core import ENUMS, INTHOOKS, scope

    x = sarr(x)
    if len(x.shp) != 1:
        raise Unsupported("sort along an axis")
    n = x.shp[0]
    g = x.reader()
    name = A.nameof("sortperm", A.akeyarr(x))
    ENUMS[name] = (n, n, None)
    ph = perm_hook(name, n)

    def hook(args):
        out = ph(args)
        if x.kind == "i":
            for (a,) in args:
                for (b,) in args:
                    if a.key() != b.key():
                        inr = band(ile(I(), a), ilt(a, b), ilt(b, n))
                        out.append(bor(bnot(inr), ile(g((I.fn(name, a),)), g((I.fn(name, b),)))))
        return out

    INTHOOKS[name] = hook
    ctx().assumptions.add("sort returns the entries in nondecreasing order (a rearrangement)")
    return SArr((n,), lambda ix: g((I.fn(name, ix[0]),)), x.kind)


def percentile(x, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, dim=None, keepdim=False, **kw):
    """Percentile with linear interpolation: a function of the level and of the bag of values, affine-equivariant."""
    x = sarr(x)
    if dim is not None:
        axis = dim
    q = toR(q)
    if len(x.shp) == 1:
        axis = 0
    if axis is None or not isinstance(axis, int):
        raise Unsupported("percentile over several axes")
    ax = A.axes_of(x, axis)
    g, nd, n = x.reader(), len(x.shp), x.shp[ax[0]]
    keep = keepdims or keepdim
    if not ctx().branch(ilt(I(), n)):
        raise ValueError("percentile of an empty array")
    ctx().assumptions.add("percentile depends on the level and the bag of values only and commutes with increasing affine maps")
    return SArr(A.reduce_shape(x, ax, keep), lambda ix: pct(q, n, lambda k: toR(g(A._full(nd, ax, keep, ix, [k])))), "f")


def quantile(x, q, dim=None, keepdim=False, interpolation="linear", out=None, **kw):
    if interpolation != "linear":
        raise Unsupported("quantile interpolation")
    return percentile(x, sreal(toR(q).scale(100)), axis=dim, keepdims=keepdim)


def tsort(x, dim=-1, descending=False, stable=False):
    if descending:
        raise Unsupported("descending sort")
    return types.SimpleNamespace(values=sort(x, axis=dim))


def pct(q, n, f):
    segs = []

    def seg(off, ln):
        u = T.fresh_uid()
        c = ctx()
        n0 = len(c.scopes)
        c.scopes.append((u, I(), ln))
        try:
            body = f(I.bv(u).add(off))
        except T.Split as sp:
            del c.scopes[n0:]
            if sp.uid != u:
                raise
            if c.branch(ile(sp.at, I())) or c.branch(ile(ln, sp.at)):
                return seg(off, ln)
            seg(off, sp.at)
            return seg(off.add(sp.at), ln.add(sp.at, -1))
        finally:
            del c.scopes[n0:]
        segs.append((u, ln, body))

    seg(I(), n)
    add, mul = T.ZERO, T.ONE
    if len(segs) == 1:
        u, ln, body = segs[0]
        dep = T.ZERO
        for k, (co, m) in body.terms.items():
            t = R({k: (co, m)})
            if u in t.bvs():
                dep = dep + t
            else:
                add = add + t
        if not dep.terms:
            return add
        dep, mul, sg = A.affine_pull(dep, u)
        if sg < 0:
            q = R.num(100) - q
        segs = [(u, ln, dep)]
    binds = sorted((T.Bind(u, ln, b) for u, ln, b in segs), key=lambda b: b.key())
    return add + mul * R.atom(T.Atom("red", "Rpct", (q,) + tuple(binds)))


def logical(op):
    def f(a, b, **kw):
        return A.boolop(boolarr(a), boolarr(b), band if op == "and" else bor)

    return f


def where(*a, **kw):
    return A.where(*a)


def issubdtype(dt, k):
    kd = A.dtkind(dt)
    if k is npfloating:
        return kd == "f"
    if k is npinteger:
        return kd == "i"
    nm = getattr(k, "__name__", "")
    if nm in ("number", "generic"):
        return kd in ("f", "i")
    if nm == "bool":
        return kd == "b"
    return kd == A.dtkind(k)


def isscalar(x):
    if isinstance(x, SArr):
        return not x.shp and not (x.meta and x.meta.get("nd0"))
    if isinstance(x, (SInt, SBool)):
        return True
    return np.isscalar(x)


def apply_axis(f):
    return f


def gammaln(x, **kw):
    return unary(sarr(x), rgammaln)


def cdist(x, y, metric="euclidean", **kw):
    x, y = sarr(x), sarr(y)
    if metric not in ("euclidean",):
        raise Unsupported("cdist metric")
    d = x.shp[1]
    if d.key() != y.shp[1].key() and not ctx().branch(ieq(d, y.shp[1])):
        raise ValueError("XA and XB must have the same number of columns")
    gx, gy = x.reader(), y.reader()

    def get(ix):
        def body(k):
            t = toR(gx((ix[0], k))) - toR(gy((ix[1], k)))
            return t * t

        return rsqrt(rsum(d, body))

    return SArr((x.shp[0], y.shp[0]), get, "f")


def pdist(x, metric="euclidean", **kw):
    """Distances of the pairs of rows, each pair once."""
    x = sarr(x)
    n = x.shp[0]
    if metric != "euclidean":
        raise Unsupported("pdist metric")
    D, k = cdist(x, x).reader(), n.const
    if k is not None:
        pairs = [D((I((), i), I((), j))) for i in range(k) for j in range(i + 1, k)]
        return sarr([sreal(toR(p)) for p in pairs]) if pairs else A.mk("none", (I(),))
    return ctx().ghost["pdist"](x)


class QMC:
    """scipy.stats.qmc"""

    @staticmethod
    def scale(sample, l_bounds, u_bounds, *, reverse=False):
        s, lo, hi = sarr(sample), sarr(l_bounds), sarr(u_bounds)
        gl, gh = lo.reader(), hi.reader()
        if ctx().ghost.get("box", True) and len(lo.shp) == 1 and lo.shp[0].const is not None:
            for k in range(lo.shp[0].const):
                if not ctx().branch(rlt0(toR(gl((I((), k),))) - toR(gh((I((), k),))))):
                    raise ValueError("bounds are not consistent")
        return (s - lo) / (hi - lo) if reverse else s * (hi - lo) + lo

    @staticmethod
    def discrepancy(sample, **kw):
        return ctx().ghost["discrepancy"](sarr(sample))

    class LatinHypercube:
        def __init__(self, d, *, optimization=None, **kw):
            self.d = d

        def random(self, n=1):
            return draw("uniform", shape_of((n, self.d)))


def slogdet(M):
    M = sarr(M)
    return sreal(ONE), la.logdet_spd(M)


# normal distribution
def phi(t):
    return rexp((t * t).scale(T.Fraction(-1, 2))) * rinv(rsqrt(PI() * R.num(2)))


def PI():
    T.POS.add("pi")
    return R.arr("pi")


def Phi(t):
    """Standard normal distribution function; Phi(-u) = 1 - Phi(u), Phi(quantile(q)) = q."""
    s = core.single(t)
    if s is not None and len(s[1]) == 1 and s[1][0][1] == 1 and s[1][0][0].kind == "fn" and s[1][0][0].name == "Phiinv":
        if s[0] == 1:
            return s[1][0][0].args[0]
        if s[0] == -1:
            return ONE - s[1][0][0].args[0]
    if t.const == 0:
        return R.num(T.Fraction(1, 2))
    if t.terms and t.terms[min(t.terms)][0] < 0:
        return ONE - rfn("Phi", t.neg())
    return rfn("Phi", t)


T.REBUILD["Phi"] = Phi


def Phiinv(q):
    """Standard normal quantile."""
    ctx().assumptions.add("the normal quantile inverts the normal distribution function and is positive above one half")
    r = rfn("Phiinv", q)
    h = q - R.num(T.Fraction(1, 2))
    if ctx().decide(rlt0(h.neg())) is True:
        ctx().assume(rlt0(r.neg()))
    elif ctx().decide(rlt0(h)) is True:
        ctx().assume(rlt0(r))
    return r


class StatNormal:
    """statistics.NormalDist"""

    def __init__(self, mu=0.0, sigma=1.0):
        self.mu, self.sigma = sarr(mu), sarr(sigma)

    def _py(self, r):
        r = sarr(r)
        r.meta = {"py": 1}
        return r

    def inv_cdf(self, p):
        q = toR(p)
        if ctx().branch(T.rle0(q)) or ctx().branch(T.rle0(ONE - q)):
            raise _StatError("p must be in the range 0.0 < p < 1.0")
        return self._py(self.mu + self.sigma * sreal(Phiinv(q)))

    def cdf(self, x):
        return self._py(sreal(Phi(toR((sarr(x) - self.mu) / self.sigma))))

    def pdf(self, x):
        return self._py(sreal(phi(toR((sarr(x) - self.mu) / self.sigma))) / self.sigma)





def pib(x):
    return toR(x)


class NormalDist:
    """scipy.stats.norm"""

    @staticmethod
    def _t(x, loc, scale):
        return (sarr(x) - loc) / scale

    @staticmethod
    def cdf(x, loc=0.0, scale=1.0):
        return unary(NormalDist._t(x, loc, scale), Phi)

    @staticmethod
    def sf(x, loc=0.0, scale=1.0):
        return unary(NormalDist._t(x, loc, scale), lambda t: ONE - Phi(t))

    @staticmethod
    def logcdf(x, loc=0.0, scale=1.0):
        return unary(NormalDist._t(x, loc, scale), lambda t: rlog(Phi(t)))

    @staticmethod
    def pdf(x, loc=0.0, scale=1.0):
        return unary(NormalDist._t(x, loc, scale), phi) / scale

    @staticmethod
    def logpdf(x, loc=0.0, scale=1.0):
        t = NormalDist._t(x, loc, scale)
        return (
            unary(t, lambda t: (t * t).scale(T.Fraction(-1, 2)) - rlog(PI() * R.num(2)).scale(T.Fraction(1, 2)))
            - unary(sarr(scale), rlog)
        )

    @staticmethod
    def ppf(q, loc=0.0, scale=1.0):
        return unary(sarr(q), lambda t: rfn("Phiinv", t)) * scale + loc

    @staticmethod
    def rvs(loc=0.0, scale=1.0, size=1, **kw):
        return draw("normal", shape_of(size) if size is not None else ()) * scale + loc


class TNormal:
    def __init__(self, loc, scale, validate_args=None):
        self.loc, self.scale = sarr(loc), sarr(scale)

    def cdf(self, x):
        return NormalDist.cdf(x, self.loc, self.scale)

    def log_prob(self, x):
        return NormalDist.logpdf(x, self.loc, self.scale)

    def sample(self, shape=()):
        return draw("normal", shape_of(shape)) * self.scale + self.loc


# ------------------------------------------------------------------ randomness
def draw(kind, shape):
    """A fresh array of draws; the k-th request of a run is the array `kind!k`."""
    c = ctx()
    if "drawer" in c.ghost:
        got = c.ghost["drawer"](kind, tuple(shape))
        if got is not None:
            return got
    n = c.ghost.get("ndraws", 0)
    c.ghost["ndraws"] = n + 1
    name = "%s!%d" % (kind, n)
    c.ghost.setdefault("draws", []).append((kind, name, tuple(shape)))
    if kind == "uniform":
        T.NONNEG.add(name)
    return mk(name, shape)


def rint(lo, hi, shape):
    c = ctx()
    n = c.ghost.get("ndraws", 0)
    c.ghost["ndraws"] = n + 1
    name = "randint!%d" % n
    lo, hi = toI(lo), toI(hi)
    c.ghost.setdefault("draws", []).append(("randint", name, tuple(shape)))
    from .core import INTHOOKS

    INTHOOKS[name] = lambda args: [f for a in args for f in (ile(lo, I.fn(name, *a)), ilt(I.fn(name, *a), hi))]
    return mk(name, shape, "i")


def perm_hook(name, n):
    def hook(args):
        out = []
        for (x,) in args:
            px = I.fn(name, x)
            inx = band(ile(I(), x), ilt(x, n))
            out.append(bor(bnot(inx), band(ile(I(), px), ilt(px, n))))
            for (y,) in args:
                if x.key() < y.key():
                    py = I.fn(name, y)
                    out.append(bor(bnot(band(inx, ile(I(), y), ilt(y, n))), bnot(ieq(px, py)), ieq(x, y)))
        return out

    return hook


def randperm(n):
    from .core import ENUMS, INTHOOKS

    c = ctx()
    k = c.ghost.get("ndraws", 0)
    c.ghost["ndraws"] = k + 1
    n = toI(n)
    name, iname = "perm!%d" % k, "permi!%d" % k
    c.ghost.setdefault("draws", []).append(("perm", name, (n,)))
    INTHOOKS[name] = perm_hook(name, n)
    ENUMS[name] = (n, n, None)
    r = mk(name, (n,), "i")
    r.meta = {"perm": (name, iname, n)}
    return r


class RNG:
    """numpy Generator; every request returns an arbitrary array (fresh symbols)."""

    def __init__(self, seed=None):
        self.seed = seed

    def random(self, size=None, dtype=None):
        return draw("uniform", shape_of(size) if size is not None else ())

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = draw("normal", shape_of(size) if size is not None else ())
        return z * scale + loc

    def standard_normal(self, size=None, **k):
        return draw("normal", shape_of(size) if size is not None else ())

    def uniform(self, low=0.0, high=1.0, size=None):
        z = draw("uniform", shape_of(size) if size is not None else ())
        return z * (high - low) + low if not (low == 0.0 and high == 1.0) else z

    def permutation(self, x):
        if isinstance(x, (int, SInt)):
            return randperm(x)
        x = sarr(x)
        p = randperm(x.shp[0])
        return x[p]

    def integers(self, lo, hi=None, size=None, **k):
        if hi is None:
            lo, hi = 0, lo
        r = rint(lo, hi, shape_of(size) if size is not None else ())
        return r if size is not None else r.item()

    def choice(self, a, size=None, replace=True, p=None, **k):
        return choice_impl(a, size, replace, p)

    def shuffle(self, x):
        if isinstance(x, SArr):
            p = randperm(x.shp[0])
            x[...] = x.copy()[p]
            return
        raise Unsupported("shuffle of a list")


def choice_impl(a, size, replace, p):
    if isinstance(a, (int, SInt)):
        n = toI(a)
        src = None
    else:
        src = sarr(a)
        n = src.shp[0]
    shp = shape_of(size) if size is not None else ()
    ctx().ghost.setdefault("choice", []).append((n, shp, replace, p))
    if not replace:
        pm = randperm(n)
        r = pm[: unI(shp[0])] if shp else pm[0]
    else:
        r = rint(0, n, shp)
    if src is not None:
        return src[r]
    return r if size is not None else (r.item() if isinstance(r, SArr) else r)


# ------------------------------------------------------------------ numpy
def _finfo(dt=None):
    return np.finfo(np.float64)


class NDArrayAlias:
    def __getitem__(self, k):
        return ndarray


class _Seq:
    pass


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _npcopy(x, **k):
    return np_array(x)


COMMON = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, arange=arange, where=where,
    zeros_like=like(zeros), ones_like=like(ones), empty_like=like(empty), full_like=full_like,
    exp=u(rexp), log=u(rlog), sqrt=u(rsqrt), log10=u(rlog10), log2=u(rlog2), log1p=u(rlog1p), expm1=u(rexpm1),
    sin=rfnu("sin"), cos=rfnu("cos"), tan=rfnu("tan"), tanh=u(rtanh), floor=u(rfloor_f), ceil=u(rceil_f),
    abs=lambda x, **k: abs(sarr(x)), absolute=lambda x, **k: abs(sarr(x)), fabs=lambda x: abs(sarr(x)),
    sign=u(rsignf), square=lambda x, **k: sarr(x) * sarr(x),
    maximum=maximum, minimum=minimum, isfinite=isfinite, isnan=isnan, isinf=isinf, isclose=isclose,
    allclose=allclose, all=r_all, any=r_any, sum=np_sum, mean=np_mean, prod=prod, diff=diff, trace=trace,
    cumsum=lambda x, axis=None, dim=None, **k: A.cumsum(x, axis if dim is None else dim),
    argmax=argmax, argmin=argmin, einsum=A.einsum, matmul=A.matmul, diag=lambda x, **k: A.diag(x),
    reshape=np_reshape, squeeze=squeeze, hstack=hstack, vstack=vstack, stack=stack, tile=tile,
    concatenate=concatenate, meshgrid=meshgrid, linspace=linspace,
    logical_and=logical("and"), logical_or=logical("or"),
    logical_not=lambda x, **k: A.bnot_arr(boolarr(x)),
    inner=lambda a, b: A.matmul(sarr(a), sarr(b).T), finfo=_finfo,
    outer=lambda a, b: sarr(a).reshape(-1, 1) * sarr(b).reshape(1, -1),
    isin=None,
)
del COMMON["isin"]


def np_dot(a, b):
    a, b = sarr(a), sarr(b)
    if not a.shp or not b.shp:
        return a * b
    return A.matmul(a, b)


def svd_np(K, full_matrices=True, compute_uv=True, hermitian=False):
    return la.svd_sym(K)


def make_numpy():
    linalg = NS(
        "numpy.linalg", np.linalg, norm=np_norm, cholesky=la.cholesky, qr=la.qr, svd=svd_np, inv=la.inv,
        solve=la.solve, slogdet=slogdet, LinAlgError=np.linalg.LinAlgError,
    )
    random = NS(
        "numpy.random", np.random, default_rng=RNG, Generator=RNG, RandomState=RNG, rand=lambda *s: draw("uniform", shape_of(s)),
        uniform=lambda low=0.0, high=1.0, size=None: RNG().uniform(low, high, size), random=lambda size=None: RNG().random(size),
        random_sample=lambda size=None: RNG().random(size),
    )
    typing = NS("numpy.typing", None, NDArray=NDArrayAlias(), ArrayLike=object)
    m = NS(
        "numpy", np, ndarray=ndarray, generic=npgeneric, floating=npfloating, integer=npinteger,
        float64=A.DTYPES["f"], double=A.DTYPES["f"], int64=A.DTYPES["i"], bool_=A.DTYPES["b"],
        number=npgeneric, pi=None, inf=float("inf"), nan=float("nan"), newaxis=None, linalg=linalg, random=random,
        typing=typing, asarray=np_asarray, array=np_array, copy=_npcopy, ascontiguousarray=np_asarray,
        asanyarray=np_asarray,
        max=np_max, min=np_min, amax=np_max, amin=np_min, var=np_var, std=np_std, cov=np_cov, clip=clip,
        isscalar=isscalar, issubdtype=issubdtype, transpose=np_transpose, swapaxes=A.swapaxes,
        expand_dims=expand_dims, split=split, nan_to_num=nan_to_num, array_equal=array_equal, dot=np_dot,
        atleast_1d=atleast_1d, atleast_2d=atleast_2d, column_stack=column_stack, repeat=repeat,
        broadcast_to=broadcast_to, ravel=lambda x: sarr(x).reshape(-1), shape=lambda x: sarr(x).shape,
        ndim=lambda x: sarr(x).ndim, size=lambda x: sarr(x).size, errstate=errstate, sort=sort, percentile=percentile,
        iinfo=np.iinfo, fill_diagonal=fill_diagonal, **COMMON,
    )
    m.__dict__["pi"] = PIOBJ
    return m


def fill_diagonal(a, v):
    g, b = a.reader(), toR(v)
    a[...] = SArr(a.shp, lambda ix: A.kite(ieq(ix[0], ix[1]), lambda: b, lambda: toR(g(ix)), "f"), "f")


class _Pi(SArr):
    """pi as a symbolic positive constant."""

    __slots__ = ()


def _mkpi():
    T.POS.add("pi")
    r = R.arr("pi")
    p = SArr((), lambda ix: r, "f")
    p.buf.get = lambda ix: r
    p.meta = {"py": 1}
    return p


PIOBJ = _mkpi()


def minimize(fun, x0, args=(), **k):
    """Any optimiser: visits points and reports one (given by the task)."""
    f = ctx().ghost.get("minimize")
    if f is None or args:
        raise Unsupported("scipy.optimize.minimize")
    return f(fun, x0, **k)


def make_scipy():
    special = NS("scipy.special", _opt("scipy.special"), gammaln=gammaln, loggamma=gammaln,
                 ndtr=lambda x: unary(sarr(x), Phi), ndtri=lambda x: unary(sarr(x), Phiinv),
                 logsumexp=logsumexp)
    linalg = NS("scipy.linalg", _opt("scipy.linalg"), solve=la.solve, solve_triangular=la.solve_triangular,
                inv=la.inv, cholesky=lambda a, lower=False, **k: la.cholesky(a, upper=not lower), LinAlgError=np.linalg.LinAlgError,
                cho_factor=lambda a, lower=False, **k: (la.cholesky(a, upper=not lower), lower),
                cho_solve=lambda c, b, **k: t_cholesky_solve(sarr(b), c[0], upper=not c[1]))
    dist = NS("scipy.spatial.distance", _opt("scipy.spatial.distance"), cdist=cdist, pdist=pdist)
    spatial = NS("scipy.spatial", _opt("scipy.spatial"), distance=dist)
    stats = NS("scipy.stats", _opt("scipy.stats"), norm=NormalDist, multivariate_normal=MVN, qmc=QMC)
    opt = NS("scipy.optimize", _opt("scipy.optimize"), minimize=minimize)
    return NS("scipy", _opt("scipy"), special=special, linalg=linalg, spatial=spatial, stats=stats, optimize=opt)


def logsumexp(x, axis=None, **k):
    x = sarr(x)
    return unary(A.reduce_sum(unary(x, rexp), axis), rlog)


def mvn_logpdf(x, mean, cov):
    """Log-density of N(mean, cov) along the last axis; cov positive definite."""
    d = cov.shp[0]
    if len(cov.shp) != 2 or len(mean.shp) != 1 or any(ctx().decide(ieq(s, d)) is not True for s in (cov.shp[1], mean.shp[0], x.shp[-1])):
        raise Unsupported("multivariate_normal shapes")
    L = la.inv(cov).reader()
    ld = toR(sarr(la.logdet_spd(cov)).elem(()))
    m, g = mean.reader(), x.reader()
    half = T.Fraction(-1, 2)

    def get(ix):
        c = lambda k: toR(g(ix + (k,))) - toR(m((k,)))
        q = rsum(d, lambda i: rsum(d, lambda j: c(i) * toR(L((i, j))) * c(j)))
        return (q + ld + R.ofI(d) * rlog(PI() * R.num(2))).scale(half)

    return SArr(x.shp[:-1], get, "f")


class MVN:
    """scipy.stats.multivariate_normal"""

    @staticmethod
    def rvs(mean, cov, size=1):
        raise Unsupported("multivariate_normal.rvs")

    @staticmethod
    def logpdf(x, mean, cov):
        x = sarr(x)
        r = mvn_logpdf(x, sarr(mean), sarr(cov))
        if len(x.shp) == 1 or ctx().branch(ieq(x.shp[0], I((), 1))):
            return r.reshape(())
        return r

    @staticmethod
    def cdf(x, mean, cov):
        """Bivariate lower orthant probability; a single point gives a scalar."""
        x, mean, cov = sarr(x), sarr(mean), sarr(cov)
        if len(cov.shp) != 2 or cov.shp[0].const != 2 or len(mean.shp) != 1 or not x.shp or x.shp[-1].const != 2:
            raise Unsupported("multivariate_normal.cdf other than in dimension two")
        m, c, g = mean.reader(), cov.reader(), x.reader()
        sd = [rsqrt(toR(c((I((), k), I((), k))))) for k in (0, 1)]
        rho = toR(c((I(), I((), 1)))) * rinv(sd[0] * sd[1])

        def get(ix):
            return Phi2(*[(toR(g(ix + (I((), k),))) - toR(m((I((), k),)))) * rinv(sd[k]) for k in (0, 1)], rho)

        if len(x.shp) == 1 or ctx().branch(ieq(x.shp[0], I((), 1))):
            return SArr((), lambda ix: get((I(),) * (len(x.shp) - 1)), "f")
        return SArr(x.shp[:-1], get, "f")


def Phi2(h, k, rho):
    """Bivariate normal distribution function; closed form on an axis at correlation sqrt(1/2)."""
    half = T.Fraction(1, 2)
    for u, w in ((h, k), (k, h)):
        if w.const == 0:
            p = Phi(u)
            for s in (1, -1):
                if core.iszero(rho * rsqrt(R.num(2)) - R.num(s)):
                    ctx().assumptions.add("P(X <= h, Y <= 0) = Phi(h) - Phi(h)^2 / 2 for a standard normal pair with correlation sqrt(1/2)")
                    return p - (p * p).scale(half) if s > 0 else (p * p).scale(half)
    return rfn("Phi2", h, k, rho)


def _opt(n):
    import importlib

    try:
        return importlib.import_module(n)
    except Exception:
        return None


# ------------------------------------------------------------------ torch
class no_grad:
    def __call__(self, f=None):
        return f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Generator:
    def __init__(self, *a, **k):
        pass

    def manual_seed(self, s):
        return self


def _shape_args(shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        return shape_of(shape[0])
    return tuple(dimI(s) for s in shape)


def t_solve_triangular(Am, Bm, *, upper, left=True, unitriangular=False, **kw):
    if len(sarr(Bm).shp) < 2:
        raise RuntimeError("linalg.solve_triangular: The input tensor B must have at least 2 dimensions.")
    return la.solve_triangular(Am, Bm, lower=not upper, left=left, unit_diagonal=unitriangular)


def t_svd(M, full_matrices=True, **k):
    return la.svd_sym(M)


def t_cholesky_inverse(L, upper=False):
    d = la.detect(sarr(L))
    if d is None or d[0] not in la.CHOLS or d[1] != bool(upper):
        raise Unsupported("cholesky_inverse of a matrix that is not a Cholesky factor")
    return la.inv(la.CHOLS[d[0]])


def t_cholesky_solve(b, L, upper=False):
    return A.matmul(t_cholesky_inverse(L, upper), b)


def t_logdet(M):
    return la.logdet_spd(M)


def t_qr(P, mode="reduced"):
    return la.qr(P, mode)


def t_cov(x, correction=1, fweights=None, aweights=None):
    return np_cov(x, correction=correction, fweights=fweights, aweights=aweights)


def index_select(x, dim, idx):
    key = tuple(idx if d == dim else slice(None) for d in range(len(x.shp)))
    return x[key]


def autograd_grad(y, x, allow_unused=False, **kw):
    """Assumed contract: the chain rule; a gradient of each abstract value J is the array dJ (ghost "grad": name of J -> name of dJ)."""
    names = ctx().ghost.get("grad")
    if names is None:
        raise Unsupported("autograd")
    e = toR(sarr(y).elem(()))
    hit = []
    for c, (b, ats) in e.terms.values():
        ds = [(a, n) for a, n in ats if a.kind == "a" and a.name in names]
        if not ds:
            continue
        if b or len(ds) > 1 or ds[0][1] != 1:
            raise Unsupported("autograd of a non-linear expression")
        rest = R.num(c)
        for a, n in ats:
            if a is not ds[0][0]:
                rest = rest * R.atom(a, n)
        hit.append((rest, ds[0][0]))
    if not hit:
        if allow_unused:
            return (None,)
        raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph.")

    def get(ix):
        r = R.num(0)
        for f, a in hit:
            r = r + f * R.arr(names[a.name], *(a.args + tuple(ix)))
        return r

    return (SArr(x.shp, get, "f"),)


class MultivariateNormal:
    def __init__(self, loc, covariance_matrix=None, **k):
        if covariance_matrix is None:
            raise Unsupported("MultivariateNormal without a covariance matrix")
        self.loc, self.cov = sarr(loc), sarr(covariance_matrix)

    def log_prob(self, x):
        return mvn_logpdf(sarr(x), self.loc, self.cov)

    def sample(self, shape=()):
        raise Unsupported("MultivariateNormal.sample")


class tdtype:
    pass


def make_torch():
    linalg = NS(
        "torch.linalg", None, cond=None, cholesky=lambda a, *, upper=False: la.cholesky(a, upper), qr=t_qr, inv=la.inv,
        solve=lambda a, b, **k: la.solve(a, b), solve_triangular=t_solve_triangular, svd=t_svd,
        LinAlgError=la.TorchLinAlgError, norm=np_norm,
    )
    autograd = NS("torch.autograd", None, grad=autograd_grad)
    normal_m = NS("torch.distributions.normal", None, Normal=TNormal)
    mvn_m = NS("torch.distributions.multivariate_normal", None, MultivariateNormal=MultivariateNormal)
    distributions = NS("torch.distributions", None, normal=normal_m, multivariate_normal=mvn_m)
    D = dict(COMMON)
    D.update(
        Tensor=Tensor, dtype=A.DT, float64=A.DTYPES["f"], double=A.DTYPES["f"], int64=A.DTYPES["i"], long=A.DTYPES["i"],
        int=A.DTYPES["i"], int32=A.DTYPES["i"], bool=A.DTYPES["b"], float32="float32!",
        set_default_dtype=lambda d: None, tensor=t_tensor, as_tensor=t_as_tensor, from_numpy=t_as_tensor,
        is_tensor=lambda x: isinstance(x, SArr) and not (x.meta and (x.meta.get("py") or x.meta.get("np"))),
        linalg=linalg, autograd=autograd, distributions=distributions, pi=PIOBJ, inf=float("inf"), nan=float("nan"),
        no_grad=no_grad, enable_grad=no_grad, Generator=Generator,
        rand=lambda *s, generator=None, **k: draw("uniform", _shape_args(s)),
        randn=lambda *s, generator=None, **k: draw("normal", _shape_args(s)),
        randperm=lambda n, **k: randperm(n), randint=lambda lo, hi, size, **k: rint(lo, hi, shape_of(size)),
        multinomial=t_multinomial, transpose=lambda x, a, b: A.swapaxes(sarr(x), a, b), split=t_split, cat=concatenate,
        clamp=clip, clip=clip, mm=A.matmul, max=t_ext("max"), min=t_ext("min"), var=t_var, std=t_std, norm=t_norm, meshgrid=lambda *x, indexing="ij": meshgrid(*x, indexing=indexing),
        special=NS("torch.special", None, log_ndtr=lambda t: unary(t, lambda v: rlog(Phi(v))), ndtr=lambda t: unary(t, Phi)),
        cov=t_cov, lgamma=gammaln, logdet=t_logdet, det=None, nan_to_num=lambda x, out=None, **k: sarr(x),
        equal=array_equal, cholesky_inverse=t_cholesky_inverse, cholesky_solve=t_cholesky_solve,
        index_select=index_select, unique=None, quantile=quantile, sort=tsort, logspace=None, logsumexp=logsumexp,
        flatten=lambda x: sarr(x).reshape(-1), unsqueeze=lambda x, d: sarr(x).unsqueeze(d),
        numel=lambda x: x.numel(),
    )
    D["diag"] = lambda x, **k: A.diag(x)
    m = NS("torch", None)
    for k, v in D.items():
        if v is not None:
            m.__dict__[k] = v
    return m


def t_multinomial(p, num_samples, replacement=False, generator=None):
    p = sarr(p)
    return choice_impl(unI(p.shp[0]), num_samples, replacement, p)


# ------------------------------------------------------------------ math
def m1(f, real):
    def g(x):
        if isinstance(x, Sym):
            r = sreal(f(toR(x)))
            r.meta = {"py": 1}
            return r
        v = real(x)
        if isinstance(x, float) and v not in (0.0, 1.0) and _math.isfinite(v) and _math.isfinite(x):
            r = f(R.num(x))
            if r.const is None:  # irrational: keep it exact
                r = sreal(r)
                r.meta = {"py": 1}
                return r
        return v

    return g


def m_ceil(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SArr):
        from .arr import rceil

        r = rceil(toR(x))
        return unI(r) if isinstance(r, I) else unI(A.asI(r))
    return _math.ceil(x)


def m_floor(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SArr):
        from .arr import rfloor

        r = rfloor(toR(x))
        return unI(r) if isinstance(r, I) else unI(A.asI(r))
    return _math.floor(x)


def m_isfinite(x):
    if isinstance(x, Sym):
        if isinstance(x, SArr):
            return wrapB(finite_cond(toR(x)))
        return True
    return _math.isfinite(x)


def m_isnan(x):
    if isinstance(x, Sym):
        h = ctx().ghost.get("nan_hook")
        if A.isnan(toR(x)):
            return True
        return False if h is None else wrapB(h(toR(x)))
    return _math.isnan(x)


def m_isinf(x):
    if isinstance(x, Sym):
        h = ctx().ghost.get("inf_hook")
        if T._infsign(toR(x)) is not None:
            return True
        return False if h is None else wrapB(h(toR(x)))
    return _math.isinf(x)


def m_pow(a, b):
    return a**b


def make_math():
    m = NS(
        "math", None, sqrt=m1(rsqrt, _math.sqrt), exp=m1(rexp, _math.exp), log=m_log, log10=m1(rlog10, _math.log10),
        log2=m1(rlog2, _math.log2), log1p=m1(rlog1p, _math.log1p), ceil=m_ceil, floor=m_floor, isfinite=m_isfinite,
        isnan=m_isnan, isinf=m_isinf, pow=m_pow, pi=PIOBJ, inf=float("inf"), nan=float("nan"), e=_math.e,
        lgamma=m1(rgammaln, _math.lgamma), prod=m_prod, erf=m1(lambda r: rfn("erf", r), _math.erf),
        fabs=m1(rabs, _math.fabs), comb=_math.comb, factorial=_math.factorial, gcd=_math.gcd,
        tanh=m1(rtanh, _math.tanh), sin=m1(lambda r: rfn("sin", r), _math.sin), cos=m1(lambda r: rfn("cos", r), _math.cos),
    )
    return m


def m_log(x, base=None):
    if isinstance(x, Sym):
        r = rlog(toR(x))
        if base is not None:
            r = r * rinv(rlog(toR(base)))
        r = sreal(r)
        r.meta = {"py": 1}
        return r
    return _math.log(x) if base is None else _math.log(x, base)


def m_prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


_MODS = {}


def get(name):
    if not _MODS:
        _MODS["numpy"] = make_numpy()
        _MODS["scipy"] = make_scipy()
        _MODS["torch"] = make_torch()
        _MODS["math"] = make_math()
        _MODS["statistics"] = NS("statistics", _opt("statistics"), NormalDist=StatNormal)
        _MODS["bisect"] = Bisect()
    if name in _MODS:
        return _MODS[name]
    parts = name.split(".")
    if parts[0] in _MODS:
        m = _MODS[parts[0]]
        for p in parts[1:]:
            m = getattr(m, p)
        return m
    return Stub(name)


class Bisect(types.ModuleType):
    """bisect on a symbolic list: the position given by its documentation (the list being sorted)."""

    def __init__(self):
        import bisect

        super().__init__("bisect")
        self.real = bisect

    def __getattr__(self, n):
        return getattr(self.real, n)

    def bisect_right(self, a, x, *r):
        return self.find(a, x, r, "bisect_right", lambda v, w: ile(v, w))

    bisect = bisect_right

    def bisect_left(self, a, x, *r):
        return self.find(a, x, r, "bisect_left", lambda v, w: ilt(v, w))

    def find(self, a, x, r, name, before):
        from .instr import SymList

        if not isinstance(a, SymList):
            return getattr(self.real, name)(a, x, *r)
        if r:
            raise Unsupported("bisect on part of a list")
        c = ctx()
        v = toI(x)
        u, w = fresh_uid(), fresh_uid()
        ok = c.branch(ile(a.n, I()))
        if not ok:
            with scope((u, I(), a.n.add(I((), -1)))):
                ok = c.decide(ile(toI(a.f(I.bv(u))), toI(a.f(I.bv(u).add(I((), 1)))))) is True
        if not ok:
            raise Unsupported("bisect: list not known to be sorted")
        s = I.var(c.fresh("cut"))
        c.assume(ile(I(), s)), c.assume(ile(s, a.n))
        if c.branch(ilt(I(), s)):
            c.assume(before(toI(a.f(s.add(I((), -1)))), v))
        if c.branch(ilt(s, a.n)):
            c.assume(bnot(before(toI(a.f(s)), v)))
        return unI(s)
