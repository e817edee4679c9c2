"""Symbolic integers, booleans and arrays (symbolic shapes, in-place updates, views)."""
import numpy as np

from . import terms as T
from .core import ctx, ind, ite, rabs, rexp, rinv, rite, rlog, rmax, rmin, rpos, rpow, rsqrt, rsum, rfn, scope, isint
from .terms import (
    Atom, B, FALSE, I, ONE, R, TRUE, Unsupported, ZERO, band, beq, bnot, bor, fresh_uid, ieq, ile,
    ilt, req0, rle0, rlt0, toI,
)


def unI(i):
    return i.c if not i.t else SInt(i)


def wrapB(b):
    if b.op == "T":
        return True
    if b.op == "F":
        return False
    return SBool(b)


class Sym:
    """Base class of symbolic values."""

    __array_priority__ = 1000
    __array_ufunc__ = None


class SBool(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().branch(self.b)

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return wrapB(band(self.b, toB(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return wrapB(bor(self.b, toB(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrapB(bnot(self.b))

    def __eq__(self, o):
        return wrapB(beq(self.b, toB(o)))

    def __ne__(self, o):
        return wrapB(bnot(beq(self.b, toB(o))))

    def __hash__(self):
        return hash(self.b.key())

    def __repr__(self):
        return "SBool(%r)" % self.b

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    def _as_I(self):
        return I.fn("b2i:" + self.b.key())

    def _arr(self):
        b = self.b
        return SArr((), lambda ix: b, "b")

    def __add__(self, o):
        return self._arr() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._arr() * o

    __rmul__ = __mul__

    def all(self):
        return self

    def any(self):
        return self

    def reshape(self, *a):
        return self._arr().reshape(*a)


def toB(x):
    if isinstance(x, B):
        return x
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, SArr) and not x.shp:
        e = x.elem(())
        return e if isinstance(e, B) else bnot(req0(toR(e)))
    if isinstance(x, SInt):
        return bnot(ieq(x.i, I()))
    if isinstance(x, (int, float)):
        return TRUE if x else FALSE
    raise Unsupported("not a boolean: %r" % (x,))


def toR(x):
    if isinstance(x, R):
        return x
    if isinstance(x, I):
        return R.ofI(x)
    if isinstance(x, B):
        return ind(x)
    if isinstance(x, (bool, np.bool_)):
        return R.num(int(x))
    if isinstance(x, (int, np.integer)):
        return R.num(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == float("inf"):
            return R.atom(Atom("c", "inf"))
        if x == float("-inf"):
            return R.atom(Atom("c", "inf")).neg()
        if x != x:
            return R.atom(Atom("c", "nan"))
        if x == 3.141592653589793:
            return R.atom(Atom("c", "pi"))
        return R.num(x)
    if isinstance(x, SInt):
        return R.ofI(x.i)
    if isinstance(x, SBool):
        return ind(x.b)
    if isinstance(x, SArr):
        if x.shp:
            if all(ctx().decide(ieq(s, toI(1))) for s in x.shp):
                return toR(x.elem(tuple(I() for _ in x.shp)))
            raise Unsupported("array where a scalar is expected")
        return toR(x.elem(()))
    if isinstance(x, np.ndarray) and x.size == 1:
        return toR(x.reshape(-1)[0].item())
    from fractions import Fraction

    if isinstance(x, Fraction):
        return R.num(x)
    raise Unsupported("not a real: %r" % (type(x),))


class SInt(Sym):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def _as_I(self):
        return self.i

    def __repr__(self):
        return "SInt(%r)" % self.i

    def __hash__(self):
        return hash(self.i.key())

    def _bin(self, o, f):
        if isinstance(o, (SInt, int, np.integer)) and not isinstance(o, bool):
            return unI(f(self.i, toI(o)))
        if isinstance(o, bool):
            return unI(f(self.i, toI(int(o))))
        return None

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a.add(b))
        return r if r is not None else sarr(self) + o if not isinstance(o, SArr) else NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a.add(b, -1))
        return r if r is not None else sarr(self) - o if not isinstance(o, SArr) else NotImplemented

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b.add(a, -1))
        return r if r is not None else sarr(o) - self

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return repeat_seq(o, self)
        r = self._bin(o, lambda a, b: a.mul(b))
        return r if r is not None else sarr(self) * o if not isinstance(o, SArr) else NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return unI(self.i.scale(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __floordiv__(self, o):
        if isinstance(o, (SInt, int)):
            return unI(ifloordiv(self.i, toI(o)))
        return NotImplemented

    def __rfloordiv__(self, o):
        return unI(ifloordiv(toI(o), self.i))

    def __mod__(self, o):
        return unI(imod(self.i, toI(o)))

    def __rmod__(self, o):
        return unI(imod(toI(o), self.i))

    def __truediv__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return sarr(self) / o

    def __rtruediv__(self, o):
        return sarr(o) / sarr(self)

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = I((), 1)
            for _ in range(o):
                r = r.mul(self.i)
            return unI(r)
        return sarr(self) ** o

    def __rpow__(self, o):
        return sarr(o) ** sarr(self)

    def _cmp(self, o, fi, fr):
        if isinstance(o, (SInt, int, np.integer)):
            return wrapB(fi(self.i, toI(o)))
        if isinstance(o, (float, np.floating)):
            return wrapB(fr(R.ofI(self.i) - toR(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, ilt, rlt0)

    def __le__(self, o):
        return self._cmp(o, ile, rle0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: ilt(b, a), lambda r: rlt0(r.neg()))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: ile(b, a), lambda r: rle0(r.neg()))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._cmp(o, ieq, req0)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: bnot(ieq(a, b)), lambda r: bnot(req0(r)))

    def __bool__(self):
        return ctx().branch(bnot(ieq(self.i, I())))

    def __index__(self):
        raise Unsupported("symbolic integer %r needed as a concrete integer" % self.i)

    def __float__(self):
        raise Unsupported("float() of a symbolic integer outside instrumented code")

    def item(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        raise Unsupported("bit_length")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def reshape(self, *a):
        return sarr(self).reshape(*a)

    def detach(self):
        return self

    def numpy(self):
        return self


class TSize(SInt):
    """`.size` in torch mode: a method, but also usable as the numpy attribute."""

    __slots__ = ("a",)
    __hash__ = SInt.__hash__

    def __init__(self, n, a):
        self.i, self.a = n, a

    def __call__(self, d=None):
        return self.a.shape if d is None else self.a.shape[d]


def ifloordiv(a, b):
    if b.const is not None and b.const != 0 and a.const is not None:
        return I((), a.const // b.const)
    if b.const == 1:
        return a
    if b.const is not None and b.const > 0 and all(c % b.const == 0 for _, c in a.t):
        return I(tuple((x, c // b.const) for x, c in a.t), a.c // b.const)
    if not ctx().branch(ilt(I(), b)):
        raise Unsupported("floor division by a non-positive integer")
    q, rest = divide_out(a, b)
    if q is not None:
        return q.add(ifloordiv(rest, b))
    if ctx().decide(band(ile(I(), a), ilt(a, b))) is True:
        return I()
    if ctx().decide(band(ile(I(), a.add(b)), ilt(a, I()))) is True:
        return I((), -1)
    return T.mkfn("//", (a, b))


def divide_out(a, b):
    """a = q*b + rest with the visible multiples of b taken out (q None when there are none)."""
    if b.c or len(b.t) != 1 or b.t[0][1] != 1:
        return None, a
    kb, q, rest = b.key(), I(), I((), a.c)
    for x, c in a.t:
        one = I(((x, 1),), 0)
        if one.key() == kb:
            q = q.add(I((), c))
            continue
        if x[0] == "f" and x[1] == "*":
            fs = list(x[2])
            j = next((j for j, y in enumerate(fs) if y.key() == kb), None)
            if j is not None:
                m = I((), c)
                for y in fs[:j] + fs[j + 1 :]:
                    m = m.mul(y)
                q = q.add(m)
                continue
        rest = rest.add(one, c)
    return (q, rest) if q.t or q.c else (None, a)


def imod(a, b):
    if b.const == 1:
        return I()
    if a.const is not None and b.const:
        return I((), a.const % b.const)
    if not ctx().branch(ilt(I(), b)):
        raise Unsupported("modulo a non-positive integer")
    q, rest = divide_out(a, b)
    if q is not None:
        return imod(rest, b)
    if ctx().decide(band(ile(I(), a), ilt(a, b))) is True:
        return a
    return T.mkfn("%", (a, b))


def imin(a, b):
    a, b = toI(a), toI(b)
    if a.const is not None and b.const is not None:
        return I((), min(a.const, b.const))
    return a if ctx().branch(ile(a, b)) else b


def imax(a, b):
    a, b = toI(a), toI(b)
    if a.const is not None and b.const is not None:
        return I((), max(a.const, b.const))
    return b if ctx().branch(ile(a, b)) else a


def iite(b, x, y):
    """Integer if-then-else: decided, split or forked."""
    r = ctx().decide(b)
    if r is None and b.bvs():
        ctx().trysplit(b)
        if x.key() == y.key():
            return x
        raise Unsupported("integer choice on a bound variable: %r" % b)
    if r is None:
        r = ctx().choose(b)
    return x if r else y


# --------------------------------------------------------------------------- arrays
class Buf:
    __slots__ = ("get", "shape", "dtype", "ver", "frozen")

    def __init__(self, shape, get, dtype):
        self.shape, self.get, self.dtype, self.ver, self.frozen = shape, get, dtype, 0, False


class SArr(Sym):
    """Array of symbolic shape.  buf + view spec (None = identity)."""

    __slots__ = ("buf", "shp", "vw", "segs", "meta", "requires_grad", "grad", "_nm")
    __hash__ = object.__hash__

    def __init__(self, shape, get=None, dtype="f", buf=None, view=None):
        self.shp = tuple(toI(s) for s in shape)
        self.buf = buf if buf is not None else Buf(self.shp, memo(get), dtype)
        self.vw = view
        self.segs = None
        self.meta = None
        self.requires_grad = False
        self.grad = None

    # -- reading
    @property
    def kind(self):
        return self.buf.dtype

    def reader(self):
        g = self.buf.get
        v = self.vw
        if v is None:
            return g

        def rd(ix):
            return g(_vmap(v, ix))

        return rd

    def elem(self, ix):
        return self.reader()(tuple(toI(i) for i in ix))

    @property
    def shape(self):
        return tuple(unI(s) for s in self.shp)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        n = I((), 1)
        for s in self.shp:
            n = n.mul(s)
        if ctx().ghost.get("backend") == "torch":
            return TSize(n, self)
        return unI(n)

    def numel(self):
        n = I((), 1)
        for s in self.shp:
            n = n.mul(s)
        return unI(n)

    def dim(self):
        return len(self.shp)

    @property
    def dtype(self):
        return DTYPES[self.kind]

    def __len__(self):
        if not self.shp:
            raise TypeError("len() of a 0-d array")
        c = self.shp[0].const
        if c is None:
            raise Unsupported("len() of symbolic length outside instrumented code")
        return c

    def slen(self):
        if not self.shp:
            raise TypeError("len() of a 0-d array")
        return unI(self.shp[0])

    def __iter__(self):
        if not self.shp:
            raise TypeError("iteration over a 0-d array")
        c = self.shp[0].const
        if c is None and ctx().ghost.get("summarise"):
            from .instr import SymIter

            return iter(SymIter(self.shp[0], lambda k: self[unI(toI(k))]))
        if c is None:
            raise Unsupported("iteration over symbolic length outside instrumented code")
        return iter([self[i] for i in range(c)])

    def __repr__(self):
        return "SArr%r" % (self.shape,)

    def __contains__(self, x):
        raise Unsupported("in on arrays")

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    @property
    def T(self):
        return self.transpose()

    @property
    def mT(self):
        return swapaxes(self, -1, -2)

    def t(self):
        return self.transpose()

    def transpose(self, *axes):
        if axes and len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = len(self.shp)
        if not axes:
            axes = tuple(reversed(range(n)))
        axes = tuple(a % n for a in axes) if n else ()
        if len(axes) == 2 and ctx().ghost.get("backend") == "torch" and not (self.meta and self.meta.get("np")):
            # tensors: swap two dimensions
            i, j = axes
            axes = tuple(j if k == i else i if k == j else k for k in range(n))
        return permute(self, axes)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, tuple(k.item() if isinstance(k, SArr) and not k.shp else k for k in shape))

    view_ = reshape

    def ravel(self):
        return reshape(self, (-1,))

    def flatten(self):
        return reshape(self, (-1,)).copy()

    def squeeze(self, axis=None):
        if axis is None:
            key = tuple(0 if s.const == 1 else slice(None) for s in self.shp)
        else:
            ax = axis if isinstance(axis, tuple) else (axis,)
            ax = tuple(a % len(self.shp) for a in ax)
            for a in ax:
                if not ctx().branch(ieq(self.shp[a], I((), 1))):
                    raise ValueError("cannot squeeze an axis of size != 1")
            key = tuple(0 if i in ax else slice(None) for i in range(len(self.shp)))
        return getitem(self, key)

    def unsqueeze(self, d):
        n = len(self.shp)
        d = d % (n + 1)
        key = tuple(slice(None) for _ in range(d)) + (None,)
        return getitem(self, key)

    def copy(self):
        r = SArr(self.shp, self.reader(), self.kind)
        r.segs = self.segs
        return r

    clone = copy

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def detach(self):
        return self

    def numpy(self):
        return self

    def cpu(self):
        return self

    def contiguous(self):
        return self

    def is_floating_point(self):
        return self.kind == "f"

    @property
    def device(self):
        return "cpu"

    def view(self, *shape):
        return self.reshape(*shape)

    def masked_fill(self, mask, v):
        return where(mask, v, self)

    def index_select(self, dim, idx):
        return getitem(self, tuple(idx if d == dim else slice(None) for d in range(len(self.shp))))

    def requires_grad_(self, f=True):
        self.requires_grad = f
        return self

    def astype(self, dt, copy=True):
        return astype(self, dt, copy)

    def to(self, dt=None, **kw):
        return astype(self, dt or kw.get("dtype"), False)

    def double(self):
        return astype(self, "f", False)

    def long(self):
        return astype(self, "i", False)

    def float(self):
        return astype(self, "f", False)

    def item(self):
        if not all(ctx().branch(ieq(s, I((), 1))) for s in self.shp):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        e = self.elem(tuple(I() for _ in self.shp))
        return scalar(e)

    def tolist(self):
        if not self.shp:
            return self.item()
        c = self.shp[0].const
        if c is None:
            from .instr import SymList

            return SymList.of(self.slen(), lambda k: _tl(self[unI(k)]))
        return [_tl(self[i]) for i in range(c)]

    def fill_(self, v):
        self[...] = v
        return self

    fill = fill_

    # -- reductions
    def sum(self, axis=None, dim=None, keepdims=False, keepdim=False):
        return reduce_sum(self, axis if dim is None else dim, keepdims or keepdim)

    def mean(self, axis=None, dim=None, keepdims=False, keepdim=False):
        return reduce_mean(self, axis if dim is None else dim, keepdims or keepdim)

    def all(self, axis=None, dim=None):
        return reduce_all(self, axis if dim is None else dim)

    def any(self, axis=None, dim=None):
        if axis is None and dim is None and self.kind == "b" and len(self.shp) == 1 and self.shp[0].const is None:
            uid = fresh_uid()
            try:
                with scope((uid, I(), self.shp[0])):
                    r = ctx().decide(self.elem((I.bv(uid),)))
            except T.Split:
                r = None
            if r is None:
                return wrapB(ilt(I(), mask_len(self)))
        return bnot_arr(reduce_all(bnot_arr(self), axis if dim is None else dim))

    def max(self, axis=None, dim=None):
        return reduce_ext(self, "max", axis if dim is None else dim)

    def min(self, axis=None, dim=None):
        return reduce_ext(self, "min", axis if dim is None else dim)

    def abs(self):
        return unary(self, rabs)

    def exp(self):
        return unary(self, rexp)

    def log(self):
        return unary(self, rlog)

    def sqrt(self):
        return unary(self, rsqrt)

    def square(self):
        return self * self

    def clip(self, lo=None, hi=None, min=None, max=None):
        lo = min if lo is None else lo
        hi = max if hi is None else hi
        r = self
        if lo is not None:
            r = binop(r, lo, rmax)
        if hi is not None:
            r = binop(r, hi, rmin)
        return r

    clamp = clip

    def clamp_min(self, lo):
        return self.clip(lo=lo)

    def diagonal(self):
        return diag(self)

    def dot(self, o):
        return matmul(self, o)

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return broadcast_to(self, shape)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to numpy")

    def __bool__(self):
        for s in self.shp:
            if not ctx().branch(ieq(s, I((), 1))):
                raise ValueError("truth value of an array with more than one element is ambiguous")
        e = self.elem(tuple(I() for _ in self.shp))
        if isinstance(e, B):
            return ctx().branch(e)
        return ctx().branch(bnot(req0(toR(e))))

    def __index__(self):
        if self.kind == "i" and not self.shp:
            e = self.elem(())
            if e.const is not None:
                return e.const
        raise Unsupported("symbolic array used as index")

    # -- arithmetic
    def __add__(self, o):
        return addop(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return subop(self, o)

    def __rsub__(self, o):
        return subop(o, self)

    def __mul__(self, o):
        return mulop(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return binop(self, o, xdiv)

    def __rtruediv__(self, o):
        return binop(o, self, xdiv)

    def __floordiv__(self, o):
        return intop(self, o, ifloordiv, lambda a, b: rfloor(rdiv(a, b)))

    def __mod__(self, o):
        return intop(self, o, imod, None)

    def __neg__(self):
        if self.kind == "i":
            return imap(self, lambda i: i.scale(-1), "i")
        return unary(self, lambda r: r.neg())

    def __pos__(self):
        return self

    def __abs__(self):
        return self.abs()

    def __pow__(self, o):
        if isinstance(o, int) and self.kind == "i" and o >= 0:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        return binop(self, o, lambda a, b: rpow(a, b))

    def __rpow__(self, o):
        return binop(o, self, lambda a, b: rpow(a, b))

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(sarr(o), self)

    def _inplace(self, r):
        setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def add_(self, o, alpha=1):
        return self._inplace(self + (o if alpha == 1 else o * alpha))

    def sub_(self, o):
        return self._inplace(self - o)

    def mul_(self, o):
        return self._inplace(self * o)

    def div_(self, o):
        return self._inplace(self / o)

    # -- comparisons
    def __lt__(self, o):
        return cmpop(self, o, ilt, lambda a, b: rlt0(a - b))

    def __le__(self, o):
        return cmpop(self, o, ile, lambda a, b: rle0(a - b))

    def __gt__(self, o):
        return cmpop(self, o, lambda a, b: ilt(b, a), lambda a, b: rlt0(b - a))

    def __ge__(self, o):
        return cmpop(self, o, lambda a, b: ile(b, a), lambda a, b: rle0(b - a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return cmpop(self, o, ieq, lambda a, b: req0(a - b), boolf=beq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return cmpop(
            self, o, lambda a, b: bnot(ieq(a, b)), lambda a, b: bnot(req0(a - b)),
            boolf=lambda a, b: bnot(beq(a, b)),
        )

    def __and__(self, o):
        return boolop(self, o, band)

    __rand__ = __and__

    def __or__(self, o):
        return boolop(self, o, bor)

    __ror__ = __or__

    def __xor__(self, o):
        return boolop(self, o, lambda a, b: bnot(beq(a, b)))

    def __invert__(self):
        return bnot_arr(self)


def _tl(x):
    return x.tolist() if isinstance(x, SArr) else x


class DT:
    def __init__(self, k, name):
        self.k, self.name = k, name
        self.kind = {"f": "f", "i": "i", "b": "b"}[k]

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        if isinstance(o, DT):
            return o.k == self.k
        try:
            return dtkind(o) == self.k
        except Exception:
            return False

    def __hash__(self):
        return hash(self.k)

    @property
    def is_floating_point(self):
        return self.k == "f"


DTYPES = {"f": DT("f", "float64"), "i": DT("i", "int64"), "b": DT("b", "bool")}


def dtkind(dt):
    if dt is None:
        return None
    if isinstance(dt, DT):
        return dt.k
    if isinstance(dt, str):
        if dt in ("f", "i", "b"):
            return dt
        if dt.startswith("int"):
            return "i"
        if dt.startswith("bool"):
            return "b"
        return "f"
    if dt is int or getattr(dt, "__name__", "") == "int":
        return "i"
    if dt is float or getattr(dt, "__name__", "") == "float":
        return "f"
    if dt is bool or getattr(dt, "__name__", "") == "bool":
        return "b"
    if isinstance(dt, (type, np.dtype)):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}[np.dtype(dt).kind]
    raise Unsupported("dtype %r" % (dt,))


def memo(get):
    cache = {}

    def g(ix):
        c = ctx()
        k = (tuple(i.key() for i in ix), c.ver, tuple((u, lo.key(), hi.key()) for u, lo, hi in c.scopes))
        r = cache.get(k)
        if r is None:
            r = get(ix)
            k = (k[0], c.ver, k[2])
            cache[k] = r
        return r

    return g


def _vmap(v, ix):
    out = []
    for d in v:
        if d[0] == "fix":
            out.append(d[1])
        else:
            _, k, st, sp = d
            x = ix[k]
            if sp != 1:
                x = x.scale(sp)
            out.append(st.add(x))
    return tuple(out)


def scalar(e):
    """Python-level scalar for an element."""
    if isinstance(e, I):
        return unI(e)
    if isinstance(e, B):
        return wrapB(e)
    return SArr((), lambda ix: e, "f")


def sreal(r):
    return SArr((), lambda ix: r, "f")


def sarr(x, dtype=None):
    """Coerce anything array-like."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SInt):
        i = x.i
        return SArr((), lambda ix: i, "i")
    if isinstance(x, SBool):
        b = x.b
        return SArr((), lambda ix: b, "b")
    if isinstance(x, (bool, np.bool_)):
        b = TRUE if x else FALSE
        return SArr((), lambda ix: b, "b")
    if isinstance(x, (int, np.integer)):
        i = I((), int(x))
        return SArr((), lambda ix: i, "i")
    if isinstance(x, (float, np.floating)):
        r = toR(float(x))
        return SArr((), lambda ix: r, "f")
    if isinstance(x, R):
        return sreal(x)
    if isinstance(x, np.ndarray):
        return const_array(x)
    from .instr import SymList

    if isinstance(x, SymList):
        return x.to_array()
    if isinstance(x, (list, tuple)):
        xs = [sarr(e) for e in x]
        if not xs:
            return SArr((0,), lambda ix: ZERO, "f")
        return stack(xs, 0)
    from fractions import Fraction

    if isinstance(x, Fraction):
        return sreal(R.num(x))
    raise Unsupported("cannot make an array of %r" % (type(x),))


def const_array(x):
    k = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind)
    if k is None:
        raise Unsupported("constant array dtype %s" % x.dtype)

    def conv(v):
        v = v.item() if hasattr(v, "item") else v
        return toR(float(v)) if k == "f" else I((), int(v)) if k == "i" else (TRUE if v else FALSE)

    def get(ix):
        a = x
        for d, i in enumerate(ix):
            if i.const is None:
                return pick(i, a.shape[0], lambda v: _g(a, v, ix[d + 1 :]), k)
            a = a[i.const]
        return conv(a)

    def _g(a, v, rest):
        a = a[v]
        for d, i in enumerate(rest):
            if i.const is None:
                return pick(i, a.shape[0], lambda w: _g(a, w, rest[d + 1 :]), k)
            a = a[i.const]
        return conv(a)

    return SArr(x.shape, get, k)


def pick(i, n, f, k):
    """Element number i (symbolic) among n concrete ones."""
    if n == 1:
        return f(0)
    if k == "f":
        out = toR(f(n - 1))
        for v in range(n - 2, -1, -1):
            fv = toR(f(v))
            out = rite(ieq(i, I((), v)), fv, out)
        return out
    if k == "b":
        out = f(n - 1)
        for v in range(n - 2, -1, -1):
            b = ieq(i, I((), v))
            out = bor(band(b, f(v)), band(bnot(b), out))
        return out
    for v in range(n - 1):
        if ctx().branch(ieq(i, I((), v))):
            return f(v)
    return f(n - 1)


def astype(a, dt, copy=True):
    k = dtkind(dt)
    if k is None or k == a.kind:
        return a.copy() if copy else a
    g = a.reader()
    if k == "f":
        return SArr(a.shp, lambda ix: toR(g(ix)), "f")
    if k == "i":
        return SArr(a.shp, lambda ix: toint(g(ix)), "i")
    return SArr(a.shp, lambda ix: (lambda e: e if isinstance(e, B) else bnot(req0(toR(e))))(g(ix)), "b")


def toint(e):
    """int() of an element: truncation toward zero."""
    if isinstance(e, I):
        return e
    if isinstance(e, B):
        return I((), 1) if ctx().branch(e) else I()
    i = asI(e)
    if i is not None:
        return i
    c = e.const
    if c is not None:
        return I((), int(c))
    if e.bvs():
        raise Unsupported("int() of a term with bound variables")
    v = I.var("trunc!" + e.key())
    x, rv = e, R.ofI(v)
    if ctx().branch(rle0(x.neg())):
        ctx().assume(rle0(rv - x))
        ctx().assume(rlt0(x - rv - ONE))
        ctx().assume(ile(I(), v))
    else:
        ctx().assume(rle0(x - rv))
        ctx().assume(rlt0(rv - x - ONE))
        ctx().assume(ile(v, I()))
    return v


def asI(r):
    """Integer term equal to r when r is visibly an integer combination."""
    out = I()
    for c, (bvs, ats) in r.terms.values():
        if bvs or c.denominator != 1:
            return None
        x = I((), int(c))
        for a, p in ats:
            if a.kind == "iv" and p > 0:
                for _ in range(p):
                    x = x.mul(a.args[0])
            elif a.kind == "fn" and a.name in ("floor", "ceil") and p == 1:
                v = I.var("%s!%s" % (a.name, a.args[0].key()))
                y, rv = a.args[0], R.ofI(v)
                if a.name == "floor":
                    ctx().assume(rle0(rv - y))
                    ctx().assume(rlt0(y - rv - ONE))
                else:
                    ctx().assume(rle0(y - rv))
                    ctx().assume(rlt0(rv - y - ONE))
                x = x.mul(v)
            else:
                return None
        out = out.add(x)
    return out


def rfloor(r):
    if asI(r) is not None:
        return r
    c = r.const
    if c is not None:
        return R.num(c.numerator // c.denominator)
    return rfn("floor", r)


def rceil(r):
    if asI(r) is not None:
        return r
    c = r.const
    if c is not None:
        return R.num(-((-c.numerator) // c.denominator))
    return rfn("ceil", r)


def rdiv(a, b):
    c = b.const
    if c == 0:
        if a.const is not None and a.const != 0:
            return R.atom(Atom("c", "inf")).scale(1 if a.const > 0 else -1)
        return rfn("divzero", a)
    if c is None and b.bvs() == set():
        pass
    return a * rinv(b)


# --------------------------------------------------------------------------- broadcasting
def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = I((), 1)
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if x.const == 1:
                continue
            if cur.const == 1:
                cur = x
                continue
            if x.key() == cur.key():
                continue
            c = ctx()
            if c.branch(ieq(x, cur)):
                if cur.const is None and x.const is not None:
                    cur = x
                continue
            if c.branch(ieq(x, I((), 1))):
                continue
            if c.branch(ieq(cur, I((), 1))):
                cur = x
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bidx(shape, out, ix):
    """Index of an operand of given shape for output index ix."""
    k = len(out) - len(shape)
    r = []
    for d, s in enumerate(shape):
        if s.const == 1:
            r.append(I())
        elif s.key() == out[k + d].key():
            r.append(ix[k + d])
        elif ctx().decide(ieq(s, out[k + d])) is True:
            r.append(ix[k + d])
        elif ctx().decide(ieq(s, I((), 1))) is True:
            r.append(I())
        else:
            raise Unsupported("broadcast index")
    return tuple(r)


def binop(a, b, f):
    a, b = sarr(a), sarr(b)
    out = bshape(a.shp, b.shp)
    ga, gb, sa, sb = a.reader(), b.reader(), a.shp, b.shp
    r = SArr(out, lambda ix: f(toR(ga(bidx(sa, out, ix))), toR(gb(bidx(sb, out, ix)))), "f")
    if a.segs or b.segs:
        r.segs = a.segs if a.shp and len(a.shp) == len(out) else b.segs
    return r


def intop(a, b, fi, fr, dt="i"):
    a, b = sarr(a), sarr(b)
    if "f" in (a.kind, b.kind):
        if fr is None:
            raise Unsupported("operator on reals")
        return binop(a, b, fr)
    if fi is None:
        return binop(a, b, fr)
    out = bshape(a.shp, b.shp)
    ga, gb, sa, sb = a.reader(), b.reader(), a.shp, b.shp
    return SArr(out, lambda ix: fi(b2i(ga(bidx(sa, out, ix))), b2i(gb(bidx(sb, out, ix)))), dt)


def b2i(e):
    if isinstance(e, B):
        if e.op in ("T", "F"):
            return I((), 1 if e.op == "T" else 0)
        r = ctx().decide(e)
        if r is not None:
            return I((), int(r))
        if e.bvs():
            ctx().trysplit(e)
            raise Unsupported("integer value of an undecided boolean")
        return I((), 1) if ctx().choose(e) else I()
    return e


def addop(a, b):
    a, b = sarr(a), sarr(b)
    if a.kind == "b" and b.kind == "b":
        return boolop(a, b, bor)
    return intop(a, b, lambda x, y: x.add(y), radd)


def subop(a, b):
    return intop(a, b, lambda x, y: x.add(y, -1), lambda x, y: radd(x, y.neg()))


def radd(x, y):
    """x + y, where opposite infinities give NaN."""
    if len(x.terms) <= 3 and len(y.terms) <= 3:
        s, t = T._infsign(x), T._infsign(y)
        if s is not None and t is not None and s != t:
            return R.atom(Atom("c", "nan"))
    return x + y


def special(x, y, op):
    """x op y when x or y is the constant NaN or an infinity with a partner of known sign; None otherwise."""
    if len(x.terms) > 1 and len(y.terms) > 1:
        return None
    for r in (x, y):
        if len(r.terms) == 1:
            (c, (b, ats)), = r.terms.values()
            if not b and len(ats) == 1 and ats[0][0].kind == "c" and ats[0][0].name == "nan":
                return R.atom(Atom("c", "nan"))
    s, t = T._infsign(x), T._infsign(y)
    if s is None and t is None:
        return None
    inf = R.atom(Atom("c", "inf"))
    if op == "/":
        if s is not None and t is not None:
            return R.atom(Atom("c", "nan"))
        if s is None:
            return ZERO
    if s is not None and t is not None:
        return inf.scale(s * t)
    s, o = (s, y) if s is not None else (t, x)
    if any(a.kind == "ind" for c, (b, ats) in o.terms.values() for a, p in ats):
        return None
    if ctx().decide(T.rlt0(o.neg())) is True:
        return inf.scale(s)
    if ctx().decide(T.rlt0(o)) is True:
        return inf.scale(-s)
    return None


def xmul(x, y):
    r = special(x, y, "*")
    return x * y if r is None else r


def xdiv(x, y):
    r = special(x, y, "/")
    return rdiv(x, y) if r is None else r


def mulop(a, b):
    a, b = sarr(a), sarr(b)
    if "b" in (a.kind, b.kind) and "f" not in (a.kind, b.kind):
        if a.kind == b.kind:
            return boolop(a, b, band)
        return binop(a, b, lambda x, y: x * y)
    return intop(a, b, lambda x, y: x.mul(y), xmul)


def cmpop(a, b, fi, fr, boolf=None):
    a, b = sarr(a), sarr(b)
    out = bshape(a.shp, b.shp)
    ga, gb, sa, sb = a.reader(), b.reader(), a.shp, b.shp
    ka, kb = a.kind, b.kind

    def get(ix):
        x, y = ga(bidx(sa, out, ix)), gb(bidx(sb, out, ix))
        if ka == "b" and kb == "b" and boolf is not None:
            return boolf(x, y)
        if isinstance(x, I) and isinstance(y, I):
            return fi(x, y)
        return nansafe(toR(x), toR(y), fr)

    r = SArr(out, get, "b")
    return r


def nansafe(x, y, f):
    """f(x, y), False where one of them is NaN."""
    for k in (0, 1):
        q = T.infcase((x, y)[k], "nan")
        if q is not None:
            u, v = ((q[1], y), (q[2], y)) if k == 0 else ((x, q[1]), (x, q[2]))
            return bor(band(q[0], nansafe(*u, f)), band(bnot(q[0]), nansafe(*v, f)))
    if isnan(x) or isnan(y):
        return FALSE
    return f(x, y)


def nancond(r):
    """Condition under which r is NaN."""
    q = T.infcase(r, "nan")
    if q is not None:
        return bor(band(q[0], nancond(q[1])), band(bnot(q[0]), nancond(q[2])))
    return TRUE if isnan(r) else FALSE


def isnan(r):
    """r is the constant NaN."""
    hit = False
    for c, (b, ats) in r.terms.values():
        if any(a.kind == "c" and a.name == "nan" for a, _ in ats):
            if b or any(a.kind not in ("c", "a", "fn") for a, _ in ats):
                raise Unsupported("NaN in an expression")
            hit = True
    return hit


def boolop(a, b, f):
    a, b = sarr(a), sarr(b)
    out = bshape(a.shp, b.shp)
    ga, gb, sa, sb = a.reader(), b.reader(), a.shp, b.shp
    return SArr(out, lambda ix: f(eB(ga(bidx(sa, out, ix))), eB(gb(bidx(sb, out, ix)))), "b")


def eB(e):
    return e if isinstance(e, B) else bnot(ieq(e, I())) if isinstance(e, I) else bnot(req0(toR(e)))


def bnot_arr(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, SBool):
        return ~a
    g = a.reader()
    if a.kind != "b":
        raise Unsupported("~ on non-boolean array")
    return SArr(a.shp, lambda ix: bnot(g(ix)), "b")


def unary(a, f, dt="f"):
    a = sarr(a)
    g = a.reader()
    r = SArr(a.shp, lambda ix: f(toR(g(ix))), dt)
    r.segs = a.segs
    return r


def imap(a, f, dt):
    g = a.reader()
    return SArr(a.shp, lambda ix: f(g(ix)), dt)


# --------------------------------------------------------------------------- indexing
def norm_slice(s, n):
    """(start, step, length) of a slice on an axis of length n."""
    step = 1 if s.step is None else s.step
    if isinstance(step, SInt):
        if step.i.const is None:
            raise Unsupported("symbolic slice step")
        step = step.i.const
    c = ctx()

    def clamp(x, lo, hi):
        x = toI(x)
        if x.const is not None and n.const is not None:
            v = x.const + (n.const if x.const < 0 else 0)
            return I((), max(lo.const, min(hi.const, v)))
        if x.const is not None:
            if x.const < 0:
                x = n.add(x)
                return x if c.branch(ile(lo, x)) else lo
            if x.const == 0:
                return x
            return x if c.branch(ile(x, hi)) else hi
        if c.branch(ilt(x, I())):
            x = n.add(x)
            return x if c.branch(ile(lo, x)) else lo
        return x if c.branch(ile(x, hi)) else hi

    if step == 1 or (isinstance(step, int) and step > 1):
        st = I() if s.start is None else clamp(s.start, I(), n)
        en = n if s.stop is None else clamp(s.stop, I(), n)
        ln = en.add(st, -1)
        if ln.const is None:
            if not c.branch(ile(I(), ln)):
                ln = I()
        else:
            ln = I((), max(0, ln.const))
        if step > 1:
            if ln.const is not None:
                ln = I((), (ln.const + step - 1) // step)
            else:
                ln = ifloordiv(ln.add(I((), step - 1)), I((), step))
        return st, step, ln
    if step == -1 and s.start is None and s.stop is None:
        return n.add(I((), -1)), -1, n
    raise Unsupported("slice %r" % (s,))


def norm_int(i, n, what="index"):
    i = toI(i)
    c = ctx()
    if i.const is not None and n.const is not None:
        v = i.const
        if v < -n.const or v >= n.const:
            raise IndexError("index %d is out of bounds for axis with size %d" % (v, n.const))
        return I((), v + n.const if v < 0 else v)
    if i.const is not None and i.const < 0:
        if not c.branch(ile(I((), -i.const), n)):
            raise IndexError("index out of bounds")
        return n.add(i)
    if i.const is None and not c.branch(ile(I(), i)):
        if not c.branch(ile(I(), n.add(i))):
            raise IndexError("index out of bounds")
        return n.add(i)
    if not c.branch(ilt(i, n)):
        raise IndexError("index out of bounds")
    return i


def isintlike(k):
    if isinstance(k, bool):
        return False
    if isinstance(k, (int, np.integer, SInt)):
        return True
    return isinstance(k, SArr) and not k.shp and k.kind == "i"


def _k2i(k):
    return k.elem(()) if isinstance(k, SArr) else toI(k)


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nd = len(a.shp)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.kind == "b":
            used += len(k.shp)
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            used += k.ndim
        else:
            used += 1
    if used > nd:
        raise IndexError("too many indices for array")
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    p = [i for i, k in enumerate(key) if k is Ellipsis][0]
    key[p : p + 1] = [slice(None)] * (nd - used)
    return key


def getitem(a, key):
    if isinstance(key, (bool, SBool)):
        raise Unsupported("boolean scalar index")
    key = expand_key(a, key)
    adv = []
    for p, k in enumerate(key):
        if k is None or isinstance(k, slice) or isintlike(k):
            continue
        k2 = sarr(k)
        key[p] = k2
        adv.append(p)
    if not adv:
        return basic(a, key)
    if len(adv) == 1 and key[adv[0]].kind == "b" and len(key[adv[0]].shp) == 1:
        key[adv[0]] = mask_index(key[adv[0]])
    if any(key[p].kind == "b" for p in adv):
        if len(adv) == 1 and len(key[adv[0]].shp) == len(a.shp) and len(a.shp) > 1:
            raise Unsupported("multi-dimensional mask")
        raise Unsupported("mask index")
    if any(key[p].kind == "f" for p in adv):
        if key[adv[0]].shp and key[adv[0]].shp[0].const == 0:
            key[adv[0]] = astype(key[adv[0]], "i")
        else:
            raise IndexError("arrays used as indices must be of integer type")
    # advanced: integer arrays, integers count as advanced too
    for p, k in enumerate(key):
        if isintlike(k):
            key[p] = sarr(k) if not isinstance(k, SArr) else k
            if p not in adv:
                adv.append(p)
    adv.sort()
    # basic part
    src = a
    dims = []  # per source dim: ('adv', arr) or ('bas', start, step) or new
    d = 0
    outspec = []
    for p, k in enumerate(key):
        if k is None:
            outspec.append(("new",))
            continue
        if isinstance(k, slice):
            st, sp, ln = norm_slice(k, a.shp[d])
            outspec.append(("sl", d, st, sp, ln))
        else:
            outspec.append(("adv", d, k))
        d += 1
    ash = bshape(*[o[2].shp for o in outspec if o[0] == "adv"])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    out = []
    pos = None
    plan = {}
    if not contiguous:
        pos = 0
        out += list(ash)
    for p, o in enumerate(outspec):
        if o[0] == "adv":
            if pos is None:
                pos = len(out)
                out += list(ash)
        elif o[0] == "new":
            out.append(I((), 1))
        else:
            plan[o[1]] = ("sl", len(out), o[2], o[3])
            out.append(o[4])
    for o in outspec:
        if o[0] == "adv":
            plan[o[1]] = ("adv", o[2].reader(), o[2].shp)
            check_range(o[2], a.shp[o[1]])
    g = a.reader()
    nd = len(a.shp)
    na = len(ash)
    shp = a.shp

    def get(ix):
        aix = ix[pos : pos + na]
        b = []
        for d in range(nd):
            pl = plan[d]
            if pl[0] == "sl":
                b.append(pl[2].add(ix[pl[1]].scale(pl[3])))
            else:
                e = pl[1](bidx(pl[2], ash, aix))
                if e.const is not None and e.const < 0:
                    e = shp[d].add(e)
                elif ctx().decide(ile(I(), e)) is not True:
                    e = iite(ile(I(), e), e, shp[d].add(e))
                b.append(e)
        return g(tuple(b))

    return SArr(out, get, a.kind)


def check_range(k, n):
    """Every element of the index array k must be a valid index: else IndexError path."""
    us = [fresh_uid() for _ in k.shp]
    ix = tuple(I.bv(u) for u in us)
    if any(s.const == 0 for s in k.shp):
        return
    c = ctx()
    if all(s.const is not None for s in k.shp):
        import itertools

        for v in itertools.product(*[range(s.const) for s in k.shp]):
            e = k.reader()(tuple(I((), x) for x in v))
            if not c.branch(band(ile(n.scale(-1), e), ilt(e, n))):
                raise IndexError("index array out of bounds")
        return
    try:
        with scope(*[(u, I(), s) for u, s in zip(us, k.shp)]):
            e = k.reader()(ix)
            ok = c.decide(band(ile(n.scale(-1), e), ilt(e, n)))
            if ok is True:
                return
            lab = "inrange"
            key = "%s|%s" % (e.key(), n.key())
    except T.Split:
        c.assumptions.add("piecewise index arrays are in range")
        return
    b = B("p", ("all_in_range:" + akeyarr(k) + "<" + n.key(), ()))
    if not c.branch(b):
        raise IndexError("index array out of bounds")


def basic(a, key):
    view = []
    shape = []
    d = 0
    for k in key:
        if k is None:
            shape.append(I((), 1))
            continue
        n = a.shp[d]
        if isinstance(k, slice):
            st, sp, ln = norm_slice(k, n)
            view.append(("ax", len(shape), st, sp))
            shape.append(ln)
        else:
            view.append(("fix", norm_int(_k2i(k), n)))
        d += 1
    # compose with the existing view of a
    if a.vw is not None:
        comp = []
        for v in a.vw:
            if v[0] == "fix":
                comp.append(v)
            else:
                _, k, st, sp = v
                w = view[k]
                if w[0] == "fix":
                    comp.append(("fix", st.add(w[1].scale(sp))))
                else:
                    comp.append(("ax", w[1], st.add(w[2].scale(sp)), sp * w[3]))
        view = comp
    r = SArr(shape, buf=a.buf, view=tuple(view))
    if not shape and ctx().ghost.get("scalar_items", True):
        # indexing to a scalar yields a scalar value (numpy) -- not a view
        e = a.buf.get(_vmap(view, ()))
        if a.kind != "f":
            return scalar(e)
        return SArr((), lambda ix: e, "f")
    if a.segs is not None and all(isinstance(k, slice) and k == slice(None) for k in key):
        r.segs = a.segs
    return r


def permute(a, axes):
    inv = {ax: i for i, ax in enumerate(axes)}
    view = a.vw
    if view is None:
        view = tuple(("ax", k, I(), 1) for k in range(len(a.shp)))
    nv = tuple(v if v[0] == "fix" else ("ax", inv[v[1]], v[2], v[3]) for v in view)
    r = SArr(tuple(a.shp[ax] for ax in axes), buf=a.buf, view=nv)
    if a.segs is not None:
        r.segs = {inv[k]: s for k, s in a.segs.items()}
    return r


def swapaxes(a, i, j):
    n = len(a.shp)
    ax = list(range(n))
    i, j = i % n, j % n
    ax[i], ax[j] = ax[j], ax[i]
    return permute(a, tuple(ax))


def reshape(a, shape):
    a = sarr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = [toI(s) if not (isinstance(s, int) and s == -1) else None for s in shape]
    old = [s for s in a.shp]
    tot = I((), 1)
    for s in old:
        tot = tot.mul(s)
    if any(s is None for s in shape):
        p = [i for i, s in enumerate(shape) if s is None]
        if len(p) > 1:
            raise ValueError("can only specify one unknown dimension")
        known = [s for s in shape if s is not None and s.const != 1]
        rem = [s for s in old if s.const != 1]
        for s in known:
            for j, t in enumerate(rem):
                if t.key() == s.key() or (t.const is None or s.const is None) and ctx().decide(ieq(t, s)) is True:
                    del rem[j]
                    break
            else:
                ks = I((), 1)
                for s2 in known:
                    ks = ks.mul(s2)
                if ks.const is not None and tot.const is not None:
                    if tot.const % ks.const:
                        raise ValueError("cannot reshape")
                    rem = [I((), tot.const // ks.const)]
                    break
                # tot = ks * rest with rest visible?
                r = divide(tot, ks)
                if r is None:
                    if len(rem) == 1 and ks.const is None:
                        # (n,) -> (-1, d): length must be a multiple
                        raise Unsupported("reshape with unknown quotient")
                    raise Unsupported("reshape")
                rem = [r]
                break
        q = I((), 1)
        for s in rem:
            q = q.mul(s)
        shape[p[0]] = q
    new = I((), 1)
    for s in shape:
        new = new.mul(s)
    if new.add(tot, -1).const != 0:
        if not ctx().branch(ieq(new, tot)):
            raise ValueError("cannot reshape array")
    # strip ones
    so = [(i, s) for i, s in enumerate(old) if s.const != 1]
    sn = [(i, s) for i, s in enumerate(shape) if s.const != 1]
    same = len(so) == len(sn) and all(
        x[1].key() == y[1].key() or ctx().decide(ieq(x[1], y[1])) is True for x, y in zip(so, sn)
    )
    if same:
        axmap = {x[0]: y[0] for x, y in zip(so, sn)}
        view = a.vw
        if view is None:
            view = tuple(("ax", k, I(), 1) for k in range(len(old)))
        nv = []
        for v in view:
            if v[0] == "fix":
                nv.append(v)
            elif v[1] in axmap:
                nv.append(("ax", axmap[v[1]], v[2], v[3]))
            else:
                nv.append(("fix", v[2]))
        r = SArr(shape, buf=a.buf, view=tuple(nv))
        if a.segs is not None:
            r.segs = {axmap[k]: v for k, v in a.segs.items() if k in axmap}
        return r
    g = a.reader()
    old, shape = tuple(old), tuple(shape)

    def get(ix):
        return g(unravel(ravel(ix, shape), old))

    r = SArr(shape, get, a.kind)
    r.buf.frozen = True
    return r


def divide(a, b):
    """a / b for products of dims."""
    if b.const == 1:
        return a
    if b.const is not None and all(c % b.const == 0 for _, c in a.t) and a.c % b.const == 0:
        return I(tuple((x, c // b.const) for x, c in a.t), a.c // b.const)
    if len(a.t) == 1 and a.c == 0 and a.t[0][0][0] == "f" and a.t[0][0][1] == "*":
        x, y = a.t[0][0][2]
        if x.key() == b.key():
            return y.scale(a.t[0][1])
        if y.key() == b.key():
            return x.scale(a.t[0][1])
    if a.key() == b.key():
        return I((), 1)
    return None


def ravel(ix, shape):
    k = I()
    for i, s in zip(ix, shape):
        k = k.mul(s).add(i)
    return k


def unravel(k, shape):
    if not shape:
        return ()
    out = []
    for d in range(len(shape) - 1, 0, -1):
        s = shape[d]
        q, r = divmod_nf(k, s)
        out.append(r)
        k = q
    out.append(k)
    return tuple(reversed(out))


def divmod_nf(k, s):
    """(k // s, k % s) with k = q*s + r recognised syntactically when 0 <= r < s."""
    if s.const == 1:
        return k, I()
    if k.const is not None and s.const is not None:
        return I((), k.const // s.const), I((), k.const % s.const)
    q, r = I(), I((), k.c)
    for a, c in k.t:
        x = I(((a, 1),), 0)
        d = divide(x, s)
        if d is not None:
            q = q.add(d.scale(c))
        elif s.const is not None and c % s.const == 0:
            q = q.add(x.scale(c // s.const))
        else:
            r = r.add(x.scale(c))
    if ctx().decide(band(ile(I(), r), ilt(r, s))) is True:
        return q, r
    if ctx().decide(band(ile(I(), k), ilt(k, s))) is True:
        return I(), k
    return T.mkfn("//", (k, s)), T.mkfn("%", (k, s))


def setitem(a, key, val):
    if isinstance(key, SArr) and key.kind == "b" and len(key.shp) == len(a.shp):
        # masked assignment of a scalar or same-shape array
        v = sarr(val)
        m = key.reader()
        if len(key.shp) == 1 and len(v.shp) == 1 and v.shp[0].const != 1:
            return set_mask(a, [key], 0, key, v)
        if v.shp and not (len(v.shp) == len(a.shp)):
            raise Unsupported("masked assignment of an array")
        if v.shp and all(s.const == 1 for s in v.shp):
            pass
        elif v.shp:
            raise Unsupported("masked assignment of an array")
        gv = v.reader()
        e = gv(tuple(I() for _ in v.shp))
        write(a, lambda ix: m(ix), lambda ix: e, tuple(a.shp))
        return
    keyx = expand_key(a, key)
    adv = [p for p, k in enumerate(keyx) if not (k is None or isinstance(k, slice) or isintlike(k))]
    if adv:
        if len(adv) == 1:
            k = sarr(keyx[adv[0]])
            if k.kind == "b" and len(k.shp) == 1 and keyx.index(keyx[adv[0]]) == adv[0]:
                return set_mask(a, keyx, adv[0], k, val)
            if k.kind == "i" and len(k.shp) == 1:
                return set_fancy(a, keyx, adv[0], k, val)
        raise Unsupported("assignment through an index array")
    tgt = basic_view(a, keyx)
    v = sarr(val)
    out = bshape(tgt.shp, v.shp)
    if len(v.shp) > len(tgt.shp):
        extra = len(v.shp) - len(tgt.shp)
        if not all(ctx().branch(ieq(s, I((), 1))) for s in v.shp[:extra]):
            raise ValueError("could not broadcast input array")
        if not tgt.shp:
            e = v.elem(tuple(I() for _ in v.shp))
            write(tgt, None, lambda ix: e, ())
            return
        raise Unsupported("assignment broadcasting")
    for s, t in zip(out, tgt.shp):
        if s.key() != t.key() and not ctx().branch(ieq(s, t)):
            raise ValueError("could not broadcast input array")
    gv, sv, st = v.reader(), v.shp, tgt.shp
    write(tgt, None, lambda ix: gv(bidx(sv, st, ix)), st)


def basic_view(a, key):
    c = ctx()
    old = c.ghost.get("scalar_items", True)
    c.ghost["scalar_items"] = False
    try:
        return basic(a, list(key))
    finally:
        c.ghost["scalar_items"] = old


def conv_kind(e, k):
    if k == "f":
        return toR(e)
    if k == "i":
        return toint(e) if not isinstance(e, I) else e
    return eB(e)


def write(v, cond, val, shape):
    """Write val(ix) at view indices ix (where cond(ix)) through to the buffer."""
    buf = v.buf
    if buf.frozen:
        raise Unsupported("write through a reshaped array")
    if ctx().ghost.get("nowrite") is not None and buf in ctx().ghost["nowrite"]:
        ctx().ghost.setdefault("written", []).append(buf)
    old = buf.get
    k = buf.dtype
    buf.ver += 1
    view = v.vw
    nview = len(shape)
    full = cond is None and view is None
    if full:
        buf.get = memo(lambda b: conv_kind(val(b), k))
        return

    def get(b):
        conds = []
        ix = [I() for _ in range(nview)]
        if view is None:
            ix = list(b)
        else:
            for w, x in zip(view, b):
                if w[0] == "fix":
                    conds.append(ieq(x, w[1]))
                else:
                    _, ax, st, sp = w
                    y = x.add(st, -1)
                    if sp == -1:
                        y = y.scale(-1)
                    elif sp != 1:
                        q, r = divmod_nf(y, I((), sp))
                        conds.append(ieq(r, I()))
                        y = q
                    conds.append(ile(I(), y))
                    conds.append(ilt(y, shape[ax]))
                    ix[ax] = y
        ix = tuple(ix)
        pre = band(*conds) if conds else TRUE
        d = ctx().decide(pre)
        if d is False:
            return old(b)
        if cond is not None:
            if d is None and not isint(pre):
                raise Unsupported("write condition")
            if d is None:
                d = None
            pre2 = band(pre, cond(ix)) if d is not True else cond(ix)
        else:
            pre2 = pre
        return kite(pre2, lambda: conv_kind(val(ix), k), lambda: old(b), k)

    buf.get = memo(get)


def kite(b, fx, fy, k):
    r = ctx().decide(b)
    if r is True:
        return fx()
    if r is False:
        return fy()
    if k == "f":
        return ite(b, fx, fy)
    if b.bvs():
        ctx().trysplit(b)
    if k == "b":
        x, y = fx(), fy()
        return bor(band(b, x), band(bnot(b), y))
    if b.bvs():
        x, y = fx(), fy()
        if x.key() == y.key():
            return x
        raise Unsupported("integer element chosen by an undecided condition on a bound variable")
    return fx() if ctx().choose(b) else fy()


def set_mask(a, key, p, m, val):
    """a[..., mask, ...] = scalar-like (or broadcastable along the mask axis)."""
    d = sum(1 for k in key[:p] if k is not None)
    full = list(key)
    full[p] = slice(None)
    tgt = basic_view(a, full)
    ax = sum(1 for k in full[:p] if k is None or isinstance(k, slice))
    v = sarr(val)
    gm = m.reader()
    if v.shp and not all(s.const == 1 for s in v.shp):
        if m.shp[0].const is not None:
            idx = mask_index(m)
            if idx.shp[0].const:
                kk = list(key)
                kk[p] = idx
                set_fancy(a, kk, p, idx, val)
            return
        if len(v.shp) != len(tgt.shp) or v.shp[ax].key() != mask_len(m).key():
            raise Unsupported("masked assignment of an array")
        gv, sv, rank = v.reader(), v.shp, mask_rank(m)
        st = list(tgt.shp)
        st[ax] = v.shp[ax]
        st = tuple(st)

        def val_(ix):
            jx = list(ix)
            jx[ax] = rank(ix[ax])
            return gv(bidx(sv, st, tuple(jx)))

        write(tgt, lambda ix: gm((ix[ax],)), val_, tgt.shp)
        return
    e = v.elem(tuple(I() for _ in v.shp))
    write(tgt, lambda ix: gm((ix[ax],)), lambda ix: e, tgt.shp)


def set_fancy(a, key, p, k, val):
    """a[idx] = v with integer index array: only concrete-length index arrays."""
    n = k.shp[0].const
    v = sarr(val)
    if n is None:
        full = list(key)
        full[p] = slice(None)
        tgt = basic_view(a, full)
        ax = sum(1 for kk in full[:p] if kk is None or isinstance(kk, slice))
        inv = getattr(k, "meta", None)
        if inv and "inverse" in inv:
            # permutation-like index: position of row r is inverse(r)
            gi = inv["inverse"]
            gv, sv = v.reader(), v.shp
            st = list(tgt.shp)
            st[ax] = k.shp[0]
            st = tuple(st)

            def val_(ix):
                jx = list(ix)
                jx[ax] = gi(ix[ax])
                return gv(bidx(sv, st, tuple(jx)))

            write(tgt, lambda ix: inv["member"](ix[ax]), val_, tgt.shp)
            return
        raise Unsupported("assignment through a symbolic index array")
    for t in range(n):
        kk = list(key)
        kk[p] = unI(k.elem((I((), t),)))
        vv = v
        if v.shp and len(v.shp) >= 1:
            ax = sum(1 for q in key[:p] if q is None or isinstance(q, slice))
            tgtnd = sum(1 for q in key if q is None or isinstance(q, slice)) + 1
            if len(v.shp) == tgtnd:
                vk = [slice(None)] * len(v.shp)
                vk[ax] = t if v.shp[ax].const != 1 else 0
                vv = v[tuple(vk)]
        setitem(a, tuple(kk), vv)


# masks: compression of a boolean vector
def mask_key(m):
    return akeyarr(m)


def mask_interval(m):
    """(lo, hi) when the mask holds exactly on lo <= k < hi, by the shape of its condition; else None."""
    u = fresh_uid()
    N = m.shp[0]
    try:
        with scope((u, I(), N)):
            e = m.elem((I.bv(u),))
    except T.Split:
        return None
    parts = e.args if e.op == "and" else (e,)
    lo, hi = I(), N
    for b in parts:
        if b.op == "T":
            continue
        if b.op == "F":
            return I(), I()
        if b.op != "le":
            return None
        i = b.args[0]
        cs = [c for a, c in i.t if a == ("b", u)]
        rest = I(tuple((a, c) for a, c in i.t if a != ("b", u)), i.c)
        if cs not in ([1], [-1]) or u in rest.bvs():
            return None
        if cs == [1]:
            hi = imin(hi, rest.scale(-1).add(I((), 1)))
        else:
            lo = imax(lo, rest)
    return lo, imax(lo, hi)


def mask_len(m):
    if m.meta and "mask" in m.meta:
        return m.meta["mask"][0]
    iv = mask_interval(m)
    if iv is not None:
        return iv[1].add(iv[0], -1)
    k = nameof("mask", akeyarr(m))
    n = I.var("count!" + k)
    c = ctx()
    c.assume(ile(I(), n))
    c.assume(ile(n, m.shp[0]))
    from .core import COUNTS

    g, N = m.reader(), m.shp[0]
    COUNTS["count!" + k] = lambda: rsum(N, lambda v: ind(g((v,))))
    return n


def mask_index(m):
    """Increasing enumeration of the true positions of m."""
    c = m.shp[0].const
    if c is not None:
        out = []
        for i in range(c):
            e = m.elem((I((), i),))
            if ctx().branch(e):
                out.append(i)
        if not out:
            return SArr((0,), lambda ix: I(), "i")
        return sarr(out)
    iv = mask_interval(m)
    if iv is not None:
        return SArr((iv[1].add(iv[0], -1),), lambda ix: ix[0].add(iv[0]), "i")
    g = m.reader()
    k = nameof("mask", akeyarr(m))
    n = mask_len(m)
    from .core import ENUMS, INTHOOKS

    fn = "pos!" + k
    N = m.shp[0]

    def hook(args):
        out = []
        for (x,) in args:
            px = I.fn(fn, x)
            inr = band(ile(I(), x), ilt(x, n))
            body = [ile(I(), px), ilt(px, N)]
            try:
                body.append(g((px,)))
            except BaseException:
                pass
            out.append(bor(bnot(inr), band(*body)))
            for (y,) in args:
                if x.key() < y.key():
                    py = I.fn(fn, y)
                    out.append(
                        bor(
                            bnot(band(inr, ile(I(), y), ilt(y, n))),
                            band(
                                bor(bnot(ilt(x, y)), ilt(px, py)),
                                bor(bnot(ilt(y, x)), ilt(py, px)),
                            ),
                        )
                    )
        return out

    INTHOOKS[fn] = hook
    ENUMS[fn] = (n, N, lambda v: g((v,)))
    r = SArr((n,), lambda ix: I.fn(fn, ix[0]), "i")
    r.meta = {"maskfn": fn, "mask": m}
    return r


def mask_rank(m):
    """Position of i among the true positions; only used where m holds (there pos(rank(i)) = i)."""
    iv = mask_interval(m)
    if iv is not None:
        return lambda i: i.add(iv[0], -1)
    k = nameof("mask", akeyarr(m))
    return lambda i: I.fn("rank!" + k, i)


# --------------------------------------------------------------------------- canonical names
_REG = {}


def nameof(prefix, key):
    k = (prefix, key)
    if k not in _REG:
        _REG[k] = "%s#%d" % (prefix, len(_REG))
        _REG[("name", _REG[k])] = key
    return _REG[k]


def generic(a, f):
    """f applied to generic elements with placeholder indices, without forking."""
    c = ctx()
    ix = tuple(I.var("#%d" % d) for d in range(len(a.shp)))
    old = c.ghost.get("fork_ite", True)
    c.ghost["fork_ite"] = False
    c.solver.push()
    save = (len(c.pc), dict(c.pckeys), dict(c.eqs), set(c.fseen), c.cache, c.ver)
    try:
        for i, s in zip(ix, a.shp):
            c.assume(ile(I(), i))
            c.assume(ilt(i, s))
        return f(a.reader()(ix), ix)
    finally:
        c.ghost["fork_ite"] = old
        c.solver.pop()
        del c.pc[save[0] :]
        c.pckeys, c.eqs, c.fseen, c.cache = save[1:5]
        c.ver += 1


def akeyarr(a):
    """Canonical key of an array's contents."""
    if a.shp and any(s.const is not None and s.const > 0 for s in a.shp) and False:
        pass
    c = ctx()

    def f(e, ix):
        if c.eqs and not isinstance(e, B):
            m = {k: v for k, v in c.eqs.items() if not k[1].startswith("#")}
            e = e.subst(m)
        return e.key()

    k = generic(a, f)
    return "<%s>%s:%s" % (",".join(s.subst({k: v for k, v in c.eqs.items()}).key() for s in a.shp), a.kind, k)


def mk(name, shape, dtype="f", sym=False, pos=False, nonneg=False):
    """Fresh symbolic array constant."""
    if dtype == "f":
        if sym:
            T.SYM2.add(name)
        if pos:
            T.POS.add(name)
        if nonneg:
            T.NONNEG.add(name)
        return SArr(shape, lambda ix: R.arr(name, *ix), "f")
    if dtype == "i":
        return SArr(shape, lambda ix: I.fn(name, *ix) if ix else I.var(name), "i")
    return SArr(shape, lambda ix: B("p", (name, tuple(ix))), "b")


# --------------------------------------------------------------------------- structure
def broadcast_to(a, shape):
    a = sarr(a)
    shape = tuple(toI(s) if not (isinstance(s, int) and s == -1) else None for s in shape)
    k = len(shape) - len(a.shp)
    shape = tuple(a.shp[i - k] if s is None else s for i, s in enumerate(shape))
    out = bshape(a.shp, shape)
    g, sa = a.reader(), a.shp
    return SArr(out, lambda ix: g(bidx(sa, out, ix)), a.kind)


def unify_kind(xs):
    ks = {x.kind for x in xs}
    return "f" if "f" in ks else "i" if "i" in ks else "b"


def stack(xs, axis=0):
    xs = list(xs)
    from .instr import SymList

    xs = [sarr(x) for x in xs]
    k = unify_kind(xs)
    base = xs[0].shp
    for x in xs[1:]:
        if len(x.shp) != len(base):
            raise ValueError("all input arrays must have the same shape")
        for s, t in zip(x.shp, base):
            if s.key() != t.key() and not ctx().branch(ieq(s, t)):
                raise ValueError("all input arrays must have the same shape")
    nd = len(base) + 1
    axis = axis % nd
    gs = [x.reader() for x in xs]
    n = len(xs)

    def get(ix):
        i = ix[axis]
        rest = ix[:axis] + ix[axis + 1 :]
        if i.const is not None:
            return conv_kind(gs[i.const](rest), k)
        return pick(i, n, lambda v: conv_kind(gs[v](rest), k), k)

    return SArr(base[:axis] + (I((), n),) + base[axis:], get, k)


def concat(xs, axis=0):
    from .instr import SymList

    if isinstance(xs, SymList):
        return xs.concat(axis)
    xs = [sarr(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    nd = len(xs[0].shp)
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for x in xs[1:]:
        if len(x.shp) != nd:
            raise ValueError("dimensions must match")
        for d in range(nd):
            if d != axis and x.shp[d].key() != xs[0].shp[d].key():
                if not ctx().branch(ieq(x.shp[d], xs[0].shp[d])):
                    raise ValueError("all the input array dimensions must match exactly")
    k = unify_kind([x for x in xs if x.shp[axis].const != 0] or xs)
    offs = [I()]
    for x in xs:
        offs.append(offs[-1].add(x.shp[axis]))
    gs = [x.reader() for x in xs]

    def get(ix):
        i = ix[axis]

        def rec(j):
            if j == len(xs) - 1:
                jx = ix[:axis] + (i.add(offs[j], -1),) + ix[axis + 1 :]
                return conv_kind(gs[j](jx), k)

            def here():
                jx = ix[:axis] + (i.add(offs[j], -1),) + ix[axis + 1 :]
                return conv_kind(gs[j](jx), k)

            return kite(ilt(i, offs[j + 1]), here, lambda: rec(j + 1), k)

        return rec(0)

    shape = xs[0].shp[:axis] + (offs[-1],) + xs[0].shp[axis + 1 :]
    r = SArr(shape, get, k)
    segs = {}
    for x in xs:
        if x.segs:
            for a_, s_ in x.segs.items():
                if a_ != axis:
                    segs[a_] = s_
    s = []
    for j, x in enumerate(xs):
        if x.segs and axis in x.segs:
            s += [offs[j].add(t) for t in x.segs[axis][:-1]]
        else:
            s.append(offs[j])
    s.append(offs[-1])
    segs[axis] = s
    r.segs = segs
    return r


def diag(a):
    a = sarr(a)
    g = a.reader()
    if len(a.shp) == 1:
        return SArr(
            (a.shp[0], a.shp[0]), lambda ix: rite(ieq(ix[0], ix[1]), toR(g((ix[0],))), ZERO), "f"
        )
    n = a.shp[0] if a.shp[0].key() == a.shp[1].key() else imin(a.shp[0], a.shp[1])
    return SArr((n,), lambda ix: g((ix[0], ix[0])), a.kind)


# --------------------------------------------------------------------------- reductions
def axes_of(a, axis):
    n = len(a.shp)
    if axis is None:
        return tuple(range(n))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(x % n for x in axis))
    if isinstance(axis, SInt):
        raise Unsupported("symbolic axis")
    if not -n <= axis < n:
        raise IndexError("axis out of range")
    return (axis % n,)


def reduce_shape(a, ax, keep):
    out = []
    for d, s in enumerate(a.shp):
        if d in ax:
            if keep:
                out.append(I((), 1))
        else:
            out.append(s)
    return tuple(out)


def _full(nd, ax, keep, ix, red):
    out, j, r = [], 0, 0
    for d in range(nd):
        if d in ax:
            out.append(red[r])
            r += 1
            if keep:
                j += 1
        else:
            out.append(ix[j])
            j += 1
    return tuple(out)


def reduce_sum(a, axis=None, keep=False):
    a = sarr(a)
    ax = axes_of(a, axis)
    g, nd, shp = a.reader(), len(a.shp), a.shp
    if a.kind == "i":
        # integer sums stay integer when the axes are concrete
        if all(shp[d].const is not None for d in ax):
            def geti(ix):
                import itertools

                tot = I()
                for red in itertools.product(*[range(shp[d].const) for d in ax]):
                    tot = tot.add(g(_full(nd, ax, keep, ix, [I((), r) for r in red])))
                return tot

            return ret(SArr(reduce_shape(a, ax, keep), geti, "i"))

    def get(ix):
        def rec(red):
            if len(red) == len(ax):
                return toR(g(_full(nd, ax, keep, ix, red)))
            return rsum(shp[ax[len(red)]], lambda k: rec(red + [k]))

        return rec([])

    return ret(SArr(reduce_shape(a, ax, keep), get, "f"))


def ret(a):
    return a


def count(a, ax):
    n = I((), 1)
    for d in ax:
        n = n.mul(a.shp[d])
    return n


def reduce_mean(a, axis=None, keep=False):
    a = sarr(a)
    ax = axes_of(a, axis)
    n = count(a, ax)
    return reduce_sum(a, axis, keep) / unI(n)


def reduce_var(a, axis=None, ddof=0, keep=False):
    a = sarr(a)
    ax = axes_of(a, axis)
    n = count(a, ax)
    m = reduce_mean(a, axis, True)
    dv = a - m
    return reduce_sum(dv * dv, axis, keep) / unI(n.add(toI(ddof), -1))


def reduce_all(a, axis=None):
    a = sarr(a)
    if a.kind != "b":
        a = imap(a, eB, "b")
    ax = axes_of(a, axis)
    g, nd, shp = a.reader(), len(a.shp), a.shp

    def get(ix):
        import itertools

        if all(shp[d].const is not None for d in ax):
            return band(
                *[
                    g(_full(nd, ax, False, ix, [I((), v) for v in red]))
                    for red in itertools.product(*[range(shp[d].const) for d in ax])
                ]
            )
        us = [fresh_uid() for _ in ax]
        c = ctx()
        with scope(*[(u, I(), shp[d]) for u, d in zip(us, ax)]):
            try:
                e = g(_full(nd, ax, False, ix, [I.bv(u) for u in us]))
            except T.Split:
                raise Unsupported("all() over a piecewise array")
            r = c.decide(e)
        if r is True:
            return TRUE
        emptyc = bor(*[ieq(shp[d], I()) for d in ax])
        if r is False:
            return emptyc
        b = e
        for u, d in zip(us, ax):
            b = forall(u, shp[d], b)
        return b

    return ret_b(SArr(reduce_shape(a, ax, False), get, "b"))


def forall(u, hi, b):
    return B("p", ("forall", (T.Bind(u, hi, b),)))


def ret_b(a):
    return a


class Ext:
    pass


def reduce_ext(a, op, axis=None, keep=False):
    """max / min over axes."""
    a = sarr(a)
    ax = axes_of(a, axis)
    g, nd, shp = a.reader(), len(a.shp), a.shp
    f = rmax if op == "max" else rmin
    for d in ax:
        if shp[d].const == 0 or (shp[d].const is None and not ctx().branch(ilt(I(), shp[d]))):
            raise ValueError("zero-size array to reduction operation")
    if a.kind == "i":
        if all(shp[d].const is not None for d in ax):
            fi = imax if op == "max" else imin

            def geti(ix):
                import itertools

                tot = None
                for red in itertools.product(*[range(shp[d].const) for d in ax]):
                    e = g(_full(nd, ax, keep, ix, [I((), r) for r in red]))
                    tot = e if tot is None else fi(tot, e)
                return tot

            return SArr(reduce_shape(a, ax, keep), geti, "i")

    def get(ix):
        import itertools

        if all(shp[d].const is not None for d in ax):
            tot = None
            for red in itertools.product(*[range(shp[d].const) for d in ax]):
                e = toR(g(_full(nd, ax, keep, ix, [I((), r) for r in red])))
                tot = e if tot is None else f(tot, e)
            return tot

        def rec(red):
            if len(red) == len(ax):
                return toR(g(_full(nd, ax, keep, ix, red)))
            d = ax[len(red)]
            return ext_over(op, shp[d], lambda k: rec(red + [k]))

        return rec([])

    return SArr(reduce_shape(a, ax, keep), get, "f")


def ext_over(op, hi, f):
    """max/min_{0<=k<hi} f(k) as an atom; constants and positive scalings are pulled out."""
    if hi.const == 1:
        return f(I())
    u = fresh_uid()
    c = ctx()
    n0 = len(c.scopes)
    c.scopes.append((u, I(), hi))
    try:
        body = f(I.bv(u))
    except T.Split as sp:
        del c.scopes[n0:]
        if sp.uid != u:
            raise
        at = sp.at
        if c.branch(ile(at, I())) or c.branch(ile(hi, at)):
            return ext_over(op, hi, f)
        ff = rmax if op == "max" else rmin
        return ff(
            ext_over(op, at, f), ext_over(op, hi.add(at, -1), lambda k: f(k.add(at)))
        )
    finally:
        del c.scopes[n0:]
    dep, indep = ZERO, ZERO
    for k, (co, m) in body.terms.items():
        t = R({k: (co, m)})
        if u in t.bvs():
            dep = dep + t
        else:
            indep = indep + t
    if not dep.terms:
        return indep
    dep, mul, sg = affine_pull(dep, u)
    if sg < 0:
        op = "min" if op == "max" else "max"
    return indep + mul * bindatom(op, u, hi, dep)


def rsgn(a):
    """1 or -1 when the sign of the atom is known, else 0."""
    r = a.args[0] if a.kind == "fn" and a.name == "inv" else R.atom(a)
    if rpos(r) or ctx().decide(rlt0(r.neg())) is True:
        return 1
    return -1 if ctx().decide(rlt0(r)) is True else 0


def affine_pull(dep, u):
    """Factor the constants of known sign out of a one-term body: dep = mul * rest, sign of mul."""
    if len(dep.terms) != 1:
        return dep, ONE, 1
    ((co, (bvs, ats)),) = dep.terms.values()
    mul, sg = R.num(co), (1 if co > 0 else -1)
    keep = []
    for a, p in ats:
        s = 0 if u in a.bvs() or bvs else rsgn(a)
        if s:
            mul = mul * (R.atom(a, p) if p > 0 else rinv(R.atom(a, -p)))
            sg *= s if p % 2 else 1
        else:
            keep.append((a, p))
    return T.rmono(T.Fraction(1), bvs, tuple(keep)), mul, sg


def bindatom(op, u, hi, body):
    return R.atom(Atom("red", "R" + op, (T.Bind(u, hi, body),)))


def argext(a, op, axis=None):
    a = sarr(a)
    if axis is None and len(a.shp) > 1:
        a = reshape(a, (-1,))
    ax = axes_of(a, axis)
    if len(ax) != 1:
        raise Unsupported("argmin/argmax axes")
    d = ax[0]
    n = a.shp[d]
    g, nd = a.reader(), len(a.shp)
    if n.const is not None:
        def getc(ix):
            best, bi = None, None
            for v in range(n.const):
                e = toR(g(_full(nd, ax, False, ix, [I((), v)])))
                if best is None:
                    best, bi = e, I((), 0)
                else:
                    better = rlt0(best - e) if op == "max" else rlt0(e - best)
                    if ctx().branch(better):
                        best, bi = e, I((), v)
            return bi

        return scal(SArr(reduce_shape(a, ax, False), getc, "i"))
    if not ctx().branch(ilt(I(), n)):
        raise ValueError("attempt to get argmin of an empty sequence")

    def get(ix):
        from .core import INTHOOKS

        u = fresh_uid()
        with scope((u, I(), n)):
            e = toR(g(_full(nd, ax, False, ix, [I.bv(u)])))
        key = T.Bind(u, n, e).key()
        v = I.var(nameof("arg" + op, key))
        ctx().assume(ile(I(), v))
        ctx().assume(ilt(v, n))
        lst = ctx().ghost.setdefault("argext", [])
        lst.append((op, v, u, n, e))
        return v

    return scal(SArr(reduce_shape(a, ax, False), get, "i"))


def scal(a):
    if not a.shp:
        return scalar(a.elem(()))
    return a


def cumsum(a, axis=None):
    a = sarr(a)
    if axis is None and len(a.shp) > 1:
        a = reshape(a, (-1,))
    d = axes_of(a, axis if axis is not None else 0)[0]
    g, k = a.reader(), a.kind

    def get(ix):
        i = ix[d]
        if i.const is not None and k == "i":
            t = I()
            for v in range(i.const + 1):
                t = t.add(g(ix[:d] + (I((), v),) + ix[d + 1 :]))
            return t
        return rsum(i.add(I((), 1)), lambda q: toR(g(ix[:d] + (q,) + ix[d + 1 :])))

    return SArr(a.shp, get, "i" if k == "i" and a.shp[d].const is not None else "f")


# --------------------------------------------------------------------------- products
def matmul(a, b):
    a, b = sarr(a), sarr(b)
    if not a.shp or not b.shp:
        raise ValueError("matmul: 0-d operand")
    ga, gb = a.reader(), b.reader()
    n = a.shp[-1]
    m = b.shp[-2] if len(b.shp) > 1 else b.shp[0]
    if n.key() != m.key() and not ctx().branch(ieq(n, m)):
        raise ValueError("matmul: mismatch in core dimension")
    if len(a.shp) > 2 or len(b.shp) > 2:
        raise Unsupported("batched matmul")
    if len(a.shp) == 1 and len(b.shp) == 1:
        return SArr((), lambda ix: rsum(n, lambda k: toR(ga((k,))) * toR(gb((k,)))), "f")
    if len(a.shp) == 1:
        return SArr((b.shp[1],), lambda ix: rsum(n, lambda k: toR(ga((k,))) * toR(gb((k, ix[0])))), "f")
    if len(b.shp) == 1:
        return SArr((a.shp[0],), lambda ix: rsum(n, lambda k: toR(ga((ix[0], k))) * toR(gb((k,)))), "f")
    return SArr(
        (a.shp[0], b.shp[1]), lambda ix: rsum(n, lambda k: toR(ga((ix[0], k))) * toR(gb((k, ix[1])))), "f"
    )


def einsum(spec, *ops):
    ops = [sarr(o) for o in ops]
    spec = spec.replace(" ", "")
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: wrong number of operands")
    labs = []
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ne = len(o.shp) - len(s.replace("...", ""))
            if ne < 0:
                raise ValueError("einsum: too many subscripts")
            nell = max(nell, ne)
    for s, o in zip(ins, ops):
        if "..." in s:
            ne = len(o.shp) - len(s.replace("...", ""))
            pre, post = s.split("...")
            l = list(pre) + ["@%d" % (nell - ne + i) for i in range(ne)] + list(post)
        else:
            l = list(s)
        if len(l) != len(o.shp):
            raise ValueError("einsum: operand has wrong number of dimensions")
        labs.append(l)
    ell = ["@%d" % i for i in range(nell)]
    if arrow:
        if "..." in out:
            pre, post = out.split("...")
            ol = list(pre) + ell + list(post)
        else:
            ol = list(out)
    else:
        cnt = {}
        for l in labs:
            for x in l:
                cnt[x] = cnt.get(x, 0) + 1
        ol = ell + sorted(x for x in cnt if cnt[x] == 1 and x[0] != "@")
    dims = {}
    for l, o in zip(labs, ops):
        for x, s in zip(l, o.shp):
            if x in dims:
                if dims[x].key() != s.key():
                    if x[0] == "@" and (s.const == 1 or dims[x].const == 1):
                        dims[x] = s if dims[x].const == 1 else dims[x]
                        continue
                    if not ctx().branch(ieq(dims[x], s)):
                        raise ValueError("einsum: operands could not be broadcast")
            else:
                dims[x] = s
    red = [x for x in dims if x not in ol]
    gs = [o.reader() for o in ops]

    def get(ix):
        env = dict(zip(ol, ix))

        def rec(j, env):
            if j == len(red):
                r = ONE
                for g, l, o in zip(gs, labs, ops):
                    r = r * toR(g(tuple(I() if s.const == 1 else env[x] for x, s in zip(l, o.shp))))
                return r
            return rsum(dims[red[j]], lambda k: rec(j + 1, {**env, red[j]: k}))

        return rec(0, env)

    return SArr(tuple(dims[x] for x in ol), get, "f")


def where(c, x=None, y=None):
    if x is None:
        m = sarr(c)
        if len(m.shp) == 1:
            return (mask_index(m),)
        raise Unsupported("where with one argument")
    c, x, y = sarr(c), sarr(x), sarr(y)
    k = unify_kind([x, y])
    out = bshape(c.shp, x.shp, y.shp)
    gc, gx, gy = c.reader(), x.reader(), y.reader()
    sc, sx, sy = c.shp, x.shp, y.shp

    def get(ix):
        b = eB(gc(bidx(sc, out, ix)))
        return kite(
            b, lambda: conv_kind(gx(bidx(sx, out, ix)), k), lambda: conv_kind(gy(bidx(sy, out, ix)), k), k
        )

    return SArr(out, get, k)


def repeat_seq(seq, n):
    from .instr import SymList

    if len(seq) == 1:
        x = seq[0]
        return SymList.of(n, lambda k: x)
    raise Unsupported("sequence repetition")
