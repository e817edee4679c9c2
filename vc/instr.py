"""Loading of the real gpmp modules for symbolic execution.

The module source is compiled unchanged; its `__builtins__` are replaced so that
builtins (len, range, float, isinstance, ...) accept symbolic values and imports of
numpy / scipy / torch / matplotlib resolve to the assumed contracts of vc/fnp.py and
vc/ftorch.py.
"""
import ast
import builtins as _b
import importlib.abc
import importlib.machinery
import os
import sys
import types

import numpy as _np

from . import terms as T
from .terms import I, R, TRUE, Unsupported, ZERO, ieq, ile, ilt, toI, rle0, rlt0, PathEnd
from .core import ctx
from . import loops
from .loops import set_locals

REPO = os.environ.get("VC_REPO", "/repo")
BOUND = [4]


class SymIter:
    """Iteration over a symbolic range, unrolled up to a stated bound (labelled bounded)."""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        k = 0
        c = ctx()
        frame = sys._getframe(1)
        invs = c.ghost.get("invariants", {})
        own = frame.f_code.co_name
        for inv in [invs[own]] if own in invs else invs.values():  # a moved loop keeps its invariant
            names = loop_targets(frame, inv)
            if names:
                yield from inductive(frame, names, inv, self)
                return
        if frame.f_code.co_name in c.ghost.get("stateless", ()):
            yield from stateless(frame, self)
            return
        if c.ghost.get("summarise"):
            frames = loops.chain(frame)
            if frames:
                site = (frames[0].f_code.co_filename, frames[0].f_code.co_name, loops.at_for(frames[0]).offset)
                yield from loops.summarise(frames, self, site)
                return
            raise loops.Open("iteration in %s" % frame.f_code.co_name)
        while c.branch(ilt(I((), k), self.n)):
            if k >= BOUND[0]:
                c.ghost["bounded"] = BOUND[0]
                raise PathEnd()
            yield self.item(k)
            k += 1


def loop_targets(frame, inv):
    """Locals whose value at loop entry is the invariant at 0 (the variable's name does not matter)."""
    from .arr import SArr, sarr
    from .run import holds_eq

    want = inv(I())
    return [
        k for k, v in frame.f_locals.items()
        if (isinstance(v, SArr) or (not want.shp and type(v) in (int, float))) and holds_eq(sarr(v), want)
    ]


def inductive(frame, names, inv, it):
    """Hoare rule for `for k in range(n)`: base case checked by loop_targets, then step or exit."""
    from .arr import SArr
    from .run import eq, record

    c = ctx()
    record("loop-invariant-base", True)

    def state(k):
        w = inv(k)
        g = w.reader()
        return SArr(w.shp, lambda ix: g(ix), w.kind)

    if c.choose_free("loop step"):
        v = I.var(c.fresh("k~"))
        c.assume(ile(I(), v))
        c.assume(ilt(v, it.n))
        set_locals(frame, {x: state(v) for x in names})
        old = {x: (y, y.buf.ver if isinstance(y, SArr) else None) for x, y in frame.f_locals.items() if x not in names}
        yield it.item(v)
        loc = frame.f_locals
        for x in names:
            eq("loop-invariant-step", loc[x], state(v.add(I((), 1))))
        body = stored_in_loop(frame)
        for x, (y, ver) in old.items():
            if x in body:
                continue
            same = loc.get(x) is y and (ver is None or y.buf.ver == ver)
            if not same:
                record("loop-frame", False, "%s is changed by the loop and not covered by the invariant" % x)
        record("loop-frame", True)
        raise T.LoopDone()
    set_locals(frame, {x: state(it.n) for x in names})


def stateless(frame, it):
    """Loop carrying no state: one arbitrary iteration, or the exit; frame obligations say nothing is carried."""
    from .arr import SArr
    from .run import record

    c = ctx()
    if not c.choose_free("loop step"):
        c.ghost["loop"] = ("exit", it.n, None)
        return
    v = I.var(c.fresh("k~"))
    c.assume(ile(I(), v))
    c.assume(ilt(v, it.n))
    c.ghost["loop"] = ("step", it.n, v)

    def snap():
        out = {}
        for x, y in frame.f_locals.items():
            out[x] = (y, y.buf.ver if isinstance(y, SArr) else len(y) if isinstance(y, (list, dict)) else None)
            if x == "self":
                for a, b in vars(y).items():
                    out["self." + a] = (b, b.buf.ver if isinstance(b, SArr) else len(b) if isinstance(b, (list, dict)) else None)
        return out

    old = snap()
    yield it.item(v)
    new, body = snap(), stored_in_loop(frame)
    for x, (y, ver) in old.items():
        if x not in body and (x not in new or new[x][0] is not y or new[x][1] != ver):
            record("loop-frame", False, "%s is carried from one iteration to the next" % x)
    record("loop-frame", True)
    raise T.LoopDone()


def stored_in_loop(frame):
    """The loop's own iteration variable (rebound by the for statement itself)."""
    import dis

    f = loops.at_for(frame)
    if f is None:
        return set()
    return {next(a for a in dis.get_instructions(frame.f_code) if a.offset > f.offset).argval}


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = toI(lo), toI(hi), step

    @property
    def n(self):
        d = self.hi.add(self.lo, -1)
        if self.step == 1:
            return d if ctx().branch(ile(I(), d)) else I()
        from .arr import ifloordiv

        if isinstance(self.step, int) and self.step < 0:
            raise Unsupported("negative symbolic range step")
        s = toI(self.step)
        if not ctx().branch(ilt(I(), d)):
            return I()
        return ifloordiv(d.add(s).add(I((), -1)), s)

    def slen(self):
        from .arr import unI

        return unI(self.n)

    def at(self, k):
        from .arr import unI

        return unI(self.lo.add(toI(k).mul(toI(self.step))))

    def __iter__(self):
        return iter(SymIter(self.n, lambda k: self.at(k)))

    def __len__(self):
        raise Unsupported("len of symbolic range")


class SymList:
    """List of symbolic length given by a function of the position."""

    def __init__(self, n, f):
        self.n, self.f = n, f
        self.depth = len(ctx().loops)
        self.added = []  # during the run of a loop body: elements appended by it

    @staticmethod
    def of(n, f):
        return SymList(toI(n), f)

    def slen(self):
        from .arr import unI

        return unI(self.n)

    def __iter__(self):
        return iter(SymIter(self.n, lambda k: self.f(toI(k))))

    def __getitem__(self, k):
        from .arr import norm_int

        if isinstance(k, slice):
            from .arr import norm_slice

            st, sp, ln = norm_slice(k, self.n)
            return SymList(ln, lambda i: self.f(st.add(toI(i).scale(sp))))
        return self.f(norm_int(k, self.n))

    def __bool__(self):
        return ctx().branch(ilt(I(), self.n))

    def to_array(self):
        from .arr import SArr, SInt, SBool, sarr, conv_kind
        from .core import scope
        from .terms import fresh_uid

        if ctx().ghost.get("summarise"):
            if not ctx().branch(ilt(I(), self.n)):
                return sarr([])
            e = sarr(self.f(I()))
        else:
            u = fresh_uid()
            with scope((u, I(), self.n)):
                e = sarr(self.f(I.bv(u)))
        kind, shp = e.kind, e.shp

        def get(ix):
            return conv_kind(sarr(self.f(ix[0])).elem(ix[1:]), kind)

        return SArr((self.n,) + shp, get, kind)

    def __add__(self, o):
        if isinstance(o, (list, tuple)) and not len(o):
            return self
        if isinstance(o, (list, tuple)):
            o = SymList.of(I((), len(o)), lambda i, o=list(o): _pick(o, i))
        # (the function of self as it is now)
        return loops.joined(SymList(self.n, self.f), o)

    def __radd__(self, o):
        return loops.joined(o, self)

    def concat(self, axis):
        """Rows of all the elements one after the other: row r is row r - start of element piece(r)."""
        from .arr import SArr, SInt, sarr
        from .core import INTHOOKS, scope
        from .terms import fresh_uid, bor

        u = fresh_uid()
        with scope((u, I(), self.n)):
            e = sarr(self.f(I.bv(u)))
        if axis != 0 or not e.shp or any(u in s.bvs() for s in e.shp[1:]):
            raise Unsupported("concatenation of a symbolic list")
        rows = lambda k: e.shp[0].subst({("b", u): toI(k)})
        start = loops.partial(self.n, rows)
        total = start(self.n)
        name = "piece!" + e.shp[0].key({u: "@"})
        n = self.n

        def hook(args):
            out = []
            for (a,) in args:
                p = I.fn(name, a)
                out.append(bor(ilt(a, I()), ile(total, a), band_(
                    ile(I(), p), ilt(p, n), ile(start(p), a), ilt(a, start(p).add(rows(p))))))
            return out + loops.also(start, [I.fn(name, a) for (a,) in args], [a for (a,) in args] + [total])

        INTHOOKS[name] = hook

        def get(ix):
            p = I.fn(name, ix[0])
            return sarr(self.f(p)).elem((ix[0].add(start(p), -1),) + tuple(ix[1:]))

        return SArr((total,) + e.shp[1:], get, e.kind)

    def append(self, x):
        if len(ctx().loops) > self.depth:
            self.added.append(x)
        else:
            new = self + [x]
            self.n, self.f = new.n, new.f

    def extend(self, xs):
        if len(ctx().loops) > self.depth:
            raise Unsupported("extension of a symbolic list in a loop")
        new = self + xs
        self.n, self.f = new.n, new.f

    __iadd__ = __add__


def band_(*a):
    from .terms import band

    return band(*a)


def _pick(l, i):
    for j in range(len(l) - 1):
        if ctx().branch(ieq(i, I((), j))):
            return l[j]
    return l[-1]


# ------------------------------------------------------------------ builtins
def _sym(x):
    from .arr import Sym

    return isinstance(x, (Sym, SymList, SRange, R, I))


def s_len(x):
    if hasattr(x, "slen"):
        return x.slen()
    from .arr import SInt

    if not isinstance(x, (list, tuple, dict, str, set, _np.ndarray)):
        f = getattr(type(x), "__len__", None)
        if isinstance(f, types.FunctionType):
            return f(x)
    return len(x)


class s_range_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.range, SRange))


class s_range(metaclass=s_range_meta):
    def __new__(cls, *a):
        from .arr import SInt

        if any(_sym(x) for x in a):
            a = [toI(x) if not isinstance(x, int) else I((), x) for x in map(_int0, a)]
            if all(x.const is not None for x in a):
                return range(*[x.const for x in a])
            if len(a) == 1:
                return SRange(I(), a[0])
            st = a[2].const if len(a) == 3 and a[2].const is not None else (a[2] if len(a) == 3 else 1)
            return SRange(a[0], a[1], st)
        return range(*a)


def _int0(x):
    from .arr import SArr

    if isinstance(x, SArr):
        return x.item() if x.kind == "i" else _bad()
    return x


def _bad():
    raise TypeError("integer expected")


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls.__mro__[0]

    def __hash__(cls):
        return hash(float)


class s_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        from .arr import SArr, SInt, SBool, sreal, toR

        if isinstance(x, SArr):
            for s in x.shp:
                if not ctx().branch(ieq(s, I((), 1))):
                    raise TypeError("only size-1 arrays can be converted to Python scalars")
            r = sreal(toR(x))
            r.meta = {"py": 1}
            return r
        if isinstance(x, (SInt, SBool)):
            r = sreal(toR(x))
            r.meta = {"py": 1}
            return r
        return float(x)

    fromhex = float.fromhex


s_float.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, int)

    def __eq__(cls, o):
        return o is int or o is cls.__mro__[0]

    def __hash__(cls):
        return hash(int)


class s_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        from .arr import SArr, SInt, SBool, toint, unI

        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return 1 if bool(x) else 0
        if isinstance(x, SArr):
            for s in x.shp:
                if not ctx().branch(ieq(s, I((), 1))):
                    raise TypeError("only size-1 arrays can be converted to Python scalars")
            return unI(toint(x.elem(tuple(I() for _ in x.shp))))
        return int(x, *a)


s_int.__name__ = "int"


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, bool)

    def __eq__(cls, o):
        return o is bool or o is cls.__mro__[0]

    def __hash__(cls):
        return hash(bool)


class s_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        from .arr import SBool, SArr, wrapB, toB

        if isinstance(x, SBool):
            return x
        if isinstance(x, SArr) and all(s.const == 1 for s in x.shp):
            e = x.elem(tuple(I() for _ in x.shp))
            return wrapB(toB(e) if not isinstance(e, (R, I)) else toB(x.reshape(())))
        return bool(x)


s_bool.__name__ = "bool"


def torch_mode():
    return ctx().ghost.get("backend") == "torch"


def s_isinstance(x, t):
    from .arr import SArr, SInt, SBool
    from . import fakes

    if isinstance(t, tuple):
        return any(s_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(s_isinstance(x, u) for u in t.__args__)
    if t is s_int:
        t = int
    elif t is s_float:
        t = float
    elif t is s_bool:
        t = bool
    nm = getattr(t, "__name__", "")
    if isinstance(x, SInt):
        if t in (int,):
            return True
        if t in (bool, float, str):
            return False
        import numbers

        if t in (numbers.Integral, numbers.Number, numbers.Real):
            return True
        return nm in ("SInt", "Sym")
    if isinstance(x, SBool):
        return t in (bool, int) or nm == "SBool"
    if isinstance(x, SArr):
        py = bool(x.meta and x.meta.get("py"))
        nd0 = bool(x.meta and x.meta.get("nd0"))
        npa = bool(x.meta and x.meta.get("np"))
        if t is fakes.Tensor:
            return torch_mode() and not py and not npa
        if t is fakes.ndarray:
            if torch_mode() and not npa:
                return False
            return not py and (bool(x.shp) or nd0)
        if t is fakes.npgeneric or t is fakes.npfloating:
            return (not torch_mode()) and not x.shp and not nd0 and not py
        if t is float:
            if py:
                return x.kind == "f"
            return (not torch_mode()) and not x.shp and not nd0 and x.kind == "f"
        if t in (int, bool, str, list, tuple, dict):
            return False
        import numbers

        if t in (numbers.Number, numbers.Real):
            return s_isinstance(x, float)
        return nm in ("SArr", "Sym")
    if isinstance(x, SymList):
        return t in (list,)
    if t is fakes.ndarray:
        return isinstance(x, _np.ndarray)
    if t is fakes.Tensor:
        return False
    if t is fakes.npgeneric:
        return isinstance(x, _np.generic)
    if t is fakes.npfloating:
        return isinstance(x, _np.floating)
    try:
        return isinstance(x, t)
    except TypeError:
        return False


def s_abs(x):
    return abs(x)


def _scalars(a):
    return len(a) > 1


def s_max(*a, **k):
    return _minmax(a, k, True)


def s_min(*a, **k):
    return _minmax(a, k, False)


def _minmax(a, k, mx):
    from .arr import SArr, SInt, sarr, binop, imax, imin, unI
    from .core import rmax, rmin

    seq = list(a) if len(a) > 1 else list(a[0])
    if not any(_sym(x) for x in seq):
        if not seq:
            return (max if mx else min)(seq, **k)
        return (max if mx else min)(seq, **k)
    key = k.get("key")
    best = seq[0]
    for x in seq[1:]:
        if key is not None:
            c = (key(x) > key(best)) if mx else (key(x) < key(best))
            best = x if bool(c) else best
            continue
        if isinstance(x, (int, SInt)) and isinstance(best, (int, SInt)):
            best = unI((imax if mx else imin)(toI(best), toI(x)))
            continue
        sa, sb = sarr(x), sarr(best)
        if not sa.shp and not sb.shp:
            best = binop(best, x, rmax if mx else rmin)
            best.meta = {"py": 1}
        else:
            c = (x > best) if mx else (x < best)
            best = x if bool(c) else best
    return best


def s_sum(x, start=0):
    r = start
    if isinstance(x, SymList) and ctx().ghost.get("summarise"):
        return start + loops.total(x)
    for y in x:
        r = r + y
    return r


def s_any(x):
    from .arr import SBool, wrapB, toB, SArr

    for y in x:
        if y:
            return True
    return False


def s_all(x):
    for y in x:
        if not y:
            return False
    return True


def s_round(x, n=None):
    if _sym(x):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


def s_hasattr(x, n):
    from .arr import SArr

    if isinstance(x, SArr) and not torch_mode() and n in ("detach", "numpy", "cpu", "clone", "requires_grad"):
        return False
    if isinstance(x, SArr) and n == "tolist":
        return True
    return hasattr(x, n)


def s_enumerate(x, start=0):
    x = symlist(x)
    if isinstance(x, SymList):
        from .arr import unI

        return SymList(x.n, lambda k: (unI(toI(start).add(toI(k))), x.f(toI(k))))
    return _enumerate(x, start)


def _enumerate(x, start):
    i = start
    for y in x:
        yield i, y
        i += 1


def symlist(x):
    """Symbolic ranges and lists as lists when loops are closed without unrolling."""
    if ctx().ghost.get("summarise"):
        from .arr import SArr, unI
        if isinstance(x, SRange):
            return SymList(x.n, lambda k: x.at(k))
        if isinstance(x, SArr) and x.shp and x.shp[0].const is None:
            return SymList(x.shp[0], lambda k: x[unI(toI(k))])
    return x


def s_zip(*a, **kw):
    a = [symlist(x) for x in a]
    if any(isinstance(x, SymList) for x in a) and ctx().ghost.get("summarise"):
        n = None
        for x in a:
            if not isinstance(x, SymList):
                raise Unsupported("zip of a symbolic list and a list")
            if n is None or ctx().branch(ile(x.n, n)):
                n = x.n
        return SymList(n, lambda k: tuple(x.f(toI(k)) for x in a))
    return zip(*a, **kw)


def s_comp(kind, f, it, many):
    """Comprehension over one iterable: kind "list" or "gen", f(element)."""
    it = symlist(it)
    g = (lambda t: f(*t)) if many else f
    if isinstance(it, SymList) and ctx().ghost.get("summarise"):
        out = SymList(it.n, lambda k: g(it.f(toI(k))))
        loops.probe(out)
        return out
    if kind == "list":
        return [g(t) for t in it]
    return (g(t) for t in it)


def s_print(*a, **k):
    pass


def s_format(x, spec=""):
    if _sym(x):
        return repr(x)
    return format(x, spec)


def s_callable(x):
    return callable(x)


def s_reversed(x):
    if isinstance(x, (SRange, SymList)):
        return reversed(list(x))
    return reversed(x)


def s_sorted(x, key=None, reverse=False):
    l = list(x)
    if not any(_sym(e) for e in l) and key is None:
        return sorted(l, reverse=reverse)
    ks = [key(e) if key else e for e in l]
    # insertion sort with symbolic comparisons
    out = []
    for e, kk in zip(l, ks):
        p = len(out)
        while p > 0 and bool(kk < out[p - 1][1]):
            p -= 1
        out.insert(p, (e, kk))
    r = [e for e, _ in out]
    return r[::-1] if reverse else r


def s_pow(a, b, *m):
    return pow(a, b, *m)


def s_divmod(a, b):
    if _sym(a) or _sym(b):
        return a // b, a % b
    return divmod(a, b)


FAKES = {}


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    from . import fakes

    if level == 0:
        root = name.split(".")[0]
        if root in ("numpy", "scipy", "torch", "matplotlib", "math", "mpl_toolkits", "pandas", "statistics", "bisect"):
            m = fakes.get(name)
            if fromlist:
                return m
            return fakes.get(root)
    return _b.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(_b))
BUILTINS.update(
    len=s_len, range=s_range, float=s_float, int=s_int, bool=s_bool, isinstance=s_isinstance, max=s_max,
    min=s_min, sum=s_sum, any=s_any, all=s_all, round=s_round, hasattr=s_hasattr, print=s_print,
    enumerate=s_enumerate, zip=s_zip, __vc_comp__=s_comp, reversed=s_reversed, sorted=s_sorted, divmod=s_divmod, __import__=s_import,
    format=s_format,
)


class Comprehensions(ast.NodeTransformer):
    """[e for x in it] as __vc_comp__("list", lambda x: e, it, False), so that `it` may be a symbolic list."""

    def visit_ListComp(self, n):
        return self.rewrite(n, "list")

    def visit_GeneratorExp(self, n):
        return self.rewrite(n, "gen")

    def rewrite(self, n, kind):
        self.generic_visit(n)
        g = n.generators[0]
        many = isinstance(g.target, ast.Tuple)
        names = g.target.elts if many else [g.target]
        if len(n.generators) != 1 or g.ifs or g.is_async or not all(isinstance(x, ast.Name) for x in names):
            return n
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("super", "locals")
               for x in ast.walk(n.elt)):
            return n
        args = ast.arguments([], [ast.arg(x.id) for x in names], None, [], [], None, [])
        call = ast.Call(ast.Name("__vc_comp__", ast.Load()),
                        [ast.Constant(kind), ast.Lambda(args, n.elt), g.iter, ast.Constant(many)], [])
        return ast.copy_location(call, n)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path, self.name = path, name

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        LOADED[self.name] = self.path
        mod.__file__ = self.path
        mod.__dict__["__builtins__"] = BUILTINS
        tree = ast.fix_missing_locations(Comprehensions().visit(ast.parse(src, self.path)))
        code = compile(tree, self.path, "exec", dont_inherit=True)
        exec(code, mod.__dict__)


LOADED = {}


class StubLoader(importlib.abc.Loader):
    def create_module(self, spec):
        from . import fakes

        return fakes.Stub(spec.name)

    def exec_module(self, mod):
        pass


STUBS = ("gpmp.plot", "gpmp.modeldiagnosis.plotting")


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "gpmp" and not name.startswith("gpmp."):
            return None
        if name in STUBS or name.startswith("gpmp.plot."):
            return importlib.machinery.ModuleSpec(name, StubLoader(), is_package=True)
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return importlib.machinery.ModuleSpec(
                name, Loader(os.path.join(p, "__init__.py"), name), is_package=True,
                origin=os.path.join(p, "__init__.py"),
            ) if False else _pkgspec(name, p)
        if os.path.exists(p + ".py"):
            return importlib.machinery.ModuleSpec(name, Loader(p + ".py", name), origin=p + ".py")
        return None


def _pkgspec(name, p):
    s = importlib.machinery.ModuleSpec(
        name, Loader(os.path.join(p, "__init__.py"), name), is_package=True,
        origin=os.path.join(p, "__init__.py"),
    )
    s.submodule_search_locations = [p]
    return s


_installed = [False]


def load(backend="numpy"):
    """(Re)load the gpmp modules for the given backend."""
    if not _installed[0]:
        sys.meta_path.insert(0, Finder())
        _installed[0] = True
    for m in [m for m in sys.modules if m == "gpmp" or m.startswith("gpmp.")]:
        del sys.modules[m]
    os.environ["GPMP_BACKEND"] = backend
    os.environ.setdefault("GPMP_LOG_LEVEL", "WARNING")
    sys.dont_write_bytecode = True
    import importlib

    return importlib.import_module("gpmp")
