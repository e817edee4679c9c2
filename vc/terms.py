"""Terms of the verification-condition generator.

I  linear integer terms over opaque integer atoms
B  boolean terms over integer and real comparisons and opaque predicates
R  real terms in tensor-network normal form: sums of monomials
       coeff * sum_{bound vars} prod atom**power
   kept canonical up to renaming of bound variables
"""
import itertools
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The engine cannot express this construct; the obligation is not discharged."""


class Split(BaseException):
    """A sum over bound variable `uid` has to be split at integer term `at`."""

    def __init__(self, uid, at):
        self.uid, self.at = uid, at


class PathEnd(BaseException):
    """The current path is infeasible or has been cut."""


class LoopDone(BaseException):
    """The inductive step of a loop invariant has been checked; the path is complete."""


_uid = itertools.count(1)


def fresh_uid():
    return next(_uid)


# --------------------------------------------------------------------------- ints
def _akey(a, env):
    k = a[0]
    if k == "v":
        return a[1]
    if k == "b":
        if env is not None and a[1] in env:
            return env[a[1]]
        return "b%d" % a[1]
    args = [x.key(env) for x in a[2]]
    if a[1] in COMM:
        args.sort()
    return "%s(%s)" % (a[1], ",".join(args))


COMM = {"*", "imax", "imin"}


class I:
    __slots__ = ("t", "c", "_k")

    def __init__(self, t=(), c=0):
        self.t, self.c, self._k = t, c, None

    @staticmethod
    def var(name):
        return I(((("v", name), 1),), 0)

    @staticmethod
    def bv(uid):
        return I(((("b", uid), 1),), 0)

    @staticmethod
    def fn(name, *args):
        if name.startswith("pos!") and len(args) == 1 and len(args[0].t) == 1 and args[0].c == 0:
            a, c = args[0].t[0]
            if c == 1 and a[0] == "f" and a[1] == "rank!" + name[4:]:
                return a[2][0]  # positions are only ranked where the mask holds
        return I(((("f", name, tuple(toI(a) for a in args)), 1),), 0)

    def key(self, env=None):
        if env is None:
            if self._k is None:
                self._k = self._mk(None)
            return self._k
        return self._mk(env)

    def _mk(self, env):
        if not self.t:
            return str(self.c)
        s = "+".join(sorted(("" if c == 1 else "%d*" % c) + _akey(a, env) for a, c in self.t))
        return s if self.c == 0 else "%s+%d" % (s, self.c)

    def __repr__(self):
        return self.key()

    @property
    def const(self):
        return self.c if not self.t else None

    def add(self, o, f=1):
        d = {}
        for a, c in self.t:
            k = _akey(a, None)
            d[k] = (a, c)
        for a, c in o.t:
            k = _akey(a, None)
            c0 = d[k][1] if k in d else 0
            d[k] = (a, c0 + f * c)
        return I(tuple(d[k] for k in sorted(d) if d[k][1] != 0), self.c + f * o.c)

    def scale(self, n):
        if n == 0:
            return I()
        return I(tuple((a, c * n) for a, c in self.t), self.c * n)

    def mul(self, o):
        if o.const is not None:
            return self.scale(o.const)
        if self.const is not None:
            return o.scale(self.const)
        out = I()
        for a, c in self.t + (((None, self.c),) if self.c else ()):
            for b, d in o.t + (((None, o.c),) if o.c else ()):
                if a is None and b is None:
                    out = out.add(I((), c * d))
                elif a is None or b is None:
                    out = out.add(I(((b or a, c * d),), 0))
                else:
                    x, y = I(((a, 1),), 0), I(((b, 1),), 0)
                    if x.key() > y.key():
                        x, y = y, x
                    out = out.add(I(((("f", "*", (x, y)), c * d),), 0))
        return out

    def atoms(self, acc=None):
        """Base atoms: variables and bound variables, recursively."""
        acc = set() if acc is None else acc
        for a, _ in self.t:
            if a[0] == "f":
                acc.add(("F", a[1], tuple(x.key() for x in a[2])))
                for x in a[2]:
                    x.atoms(acc)
            else:
                acc.add(a)
        return acc

    def bvs(self):
        return {a[1] for a in self.atoms() if a[0] == "b"}

    def subst(self, m):
        if not self.t:
            return self
        out = I((), self.c)
        for a, c in self.t:
            if a in m:
                out = out.add(m[a], c)
            elif a[0] == "f":
                fk = ("F", a[1], tuple(x.key() for x in a[2]))
                if fk in m:
                    out = out.add(m[fk], c)
                    continue
                args = tuple(x.subst(m) for x in a[2])
                out = out.add(mkfn(a[1], args).scale(c))
            else:
                out = out.add(I(((a, c),), 0))
        return out

    def coef(self, atom):
        for a, c in self.t:
            if a == atom:
                return c
        return 0


def mkfn(name, args):
    if name == "*":
        out = args[0]
        for a in args[1:]:
            out = out.mul(a)
        return out
    if name == "//" and args[0].const is not None and args[1].const:
        return I((), args[0].const // args[1].const)
    if name == "%" and args[0].const is not None and args[1].const:
        return I((), args[0].const % args[1].const)
    if name in ("imax", "imin") and args[0].const is not None and args[1].const is not None:
        f = max if name == "imax" else min
        return I((), f(args[0].const, args[1].const))
    if name in ("imax", "imin") and args[0].key() == args[1].key():
        return args[0]
    return I.fn(name, *args)


def toI(x):
    if isinstance(x, I):
        return x
    if isinstance(x, bool):
        return I((), int(x))
    if isinstance(x, int):
        return I((), x)
    if hasattr(x, "_as_I"):
        return x._as_I()
    if hasattr(x, "__index__"):
        return I((), x.__index__())
    raise Unsupported("not an integer term: %r" % (x,))


# --------------------------------------------------------------------------- bools
class B:
    __slots__ = ("op", "args", "_k")

    def __init__(self, op, args=()):
        self.op, self.args, self._k = op, args, None

    def key(self, env=None):
        if env is None and self._k is not None:
            return self._k
        if self.op in ("and", "or"):
            s = "(%s)" % (" & " if self.op == "and" else " | ").join(
                sorted(a.key(env) for a in self.args)
            )
        elif self.op == "p":
            s = "%s<%s>" % (self.args[0], ",".join(a.key(env) for a in self.args[1]))
        elif self.op == "eq":
            x, y = self.args[0].key(env), self.args[0].scale(-1).key(env)
            s = "eq(%s)" % min(x, y)
        elif self.op == "req":
            x, y = self.args[0].key(env), self.args[0].neg().key(env)
            s = "req(%s)" % min(x, y)
        else:
            s = "%s(%s)" % (self.op, ",".join(a.key(env) for a in self.args))
        if env is None:
            self._k = s
        return s

    def __repr__(self):
        return self.key()

    def subst(self, m):
        if self.op in ("T", "F"):
            return self
        if self.op == "p":
            return B("p", (self.args[0], tuple(a.subst(m) for a in self.args[1])))
        if self.op in ("and", "or"):
            f = band if self.op == "and" else bor
            return f(*[a.subst(m) for a in self.args])
        if self.op == "not":
            return bnot(self.args[0].subst(m))
        if self.op in ("le", "eq"):
            return {"le": ile0, "eq": ieq0}[self.op](self.args[0].subst(m))
        return {"rlt": rlt0, "rle": rle0, "req": req0}[self.op](self.args[0].subst(m))

    def atoms(self, acc=None):
        acc = set() if acc is None else acc
        args = self.args[1] if self.op == "p" else self.args
        for a in args:
            a.atoms(acc)
        return acc

    def bvs(self):
        return {a[1] for a in self.atoms() if a[0] == "b"}


TRUE, FALSE = B("T"), B("F")


def ile0(i):
    if i.const is not None:
        return TRUE if i.const <= 0 else FALSE
    return B("le", (i,))


def ieq0(i):
    if i.const is not None:
        return TRUE if i.const == 0 else FALSE
    # divisibility
    g = 0
    import math

    for _, c in i.t:
        g = math.gcd(g, abs(c))
    if g > 1:
        if i.c % g:
            return FALSE
        i = I(tuple((a, c // g) for a, c in i.t), i.c // g)
    return B("eq", (i,))


def ile(a, b):
    return ile0(a.add(b, -1))


def ilt(a, b):
    return ile0(a.add(b, -1).add(I((), 1)))


def ieq(a, b):
    return ieq0(a.add(b, -1))


def _infsign(r):
    """+1/-1 when r is +-inf plus finite terms, None otherwise."""
    s = None
    for c, m in r.terms.values():
        if any(a.kind == "c" and a.name == "inf" for a, p in m[1]):
            if len(m[1]) > 1 or m[0]:
                return None
            s = 1 if c > 0 else -1
    return s


def infcase(r, name="inf"):
    """(b, r when b, r when not b) for a term that is infinite (NaN) depending on the condition b, else None."""
    for c, (bvs, ats) in r.terms.values():
        if not bvs and len(ats) > 1 and any(a.kind == "c" and a.name == name for a, p in ats):
            for a, p in ats:
                if a.kind == "ind":
                    return a.args[0], setind(r, a.args[0], 1), setind(r, a.args[0], 0)
    return None


def setind(r, b, v):
    k, out = b.key(), R()
    for c, (bvs, ats) in r.terms.values():
        hit = [a.kind == "ind" and a.args[0].key() == k for a, p in ats]
        if any(hit):
            if v:
                out = out + rmono(c, bvs, tuple(ap for ap, h in zip(ats, hit) if not h))
        else:
            out = out + rmono(c, bvs, ats)
    return out


def bycase(f, r):
    q = infcase(r)
    return None if q is None else bor(band(q[0], f(q[1])), band(bnot(q[0]), f(q[2])))


def rlt0(r):
    c = r.const
    if c is not None:
        return TRUE if c < 0 else FALSE
    s = _infsign(r)
    if s is not None:
        return TRUE if s < 0 else FALSE
    return bycase(rlt0, r) or B("rlt", (r.normscale(),))


def rle0(r):
    c = r.const
    if c is not None:
        return TRUE if c <= 0 else FALSE
    s = _infsign(r)
    if s is not None:
        return TRUE if s < 0 else FALSE
    return bycase(rle0, r) or B("rle", (r.normscale(),))


def req0(r):
    c = r.const
    if c is not None:
        return TRUE if c == 0 else FALSE
    if _infsign(r) is not None:
        return FALSE
    return bycase(req0, r) or B("req", (r.normscale(),))


def bnot(b):
    if b.op == "T":
        return FALSE
    if b.op == "F":
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return ile0(I((), 1).add(b.args[0], -1))
    if b.op == "rlt":
        return rle0(b.args[0].neg())
    if b.op == "rle":
        return rlt0(b.args[0].neg())
    if b.op == "and":
        return bor(*[bnot(a) for a in b.args])
    if b.op == "or":
        return band(*[bnot(a) for a in b.args])
    return B("not", (b,))


def _flat(op, bs):
    d = {}
    for b in bs:
        for x in b.args if b.op == op else (b,):
            d[x.key()] = x
    return d


def band(*bs):
    d = _flat("and", bs)
    if "F()" in d:
        return FALSE
    d.pop("T()", None)
    for k, x in d.items():
        if bnot(x).key() in d:
            return FALSE
    if not d:
        return TRUE
    if len(d) == 1:
        return next(iter(d.values()))
    return B("and", tuple(d[k] for k in sorted(d)))


def bor(*bs):
    d = _flat("or", bs)
    if "T()" in d:
        return TRUE
    d.pop("F()", None)
    for k, x in d.items():
        if bnot(x).key() in d:
            return TRUE
    if not d:
        return FALSE
    if len(d) == 1:
        return next(iter(d.values()))
    return B("or", tuple(d[k] for k in sorted(d)))


def beq(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


# --------------------------------------------------------------------------- atoms
SYM2 = set()  # array names symmetric in their first two indices
POS = set()  # array names with positive elements
NONNEG = set()
COMMFN = {"max", "min"}
FNCOMM = COMMFN


class Bind:
    """A bound integer variable over 0 <= uid < hi with a real (or bool) body."""

    __slots__ = ("uid", "hi", "body")

    def __init__(self, uid, hi, body):
        self.uid, self.hi, self.body = uid, hi, body

    def key(self, env=None):
        env = dict(env or {})
        d = env.get("#", 0)
        hk = self.hi.key(env)
        env[self.uid] = "%%%d" % d
        env["#"] = d + 1
        return "[%%%d<%s:%s]" % (d, hk, self.body.key(env))

    def subst(self, m):
        u = fresh_uid()
        m2 = dict(m)
        m2[("b", self.uid)] = I.bv(u)
        return Bind(u, self.hi.subst(m), self.body.subst(m2))

    def atoms(self, acc=None):
        acc = set() if acc is None else acc
        self.hi.atoms(acc)
        inner = self.body.atoms(set())
        inner.discard(("b", self.uid))
        acc |= inner
        return acc


class Atom:
    __slots__ = ("kind", "name", "args", "_k")

    def __init__(self, kind, name, args=()):
        self.kind, self.name, self.args, self._k = kind, name, tuple(args), None

    def key(self, env=None):
        if env is None and self._k is not None:
            return self._k
        ks = [a.key(env) for a in self.args]
        if self.kind == "a" and self.name in SYM2 and ks[0] > ks[1]:
            ks[0], ks[1] = ks[1], ks[0]
        elif self.kind == "fn" and self.name in COMMFN:
            ks.sort()
        s = "%s:%s(%s)" % (self.kind, self.name, ";".join(ks)) if ks else "%s:%s" % (self.kind, self.name)
        if env is None:
            self._k = s
        return s

    def atoms(self, acc=None):
        acc = set() if acc is None else acc
        for a in self.args:
            a.atoms(acc)
        return acc

    def bvs(self):
        return {a[1] for a in self.atoms() if a[0] == "b"}

    def __repr__(self):
        return self.key()


_ONEKEY = ""


class R:
    """Real term: {canonical key: (coeff, mono)}, mono = (bvs, atoms)."""

    __slots__ = ("terms", "_k", "_at")

    def __init__(self, terms=None):
        self.terms = terms or {}
        self._k = None
        self._at = None

    # -- construction
    @staticmethod
    def num(x):
        x = tofrac(x)
        return R({_ONEKEY: (x, ((), ()))}) if x != 0 else R()

    @staticmethod
    def atom(a, p=1):
        return rmono(Fraction(1), (), ((a, p),))

    @staticmethod
    def arr(name, *idx):
        return R.atom(Atom("a", name, tuple(toI(i) for i in idx)))

    @staticmethod
    def ofI(i):
        i = toI(i)
        out = R.num(i.c)
        for a, c in i.t:
            if a[0] == "f" and a[1] == "*":
                r = R.num(c)
                for x in a[2]:
                    r = r * R.ofI(x)
            else:
                r = R.atom(Atom("iv", "iv", (I(((a, 1),), 0),))).scale(c)
            out = out + r
        return out

    # -- queries
    @property
    def const(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and _ONEKEY in self.terms:
            return self.terms[_ONEKEY][0]
        return None

    def key(self, env=None):
        if env is None:
            if self._k is None:
                self._k = self._mk(None)
            return self._k
        at = self.atoms()
        if not any(("b", u) in at for u in env if u != "#"):
            d = env.get("#", 0)
            if d == 0:
                return self.key()
        return self._mk(env)

    def _mk(self, env):
        if env is None:
            return "{" + "|".join("%s#%s" % (self.terms[k][0], k) for k in sorted(self.terms)) + "}"
        l = []
        for c, m in self.terms.values():
            l.append("%s#%s" % (c, monokey(m[0], m[1], env)))
        return "{" + "|".join(sorted(l, key=lambda s: s.split("#", 1)[1])) + "}"

    def __repr__(self):
        return show(self)

    def atoms(self, acc=None):
        if self._at is None:
            s = set()
            for c, (bvs, ats) in self.terms.values():
                inner = set()
                for a, p in ats:
                    a.atoms(inner)
                for u, hi in bvs:
                    hi.atoms(inner)
                for u, hi in bvs:
                    inner.discard(("b", u))
                s |= inner
            self._at = frozenset(s)
        if acc is None:
            return set(self._at)
        acc |= self._at
        return acc

    def bvs(self):
        return {a[1] for a in self.atoms() if a[0] == "b"}

    # -- algebra
    def __add__(self, o):
        if not o.terms:
            return self
        if not self.terms:
            return o
        d = dict(self.terms)
        for k, (c, m) in o.terms.items():
            if k in d:
                c2 = d[k][0] + c
                if c2 == 0:
                    del d[k]
                else:
                    d[k] = (c2, d[k][1])
            else:
                d[k] = (c, m)
        return R(d)

    def scale(self, x):
        x = tofrac(x)
        if x == 0:
            return R()
        if x == 1:
            return self
        return R({k: (c * x, m) for k, (c, m) in self.terms.items()})

    def neg(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + o.neg()

    def __mul__(self, o):
        c = o.const
        if c is not None:
            return self.scale(c)
        c = self.const
        if c is not None:
            return o.scale(c)
        out = R()
        for c1, m1 in self.terms.values():
            for c2, m2 in o.terms.values():
                out = out + mulmono(c1 * c2, m1, m2)
        return out

    def normscale(self):
        k = min(self.terms)
        c = abs(self.terms[k][0])
        return self if c == 1 else self.scale(1 / c)

    def subst(self, m):
        if not m:
            return self
        at = self.atoms()
        if not any(a in at for a in m):
            return self
        out = R()
        for c, (bvs, ats) in self.terms.values():
            clash = set()
            for v in m.values():
                clash |= v.bvs()
            ren = {}
            nb = []
            for u, hi in bvs:
                if u in clash:
                    u2 = fresh_uid()
                    ren[("b", u)] = I.bv(u2)
                    nb.append((u2, hi))
                else:
                    nb.append((u, hi))
            mm = dict(m)
            for u, hi in bvs:
                mm.pop(("b", u), None)
            mm.update(ren)
            nb = tuple((u, hi.subst(mm)) for u, hi in nb)
            out = out + rebuild(c, nb, ats, mm)
        return out


ZERO = R()
ONE = R.num(1) if False else R({_ONEKEY: (Fraction(1), ((), ()))})


def tofrac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return Fraction(repr(x))
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return tofrac(x.item())
    raise Unsupported("not a number: %r" % (x,))


def monokey(bvs, ats, env=None):
    if not bvs:
        return ".".join(sorted(a.key(env) + ("" if p == 1 else "^%d" % p) for a, p in ats))
    base = dict(env or {})
    d = base.get("#", 0)
    n = len(bvs)
    # colour refinement
    col = {u: hi_key(hi, base, bvs) for u, hi in bvs}
    for _ in range(2 if n > 1 else 0):
        new = {}
        for u, hi in bvs:
            e = dict(base)
            e["#"] = d + 1
            for u2, _h in bvs:
                e[u2] = "?" + col[u2][:0] + str(_rank(col, u2))
            e[u] = "*"
            sig = []
            for a, p in ats:
                if ("b", u) in a.atoms():
                    sig.append(a.key(e) + "^%d" % p)
            new[u] = "%s|%s|%s" % (_rank(col, u), hi.key(e), ",".join(sorted(sig)))
        col = new
    groups = {}
    for u, hi in bvs:
        groups.setdefault(col[u], []).append((u, hi))
    order = [groups[k] for k in sorted(groups)]
    cnt = 1
    for g in order:
        for i in range(2, len(g) + 1):
            cnt *= i
    if cnt > 5040:
        raise Unsupported("too many symmetric bound variables")
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for g in order]):
        seq = [x for g in perm for x in g]
        e = dict(base)
        e["#"] = d + 1
        for i, (u, hi) in enumerate(seq):
            e[u] = "s%d_%d" % (d, i)
        s = ".".join(sorted(a.key(e) + ("" if p == 1 else "^%d" % p) for a, p in ats))
        s = "S<%s>%s" % (",".join(hi.key(e) for u, hi in seq), s)
        if best is None or s < best:
            best = s
    return best


def hi_key(hi, base, bvs):
    e = dict(base)
    for u, _ in bvs:
        e[u] = "?"
    return hi.key(e)


def _rank(col, u):
    ks = sorted(set(col.values()))
    return ks.index(col[u])


# ---- hooks filled in by core.py (need the context)
class _H:
    simplify = None


def rmono(c, bvs, ats):
    """Real term of one monomial, simplified."""
    return _H.simplify(c, tuple(bvs), tuple(ats))


def mulmono(c, m1, m2):
    b1, a1 = m1
    b2, a2 = m2
    if b1 and b2:
        u1 = {u for u, _ in b1}
        ren = {}
        for u, _ in b2:
            if u in u1:
                ren[("b", u)] = I.bv(fresh_uid())
        if ren:
            nb = tuple(
                (ren[("b", u)].t[0][0][1] if ("b", u) in ren else u, hi.subst(ren)) for u, hi in b2
            )
            a2 = tuple((asubst_raw(a, ren), p) for a, p in a2)
            b2 = nb
    elif (b1 or b2) and False:
        pass
    # a free bound variable of one side must not be captured by the other
    f1 = set()
    for a, _ in a1:
        f1 |= a.bvs()
    cap = {u for u, _ in b2} & f1
    if cap:
        ren = {("b", u): I.bv(fresh_uid()) for u in cap}
        b2 = tuple((ren[("b", u)].t[0][0][1] if ("b", u) in ren else u, hi.subst(ren)) for u, hi in b2)
        a2 = tuple((asubst_raw(a, ren), p) for a, p in a2)
    f2 = set()
    for a, _ in a2:
        f2 |= a.bvs()
    cap = {u for u, _ in b1} & f2
    if cap:
        ren = {("b", u): I.bv(fresh_uid()) for u in cap}
        b1 = tuple((ren[("b", u)].t[0][0][1] if ("b", u) in ren else u, hi.subst(ren)) for u, hi in b1)
        a1 = tuple((asubst_raw(a, ren), p) for a, p in a1)
    return rmono(c, b1 + b2, a1 + a2)


def attach(c, bvs, ats, m2):
    """c * sum_bvs(ats * m2) where m2 may mention the variables of bvs."""
    b2, a2 = m2
    taken = {u for u, _ in bvs}
    for a, _ in ats:
        taken |= a.bvs()
    cap = {u for u, _ in b2} & taken
    if cap:
        ren = {("b", u): I.bv(fresh_uid()) for u in cap}
        b2 = tuple((ren[("b", u)].t[0][0][1] if ("b", u) in ren else u, hi.subst(ren)) for u, hi in b2)
        a2 = tuple((asubst_raw(a, ren), p) for a, p in a2)
    return rmono(c, tuple(bvs) + tuple(b2), tuple(ats) + tuple(a2))


def asubst_raw(a, m):
    """Substitution that is only a renaming of bound variables (no re-simplification)."""
    if not any(x in m for x in a.atoms()):
        return a
    return Atom(a.kind, a.name, tuple(x.subst(m) for x in a.args))


REBUILD = {}  # fn name -> constructor taking substituted args, returns R


def asubst(a, m):
    """Substitute in an atom, returning a real term."""
    if not any(x in m for x in a.atoms()):
        return R.atom(a)
    args = tuple(x.subst(m) for x in a.args)
    if a.kind == "fn" and a.name in REBUILD:
        return REBUILD[a.name](*args)
    if a.kind == "iv":
        return R.ofI(args[0])
    return R.atom(Atom(a.kind, a.name, args))


def rebuild(c, bvs, ats, m):
    out = rmono(c, (), ())
    rest = []
    for a, p in ats:
        if any(x in m for x in a.atoms()):
            r = asubst(a, m)
            if p >= 0:
                for _ in range(p):
                    out = out * r
            else:
                ri = _H.rinv(r)
                for _ in range(-p):
                    out = out * ri
        else:
            rest.append((a, p))
    out2 = R()
    for c2, m2 in out.terms.values():
        out2 = out2 + attach(c2, tuple(bvs), tuple(rest), m2)
    return out2


def show(r, limit=1200):
    if not r.terms:
        return "0"
    l = []
    for k in sorted(r.terms):
        c, _ = r.terms[k]
        l.append(("%s*%s" % (c, k)) if k else str(c))
    s = " + ".join(l)
    return s if len(s) < limit else s[:limit] + "..."
