"""Context, deciding, simplification, theory rules and path exploration."""
import time
from fractions import Fraction

import z3

from . import terms as T
from .terms import (
    Atom, B, Bind, FALSE, I, ONE, PathEnd, R, REBUILD, Split, TRUE, Unsupported, ZERO, band,
    bnot, bor, fresh_uid, ieq, ieq0, ile, ile0, ilt, rebuild, req0, rle0, rlt0, rmono, toI, tofrac,
)

FREG = {}
INTHOOKS = {}  # integer function name -> fn(list of arg tuples) -> [B]
REALHOOKS = {}  # array name -> fn(list of arg tuples) -> [B]
_old_atoms = I.atoms


def _atoms(self, acc=None):
    acc = set() if acc is None else acc
    for a, _ in self.t:
        if a[0] == "f":
            k = ("F", a[1], tuple(x.key() for x in a[2]))
            FREG[k] = a[2]
            acc.add(k)
            for x in a[2]:
                x.atoms(acc)
        else:
            acc.add(a)
    return acc


I.atoms = _atoms


class Ctx:
    def __init__(self, script=()):
        self.script = list(script)
        self.trace = []
        self.alts = []
        self.pc = []
        self.pckeys = {}
        self.eqs = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.solver.set("rlimit", RLIMIT)
        self.fseen = set()
        self.cache = {}
        self.ver = 0
        self.rules = []
        self.rulekeys = set()
        self.scopes = []  # bound variable ranges in force
        self.names = {}
        self.obl = []
        self.assumptions = set()
        self.divs = {}
        self.expand = 4
        self.notes = []
        self.pos = set()
        self.forks = 0
        self.ghost = {}
        self.witnesses = []
        self.loops = []  # loops whose body is being run at an arbitrary position

    # -- names
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s'%d" % (base, n)

    # -- assumptions
    def assume(self, b):
        if b.op == "T":
            return
        if b.op == "F":
            raise PathEnd()
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        k = b.key()
        if k in self.pckeys:
            return
        self.pckeys[k] = b
        self.pc.append(b)
        self.solver.add(bz3(b))
        self._facts(b)
        self.ver += 1
        self.cache = {}
        if b.op == "eq":
            self._eq(b.args[0].subst(self.eqs))
        elif b.op == "le" and T.ile0(b.args[0].scale(-1)).key() in self.pckeys:
            self._eq(b.args[0].subst(self.eqs))
        if b.op == "p" and b.args[0] == "forall":
            for w in list(self.witnesses):
                self.instance(b, w)
        elif b.op == "not" and b.args[0].op == "p" and b.args[0].args[0] == "forall":
            self.witness(b.args[0].args[1][0])

    def instance(self, b, w):
        """The universal fact b at index w."""
        q = b.args[1][0]
        if w.bvs() or q.body.bvs() - {q.uid}:
            return
        self.assume(bor(ilt(w, I()), ile(q.hi, w), q.body.subst({("b", q.uid): w})))

    def witness(self, q):
        """An index where the body of a refuted universal statement fails."""
        if q.body.bvs() - {q.uid}:
            return
        w = I.var(self.fresh("wit"))
        self.assume(band(ile(I(), w), ilt(w, q.hi), bnot(q.body.subst({("b", q.uid): w}))))
        self.at(w)

    def at(self, w):
        """Instantiate the universal facts of the path, now and later, at index w."""
        self.witnesses.append(w)
        for b in list(self.pc):
            if b.op == "p" and b.args[0] == "forall":
                self.instance(b, w)
        if self.solver.check() == z3.unsat:
            raise PathEnd()

    def _eq(self, i):
        cand = [(a, c) for a, c in i.t if a[0] == "v" and abs(c) == 1]
        if not cand:
            return
        cand.sort(key=lambda ac: (ac[0][1] in self.ghost.get("dims", ()), ac[0][1]))
        a, c = cand[-1] if False else cand[0]
        # prefer to eliminate the variable introduced last
        e = I(tuple(x for x in i.t if x[0] != a), i.c).scale(-1 if c == 1 else 1)
        m = {a: e}
        self.eqs = {k: v.subst(m) for k, v in self.eqs.items()}
        self.eqs[a] = e

    def _facts(self, b):
        at = b.atoms()
        self._hook(at, self.solver)

    def _hook(self, at, solver):
        new = [a for a in at if a[0] == "F" and a not in self.fseen]
        if not new:
            return
        if solver is self.solver:
            self.fseen.update(new)
            allf = self.fseen
        else:
            allf = self.fseen | set(new)
        for nm in {a[1] for a in new}:
            h = INTHOOKS.get(nm)
            if h:
                args = [FREG[a] for a in allf if a[1] == nm]
                for f in h(args):
                    solver.add(bz3(f))

    # -- deciding
    def decide(self, b, extra=(), timeout=None):
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        k = b.key()
        if k in self.pckeys:
            return True
        nb = bnot(b)
        if nb.key() in self.pckeys:
            return False
        if b.op == "and":
            rs = [self.decide(x, extra) for x in b.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        if b.op == "or":
            rs = [self.decide(x, extra) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        ext = list(extra)
        at = b.atoms()
        for u, lo, hi in self.scopes:
            ext.append(ile(lo, I.bv(u)))
            ext.append(ilt(I.bv(u), hi))
        ck = (k, tuple(sorted(e.key() for e in ext)))
        if ck in self.cache:
            return self.cache[ck]
        pk = (ck, tuple(self.pckeys), len(self.fseen), len(INTHOOKS), timeout)
        if not any(a[0] == "F" for a in at) and pk in DECIDED:
            r = self.cache[ck] = DECIDED[pk]
            return r
        if timeout:
            self.solver.set("timeout", timeout)
        try:
            r = self._z3(b, nb, ext)
        finally:
            if timeout:
                self.solver.set("timeout", 60000)
        self.cache[ck] = DECIDED[pk] = r
        return r

    def _z3(self, b, nb, ext):
        STATS["z3"] += 1
        t0 = time.time()
        s = self.solver
        s.push()
        try:
            for e in ext:
                s.add(bz3(e))
            at = b.atoms()
            for e in ext:
                e.atoms(at)
            self._hook2(at, s)
            for f in realfacts(b, self):
                s.add(f)
            s.push()
            s.add(bz3(nb))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return True
            s.push()
            s.add(bz3(b))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return False
            return None
        finally:
            s.pop()
            STATS["z3_s"] += time.time() - t0

    def _hook2(self, at, s):
        new = {a for a in at if a[0] == "F"} - self.fseen
        allf = self.fseen | new
        for nm in {a[1] for a in new}:
            h = INTHOOKS.get(nm)
            if h:
                for f in h([FREG[a] for a in allf if a[1] == nm]):
                    s.add(bz3(f))

    def model(self):
        try:
            if self.solver.check() == z3.sat:
                m = self.solver.model()
                return {str(d): str(m[d]) for d in m.decls() if d.arity() == 0 and not str(d).startswith("b")}
        except z3.Z3Exception:
            pass
        return None

    # -- forking
    def branch(self, b):
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        r = self.decide(b)
        if r is not None:
            return r
        bound = b.bvs()
        if bound:
            if self.loops and bound <= {f.uid for f in self.loops}:
                return self.loops[-1].take(b)
            self.trysplit(b)
            raise Unsupported("undecided condition on a bound variable: %r" % b)
        return self.choose(b)

    def trysplit(self, b):
        """Raise Split when b is a linear inequality on the innermost scoped bound variable."""
        if b.op in ("and", "or"):
            for x in b.args:
                if self.decide(x) is None:
                    self.trysplit(x)
            return
        if b.op == "not":
            return
        if b.op != "le":
            return
        i = b.args[0]
        for u, lo, hi in reversed(self.scopes):
            c = i.coef(("b", u))
            if abs(c) == 1:
                rest = I(tuple(x for x in i.t if x[0] != ("b", u)), i.c)
                # c*u + rest <= 0
                others = rest.bvs()
                ok = True
                if u in others:
                    ok = False
                # other bound variables have to be outer scopes
                outer = []
                for v, _, _ in self.scopes:
                    if v == u:
                        break
                    outer.append(v)
                if any(o not in outer for o in others):
                    continue
                if ok:
                    at = rest.scale(-1).add(I((), 1)) if c == 1 else rest
                    # first index where the condition changes
                    raise Split(u, at)

    def choose(self, b):
        self.forks += 1
        i = len(self.trace)
        if i < len(self.script):
            v = self.script[i]
        else:
            v = True
            self.alts.append(self.script[:i] + self.trace[len(self.script):i] + [False])
        self.trace.append(v)
        self.assume(b if v else bnot(b))
        return v

    def choose_free(self, what):
        """Nondeterministic choice not tied to a formula (e.g. callee may raise)."""
        i = len(self.trace)
        if i < len(self.script):
            v = self.script[i]
        else:
            v = True
            self.alts.append(self.script[:i] + self.trace[len(self.script):i] + [False])
        self.trace.append(v)
        self.notes.append("%s=%s" % (what, v))
        return v

    def feasible(self):
        return self.solver.check() != z3.unsat


DECIDED = {}  # what the solver said on the same facts, within a task
RLIMIT = 3000000  # deterministic resource bound per solver call
STATS = {"z3": 0, "z3_s": 0.0, "rules": 0}


class _C:
    c = Ctx()


def ctx():
    return _C.c


# ----------------------------------------------------------------------------- z3
_IZ, _BZ, _RZ = {}, {}, {}


def iz3(i):
    k = i.key()
    if k in _IZ:
        return _IZ[k]
    e = z3.IntVal(i.c)
    for a, c in i.t:
        e = e + c * _az3(a)
    _IZ[k] = e
    return e


def _az3(a):
    if a[0] == "v":
        return z3.Int(a[1])
    if a[0] == "b":
        return z3.Int("b%d" % a[1])
    args = [iz3(x) for x in a[2]]
    nm = a[1]
    if nm == "*":
        return args[0] * args[1]
    if nm == "//":
        return args[0] / args[1]
    if nm == "%":
        return args[0] % args[1]
    if nm == "imax":
        return z3.If(args[0] >= args[1], args[0], args[1])
    if nm == "imin":
        return z3.If(args[0] <= args[1], args[0], args[1])
    f = z3.Function(nm, *([z3.IntSort()] * (len(args) + 1)))
    return f(*args)


def bz3(b):
    k = b.key()
    if k in _BZ:
        return _BZ[k]
    op = b.op
    if op == "T":
        e = z3.BoolVal(True)
    elif op == "F":
        e = z3.BoolVal(False)
    elif op == "le":
        e = iz3(b.args[0]) <= 0
    elif op == "eq":
        e = iz3(b.args[0]) == 0
    elif op == "rlt":
        e = rz3(b.args[0]) < 0
    elif op == "rle":
        e = rz3(b.args[0]) <= 0
    elif op == "req":
        e = rz3(b.args[0]) == 0
    elif op == "and":
        e = z3.And(*[bz3(x) for x in b.args])
    elif op == "or":
        e = z3.Or(*[bz3(x) for x in b.args])
    elif op == "not":
        e = z3.Not(bz3(b.args[0]))
    elif op == "p":
        nm, args = b.args
        zs, sorts = [], []
        for x in args:
            if isinstance(x, I):
                zs.append(iz3(x))
                sorts.append(z3.IntSort())
            elif isinstance(x, R):
                zs.append(rz3(x))
                sorts.append(z3.RealSort())
            else:
                nm = nm + "|" + x.key()
        e = z3.Bool("p!" + nm) if not zs else z3.Function("p!" + nm, *sorts, z3.BoolSort())(*zs)
    else:
        raise Unsupported("bool op " + op)
    _BZ[k] = e
    return e


def rz3(r):
    k = r.key()
    if k in _RZ:
        return _RZ[k]
    e = z3.RealVal(0)
    for key in sorted(r.terms):
        c, (bvs, ats) = r.terms[key]
        q = z3.RealVal(str(c))
        if bvs:
            e = e + q * z3.Real("R!" + key)
            continue
        for a, p in ats:
            z = atz3(a)
            if p >= 0:
                for _ in range(p):
                    q = q * z
            else:
                zi = z3.Real("inv!" + a.key())
                for _ in range(-p):
                    q = q * zi
        e = e + q
    _RZ[k] = e
    return e


def atz3(a):
    if a.kind == "a":
        if not a.args:
            return z3.Real(a.name)
        args = list(a.args)
        if a.name in T.SYM2 and args[0].key() > args[1].key():
            args[0], args[1] = args[1], args[0]
        if any(not isinstance(x, I) for x in args):
            return z3.Real(a.key())
        f = z3.Function(a.name, *([z3.IntSort()] * len(args)), z3.RealSort())
        return f(*[iz3(x) for x in args])
    if a.kind == "iv":
        return z3.ToReal(iz3(a.args[0]))
    if a.kind == "ind":
        return z3.If(bz3(a.args[0]), z3.RealVal(1), z3.RealVal(0))
    if a.kind == "fn" and a.name == "max":
        x, y = rz3(a.args[0]), rz3(a.args[1])
        return z3.If(x >= y, x, y)
    if a.kind == "fn" and a.name == "min":
        x, y = rz3(a.args[0]), rz3(a.args[1])
        return z3.If(x <= y, x, y)
    if a.kind == "fn" and a.name == "abs":
        x = rz3(a.args[0])
        return z3.If(x >= 0, x, -x)
    if a.kind == "c" and a.name == "pi":
        return z3.Real("pi!")
    return z3.Real(a.key())


def _collect(r, acc):
    for c, (bvs, ats) in r.terms.values():
        if bvs:
            acc.setdefault("sum", {})[T.monokey(bvs, ats)] = (bvs, ats)
            continue
        for a, p in ats:
            acc.setdefault("atom", {})[a.key()] = a
            if p < 0:
                acc.setdefault("inv", {})[a.key()] = a
            for x in a.args:
                if isinstance(x, R):
                    _collect(x, acc)
                elif isinstance(x, B):
                    _collectb(x, acc)


def _collectb(b, acc):
    if b.op in ("rlt", "rle", "req"):
        _collect(b.args[0], acc)
    elif b.op in ("and", "or", "not"):
        for x in b.args:
            _collectb(x, acc)
    elif b.op == "p":
        for x in b.args[1]:
            if isinstance(x, R):
                _collect(x, acc)


def realfacts(b, ctx):
    """Side facts on the real atoms of b and of the path condition."""
    acc = {}
    _collectb(b, acc)
    if not acc:
        return []
    for p in ctx.pc:
        _collectb(p, acc)
    out = []
    exps, logs, sqrts = [], [], []
    for k, a in acc.get("atom", {}).items():
        z = atz3(a)
        if ispos(a):
            out.append(z > 0)
        elif isnonneg(a):
            out.append(z >= 0)
        if a.kind == "fn" and len(a.args) == 1 and isinstance(a.args[0], R):
            if a.name == "exp":
                exps.append((a.args[0], z))
                x = rz3(a.args[0])
                out.append(z3.Implies(x >= 0, z >= 1))
                out.append(z3.Implies(x <= 0, z <= 1))
                out.append(z >= 1 + x)
            elif a.name == "log":
                logs.append((a.args[0], z))
                x = rz3(a.args[0])
                out.append(z3.Implies(x >= 1, z >= 0))
                out.append(z3.Implies(z3.And(x > 0, x < 1), z < 0))
            elif a.name == "sqrt":
                sqrts.append((a.args[0], z))
                x = rz3(a.args[0])
                out.append(z3.Implies(x > 0, z > 0))
                out.append(z3.Implies(x >= 0, z * z == x))
            elif a.name in ("floor", "ceil"):
                x = rz3(a.args[0])
                zi = z3.Int("int!" + a.key())
                out.append(z == z3.ToReal(zi))
                if a.name == "floor":
                    out.append(z3.And(z <= x, x < z + 1))
                else:
                    out.append(z3.And(z >= x, x > z - 1))
            elif a.name == "inv":
                x = rz3(a.args[0])
                out.append(z3.Implies(x != 0, z * x == 1))
        if a.kind == "c" and a.name == "pi":
            out.append(z3.And(z > z3.RealVal("3.14159"), z < z3.RealVal("3.1416")))
    for grp in (exps, logs, sqrts):
        for i in range(len(grp)):
            for j in range(i + 1, len(grp)):
                x, y = rz3(grp[i][0]), rz3(grp[j][0])
                if grp is exps:
                    out.append((x < y) == (grp[i][1] < grp[j][1]))
                else:
                    out.append(z3.Implies(z3.And(x > 0, y > 0), (x < y) == (grp[i][1] < grp[j][1])))
                    out.append(z3.Implies(x == y, grp[i][1] == grp[j][1]))
    for k, a in acc.get("inv", {}).items():
        z, zi = atz3(a), z3.Real("inv!" + k)
        out.append(z3.Implies(z != 0, z * zi == 1))
        if ispos(a):
            out.append(zi > 0)
    for k, (bvs, ats) in acc.get("sum", {}).items():
        if monononneg(bvs, ats):
            out.append(z3.Real("R!" + k) >= 0)
    for nm, h in REALHOOKS.items():
        args = [a.args for a in acc.get("atom", {}).values() if a.kind == "a" and a.name == nm]
        if args:
            for f in h(args):
                out.append(bz3(f))
    return out


# ----------------------------------------------------------------------------- signs
POSATOM = {}


def ispos(a):
    if a.kind == "a":
        if a.name in T.POS:
            return True
        f = POSATOM.get(a.name)
        if f is not None and f(a.args):
            return True
        return a.key() in _C.c.pos
    if a.kind == "fn":
        if a.name in ("exp", "gamma"):
            return True
        if a.name in ("pow", "max") and rpos(a.args[0]):
            return True
        if a.name in ("min",) and all(rpos(x) for x in a.args):
            return True
        if a.name in ("sqrt", "inv") and isinstance(a.args[0], R) and rpos(a.args[0]):
            return True
    if a.kind == "c":
        return a.name in ("pi", "inf")
    if a.kind == "iv":
        return _C.c.decide(ilt(I(), a.args[0])) is True
    return a.key() in _C.c.pos


def isnonneg(a):
    if ispos(a):
        return True
    if a.kind == "a":
        return a.name in T.NONNEG
    if a.kind == "fn":
        if a.name in ("sqrt", "abs"):
            return True
        if a.name in ("inv", "pow"):
            return rnonneg(a.args[0])
        if a.name == "max":
            return any(rnonneg(x) for x in a.args)
        if a.name == "min":
            return all(rnonneg(x) for x in a.args)
    if a.kind == "ind":
        return True
    if a.kind == "iv":
        return _C.c.decide(ile(I(), a.args[0])) is True
    return False


def monononneg(bvs, ats):
    c = _C.c
    n = len(c.scopes)
    for u, hi in bvs:
        c.scopes.append((u, I(), hi))
    try:
        return all(p % 2 == 0 or isnonneg(a) for a, p in ats)
    finally:
        del c.scopes[n:]


def rpos(r):
    """Syntactic positivity of a real term."""
    if not r.terms:
        return False
    anypos = False
    for c, (bvs, ats) in r.terms.values():
        if c < 0:
            return False
        if not bvs and all(ispos(a) for a, p in ats):
            anypos = True
        elif not monononneg(bvs, ats):
            return False
    if anypos:
        return True
    return r.key() in _C.c.pos


def rnonneg(r):
    return all(c > 0 and monononneg(b, a) for c, (b, a) in r.terms.values()) or r.key() in _C.c.pos


def rsosnonneg(r):
    """Sums over a common range whose combined general term is nonnegative (z3, nonlinear)."""
    if r.const is not None:
        return r.const >= 0
    k = ("sos", r.key())
    if k in _C.c.cache:
        return _C.c.cache[k]
    groups = {}
    ok = True
    for c, (bvs, ats) in r.terms.values():
        if not bvs:
            groups.setdefault("", (None, None, []))[2].append((c, bvs, ats))
        elif len(bvs) == 1:
            u, hi = bvs[0]
            groups.setdefault(hi.key(), (u, hi, []))[2].append((c, bvs, ats))
        else:
            ok = False
    for _, (u, hi, ms) in sorted(groups.items()) if ok else ():
        body = ZERO
        w = fresh_uid()
        for c, bvs, ats in ms:
            m = {("b", bvs[0][0]): I.bv(w)} if bvs else {}
            body = body + rebuild(c, (), ats, m)
        if rnonneg(body):
            continue
        ext = () if hi is None else (ile(I(), I.bv(w)), ilt(I.bv(w), hi))
        if _C.c.decide(rle0(body.neg()), ext) is not True:
            ok = False
            break
    _C.c.cache[k] = ok
    return ok


def rsign_pos(r):
    """Positivity by syntax, then by z3."""
    if rpos(r):
        return True
    return _C.c.decide(rlt0(r.neg())) is True


# ----------------------------------------------------------------------------- functions
def rfn(name, *args):
    return R.atom(Atom("fn", name, args))


def single(r):
    """(coeff, atoms) when r is one monomial without bound variables."""
    if len(r.terms) == 1:
        c, (bvs, ats) = next(iter(r.terms.values()))
        if not bvs:
            return c, ats
    return None


def rexp(r):
    if r.const == 0:
        return ONE
    out = ONE
    rest = ZERO
    s = T._infsign(r)
    if s is not None:
        return R.atom(Atom("c", "inf")) if s > 0 else ZERO
    for k, (c, (bvs, ats)) in r.terms.items():
        if not bvs and len(ats) == 1 and ats[0][1] == 1 and ats[0][0].kind == "fn" and ats[0][0].name == "log":
            arg = ats[0][0].args[0]
            if c.denominator == 1 and abs(c) <= 8:
                b = arg if c > 0 else rinv(arg)
                for _ in range(abs(int(c))):
                    out = out * b
                continue
            if c.denominator == 2 and abs(c.numerator) <= 8:
                b = rsqrt(arg)
                b = b if c > 0 else rinv(b)
                for _ in range(abs(c.numerator)):
                    out = out * b
                continue
        rest = rest + R({k: (c, (bvs, ats))})
    if rest.terms:
        out = out * R.atom(Atom("fn", "exp", (rest,)))
    return out


def rlog(r):
    if r.const == 1:
        return ZERO
    if r.const == 0:
        return R.atom(Atom("c", "inf")).neg()
    s = single(r)
    if s is not None:
        c, ats = s
        if c > 0 and ats and all(ispos(a) or (a.kind == "fn" and a.name == "sqrt" and not a.args[0].bvs() and _C.c.decide(rlt0(a.args[0].neg())) is True) for a, p in ats):
            out = ZERO
            if c != 1:
                out = out + rfn("log", R.num(c))
            for a, p in ats:
                if a.kind == "fn" and a.name == "exp":
                    out = out + a.args[0].scale(p)
                elif a.kind == "fn" and a.name == "sqrt":
                    out = out + rlog(a.args[0]).scale(Fraction(p, 2))
                elif a.kind == "fn" and a.name == "inv":
                    out = out + rlog(a.args[0]).scale(-p)
                else:
                    out = out + rfn("log", R.atom(a)).scale(p)
            return out
    # pull a rational content out of sums known to be positive
    return rfn("log", r)


def rinv(r):
    c = r.const
    if c is not None:
        if c == 0:
            raise Unsupported("division by the constant zero")
        return R.num(1 / c)
    s = single(r)
    if s is not None:
        c, ats = s
        _divcheck(r)
        out = rmono(1 / c, (), tuple((a, -p) for a, p in ats if not _surd(a, p)))
        for a, p in ats:
            if _surd(a, p):
                out = out.scale(1 / a.args[0].const) * R.atom(a)
        return out
    _divcheck(r)
    # common factor
    common = None
    for c, (bvs, ats) in r.terms.values():
        bs = {u for u, _ in bvs}
        d = {a.key(): (a, p) for a, p in ats if not (a.bvs() & bs) and a.kind != "ind"}
        if common is None:
            common = d
        else:
            common = {
                k: (a, min(p, d[k][1]) if p > 0 else max(p, d[k][1]))
                for k, (a, p) in common.items()
                if k in d and (p > 0) == (d[k][1] > 0)
            }
    k0 = min(r.terms)
    c0 = r.terms[k0][0]
    base = r.scale(1 / c0)
    out = R.num(1 / c0)
    if common:
        f = rmono(Fraction(1), (), tuple((a, -p) for a, p in common.values()))
        base = base * f
        out = out * f
        if single(base) is not None:
            return out * rinv(base)
    return out * rfn("inv", base)


def _surd(a, p):
    return p == 1 and a.kind == "fn" and a.name == "sqrt" and a.args[0].const is not None


def _divcheck(r):
    d = _C.c.divs
    k = r.key()
    if k not in d:
        d[k] = r


def radicals(c):
    """sqrt of a positive rational as a product of square roots of primes (trial division), over the denominator."""
    n = c.numerator * c.denominator
    out = R.num(Fraction(1, c.denominator))
    for p in range(2, 1000):
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out = out.scale(p ** (e // 2))
            if e % 2:
                out = out * R.atom(Atom("fn", "sqrt", (R.num(p),)))
    if n > 1:
        out = out * R.atom(Atom("fn", "sqrt", (R.num(n),)))
    return out


def rsqrt(r):
    c = r.const
    if c is not None:
        if c == 0:
            return ZERO
        if c > 0:
            import math

            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return R.num(Fraction(n, d))
            return radicals(c)
    s = single(r)
    if s is not None:
        c, ats = s
        if ats and c > 0:
            out = ONE if c == 1 else rsqrt(R.num(c))
            ok = sum(1 for a, p in ats if p % 2 and not isnonneg(a)) <= 1
            if ok:
                rest = ()
                for a, p in ats:
                    if p % 2 == 0:
                        x = R.atom(a) if isnonneg(a) else rabs(R.atom(a))
                        out = out * rpow(x, p // 2)
                    elif a.kind == "fn" and a.name == "exp":
                        out = out * rexp(a.args[0].scale(Fraction(p, 2)))
                    else:
                        if p > 1 or p < 0:
                            q = (p - 1) // 2
                            x = R.atom(a) if isnonneg(a) else rabs(R.atom(a))
                            out = out * rpow(x, q)
                        rest = rest + ((a, 1),)
                for a, p in rest:
                    out = out * R.atom(Atom("fn", "sqrt", (R.atom(a),)))
                return out
    return rfn("sqrt", r)


def rpow(r, p):
    """r**p for rational or symbolic p."""
    if isinstance(p, R):
        c = p.const
        if c is None:
            if r.const == 0 and _C.c.decide(rlt0(p.neg())) is True:
                return ZERO
            return rexp(p * rlog(r)) if rpos(r) else rfn("pow", r, p)
        p = c
    p = tofrac(p)
    if p.denominator == 1:
        n = int(p)
        if abs(n) > 12:
            return rfn("pow", r, R.num(p))
        b = r if n >= 0 else rinv(r)
        out = ONE
        for _ in range(abs(n)):
            out = out * b
        return out
    if p.denominator == 2:
        return rpow(rsqrt(r), p.numerator)
    return rfn("pow", r, R.num(p))


def rgammaln(r):
    c = r.const
    if c is not None and c.denominator == 1 and 1 <= c <= 40:
        import math

        return rlog(R.num(math.factorial(int(c) - 1)))
    return rfn("gammaln", r)


def rabs(r):
    c = r.const
    if c is not None:
        return R.num(abs(c))
    if rnonneg(r):
        return r
    if rnonneg(r.neg()):
        return r.neg()
    d = _C.c.decide(rle0(r.neg())) if r.bvs() == set() else None
    if d is True:
        return r
    d2 = _C.c.decide(rle0(r)) if r.bvs() == set() else None
    if d2 is True:
        return r.neg()
    s = single(r)
    if s is not None and len(s[1]) > 1:
        out = R.num(abs(s[0]))
        for a, p in s[1]:
            out = out * rpow(rabs(R.atom(a)), p)
        return out
    if s is not None:
        (a, p), = s[1]
        if p != 1:
            return rpow(rabs(R.atom(a)), p).scale(abs(s[0]))
    c0 = r.terms[min(r.terms)][0]
    return rfn("abs", r.scale(1 / c0)).scale(abs(c0))


def rmax(a, b):
    for u, w in ((a, b), (b, a)):
        q = T.infcase(u)
        if q is not None:
            return rite(q[0], rmax(q[1], w), rmax(q[2], w))
    d = a - b
    if d.const is not None:
        return a if d.const >= 0 else b
    s = T._infsign(d)
    if s is not None:
        return a if s > 0 else b
    if not d.bvs():
        r = _C.c.decide(rle0(d), timeout=2000)
        if r is True:
            return b
        if _C.c.decide(rle0(d.neg()), timeout=2000) is True:
            return a
    if any(m[0] for _, m in d.terms.values()):
        if rsosnonneg(d):
            return a
        if rsosnonneg(d.neg()):
            return b
    return rfn("max", a, b)


def rmin(a, b):
    for u, w in ((a, b), (b, a)):
        q = T.infcase(u)
        if q is not None:
            return rite(q[0], rmin(q[1], w), rmin(q[2], w))
    d = a - b
    if d.const is not None:
        return a if d.const <= 0 else b
    s = T._infsign(d)
    if s is not None:
        return a if s < 0 else b
    if not d.bvs():
        r = _C.c.decide(rle0(d), timeout=2000)
        if r is True:
            return a
        if _C.c.decide(rle0(d.neg()), timeout=2000) is True:
            return b
    return rfn("min", a, b)


REBUILD.update(
    exp=rexp, log=rlog, inv=lambda r: rinv(r), sqrt=rsqrt, abs=rabs, max=rmax, min=rmin, pow=rpow, gammaln=rgammaln
)
T._H.rinv = rinv


def ind(b):
    if b.op == "T":
        return ONE
    if b.op == "F":
        return ZERO
    return R.atom(Atom("ind", "ind", (b,)))


def rite(b, x, y):
    """if b then x else y (x, y already computed)."""
    if b.op == "T":
        return x
    if b.op == "F":
        return y
    d = x - y
    if not d.terms:
        return x
    return y + ind(b) * d


# ----------------------------------------------------------------------------- simplify
def _simplify(c, bvs, ats):
    if c == 0:
        return ZERO
    ctx = _C.c
    # 1. merge
    d = {}
    inds = {}
    exps = None
    extra = None
    for a, p in ats:
        if a.kind == "ind":
            b = a.args[0]
            for x in b.args if b.op == "and" else (b,):
                inds[x.key()] = x
            continue
        k = a.key()
        if k in d:
            d[k] = (a, d[k][1] + p)
        else:
            d[k] = (a, p)
    ex = [(k, a, p) for k, (a, p) in d.items() if a.kind == "fn" and a.name == "exp"]
    if len(ex) > 1 or (ex and ex[0][2] != 1):
        tot = ZERO
        for k, a, p in ex:
            tot = tot + a.args[0].scale(p)
            del d[k]
        extra = rexp(tot)
    for k in list(d):
        a, p = d[k]
        if p == 0:
            del d[k]
        elif a.kind == "fn" and a.name == "sqrt" and (p >= 2 or p <= -2):
            q = p // 2 if p > 0 else -((-p) // 2)
            arg = a.args[0]
            e = rpow(arg, q)
            extra = e if extra is None else extra * e
            if p - 2 * q:
                d[k] = (a, p - 2 * q)
            else:
                del d[k]
        elif a.kind == "fn" and a.name == "inv" and p < 0:
            e = rpow(a.args[0], -p)
            extra = e if extra is None else extra * e
            del d[k]
        elif a.kind == "fn" and a.name == "abs" and p >= 2:
            e = rpow(a.args[0], p - p % 2)
            extra = e if extra is None else extra * e
            if p % 2:
                d[k] = (a, 1)
            else:
                del d[k]
    if extra is not None:
        rest = tuple(d.values()) + tuple((Atom("ind", "ind", (x,)), 1) for x in inds.values())
        out = ZERO
        for c2, (b2, a2) in extra.terms.items() and extra.terms.values():
            out = out + T.attach(c * c2, bvs, rest, (b2, a2))
        return out
    # 2. indicators
    n0 = len(ctx.scopes)
    if inds:
        for u, hi in bvs:
            ctx.scopes.append((u, I(), hi))
        try:
            for k in list(inds):
                r = ctx.decide(inds[k])
                if r is True:
                    del inds[k]
                elif r is False:
                    return ZERO
            if len(inds) > 1:
                ks = sorted(inds)
                conj = band(*[inds[k] for k in ks])
                if conj.op == "F":
                    return ZERO
                ext = []
                if ctx.decide(bnot(conj)) is True:
                    return ZERO
                for k in ks:
                    oth = [inds[j] for j in inds if j != k]
                    if oth and ctx.decide(inds[k], extra=oth) is True:
                        del inds[k]
        finally:
            del ctx.scopes[n0:]
    # 3. bound variables
    if bvs:
        used = {}
        for k, (a, p) in d.items():
            for u in a.bvs():
                used.setdefault(u, []).append(k)
        for k, b in inds.items():
            for u in b.bvs():
                used.setdefault(u, []).append(k)
        hiu = set()
        for u, hi in bvs:
            hiu |= hi.bvs()
        for idx, (u, hi) in enumerate(bvs):
            rest_b = bvs[:idx] + bvs[idx + 1 :]
            allat = tuple(d.values()) + tuple((Atom("ind", "ind", (x,)), 1) for x in inds.values())
            if u not in used and u not in hiu:
                out = ZERO
                for c2, (b2, a2) in R.ofI(hi).terms.values():
                    out = out + rmono(c * c2, rest_b, allat + a2)
                return out
            if hi.const is not None and hi.const <= ctx.expand and u not in hiu:
                out = ZERO
                for v in range(hi.const):
                    out = out + T.rebuild(c, rest_b, allat, {("b", u): I((), v)})
                return out
            # delta elimination
            if u not in hiu:
                for k, b in inds.items():
                    if b.op == "eq" and abs(b.args[0].coef(("b", u))) == 1:
                        i = b.args[0]
                        cf = i.coef(("b", u))
                        e = I(tuple(x for x in i.t if x[0] != ("b", u)), i.c).scale(-cf)
                        if u in e.bvs():
                            continue
                        at2 = tuple(d.values()) + tuple(
                            (Atom("ind", "ind", (x,)), 1) for kk, x in inds.items() if kk != k
                        )
                        at2 += (
                            (Atom("ind", "ind", (ile(I(), e),)), 1),
                            (Atom("ind", "ind", (ilt(e, hi),)), 1),
                        )
                        at2 = tuple(x for x in at2 if x[0].args and x[0].args[0] is not TRUE)
                        return T.rebuild(c, rest_b, at2, {("b", u): e})
                    if b.op == "le" and abs(b.args[0].coef(("b", u))) == 1:
                        i = b.args[0]
                        cf = i.coef(("b", u))
                        e = I(tuple(x for x in i.t if x[0] != ("b", u)), i.c).scale(-cf)
                        if u in e.bvs():
                            continue
                        others = e.bvs() & {v for v, _ in bvs}
                        if others:
                            # keep triangular sums in canonical form: only outer variables
                            continue
                        at2 = tuple(d.values()) + tuple(
                            (Atom("ind", "ind", (x,)), 1) for kk, x in inds.items() if kk != k
                        )
                        if cf == 1:  # u <= e
                            e1 = e.add(I((), 1))
                            if ctx.decide(ile(e1, hi)) and ctx.decide(ile(I(), e1)):
                                return rmono(c, rest_b + ((u, e1),), at2)
                        else:  # u >= e
                            if ctx.decide(ile(e, hi)) and ctx.decide(ile(I(), e)):
                                v = fresh_uid()
                                return T.rebuild(
                                    c, rest_b + ((v, hi.add(e, -1)),), at2, {("b", u): I.bv(v).add(e)}
                                )
    atl = tuple(d[k] for k in sorted(d)) + tuple(
        (Atom("ind", "ind", (inds[k],)), 1) for k in sorted(inds)
    )
    # enumerations: sums over a permutation or over the true positions of a mask
    if bvs:
        r = _enum(c, bvs, d, inds)
        if r is not None:
            return r
    # 4. theory rules
    for rule in ctx.rules:
        r = rule(c, bvs, atl)
        if r is not None:
            STATS["rules"] += 1
            return r
    key = T.monokey(bvs, atl)
    return R({key: (c, (bvs, atl))})


COUNTS = {}  # counter of a mask -> its value as a sum of indicators
ENUMS = {}  # integer function -> (number of values, range, condition on the value or None)


def _enum(c, bvs, d, inds):
    """sum_{u < n} f(p(u)) = sum_{v < n} f(v) for a permutation p; = sum_{v < N} [m(v)] f(v) for a mask enumeration."""
    for idx, (u, hi) in enumerate(bvs):
        if any(u in h.bvs() for _, h in bvs):
            continue
        ku = I.bv(u).key()
        allat = tuple(d.values()) + tuple((Atom("ind", "ind", (x,)), 1) for x in inds.values())
        fs = set()
        for a, p in allat:
            for x in a.atoms():
                if x[0] == "F" and x[1] in ENUMS and x[2] == (ku,):
                    fs.add(x)
        if len(fs) != 1:
            continue
        (f,) = fs
        n, N, cond = ENUMS[f[1]]
        if n.key() != hi.key() and _C.c.decide(ieq(n, hi)) is not True:
            continue
        v = fresh_uid()
        rest = bvs[:idx] + bvs[idx + 1 :]
        m = {f: I.bv(v)}
        if any(("b", u) in asub.atoms() for a, p in allat for asub in [_fsub(a, m)]):
            continue
        if cond is None:
            at2 = allat
        else:
            n0 = len(_C.c.scopes)
            _C.c.scopes.append((v, I(), N))
            try:
                at2 = allat + ((Atom("ind", "ind", (cond(I.bv(v)),)), 1),)
            finally:
                del _C.c.scopes[n0:]
        return T.rebuild(c, rest + ((v, N),), at2, m)
    return None


def _fsub(a, m):
    return Atom(a.kind, a.name, tuple(x.subst(m) for x in a.args))


T._H.simplify = _simplify


# ----------------------------------------------------------------------------- sums
def rsum(hi, f, lo=None):
    """sum_{lo <= k < hi} f(k)."""
    ctx = _C.c
    hi = toI(hi)
    lo = I() if lo is None else toI(lo)
    n = hi.add(lo, -1)
    if n.const is not None and n.const <= ctx.expand:
        out = ZERO
        for v in range(max(0, n.const)):
            out = out + f(lo.add(I((), v)))
        return out
    u = fresh_uid()
    ctx.scopes.append((u, lo, hi))
    depth = len(ctx.scopes)
    try:
        body = f(I.bv(u))
    except Split as sp:
        del ctx.scopes[depth - 1 :]
        if sp.uid != u:
            raise
        at = sp.at
        # lo <= at <= hi ?
        if not ctx.branchq(ile(lo, at)):
            return rsum(hi, f, lo) if False else _retry(hi, f, lo)
        if not ctx.branchq(ile(at, hi)):
            return _retry(hi, f, lo)
        return rsum(at, f, lo) + rsum(hi, f, at)
    del ctx.scopes[depth - 1 :]
    out = ZERO
    v = fresh_uid()
    m = {("b", u): I.bv(v).add(lo)}
    for c, (bvs, ats) in body.terms.values():
        inner = tuple((w, h.subst(m)) for w, h in bvs)
        out = out + T.rebuild(c, inner + ((v, n),), ats, m)
    return out


def _retry(hi, f, lo):
    # the split point is now known to be outside the range: evaluate again
    return rsum(hi, f, lo)


def _branchq(self, b):
    """branch, allowing outer bound variables through Split."""
    r = self.decide(b)
    if r is not None:
        return r
    return self.branch(b)


Ctx.branchq = _branchq


def ite(b, fx, fy):
    """Lazily evaluated if-then-else on elements; thunks return R."""
    ctx = _C.c
    r = ctx.decide(b)
    if r is True:
        return fx()
    if r is False:
        return fy()
    if isint(b):
        if b.bvs():
            ctx.trysplit(b)
        elif b.op != "eq" and not (b.op == "not" and b.args[0].op == "eq") and ctx.ghost.get("fork_ite", True):
            return fx() if ctx.choose(b) else fy()
    x, y = fx(), fy()
    return rite(b, x, y)


def isint(b):
    if b.op in ("le", "eq"):
        return True
    if b.op in ("and", "or", "not"):
        return all(isint(x) for x in b.args)
    return False


# ----------------------------------------------------------------------------- rules
class Pat:
    """Rewrite rule: prod of pattern atoms with bound pattern variables -> rhs.

    atoms: list of (name, (idx, ...)) where idx is a pattern variable '?x', a bound
    pattern variable '$k', or an I (must be equal).  bounds: {'$k': hi}.
    guard(binding) -> bool, rhs(binding) -> R.
    """

    def __init__(self, atoms, bounds, rhs, guard=None, label=""):
        self.atoms, self.bounds, self.rhs, self.guard, self.label = atoms, bounds, rhs, guard, label
        self.names = [a[0] for a in atoms]

    def __call__(self, c, bvs, ats):
        cnt = {}
        for a, p in ats:
            if a.kind == "a" and p > 0:
                cnt[a.name] = cnt.get(a.name, 0) + p
        need = {}
        for nm in self.names:
            need[nm] = need.get(nm, 0) + 1
        for nm, k in need.items():
            if cnt.get(nm, 0) < k:
                return None
        if len(bvs) < len(self.bounds):
            return None
        pows = {i: p for i, (a, p) in enumerate(ats)}
        for binding, used in self._match(0, {}, {}, bvs, ats, pows):
            inner = {binding[k].t[0][0][1] for k in self.bounds}
            # bound variables must not occur elsewhere
            left = []
            for i, (a, p) in enumerate(ats):
                q = p - used.get(i, 0)
                if q:
                    left.append((a, q))
            if any(a.bvs() & inner for a, _ in left):
                continue
            if any(hi.bvs() & inner for u, hi in bvs if u not in inner):
                continue
            ctx = _C.c
            n0 = len(ctx.scopes)
            for u, hi in bvs:
                if u not in inner:
                    ctx.scopes.append((u, I(), hi))
            try:
                if self.guard is not None and not self.guard(binding):
                    continue
                rhs = self.rhs(binding)
            except Split as sp:
                # split the outer sum of this monomial
                del ctx.scopes[n0:]
                for idx, (u, hi) in enumerate(bvs):
                    if u == sp.uid:
                        return self._split(c, bvs, ats, idx, sp.at)
                raise
            finally:
                del ctx.scopes[n0:]
            ob = tuple(b for b in bvs if b[0] not in inner)
            out = ZERO
            for c2, m2 in rhs.terms.values():
                out = out + T.attach(c * c2, ob, tuple(left), m2)
            return out
        return None

    def _split(self, c, bvs, ats, idx, at):
        u, hi = bvs[idx]
        rest = bvs[:idx] + bvs[idx + 1 :]
        v, w = fresh_uid(), fresh_uid()
        return T.rebuild(c, rest + ((v, at),), ats, {("b", u): I.bv(v)}) + T.rebuild(
            c, rest + ((w, hi.add(at, -1)),), ats, {("b", u): I.bv(w).add(at)}
        )

    def _match(self, k, binding, used, bvs, ats, pows):
        if k == len(self.atoms):
            yield dict(binding), dict(used)
            return
        nm, idx = self.atoms[k]
        for i, (a, p) in enumerate(ats):
            if a.kind != "a" or a.name != nm or p <= 0 or used.get(i, 0) >= p:
                continue
            orders = [a.args]
            if nm in T.SYM2:
                orders.append((a.args[1], a.args[0]) + tuple(a.args[2:]))
            for args in orders:
                nb = dict(binding)
                if self._unify(idx, args, nb, bvs):
                    used[i] = used.get(i, 0) + 1
                    yield from self._match(k + 1, nb, used, bvs, ats, pows)
                    used[i] -= 1
                    if not used[i]:
                        del used[i]

    def _unify(self, idx, args, nb, bvs):
        for p, x in zip(idx, args):
            if isinstance(p, str):
                if p in nb:
                    if nb[p].key() != x.key():
                        return False
                elif p[0] == "$":
                    if len(x.t) != 1 or x.c or x.t[0][1] != 1 or x.t[0][0][0] != "b":
                        return False
                    u = x.t[0][0][1]
                    hi = dict(bvs).get(u)
                    if hi is None or hi.add(self.bounds[p], -1).const != 0:
                        if hi is None or _C.c.decide(ieq(hi, self.bounds[p])) is not True:
                            return False
                    if any(q[0] == "$" and nb[q].key() == x.key() for q in nb):
                        return False
                    nb[p] = x
                else:
                    nb[p] = x
            elif isinstance(p, tuple):  # ('+', '?x', I): x + I
                _, v, off = p
                y = x.add(off, -1)
                if v[0] == "$":
                    if not self._unify((v,), (y,), nb, bvs):
                        return False
                elif v in nb:
                    if nb[v].key() != y.key():
                        return False
                else:
                    nb[v] = y
            else:
                if p.key() != x.key():
                    return False
        return True


def addrule(rule, key):
    c = _C.c
    if key in c.rulekeys:
        return
    c.rulekeys.add(key)
    c.rules.append(rule)


# ----------------------------------------------------------------------------- renormalise
def renorm(r, m=None):
    """Rebuild with all current rules and equalities; deep."""
    m = m or {}
    out = ZERO
    for c, (bvs, ats) in r.terms.values():
        mm = {k: v for k, v in m.items() if not (k[0] == "b" and k[1] in {u for u, _ in bvs})}
        acc = R.num(c)
        keep = []
        for a, p in ats:
            x = arenorm(a, mm)
            if x is None:
                keep.append((a, p))
            else:
                acc = acc * rpow(x, p)
        nb = tuple((u, hi.subst(mm)) for u, hi in bvs)
        for c2, (b2, a2) in acc.terms.values():
            out = out + T.attach(c2, nb, tuple(keep), (b2, a2))
    return out


def arenorm(a, m):
    ch = False
    args = []
    for x in a.args:
        if isinstance(x, R):
            y = renorm(x, m)
            if y.const is None and req0(y).key() in _C.c.pckeys:
                y = ZERO
        elif isinstance(x, Bind):
            y = x.subst(m)
            y = Bind(y.uid, y.hi, renorm(y.body) if isinstance(y.body, R) else y.body)
        else:
            y = x.subst(m) if m else x
        ch = ch or y.key() != x.key()
        args.append(y)
    if not ch:
        return None
    if a.kind == "fn" and a.name in REBUILD:
        return REBUILD[a.name](*args)
    if a.kind == "iv":
        return R.ofI(args[0])
    return R.atom(Atom(a.kind, a.name, args))


def clear_denominators(r):
    """Multiply by the denominators that are not inside sums."""
    for _ in range(6):
        dens = {}
        for c, (bvs, ats) in r.terms.values():
            bs = {u for u, _ in bvs}
            for a, p in ats:
                if a.bvs() & bs:
                    continue
                if a.kind == "fn" and a.name == "inv" and p > 0:
                    dens[a.key()] = (a, max(p, dens.get(a.key(), (a, 0))[1]))
                elif p < 0:
                    dens[a.key()] = (a, min(p, dens.get(a.key(), (a, 0))[1]))
        if not dens:
            return r
        k = sorted(dens)[0]
        a, P = dens[k]
        out = ZERO
        for c, (bvs, ats) in r.terms.values():
            q = 0
            rest = []
            for b, p in ats:
                if b.key() == k:
                    q = p
                else:
                    rest.append((b, p))
            if P > 0:
                mult = rpow(a.args[0], P - q)
            else:
                mult = rpow(R.atom(a), q - P)
            for c2, m2 in mult.terms.values():
                out = out + T.attach(c * c2, bvs, tuple(rest), m2)
        r = out
    return r


def iszero(r):
    """Normal form zero up to the declared coefficient slack."""
    if not r.terms:
        return True
    return all(abs(c) < Fraction(1, 10**12) for c, _ in r.terms.values())


def prove_zero(r, depth=0):
    """Return (ok, residual) for r == 0 under the current path; may fork on indicators."""
    c = _C.c
    r = renorm(r, c.eqs)
    if iszero(r):
        return True, r
    # case split on indicators without bound variables (local split, no path fork)
    for k in sorted(r.terms):
        co, (bvs, ats) = r.terms[k]
        for a, p in ats:
            if a.kind == "ind" and not a.bvs() and depth < 12:
                b = a.args[0]
                res = []
                for v in (b, bnot(b)):
                    with sub(v) as okp:
                        if okp:
                            ok, rr = prove_zero(r, depth + 1)
                        else:
                            ok, rr = True, ZERO
                    if not ok:
                        return False, rr
                return True, ZERO
    # case split on nested indicators / max / min
    n = _nested_cond(r)
    if n is not None and depth < 8:
        for v in (n, bnot(n)):
            with sub(v) as okp:
                if okp:
                    ok, rr = prove_zero(r, depth + 1)
                else:
                    ok, rr = True, ZERO
            if not ok:
                return False, rr
        return True, ZERO
    r2 = clear_denominators(r)
    if r2 is not r:
        r2 = renorm(r2)
        if iszero(r2):
            return True, r2
        if r2.key() != r.key() and depth < 12:
            return prove_zero(r2, depth + 6)
    for step in (empties, merge_ranges, polar, counters, nothing_there):
        r3 = step(r)
        if r3 is not None and depth < 12:
            return prove_zero(r3, depth + (4 if step is polar else 1))
    r3 = telescope(r)
    if r3 is not None and depth < 12:
        return prove_zero(r3, depth + 3)
    # polynomial identities modulo equalities known to z3
    try:
        if not r.bvs() and c.decide(req0(r)) is True:
            return True, ZERO
    except z3.Z3Exception:
        pass
    return False, r


def counters(r):
    """Replace the counters of masks by the sums they stand for."""
    vs = {a for k, (c, (bvs, ats)) in r.terms.items() for at, p in ats for a in at.atoms() if a[0] == "v" and a[1] in COUNTS}
    if not vs:
        return None
    out, ch = ZERO, False
    for k in sorted(r.terms):
        c, (bvs, ats) = r.terms[k]
        hit = next((j for j, (a, p) in enumerate(ats) if a.kind == "iv" and p == 1 and any(x in vs for x in a.atoms())), None)
        if hit is None:
            out = out + R({k: (c, (bvs, ats))})
            continue
        ch = True
        (v,) = [a for a in ats[hit][0].atoms() if a in vs]
        out = out + rmono(c, bvs, ats[:hit] + ats[hit + 1 :]) * COUNTS[v[1]]()
    return out if ch else None


def empties(r):
    """Sums restricted to a mask known to hold nowhere vanish."""
    if not any(bvs for c, (bvs, ats) in r.terms.values()):
        return None
    zs = [k for k in COUNTS if _C.c.decide(ile(I.var(k), I())) is True]
    out, ch = r, False
    for k in zs:
        z = COUNTS[k]()
        if len(z.terms) != 1:
            continue
        ((_, (zb, za)),) = z.terms.values()
        if len(zb) != 1 or any(p != 1 or a.kind != "ind" for a, p in za):
            continue
        for key, (c, (bvs, ats)) in list(out.terms.items()):
            have = {a.key() for a, p in ats}
            for u, hi in bvs:
                if hi.key() == zb[0][1].key() and all(_fsub(a, {("b", zb[0][0]): I.bv(u)}).key() in have for a, p in za):
                    out = R({x: t for x, t in out.terms.items() if x != key})
                    ch = True
                    break
    return out if ch else None


def nothing_there(r):
    """Eliminate with the equations sum [mask] = 0 of the masks known to hold nowhere."""
    rows = []
    for k in sorted(COUNTS):
        if _C.c.decide(ile(I.var(k), I())) is not True:
            continue
        z = COUNTS[k]()
        while True:
            z2 = polar(z)
            if z2 is None:
                break
            z = z2
        for lead, y in rows:
            if lead in z.terms:
                z = z - y.scale(z.terms[lead][0] / y.terms[lead][0])
        if z.terms:
            rows.append((max(z.terms), z))
    out, ch = r, False
    for lead, y in rows:
        if lead in out.terms:
            out, ch = out - y.scale(out.terms[lead][0] / y.terms[lead][0]), True
    return out if ch else None


def merge_ranges(r):
    """sum_{u<a} g(u) + sum_{u<b} g(a+u) = sum_{u<a+b} g(u)."""
    ts = [(k, c, bvs, ats) for k, (c, (bvs, ats)) in sorted(r.terms.items()) if bvs]
    if len(ts) < 2:
        return None
    for k1, c1, b1, a1 in ts:
        for x, (u, hi) in enumerate(b1):
            if any(u in h.bvs() for _, h in b1):
                continue
            o1 = b1[:x] + b1[x + 1 :]
            for k2, c2, b2, a2 in ts:
                if k1 == k2 or c1 != c2 or len(b1) != len(b2):
                    continue
                for y, (v, hj) in enumerate(b2):
                    if any(v in h.bvs() for _, h in b2):
                        continue
                    o2 = b2[:y] + b2[y + 1 :]
                    w = I.var("#w")
                    m1 = T.monokey(o1, [(_fsub(a, {("b", u): w}), p) for a, p in a1])
                    m2 = T.monokey(o2, [(_fsub(a, {("b", v): w.add(hi, -1)}), p) for a, p in a2])
                    if m1 == m2:
                        out = R({k: t for k, t in r.terms.items() if k not in (k1, k2)})
                        z = fresh_uid()
                        return out + T.rebuild(c1, o1 + ((z, hi.add(hj)),), a1, {("b", u): I.bv(z)})
    return None


def polar(r):
    """One polarity per inequality inside sums: [not b] = 1 - [b]."""
    out, ch = ZERO, False
    for k in sorted(r.terms):
        c, (bvs, ats) = r.terms[k]
        t = None
        if bvs:
            for j, (a, p) in enumerate(ats):
                if a.kind == "ind" and a.args[0].op in ("le", "rle", "rlt", "not"):
                    b = a.args[0]
                    nb = bnot(b)
                    if nb.key() < b.key():
                        rest = ats[:j] + ats[j + 1 :]
                        t = rmono(c, bvs, rest) - rmono(c, bvs, rest + ((Atom("ind", "ind", (nb,)), 1),))
                        break
        ch = ch or t is not None
        out = out + (R({k: (c, (bvs, ats))}) if t is None else t)
    return out if ch else None


def prove_nonneg(r, depth=0):
    """r >= 0 under the current path, splitting on conditions inside r."""
    c = _C.c
    r = renorm(r, c.eqs)
    if rnonneg(r) or rsosnonneg(r):
        return True
    n = None
    for k in sorted(r.terms):
        for a, p in r.terms[k][1][1]:
            if a.kind == "ind" and not a.bvs():
                n = n or a.args[0]
    n = n or _nested_cond(r)
    if n is not None and depth < 8:
        for v in (n, bnot(n)):
            with sub(v) as okp:
                if okp and not prove_nonneg(r, depth + 1):
                    return False
        return True
    return c.decide(rle0(r.neg())) is True


def telescope(r):
    """Split the last terms off the sums when the same residual holds a sum shorter by a constant."""
    sizes = {n.key() for _, (bvs, _) in r.terms.values() for _, n in bvs}
    out, ch = ZERO, False
    for key in sorted(r.terms):
        c, (bvs, ats) = r.terms[key]
        hit = _shorter(bvs, sizes)
        if hit is None:
            out = out + R({key: r.terms[key]})
            continue
        ch = True
        x, m, d = hit
        v = bvs[x][0]
        others = bvs[:x] + bvs[x + 1 :]
        w = fresh_uid()
        out = out + T.rebuild(c, others + ((w, m),), ats, {("b", v): I.bv(w)})
        for e in range(d):
            out = out + T.rebuild(c, others, ats, {("b", v): m.add(I((), e))})
    return out if ch else None


def _shorter(bvs, sizes):
    for x, (v, n) in enumerate(bvs):
        if any(v in m.bvs() for _, m in bvs[:x] + bvs[x + 1 :]):
            continue
        for d in (1, 2):
            m = n.add(I((), -d))
            if m.key() in sizes and _C.c.decide(ile(I(), m)) is True:
                return x, m, d
    return None


def _nested_cond(r, nested=False):
    for c, (bvs, ats) in r.terms.values():
        for a, p in ats:
            if a.kind == "fn" and a.name in ("max", "min", "abs") and not a.bvs() and not bvs:
                if a.name == "abs":
                    return rle0(a.args[0])
                return rle0(a.args[0] - a.args[1])
            for x in a.args:
                if isinstance(x, R):
                    for c2, (b2, at2) in x.terms.values():
                        for a2, _ in at2:
                            if a2.kind == "ind" and not a2.bvs():
                                return a2.args[0]
                    n = _nested_cond(x, True)
                    if n is not None and not n.bvs():
                        return n
    return None


class sub:
    """Temporarily assume b."""

    def __init__(self, b):
        self.b = b

    def __enter__(self):
        c = _C.c
        self.save = (len(c.pc), dict(c.pckeys), dict(c.eqs), set(c.fseen), c.cache)
        c.solver.push()
        try:
            c.assume(self.b)
            if not c.feasible():
                return False
        except PathEnd:
            return False
        c.cache = {}
        return True

    def __exit__(self, *exc):
        c = _C.c
        c.solver.pop()
        del c.pc[self.save[0] :]
        c.pckeys, c.eqs, c.fseen, c.cache = self.save[1:]
        return False


class scope:
    """Bound variable range in force."""

    def __init__(self, *rs):
        self.rs = rs

    def __enter__(self):
        c = _C.c
        self.n = len(c.scopes)
        for u, lo, hi in self.rs:
            c.scopes.append((u, lo, hi))

    def __exit__(self, *e):
        del _C.c.scopes[self.n :]
        return False
