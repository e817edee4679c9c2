"""Loops over symbolic ranges and symbolic lists, closed without unrolling.

The body is run once for an arbitrary position, the values carried from one iteration to
the next being replaced by fresh symbols.  What the body does to them is recognised
(sum, minimum, maximum, element written at the position, element appended); this gives a
closed form of the state at every position.  The body is then run again from that closed
form at an arbitrary position and the closed form at the next position is an obligation,
so that the recognition is not trusted.  A loop that cannot be closed this way is run with
its first iteration apart, and failing that the task is given up: its loop is then only judged by the bounded tasks.
"""
import contextlib
import ctypes
import dis
import sys

from . import core
from . import terms as T
from .core import ctx, ite, prove_zero, rmax, rmin, rsum, scope, sub
from .terms import B, I, PathEnd, R, Unsupported, band, bnot, bor, fresh_uid, ieq, ile, ilt, toI

PLAN = {}  # loop -> Plan, kept over the paths of a task


class Plan:
    def __init__(self):
        self.mode = 0  # 0 all iterations alike, 1 first iteration apart, 2 given up
        self.attrs = set()  # attributes of self changed by the body
        self.arrays = set()  # arrays changed in place
        self.alone = set()  # arrays that do not follow a stated trajectory here
        self.busy = False
        self.why = ""


class Retry(BaseException):
    """The plan of a loop has changed: the task starts again."""


class Open(BaseException):
    """A loop that neither rule closes."""


def failed(plan, why):
    for p in PLAN.values():  # the loops around are not to blame
        p.busy = False
    plan.mode += 1
    plan.why = why
    ctx().ghost["retry"] = True
    raise Retry(why)


def set_locals(frame, new):
    frame.f_locals.update(new)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def at_for(frame):
    """The FOR_ITER instruction the frame is at, or None."""
    cur = None
    for a in dis.get_instructions(frame.f_code):
        if a.offset > frame.f_lasti:  # f_lasti may be in the inline cache of the instruction
            break
        cur = a
    return cur if cur is not None and cur.opname == "FOR_ITER" else None


def stored(frame):
    """Locals bound inside the loop the frame is at."""
    f = at_for(frame)
    out = set()
    for a in dis.get_instructions(frame.f_code):
        if f.offset < a.offset < f.argval and a.opname in ("STORE_FAST", "STORE_DEREF", "DELETE_FAST"):
            out.add(a.argval)
    return out


def chain(frame):
    """The frame running the loop and, through generators, the loops consuming it."""
    out = []
    f = frame
    while f is not None:
        gen = f.f_code.co_flags & 0x20
        if at_for(f) is not None:
            out.append(f)
        elif not gen:
            return None
        if not gen:
            return out
        f = f.f_back
    return None


# ------------------------------------------------------------------ values at a position
def mentions(x, names):
    from .arr import SArr, SBool, SInt

    if isinstance(x, SArr):
        if not all_entries(lambda e, *_: not any(n in e.key() for n in names), x):
            return True
        k = "".join(s.key() for s in x.shp)
    elif isinstance(x, SInt):
        k = toI(x).key()
    elif isinstance(x, SBool):
        k = x.b.key()
    elif isinstance(x, (R, I, B)):
        k = x.key()
    elif isinstance(x, (tuple, list)):
        return any(mentions(y, names) for y in x)
    elif isinstance(x, dict):
        return any(mentions(y, names) for y in x.values())
    else:
        return False
    return any(n in k for n in names)


def moved(x, rng, k):
    """The value x, which depends on the position rng[0] in the range rng[1:], at position k."""
    from .arr import SArr, SBool, SInt, unI, wrapB

    s = {("b", rng[0]): toI(k)}
    if isinstance(x, SArr):
        g = x.reader()

        def get(ix):
            return evalat(rng, toI(k), lambda: g(ix))

        y = SArr(tuple(d.subst(s) for d in x.shp), get, x.kind)
        y.meta = x.meta
        return y
    if isinstance(x, SInt):
        return unI(toI(x).subst(s))
    if isinstance(x, SBool):
        return wrapB(x.b.subst(s))
    if isinstance(x, (R, I, B)):
        return x.subst(s)
    if isinstance(x, (tuple, list)):
        return type(x)([moved(y, rng, k) for y in x])
    if isinstance(x, dict):
        return {a: moved(y, rng, k) for a, y in x.items()}
    if hasattr(x, "moved"):
        return x.moved(lambda y: moved(y, rng, k))
    if x is None or isinstance(x, (int, float, str, bool)) or callable(x):
        return x
    raise Unsupported("value of type %s carried by a loop" % type(x).__name__)


def evalat(rng, k, thunk):
    """The term thunk(), stated for the position u of rng = (u, lo, hi), at position k."""
    u, lo, hi = rng
    while True:
        c = ctx()
        old = c.scopes
        c.scopes = [r for r in old if r[0] != u] + [(u, lo, hi)]  # another position may go by the same name outside
        try:
            return thunk().subst({("b", u): k})
        except T.Split as sp:
            c.scopes = old
            if sp.uid != u:
                raise
            less = c.branch(ilt(k, sp.at))
            if u not in k.bvs():
                lo, hi = k, k.add(I((), 1))  # what is known of k decides
            elif less:
                hi = sp.at
            else:
                lo = sp.at
        finally:
            c.scopes = old


def isum(n, f):
    """sum_{0 <= k < n} f(k) for integers."""
    n = toI(n)
    if n.const is not None:
        out = I()
        for k in range(n.const):
            out = out.add(toI(f(I((), k))))
        return out
    return partial(n, f)(n)


def partial(n, f, lo=I()):
    """k -> sum_{0 <= j < k} f(j) for integers, k <= n; terms below lo only matter in differences."""
    u = fresh_uid()
    with scope((u, lo, n)):
        e = toI(f(I.bv(u)))
        pos = ctx().decide(ile(I(), e)) is True
    if u not in e.bvs():
        return lambda k: toI(k).mul(e)
    if e.bvs() - {u}:
        raise Unsupported("integer sum inside another one")
    name = "csum!" + e.key({u: "@"})
    own = {t[1] for t in e.atoms() if t[0] == "F" and t[1] in core.INTHOOKS}

    def val(a):
        return e.subst({("b", u): a})

    upto = ctx().ghost.setdefault("csum", {}).setdefault(name, [])  # terms below are not negative
    if pos and all(t.key() != n.key() for t in upto):
        upto.append(n)

    def hook(args):
        zero = (I(),)
        pts = list(args) + [zero]
        out = [ieq(I.fn(name, I()), I())]
        for (a,) in pts:
            v = val(a)
            for t in v.atoms():
                if t[0] == "F" and t[1] in own and t in core.FREG:
                    out.extend(core.INTHOOKS[t[1]]([core.FREG[t]]))
            for (b,) in pts:
                if a.key() == b.key():
                    continue
                fa, fb = I.fn(name, a), I.fn(name, b)
                out.append(bor(bnot(ieq(b, a.add(I((), 1)))), ieq(fb, fa.add(v))))
                if upto:
                    out.append(bor(ilt(a, I()), ile(b, a), band(*[ilt(t, b) for t in upto]), ile(fa.add(v), fb)))
        return out

    core.INTHOOKS[name] = hook

    def at(k):
        k = toI(k)
        if k.const is not None and 0 <= k.const < 4:
            out = I()
            for j in range(k.const):
                out = out.add(val(I((), j)))
            return out
        return I.fn(name, k)

    at.hook = hook, name
    return at


def also(start, pts, terms):
    """The facts of a partial sum at the given points, those known already and those of the given terms."""
    if not hasattr(start, "hook"):
        return []
    hook, name = start.hook
    known = {a for a in ctx().fseen if a[1] == name} | {a for t in terms for a in t.atoms() if a[0] == "F" and a[1] == name}
    return hook([(p,) for p in pts] + [core.FREG[a] for a in sorted(known)])


# ------------------------------------------------------------------ carried values
class Fail(Exception):
    pass


def fresh_like(v, tag):
    """(symbolic value of the type of v, its name), or None for values that are not numbers."""
    from .arr import SArr, SInt

    name = ctx().fresh(tag)
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, SInt)):
        return SInt(I.var(name)), name
    if isinstance(v, float):
        y = SArr((), lambda ix: R.arr(name), "f")
        y.meta = {"py": 1}
        return y, name
    if isinstance(v, SArr) and v.kind in ("f", "i"):
        y = SArr(v.shp, (lambda ix: R.arr(name, *ix)) if v.kind == "f" else (lambda ix: I.fn(name, *ix)), v.kind)
        y.meta = v.meta
        return y, name
    return None


def followed(v, first):
    """The trajectory stated by the task that starts with the value v, if any."""
    from .arr import SArr

    if isinstance(v, SArr):
        for tr in ctx().ghost.get("trajectories", ()):
            w = tr(first)
            if len(w.shp) == len(v.shp) and all(a.key() == b.key() for a, b in zip(w.shp, v.shp)) and carries(v, w):
                return tr
    return None


def recognise(v0, h, name, new, names, rng, pos):
    """How the body turns h into new: a function of the position giving the closed form, and the step."""
    from .arr import SArr, SInt, sarr, toR, unI

    u = rng[0]
    if not mentions(new, [name]):
        return None  # bound anew in each iteration
    if isinstance(v0, (int, SInt)) and isinstance(new, (int, SInt)) and not isinstance(new, bool):
        d = toI(new).add(toI(h), -1)
        if not any(n in d.key() for n in names):
            part = partial(rng[2], lambda j: d.subst({("b", u): j}), rng[1])
            return lambda k: unI(toI(v0).add(part(k)).add(part(rng[1]), -1))
        if not mentions(new, names):
            return None
        raise Fail("integer %s" % toI(new).key()[:80])
    if not isinstance(new, (SArr, int, float, SInt)):
        if not mentions(new, names):
            return None
        raise Fail("carried value of type %s" % type(new).__name__)
    if isinstance(v0, (int, SInt)):
        v0, h = sarr(v0), sarr(h)
    if not mentions(new, names):
        return None
    new, v0, h = sarr(new), sarr(v0), sarr(h)
    if len(new.shp) != len(h.shp) or any(ctx().decide(ieq(a, b)) is not True for a, b in zip(new.shp, h.shp)):
        raise Fail("shape changes")
    g, gh, g0 = new.reader(), h.reader(), v0.reader()
    meta = new.meta

    def out(f):
        y = SArr(v0.shp, f, "f")
        y.meta = meta
        return y

    ix = tuple(I.var(ctx().fresh("ix~")) for _ in new.shp)
    inr = band(*[b for i, s in zip(ix, new.shp) for b in (ile(I(), i), ilt(i, s))])

    def here(ixs, k, op):
        return evalat(rng, k, lambda: op(toR(g(ixs)), toR(gh(ixs))))

    with sub(inr) as ok:
        if not ok:
            return lambda k: out(lambda i: toR(g0(i)))
        # written at the position
        axes = written(new, h, pos, names)
        if axes is not None:
            lo = pos.subst({("b", u): I()})

            def done(i, q, before):
                """The entry at i after the iteration at q."""
                e = here(i, q, lambda a, b: a)
                was = evalat(rng, q, lambda: toR(gh(i)))
                keep, rest = T.ZERO, T.ZERO
                for key, (x, (bv, ats)) in e.terms.items():
                    hit = [a for a, n in ats if n == 1 and R.atom(a).key() == was.key()]
                    t = R({key: (x, (bv, ats))})
                    if len(hit) == 1 and not bv:
                        f = R.num(x)
                        for a, n in ats:
                            if a is not hit[0]:
                                f = f * R.atom(a, n)
                        keep, t = keep + f, f
                    else:
                        rest = rest + t
                    if any(n in t.key() for n in names):
                        raise Unsupported("entry written by a loop: %s" % e.key()[:120])
                return rest + keep * before() if keep.terms else rest

            def at(k):
                def get(i):
                    def upto(qs):
                        if not qs:
                            return toR(g0(i))
                        return ite(band(ile(rng[1], qs[-1]), ilt(qs[-1], k)), lambda: done(i, qs[-1], lambda: upto(qs[:-1])), lambda: upto(qs[:-1]))

                    qs = [i[a].add(lo, -1) for a in axes]
                    if len(qs) == 1:
                        return upto(qs)
                    return ite(ilt(qs[0], qs[1]), lambda: upto(qs), lambda: ite(ilt(qs[1], qs[0]), lambda: upto(qs[::-1]), lambda: upto(qs[:1])))

                return out(get)

            return at
        a, b = toR(g(ix)), toR(gh(ix))
        d = a - b
        if not any(n in d.key() for n in names):
            e = lambda i, j: here(i, j, lambda p, q: p - q)
            if extends(ix, g0, e, rng):
                at = lambda k: out(lambda i: rsum(k, lambda j: e(i, j)))
            else:
                at = lambda k: out(lambda i: toR(g0(i)) + rsum(k, lambda j: e(i, j), rng[1]))
            at.ext = (lambda x, y: x + y), e
            return at
        for op in ("min", "max"):
            e = other(a, b, op)
            if e is not None and not any(n in e.key() for n in names):
                from .arr import ext_over

                ff = rmin if op == "min" else rmax
                e = lambda i, j, op=op: here(i, j, lambda p, q: other(p, q, op))
                if extends(ix, g0, e, rng):
                    at = lambda k: out(lambda i: ext_over(op, k, lambda j: e(i, j)))
                else:
                    lo = rng[1]
                    at = lambda k: out(lambda i: toR(g0(i))) if k.key() == lo.key() else out(
                        lambda i: ff(toR(g0(i)), ext_over(op, k.add(lo, -1), lambda j: e(i, j.add(lo)))))
                at.ext = ff, e
                return at
    raise Fail("update not recognised: %s" % a.key()[:120])


def extends(ix, g0, e, rng):
    """Whether the value before the loop is what an iteration at position 0 gives."""
    from .arr import toR

    if rng[1].const != 1:
        return False
    try:
        return e(ix, I()).key() == toR(g0(ix)).key()
    except (Unsupported, T.Split):
        return False


def other(a, b, op):
    """e when a is op(b, e)."""
    one = core.single(a)
    if one is None or one[0] != 1 or len(one[1]) != 1 or one[1][0][1] != 1:
        return None
    t = one[1][0][0]
    if t.kind != "fn" or t.name != op:
        return None
    x, y = t.args
    if x.key() == b.key():
        return y
    return x if y.key() == b.key() else None


def written(new, h, pos, names):
    """The axes such that the body only writes entries whose index along one of them is the position."""
    from .arr import toR

    if pos is None:
        return None
    n = len(new.shp)
    for axes in [(a,) for a in range(n)] + [(a, b) for a in range(n) for b in range(a + 1, n)]:

        def elsewhere(ix, m):
            return [bnot(ieq(ix[a], pos.subst(m))) for a in axes]

        try:
            if all_entries(lambda x, y, *_: prove_zero(toR(x) - toR(y))[0], new, h, given=elsewhere):
                return axes
        except (Unsupported, T.Split):
            continue
    return None


# ------------------------------------------------------------------ the rule
def places(frames, plan):
    """Where the loop may leave something behind: (place, value, reader, writer)."""
    out = {}
    for fi, f in enumerate(frames):
        for n, v in f.f_locals.items():
            out[fi, n] = v
        s = f.f_locals.get("self")
        if s is not None and hasattr(s, "__dict__"):
            for n, v in vars(s).items():
                out["self", id(s), n] = (s, v)
    return out


def label(p):
    """The place, alike in every run of the task."""
    return (p[0], p[2]) if p[0] == "self" else p


def value(p, x):
    return x[1] if p[0] == "self" else x


def put(frames, p, old, v):
    if p[0] == "self":
        object.__setattr__(old[0], p[2], v)
    else:
        set_locals(frames[p[0]], {p[1]: v})


def stamp(v):
    from .arr import SArr
    from .instr import SymList

    if isinstance(v, SArr):
        return v.buf.ver
    if isinstance(v, SymList):
        return len(v.added)
    if isinstance(v, list):
        return [id(y) for y in v]
    if isinstance(v, dict):
        return {a: id(b) for a, b in v.items()}
    return None


def summarise(frames, it, site):
    from .arr import SArr, SInt, sarr
    from .instr import SymList
    from .run import record

    c = ctx()
    plan = PLAN.setdefault(site, Plan())
    if plan.mode > 1:
        raise Open("loop of %s not closed: %s" % (site[1], plan.why))
    first = I()
    if plan.mode == 1:
        if not c.branch(ilt(I(), it.n)):
            return
        yield it.item(I())
        first = I((), 1)
    m = it.n.add(first, -1)
    if not c.branch(ilt(I(), m)):
        if c.decide(ieq(it.n, first)) is True:
            c.assume(ieq(it.n, first))
        return
    bound = [(fi, n) for fi, f in enumerate(frames) for n in stored(f)]
    before = places(frames, plan)
    u = fresh_uid()
    rng = (u, first, it.n)
    k = I.bv(u)
    with scope(rng):
        item = it.item(k)
    pos = toI(item) if isinstance(item, (int, SInt)) else k

    carried = {}  # place -> (value before, symbol, name)
    given = {}  # closed forms stated by the task, to be carried over like the others
    fixed = {}  # places bound in the body to something else than a number before it
    for p, x in before.items():
        v = value(p, x)
        tr = followed(v, first) if (plan.mode, label(p)) not in plan.alone else None
        if tr is not None or p in bound or (p[0] == "self" and p[2] in plan.attrs) or (isinstance(v, SArr) and label(p) in plan.arrays):
            h = fresh_like(v, "hv~") if tr is None else None
            if tr is not None:
                with scope(rng):
                    carried[p] = v, tr(k), None
                given[p] = tr
            elif h is not None:
                carried[p] = (v,) + h
            elif isinstance(v, SArr):
                failed(plan, "carried array of kind %s" % v.kind)
            elif p in bound:
                fixed[p] = v
    names = [n for _, _, n in carried.values() if n]
    lists = {id(value(p, x)): (p, value(p, x)) for p, x in before.items() if isinstance(value(p, x), (list, SymList))}

    def alias(v):
        return [p for p, x in before.items() if value(p, x) is v]

    def one(state):
        """Run the body at the arbitrary position from the given carried values; what it leaves.

        A condition on the position is taken both ways and the outcomes are joined."""
        todo, outs = [[]], []
        while todo:
            if len(outs) > 8:
                failed(plan, "too many cases in the body")
            fork = Fork(u, todo.pop())
            outs.append((fork, (yield from once(state, fork))))
            todo.extend(fork.alts)
        try:
            return join([(f.trace, o) for f, o in outs])
        except Fail as e:
            failed(plan, str(e))

    def once(state, fork):
        for p, v in state.items():
            put(frames, p, before[p], copy(v))
        for p in bound:
            if p not in before and p in places(frames, plan):
                put(frames, p, None, Unknown(p))
        snap = {p: (value(p, x), stamp(value(p, x))) for p, x in places(frames, plan).items()}
        mark = (len(c.trace), dict(c.names), len(c.obl))
        plan.busy = True
        ended = False
        keep = sub(T.TRUE)
        keep.__enter__()
        ns = len(c.scopes)
        c.scopes.append(rng)
        c.loops.append(fork)
        try:
            yield it.item(k)
            ended = True
        finally:
            if not ended:
                c.ghost["retry"] = True
                plan.why = "the loop is left in its body"
        plan.busy = False
        c.loops.pop()
        if len(c.trace) != mark[0] or named(c.names) != named(mark[1]):
            failed(plan, "a choice is made in the body")
        after = places(frames, plan)
        change, inplace = {}, []
        for p, x in after.items():
            v = value(p, x)
            if isinstance(v, Unknown):
                continue
            if p not in snap:
                if p not in bound:
                    failed(plan, "new attribute %s" % (p,))
                change[p] = v
                continue
            o, st = snap[p]
            if v is not o:
                if p in bound or p in carried:
                    change[p] = v
                elif p[0] == "self" and p[2] not in plan.attrs:
                    plan.attrs.add(p[2])
                    plan.mode -= 1
                    failed(plan, "attribute %s" % p[2])
                elif isinstance(v, SArr) and isinstance(o, SArr) and p[0] != "self":
                    plan.arrays.add(label(p))  # written in a loop inside
                    plan.mode -= 1
                    failed(plan, "array %s" % (p,))
                elif not (isinstance(v, (int, float, str, bool)) and v == o):
                    failed(plan, "place %s" % (p,))
            elif stamp(v) != st:
                if isinstance(v, SArr):
                    inplace.append(p)
                    if p in carried:
                        change[p] = v
                    elif not any(q in carried for q in alias(v)):
                        plan.arrays.add(label(p))
                        plan.mode -= 1
                        failed(plan, "array %s" % (p,))
                elif isinstance(v, list):
                    if [id(y) for y in v[: len(st)]] != st or len(v) != len(st) + 1:
                        failed(plan, "list %s" % (p,))
                elif isinstance(v, SymList):
                    if len(v.added) != st + 1:
                        failed(plan, "list %s" % (p,))
                else:
                    failed(plan, "place %s" % (p,))
        if fork.trace:
            for p in carried:
                change.setdefault(p, value(p, after[p]))
        for p in inplace:
            for q in alias(value(p, before[p])):
                if q != p and not (q in change and value(q, after[q]) is not snap[q][0]):
                    failed(plan, "array %s has another name" % (p,))
        grown = {}
        for i, (p, l) in lists.items():
            cur = value(p, after[p]) if p in after else None
            if cur is l and stamp(l) != snap[p][1]:
                if isinstance(l, SymList):
                    grown[i] = l.added.pop()
                else:
                    grown[i] = l.pop()
        c.scopes[ns:] = []
        keep.__exit__()
        if c.ghost.get("tentative"):
            del c.obl[mark[2] :]
        return change, grown

    c.ghost["tentative"] = c.ghost.get("tentative", 0) + 1  # what the body is to fulfil is asked in the second run
    change, grown = yield from one({p: h for p, (v, h, _) in carried.items()})
    c.ghost["tentative"] -= 1
    with scope(rng):
        for v in list(change.values()) + list(grown.values()):
            if not clean(v, rng):
                failed(plan, "a name depends on the position")
        forms = {}
        last = {}
        try:
            for p, v in change.items():
                if isinstance(v, Unknown):
                    if p in carried or p in fixed:
                        raise Fail("%s is bound in some cases only" % (p,))
                    last[p] = v
                elif p in fixed:
                    o = fixed[p]
                    if isinstance(o, Unknown):
                        last[p] = v
                    elif o is None or isinstance(o, bool):
                        if v is not o:
                            raise Fail("%s changes" % (p,))
                    elif type(v) is not type(o) or isinstance(v, list):
                        raise Fail("%s changes" % (p,))
                    else:
                        last[p] = v
                elif p in carried and not isinstance(v, (SArr, SInt, int, float)):
                    raise Fail("%s is no number" % (p,))
                elif p in given:
                    forms[p] = given[p]
                elif p in carried:
                    f = recognise(carried[p][0], carried[p][1], carried[p][2], v, names, rng, pos)
                    if f is None:
                        last[p] = v
                    else:
                        forms[p] = f
                else:
                    last[p] = v
        except Fail as e:
            failed(plan, str(e))
    for p, (v, h, _) in carried.items():
        if p not in change:
            forms[p] = lambda kk, v=v: v

    def state(kk):
        return {p: forms[p](kk) for p in forms}

    with scope(rng):
        start = state(I.bv(u))
    # a value that is only a temporary of the body must not be read before it is bound again
    start.update({p: Unknown(p) for p in last if p in before})
    change2, grown2 = yield from one(start)
    with scope(rng):
        for p, f in forms.items():
            got = change2[p] if p in change2 else start[p]
            if hasattr(f, "ext"):
                ff, e = f.ext
                s = sarr(start[p])
                g = s.reader()
                from .arr import toR

                want = SArr(s.shp, lambda ix: ff(toR(g(ix)), e(ix, I.bv(u))), "f")
            else:
                want = f(I.bv(u).add(I((), 1)))
            if p in change and not carries(got, want):
                if p in given:
                    plan.alone.add((plan.mode, label(p)))
                    plan.mode -= 1
                failed(plan, "closed form of %s does not carry over" % (p,))
            if p in change:
                record("loop-summary-step", True)
        if set(change2) != set(change) or set(grown2) != set(grown):
            failed(plan, "places differ")
        for p in last:
            if isinstance(change2[p], Unknown) and not isinstance(last[p], Unknown):
                failed(plan, "%s is not bound in every iteration" % (p,))
    end = state(it.n)
    for p in forms:
        put(frames, p, before[p], end[p])
    for p in last:
        try:
            v = last[p] if isinstance(last[p], Unknown) else moved(change2[p], rng, it.n.add(I((), -1)))
        except Unsupported:
            v = Unknown(p)
        put(frames, p, before.get(p), v)
    for i, e in grown2.items():
        l = lists[i][1]
        old = SymList(l.n, l.f) if isinstance(l, SymList) else list(l)
        new = joined(old, SymList.of(m, lambda j, e=e: moved(e, rng, toI(j).add(first))))
        if isinstance(l, SymList):
            l.n, l.f = new.n, new.f
        else:
            for p in alias(l):
                put(frames, p, before[p], new)


def copy(v):
    from .arr import SArr

    if not isinstance(v, SArr):
        return v
    y = SArr(v.shp, v.reader(), v.kind)
    y.meta = v.meta
    return y


def named(names):
    return {a: b for a, b in names.items() if not a.startswith(("ix~", "i~", "j~", "hv~"))}


class Fork:
    """The way one run of a body takes at conditions on the position."""

    def __init__(self, uid, script):
        self.uid, self.script, self.trace, self.alts = uid, script, [], []

    def take(self, b):
        i = len(self.trace)
        if i < len(self.script):
            v = self.script[i]
        else:
            v = True
            self.alts.append([w for _, w in self.trace] + [False])
        self.trace.append((b, v))
        ctx().assume(b if v else bnot(b))
        return v


def join(outs):
    """One outcome of a body from those of its cases [(conditions taken, (change, grown))]."""
    if len(outs) == 1:
        return outs[0][1]
    b = outs[0][0][0][0]
    if any(t[0][0].key() != b.key() for t, _ in outs):
        raise Fail("conditions differ")
    sides = [join([(t[1:], o) for t, o in outs if t[0][1] is v]) for v in (True, False)]
    (x, gx), (y, gy) = sides
    if set(gx) != set(gy):
        raise Fail("only some cases append to a list")
    # a name bound in some of the cases only is not to be read after them
    change = {p: either(b, x[p], y[p]) if p in x and p in y else Unknown(p) for p in set(x) | set(y)}
    return change, {p: either(b, gx[p], gy[p]) for p in gx}


def either(b, x, y):
    from .arr import SArr, SInt, sarr, toR
    from .core import rite

    if isinstance(x, Unknown) or isinstance(y, Unknown):
        return x if isinstance(x, Unknown) else y

    if x is y or isinstance(x, (bool, str, type(None))) and x == y and type(x) is type(y):
        return x
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(either(b, p, q) for p, q in zip(x, y))
    if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)) and toI(x).key() == toI(y).key():
        return x
    num = (SArr, float)
    if isinstance(x, num) and isinstance(y, num):
        p, q = sarr(x), sarr(y)
        if len(p.shp) == len(q.shp) and all(ctx().decide(ieq(s, t)) is True for s, t in zip(p.shp, q.shp)):
            g, h = p.reader(), q.reader()

            def get(ix):
                with sub(b) as ok1:
                    v = toR(g(ix)) if ok1 else None
                with sub(bnot(b)) as ok2:
                    w = toR(h(ix)) if ok2 else None
                return v if w is None else w if v is None else rite(b, v, w)

            z = SArr(p.shp, get, "f")
            z.meta = p.meta or q.meta
            return z
    raise Fail("cases leave different values")


def all_entries(f, *arrays, given=lambda ix, m: []):
    """Whether f(entries, index, positions of the loops in force) holds at every index, in every case."""
    shp = arrays[0].shp
    ix = tuple(I.var("ix~%d" % d) for d in range(len(shp)))
    with free(*arrays) as (ok, arrays, m):
        shp = [s.subst(m) for s in shp]

        def at():
            with sub(band(*([b for i, s in zip(ix, shp) for b in (ile(I(), i), ilt(i, s))] + given(ix, m)))) as ok:
                return not ok or f(*([a.elem(ix) for a in arrays] + [ix, m]))

        return not ok or cases(at)


def clean(v, rng):
    """Whether the value depends on the position only through terms (not through a name made from them)."""
    import re

    bad = "\\bb%d\\b" % rng[0]

    def seen(t):
        return re.search(bad, t.subst({("b", rng[0]): I.var("chk~")}).key()) is not None

    from .arr import SArr, SBool, SInt

    if isinstance(v, SArr):
        return not any(seen(s) for s in v.shp) and all_entries(lambda e, *_: not seen(e), v)
    if isinstance(v, SInt):
        return not seen(toI(v))
    if isinstance(v, SBool):
        return not seen(v.b)
    if isinstance(v, (tuple, list)):
        return all(clean(y, rng) for y in v)
    if isinstance(v, dict):
        return all(clean(y, rng) for y in v.values())
    return True


class Unknown:
    """Value left by a loop that the analysis does not follow."""

    def __init__(self, p):
        self.__dict__["p"] = p

    def __getattr__(self, n):
        raise Unsupported("value left by a loop in %s" % (self.p,))


def carries(got, want):
    try:
        return same(got, want)
    except (Unsupported, T.Split):
        return False


def same(a, b):
    from .arr import SInt, sarr
    from .run import holds_eq

    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
        return ctx().decide(ieq(toI(a), toI(b))) is True
    with free(sarr(a), sarr(b)) as (ok, (a, b), _):
        return not ok or cases(lambda: holds_eq(a, b))


@contextlib.contextmanager
def free(*arrays):
    """The arrays with the positions of the loops in force turned into ordinary variables, on which cases can be made."""
    c = ctx()
    old = c.scopes, c.loops
    conds, m = [], {}
    arrays = list(arrays)
    for i, r in reversed(list(enumerate(c.scopes))):
        v = I.var("at~%d" % i)
        arrays = [moved(a, r, v) for a in arrays]
        m["b", r[0]] = v
    for r in c.scopes:
        v = m["b", r[0]]
        conds += [ile(r[1].subst(m), v), ilt(v, r[2].subst(m))]
    c.scopes, c.loops = [], []
    try:
        with sub(band(*conds)) as ok:
            yield ok, arrays, m
    finally:
        c.scopes, c.loops = old


def cases(f):
    """Whether f() holds whichever way its choices go; they are all made here."""
    c = ctx()
    old = c.script, c.trace, c.alts, dict(c.names)
    todo, n, ok = [[]], 0, True
    try:
        while todo and ok:
            n += 1
            if n > 64:
                return False
            c.script, c.trace, c.alts = todo.pop(), [], []
            with sub(T.TRUE):
                try:
                    ok = f()
                except core.PathEnd:
                    pass
            todo.extend(c.alts)
        return ok
    finally:
        c.script, c.trace, c.alts = old[:3]
        c.names.clear()
        c.names.update(old[3])


def joined(a, b):
    """The concatenation of a list or symbolic list and a symbolic list."""
    from .instr import SymList

    if isinstance(a, (list, tuple)):
        p = len(a)
        if not p:
            return b

        def f(i):
            i = toI(i)
            for j in range(p):
                if ctx().branch(ieq(i, I((), j))) if i.const is None else i.const == j:
                    return a[j]
            return b.f(i.add(I((), -p)))

        return SymList.of(b.n.add(I((), p)), f)

    def f(i):
        i = toI(i)
        return a.f(i) if ctx().branch(ilt(i, a.n)) else b.f(i.add(a.n, -1))

    return SymList.of(a.n.add(b.n), f)


def probe(l):
    """Evaluate an arbitrary element once: its evaluation must not fail."""
    u = fresh_uid()
    c = ctx()
    with sub(ilt(I(), l.n)) as ok:
        if ok:
            with scope((u, I(), l.n)):
                l.f(I.bv(u))


def total(l):
    """Sum of the elements of a symbolic list."""
    from .arr import SArr, SInt, sarr, toR, unI

    u = fresh_uid()
    with scope((u, I(), l.n)):
        e = l.f(I.bv(u))
    if isinstance(e, (int, SInt)) and not isinstance(e, bool):
        return unI(isum(l.n, lambda k: toI(e).subst({("b", u): k})))
    e = sarr(e)
    if any(u in s.bvs() for s in e.shp):
        raise Unsupported("sum of arrays of different sizes")
    y = SArr(e.shp, lambda ix: rsum(l.n, lambda k: toR(sarr(l.f(k)).elem(ix))), "f")
    y.meta = e.meta
    return y


def again(c):
    """Whether the path ended inside the body of a loop being closed; the loop's plan is then changed."""
    busy = [p for p in PLAN.values() if p.busy]
    for p in busy:
        p.busy = False
        p.mode += 1
    return bool(busy or c.ghost.get("retry"))
