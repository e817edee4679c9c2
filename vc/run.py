"""Path exploration and obligations."""
import os
import signal
import time
import traceback

from . import core, instr
from . import terms as T
from .arr import SArr, SBool, SInt, sarr, toB, toR, unI, wrapB
from .core import Ctx, _C, ctx, prove_zero, sub
from .terms import B, FALSE, I, PathEnd, R, TRUE, Unsupported, band, ieq, ile, ilt, toI


class Fail(Exception):
    """An obligation failed; the path stops."""


class Result:
    def __init__(self, name, backend):
        self.name, self.backend = name, backend
        self.obls = []  # (obligation, ok, detail)
        self.paths = 0
        self.infeasible = 0
        self.assumptions = set()
        self.divs = set()
        self.bounded = set()
        self.wall = 0.0
        self.z3 = 0
        self.z3_s = 0.0
        self.functions = set()
        self.reached = {}
        self.missing = None  # why the task judges nothing: its private helper is gone, or a loop is not closed

    def as_dict(self):
        return {
            "task": self.name, "backend": self.backend, "paths": self.paths, "infeasible": self.infeasible,
            "obligations": [(o, ok, d) for o, ok, d in self.obls], "assumptions": sorted(self.assumptions),
            "divs": sorted(self.divs)[:20], "bounded": sorted(self.bounded), "wall": self.wall, "z3": self.z3,
            "z3_s": self.z3_s, "functions": sorted(self.functions), "missing": self.missing,
        }


def record(name, ok, detail=""):
    c = ctx()
    if c.ghost.get("tentative"):
        return
    c.obl.append((name, bool(ok), str(detail)[:2000]))
    if not ok:
        raise Fail(name)


_ix = [0]


def _fresh_ix(shp):
    c = ctx()
    return tuple(I.var(c.fresh("%c" % "ijklmn"[d % 6] + "~")) for d in range(len(shp)))


def same_shape(name, got, shape):
    got = sarr(got)
    if len(got.shp) != len(shape):
        record(name + ":shape", False, "rank %d instead of %d" % (len(got.shp), len(shape)))
    for s, t in zip(got.shp, shape):
        ok = ctx().decide(ieq(s, toI(t))) is True
        if not ok:
            record(name + ":shape", False, "shape %s instead of %s" % (got.shape, tuple(map(str, shape))))
    record(name + ":shape", True)


def forall_ix(shp, f):
    """Run f(ix) for generic indices in range (nothing to prove on an empty array)."""
    ix = _fresh_ix(shp)
    cond = band(*[b for i, s in zip(ix, shp) for b in (ile(I(), i), ilt(i, toI(s)))])
    with sub(cond) as ok:
        if ok:
            f(ix)


def eq(name, got, want, shape=True):
    """got == want elementwise, with equal shapes."""
    got, want = sarr(got), sarr(want)
    if shape:
        same_shape(name, got, want.shp)

    def body(ix):
        a, b = got.elem(ix), want.elem(ix)
        if isinstance(a, B) or isinstance(b, B):
            a, b = toB(a) if not isinstance(a, B) else a, toB(b) if not isinstance(b, B) else b
            ok = ctx().decide(T.beq(a, b)) is True
            record(name, ok, "%s <> %s" % (a, b))
            return
        d = toR(a) - toR(b)
        ok, rest = prove_zero(d)
        record(name, ok, "" if ok else "residual %s | path %s" % (T.show(rest)[:1200], ctx().notes))

    forall_ix(got.shp, body)


def holds_eq(got, want):
    """got == want elementwise and in shape, without recording an obligation."""
    if len(got.shp) != len(want.shp) or any(ctx().decide(ieq(s, t)) is not True for s, t in zip(got.shp, want.shp)):
        return False
    ok = [True]

    def body(ix):
        a, b = got.elem(ix), want.elem(ix)
        if isinstance(a, B) or isinstance(b, B):
            ok[0] = False
            return
        ok[0] = prove_zero(toR(a) - toR(b))[0]

    forall_ix(got.shp, body)
    return ok[0]


def true(name, b, detail=""):
    if isinstance(b, SArr):
        def body(ix):
            e = b.elem(ix)
            record(name, ctx().decide(e) is True, detail or repr(e)[:500])
        forall_ix(b.shp, body)
        return
    if isinstance(b, SBool):
        b = b.b
    if isinstance(b, B):
        record(name, ctx().decide(b) is True, detail or repr(b)[:800])
    else:
        record(name, bool(b), detail)


def intfact(name, f):
    """Facts holding for every value of the integer function `name`."""
    core.INTHOOKS[name] = lambda args: [b for a in args for b in f(*a)]


def integer(name, lo=None, hi=None):
    """A fresh symbolic integer with lo <= v (<= hi)."""
    v = I.var(name)
    c = ctx()
    if lo is not None:
        c.assume(ile(I((), lo), v))
    if hi is not None:
        c.assume(ile(v, toI(hi)))
    return SInt(v)


def instances(j):
    """Specialise the universal facts of the path at index j."""
    c = ctx()
    for b in list(c.pc):
        if b.op == "p" and b.args[0] == "forall":
            q = b.args[1][0]
            if c.decide(band(ile(I(), j), ilt(j, q.hi))) is True:
                c.assume(q.body.subst({("b", q.uid): j}))


def real(name, lo=None, hi=None):
    """A fresh symbolic Python float with lo < v < hi."""
    r = R.arr(name)
    if lo is not None:
        ctx().assume(T.rlt0(R.num(lo) - r))
    if hi is not None:
        ctx().assume(T.rlt0(r - R.num(hi)))
    x = SArr((), lambda ix: r, "f")
    x.meta = {"py": 1}
    return x


class Late(BaseException):
    """Raised in a path that takes too long; not caught by the code under analysis."""


def _late(*a):
    raise Late()


PATH_LIMIT = 150
CLOSING_LIMIT = 110  # for a task whose loops are closed; after that it is given up, the bounded tasks remain
signal.signal(signal.SIGALRM, _late)


def explore(name, fn, backend="numpy", max_paths=400, setup=None, budget=600.0):
    res = Result(name, backend)
    t0 = time.time()
    work = [[]]
    z0, zs0 = core.STATS["z3"], core.STATS["z3_s"]
    core._C.c = Ctx()
    core._C.c.ghost["backend"] = backend
    try:
        instr.load(backend)
    except Exception as e:
        res.obls.append(("load", False, "%s: %s" % (type(e).__name__, e)))
        return res
    instr.loops.PLAN.clear()
    core.DECIDED.clear()
    restarts = 0
    closing = getattr(fn, "closing", False)
    while work:
        script = work.pop()
        if res.paths + res.infeasible > max_paths or time.time() - t0 > budget:
            why = "path or time budget exceeded (%d paths, %.0f s)" % (res.paths, time.time() - t0)
            if closing:
                res = Result(name, backend)
                res.missing = why
            else:
                res.obls.append(("exploration", False, why))
            break
        c = Ctx(script)
        core._C.c = c
        c.ghost["backend"] = backend
        reset_state()
        core.COUNTS.clear()
        core.ENUMS.clear()
        try:
            signal.alarm(PATH_LIMIT if not closing else max(1, int(CLOSING_LIMIT - time.time() + t0)))
            fn()
            end = True
        except Late:
            end = False
            if closing:
                res = Result(name, backend)
                res.missing = "not finished after %d s" % CLOSING_LIMIT
                break
            work = []
            c.alts.clear()
            c.obl.append(("in-reach", False, "a path was not finished after %d s" % PATH_LIMIT))
        except T.LoopDone:
            end = True
        except instr.loops.Retry:
            end = None
        except instr.loops.Open as e:
            signal.alarm(0)
            res = Result(name, backend)
            res.missing = str(e)
            break
        except PathEnd:
            end = None
        except Fail:
            end = False
        except Unsupported as e:
            end = False
            if closing:  # (the bounded tasks of the property judge the code as it is)
                signal.alarm(0)
                res = Result(name, backend)
                res.missing = "outside the supported fragment: %s" % e
                break
            c.obl.append(("in-reach", False, "outside the supported fragment: %s | %s" % (e, where())))
        except (T.Split, RecursionError) as e:
            end = False
            if closing:
                signal.alarm(0)
                res = Result(name, backend)
                res.missing = "unresolved: %s" % type(e).__name__
                break
            c.obl.append(("in-reach", False, "unresolved index split %s" % (e,)))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            end = False
            res.missing = helper_gone(e)
            if res.missing:
                work, res.obls = [], []
                break
            c.obl.append(("no-exception", False, "%s: %s | %s" % (type(e).__name__, e, where())))
        finally:
            signal.alarm(0)
        if instr.loops.again(c) and restarts < 40:
            # a loop has to be treated in another way: all over again
            restarts += 1
            work = [[]]
            res = Result(name, backend)
            continue
        work.extend(c.alts)
        feas = end is not None and c.feasible()
        if not feas:
            res.infeasible += 1
            if c.ghost.get("bounded"):
                res.bounded.add(c.ghost["bounded"])
            continue
        res.paths += 1
        for o in c.obl:
            if o[1] is False:
                o = (o[0], o[1], o[2] + " | model %s" % (c.model(),))
            res.obls.append(o)
        res.assumptions |= c.assumptions
        res.divs |= set(map(str, c.divs))
        if c.ghost.get("bounded"):
            res.bounded.add(c.ghost["bounded"])
    res.wall = time.time() - t0
    res.z3 = core.STATS["z3"] - z0
    res.z3_s = core.STATS["z3_s"] - zs0
    if not res.missing and not any(o[1] for o in res.obls) and not any(o[1] is False for o in res.obls):
        res.obls.append(("reachable", False, "no feasible path reached an obligation"))
    return res


def helper_gone(e):
    """The private helper a task names, when the code no longer has it under that name or signature.

    What such a helper computes is then judged through its callers only."""
    last = traceback.extract_tb(e.__traceback__)[-1].filename
    if os.sep + "props" + os.sep not in last:
        return None
    if isinstance(e, (AttributeError, ImportError)):
        n = str(getattr(e, "name_from", None) or e.name)
    elif isinstance(e, TypeError) and "argument" in str(e) and "()" in str(e):
        n = str(e).split("()")[0].split(".")[-1]
    else:
        return None
    return n if n.startswith("_") and not n.startswith("__") else None


def where():
    """Innermost /repo frame of the current traceback."""
    import sys

    out = []
    tb = sys.exc_info()[2]
    for f in traceback.extract_tb(tb):
        if "/gpmp/" in f.filename:
            out.append("%s:%d %s" % (f.filename.split("/gpmp/")[-1], f.lineno, f.name))
    return " < ".join(reversed(out[-4:])) or "".join(traceback.format_tb(tb)[-3:])


def reset_state():
    """Module-level state of the code under verification back to its initial value."""
    import sys

    m = sys.modules.get("gpmp.config")
    if m is not None:
        m.get_config().caches.clear()
