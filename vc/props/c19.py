"""Parameter search: best visited point, recorded history, box (C19)."""
from .. import gp, run
from ..arr import sarr, sreal, toR, unI
from ..core import ctx
from ..loops import Open
from ..terms import I, R, band, bor, ieq, ile, ilt, req0, rle0, toI

FUNCTIONS = ["kernel.parameter_selection.autoselect_parameters"]
KINDS = ("value", "inf", "nan", "failure")
METHODS = ("SLSQP", "L-BFGS-B")


class Result(dict):
    """scipy.optimize.OptimizeResult: a dictionary with attribute access."""

    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def failure():
    import gpmp.num as gnp

    if gnp._gpmp_backend_ == "torch":
        from ..la import TorchLinAlgError

        return TorchLinAlgError("linalg.cholesky: the input is not positive-definite")
    from ..la import LinAlgError

    return LinAlgError("Matrix is not positive definite")


def same(a, b):
    return a is b or run.holds_eq(sarr(a), sarr(b))


def visits(kinds, final, method):
    def task():
        ctx().ghost["bounded"] = "at most three visited points"
        import gpmp.kernel.parameter_selection as S

        d = run.integer("d", 1)
        p0 = gp.mk("p0", (d,))
        pts = [gp.mk("p%d" % (i + 1), (d,)) for i in range(len(kinds))]
        vals = [run.real("J%d" % i) if k == "value" else float("nan" if k == "nan" else "inf") for i, k in enumerate(kinds)]
        count = []

        def crit(p):
            i = len(count)
            count.append(p)
            if kinds[i] == "failure":
                raise failure()
            return vals[i]

        def grad(p):
            raise AssertionError

        seen = {}

        def minimize(fun, x0, method=None, jac=None, bounds=None, options=None, **k):
            buf, got = pts[0].copy(), []
            for p in pts:  # optimisers may reuse the array they evaluate at
                buf[:] = p
                got.append(fun(buf))
            buf[:] = p0
            seen.update(method=method, jac=jac, x0=x0, got=got, extra=k)
            return Result(x=pts[final], fun=got[final], success=True)

        ctx().ghost["minimize"] = minimize
        x, r = S.autoselect_parameters(p0, crit, grad, bounds_auto=False, info=True, method=method)
        run.true("optimiser-called", seen.get("method") == method and seen["jac"] is grad and not seen["extra"])
        run.eq("start", seen["x0"], p0)
        for i, k in enumerate(kinds):
            v = seen["got"][i]
            run.true("value-passed-on", v is vals[i] or (v != v if k == "nan" else _is(v, vals[i])))
        h = list(zip(r.history_params, r.history_criterion))
        run.true("history-length", len(r.history_params) == len(r.history_criterion) == len(kinds))
        for i, (p, v) in enumerate(h):
            run.eq("history-point", p, pts[i])
            run.true("history-value", v is vals[i] or (v != v if kinds[i] == "nan" else _is(v, vals[i])))
        fin = [i for i, k in enumerate(kinds) if k == "value"]
        if fin:
            f = toR(r.fun)
            for i in fin:
                run.true("no-visited-value-smaller", rle0(f - toR(vals[i])))
            run.true("value-at-the-returned-point", bor(*[req0(f - toR(vals[i])) for i in fin if same(x, pts[i])]))
        else:
            run.true("returned-point-visited", any(same(x, p) for p in pts))
        run.eq("result-point", r.x, x)
        run.eq("final-point", r.final_params, x)
        run.eq("initial-point", r.initial_params, p0)
        run.true("flag", bool(r.best_value_returned) == same(x, pts[final]))
        run.true("criterion-kept", r.selection_criterion is crit)

    task.__name__ = "visits_%s_%d_%s" % ("".join(k[0] for k in kinds), final, method[0])
    return task


def _is(a, b):
    return req0(toR(a) - toR(b)) if b != float("inf") else a == b


def other_failures():
    """An error that is no linear-algebra failure reaches the caller."""
    import gpmp.kernel.parameter_selection as S

    class Odd(Exception):
        pass

    def crit(p):
        raise Odd("file not found")

    ctx().ghost["minimize"] = lambda fun, x0, **k: Result(x=x0, fun=fun(x0))
    try:
        S.autoselect_parameters(gp.mk("p0", (2,)), crit, None)
        ok = False
    except Odd:
        ok = True
    run.true("raised", ok)


def box(d):
    def task():
        ctx().ghost["bounded"] = "one to three parameters in the box"
        import gpmp.kernel.parameter_selection as S

        p0, delta = gp.mk("p0", (d,)), run.real("delta", 0)
        seen = {}

        def minimize(fun, x0, bounds=None, **k):
            seen.update(x0=x0, bounds=bounds)
            return Result(x=x0, fun=fun(x0))

        ctx().ghost["minimize"] = minimize
        user = [(run.real("a%d" % i), run.real("b%d" % i)) for i in range(d)]
        for auto in (True, False):
            _, r = S.autoselect_parameters(p0, lambda p: 0.0, None, bounds=user, bounds_auto=auto, bounds_delta=delta, info=True)
            b = list(seen["bounds"])
            run.true("user-box", len(b) == d)
            for i in range(d):
                for k in (0, 1):
                    run.eq("user-box", sreal(toR(b[i][k])), sreal(toR(user[i][k])))
            run.eq("start", seen["x0"], p0)
        _, r = S.autoselect_parameters(p0, lambda p: 0.0, None, bounds_auto=False, bounds_delta=delta, info=True)
        run.true("no-box", seen["bounds"] is None)
        _, r = S.autoselect_parameters(p0, lambda p: 0.0, None, bounds_delta=delta, info=True)
        b = list(seen["bounds"])
        run.true("tube-length", len(b) == d)
        lim = R.num(500)
        for i in range(d):
            p, dl = toR(p0.elem((I((), i),))), toR(delta)
            lo, hi = toR(b[i][0]), toR(b[i][1])
            run.true("tube-lower", band(rle0(p - dl - lo), rle0(lim.neg() - lo), bor(req0(lo - p + dl), req0(lo + lim))))
            run.true("tube-upper", band(rle0(hi - p - dl), rle0(hi - lim), bor(req0(hi - p - dl), req0(hi - lim))))
        run.true("recorded-box", r.bounds is seen["bounds"] or len(r.bounds) == d)

    task.__name__ = "box_%d" % d
    task.max_paths = 600
    return task


def box_any():
    """The tube around the starting point, any number of parameters."""
    import gpmp.kernel.parameter_selection as S
    from ..instr import SymList

    ctx().ghost["summarise"] = True
    d = run.integer("d", 1)
    p0, delta = gp.mk("p0", (d,)), run.real("delta", 0)
    seen = {}

    def minimize(fun, x0, bounds=None, **k):
        seen.update(x0=x0, bounds=bounds)
        return Result(x=x0, fun=fun(x0))

    ctx().ghost["minimize"] = minimize
    S.autoselect_parameters(p0, lambda p: 0.0, None, bounds_delta=delta, info=True)
    b = seen["bounds"]
    if not isinstance(b, SymList):
        raise Open("the box is no list with one pair per parameter")
    run.true("tube-length", ieq(toI(b.n), toI(d)))
    i = run.integer("i", 0)
    ctx().assume(ilt(toI(i), toI(d)))
    lim, p, dl = R.num(500), R.arr("p0", toI(i)), toR(delta)
    lo, hi = (toR(v) for v in b.f(toI(i)))
    run.true("tube-lower", band(rle0(p - dl - lo), rle0(lim.neg() - lo), bor(req0(lo - p + dl), req0(lo + lim))))
    run.true("tube-upper", band(rle0(hi - p - dl), rle0(hi - lim), bor(req0(hi - p - dl), req0(hi - lim))))


box_any.closing = True


def cells(f, seen=None):
    """The variables a function shares with the function it is defined in."""
    seen = {} if seen is None else seen
    for c in f.__closure__ or ():
        if id(c) not in seen:
            seen[id(c)] = c
            try:
                v = c.cell_contents
            except ValueError:
                continue
            if hasattr(v, "__closure__"):
                cells(v, seen)
    return list(seen.values())


def later(kind, found, final, method):
    """After any number of visits, of which the best finite one is (B, b): one more visit, then the end of the search."""
    def task():
        import gpmp.kernel.parameter_selection as S
        from ..instr import SymList

        d = run.integer("d", 1)
        n = run.integer("n", 1)
        p0, p1, p2, B = (gp.mk(q, (d,)) for q in ("p0", "p1", "p2", "B"))
        H, h = gp.mk("H", (n, d)), gp.mk("h", (n,))
        first, J, b = run.real("J1"), run.real("J2"), run.real("b")
        new = J if kind == "value" else float("nan" if kind == "nan" else "inf")
        calls, seen = [], {}

        def crit(p):
            calls.append(p)
            if len(calls) == 1:
                return first if found else float("inf")
            if kind == "failure":
                raise failure()
            return new

        def minimize(fun, x0, **k):
            before = [(c, c.cell_contents) for c in cells(fun) if c.cell_contents is None or isinstance(c.cell_contents, float)]
            fun(p1)
            if found:  # the best visit so far is any one: replace it by an arbitrary point and value
                hit = [c for c, v in before if c.cell_contents is not v]
                vals = [c for c in hit if len(sarr(c.cell_contents).shp) == 0]
                pts = [c for c in hit if len(sarr(c.cell_contents).shp) == 1]
                if len(vals) != 1 or len(pts) != 1 or not same(vals[0].cell_contents, first) or not same(pts[0].cell_contents, p1):
                    raise Open("the best visit is not kept as a point and a value")
                vals[0].cell_contents, pts[0].cell_contents = b, B
            lists = [c for c in cells(fun) if isinstance(c.cell_contents, list) and c.cell_contents is not calls]
            pts = [c for c in lists if len(c.cell_contents) == 1 and len(sarr(c.cell_contents[0]).shp) == 1]
            vals = [c for c in lists if len(c.cell_contents) == 1 and len(sarr(c.cell_contents[0]).shp) == 0]
            if len(lists) != 2 or len(pts) != 1 or len(vals) != 1:
                raise Open("the visits are not kept as a list of points and a list of values")
            pts[0].cell_contents = SymList(toI(n), lambda k: H[unI(k)])
            vals[0].cell_contents = SymList(toI(n), lambda k: h[unI(k)] if found else float("inf"))
            buf = p2.copy()
            got = fun(buf)
            buf[:] = p0
            seen["got"] = got
            return Result(x=p2, fun=got) if final == "new" else Result(x=B, fun=b) if final == "best" else Result(x=gp.mk("E", (d,)), fun=run.real("e"))

        ctx().ghost["minimize"] = minimize
        if final == "earlier":  # an earlier visit, no better than the best one
            ctx().assume(rle0(R.arr("b") - R.arr("e")))
        x, r = S.autoselect_parameters(p0, crit, None, bounds_auto=False, info=True, method=method)
        P, V = r.history_params, r.history_criterion
        for l in (P, V):
            if not isinstance(l, SymList):
                raise Open("the history is no list")
            run.true("one-more-entry", ieq(l.n, toI(n + 1)))
        i = run.integer("i", 0)
        ctx().assume(ilt(toI(i), toI(n)))
        run.eq("history-kept", P[i], H[i])
        run.true("history-values-kept", _is(V[i], h[i] if found else float("inf")))
        run.eq("history-point", P[n], p2)
        v = V[n]
        run.true("history-value", v != v if kind == "nan" else _is(v, new))
        visited = ([(B, b)] if found else []) + ([(p2, J)] if kind == "value" else [])
        if visited:
            f = toR(r.fun)
            for _, w in visited:
                run.true("no-visited-value-smaller", rle0(f - toR(w)))
            known = visited + ([(gp.mk("E", (d,)), sreal(R.arr("e")))] if final == "earlier" else [])
            run.true("value-at-the-returned-point", bor(*[req0(f - toR(w)) for p, w in known if same(x, p)]))

    task.__name__ = "later_%s_%s_%s_%s" % (kind, "found" if found else "none", final, method[0])
    task.closing = True
    return task


def method_checked():
    import gpmp.kernel.parameter_selection as S

    ctx().ghost["minimize"] = lambda fun, x0, **k: Result(x=x0, fun=fun(x0))
    for m in METHODS:
        S.autoselect_parameters(gp.mk("p0", (2,)), lambda p: 0.0, None, method=m)
    try:
        S.autoselect_parameters(gp.mk("p0", (2,)), lambda p: 0.0, None, method="Powell")
        ok = False
    except ValueError:
        ok = True
    run.true("refused", ok)


def _sequences():
    import itertools

    for n in (1, 2, 3):
        for ks in itertools.product(KINDS, repeat=n):
            if n == 3 and len(set(ks)) < 2 and ks[0] != "value":
                continue
            for f in range(n):
                yield ks, f


TASKS = [visits(k, f, METHODS[(i + f) % 2]) for i, (k, f) in enumerate(_sequences())] + [other_failures, box(1), box(2), box(3), box_any, method_checked] + [
    later(k, g, f, METHODS[0]) for k in KINDS for g in (True, False) for f in (("new", "best", "earlier") if g else ("new",))]
