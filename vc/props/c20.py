"""Selection criteria on arrays and on loaders, failures, mean and covariance parameters (C20)."""
import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, rsum
from ..gp import fn
from ..loops import isum
from ..terms import Fraction, I, R, ZERO, ile, ilt, toI
from .c19 import Result, failure

INF = float("inf")
FUNCTIONS = [f + m for f in ("num.numpy_backend.DifferentiableSelectionCriterion.", "num.torch_backend.DifferentiableSelectionCriterion.")
             for m in ("evaluate", "evaluate_no_grad", "evaluate_pre_grad")] + ["num.torch_backend.DifferentiableSelectionCriterion.gradient"] + [
    f + m for f in ("num.numpy_backend.BatchDifferentiableSelectionCriterion.", "num.torch_backend.BatchDifferentiableSelectionCriterion.")
    for m in ("evaluate", "evaluate_no_grad", "evaluate_pre_grad", "_batches")] + ["num.torch_backend.BatchDifferentiableSelectionCriterion.gradient"] + [
    "kernel.parameter_selection." + f for f in ("make_selection_criterion_with_gradient", "select_parameters_with_criterion", "update_parameters_with_criterion")] + [
    "kernel.utils.check_xi_zi_or_loader"]


def torch():
    import gpmp.num as gnp

    return gnp._gpmp_backend_ == "torch"


def point(nm="p"):
    d = run.integer("d", 1)
    return d, gp.mk(nm, (d,))


def value(nm):
    """An abstract criterion value with an abstract gradient."""
    ctx().ghost.setdefault("grad", {})[nm] = "d" + nm
    return sreal(R.arr(nm))


class Odd(Exception):
    pass


def single(kind):
    def task():
        import gpmp.num as gnp

        d, p = point()
        x, z = gp.mk("x", (run.integer("n", 1), run.integer("k", 1))), gp.mk("z", (run.integer("n", 1),))
        calls = []
        ctx().ghost["grad"] = {}

        def crit(q, a, b):
            calls.append((q, a, b))
            if kind == "failure":
                raise failure()
            if kind == "other":
                raise Odd("file not found")
            return value("J")

        c = gnp.DifferentiableSelectionCriterion(crit, x, z)
        ways = ["evaluate_pre_grad"] if kind == "failure" else ["evaluate", "evaluate_no_grad", "evaluate_pre_grad"]
        if kind == "failure" and torch():
            ways.append("evaluate_no_grad")
        for w in ways:
            del calls[:]
            try:
                v = getattr(c, w)(p)
                if kind == "value":
                    run.eq(w, sreal(toR(v)), sreal(R.arr("J")))
                elif kind == "failure":
                    run.true(w + ":infinite", v == INF)
                else:
                    run.true(w + ":raised", False)
            except Odd:
                run.true(w + ":raised", kind == "other")
            run.true(w + ":one-call", len(calls) == 1)
            run.eq(w + ":parameters", calls[0][0], p)
            run.true(w + ":data", calls[0][1] is x and calls[0][2] is z)
        if torch() and kind != "other":
            c.evaluate_pre_grad(p)
            g = c.gradient(p)
            run.eq("gradient", g, gp.mk("dJ", (d,)) if kind == "value" else fn((d,), lambda i: ZERO))

    task.__name__ = "single_" + kind
    return task


class Loader:
    def __init__(self, nb):
        d = run.integer("k", 1)
        self.b = [(gp.mk("x%d" % i, (run.integer("n%d" % i, 1), d)), gp.mk("z%d" % i, (run.integer("n%d" % i, 1),))) for i in range(nb)]

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def index(self, x, z):
        hit = [i for i, (a, b) in enumerate(self.b) if a is x and b is z]
        return hit[0] if hit else None


WAYS = ("evaluate", "evaluate_no_grad", "evaluate_pre_grad")


def batch(nb, bpe, red, ways):
    def task():
        ctx().ghost["bounded"] = "one to three batches"
        import gpmp.num as gnp

        d, p = point()
        ld = Loader(nb)
        seen = []

        def crit(q, a, b):
            i = ld.index(a, b)
            seen.append((q, i))
            return value("J%d" % i)

        c = gnp.BatchDifferentiableSelectionCriterion(crit, ld, reduction=red, batches_per_eval=bpe)
        cyc = itertools.cycle(range(nb))
        for w in ways:
            del seen[:]
            v = getattr(c, w)(p)
            todo = [next(cyc) for _ in range(bpe)] if bpe else list(range(nb))
            run.true("batches-used", [i for _, i in seen] == todo)
            for q, _ in seen:
                run.eq("parameters", q, p)
            rows = [R.ofI(toI(ld.b[i][0].shp[0])) for i in todo]
            tot, n = ZERO, ZERO
            for i, r in zip(todo, rows):
                tot, n = tot + R.arr("J%d" % i) * r, n + r
            want = lambda e: toR(sreal(e) / sreal(n)) if red == "mean" else e
            run.eq("value", sreal(toR(v)), sreal(want(tot)))
            if torch() and w == "evaluate_pre_grad":
                def g(i):
                    s = ZERO
                    for k, r in zip(todo, rows):
                        s = s + R.arr("dJ%d" % k, i) * r
                    return want(s)

                run.eq("gradient", c.gradient(p), fn((d,), g))

    task.__name__ = "batch_%d_%d_%s_%s" % (nb, bpe, red, "".join(w[9:11] or "e" for w in ways))
    return task


class Batches:
    """Loader of any number S of batches: batch k has m(k) rows x(k, i, j) and z(k, i)."""

    def __init__(self):
        self.S, self.k = run.integer("S", 1), run.integer("k", 1)
        run.intfact("m", lambda a: [ile(I((), 1), I.fn("m", a))])
        self.m = lambda k: I.fn("m", toI(k))

    def __len__(self):
        return self.S

    def __iter__(self):
        return self.first(self.S)

    def at(self, k):
        k = toI(k)
        x = fn((self.m(k), self.k), lambda i, j: R.arr("x", k, i, j))
        return x, fn((self.m(k),), lambda i: R.arr("z", k, i))

    def first(self, n):
        from ..instr import SymList

        return iter(SymList.of(n, self.at))


def position(e):
    """The batch an entry comes from."""
    (_, (_, ats)), = toR(e).terms.values()
    return ats[0][0].args[0]


def batch_any(red, w):
    """The whole loader, any number of batches: the sum over the batches weighted by their numbers of rows."""
    def task():
        import gpmp.num as gnp

        ctx().ghost["summarise"] = True
        ctx().ghost["grad"] = {"J": "dJ"}
        d, p = point()
        ld = Batches()

        def crit(q, a, b):
            run.eq("parameters", q, p)
            return sreal(R.arr("J", position(a.elem((toI(0), toI(0)))), position(b.elem((toI(0),)))))

        c = gnp.BatchDifferentiableSelectionCriterion(crit, ld, reduction=red)
        for _ in range(2):
            v = getattr(c, w)(p)
            n = sreal(R.ofI(isum(ld.S, ld.m)))
            want = lambda e: toR(sreal(e) / n) if red == "mean" else e
            run.eq("value", sreal(toR(v)), sreal(want(rsum(ld.S, lambda k: R.arr("J", k, k) * R.ofI(ld.m(k))))))
            if torch() and w == "evaluate_pre_grad":
                run.eq("gradient", c.gradient(p), fn((d,), lambda i: want(rsum(ld.S, lambda k: R.arr("dJ", k, k, i) * R.ofI(ld.m(k))))))

    task.__name__ = "batch_any_%s_%s" % (red, w)
    task.closing = True
    return task


def cycle_any(bpe, red, w):
    """A stated number of batches per evaluation, from any state of the cycle over any number of batches."""
    def task():
        import gpmp.num as gnp

        ctx().ghost["bounded"] = "one to three batches per evaluation (of any number of batches, in any state of the cycle)"
        d, p = point()
        ld = Batches()
        k0 = run.integer("k0", 0)
        ctx().assume(ile(toI(k0), toI(ld.S)))
        starts, seen = [k0], []
        inside = lambda at: ctx().branch(ilt(toI(at), toI(ld.S)))

        class Cycle:
            def __init__(self):
                self.at = starts.pop() if starts else 0

            def __iter__(self):
                return self

            def __next__(self):
                if not inside(self.at):
                    raise StopIteration
                self.at = self.at + 1
                return ld.at(self.at - 1)

        class Loader_:
            def __len__(self):
                return ld.S

            def __iter__(self):
                return Cycle()

        def crit(q, a, b):
            run.eq("parameters", q, p)
            i = position(a.elem((toI(0), toI(0))))
            run.record("output-of-the-same-batch", i.key() == position(b.elem((toI(0),))).key())
            seen.append(i)
            return value("J%d" % (len(seen) - 1))

        c = gnp.BatchDifferentiableSelectionCriterion(crit, Loader_(), reduction=red, batches_per_eval=bpe)
        v = getattr(c, w)(p)
        run.true("number-of-batches", len(seen) == bpe)
        at, n, todo = k0, ZERO, []
        for _ in range(bpe):
            at = at if inside(at) else 0
            todo.append(toI(at))
            n = n + R.ofI(ld.m(at))
            at = at + 1
        run.true("batches-in-turn", all(a.key() == b.key() for a, b in zip(seen, todo)))
        want = lambda e: toR(sreal(e) / sreal(n)) if red == "mean" else e

        def total(f):
            s = ZERO
            for i, k in enumerate(todo):
                s = s + f("J%d" % i) * R.ofI(ld.m(k))
            return want(s)

        run.eq("value", sreal(toR(v)), sreal(total(R.arr)))
        if torch() and w == "evaluate_pre_grad":
            run.eq("gradient", c.gradient(p), fn((d,), lambda i: total(lambda nm: R.arr("d" + nm, i))))

    task.__name__ = "cycle_any_%d_%s_%s" % (bpe, red, w)
    return task


def batch_any_failure(w, red):
    """A failure after any number of batches, followed by any others: that evaluation is infinite, the next one is not affected."""
    def task():
        import gpmp.num as gnp

        ctx().ghost["summarise"] = True
        ctx().ghost["grad"] = {"J": "dJ"}
        d, p = point()
        ld = Batches()
        f = run.integer("f", 0)
        on = [True]

        class Loader_:
            def __len__(self):
                return ld.S

            def __iter__(self):
                yield from ld.first(f if on[0] else ld.S)
                if on[0]:
                    yield ld.at(f)
                    run.true("stopped-at-the-failure", False)

        def crit(q, a, b):
            i, j = position(a.elem((toI(0), toI(0)))), position(b.elem((toI(0),)))
            if on[0] and i.key() == toI(f).key():
                raise failure()
            return sreal(R.arr("J", i, j))

        c = gnp.BatchDifferentiableSelectionCriterion(crit, Loader_(), reduction=red)
        run.true("infinite", getattr(c, w)(p) == INF)
        if torch() and w == "evaluate_pre_grad":
            run.eq("zero-gradient", c.gradient(p), fn((d,), lambda i: ZERO))
        on[0] = False
        n = sreal(R.ofI(isum(ld.S, ld.m)))
        want = lambda e: toR(sreal(e) / n) if red == "mean" else e
        run.eq("next-value", sreal(toR(getattr(c, w)(p))), sreal(want(rsum(ld.S, lambda k: R.arr("J", k, k) * R.ofI(ld.m(k))))))
        if torch() and w == "evaluate_pre_grad":
            run.eq("next-gradient", c.gradient(p), fn((d,), lambda i: want(rsum(ld.S, lambda k: R.arr("dJ", k, k, i) * R.ofI(ld.m(k))))))

    task.__name__ = "batch_any_failure_%s_%s" % (w, red)
    task.closing = True
    return task


def batch_failure(nb, at, w, red):
    """A failure in one batch makes that evaluation infinite and leaves the next one unaffected."""
    def task():
        ctx().ghost["bounded"] = "one to three batches"
        import gpmp.num as gnp

        d, p = point()
        ld = Loader(nb)
        on = [True]

        def crit(q, a, b):
            i = ld.index(a, b)
            if on[0] and i == at:
                raise failure()
            return value("J%d" % i)

        c = gnp.BatchDifferentiableSelectionCriterion(crit, ld, reduction=red)
        run.true("infinite", getattr(c, w)(p) == INF)
        if torch() and w == "evaluate_pre_grad":
            run.eq("zero-gradient", c.gradient(p), fn((d,), lambda i: ZERO))
        on[0] = False
        tot, n = ZERO, ZERO
        for i in range(nb):
            r = R.ofI(toI(ld.b[i][0].shp[0]))
            tot, n = tot + R.arr("J%d" % i) * r, n + r
        run.eq("next-value", sreal(toR(getattr(c, w)(p))), sreal(tot) / sreal(n) if red == "mean" else sreal(tot))

        def odd(q, a, b):
            raise Odd("file not found")

        c = gnp.BatchDifferentiableSelectionCriterion(odd, ld, reduction=red)
        try:
            getattr(c, w)(p)
            ok = False
        except Odd:
            ok = True
        run.true("other-errors-raised", ok)

    task.__name__ = "batch_failure_%d_%d_%s_%s" % (nb, at, w, red)
    return task


def refused():
    import gpmp.num as gnp

    def bad(f):
        try:
            f()
            return False
        except ValueError:
            return True

    ld = Loader(2)
    C = gnp.BatchDifferentiableSelectionCriterion
    run.true("reduction", bad(lambda: C(lambda *a: 0.0, ld, reduction="median")))
    run.true("negative-count", bad(lambda: C(lambda *a: 0.0, ld, batches_per_eval=-1)))

    def empty(w):
        c = C(lambda *a: 0.0, Loader(0))
        getattr(c, w)(gp.mk("p", (2,)))

    for w in WAYS:
        run.true("empty-loader", bad(lambda: empty(w)))
    from gpmp.kernel.parameter_selection import make_selection_criterion_with_gradient as M

    x, z = gp.mk("x", (run.integer("n", 1), 2)), gp.mk("z", (run.integer("n", 1),))
    run.true("both-sources", bad(lambda: M(None, lambda *a: 0.0, xi=x, zi=z, dataloader=ld)))
    run.true("no-source", bad(lambda: M(None, lambda *a: 0.0)))
    run.true("half-source", bad(lambda: M(None, lambda *a: 0.0, xi=x)))


def check_split(calls, model, pm, q, p, name):
    d = p.shp[0]
    for a in calls:
        run.true(name + ":model", a[0] is model)
        if pm:
            run.eq(name + ":mean-parameters", a[1], fn((q,), lambda i: toR(p.elem((i,)))))
            run.eq(name + ":covariance-parameters", a[2], fn((d.add(toI(q), -1),), lambda i: toR(p.elem((i.add(toI(q)),)))))
        else:
            run.eq(name + ":covariance-parameters", a[1], p)


def split(loader, pm):
    """The maker hands the leading entries to the mean and the others to the covariance, with the batch of each call."""
    def task():
        if loader:
            ctx().ghost["bounded"] = "two batches"
        import gpmp.kernel.parameter_selection as S

        q, k = run.integer("q", 0), run.integer("c", 1)
        p = gp.mk("p", (q + k,))
        model = object()
        ld = Loader(2)
        calls = []

        def crit(*a):
            calls.append(a)
            i = ld.index(*a[-2:])
            return value("J" if i is None else "J%d" % i)

        if loader:
            src = {"dataloader": ld, "batches_per_eval": 1}
        else:
            x, z = gp.mk("x", (run.integer("n", 1), 2)), gp.mk("z", (run.integer("n", 1),))
            src = {"xi": x, "zi": z}
        fs = S.make_selection_criterion_with_gradient(model, crit, parameterized_mean=pm, meanparam_len=q, **src)
        for k_, f in enumerate(fs[:3]):
            del calls[:]
            v = f(p)
            run.true("one-call", len(calls) == 1)
            check_split(calls, model, pm, q, p, "split")
            if loader:
                run.true("batch", ld.index(*calls[0][-2:]) == k_ % 2)
                run.eq("value", sreal(toR(v)), sreal(R.arr("J%d" % (k_ % 2))))
            else:
                run.eq("x", calls[0][-2], x)
                run.eq("z", calls[0][-1], z)
                run.eq("value", sreal(toR(v)), sreal(R.arr("J")))

    task.__name__ = "split_%s_%s" % ("loader" if loader else "arrays", "mean" if pm else "plain")
    return task


def split_any(pm, which):
    """The same for the whole of a loader of any number of batches."""
    def task():
        import gpmp.kernel.parameter_selection as S

        ctx().ghost["summarise"] = True
        q, k = run.integer("q", 0), run.integer("c", 1)
        p = gp.mk("p", (q + k,))
        model, ld = object(), Batches()
        ctx().ghost["grad"] = {"J": "dJ"}

        def crit(*a):
            check_split([a], model, pm, q, p, "split")
            return sreal(R.arr("J", position(a[-2].elem((toI(0), toI(0)))), position(a[-1].elem((toI(0),)))))

        fs = S.make_selection_criterion_with_gradient(model, crit, parameterized_mean=pm, meanparam_len=q, dataloader=ld)
        n = sreal(R.ofI(isum(ld.S, ld.m)))
        run.eq("value", sreal(toR(fs[which](p))), sreal(rsum(ld.S, lambda k: R.arr("J", k, k) * R.ofI(ld.m(k)))) / n)

    task.__name__ = "split_any_%s_%d" % ("mean" if pm else "plain", which)
    task.closing = True
    return task


def split_defaults():
    """Without settings: the whole loader per evaluation, no mean parameters; one mean parameter when only asked for."""
    import gpmp.kernel.parameter_selection as S

    ctx().ghost["bounded"] = "two batches"
    p, model, ld = gp.mk("p", (run.integer("c", 2),)), object(), Loader(2)
    for pm in (False, True):
        calls = []

        def crit(*a):
            calls.append(a)
            return value("J%d" % ld.index(*a[-2:]))

        kw = {"parameterized_mean": True} if pm else {}
        fs = S.make_selection_criterion_with_gradient(model, crit, dataloader=ld, **kw)
        for f in fs[:3]:
            del calls[:]
            f(p)
            check_split(calls, model, pm, 1, p, "split")
            run.true("whole-loader", [ld.index(*a[-2:]) for a in calls] == [0, 1])


class Model:
    meanparam = covparam = None


def select(loader, pm, update):
    """The search starts at the given parameters, evaluates with the same split and leaves the result in the model."""
    def task():
        if loader:
            ctx().ghost["bounded"] = "two batches"
        import gpmp.kernel.parameter_selection as S

        k, q = run.integer("c", 1), run.integer("q", 1)
        m0, c0 = gp.mk("m0", (q,)), gp.mk("c0", (k,))
        ld = Loader(2)
        if loader:
            src = {"dataloader": ld}
        else:
            src = {"xi": gp.mk("x", (run.integer("n", 1), 2)), "zi": gp.mk("z", (run.integer("n", 1),))}
        model, calls = Model(), []
        if update:
            model.meanparam, model.covparam = m0, c0

        def crit(*a):
            calls.append(a)
            return value("J%d" % (ld.index(*a[-2:]) or 0))

        qq = q if pm else 0
        p1 = gp.mk("p1", (qq + k,))
        seen = {}

        def minimize(fun, x0, method=None, jac=None, bounds=None, options=None, **kw):
            seen.update(x0=x0, bounds=bounds, method=method)
            v = fun(p1)
            if jac is not None:
                seen["g"] = jac(p1)
            return Result(x=p1, fun=v, success=True)

        ctx().ghost["minimize"] = minimize
        kw = dict(src, parameterized_mean=pm, meanparam_len=q if pm else 1, info=True, bounds_auto=False, method="L-BFGS-B")
        if update:
            out, info = S.update_parameters_with_criterion(model, crit, **kw)
        else:
            out, info = S.select_parameters_with_criterion(model, crit, meanparam0=m0 if pm else None, covparam0=c0, **kw)
        run.true("model-returned", out is model)
        run.true("method", seen["method"] == "L-BFGS-B")
        if pm:
            run.eq("start-mean", seen["x0"][:q], m0)
        run.eq("start-covariance", seen["x0"][qq:], c0)
        check_split(calls, model, pm, qq, p1, "search")
        run.eq("model-covariance", model.covparam, fn((k,), lambda i: toR(p1.elem((i.add(toI(qq)),)))))
        if pm:
            run.eq("model-mean", model.meanparam, fn((q,), lambda i: toR(p1.elem((i,)))))
            run.eq("info-mean", info["meanparam"], fn((q,), lambda i: toR(p1.elem((i,)))))
            run.eq("info-start-mean", info["meanparam0"], m0)
        elif not update:
            run.true("mean-untouched", model.meanparam is None)
        run.eq("info-covariance", info["covparam"], fn((k,), lambda i: toR(p1.elem((i.add(toI(qq)),)))))
        run.eq("info-start-covariance", info["covparam0"], c0)
        del calls[:]
        for key in ("selection_criterion", "selection_criterion_nograd"):
            info[key](p1)
        check_split(calls, model, pm, qq, p1, "reported-criteria")

    task.__name__ = "%s_%s_%s" % ("update" if update else "select", "loader" if loader else "arrays", "mean" if pm else "plain")
    return task


TASKS = [single(k) for k in ("value", "failure", "other")] + [
    batch_any_failure(w, r) for w in WAYS for r in ("mean", "sum")] + [split_any(pm, i) for pm in (False, True) for i in range(3)] + [
    cycle_any(k, r, w) for k in (1, 2, 3) for r in ("mean", "sum") for w in WAYS] + [
    batch(nb, bpe, red, ways) for nb in (1, 2, 3) for bpe in (0, 1, 2, 4) for red in ("mean", "sum")
    for ways in (WAYS, WAYS[::-1])] + [
    batch_any(red, w) for red in ("mean", "sum") for w in WAYS] + [
    batch_failure(nb, at, w, red) for nb in (1, 2, 3) for at in range(nb) for w in WAYS for red in ("mean", "sum")] + [refused, split_defaults] + [
    split(l, pm) for l in (False, True) for pm in (False, True)] + [
    select(l, pm, u) for l in (False, True) for u in (False, True) for pm in (False, True)]
