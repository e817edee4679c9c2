"""NUTS: reversible integrator, running variance, warmup windows (C23)."""
from fractions import Fraction

from .. import gp, run
from ..arr import sarr, sreal, toR, unI
from ..core import ctx, ind, ite, rexp, rpow, rsum
from ..gp import fn
from ..terms import FALSE, I, R, TRUE, ZERO, band, bnot, bor, ieq, ile, ilt, req0, rlt0, rle0, toI

FUNCTIONS = ["mcmc.nuts." + f for f in (
    "leapfrog", "potential_and_grad", "kinetic", "is_uturn", "RunningDiagVar.update_one", "RunningDiagVar.update_batch", "RunningDiagVar.var",
    "make_warmup_windows", "DualAveragingState.update", "DualAveragingState.final")]
HALF = Fraction(1, 2)


def gradient(q):
    """Gradient of the potential: an arbitrary function of the position."""
    return fn(q.shp, lambda i: R.arr("G|" + gp.thetakey(q), i))


def model(N):
    """Contract of value_and_grad: the negated log-density and its gradient at the point asked for."""
    asked = []

    def vg(f, x):
        asked.append(x)
        return f(x), gradient(sarr(x))

    N.gnp.value_and_grad = vg
    return (lambda q: sreal(R.arr("L|" + gp.thetakey(sarr(q))))), asked


def reversible(sign, vary):
    def task():
        import gpmp.mcmc.nuts as N

        d = run.integer("d", 1)
        q, p, m = gp.mk("q", (d,)), gp.mk("p", (d,)), gp.mk("m", (d,))
        e = run.real("eps")
        keep = N.gnp.value_and_grad
        lp, asked = model(N)
        try:
            U, g = N.potential_and_grad(lp, q)
            run.eq("potential", U, sreal(R.arr("L|" + gp.thetakey(q)).neg()))
            run.eq("gradient", g, gradient(q))
            q1, p1, U1, g1 = N.leapfrog(lp, q, p, g, e, m)
            E = toR(e)
            h = lambda i: R.arr("p", i) - E.scale(HALF) * toR(g.elem((i,)))
            want = fn((d,), lambda i: R.arr("q", i) + E * R.arr("m", i) * h(i))
            run.eq("position", q1, want)
            run.eq("potential-at-the-new-position", U1, sreal(R.arr("L|" + gp.thetakey(want)).neg()))
            run.eq("gradient-at-the-new-position", g1, gradient(want))
            run.eq("momentum", p1, fn((d,), lambda i: h(i) - E.scale(HALF) * toR(g1.elem((i,)))))
            run.eq("arguments-kept", q, gp.mk("q", (d,)))
            run.eq("arguments-kept", p, gp.mk("p", (d,)))
            if sign == "momentum":
                q2, p2, U2, g2 = N.leapfrog(lp, q1, -p1, g1, e, m)
                back = fn((d,), lambda i: R.arr("p", i).neg())
            else:
                q2, p2, U2, g2 = N.leapfrog(lp, q1, p1, g1, -e, m)
                back = p
            run.eq("back-at-the-start", q2, q)
            run.eq("momentum-back", p2, back)
            run.eq("potential-back", U2, U)
        finally:
            N.gnp.value_and_grad = keep

    task.__name__ = "reversible_%s" % sign
    return task


def energy():
    import gpmp.mcmc.nuts as N

    d = run.integer("d", 1)
    p, m = gp.mk("p", (d,)), gp.mk("m", (d,))
    run.eq("kinetic", sreal(toR(N.kinetic(p, m))), sreal(rsum(toI(d), lambda i: R.arr("p", i) * R.arr("p", i) * R.arr("m", i)).scale(HALF)))
    a, b, r = gp.mk("a", (d,)), gp.mk("b", (d,)), gp.mk("r", (d,))
    got = N.is_uturn(a, b, p, r, m)
    v = [rsum(toI(d), lambda i: (R.arr("b", i) - R.arr("a", i)) * R.arr("m", i) * R.arr(x, i)) for x in ("p", "r")]
    cond = bor(rlt0(v[0]), rlt0(v[1]))
    run.true("u-turn-rule", cond if got else bnot(cond))


def moments(n, d):
    """Mean and centred second moment of n values with sum S and sum of squares Q."""
    iv = rpow(R.ofI(toI(n)), -1)
    S, Q = lambda i: R.arr("S", i), lambda i: R.arr("Q", i)
    return fn((d,), lambda i: S(i) * iv), fn((d,), lambda i: Q(i) - S(i) * S(i) * iv)


def variance_step(kind):
    """From the exact moments of any number of values, one more value gives the exact moments."""
    def task():
        import gpmp.mcmc.nuts as N

        d = run.integer("d", 1)
        n = run.integer("n", 1) if kind == "later" else 0
        rv = N.RunningDiagVar(d)
        run.true("starts-empty", rv.n == 0)
        run.eq("variance-without-values", rv.var(), fn((d,), lambda i: R.num(1)))
        if kind == "later":
            rv.n = n
            rv.mean, rv.m2 = moments(n, d)
        x = gp.mk("x", (d,))
        rv.update_one(x)
        run.true("counted", ieq(toI(rv.n), toI(n + 1)))
        S = lambda i: R.arr("x", i) + (R.arr("S", i) if kind == "later" else ZERO)
        Q = lambda i: R.arr("x", i) * R.arr("x", i) + (R.arr("Q", i) if kind == "later" else ZERO)
        k = R.ofI(toI(n + 1))
        run.eq("mean", fn((d,), lambda i: clear(toR(rv.mean.elem((i,))), n)), fn((d,), lambda i: clear(S(i) * rpow(k, -1), n)))
        run.eq("centred-sum-of-squares", fn((d,), lambda i: clear(toR(rv.m2.elem((i,))), n)), fn((d,), lambda i: clear(Q(i) - S(i) * S(i) * rpow(k, -1), n)))
        if kind == "first":
            run.eq("variance-of-one-value", rv.var(), fn((d,), lambda i: R.num(1)))

    task.__name__ = "variance_%s" % kind
    return task


def clear(r, n):
    """r times n^2 (n+1)^2, all inverses of n and n+1 cancelled."""
    if not hasattr(toI(n), "t") or toI(n).const is not None:
        return r
    k, k1 = R.ofI(toI(n)), R.ofI(toI(n + 1))
    return r * k * k * k1 * k1 * k1


def variance_value():
    import gpmp.mcmc.nuts as N

    d, n = run.integer("d", 1), run.integer("n", 2)
    rv = N.RunningDiagVar(d)
    rv.n, rv.mean, rv.m2 = n, gp.mk("mean", (d,)), gp.mk("m2", (d,))
    run.eq("sample-variance", rv.var(), fn((d,), lambda i: R.arr("m2", i) * rpow(R.ofI(toI(n - 1)), -1)))


def variance_batches(sizes):
    """A batch is its rows one after the other; exact variance of everything fed in."""
    def task():
        ctx().ghost["bounded"] = "up to five values in up to three batches"
        import gpmp.mcmc.nuts as N

        d = run.integer("d", 1)
        rv = N.RunningDiagVar(d)
        names = []
        for b, s in enumerate(sizes):
            rv.update_batch(gp.mk("x%d" % b, (s, d)))
            names += [("x%d" % b, k) for k in range(s)]
        n = len(names)
        run.true("counted", rv.n == n)
        x = lambda i: [R.arr(a, I((), k), i) for a, k in names]

        def var(i):
            xs = x(i)
            m = sum(xs[1:], xs[0]).scale(Fraction(1, n))
            t = ZERO
            for v in xs:
                t = t + (v - m) * (v - m)
            return t.scale(Fraction(1, n - 1))

        run.eq("sample-variance", rv.var(), fn((d,), var if n >= 2 else lambda i: R.num(1)))

    task.__name__ = "batches_%s" % "_".join(map(str, sizes))
    return task


def batch_any(kind):
    """From the exact moments of any number of values, a batch of any size gives those of all values."""
    def task():
        import gpmp.mcmc.nuts as N

        c = ctx()
        c.ghost["summarise"] = True
        first = kind == "first"
        d, n, b = run.integer("d", 1), 0 if first else run.integer("n", 1), run.integer("b", int(first))
        # sum of the values before row k: the rows are its differences
        T = lambda k, i: ZERO if first and toI(k).const == 0 else R.arr("T", toI(k), i)
        row = lambda j, i: (ite(ieq(j, I()), lambda: R.arr("T", I((), 1), i), lambda: T(j.add(I((), 1)), i) - T(j, i)) if first else T(j.add(I((), 1)), i) - T(j, i))
        Q = lambda k, i: (ZERO if first else R.arr("Q", i)) + rsum(toI(k), lambda j: row(j, i) * row(j, i))
        iv = lambda k: ZERO if first and toI(k).const == 0 else rpow(R.ofI(toI(n).add(toI(k))), -1)
        x = fn((b, d), row)
        mean = lambda k: fn((d,), lambda i: T(k, i) * iv(k))
        m2 = lambda k: fn((d,), lambda i: Q(k, i) - T(k, i) * T(k, i) * iv(k))
        c.ghost["trajectories"] = [mean, m2]
        rv = N.RunningDiagVar(d)
        if not first:
            rv.n, rv.mean, rv.m2 = n, mean(0), m2(0)
        rv.update_batch(x)
        if not any(o[0] == "loop-summary-step" for o in c.obl):
            return  # no rows, or not fed one after the other
        run.true("counted", ieq(toI(rv.n), toI(n + b)))
        run.eq("mean", rv.mean, mean(b))
        run.eq("centred-sum-of-squares", rv.m2, m2(b))

    task.__name__ = "batch_any_%s" % kind
    task.closing = True
    return task


def windows(kind):
    def task():
        ctx().ghost["bounded"] = "stretches of up to 31 base windows (five windows)"
        import gpmp.mcmc.nuts as N

        n = run.integer("n", 0)
        mn = run.integer("mn", 0)
        th = run.integer("th", 0)
        lo, hi, base = run.integer("init", 0), run.integer("term", 0), run.integer("base", 1)
        kw = dict(min_no_window=mn, large_threshold=th, large_init_buffer=lo, large_term_buffer=hi, large_base_window=base)
        if kind == "small":
            ctx().assume(ilt(toI(n), toI(th)))
            kw.update(init_buffer_ratio=0.15, term_buffer_ratio=0.1, base_window_divisor=3.0)
            ctx().assume(ile(toI(n), I((), 60)))
        else:
            ctx().assume(ile(toI(th), toI(n)))
            ctx().assume(ile(toI(n).add(toI(lo), -1).add(toI(hi), -1), toI(base).scale(31)))
        w = N.make_warmup_windows(n, **kw)
        if ctx().branch(ile(toI(n), toI(mn))):
            run.true("no-windows-in-a-short-warmup", len(w) == 0)
            return
        if kind == "small":
            from ..arr import ifloordiv

            a, b = ifloordiv(toI(n).scale(15), I((), 100)), ifloordiv(toI(n).scale(10), I((), 100))
            a = a if ctx().branch(ile(I((), 1), a)) else I((), 1)
            b = b if ctx().branch(ile(I((), 1), b)) else I((), 1)
        else:
            a, b = toI(lo), toI(hi)
        end = toI(n).add(b, -1)
        if ctx().branch(ile(end, a)):
            run.true("no-windows-without-room", len(w) == 0)
            return
        run.true("some-window", len(w) >= 1)
        at = a
        for x, y in w:
            run.true("consecutive", ieq(toI(x), at))
            run.true("non-empty", ilt(toI(x), toI(y)))
            at = toI(y)
        run.true("up-to-the-final-buffer", ieq(at, end))

    task.__name__ = "windows_%s" % kind
    task.max_paths = 3000
    return task


def dual():
    """One update of the step-size average, from any state."""
    import gpmp.mcmc.nuts as N

    s = N.DualAveragingState(mu=run.real("mu"), log_eps=run.real("le"), log_eps_bar=run.real("lb"), h_bar=run.real("h"), t=3)
    got = s.update(run.real("acc"), target=run.real("target"), gamma=0.5, t0=12.0, kappa=0.5)
    eta = Fraction(1, 16)
    h = R.arr("h") if False else toR(run_real("h"))
    hb = h.scale(1 - eta) + (toR(run_real("target")) - toR(run_real("acc"))).scale(eta)
    le = toR(run_real("mu")) - hb.scale(4)
    run.eq("averaged-error", sreal(toR(s.h_bar)), sreal(hb))
    run.eq("log-step", sreal(toR(s.log_eps)), sreal(le))
    run.eq("step", sreal(toR(got)), sreal(rexp(le)))
    run.eq("averaged-log-step", sreal(toR(s.log_eps_bar)), sreal((le + toR(run_real("lb"))).scale(HALF)))
    run.eq("final-step", sreal(toR(s.final())), sreal(rexp((le + toR(run_real("lb"))).scale(HALF))))
    run.true("counted", s.t == 4)


def run_real(name):
    return sreal(R.arr(name))


def dual_any():
    """The same after any number of updates, with any target, shrinkage and offset."""
    import gpmp.mcmc.nuts as N

    t, t0, ga = run.integer("t", 0), run.integer("t0", 0), run.real("gamma", 0)
    s = N.DualAveragingState(mu=run.real("mu"), log_eps=run.real("le"), log_eps_bar=run.real("lb"), h_bar=run.real("h"), t=t)
    got = s.update(run.real("acc"), target=run.real("target"), gamma=ga, t0=t0, kappa=0.5)
    run.true("counted", ieq(toI(s.t), toI(t + 1)))
    k = R.ofI(toI(t + 1))
    eta = rpow(R.ofI(toI(t + 1 + t0)), -1)
    old = {n: toR(run_real(n)) for n in ("mu", "le", "lb", "h", "acc", "target")}
    hb = old["h"] - eta * old["h"] + eta * (old["target"] - old["acc"])
    le = old["mu"] - rpow(k, HALF) * rpow(toR(ga), -1) * hb
    run.eq("averaged-error", sreal(toR(s.h_bar)), sreal(hb))
    run.eq("log-step", sreal(toR(s.log_eps)), sreal(le))
    run.eq("step", sreal(toR(got)), sreal(rexp(le)))
    w = rpow(k, -HALF)
    lb = w * le + old["lb"] - w * old["lb"]
    run.eq("averaged-log-step", sreal(toR(s.log_eps_bar)), sreal(lb))
    run.eq("final-step", sreal(toR(s.final())), sreal(rexp(lb)))


TASKS = [dual_any, reversible("momentum", 0), reversible("step", 0), energy, variance_step("first"), variance_step("later"), variance_value, batch_any("first"), batch_any("later")] + [
    variance_batches(s) for s in ((1,), (2,), (1, 1), (3,), (2, 1), (0, 2, 3))] + [windows("large"), windows("small"), dual]
