"""Stein variational step: kernel, velocity field, dead particles, box (C24)."""
import itertools
from fractions import Fraction

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, ind, ite, rexp, rpow, rsum
from ..gp import fn
from ..terms import FALSE, I, R, TRUE, ZERO, band, bnot, ieq, ile, ilt, rlt0, rle0, toI

FUNCTIONS = ["mcmc.svgd." + f for f in (
    "rbf_kernel_matrix", "svgd_step", "_project_to_box", "_annealed_temperature", "_resolve_preconditioner", "_normalize_bounds", "_safe_value_and_grad", "svgd_sample")]


def sq(d, x, i, y, j):
    return rsum(toI(d), lambda c: (x(i, c) - y(j, c)) * (x(i, c) - y(j, c)))


def kernel(kind):
    def task():
        import gpmp.mcmc.svgd as S

        n, d = run.integer("n", 1), run.integer("d", 1)
        x = gp.mk("x", (n, d))
        b, s = run.real("b", 0.01), run.real("s", 0.01)
        kw = {"bandwidth": b, "bandwidth_scale": s, "jitter": 1e-12}
        if kind == "bounded":
            kw["bandwidth_min"] = run.real("m", 0)
        K, d2, h = S.rbf_kernel_matrix(x, **kw)
        X = lambda i, c: R.arr("x", i, c)
        run.eq("squared-distances", d2, fn((n, n), lambda i, j: sq(d, X, i, X, j)))
        H = toR(sarr(h).elem(()))
        run.eq("kernel-from-the-reported-bandwidth", K, fn((n, n), lambda i, j: rexp((sq(d, X, i, X, j) * rpow(H, -1)).neg())))
        prod = toR(b) * toR(s)
        if kind == "bounded":
            m = R.arr("m")
            if ctx().branch(rle0(prod - m)):
                run.true("bandwidth-not-below-the-bound", run.holds_eq(sreal(H), sreal(m)))
            else:
                run.eq("bandwidth", sreal(H), sreal(prod))
        else:
            run.eq("bandwidth", sreal(H), sreal(prod))
        run.eq("particles-kept", x, gp.mk("x", (n, d)))

    task.__name__ = "kernel_%s" % kind
    return task


def target(S, T, status, x):
    """Contract of value_and_grad for log_prob / T with an arbitrary score at each particle."""
    count = [0]

    def log_prob(v):
        k = status[count[0]]
        if k == "failure":
            raise ArithmeticError("undefined")
        if k in ("nan", "-inf", "inf"):
            return float(k)
        return sreal(R.arr("L", I((), count[0])))

    def vg(f, v):
        i = count[0]
        run.eq("target-at-the-particle", v, x(i))
        try:
            y = f(v)
            if status[i] == "value":
                run.eq("tempered-target", sreal(toR(sarr(y).elem(()))), sreal(R.arr("L", I((), i)) * rpow(T, -1)))
            return sarr(y), fn(sarr(v).shp, lambda c: R.arr("G", I((), i), c) * rpow(T, -1))
        finally:
            count[0] += 1

    S.gnp.value_and_grad = vg
    return log_prob, count


def step(status, box, pre):
    def task():
        n = len(status)
        ctx().ghost["bounded"] = "clouds of up to three particles, any dimension" if not box else "clouds of up to three particles in one or two dimensions"
        import gpmp.mcmc.svgd as S

        d = run.integer("d", 1) if not box else box
        x = gp.mk("x", (n, d))
        e, T, h = run.real("eps", 0), run.real("T", 0), run.real("h", 0.01)
        keep = S.gnp.value_and_grad
        kw = {}
        if pre == "vector":
            kw["preconditioner_diag"] = gp.mk("c", (d,))
            ctx().ghost["draws"] = None
        X = lambda i, c: R.arr("x", toI(i), c)
        if box:
            lo, up = [run.real("lo%d" % k) for k in range(d)], [run.real("up%d" % k) for k in range(d)]
            for a, b in zip(lo, up):
                ctx().assume(rlt0(toR(a) - toR(b)))
            kw["sampling_box"] = [sarr(lo), sarr(up)]
            import gpmp.num as gnp

            if n > 1:  # several particles: from inside the box
                for i in range(n):
                    for c in range(d):
                        v = R.arr("x", I((), i), I((), c))
                        ctx().assume(rle0(toR(lo[c]) - v))
                        ctx().assume(rle0(v - toR(up[c])))

            start = gnp.clip(x, min=sarr(lo).reshape(1, -1), max=sarr(up).reshape(1, -1))
            X = lambda i, c: toR(start.elem((toI(i), toI(c))))
        f, count = target(S, toR(T), status, lambda i: fn((d,), lambda c: X(I((), i), c)))
        try:
            y, info = S.svgd_step(f, x, step_size=e, temperature=T, bandwidth=h, **kw)
        finally:
            S.gnp.value_and_grad = keep
        run.true("target-once-per-particle", count[0] == n)
        alive = [k == "value" for k in status]
        m = max(sum(alive), 1)
        E, H = toR(e), R.arr("h")
        run.eq("reported-bandwidth", sreal(toR(sarr(info["bandwidth"]).elem(()))), sreal(H))

        def move(i, c):
            s = ZERO
            for j in range(n):
                if alive[j]:
                    k = rexp((sq(d, X, I((), i), X, I((), j)) * rpow(H, -1)).neg())
                    s = s + k * R.arr("G", I((), j), c) * rpow(toR(T), -1)
                    s = s + (k * (X(I((), i), c) - X(I((), j), c)) * rpow(H, -1)).scale(2)
            return s.scale(Fraction(1, m))

        for i in range(n):
            row = y[i]
            if not alive[i]:
                run.eq("dead-particles-stay", row, fn((d,), lambda c: X(I((), i), c)))
            elif not box:
                run.eq("moved-by-the-field", row, fn((d,), lambda c: X(I((), i), c) + E * move(i, c)))
            else:
                import gpmp.num as gnp

                for c in range(d):
                    z = sreal(X(I((), i), I((), c)) + E * move(i, I((), c)))
                    run.eq("moved-by-the-field-then-into-the-box", row[c], gnp.clip(z, min=lo[c], max=up[c]))
            if box:
                for c in range(d):
                    v = toR(row[c])
                    run.true("inside-the-box", rle0(toR(lo[c]) - v))
                    run.true("inside-the-box", rle0(v - toR(up[c])))
        run.eq("particles-kept", x, gp.mk("x", (n, d)))

    task.__name__ = "step_%s_%s_%s" % ("_".join(status).replace("-", "m"), "box%d" % box if box else "free", pre)
    return task


def step_any(pre):
    """Any number of particles where the target is defined."""
    def task():
        import gpmp.mcmc.svgd as S
        from .c20 import position

        ctx().ghost["summarise"] = True
        n, d = run.integer("n", 1), run.integer("d", 1)
        x = gp.mk("x", (n, d))
        e, T, h = run.real("eps", 0), run.real("T", 0), run.real("h", 0.01)
        kw = {"preconditioner_diag": gp.mk("c", (d,))} if pre == "vector" else {}
        at = lambda v: position(sarr(v).elem((I(),)))

        def vg(f, v):
            k = at(v)
            run.eq("tempered-target", sreal(toR(sarr(f(v)).elem(()))), sreal(R.arr("L", k) * rpow(toR(T), -1)))
            return sarr(sreal(R.arr("L", k) * rpow(toR(T), -1))), fn((d,), lambda c: R.arr("G", k, c) * rpow(toR(T), -1))

        keep, S.gnp.value_and_grad = S.gnp.value_and_grad, vg
        try:
            y, info = S.svgd_step(lambda v: sreal(R.arr("L", at(v))), x, step_size=e, temperature=T, bandwidth=h, **kw)
        finally:
            S.gnp.value_and_grad = keep
        X = lambda i, c: R.arr("x", i, c)
        H, N = R.arr("h"), rpow(R.ofI(toI(n)), -1)

        def move(i, c):
            k = lambda j: rexp((sq(d, X, i, X, j) * rpow(H, -1)).neg())
            s = rsum(toI(n), lambda j: k(j) * R.arr("G", j, c)) * rpow(toR(T), -1)
            return (s + rsum(toI(n), lambda j: k(j) * (X(i, c) - X(j, c))).scale(2) * rpow(H, -1)) * N

        run.eq("moved-by-the-field", y, fn((n, d), lambda i, c: X(i, c) + toR(e) * move(i, c)))
        run.eq("particles-kept", x, gp.mk("x", (n, d)))

    task.__name__ = "step_any_number_%s" % pre
    task.closing = True
    return task


def step_any_dead(fails, box):
    """Any number of particles, the target being defined, undefined or failing at any of them."""
    def task():
        import gpmp.mcmc.svgd as S
        import gpmp.num as gnp
        from ..arr import SArr
        from ..instr import s_int

        ctx().ghost["summarise"] = True
        n, d = run.integer("n", 1), run.integer("d", 2 if box else 1)  # (a bound of one entry is for all coordinates)
        x = gp.mk("x", (n, d))
        e, T, h = run.real("eps", 0), run.real("T", 0), run.real("h", 0.01)
        failing = lambda k: rle0(R.arr("f", k)) if fails else FALSE
        alive = lambda k: band(rle0(R.arr("u", k)), bnot(failing(k)))

        def hook(r):
            own = [a for c, (b, ats) in r.terms.values() for a, p in ats if a.kind == "a" and a.name == "L"]
            return alive(own[0].args[0]) if own else TRUE

        ctx().ghost["finite_hook"], ctx().ghost["nan_hook"] = hook, lambda r: bnot(hook(r))
        start, kw = x, {}
        if box:
            lo, up = gp.mk("lo", (d,)), gp.mk("up", (d,))
            kw["sampling_box"] = [lo, up]
            inside = lambda v: gnp.clip(v, min=lo.reshape(1, -1), max=up.reshape(1, -1))
            start = inside(x)
        X = lambda i, c: toR(start.elem((toI(i), toI(c))))

        def vg(f, v):
            k = row(v)
            if ctx().branch(failing(k)):
                raise RuntimeError("no value here")
            return sarr(sreal(R.arr("L", k) * rpow(toR(T), -1))), fn((d,), lambda c: R.arr("G", k, c) * rpow(toR(T), -1))

        keep, S.gnp.value_and_grad = S.gnp.value_and_grad, vg
        try:
            y, info = S.svgd_step(lambda v: sreal(R.arr("L")), x, step_size=e, temperature=T, bandwidth=h, **kw)
        finally:
            S.gnp.value_and_grad = keep
        count = toI(s_int(S.gnp.sum(SArr((toI(n),), lambda ix: alive(ix[0]), "b"))))
        H, N = R.arr("h"), rpow(R.ofI(count), -1) if ctx().branch(ile(I((), 1), count)) else R.num(1)

        def move(i, c):
            k = lambda j: ind(alive(j)) * rexp((sq(d, X, i, X, j) * rpow(H, -1)).neg())
            s = rsum(toI(n), lambda j: k(j) * R.arr("G", j, c)) * rpow(toR(T), -1)
            return ind(alive(i)) * (s + rsum(toI(n), lambda j: k(j) * (X(i, c) - X(j, c))).scale(2) * rpow(H, -1)) * N

        want = fn((n, d), lambda i, c: X(i, c) + toR(e) * move(i, c))
        run.eq("moved-by-the-field", y, inside(want) if box else want)
        run.eq("particles-kept", x, gp.mk("x", (n, d)))

    task.__name__ = "step_any_%s%s" % ("failing" if fails else "undefined", "_box" if box else "")
    task.closing = True
    return task


def row(v):
    """Position of the particle a row is."""
    def find(t):
        for _, (_, ats) in t.terms.values():
            for a, _ in ats:
                if a.kind == "a" and a.name == "x":
                    return a.args[0]
                for q in a.args:
                    k = find(q) if isinstance(q, R) else None
                    if k is not None:
                        return k

    return find(toR(sarr(v).elem((I(),))))


def project():
    """The projection keeps points of the box and puts every point into it, for any cloud and box."""
    import gpmp.mcmc.svgd as S

    n, d = run.integer("n", 1), run.integer("d", 1)
    x, lo, up = gp.mk("x", (n, d)), gp.mk("lo", (d,)), gp.mk("up", (d,))
    y = S._project_to_box(x, lo, up)
    run.true("no-box-no-change", S._project_to_box(x, None, None) is x)
    i, c = run.integer("i", 0), run.integer("c", 0)
    ctx().assume(ilt(toI(i), toI(n)))
    ctx().assume(ilt(toI(c), toI(d)))
    i, c = toI(i), toI(c)
    ctx().assume(rle0(R.arr("lo", c) - R.arr("up", c)))
    v = toR(y.elem((i, c)))
    run.true("above-the-lower-bound", rle0(R.arr("lo", c) - v))
    run.true("below-the-upper-bound", rle0(v - R.arr("up", c)))
    if ctx().branch(rle0(R.arr("lo", c) - R.arr("x", i, c))) and ctx().branch(rle0(R.arr("x", i, c) - R.arr("up", c))):
        run.eq("inside-unchanged", sreal(v), sreal(R.arr("x", i, c)))


def temperature(schedule):
    def task():
        import gpmp.mcmc.svgd as S

        k, n = run.integer("k", 0), run.integer("n", 2)
        ctx().assume(ilt(toI(k), toI(n)))
        a, b = run.real("a", 0), run.real("b", 0)
        t = S._annealed_temperature(k, n, initial_temperature=a, final_temperature=b, schedule=schedule)
        u = R.ofI(toI(k)) * rpow(R.ofI(toI(n - 1)), -1)
        run.eq("temperature", sreal(toR(sarr(t).elem(()))), sreal(R.arr("a") + u * (R.arr("b") - R.arr("a"))))
        run.eq("one-step", sreal(toR(sarr(S._annealed_temperature(0, 1, initial_temperature=a, final_temperature=b, schedule=schedule)).elem(()))), sreal(R.arr("b")))

    task.__name__ = "temperature_%s" % schedule
    return task


def sample(k, box):
    """A run is its steps one after the other, each on the result of the one before, at the annealed temperature."""
    def task():
        ctx().ghost["bounded"] = "runs of up to three steps, two particles"
        import gpmp.mcmc.svgd as S
        import gpmp.num as gnp

        n, d = 2, run.integer("d", 1)
        calls = []

        def step(f, p, **kw):
            i = len(calls)
            calls.append((p, kw))
            z = gnp.asarray(0.0)
            return gp.mk("y%d" % i, (n, d)), {"log_prob_values": gp.mk("l%d" % i, (n,)), "bandwidth": sreal(R.arr("h%d" % i)), "temperature": sreal(toR(kw["temperature"])),
                                              "velocity": gp.mk("v%d" % i, (n, d)), "alive_mask": gnp.ones((n,), dtype=bool), "alive_count": n}

        keep, S.svgd_step = S.svgd_step, gp.stand(S.svgd_step, step)
        sb = [[0.0], [1.0]] if box else None
        o = S.SVGDOptions(n_steps=k, step_size=0.25, bandwidth=0.5, initial_temperature=4.0, final_temperature=2.0, annealing_schedule="linear",
                          sampling_box=sb, progress=False, store_particles_history=True)
        try:
            y, info = S.svgd_sample(lambda q: sreal(R.arr("L|" + gp.thetakey(sarr(q)))), gp.mk("x", (n, d)), options=o)
        finally:
            S.svgd_step = keep
        run.true("number-of-steps", len(calls) == k)
        cur = gp.mk("x", (n, d))
        for i, (p, kw) in enumerate(calls):
            run.eq("continues", p, cur)
            cur = gp.mk("y%d" % i, (n, d))
            run.eq("temperature", sreal(toR(kw["temperature"])), sreal(R.num(4) - R.num(2).scale(Fraction(i, k - 1)) if k > 1 else R.num(2)))
            run.true("settings-handed-on", kw["step_size"] == 0.25 and kw["bandwidth"] == 0.5 and kw["sampling_box"] == sb)
            run.eq("history", info["particles_history"][i + 1], cur)
        run.eq("result", y, cur)
        run.eq("reported", info["particles_final"], cur)

    task.__name__ = "sample_%d_%s" % (k, "box" if box else "free")
    return task


def sample_any(schedule, box=False):
    """Any number of steps and particles: the cloud follows the steps, each at its temperature; traces and history in order."""
    def task():
        import gpmp.mcmc.svgd as S
        import gpmp.num as gnp
        from .c20 import position

        c = ctx()
        c.ghost["summarise"] = True
        k, n, d = run.integer("k", 1), run.integer("n", 1), run.integer("d", 1)
        Y = lambda i: fn((n, d), lambda a, b: R.arr("Y", toI(i), a, b))
        c.ghost["trajectories"] = [Y]
        a, b, e, h = run.real("a", 0), run.real("b", 0), run.real("eps", 0), run.real("h", 0)
        sb = [[0.0], [1.0]] if box else None

        def temp(i):
            return ite(ieq(toI(k), I((), 1)), lambda: R.arr("b"), lambda: R.arr("a") + R.ofI(i) * rpow(R.ofI(toI(k - 1)), -1) * (R.arr("b") - R.arr("a")))

        def step(f, p, **kw):
            i = position(p.elem((I(), I())))
            run.eq("continues", p, Y(i))
            run.eq("temperature", sreal(toR(kw["temperature"])), sreal(temp(i)))
            run.eq("step-size", sreal(toR(kw["step_size"])), e)
            run.eq("bandwidth", sreal(toR(kw["bandwidth"])), h)
            run.true("box", kw.get("sampling_box") == sb)
            one = lambda nm: sreal(R.arr(nm, i))
            return Y(i.add(I((), 1))), {
                "log_prob_values": fn((n,), lambda j: R.arr("l", i, j)), "bandwidth": one("w"), "temperature": sreal(toR(kw["temperature"])),
                "velocity": fn((n, d), lambda j, q: R.arr("v", i, j, q)), "alive_mask": gnp.ones((n,), dtype=bool), "alive_count": n}

        keep, S.svgd_step = S.svgd_step, gp.stand(S.svgd_step, step)
        o = S.SVGDOptions(n_steps=k, step_size=e, bandwidth=h, initial_temperature=a, final_temperature=b, annealing_schedule=schedule,
                          sampling_box=sb, progress=False, store_particles_history=True)
        try:
            y, info = S.svgd_sample(lambda q: sreal(R.arr("L", *toR(sarr(q).elem((I(),))).terms[next(iter(toR(sarr(q).elem((I(),))).terms))][1][1][0][0].args[:2])), Y(I()), options=o)
        finally:
            S.svgd_step = keep
        run.eq("result", y, Y(toI(k)))
        run.eq("reported", info["particles_final"], Y(toI(k)))
        run.eq("history", info["particles_history"], fn((k + 1, n, d), lambda i, p, q: R.arr("Y", i, p, q)))
        run.eq("log-probabilities", info["log_prob_trace"], fn((k, n), lambda i, j: R.arr("l", i, j)))
        run.eq("bandwidths", info["bandwidth_trace"], fn((k,), lambda i: R.arr("w", i)))
        run.eq("temperatures", info["temperature_trace"], fn((k,), temp))
        run.eq("final-log-probabilities", info["log_prob_final"], fn((n,), lambda j: R.arr("L", toI(k), j)))

    task.__name__ = "sample_any_number_%s%s" % (schedule, "_box" if box else "")
    task.closing = True
    return task


def _cases():
    K = ("value", "failure", "nan", "-inf", "inf")
    out = [(a,) for a in K] + list(itertools.product(K, repeat=2)) + [("value", "value", "value"), ("value", "nan", "value"), ("failure", "value", "value"), ("-inf", "value", "nan")]
    return out


TASKS = [kernel("plain"), kernel("bounded"), step_any("none"), step_any_dead(False, False), step_any_dead(True, False), step_any_dead(True, True), sample_any("linear"), sample_any("linear", True)] + [step(s, 0, "none") for s in _cases()] + [
    step(s, b, "none") for s in (("value",), ("nan",), ("value", "failure")) for b in (1, 2)] + [project] + [temperature("linear")] + [
    sample(k, b) for k in (0, 1, 2, 3) for b in (False, True)]
