"""Metropolis-Hastings: one step and the recording of steps (C21)."""
import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, ite, rlog, rsum
from ..gp import fn
from ..terms import FALSE, I, R, TRUE, ZERO, bnot, ieq, ile, ilt, rlt0, rle0, toI
from .c19 import same

FUNCTIONS = ["mcmc.mh.MetropolisHastings." + f for f in ("mhstep", "run_samples", "_log_prop", "_get_cov_parameter", "default_prop_rnd")]
INF = float("inf")
KINDS = ("value", "failure", "nan", "-inf")


def target_name(p):
    return "L|" + gp.thetakey(p)


def lval(p):
    """The abstract log-target at p."""
    return R.arr(target_name(p))


def uniform(log):
    def drawer(kind, shape):
        if kind not in ("uniform", "rand"):
            return None
        k = len(log)
        u = R.arr("u%d" % k)
        ctx().assume(rlt0(R.num(1e-300) - u))
        ctx().assume(rlt0(u - R.num(1)))
        log.append(u)
        return fn(shape, lambda *ix: u)

    return drawer


def logratio(lx, ly, kx, ky, corr):
    """Condition under which the proposal is to be accepted, as a function of log u."""
    if "nan" in (kx, ky):
        return lambda lu: FALSE
    if ky in ("-inf", "failure"):
        return lambda lu: FALSE  # -inf, or -inf - (-inf) undefined
    if kx in ("-inf", "failure"):
        return lambda lu: TRUE
    return lambda lu: rlt0(lu - (ly - lx + corr))


def value_of(kind, p):
    if kind == "failure":
        raise ZeroDivisionError("the target cannot be evaluated")
    return float(kind) if kind != "value" else sreal(lval(p))


def is_value(got, kind, p):
    if kind in ("failure", "-inf"):
        return got == -INF if not hasattr(got, "shp") else same(got, sreal(toR(-INF)))
    if kind == "nan":
        import gpmp.num as gnp

        return bool(gnp.isnan(got))
    return run.holds_eq(sreal(toR(got)), sreal(lval(p)))


def step(kx, ky, sym, given):
    def task():
        import gpmp.mcmc.mh as M

        d, c = run.integer("d", 1), run.integer("c", 0)
        x, y = gp.mk("x", (d,)), gp.mk("y", (d,))
        seen, log = [], []

        def target(p):
            if same(p, x):
                return value_of(kx, x)
            run.true("target-at-state-or-proposal", same(p, y))
            return value_of(ky, y)

        def prop(a, k):
            seen.append((a, k))
            return y

        ctx().ghost["drawer"] = uniform(log)
        m = M.MetropolisHastings(target, prop_rnd=prop, options=M.MHOptions(dim=d, n_chains=3, symmetric=sym))
        m._log_prop = gp.stand(m._log_prop, lambda a, e, k: sreal(R.arr("q|%s|%s" % (gp.thetakey(a), gp.thetakey(e)))))
        arg = None if given == "none" else float("nan") if given == "nan" else value_of(kx, x)
        state, acc, nxt, prev = m.mhstep(x, c, arg)
        run.true("one-uniform-draw", len(log) == 1)
        run.true("one-proposal", len(seen) == 1)
        run.eq("proposed-from-the-state", seen[0][0], x)
        run.true("proposed-for-the-chain", seen[0][1] is c)
        kq = lambda a, e: R.arr("q|%s|%s" % (gp.thetakey(a), gp.thetakey(e)))
        corr = ZERO if sym else kq(y, x) - kq(x, y)
        cond = logratio(lval(x), lval(y), kx, ky, corr)(rlog(log[0]))
        acc = bool(acc)
        run.true("accepted-by-the-rule" if acc else "rejected-by-the-rule", cond if acc else bnot(cond))
        run.eq("state", state, y if acc else x)
        run.true("value-of-the-state", is_value(nxt, ky if acc else kx, y if acc else x))
        run.true("value-before", is_value(prev, kx, x))

    task.__name__ = "step_%s_%s_%s_%s" % (kx, ky, "sym" if sym else "asym", given)
    return task


def correction():
    """The proposal density is the normal density of the new state around the old one, with the chain's covariance."""
    import gpmp.mcmc.mh as M
    import gpmp.num as gnp

    d = run.integer("d", 1)
    x, y = gp.mk("x", (d,)), gp.mk("y", (d,))
    seen = []

    class mvn:
        @staticmethod
        def logpdf(v, mean=None, cov=None):
            seen.append((v, mean, cov))
            return sreal(R.arr("lp"))

    keep, gnp.multivariate_normal = gnp.multivariate_normal, mvn
    try:
        m = M.MetropolisHastings(lambda p: 0.0, options=M.MHOptions(dim=d, n_chains=3, symmetric=False))
        m.proposal_distribution_params = [gp.mk("p0", (d,)), gp.mk("P1", (d, d)), 2.0]
        from ..core import ind

        for c, want in ((0, fn((d, d), lambda i, j: ind(ieq(i, j)) * R.arr("p0", i))), (1, gp.mk("P1", (d, d))), (2, fn((d, d), lambda i, j: ind(ieq(i, j)).scale(2)))):
            run.eq("value", sreal(toR(m._log_prop(x, y, c))), sreal(R.arr("lp")))
            v, mean, cov = seen[-1]
            run.eq("new-state", v, y)
            run.eq("centre", mean, x)
            run.eq("covariance", cov, want)
    finally:
        gnp.multivariate_normal = keep


def record(ch, steps, first):
    """From an arbitrary aligned history of any length, further steps keep the history aligned."""
    def task():
        ctx().ghost["bounded"] = "one to three chains, blocks of one or two steps"
        import gpmp.mcmc.mh as M
        import gpmp.num as gnp

        d, g, room = run.integer("d", 1), 0 if first else run.integer("g", 1), run.integer("room", 0)
        N = g + steps + 1 + room
        xs, acc = gp.mk("xs", (ch, N, d)), gp.mk("acc", (ch, N))
        m = M.MetropolisHastings(None, options=M.MHOptions(dim=d, n_chains=ch, show_global_progress=False))
        props, calls = {}, []

        def mhstep(a, c, log_target_x_current=None):
            """Contract of mhstep: state or proposal, with its log-target value."""
            i = len(calls)
            was = log_target_x_current
            run.true("previous-value-handed-on", _undefined(was) if (first and i < ch) else run.holds_eq(sreal(toR(was)), sreal(lval(a))))
            calls.append((c, a.copy()))
            y = gp.mk("y%d" % i, (d,))
            if ctx().choose_free("accept%d" % i):
                return y, True, sreal(lval(y)), sreal(lval(a))
            return a, False, sreal(lval(a)), sreal(lval(a))

        m.mhstep = gp.stand(m.mhstep, mhstep)
        m.x, m.accept = xs.copy(), acc.copy()
        G = toI(g)
        row = lambda c, t: fn((d,), lambda j: toR(xs.elem((c, t, j))))
        if first:
            m.log_target_values = gnp.full((ch, N), gnp.nan)
        else:
            m.log_target_values = fn((ch, N), lambda c, t: R.arr("ltv", c, t))
            for c in range(ch):
                m.log_target_values[c, g] = sreal(lval(row(I((), c), G)))
        m.global_iter = g
        rates = m.run_samples(steps)
        run.true("steps-counted", ieq(toI(m.global_iter), toI(g + steps)))
        run.true("one-step-per-chain-and-time", len(calls) == ch * steps)
        state = {c: row(I((), c), G) for c in range(ch)}
        flags = {c: [] for c in range(ch)}
        used = {c: 0 for c in range(ch)}
        for i, (c, a) in enumerate(calls):
            used[c] += 1
            t = g + used[c]
            run.eq("from-the-chain's-previous-state", a, state[c])
            took = ("accept%d=True" % i) in ctx().notes
            state[c] = gp.mk("y%d" % i, (d,)) if took else state[c]
            flags[c].append(took)
            run.eq("recorded-state", m.x[c, t], state[c])
            run.eq("recorded-acceptance", sreal(toR(m.accept[c, t])), sreal(R.num(int(took))))
            run.eq("recorded-value", sreal(toR(m.log_target_values[c, t])), sreal(lval(state[c])))
        for c in range(ch):
            run.true("every-chain-advances", used[c] == steps)
            run.eq("value-before", sreal(toR(m.log_target_values[c, g])), sreal(lval(row(I((), c), G))))
            run.eq("block-rate", sreal(toR(rates[c])), sreal(R.num(sum(flags[c])) * R.num(1).scale(1) if steps == 1 else R.num(sum(flags[c])).scale(_half(steps))))

        def before(c, t, j=None):
            return ile(t, G)

        k = I.var("k!")
        ctx().assume(ile(I(), k))
        ctx().assume(ile(k, G))
        for c in range(ch):
            run.eq("earlier-states-kept", fn((d,), lambda j: toR(m.x.elem((I((), c), k, j)))), row(I((), c), k))
            run.eq("earlier-acceptances-kept", sreal(toR(m.accept.elem((I((), c), k)))), sreal(toR(acc.elem((I((), c), k)))))

    task.__name__ = "record_%d_%d_%s" % (ch, steps, "start" if first else "later")
    return task


def record_any(first):
    """Any number of chains and steps, after any aligned history: every chain follows its steps, recorded in order."""
    def task():
        import gpmp.mcmc.mh as M
        import gpmp.num as gnp

        c = ctx()
        c.ghost["summarise"] = True
        ch, d, g, n, room = run.integer("ch", 1), run.integer("d", 1), 0 if first else run.integer("g", 0), run.integer("n", 1), run.integer("room", 0)
        N, G = g + n + 1 + room, toI(g)
        empty = gnp.full((ch, N), gnp.nan)

        def upto(name, *rest, before=None):
            """The array holding the entries of the history up to the step at position p, others as they were."""
            was = (lambda *ix: toR(before.elem(ix))) if before is not None else lambda *ix: R.arr(name + "0", *ix)
            return lambda p: fn((ch, N) + rest, lambda i, t, *j: ite(ile(t, G.add(toI(p))), lambda: R.arr(name, i, t, *j), lambda: was(i, t, *j)))

        X, A, V = upto("S", d), upto("A"), upto("V", before=empty if first else None)
        c.ghost["trajectories"] = [X, A, V]
        row = lambda i, t: fn((d,), lambda j: R.arr("S", i, t, j))
        one = I((), 1)

        def mhstep(a, i, log_target_x_current=None):
            """Contract of mhstep: the next state of the chain, whether it moved, the values there and before."""
            (_, (_, ats)), = toR(a.elem((I(),))).terms.values()
            k, t = ats[0][0].args[:2]
            run.true("chain", ieq(k, toI(i)))
            run.eq("from-a-state-of-the-chain", a, row(k, t))
            if first and t.const == 0:
                run.true("no-value-yet", c.ghost.get("tentative") or _undefined(log_target_x_current))
            else:
                run.eq("previous-value-handed-on", sreal(toR(log_target_x_current)), sreal(R.arr("V", k, t)))
            return row(k, t.add(one)), sreal(R.arr("A", k, t.add(one))), sreal(R.arr("V", k, t.add(one))), sreal(R.arr("V", k, t))

        m = M.MetropolisHastings(None, options=M.MHOptions(dim=d, n_chains=2, show_global_progress=False))
        m.n_chains, m.mhstep = ch, mhstep
        m.x, m.accept, m.log_target_values, m.global_iter = X(I()), A(I()), empty.copy() if first else V(I()), g
        rates = m.run_samples(n)
        run.true("steps-counted", ieq(toI(m.global_iter), toI(g + n)))
        run.eq("recorded-states", m.x, X(toI(n)))
        run.eq("recorded-acceptances", m.accept, A(toI(n)))
        run.eq("recorded-values", m.log_target_values, V(toI(n)))
        run.eq("block-rates", rates, fn((ch,), lambda i: toR(sreal(rsum(toI(n), lambda k: R.arr("A", i, k.add(G).add(one)))) / sreal(R.ofI(toI(n))))))

    task.__name__ = "record_any_%s" % ("start" if first else "later")
    task.closing = True
    return task


def _half(n):
    from ..terms import Fraction

    return Fraction(1, n)


def _undefined(v):
    import gpmp.num as gnp

    return v is None or bool(gnp.isnan(v))


TASKS = [step(kx, ky, s, "none") for kx in KINDS for ky in KINDS for s in (True, False)] + [
    step("value", "value", s, g) for s in (True, False) for g in ("nan", "given")] + [correction, record_any(True), record_any(False)] + [
    record(ch, st, f) for ch in (1, 2, 3) for st in (1, 2) for f in (True, False)]
