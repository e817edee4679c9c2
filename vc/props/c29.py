"""Targets, boxes and starting points handed to the samplers (C29)."""
import itertools
import types

from .. import gp, run
from ..arr import SArr, forall, sarr, sreal, toR
from ..core import ctx, rinv, rite
from ..gp import fn
from ..terms import I, R, band, bnot, fresh_uid, ieq, ile, ilt, rle0, rlt0, toI
from .c19 import same
from .c20 import position

FUNCTIONS = ["mcmc.param_posterior." + f for f in (
    "_resolve_selection_criterion", "_infer_dim", "_normalize_bounds", "_normalize_initial_states", "_random_initial_states",
    "_make_log_prob_mh", "_make_log_prob_nuts", "get_log_target_values", "sample_from_selection_criterion_mh",
    "sample_from_selection_criterion_nuts", "sample_from_selection_criterion_smc", "sample_from_selection_criterion_svgd")]
INF = float("inf")
QUIET = dict(silent=True, show_progress=False, plot_chains=False, plot_empirical_distributions=False)


class Stop(Exception):
    pass


def capture(f, **kw):
    """What the front end hands to its sampler (the samplers are under contract in C21-C24)."""
    import gpmp.mcmc.param_posterior as P

    got = {}

    class MH:
        def __init__(self, log_target=None, options=None, **k):
            got.update(log_prob=log_target, options=options)

        def scheduler(self, chains_state_initial=None, **k):
            got.update(k, start=chains_state_initial)
            raise Stop()

    def sampler(log_prob=None, q_init=None, logpdf_parameterized_function=None, **k):
        got.update(k, log_prob=log_prob if log_prob is not None else logpdf_parameterized_function, start=q_init)
        raise Stop()

    names = ("MetropolisHastings", "nuts_sample", "run_smc_sampling", "svgd_sample")
    old = {k: getattr(P, k) for k in names}
    for k in names:
        setattr(P, k, MH if k == names[0] else sampler)
    try:
        getattr(P, "sample_from_selection_criterion_" + f)(**kw)
    except Stop:
        pass
    finally:
        for k in names:
            setattr(P, k, old[k])
    run.true("sampler-reached", "log_prob" in got)
    return got


def info_of(J, d):
    return types.SimpleNamespace(covparam=gp.vector("theta0", d), selection_criterion=J, selection_criterion_nograd=J)


def minus_inf(v):
    if isinstance(v, SArr):
        return same(sreal(toR(v)), sreal(toR(-INF)))
    return v == -INF


def target(kind, where, crit):
    """Value of the target at a point inside or outside the box, in any dimension."""

    def task():
        c = ctx()
        d = run.integer("d", 1)
        p, lo, hi = gp.vector("p", d), gp.vector("lo", d), gp.vector("hi", d)
        T = run.real("T", 0.0) if kind in ("mh", "smc") else None
        val = R.arr("J")
        at = lambda v, k: toR(v.elem((k,)))
        if where == "inside":
            for a, b in ((lo, p), (p, hi)):
                u = fresh_uid()
                c.assume(forall(u, toI(d), rle0(at(a, I.bv(u)) - at(b, I.bv(u)))))
        elif where != "free":
            w = I.var("w")
            c.assume(band(ile(I(), w), ilt(w, toI(d)), rlt0(at(p, w) - at(lo, w)) if where == "below" else rlt0(at(hi, w) - at(p, w))))
            c.at(w)

        def J(q):
            run.eq("criterion-at-the-point", q, p)
            if crit == "failure":
                raise ValueError("criterion fails")
            return float("nan") if crit == "nan" else sreal(val)

        kw = {"info": info_of(J, d), "sampling_box": None if where == "free" else [lo, hi]}
        if kind == "mh":
            got = capture("mh", temperature=T, n_steps_total=8, burnin_period=3, **kw, **QUIET)
            run.true("steps", got["n_steps_total"] == 8 and got["burnin_period"] == 3)
        elif kind == "smc":
            got = capture("smc", init_box=[gp.vector("li", d), gp.vector("ui", d)], final_temperature=1.5, **kw)
            run.true("temperatures", got["initial_logpdf_param"] == 1e6 and got["target_logpdf_param"] == 1.5)
        else:
            got = capture(kind, **kw)
        r = got["log_prob"](p, T) if kind == "smc" else got["log_prob"](p)
        if where in ("below", "above") or crit == "failure":
            run.true("minus-infinity", minus_inf(r))
        elif crit == "nan":
            import gpmp.num as gnp

            run.true("not-a-number", bool(gnp.isnan(r)))
        else:
            run.eq("minus-criterion-over-temperature", sreal(toR(r)), sreal((val * rinv(toR(T)) if T is not None else val).neg()))

    task.__name__ = "target_%s_%s_%s" % (kind, where, crit)
    return task


def cloud(n, d, crit):
    """SMC targets of a cloud: row by row."""

    def task():
        ctx().ghost["bounded"] = n
        X = gp.mk("x", (n, d))
        lo, hi = gp.vector("lo", d), gp.vector("hi", d)
        T = run.real("T", 0.0)
        at = lambda v, k: toR(v.elem((I((), k),)))

        def J(q):
            for i in range(n):
                if same(q, fn((d,), lambda k: toR(X.elem((I((), i), k))))):
                    break
            else:
                run.true("criterion-at-a-row", False)
            if crit[i] == "failure":
                raise ValueError("criterion fails")
            return sreal(R.arr("J%d" % i))

        got = capture("smc", info=info_of(J, d), sampling_box=[lo, hi], init_box=[gp.vector("li", d), gp.vector("ui", d)])
        r = sarr(got["log_prob"](X, T))
        run.same_shape("values", r, (I((), n),))
        for i in range(n):
            e = lambda k: toR(X.elem((I((), i), I((), k))))
            inside = band(*[b for k in range(d) for b in (rle0(at(lo, k) - e(k)), rle0(e(k) - at(hi, k)))])
            out = not ctx().branch(inside)
            v = sreal(toR(r.elem((I((), i),))))
            if out or crit[i] == "failure":
                run.true("minus-infinity", minus_inf(v))
            else:
                run.eq("minus-criterion-over-temperature", v, sreal((R.arr("J%d" % i) * rinv(toR(T))).neg()))

    task.__name__ = "cloud_%d_%d_%s" % (n, d, "".join(c[0] for c in crit))
    return task


def cloud_any(boxed):
    """SMC targets of a cloud of any number of rows, the criterion being defined or failing at any of them."""

    def task():
        c = ctx()
        c.ghost["summarise"] = True
        n, d = run.integer("n", 1), run.integer("d", 1)
        X = gp.mk("x", (n, d))
        lo, hi = gp.vector("lo", d), gp.vector("hi", d)
        T = run.real("T", 0.0)
        failing = lambda k: rle0(R.arr("f", k))
        at = lambda v, k: toR(v.elem((k,)))

        def J(q):
            i = position(q.elem((I(),)))
            run.eq("criterion-at-a-row", q, fn((d,), lambda k: toR(X.elem((i, k)))))
            if c.branch(failing(i)):
                raise ValueError("criterion fails")
            return sreal(R.arr("J", i))

        got = capture("smc", info=info_of(J, d), sampling_box=[lo, hi] if boxed else None, init_box=[gp.vector("li", d), gp.vector("ui", d)])
        r = sarr(got["log_prob"](X, T))
        run.same_shape("values", r, (toI(n),))

        def want(i):
            u, w = fresh_uid(), fresh_uid()
            e = lambda k: toR(X.elem((i, k)))
            ok = bnot(failing(i))
            if boxed:
                ok = band(ok, forall(u, toI(d), rle0(at(lo, I.bv(u)) - e(I.bv(u)))), forall(w, toI(d), rle0(e(I.bv(w)) - at(hi, I.bv(w)))))
            return rite(ok, (R.arr("J", i) * rinv(toR(T))).neg(), toR(-INF))

        run.eq("minus-criterion-over-temperature", r, fn((n,), want))

    task.__name__ = "cloud_any" + ("_box" if boxed else "")
    task.closing = True
    return task


def bounds(lower, upper):
    def task():
        import gpmp.mcmc.param_posterior as P

        d = run.integer("d", 1)
        give = {"scalar": lambda k: run.real(k), "one": lambda k: [run.real(k)], "vector": lambda k: gp.vector(k, d)}
        lo, hi = give[lower]("lo"), give[upper]("hi")
        a, b, a_np, b_np = P._normalize_bounds([lo, hi], d)
        for got, v, form in ((a, lo, lower), (a_np, lo, lower), (b, hi, upper), (b_np, hi, upper)):
            run.eq("bound", got, v if form == "vector" else fn((d,), lambda k: toR(v[0] if form == "one" else v)))

    task.__name__ = "bounds_%s_%s" % (lower, upper)
    return task


def refused():
    import gpmp.mcmc.param_posterior as P

    d = run.integer("d", 2)
    m = run.integer("m", 2)
    ctx().assume(ilt(m.i, d.i))
    for box in ([gp.vector("lo", m), gp.vector("hi", d)], [0.0], 3.0):
        try:
            P._normalize_bounds(box, d)
            run.true("inconsistent-box-refused", False)
        except ValueError:
            run.true("inconsistent-box-refused", True)
    for make in (P._make_log_prob_mh, P._make_log_prob_nuts):
        for T in (0.0, -1.0):
            try:
                make(lambda p: 0.0, None, None, T)
                run.true("temperature-refused", False)
            except ValueError:
                run.true("temperature-refused", True)


def starts(kind, form, known):
    def task():
        d, n = run.integer("d", 1), run.integer("n", 1)
        c = ctx()
        if form == "scalar":
            d = 1
        if form == "columns":
            # told apart from the other shapes
            if c.branch(ieq(toI(d), toI(n))):
                return
            if not known and (c.branch(ieq(toI(d), I((), 1))) or c.branch(ieq(toI(n), I((), 1)))):
                return
        J = lambda p: 0.0
        one, each = gp.vector("one", d), gp.mk("each", (n, d))
        S = {
            "info": None, "vector": one, "row": one.reshape(1, -1), "each": each, "columns": each.T,
            "scalar": toscalar(one) if form == "scalar" else None,
        }[form]
        kw = {"selection_criterion": J}
        if known or form == "info":
            x0 = one if form == "info" else gp.vector("other", d)
            kw = {"info": types.SimpleNamespace(covparam=x0, selection_criterion=J)}
        if kind == "mh":
            got = capture("mh", param_initial_states=S, n_chains=n, n_steps_total=8, burnin_period=3, **kw, **QUIET)
        else:
            got = capture("nuts", param_initial_states=S, n_chains=n, **kw)
        want = each if form in ("each", "columns") else fn((n, d), lambda i, k: toR(one.elem((k,))))
        run.eq("states", got["start"], want)

    task.__name__ = "starts_%s_%s%s" % (kind, form, "_info" if known else "")
    return task


def toscalar(v):
    r = toR(v.elem((I(),)))
    x = SArr((), lambda ix: r, "f")
    x.meta = {"py": 1}
    return x


def random_starts():
    d, n = run.integer("d", 1), run.integer("n", 1)
    lo, hi = gp.vector("lo", d), gp.vector("hi", d)
    u = gp.mk("u", (n, d))
    ctx().ghost["drawer"] = lambda kind, shape: u if kind == "uniform" else None
    got = capture("mh", selection_criterion=lambda p: 0.0, random_init=True, init_box=[lo, hi], n_chains=n, n_steps_total=8, burnin_period=3, **QUIET)
    e = lambda v, k: toR(v.elem((k,)))
    run.eq("states", got["start"], fn((n, d), lambda i, k: e(lo, k) + toR(u.elem((i, k))) * (e(hi, k) - e(lo, k))))


def stored():
    import gpmp.mcmc.param_posterior as P

    c, n = run.integer("c", 1), run.integer("n", 1)
    b = run.integer("b", 0, n.i)
    V = gp.mk("V", (c, n))
    mh = types.SimpleNamespace(log_target_values=V, burnin_period=b)
    run.eq("all", P.get_log_target_values(mh), V)
    run.eq("after-burn-in", P.get_log_target_values(mh, discard_burnin=True), fn((c, n - b), lambda i, k: toR(V.elem((i, k.add(b.i))))))


TASKS = (
    [target(k, w, c) for k in ("mh", "nuts", "svgd", "smc") for w in ("inside", "below", "above", "free") for c in ("value", "failure", "nan") if not (c == "nan" and k == "smc")]
    + [cloud(n, d, c) for n, d in ((1, 1), (2, 1), (2, 2)) for c in itertools.product(("value", "failure"), repeat=n)]
    + [cloud_any(False), cloud_any(True)]
    + [bounds(a, b) for a in ("scalar", "one", "vector") for b in ("scalar", "one", "vector")]
    + [refused, stored, random_starts]
    + [starts(k, f, i) for k in ("mh", "nuts") for f in ("info", "vector", "row", "each", "columns", "scalar") for i in (False, True)]
)
