"""Log-densities and starting points handed to the samplers."""
import types

import numpy as np

import gpmp.num as gnp
from gpmp.mcmc import param_posterior as P

from .core import check, np_
from .gpx import A

INF = float("inf")


class Stop(Exception):
    pass


def capture(t, **stubs):
    """Run a sampler front end up to the sampler itself and return what it is given."""
    got = {}

    class MH:
        def __init__(self, log_target=None, options=None, **kw):
            got.update(log_prob=log_target, options=options)

        def scheduler(self, chains_state_initial=None, **kw):
            got.update(start=chains_state_initial, **kw)
            raise Stop()

    def nuts(log_prob, q_init, **kw):
        got.update(kw, log_prob=log_prob, start=q_init)
        raise Stop()

    def smc(logpdf_parameterized_function=None, **kw):
        got.update(kw, log_prob=logpdf_parameterized_function)
        raise Stop()

    def svgd(log_prob=None, **kw):
        got.update(kw, log_prob=log_prob)
        raise Stop()

    old = P.MetropolisHastings, P.nuts_sample, P.run_smc_sampling, P.svgd_sample
    P.MetropolisHastings, P.nuts_sample, P.run_smc_sampling, P.svgd_sample = MH, nuts, smc, svgd
    try:
        stubs["f"](**stubs["kw"])
    except Stop:
        pass
    finally:
        P.MetropolisHastings, P.nuts_sample, P.run_smc_sampling, P.svgd_sample = old
    return got


QUIET = dict(silent=True, show_progress=False, plot_chains=False, plot_empirical_distributions=False)


def box_(t, name, d):
    """A box and one of the shapes it may be given in."""
    lo, hi = -np.exp(t.rng.normal(size=d)), np.exp(t.rng.normal(size=d))
    form = t.pick(name, ["vectors", "lists", "tensors", "scalars", "scalar lower", "scalar upper", "one lower"])
    if form in ("scalars", "scalar lower", "one lower"):
        lo[:] = lo[0]
    if form in ("scalars", "scalar upper"):
        hi[:] = hi[0]
    t.put(**{name + " lower": lo, name + " upper": hi})
    f = {
        "vectors": (lo, hi), "lists": (lo.tolist(), hi.tolist()), "tensors": (A(lo), A(hi)), "scalars": (float(lo[0]), float(hi[0])),
        "scalar lower": (float(lo[0]), hi.tolist()), "scalar upper": (lo.tolist(), float(hi[0])), "one lower": ([float(lo[0])], hi.tolist()),
    }[form]
    return (list(f) if t.pick(name + " container", ["list", "tuple"]) == "list" else tuple(f)), lo, hi, form == "scalars"


def value(v):
    return float(np_(v).reshape(()))


@check(120)
def targets(t):
    d = t.size("d", 1, 4, 9)
    kind = t.pick("sampler", ["mh", "nuts", "smc", "svgd"])
    c = t.rng.normal(size=d)
    limit = float(t.rng.normal())
    fails = t.pick("criterion", ["total", "fails", "not a number"])
    t.put(centre=c, limit=limit)

    def J(p):
        if fails == "fails" and float(p[0]) > limit:
            raise np.linalg.LinAlgError("not positive definite")
        v = gnp.sum((gnp.asarray(p) - A(c)) ** 2)
        return v * gnp.nan if fails == "not a number" and float(p[0]) > limit else v

    sb, lo, hi, _ = box_(t, "sampling box", d)
    if t.pick("boxed", [True, True, False]) is False:
        sb = None
    ib, li, hi_, scal = box_(t, "init box", d)
    T = float(t.pick("temperature", [1.0, 0.25, 7.0]))
    info = t.pick("info", [True, False]) or scal
    how = {"info": types.SimpleNamespace(covparam=A(c), selection_criterion=J, selection_criterion_nograd=J)} if info else {"selection_criterion": J}
    n = 3
    if kind == "mh":
        got = capture(t, f=P.sample_from_selection_criterion_mh, kw=dict(how, sampling_box=sb, temperature=T, random_init=True, init_box=ib, n_chains=n, n_steps_total=8, burnin_period=3, **QUIET))
        t.true("steps handed on", got["n_steps_total"] == 8 and got["burnin_period"] == 3)
    elif kind == "nuts":
        T = 1.0
        got = capture(t, f=P.sample_from_selection_criterion_nuts, kw=dict(how, sampling_box=sb, random_init=True, init_box=ib, n_chains=n))
    elif kind == "smc":
        got = capture(t, f=P.sample_from_selection_criterion_smc, kw=dict(how, sampling_box=sb, init_box=ib, n_particles=n, initial_temperature=50.0, final_temperature=T))
        t.true("temperatures handed on", got["initial_logpdf_param"] == 50.0 and got["target_logpdf_param"] == T)
        b = got["init_box"]
        t.close("initialization box", np.broadcast_to(np_(b[0]), (d,)), li, 1e-12, 0)
        t.close("initialization box", np.broadcast_to(np_(b[1]), (d,)), hi_, 1e-12, 0)
    else:
        T = 1.0
        got = capture(t, f=P.sample_from_selection_criterion_svgd, kw=dict(how, sampling_box=sb, random_init=True, init_box=ib, n_particles=n))
        t.true("dimension handed on", got["dim"] == d and got["n_particles"] == n)
    if "start" in got:
        x = np_(got["start"])
        t.shape("random starts", x, (n, d))
        t.true("random starts in the initialization box", bool(((x >= li - 1e-12) & (x <= hi_ + 1e-12)).all()), x=x)
    f = got["log_prob"]
    pts = []
    for k in range(6):
        p = (lo + (hi - lo) * t.rng.uniform(size=d)) if k < 2 else lo + (hi - lo) * t.rng.uniform(-0.3, 1.3, size=d)
        j = int(t.rng.integers(d))
        if k == 2:
            p = lo + (hi - lo) * t.rng.uniform(size=d)
            p[j] = lo[j]
        if k == 3:
            p = lo + (hi - lo) * t.rng.uniform(size=d)
            p[j] = hi[j]
        if k == 4:
            p = lo + (hi - lo) * t.rng.uniform(size=d)
            p[j] = (lo - 0.2)[j] if t.rng.integers(2) else (hi + 0.2)[j]
        pts.append(p)
    t.put(points=pts)
    want = []
    for p in pts:
        inside = sb is None or bool(((p >= lo) & (p <= hi)).all())
        if not inside or (fails == "fails" and p[0] > limit):
            want.append(-INF)
        elif fails == "not a number" and p[0] > limit:
            want.append(float("nan"))
        else:
            want.append(-float(((p - c) ** 2).sum()) / T)

    def same(what, v, w, p):
        ok = (np.isnan(v) or v == -INF) if np.isnan(w) else (v == w if w == -INF else abs(v - w) <= 1e-9 * (1 + abs(w)))
        t.true(what, bool(ok), point=p, got=v, want=w)

    for p, w in zip(pts, want):
        same("log-density", value(f(A(p), T) if kind == "smc" else f(A(p))), w, p)
    if kind == "smc":
        vals = np_(f(A(np.array(pts)), T)).reshape(-1)
        t.shape("log-densities of a cloud", vals, (len(pts),))
        for p, v, w in zip(pts, vals, want):
            same("log-density in a cloud", float(v), w, p)


@check(80)
def starts(t):
    kind = t.pick("sampler", ["mh", "nuts"])
    d, n = t.size("d", 1, 4, 9), t.size("n_chains", 1, 4, 12)
    one, each = t.rng.normal(size=d), t.rng.normal(size=(n, d))
    form = t.pick("given as", ["info", "vector", "row", "each", "columns", "scalar"])
    if form == "scalar":
        d, one = 1, one[:1]
    known = form == "info" or t.pick("info", [True, False])
    if form == "columns" and d == n:
        d = n + 1
        each = t.rng.normal(size=(n, d))
    if form == "columns" and d == 1:
        known = True  # otherwise read as one state
    if form == "columns" and n == 1 and d > 1:
        known = True
    centre = one if form == "info" else t.rng.normal(size=d)
    t.put(d=d, one=one, each=each, known=known)
    S = {"info": None, "vector": one, "row": one[None], "each": each, "columns": each.T, "scalar": float(one[0])}[form]
    want = each if form in ("each", "columns") else np.tile(one, (n, 1))
    if S is not None and form != "scalar" and t.pick("tensor", [True, False]):
        S = A(np.ascontiguousarray(S))
    J = lambda p: gnp.sum(p**2)
    kw = {"info": types.SimpleNamespace(covparam=A(centre), selection_criterion=J, selection_criterion_nograd=J)} if known else {"selection_criterion": J}
    if kind == "mh":
        got = capture(t, f=P.sample_from_selection_criterion_mh, kw=dict(kw, param_initial_states=S, n_chains=n, n_steps_total=8, burnin_period=3, **QUIET))
    else:
        got = capture(t, f=P.sample_from_selection_criterion_nuts, kw=dict(kw, param_initial_states=S, n_chains=n))
    t.close("states of the chains", got["start"], want, 1e-12, 0)
    t.shape("states of the chains", got["start"], (n, d))


@check(40)
def clouds(t):
    """Stein particles: start from the given cloud, brought into the sampling box."""
    d, n = t.size("d", 1, 3, 9), t.size("n", 2, 5)
    X = 2 * t.rng.normal(size=(n, d))
    form = t.pick("given as", ["cloud", "vector", "info"])
    sb, lo, hi, _ = box_(t, "sampling box", d)
    boxed = t.pick("boxed", [True, False])
    t.put(X=X)
    J = lambda p: gnp.sum(p**2)
    kw = {"info": types.SimpleNamespace(covparam=A(X[0]), selection_criterion=J)} if form == "info" else {"selection_criterion": J}
    got = capture(t, f=P.sample_from_selection_criterion_svgd, kw=dict(
        kw, particles_initial={"cloud": A(X), "vector": A(X[0]), "info": None}[form], n_particles=n, init_jitter=0.0, sampling_box=sb if boxed else None))
    want = X if form == "cloud" else np.tile(X[0], (n, 1))
    want = np.clip(want, lo, hi) if boxed else want
    t.close("particles", got["particles_initial"], want, 1e-12, 0)
    t.true("sizes", got["n_particles"] == n and got["dim"] == d)


@check(20)
def stored_values(t):
    c, n, b = t.size("chains", 1, 3), t.size("steps", 1, 8, 40), 0
    V = t.rng.normal(size=(c, n))
    b = int(t.rng.integers(0, n + 1))
    t.put(V=V, burnin=b)
    mh = types.SimpleNamespace(log_target_values=A(V), burnin_period=b)
    t.same("all", np_(P.get_log_target_values(mh)), V)
    t.same("after burn-in", np_(P.get_log_target_values(mh, discard_burnin=True)), V[:, b:])
    t.raises("missing", ValueError, lambda: P.get_log_target_values(types.SimpleNamespace()))


@check(20)
def refused(t):
    J = lambda p: gnp.sum(p**2)
    T = t.pick("temperature", [0.0, -1.0])
    for make in (P._make_log_prob_mh, P._make_log_prob_nuts):
        t.raises("temperature", ValueError, lambda: make(J, None, None, T))
    t.raises("two criteria", ValueError, lambda: P.sample_from_selection_criterion_mh(info=types.SimpleNamespace(covparam=A(np.zeros(1)), selection_criterion=J), selection_criterion=J))
    t.raises("no criterion", ValueError, lambda: P.sample_from_selection_criterion_mh())
