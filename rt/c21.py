"""Metropolis-Hastings: acceptance rule, recorded states and log-target values."""
import contextlib
import io
import math

import numpy as np

import gpmp.num as gnp
from gpmp.mcmc import mh as M

from .core import Skip, check, np_


@contextlib.contextmanager
def draws(log, script=None):
    """Record (or replace) the uniform draws."""
    keep = gnp.rand

    def rand(*a, **k):
        if script is not None and not a and not k:
            v = gnp.asarray(script.pop(0)).reshape(())
            log.append(float(np_(v)))
            return v
        v = keep(*a, **k)
        log.extend(np_(v).reshape(-1).tolist())
        return v

    gnp.rand = rand
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        gnp.rand = keep


def lognormal(x, m, C):
    r = np.linalg.solve(C, x - m)
    return float(-0.5 * (x - m) @ r - 0.5 * np.linalg.slogdet(2 * math.pi * C)[1])


class Target:
    """A log-density with regions where it fails, is -inf or NaN."""

    def __init__(self, t, d):
        self.c = t.rng.normal(size=d)
        self.hole = t.pick("hole", ["none", "none", "fail", "-inf", "nan"])

    def value(self, x):
        if self.hole != "none" and x[0] > self.c[0] + 0.6:
            return float("nan") if self.hole == "nan" else float("-inf")
        return float(-0.5 * ((x - self.c) ** 2).sum() - 0.2 * np.abs(x).sum())

    def __call__(self, x):
        x = np_(x).reshape(-1)
        if self.hole == "fail" and x[0] > self.c[0] + 0.6:
            raise np.linalg.LinAlgError("singular")
        return gnp.asarray(self.value(x)).reshape(())


def rule(u, lx, ly, corr=0.0):
    la = ly - lx + corr
    return math.log(max(u, 1e-300)) < la  # false for NaN


@check(150)
def step(t):
    d, ch = t.size("d", 1, 3), t.size("chains", 1, 3, 12)
    sym = t.pick("symmetric", [True, True, False])
    L = Target(t, d)
    x, y = t.rng.normal(size=d), t.rng.normal(size=d)
    if L.hole != "none" and t.pick("in hole", [True, False]):
        x[0], y[0] = (L.c[0] + 1.0, y[0]) if t.pick("which", [True, False]) else (x[0], L.c[0] + 1.0)
    c = int(t.rng.integers(ch))
    lx, ly = L.value(x), L.value(y)
    covs = [np.diag(t.rng.random(d) + 0.2) for _ in range(ch)]
    corr = 0.0
    if not sym:
        kind = t.pick("proposal", ["gaussian", "own"])
        b = t.rng.normal(size=d)
        own = lambda a, e: float(0.3 * b @ (e - a) - np.abs(a).sum())  # log q(e | a)
        corr = own(y, x) - own(x, y) if kind == "own" else 0.0
    la = ly - lx + corr
    mode = t.pick("u", ["near", "random", "zero"])
    u = float(t.rng.random()) if mode == "random" or not np.isfinite(la) else 0.0 if mode == "zero" else min(0.999999, math.exp(min(la, 0.0)) * t.pick("side", [0.999, 1.001]))
    seen = []

    def prop(a, k):
        seen.append((np.array(np_(a)), k))
        return gnp.asarray(y)

    given = t.pick("given", ["none", "value", "nan"])
    arg = {"none": None, "value": lx if not (L.hole == "fail" and lx == float("-inf")) else None, "nan": gnp.asarray(float("nan")).reshape(())}[given]
    t.put(x=x, y=y, u=u, lx=lx, ly=ly, corr=corr, given=given, u_mode=mode)
    m = M.MetropolisHastings(L, prop_rnd=prop, options=M.MHOptions(dim=d, n_chains=ch, symmetric=sym, init_msg=None))
    m.proposal_distribution_params = [gnp.asarray(C) for C in covs]
    if not sym and kind == "own":
        if not hasattr(m, "_log_prop"):
            raise Skip()
        m._log_prop = lambda a, e, k: own(np_(a), np_(e))
    log = []
    if arg is not None and given == "value":
        arg = gnp.asarray(arg).reshape(()) if t.pick("argument", ["array", "float"]) == "array" else float(arg)
    with draws(log, [u, u]):
        out = m.mhstep(gnp.asarray(x), c, arg)
    if len(log) != 1:
        raise Skip()
    state, acc, nxt, prev = out
    t.true("one proposal from the current state of the chain", len(seen) == 1 and np.array_equal(seen[0][0], x) and seen[0][1] == c)
    want = rule(log[0], lx, ly, corr)
    t.true("accepted by the Metropolis rule", bool(acc) == want, accepted=bool(acc), log_ratio=la, u=log[0])
    t.same("state", state, y if want else x)
    t.true("log-target of the state", np.array_equal(float(np_(nxt)), ly if want else lx, equal_nan=True), got=float(np_(nxt)))
    t.true("log-target before", np.array_equal(float(np_(prev)), lx, equal_nan=True), got=float(np_(prev)))


@check(60)
def gaussian_correction(t):
    d, ch = t.size("d", 1, 3), t.size("chains", 1, 3, 12)
    x, y = t.rng.normal(size=d), t.rng.normal(size=d)
    kind = t.pick("cov", ["vector", "matrix"])
    ps = []
    for _ in range(ch):
        B = t.rng.normal(size=(d, d))
        ps.append(t.rng.random(d) + 0.3 if kind == "vector" else B @ B.T + 0.5 * np.eye(d))
    c = int(t.rng.integers(ch))
    m = M.MetropolisHastings(lambda a: 0.0, options=M.MHOptions(dim=d, n_chains=ch, symmetric=False, init_msg=None))
    m.proposal_distribution_params = [gnp.asarray(p) for p in ps]
    t.put(x=x, y=y, params=ps, chain=c)
    C = np.diag(ps[c]) if kind == "vector" else ps[c]
    t.close("log proposal density", float(np_(m._log_prop(gnp.asarray(x), gnp.asarray(y), c))), lognormal(y, x, C), 1e-8)


@check(70)
def run(t):
    d, ch = t.size("d", 1, 3), t.size("chains", 1, 4, 12)
    burn, more = t.size("burnin", 0, 45, big=90), t.size("more", 1, 12, 130)
    sym = t.pick("symmetric", [True, True, False])
    L = Target(t, d)
    opt = M.MHOptions(
        dim=d, n_chains=ch, symmetric=sym, adaptation_method=t.pick("adaptation", ["Haario", "RM"]), adaptation_interval=t.pick("interval", [2, 3, 7]),
        freeze_adaptation=t.pick("freeze", [True, False]), discard_burnin=t.pick("discard", [True, False]), n_pool=t.pick("pool", [k for k in (1, 2, 3) if ch % k == 0]),
        sliding_rate_width=t.pick("width", [1, 5, 200]), show_global_progress=t.pick("progress", [True, False]), progress_interval=3, init_msg=None)
    x0 = L.c + 0.3 * t.rng.normal(size=(ch, d))
    if L.hole != "none" and t.pick("start in hole", [False, True]):
        x0[0, 0] = L.c[0] + 1.0
    t.put(x0=x0)
    props, log = [], []
    scale = t.pick("proposal scale", [0.05, 0.7, 2.5])
    q = lambda a, e: float(-((e - 0.9 * a) ** 2).sum() / (2 * scale**2))

    def prop(a, k):
        a = np.array(np_(a))
        y = (a if sym else 0.9 * a) + scale * t.rng.normal(size=d)
        props.append((k, a, y))
        return gnp.asarray(y)

    m = M.MetropolisHastings(L, prop_rnd=prop, options=opt)
    if not sym:
        if not hasattr(m, "_log_prop"):
            raise Skip()
        m._log_prop = lambda a, e, k: q(np_(a), np_(e))
    with draws(log):
        try:
            out = m.scheduler(gnp.asarray(x0 if t.pick("flat", [False, ch == 1]) is False else x0[0]), burn + more, burn)
        except ValueError as e:
            if "Not enough samples" in str(e) and burn <= 1:
                raise Skip()
            raise
    n = m.global_iter
    t.true("steps", n == burn + more or (n < burn + more and m.burnin_period < burn), n=n)
    if len(log) != len(props):
        raise Skip()
    t.true("one proposal per chain and step", len(props) == n * ch)
    X, acc, ltv = np_(m.x), np_(m.accept), np_(m.log_target_values)
    at = [0] * ch
    for (c, a, y), u in zip(props, log):
        at[c] += 1
        i = at[c]
        t.same("proposed from the chain's previous state", a, X[c, i - 1])
        lx, ly = L.value(a), L.value(y)
        corr = 0.0 if sym else q(y, a) - q(a, y)
        want = rule(u, lx, ly, corr)
        t.true("accepted by the rule", bool(acc[c, i]) == want, chain=c, step=i, u=u, lx=lx, ly=ly)
        t.same("recorded state", X[c, i], y if want else a)
    for c in range(ch):
        t.same("first state", X[c, 0], x0[c])
        t.true("each chain advanced every step", at[c] == n)
        for i in range(n + 1):
            w = L.value(X[c, i])
            t.true("recorded log-target is the target there", np.array_equal(w, ltv[c, i], equal_nan=True) or abs(w - ltv[c, i]) < 1e-12, chain=c, step=i, got=ltv[c, i], want=w)
    o = np_(out)
    lo = m.burnin_period if opt.discard_burnin else 0
    t.true("returned states are recorded ones", o.shape[1] <= n + 1 - lo and o.shape[1] >= n - lo and np.array_equal(o, X[:, lo : lo + o.shape[1]]))


@check(40)
def replicated(t):
    """A single start is used for every chain; the default proposal moves from the chain's own state."""
    d, ch = t.size("d", 1, 3), t.size("chains", 1, 4, 12)
    x0 = t.rng.normal(size=d)
    L = Target(t, d)
    L.hole = "none"
    m = M.MetropolisHastings(L, options=M.MHOptions(dim=d, n_chains=ch, adaptation_interval=4, init_msg=None))
    log = []
    n = t.size("steps", 3, 20, 90)
    with draws(log):
        m.scheduler(gnp.asarray(x0), n, 2)
    X, acc, ltv = np_(m.x), np_(m.accept), np_(m.log_target_values)
    for c in range(ch):
        t.same("start", X[c, 0], x0)
        for i in range(1, m.global_iter + 1):
            same = np.array_equal(X[c, i], X[c, i - 1])
            t.true("state repeated exactly when not accepted", same == (not acc[c, i]), chain=c, step=i)
            t.close("log-target", ltv[c, i], L.value(X[c, i]), 1e-9)
