"""Stein variational step: kernel, velocity, dead particles, box; whole runs."""
import contextlib
import io

import numpy as np

import gpmp.num as gnp
from gpmp.mcmc import svgd as S

from .core import Skip, check, np_, spied

EXACT = gnp._gpmp_backend_ == "torch"
TOL = 1e-8 if EXACT else 1e-4


class Target:
    def __init__(self, t, d):
        self.A, self.b = t.rng.normal(size=(d, d)), t.rng.normal(size=d)
        self.kind = t.pick("undefined", ["no", "no", "nan", "-inf", "raise", "inf"])
        self.cut = t.rng.normal()

    def dead(self, x):
        return self.kind != "no" and x[0] > self.cut

    def value(self, x):
        if self.dead(x):
            return np.nan
        r = self.A @ x - self.b
        return -0.5 * r @ r + np.sin(x).sum()

    def grad(self, x):
        return -self.A.T @ (self.A @ x - self.b) + np.cos(x)

    def __call__(self, x):
        if self.dead(np_(x)):
            if self.kind == "raise":
                raise ValueError("undefined")
            return gnp.sum(x) * 0.0 + float(self.kind)
        r = gnp.matmul(gnp.asarray(self.A), x.reshape(-1, 1)).reshape(-1) - gnp.asarray(self.b)
        return -0.5 * gnp.sum(r * r) + gnp.sum(gnp.sin(x))


def cloud(t):
    n, d = t.size("n", 1, 8), t.size("d", 1, 3, 9)
    x = t.rng.normal(size=(n, d)) * t.pick("spread", [0.3, 1.0, 4.0])
    if n > 1 and t.pick("duplicates", [False, False, True]):
        x[1] = x[0]
    t.put(x=x)
    return n, d, x


def settings(t):
    return dict(bandwidth=t.pick("bandwidth", [None, None, 0.7, 3.0, 0.0]), bandwidth_scale=t.pick("scale", [1.0, 0.4]),
                bandwidth_min=t.pick("min", [None, 0.5]), jitter=t.pick("jitter", [1e-12, 1e-6]))


def bandwidth(x, bandwidth, bandwidth_scale, bandwidth_min, jitter):
    n = len(x)
    d2 = ((x[:, None] - x[None]) ** 2).sum(2)
    if bandwidth is None:
        pos = d2[d2 > 0]
        h = bandwidth_scale if pos.size == 0 else bandwidth_scale * np.percentile(pos, 50) / np.log(n + 1)
    else:
        h = bandwidth_scale * bandwidth
    if not np.isfinite(h) or h <= jitter:
        h = max(bandwidth_scale, jitter)
    return h if bandwidth_min is None else max(h, bandwidth_min)


@check(60)
def kernel(t):
    n, d, x = cloud(t)
    kw = settings(t)
    X = gnp.asarray(x)
    K, d2, h = S.rbf_kernel_matrix(X, **kw)
    w2 = ((x[:, None] - x[None]) ** 2).sum(2)
    hh = float(np_(h).reshape(()))
    t.close("squared distances", d2, w2, 1e-9, 1e-12)
    t.close("kernel from the reported bandwidth", K, np.exp(-w2 / hh), 1e-9)
    t.close("bandwidth", hh, bandwidth(x, **kw), 1e-9)
    t.same("particles kept", X, x)


def box_of(t, d):
    how = t.pick("box", ["none", "vector", "scalar", "mixed"])
    lo, up = -1.2 * np.ones(d), 0.9 * np.ones(d)
    if how == "vector":
        lo, up = lo - t.rng.random(d), up + t.rng.random(d)
    return how, {"none": None, "vector": [lo, up], "scalar": [-1.2, 0.9], "mixed": [list(lo), [0.9]]}[how], lo, up


@check(120)
def step(t):
    n, d, x = cloud(t)
    f = Target(t, d)
    kw = settings(t)
    how, box, lo, up = box_of(t, d)
    eps, T = t.pick("eps", [0.01, 0.3, 5.0]), t.pick("T", [1.0, 2.5, 0.3])
    P = t.pick("preconditioner", [None, "scalar", "vector"])
    pre = np.ones(d) if P is None else np.full(d, 0.6) if P == "scalar" else 0.2 + t.rng.random(d)
    arg = None if P is None else 0.6 if P == "scalar" else list(pre)
    X = gnp.asarray(x)
    y, info = S.svgd_step(f, X, step_size=eps, temperature=T, preconditioner_diag=arg, sampling_box=box, **kw)
    t.same("particles kept", X, x)
    t.shape("particles", y, (n, d))
    y = np_(y)
    x0 = x if box is None else np.clip(x, lo, up)
    alive = np.array([not f.dead(r) for r in x0])
    if not EXACT and any(abs(r[0] - f.cut) < 1e-3 for r in x0) and f.kind != "no":
        raise Skip()
    t.same("alive", np.array(np_(info["alive_mask"]), bool), alive)
    t.true("alive count", int(info["alive_count"]) == alive.sum())
    score = np.array([f.grad(r) / T if a else np.zeros(d) for r, a in zip(x0, alive)])
    edge = np.zeros_like(x0, bool) if EXACT or box is None else (np.minimum(x0 - lo, up - x0) < 1e-3)
    got = np_(info["score_values"])
    if edge.any():
        score = np.where(edge, got, score)  # finite differences straddle the edge of the box
    t.close("scores", got, score, TOL, TOL)
    h = float(np_(info["bandwidth"]).reshape(()))
    t.close("bandwidth", h, bandwidth(x0, **kw), 1e-9)
    K = np.exp(-((x0[:, None] - x0[None]) ** 2).sum(2) / h) * alive[:, None] * alive[None]
    m = max(alive.sum(), 1)
    v = (K @ got + 2 / h * (K[:, :, None] * (x0[:, None] - x0[None])).sum(1)) / m * pre
    t.close("velocity", info["velocity"], v, 1e-8)
    z = x0 + eps * v
    if box is not None:
        z = np.clip(z, lo, up)
        t.true("inside the box", bool(((y >= lo) & (y <= up)).all()), got=y)
    t.close("positions", y, z, 1e-8)
    t.same("dead particles stay", y[~alive], x0[~alive])
    lp = np_(info["log_prob_values"]).reshape(-1)
    t.close("log-densities", lp[alive], np.array([f.value(r) / T for r in x0])[alive], 1e-9)


@check(25)
def run(t):
    n, d, x = cloud(t)
    f = Target(t, d)
    how, box, lo, up = box_of(t, d)
    k = t.size("steps", 0, 4, 30)
    t0, t1 = t.pick("T0", [1.0, 5.0]), t.pick("T1", [1.0, 0.5, 8.0])
    sched = t.pick("schedule", ["linear", "geometric"])
    o = S.SVGDOptions(n_steps=k, step_size=t.pick("eps", [0.05, 1.0]), initial_temperature=t0, final_temperature=t1, annealing_schedule=sched,
                      bandwidth=t.pick("bandwidth", [None, 0.8]), sampling_box=box, store_particles_history=t.pick("history", [True, False]),
                      progress=t.pick("progress", [True, False]))
    calls = []
    keep = S.svgd_step

    def spy(lp, p, **kw):
        out = keep(lp, p, **kw)
        calls.append((np.array(np_(p)), kw, np.array(np_(out[0]))))
        return out

    S.svgd_step = spied(keep, spy)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if t.pick("start", ["given", "box"]) == "given":
                y, info = S.svgd_sample(f, gnp.asarray(x), options=o)
            else:
                y, info = S.svgd_sample(f, n_particles=n, init_box=[[-2.0] * d, [2.0] * d], options=o)
                x = None
    finally:
        S.svgd_step = keep
    y = np_(y)
    if box is not None and k > 0:
        t.true("inside the box after the run", bool(((y >= lo) & (y <= up)).all()), got=y)
    t.same("final cloud reported", np_(info["particles_final"]), y)
    if len(calls) != k:
        raise Skip()
    cur = x
    for i, (p, kw, q) in enumerate(calls):
        u = i / (k - 1) if k > 1 else 1.0
        T = t0 + u * (t1 - t0) if sched == "linear" else t0 * (t1 / t0) ** u
        t.close("temperature", float(kw["temperature"]), T, 1e-10)
        if cur is not None:
            t.same("each step continues the one before", p, cur)
        cur = q
    if k:
        t.same("result of the last step", y, cur)
    elif x is not None:
        t.same("nothing moves without steps", y, x)
    for i in range(n):
        v = f.value(y[i])
        g = float(np_(info["log_prob_final"]).reshape(-1)[i])
        t.true("final log-densities", (not np.isfinite(g)) if np.isnan(v) else abs(g - v) <= 1e-8 * (1 + abs(v)), i=i, got=g, want=v)
