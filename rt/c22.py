"""Particle sets: reweighting, effective sample size, resampling, moves."""
import contextlib
import io

import numpy as np

import gpmp.num as gnp
from gpmp.mcmc import smc as M

from .core import Skip, check, np_, spied


class Gen(np.random.Generator):
    """A generator that records its uniform draws, and can make them as small as one likes."""

    log = None
    power = 1

    def uniform(self, low=0.0, high=1.0, size=None):
        u = super().uniform(low, high, size)
        if self.log is not None:
            u = low + (high - low) * ((u - low) / (high - low)) ** self.power
            self.log.append(np.array(u))
        return u

    def random(self, size=None, *a, **k):
        u = super().random(size, *a, **k)
        if self.log is not None:
            u = u ** self.power
            self.log.append(np.array(u))
        return u


def gen(t):
    return Gen(np.random.PCG64(int(t.rng.integers(1 << 30))))


class Density:
    def __init__(self, t, d):
        self.c = t.rng.normal(size=d)
        self.hole = t.pick("hole", ["none", "none", "-inf", "nan"])
        self.col = t.pick("column", [True, False])
        self.calls = []

    def value(self, x):
        v = -1.5 * ((x - self.c) ** 2).sum(1) + 0.3 * x.sum(1)
        if self.hole != "none":
            v = np.where(x[:, 0] > self.c[0] + 0.8, float(self.hole), v)
        return v

    def __call__(self, x):
        x = np.array(np_(x))
        self.calls.append(x)
        v = self.value(x)
        return gnp.asarray(v.reshape(-1, 1) if self.col else v)


def make(t, n, d, scheme="multinomial", **kw):
    box = [[-1.0] * d, [2.0] * d]
    p = M.ParticlesSet(box, n, config=M.ParticlesSetConfig(resample_scheme=scheme, **kw), rng=gen(t))
    t.shape("particles", p.x, (n, d))
    x = np_(p.x)
    t.true("initial particles in the box", bool(((x >= -1) & (x <= 2)).all()))
    t.close("initial weights", p.w, np.full(n, 1 / n))
    return p


def weights(t, n):
    kind = t.pick("weights", ["random", "sparse", "equal", "integer", "huge", "zero"])
    w = {"random": t.rng.random(n), "sparse": t.rng.random(n) * (t.rng.random(n) < 0.3), "equal": np.full(n, 0.25),
         "integer": t.rng.integers(0, 4, n).astype(float), "huge": np.exp(20 * t.rng.normal(size=n)), "zero": np.zeros(n)}[kind]
    t.put(w=w)
    return w


@check(100)
def reweight(t):
    n, d = t.size("n", 1, 12), t.size("d", 1, 3, 9)
    p = make(t, n, d)
    f = Density(t, d)
    w, old = weights(t, n), t.rng.normal(size=n)
    p.w, p.w_tmp, p.logpx = gnp.asarray(w), gnp.asarray(t.rng.random(n)), gnp.asarray(old)
    x = np_(p.x).copy()
    upd = t.pick("update", [True, False, None])
    if t.pick("parameterized", [False, True]):
        p.set_logpdf_with_parameter(lambda y, a: f(y) * a, 2.0)
        new = 2.0 * f.value(x)
    else:
        p.set_logpdf(f)
        new = f.value(x)
    p.reweight(**({} if upd is None else {"update_logpx_and_w": upd}))
    with np.errstate(all="ignore"):
        want = w * np.exp(new - old)
    t.close("temporary weights", p.w_tmp, want, 1e-10)
    t.same("particles untouched", p.x, x)
    if upd is False:
        t.same("weights kept", p.w, w)
        t.same("densities kept", p.logpx, old)
    else:
        t.close("weights", p.w, want, 1e-10)
        t.close("densities", p.logpx, new, 1e-12)
        a = np_(p.w).copy()
        p.w_tmp[0] = 17.0
        t.same("weights and temporary weights are separate", p.w, a)
    if np.isfinite(want).all():
        p.w_tmp = gnp.asarray(want)
        e = float(np_(p.ess()))
        s2 = (want**2).sum()
        t.close("effective sample size", e, want.sum() ** 2 / s2 if s2 > 0 else 0.0, 1e-9)


@check(150)
def resample(t):
    n, d = t.size("n", 1, 14), t.size("d", 1, 3, 9)
    scheme = t.pick("scheme", ["multinomial", "residual"])
    p = make(t, n, d, scheme)
    w, lp = weights(t, n), t.rng.normal(size=n)
    p.w, p.w_tmp, p.logpx = gnp.asarray(t.rng.random(n)), gnp.asarray(w), gnp.asarray(lp)
    x = np_(p.x).copy()
    drawn = []
    keep = M.ParticlesSet.__dict__.get("multinomial_rvs")

    def rvs(k, q, rng):
        c = keep.__func__(k, q, rng)
        drawn.append((int(k), np.array(np_(q)), np.array(np_(c))))
        return c

    if keep is not None:
        M.ParticlesSet.multinomial_rvs = staticmethod(spied(keep.__func__, rvs))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            p.resample(debug=t.pick("debug", [False, True]))
    finally:
        if keep is not None:
            M.ParticlesSet.multinomial_rvs = keep
    y, ly = np_(p.x), np_(p.logpx)
    t.shape("particles", y, (n, d))
    t.shape("densities", ly, (n,))
    src = []
    for i in range(n):
        j = np.where((x == y[i]).all(1))[0]
        t.true("only existing particles", len(j) >= 1, i=i, got=y[i])
        t.true("own log-density", ly[i] == lp[j[0]], i=i)
        src.append(int(j[0]))
    cnt = np.bincount(src, minlength=n)
    t.close("weights uniform", p.w, np.full(n, 1 / n))
    t.close("temporary weights uniform", p.w_tmp, np.full(n, 1 / n))
    q = w / w.sum() if w.sum() > 0 else np.full(n, 1 / n)
    t.true("no copy of a particle without weight", bool((cnt[q == 0] == 0).all()), counts=cnt)
    if scheme == "residual":
        t.true("at least the whole part of the expected number", bool((cnt >= np.floor(n * q - 1e-9)).all()), counts=cnt, expected=n * q)
    if scheme == "multinomial" and len(drawn) == 1:
        k, pr, c = drawn[0]
        t.true("number drawn", k == n)
        t.close("probabilities", pr, q, 1e-9)
        t.same("copies as drawn", cnt, c.astype(int))
    if scheme == "residual" and len(drawn) <= 1:
        det = np.floor(n * q + 1e-12).astype(int)
        if np.array_equal(det, np.floor(n * q - 1e-9).astype(int)):
            left = n - det.sum()
            t.true("number drawn", (len(drawn) == 0) == (left == 0) and (not drawn or drawn[0][0] == left), left=int(left))
            t.same("copies as drawn", cnt, det + (drawn[0][2].astype(int) if drawn else 0))
            if drawn:
                r = n * q - det
                t.close("probabilities", drawn[0][1], r / r.sum(), 1e-8, 1e-9)
    # a later change of one set of arrays does not reach the other
    b = np_(p.w).copy()
    p.w_tmp[0] = 5.0
    t.same("weights and temporary weights are separate", p.w, b)


@check(30)
def resample_frequencies(t):
    """Mean number of copies close to the expected number."""
    n, d, reps = 5, 1, 300
    scheme = t.pick("scheme", ["multinomial", "residual"])
    w = t.rng.random(n)
    t.put(w=w)
    p = make(t, n, d, scheme)
    x = np_(p.x).copy()
    tot = np.zeros(n)
    for _ in range(reps):
        p.x, p.w_tmp, p.logpx = gnp.asarray(x.copy()), gnp.asarray(w), gnp.zeros(n)
        p.resample()
        tot += np.array([(np_(p.x)[:, 0] == x[j, 0]).sum() for j in range(n)])
    q = w / w.sum()
    t.true("mean copies", bool((np.abs(tot / reps - n * q) < 6 * np.sqrt(n / reps)).all()), got=tot / reps, want=n * q)


@check(120)
def move(t):
    n, d = t.size("n", 2, 12), t.size("d", 1, 3, 9)
    p = make(t, n, d, param_s_initial_value=t.pick("param_s", [0.01, 0.5, 3.0]), covariance_method=t.pick("cov", ["normal", "knn"]))
    f = Density(t, d)
    p.set_logpdf(f)
    x = np_(p.x).copy()
    lp = f.value(x)
    if t.pick("some old density unrelated", [False, True]):
        lp = lp + t.rng.normal(size=n)
    p.logpx = gnp.asarray(lp)
    w = t.rng.random(n)
    p.w, p.w_tmp = gnp.asarray(w), gnp.asarray(w)
    for _ in range(2):
        f.calls = []
        p.rng.log = []
        p.rng.power = t.pick("power of the draws", [1, 1, 20, 100])
        with contextlib.redirect_stdout(io.StringIO()):
            rate = p.move()
        us = [u for u in p.rng.log if np.size(u) == n]
        p.rng.log = None
        if len(us) != 1 or len(f.calls) != 1:
            raise Skip()
        y, u = f.calls[0], us[0].reshape(-1)
        t.shape("proposals", y, (n, d))
        t.true("proposals differ from the particles", bool((np.abs(y - x).max(1) > 0).all()))
        ly = f.value(y)
        with np.errstate(all="ignore"):
            acc = np.log(u) < ly - lp
        t.same("positions", p.x, np.where(acc[:, None], y, x))
        t.close("log-densities", p.logpx, np.where(acc, ly, lp), 1e-12, 0)
        t.close("acceptance rate", float(np_(rate)), acc.mean(), 1e-12)
        t.same("weights untouched", p.w, w)
        x, lp = np_(p.x).copy(), np_(p.logpx).copy()


@check(40)
def perturb(t):
    """Proposals have the particles' covariance scaled by the step parameter; rejected covariances get a small jitter."""
    n, d = t.size("n", 2, 8), t.size("d", 1, 3, 9)
    s = t.pick("param_s", [0.01, 0.5, 3.0])
    p = make(t, n, d, param_s_initial_value=s)
    x = np_(p.x).copy()
    fails = t.pick("rejections", [0, 0, 1, 3])
    seen = []
    keep = M.ParticlesSet.__dict__.get("multivariate_normal_rvs")
    if keep is None:
        raise Skip()

    def rvs(C, k, rng):
        seen.append((np.array(np_(C)).reshape(d, d), int(k)))
        if len(seen) <= fails:
            raise ValueError("The input matrix must be positive semidefinite.")
        return keep.__func__(C, k, rng)

    M.ParticlesSet.multivariate_normal_rvs = staticmethod(spied(keep.__func__, rvs))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            y = np_(p.perturb())
    finally:
        M.ParticlesSet.multivariate_normal_rvs = keep
    t.shape("proposals", y, (n, d))
    t.same("particles untouched", p.x, x)
    if not seen:
        raise Skip()
    C = s * np.cov(x.T).reshape(d, d)
    t.true("number of draws", all(k == n for _, k in seen))
    t.close("covariance", seen[0][0], C, 1e-8, 1e-12)
    for k, (G, _) in enumerate(seen[1:]):
        t.close("jittered covariance", G, C + 1e-16 * 10**k * np.eye(d), 1e-8, 1e-12)
    p.param_s = 1e9
    t.raises("step parameter out of range", M.ParticlesSetError, p.perturb)


@check(25)
def step(t):
    """After whole steps, positions and log-densities belong together and the weights are uniform."""
    n, d = t.size("n", 6, 30), t.size("d", 1, 2, 9)
    scheme = t.pick("scheme", ["multinomial", "residual"])
    f = Density(t, d)
    f.hole = "none"

    def lp(x, a):
        return f(x) * a

    with contextlib.redirect_stdout(io.StringIO()):
        s = M.SMC([[-1.0] * d, [2.0] * d], n, particles_config=M.ParticlesSetConfig(resample_scheme=scheme),
                  smc_config=M.SMCConfig(mh_steps=t.pick("mh_steps", [1, 3]), compute_next_logpdf_param_method="ess"), rng=gen(t))
        for a in (0.3, 0.7, 1.0):
            how = t.pick("how%s" % a, ["step", "restart"])
            try:
                if how == "step":
                    s.step(lp, a)
                else:
                    s.step_with_possible_restart(lp, 0.1, a, 0.3, 0.5)
            except M.ParticlesSetError:
                p = s.particles
                if p.config.param_s_lower_bound <= p.param_s <= p.config.param_s_upper_bound:
                    raise
                raise Skip()  # adapted out of its range: the documented refusal
            p = s.particles
            t.shape("particles", p.x, (n, d))
            t.close("log-densities of the particles", p.logpx, a * f.value(np_(p.x)), 1e-9)
            t.close("weights", p.w, np.full(n, 1 / n))
