"""NUTS: integrator, running variance, warmup windows and what the warmup does with them."""
import contextlib
import io
import math

import numpy as np

import gpmp.num as gnp
from gpmp.mcmc import nuts as N

from .core import Skip, check, np_, spied

EXACT = gnp._gpmp_backend_ == "torch"


class Target:
    """A smooth log-density with a known gradient."""

    def __init__(self, t, d):
        self.A = t.rng.normal(size=(d, d))
        self.b = t.rng.normal(size=d)
        self.col = t.pick("value shape", [False, True])
        self.q4 = t.pick("quartic", [0.0, 0.2])

    def value(self, q):
        r = self.A @ q - self.b
        return -0.5 * r @ r - self.q4 * (q**4).sum() + np.sin(q).sum()

    def grad(self, q):
        return -self.A.T @ (self.A @ q - self.b) - 4 * self.q4 * q**3 + np.cos(q)

    def __call__(self, q):
        A, b = gnp.asarray(self.A), gnp.asarray(self.b)
        r = gnp.matmul(A, q.reshape(-1, 1)).reshape(-1) - b
        v = -0.5 * gnp.sum(r * r) - self.q4 * gnp.sum(q**4) + gnp.sum(gnp.sin(q))
        return v.reshape(1) if self.col else v


def state(t):
    d = t.size("d", 1, 5, 9)
    f = Target(t, d)
    q, p = t.rng.normal(size=d), t.rng.normal(size=d)
    im = np.exp(t.rng.normal(size=d)) if t.pick("mass", ["any", "unit"]) == "any" else np.ones(d)
    eps = t.pick("eps", [0.3, 0.05, 1e-3, -0.2, 0.11])
    t.put(q=q, p=p, inv_mass=im)
    return d, f, q, p, im, eps


@check(60)
def leapfrog(t):
    d, f, q, p, im, eps = state(t)
    Q, P, IM = gnp.asarray(q), gnp.asarray(p), gnp.asarray(im)
    U, g = N.potential_and_grad(f, Q)
    t.close("potential", float(np_(U)), -f.value(q), 1e-9)
    t.close("gradient", g, -f.grad(q), 1e-8 if EXACT else 1e-4, 1e-8 if EXACT else 1e-4)
    q1, p1, U1, g1 = N.leapfrog(f, Q, P, g, eps, IM)
    t.same("arguments kept", Q, q)
    t.same("arguments kept", P, p)
    h = p - 0.5 * eps * np_(g)
    x = q + eps * im * h
    t.close("position", q1, x, 1e-9)
    t.close("potential at the new position", float(np_(U1)), -f.value(x), 1e-7)
    t.close("gradient at the new position", g1, -f.grad(x), 1e-7 if EXACT else 1e-4, 1e-7 if EXACT else 1e-3)
    t.close("momentum", p1, h - 0.5 * eps * np_(g1), 1e-9)
    q2, p2, U2, g2 = N.leapfrog(f, q1, -p1, g1, eps, IM)
    sc = 1 + np.abs(np_(g1)).max()
    t.close("back at the start", q2, q, 1e-7 * sc, 1e-7 * sc)
    t.close("opposite momentum", p2, -p, 1e-6 * sc, 1e-6 * sc)
    q3, p3, _, _ = N.leapfrog(f, q1, p1, g1, -eps, IM)
    t.close("back with the opposite step", q3, q, 1e-7 * sc, 1e-7 * sc)
    t.close("momentum after the opposite step", p3, p, 1e-6 * sc, 1e-6 * sc)
    t.close("kinetic energy", float(np_(N.kinetic(P, IM))), 0.5 * (p * p * im).sum(), 1e-10)


@check(60)
def uturn(t):
    d = t.size("d", 1, 4, 9)
    a, b, p, r = t.rng.normal(size=(4, d))
    im = np.exp(2 * t.rng.normal(size=d))
    v1, v2 = ((b - a) * im * p).sum(), ((b - a) * im * r).sum()
    t.put(a=a, b=b, p=p, r=r, im=im)
    if min(abs(v1), abs(v2)) < 1e-9:
        raise Skip()
    t.true("u-turn", bool(N.is_uturn(*map(gnp.asarray, (a, b, p, r, im)))) == (v1 < 0 or v2 < 0))
    t.true("no u-turn at one point", not N.is_uturn(*map(gnp.asarray, (a, a, p, r, im))))


@check(80)
def running_variance(t):
    d = t.size("d", 1, 4, 9)
    rv = N.RunningDiagVar(d)
    seen = np.zeros((0, d))
    off = t.pick("offset", [0.0, 5.0, 1e4])
    for k in range(t.size("updates", 0, 5, 40)):
        m = t.size("batch%d" % k, 0, 6, 40)
        x = off + t.rng.normal(size=(m, d)) * t.pick("scale%d" % k, [1.0, 3.0, 0.0])
        if m == 1 and t.pick("one%d" % k, [True, False]):
            rv.update_one(gnp.asarray(x[0]))
        else:
            rv.update_batch(gnp.asarray(x))
        seen = np.vstack([seen, x])
        v = rv.var()
        t.shape("variance", v, (d,))
        want = np.ones(d) if len(seen) < 2 else seen.var(0, ddof=1)
        t.close("sample variance", v, want, 1e-6, 1e-6)
        t.true("count", int(rv.n) == len(seen))


def windows_ok(t, w, lo, hi):
    if hi <= lo:
        t.true("no windows without room", list(w) == [], got=w)
        return
    t.true("starts after the initial buffer", len(w) > 0 and w[0][0] == lo, got=w, lo=lo)
    t.true("ends before the final buffer", w[-1][1] == hi, got=w, hi=hi)
    for (a, b), (c, e) in zip(w, w[1:]):
        t.true("consecutive", b == c, got=w)
    t.true("non-empty", all(a < b for a, b in w), got=w)


@check(200)
def windows(t):
    n = t.pick("how", ["any", "threshold", "small"])
    kw = {}
    if t.pick("settings", ["default", "given"]) == "given":
        kw = dict(min_no_window=t.size("min", 0, 30), large_threshold=t.size("threshold", 0, 200), large_init_buffer=t.size("init", 0, 90),
                  large_term_buffer=t.size("term", 0, 90), large_base_window=t.size("base", 1, 60), init_buffer_ratio=float(t.rng.random()),
                  term_buffer_ratio=float(t.rng.random()), base_window_divisor=float(t.rng.choice([0.3, 1.0, 2.0, 3.0, 7.5])))
    th, mn = kw.get("large_threshold", 150), kw.get("min_no_window", 20)
    N_ = {"any": t.size("n", 0, 2500), "threshold": th + int(t.rng.integers(-2, 3)), "small": mn + int(t.rng.integers(-2, 12))}[n]
    N_ = max(0, N_)
    t.put(num_warmup=N_, settings=kw)
    w = N.make_warmup_windows(N_, **kw)
    if N_ <= mn:
        t.true("no windows in a short warmup", list(w) == [], got=w)
        return
    if N_ >= th:
        lo, hi = kw.get("large_init_buffer", 75), N_ - kw.get("large_term_buffer", 50)
    else:
        lo = max(1, int(kw.get("init_buffer_ratio", 0.15) * N_))
        hi = N_ - max(1, int(kw.get("term_buffer_ratio", 0.10) * N_))
    windows_ok(t, w, lo, hi)


@check(40)
def dual_averaging(t):
    mu, le = t.rng.normal(size=2)
    target, gamma, t0, kappa = t.rng.uniform(0.5, 0.9), t.rng.uniform(0.02, 0.2), t.rng.uniform(1, 20), t.rng.uniform(0.55, 0.95)
    s = N.DualAveragingState(mu=mu, log_eps=le, log_eps_bar=le, h_bar=0.0, t=0)
    acc = t.rng.random(t.size("updates", 1, 30, 300))
    h, bar, x = 0.0, le, le
    for k, a in enumerate(acc, 1):
        got = s.update(float(a), target=target, gamma=gamma, t0=t0, kappa=kappa)
        h = (1 - 1 / (k + t0)) * h + (target - a) / (k + t0)
        x = mu - math.sqrt(k) / gamma * h
        bar = k**-kappa * x + (1 - k**-kappa) * bar
        t.close("step size", float(got), math.exp(x), 1e-9)
    t.close("final step size", float(s.final()), math.exp(bar), 1e-9)


@check(30)
def warmup(t):
    """The mass after each window is the variance of the states of that window, over all chains."""
    d, ch = t.size("d", 1, 3, 9), t.size("chains", 1, 3, 10)
    nw, ns = t.size("warmup", 0, 60), t.size("samples", 0, 5, 40)
    o = N.NUTSOptions(num_warmup=nw, warmup_min_no_window=t.size("min", 0, 10), warmup_large_threshold=t.size("threshold", 5, 60),
                      warmup_large_init_buffer=t.size("init", 0, 8), warmup_large_term_buffer=t.size("term", 0, 8), warmup_large_base_window=t.size("base", 1, 8),
                      progress=False, verbose=0, init_step_size=0.1, init_mass_diag=None, jitter=t.pick("jitter", [1e-4, 0.8]))
    calls, ret = [], []
    rng = np.random.default_rng(int(t.rng.integers(1 << 30)))

    def transition(log_prob, q0, step_size, inv_mass_diag, max_depth, delta_max):
        q = rng.normal(size=d) * np.arange(1, d + 1)
        calls.append((np.array(np_(q0)), float(step_size), np.array(np_(inv_mass_diag))))
        a, nlf, depth, div = float(rng.random()), int(rng.integers(1, 9)), int(rng.integers(0, 4)), bool(rng.random() < 0.3)
        ret.append((q, a, nlf, depth, div))
        return gnp.asarray(q), a, nlf, depth, div

    keep = N.nuts_transition
    N.nuts_transition = spied(keep, transition)
    q0 = t.rng.normal(size=(ch, d))
    Q0 = gnp.asarray(q0)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            x, info = N.nuts_sample(lambda q: -0.5 * gnp.sum(q * q), Q0, ns, options=o, num_warmup=nw, verbose=0, progress=False)
    finally:
        N.nuts_transition = keep
    t.same("initial states kept", Q0, q0)
    if nw + ns and not calls:
        raise Skip()  # transitions not made through the function replaced above
    t.true("transitions", len(calls) == (nw + ns) * ch)
    w = N.make_warmup_windows(nw, min_no_window=o.warmup_min_no_window, large_threshold=o.warmup_large_threshold, large_init_buffer=o.warmup_large_init_buffer,
                              large_term_buffer=o.warmup_large_term_buffer, large_base_window=o.warmup_large_base_window)
    t.put(windows=w)
    qs = np.array([r[0] for r in ret]).reshape(nw + ns, ch, d) if ret else np.zeros((0, ch, d))
    im = np.ones(d)
    for s in range(nw + ns):
        for a, b in w:
            if s == b:
                f = qs[a:b].reshape(-1, d)
                v = np.ones(d) if len(f) < 2 else f.var(0, ddof=1)
                im = 1 / np.maximum(v, o.jitter)
        for c in range(ch):
            a = calls[s * ch + c]
            t.close("from the chain's state", a[0], q0[c] if s == 0 else qs[s - 1, c], 1e-12)
            t.close("mass", a[2], im, 1e-8)
            if s >= nw:
                t.close("step size after the warmup", a[1], float(np_(info["step_size_final"]).reshape(())), 1e-12)
    r = np.array([x_[1] for x_ in ret]).reshape(-1, ch)
    t.shape("samples", x, (ns, ch, d))
    t.same("samples", x, qs[nw:])
    for name, col in (("accept_stat", 1), ("n_leapfrog", 2), ("tree_depth", 3), ("divergent", 4)):
        z = np.array([float(x_[col]) for x_ in ret]).reshape(-1, ch)
        t.close(name, np.array(np_(info[name]), float), z[nw:], 1e-12)
        t.close("warmup " + name, np.array(np_(info["warmup_" + name]), float), z[:nw], 1e-12)
    t.close("target of the samples", info["log_prob_trace"], -0.5 * (qs[nw:] ** 2).sum(2), 1e-9)


@check(12)
def sampling(t):
    """Whole transitions: what is returned is reached from the start by leapfrog steps of the given size."""
    d = t.size("d", 1, 3, 9)
    f = Target(t, d)
    f.q4 = 0.0
    q = t.rng.normal(size=d)
    im = np.exp(0.3 * t.rng.normal(size=d))
    eps = t.pick("eps", [0.05, 0.15])
    gnp.set_seed(int(t.rng.integers(1 << 30)))
    seen = []
    keep = N.leapfrog

    def spy(lp, a, b, g, e, m):
        out = keep(lp, a, b, g, e, m)
        seen.append((np.array(np_(a)), np.array(np_(b)), float(e), np.array(np_(out[0])), np.array(np_(out[1]))))
        return out

    N.leapfrog = spied(keep, spy)
    try:
        y, acc, nlf, depth, div = N.nuts_transition(f, gnp.asarray(q), eps, gnp.asarray(im), 5, 1000.0)
    finally:
        N.leapfrog = keep
    y = np_(y)
    t.true("acceptance statistic", 0 <= acc <= 1 + 1e-12)
    if not seen:
        raise Skip()
    t.true("number of leapfrog steps", nlf == len(seen))
    t.true("depth", depth <= 5 and nlf <= 2**depth)
    pts = [q] + [s[3] for s in seen]
    t.true("a visited state", any(np.array_equal(y, x) for x in pts), got=y)
    t.true("step sizes", all(abs(abs(s[2]) - eps) < 1e-15 for s in seen))
    # forward and backward trajectories each continue from their own end
    ends = {1: (q, seen[0][1]), -1: (q, seen[0][1])}
    for a, b, e, c, g in seen:
        s = 1 if e > 0 else -1
        t.close("continues the trajectory", np.r_[a, b], np.r_[ends[s]], 1e-12)
        ends[s] = (c, g)
