"""Particle sets: reweighting, effective sample size, resampling, moves (C22)."""
import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, rexp, rlog
from ..gp import fn
from ..terms import I, R, ZERO, ieq, ile, rlt0, rle0, toI

P = "mcmc.smc.ParticlesSet."
FUNCTIONS = [P + f for f in ("particles_init", "set_logpdf", "set_logpdf_with_parameter", "reweight", "ess", "resample", "multinomial_resample", "residual_resample", "perturb", "move", "rand")] + [
    "mcmc.smc.SMC.step", "mcmc.smc.SMC.move_with_controlled_acceptation_rate"]


def lp(x, name="L"):
    """Abstract log-density: a function of the particle's row."""
    def get(i):
        b, r = gp.rowtok(x, i)
        return R.arr(name + "|" + b, r)

    return fn((x.shp[0],), get)


def build(n, d, scheme="multinomial", dim=2, **kw):
    """A particle set with arbitrary positions, log-densities and weights."""
    import gpmp.mcmc.smc as M
    import gpmp.num as gnp

    keep = M.ParticlesSet.__dict__["randunif"]
    M.ParticlesSet.randunif = staticmethod(gp.stand(keep.__func__, lambda dim, k, box, rng: gnp.zeros((k, dim))))
    try:
        p = M.ParticlesSet([[0.0] * dim, [1.0] * dim], n, config=M.ParticlesSetConfig(resample_scheme=scheme, **kw), rng=gnp_rng())
    finally:
        M.ParticlesSet.randunif = keep
    run.eq("initial-weights", p.w, fn((n,), lambda i: R.num(1) * rinv(n)))
    run.eq("initial-temporary-weights", p.w_tmp, fn((n,), lambda i: R.num(1) * rinv(n)))
    p.x, p.logpx = gp.mk("x", (n, d)), gp.mk("l0", (n,))
    p.w, p.w_tmp = gp.mk("w", (n,)), gp.mk("wt", (n,))
    return M, p


def gnp_rng():
    import numpy

    return numpy.random.default_rng()


def rinv(n):
    from ..core import rpow

    return rpow(R.ofI(toI(n)), -1)


def reweight(update):
    def task():
        n, d = run.integer("n", 1), run.integer("d", 1)
        M, p = build(n, d)
        x, w, l0 = p.x, p.w, p.logpx
        wt = p.w_tmp
        args = []
        if update == "parameter":
            p.set_logpdf_with_parameter(lambda y, a: (args.append(a), lp(y).reshape(-1, 1))[1], 3.5)
        else:
            p.set_logpdf(lambda y: lp(y).reshape(-1, 1))
        if update is False:
            p.reweight(update_logpx_and_w=False)
        else:
            p.reweight()
        if args:
            run.true("parameter", all(a == 3.5 for a in args) and len(args) >= 1)
        L = lp(gp.mk("x", (n, d)))
        want = fn((n,), lambda i: R.arr("w", i) * rexp(toR(L.elem((i,))) - R.arr("l0", i)))
        run.eq("weights-times-density-ratio", p.w_tmp, want)
        run.eq("positions-kept", p.x, gp.mk("x", (n, d)))
        if update is False:
            run.eq("weights-kept", p.w, gp.mk("w", (n,)))
            run.eq("densities-kept", p.logpx, gp.mk("l0", (n,)))
        else:
            run.eq("weights", p.w, want)
            run.eq("densities", p.logpx, L)
            p.w_tmp[0] = 7.0
            run.eq("separate-arrays", p.w, want)

    task.__name__ = "reweight_%s" % update
    return task


def ess():
    n = run.integer("n", 1)
    M, p = build(n, run.integer("d", 1))
    e = p.ess()
    from ..core import rpow, rsum

    s2 = rsum(toI(n), lambda i: R.arr("wt", i) * R.arr("wt", i))
    s1 = rsum(toI(n), lambda i: R.arr("wt", i))
    if isinstance(e, float):
        run.true("zero-only-without-weights", e == 0.0)
        run.true("no-weights", run.holds_eq(sreal(s2), sreal(ZERO)))
    else:
        run.eq("squared-sum-over-sum-of-squares", sreal(toR(e)), sreal(s1 * s1 * rpow(s2, -1)))


def step():
    """A whole step: reweight under the new density, resample, move; all on the same set."""
    ctx().ghost["bounded"] = "up to 3 adjusted moves and 2 further moves"
    import gpmp.mcmc.smc as M

    log = []

    class Particles:
        param_s = 1.0
        config = None

        def __getattr__(self, k):
            def f(*a, **kw):
                log.append((k, a, kw))
                if k == "ess":
                    return 3.0
                if k == "move":
                    low = ctx().choose_free("low%d" % len(log))
                    return 0.05 if low else 0.9 if ctx().choose_free("high%d" % len(log)) else 0.3

            return f

    s = object.__new__(M.SMC)
    s.particles = Particles()
    s.smc_config = M.SMCConfig(mh_steps=3, mh_adjustment_max_iterations=3)
    s.update_log = lambda *a, **k: None
    s.log_snapshot = lambda *a, **k: None
    f = object()
    s.step(f, 0.25)
    names = [k for k, _, _ in log]
    core = [k for k in names if k != "ess"]
    run.true("density-set-first", core[0] == "set_logpdf_with_parameter" and log[0][1] == (f, 0.25))
    run.true("reweighted-then-resampled", core[1:3] == ["reweight", "resample"])
    run.true("weights-updated", log[names.index("reweight")][1:] in (((), {}), ((True,), {}), ((), {"update_logpx_and_w": True})))
    moves = core[3:]
    run.true("then-moves-only", all(k == "move" for k in moves) and 3 <= len(moves) <= 5)


def counts(n, total):
    return [c for c in itertools.product(range(total + 1), repeat=n) if sum(c) == total]


def scripted(M, log, n, c):
    """Contract of the multinomial draw: any non-negative counts with the requested sum."""
    import gpmp.num as gnp

    def rvs(k, q, rng):
        # the number of draws is not negative, and at most the number of particles
        run.true("number-of-draws", ile(I(), toI(k)))
        run.true("number-of-draws", ile(toI(k), I((), n)))
        k = next((v for v in range(n) if ctx().branch(ieq(toI(k), I((), v)))), n)
        log.append((k, sarr(q).copy(), rng))
        got = c(k)
        return gnp.asarray(got)

    M.ParticlesSet.multinomial_rvs = staticmethod(gp.stand(M.ParticlesSet.multinomial_rvs, rvs))


def expected(cnt):
    return [j for j, k in enumerate(cnt) for _ in range(k)]


def outcome(p, n, d, cnt):
    src = expected(cnt)
    run.true("number-of-particles", len(src) == n)
    run.eq("copies-of-existing-particles", p.x, stack([fn((d,), lambda j, s=s: R.arr("x", I((), s), j)) for s in src]))
    run.eq("own-log-density", p.logpx, stack([sreal(R.arr("l0", I((), s))) for s in src]))
    for w in (p.w, p.w_tmp):
        run.eq("uniform-weights", w, fn((n,), lambda i: R.num(1) * rinv(n)))


def stack(rows):
    import gpmp.num as gnp

    return gnp.stack(rows)


def positive_sum(p, n):
    from ..core import rsum

    s = ZERO
    for i in range(n):
        w = R.arr("wt", I((), i))
        ctx().assume(rle0(ZERO - w))
        s = s + w
    # mathematical fact about shares of a positive sum
    from ..core import rpow
    from ..terms import band, bor, req0

    shares = [R.arr("wt", I((), i)) * rpow(s, -1) for i in range(n)]
    tot = ZERO
    for q in shares:
        tot = tot + q
        ctx().assume(bor(req0(s), rle0(ZERO - q)))
    ctx().assume(bor(req0(s), req0(tot - R.num(1))))
    return s


def multinomial(n, cnt):
    def task():
        ctx().ghost["bounded"] = "sets of up to 4 particles, every drawn count"
        d = run.integer("d", 1)
        M, p = build(n, d)
        keep = M.ParticlesSet.__dict__["multinomial_rvs"]
        log = []
        s = positive_sum(p, n)
        scripted(M, log, n, lambda k: list(cnt))
        try:
            p.resample()
        finally:
            M.ParticlesSet.multinomial_rvs = keep
        run.true("one-draw", len(log) == 1)
        k, q, rng = log[0]
        run.true("as-many-draws-as-particles", int(k) == n)
        run.true("generator-of-the-set", rng is p.rng)
        from ..core import rpow

        zero = run.holds_eq(sreal(s), sreal(ZERO))
        run.eq("probabilities", q, fn((n,), lambda i: R.num(1) * rinv(n) if zero else R.arr("wt", i) * rpow(s, -1)))
        outcome(p, n, d, cnt)

    task.__name__ = "multinomial_%s" % "".join(map(str, cnt))
    return task


class Drawn(BaseException):
    """The draw has been asked for."""


def draw_any():
    """What the draw is asked for under multinomial resampling, sets of any size."""
    from ..core import rpow, rsum

    n, d = run.integer("n", 1), run.integer("d", 1)
    M, p = build(n, d)
    keep = M.ParticlesSet.__dict__["multinomial_rvs"]
    log = []

    def rvs(k, q, rng):
        log.append((k, sarr(q), rng))
        raise Drawn()

    M.ParticlesSet.multinomial_rvs = staticmethod(gp.stand(M.ParticlesSet.multinomial_rvs, rvs))
    try:
        p.resample()
    except Drawn:
        pass
    finally:
        M.ParticlesSet.multinomial_rvs = keep
    run.true("one-draw", len(log) == 1)
    k, q, rng = log[0]
    s = rsum(toI(n), lambda i: R.arr("wt", i))
    zero = run.holds_eq(sreal(s), sreal(ZERO))
    run.true("generator-of-the-set", rng is p.rng)
    run.true("as-many-draws-as-particles", ieq(toI(k), toI(n)))
    run.eq("probabilities", q, fn((n,), lambda i: R.num(1) * rinv(n) if zero else R.arr("wt", i) * rpow(s, -1)))


draw_any.closing = True


def residual(n):
    def task():
        ctx().ghost["bounded"] = "sets of up to 3 particles, every drawn count"
        d = run.integer("d", 1)
        M, p = build(n, d, "residual")
        keep = M.ParticlesSet.__dict__["multinomial_rvs"]
        log, got = [], []
        # normalised weights scaled by n: fixed whole parts, any remainders
        s = positive_sum(p, n)

        def draw(k):
            opts = counts(n, k)
            for j, o in enumerate(opts[:-1]):
                if ctx().choose_free("draw%d" % j):
                    break
            else:
                o = opts[-1]
            got.append(o)
            return list(o)

        scripted(M, log, n, draw)
        try:
            p.resample()
        finally:
            M.ParticlesSet.multinomial_rvs = keep
        run.true("at-most-one-draw", len(log) <= 1)
        extra = got[0] if got else (0,) * n
        src = []
        for r in range(n):
            for j in range(n):
                if run.holds_eq(sreal(toR(p.logpx[r])), sreal(R.arr("l0", I((), j)))):
                    src.append(j)
                    break
        run.true("existing-particles", len(src) == n)
        cnt = [src.count(j) for j in range(n)]
        run.eq("own-position", p.x, stack([fn((d,), lambda c, j=j: R.arr("x", I((), j), c)) for j in src]))
        if log:
            run.true("draws-for-the-remainder", int(log[0][0]) == n - (sum(cnt) - sum(extra)))
        from ..core import rpow

        zero = run.holds_eq(sreal(s), sreal(ZERO))
        for j in range(n):
            det = cnt[j] - extra[j]
            e = R.num(1) if zero else R.arr("wt", I((), j)).scale(n) * rpow(s, -1)
            run.true("drawn-copies-added", det >= 0)
            # without any weight the shares 1/n are rounded numbers: n times the share may fall just below 1
            run.true("whole-part-of-the-expected-number", rlt0(e - R.num(det + 1 + (1 if zero else 0))))
            run.true("not-more-than-the-expected-number", rle0(R.num(det) - e))
        for w in (p.w, p.w_tmp):
            run.eq("uniform-weights", w, fn((n,), lambda i: R.num(1) * rinv(n)))

    task.__name__ = "residual_%d" % n
    return task


def perturb(dim, fails):
    def task():
        n = run.integer("n", 2)
        M, p = build(n, dim, dim=dim)
        import gpmp.num as gnp

        p.param_s = 0.5
        seen = []
        keep, kcov = M.ParticlesSet.__dict__["multivariate_normal_rvs"], M.knn_cov.estimate_cov_matrix
        cov = gp.mk("C", (dim, dim)) if dim > 1 else sreal(R.arr("C"))

        def rvs(C, k, rng):
            seen.append((C, k, rng))
            if len(seen) <= fails:
                raise ValueError("not positive semidefinite")
            return gp.mk("e", (n, dim) if dim > 1 else (n,))

        M.ParticlesSet.multivariate_normal_rvs = staticmethod(gp.stand(keep.__func__, rvs))
        M.knn_cov.estimate_cov_matrix = gp.stand(kcov, lambda x: (run.eq("covariance-of-the-particles", x, gp.mk("x", (n, dim))), cov)[1])
        try:
            y = p.perturb()
        finally:
            M.ParticlesSet.multivariate_normal_rvs = keep
            M.knn_cov.estimate_cov_matrix = kcov
        run.true("tries", len(seen) == fails + 1)
        from ..core import ind
        from fractions import Fraction

        for t, (C, k, rng) in enumerate(seen):
            run.true("one-draw-per-particle", ieq(toI(k), toI(n)))
            run.true("generator-of-the-set", rng is p.rng)
            jit = R.num(0) if t == 0 else R.num(1e-16 * 10 ** (t - 1))
            e = lambda i, j: R.arr("C", i, j) if dim > 1 else R.arr("C")
            want = fn((dim, dim), lambda i, j: e(i, j).scale(Fraction(1, 2)) + ind(ieq(i, j)) * jit)
            run.eq("scaled-covariance", sarr(C).reshape(dim, dim), want)
        run.eq("particle-plus-noise", y, fn((n, dim), lambda i, j: R.arr("x", i, j) + (R.arr("e", i, j) if dim > 1 else R.arr("e", i))))
        run.eq("particles-kept", p.x, gp.mk("x", (n, dim)))

    task.__name__ = "perturb_%d_%d" % (dim, fails)
    return task


def move():
    """Each particle accepts by the Metropolis rule, for any number of particles."""
    from ..core import ind

    n, d = run.integer("n", 1), run.integer("d", 1)
    M, p = build(n, d)
    y = gp.mk("y", (n, d))
    p.perturb = lambda: y
    p.set_logpdf(lambda v: (run.eq("density-of-the-proposals", v, y), lp(y).reshape(-1, 1))[1])
    draws = []

    class G:
        def uniform(self, low=0.0, high=1.0, size=None):
            draws.append(size)
            return gp.mk("u", size)

    p.rng = G()
    rate = p.move()
    run.true("one-uniform-number-per-particle", len(draws) == 1)
    L = lp(y)

    def acc(i):
        return rlt0(rlog(R.arr("u", i)) - (toR(L.elem((i,))) - R.arr("l0", i)))

    run.eq("position", p.x, fn((n, d), lambda i, j: ind(acc(i)) * R.arr("y", i, j) + (R.num(1) - ind(acc(i))) * R.arr("x", i, j)))
    run.eq("log-density", p.logpx, fn((n,), lambda i: ind(acc(i)) * toR(L.elem((i,))) + (R.num(1) - ind(acc(i))) * R.arr("l0", i)))
    run.eq("weights-kept", p.w, gp.mk("w", (n,)))
    from ..core import rsum

    run.eq("acceptance-rate", sreal(toR(rate)), sreal(rsum(toI(n), lambda i: ind(acc(i))) * rinv(n)))


TASKS = [draw_any] + [reweight(u) for u in (True, False, "parameter")] + [ess] + [multinomial(n, c) for n in (1, 2, 3, 4) for c in counts(n, n)] + [
    residual(n) for n in (1, 2, 3)] + [perturb(d, f) for d in (1, 2, 3) for f in (0, 1, 2)] + [move, step]
