from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, rinv, rite, rlog, rmax, rsum
from ..fakes import Phi, Phiinv
from ..gp import fn
from ..terms import Fraction, I, ONE, R, ZERO, bnot, ile, ilt, rle0, rlt0, toI

FUNCTIONS = ["kernel.priors." + f for f in (
    "log_prior_jeffreys_variance", "log_prior_power_law", "log_prior_reference", "_resolve_prior_defaults", "_logsigma2_prior_std", "log_prior_gaussian_logsigma2",
    "neglog_f_logrho", "log_prior_logrho_barrier_linear", "neg_log_restricted_posterior_with_jeffreys_prior", "neg_log_restricted_posterior_power_laws_prior",
    "neg_log_restricted_posterior_logsigma2_prior", "neg_log_restricted_posterior_with_logrho_prior", "neg_log_restricted_posterior_logsigma2_and_logrho_prior")]
HALF = Fraction(1, 2)
INF = lambda: toR(float("inf"))


class Model:
    """The model by the contracts proved in C06 and C08."""

    def __init__(self):
        self.calls = []

    def negative_log_restricted_likelihood(self, covparam, xi, zi):
        self.calls.append((covparam, xi, zi))
        return sreal(R.arr("nlrl"))

    def fisher_information(self, xi, covparam=None):
        self.calls.append((covparam, xi))
        return gp.mk("fisher", (2, 2))


def setup(lo=1):
    import gpmp.kernel.priors as P

    d = run.integer("d", lo)
    th = gp.mk("theta", (1 + d,))
    return P, d, th, toR(th.elem((I(),))), lambda j: toR(th.elem((j.add(I((), 1)),)))


def refused(name, f, exc=ValueError):
    try:
        f()
    except exc:
        run.record(name, True)
    else:
        run.record(name, False, "accepted")


def jeffreys():
    P, d, th, v, p = setup()
    lam = run.real("lambda")
    run.eq("jeffreys", P.log_prior_jeffreys_variance(th, lam), sreal((toR(lam) * v).neg()))
    run.eq("jeffreys-default", P.log_prior_jeffreys_variance(th), sreal(v.neg()))


def reference():
    """Half the log-determinant of the Fisher information, asked for at the given parameters and points."""
    P, d, th, v, p = setup()
    n = run.integer("n", 1)
    xi, asked = gp.points("xi", n, d), []

    class M:
        def fisher_information(self, xi, covparam=None):
            asked.append((xi, covparam))
            return gp.mk("fisher", (1 + d, 1 + d))

    got = P.log_prior_reference(M(), th, xi)
    run.true("asked-once", len(asked) == 1 and asked[0][0] is xi and asked[0][1] is th)
    import gpmp.num as gnp

    run.eq("half-log-determinant", sreal(toR(got)), sreal(toR(gnp.logdet(gp.mk("fisher", (1 + d, 1 + d)))).scale(Fraction(1, 2))))


def power_spec(v, p, d, lam, cut, ll, lo, hi, pen):
    s = ZERO - lam * v - pen * rmax(v - cut, ZERO)
    return s - rsum(toI(d), lambda j: ll * p(j) + pen * rmax(lo - p(j), ZERO) + pen * rmax(p(j) - hi, ZERO))


def power():
    P, d, th, v, p = setup()
    ks = ("lambda_var", "cut_logvariance_high", "lambda_lengthscales", "cut_loginvrho_low", "cut_loginvrho_high", "penalty_factor")
    kw = {k: run.real(k) for k in ks}
    run.eq("power-law", P.log_prior_power_law(th, **kw), sreal(power_spec(v, p, d, *[toR(kw[k]) for k in ks])))
    run.eq("power-law-defaults", P.log_prior_power_law(th), sreal(power_spec(v, p, d, ONE, R.num(Fraction("9.21")), ZERO, R.num(Fraction("-9.21")), R.num(Fraction("9.21")), R.num(100))))


def power_tail():
    """Beyond the cutoff a larger variance never has a larger log-prior."""
    P, d, th, v, p = setup()
    kw = dict(lambda_var=run.real("lam"), cut_logvariance_high=run.real("cut"), penalty_factor=run.real("pen"))
    L, C, Q = toR(kw["lambda_var"]), toR(kw["cut_logvariance_high"]), toR(kw["penalty_factor"])
    ctx().assume(rle0(L.neg())), ctx().assume(rle0(Q.neg()))
    ctx().assume(rle0(C - v))
    w = R.arr("larger")
    ctx().assume(rle0(v - w))
    th2 = fn((1 + d,), lambda j: rite(ile(j, I()), w, toR(th.elem((j,)))))
    a, b = toR(P.log_prior_power_law(th, **kw)), toR(P.log_prior_power_law(th2, **kw))
    run.true("no-reward-beyond-cutoff", ctx().decide(rle0(b - a)) is True, "%s" % (b - a,))


def gaussian():
    P, d, th, v, p = setup()
    v0, g, c = run.real("v0"), run.real("gamma"), run.real("coverage")
    bad = ctx().branch(rle0(toR(g) - ONE)) or ctx().branch(rle0(toR(c))) or ctx().branch(rle0(ONE - toR(c)))
    if bad:
        refused("range-checked", lambda: P.log_prior_gaussian_logsigma2(th, v0, gamma=g, sigma2_coverage=c))
        return
    got = P.log_prior_gaussian_logsigma2(th, v0, gamma=g, sigma2_coverage=c)
    q = (ONE + toR(c)).scale(HALF)
    s = rlog(toR(g)) * rinv(Phiinv(q))
    t = (v - toR(v0)) * rinv(s)
    run.eq("gaussian-log-density", got, sreal((t * t).scale(-HALF)))
    # the deviation is the one whose central interval has the requested probability
    std = toR(P._logsigma2_prior_std(g, c))
    u = rlog(toR(g)) * rinv(std)
    run.eq("central-interval-probability", sreal(Phi(u) - Phi(u.neg())), sreal(toR(c)))
    e = lambda x: toR(P.log_prior_gaussian_logsigma2(fn((1 + d,), lambda j: rite(ile(j, I()), x, toR(th.elem((j,))))), v0, gamma=g, sigma2_coverage=c))
    run.eq("zero-at-the-reference", sreal(e(toR(v0))), sreal(ZERO))


def barrier():
    P, d, th, v, p = setup()
    r, rm, r0 = gp.mk("logrho", (d,)), gp.mk("rmin", (d,)), gp.mk("r0", (d,))
    al = run.real("alpha")
    A = toR(al)
    if ctx().branch(rle0(A)):
        refused("slope-checked", lambda: P.neglog_f_logrho(r, rm, r0, alpha=al))
        return
    from .. import fakes

    if ctx().branch(sarr(fakes.r_any(r0 <= rm)).elem(())):
        refused("reference-checked", lambda: P.neglog_f_logrho(r, rm, r0, alpha=al))
        refused("reference-checked-prior", lambda: P.log_prior_logrho_barrier_linear(th, rm, r0, alpha=al))
        return
    got = P.neglog_f_logrho(r, rm, r0, alpha=al)
    run.same_shape("penalty", got, (d,))
    j = I.var("j")
    ctx().assume(ile(I(), j)), ctx().assume(ilt(j, toI(d)))
    run.instances(j)
    s, s0 = toR(r.elem((j,))) - toR(rm.elem((j,))), toR(r0.elem((j,))) - toR(rm.elem((j,)))
    run.true("reference-above-bound", ctx().decide(rlt0(s0.neg())) is True)
    e = toR(got.elem((j,)))
    if not ctx().branch(rlt0(s.neg())):
        run.eq("infinite-at-or-below-the-bound", sreal(e), sreal(INF()))
        return
    # lean/Prior.lean: this function of s has its minimum at s0, is convex, and its slope tends to alpha
    run.eq("barrier-plus-linear", sreal(e), sreal(A * s - A * s0 * rlog(s)))


def barrier_sum():
    P, d, th, v, p = setup()
    rm, r0 = gp.mk("rmin", (d,)), gp.mk("r0", (d,))
    al = run.real("alpha", 0)
    calls = []

    def by_contract(logrho, logrho_min, logrho_0, alpha=None):
        calls.append((logrho, logrho_min, logrho_0, alpha))
        return gp.mk("pen", (d,))

    P.neglog_f_logrho, keep = gp.stand(P.neglog_f_logrho, by_contract), P.neglog_f_logrho
    try:
        got = P.log_prior_logrho_barrier_linear(th, rm, r0, alpha=al)
    finally:
        P.neglog_f_logrho = keep
    run.true("one-penalty", len(calls) == 1)
    run.eq("log-lengths", calls[0][0], fn((d,), lambda j: p(j).neg()))
    run.eq("lower-bounds", calls[0][1], rm)
    run.eq("references", calls[0][2], r0)
    run.eq("slope", calls[0][3], al)
    run.eq("minus-sum", got, sreal(rsum(toI(d), lambda j: R.arr("pen", j)).neg()))


def criteria():
    P, d, th, v, p = setup()
    n = run.integer("n", 1)
    xi, zi = gp.mk("xi", (n, d)), gp.mk("zi", (n,))
    priors = {}

    def by_contract(name):
        def f(*a, **k):
            priors.setdefault(name, []).append((a, k))
            return sreal(R.arr(name))

        return f

    names = ("log_prior_jeffreys_variance", "log_prior_power_law", "log_prior_gaussian_logsigma2", "log_prior_logrho_barrier_linear")
    keep = {k: getattr(P, k) for k in names}
    for k in names:
        setattr(P, k, by_contract(k))
    try:
        _criteria(P, d, th, xi, zi, priors)
    finally:
        for k in names:
            setattr(P, k, keep[k])


SIG = {"log_prior_jeffreys_variance": ("covparam", "lambda_var"), "log_prior_power_law": ("covparam", "lambda_var"),
       "log_prior_gaussian_logsigma2": ("covparam", "log_sigma2_0", "gamma", "sigma2_coverage"),
       "log_prior_logrho_barrier_linear": ("covparam", "logrho_min", "logrho_0", "alpha")}


def _criteria(P, d, th, xi, zi, priors):
    lam, v0, g, c, al = run.real("lambda"), run.real("v0"), run.real("gamma"), run.real("coverage"), run.real("alpha")
    rm, r0 = gp.mk("rmin", (d,)), gp.mk("r0", (d,))
    G, B = "log_prior_gaussian_logsigma2", "log_prior_logrho_barrier_linear"
    cases = [
        ("jeffreys", P.neg_log_restricted_posterior_with_jeffreys_prior, (), dict(lambda_var=lam), {"log_prior_jeffreys_variance": dict(lambda_var=lam)}),
        ("power-law", P.neg_log_restricted_posterior_power_laws_prior, (), {}, {"log_prior_power_law": {}}),
        ("variance", P.neg_log_restricted_posterior_logsigma2_prior, (v0,), dict(gamma=g, sigma2_coverage=c), {G: dict(log_sigma2_0=v0, gamma=g, sigma2_coverage=c)}),
        ("lengths", P.neg_log_restricted_posterior_with_logrho_prior, (rm, r0), dict(alpha=al), {B: dict(logrho_min=rm, logrho_0=r0, alpha=al)}),
        ("both", P.neg_log_restricted_posterior_logsigma2_and_logrho_prior, (v0,), dict(gamma=g, sigma2_coverage=c, logrho_min=rm, logrho_0=r0, alpha=al),
         {G: dict(log_sigma2_0=v0, gamma=g, sigma2_coverage=c), B: dict(logrho_min=rm, logrho_0=r0, alpha=al)}),
    ]
    for name, f, a, k, want in cases:
        m = Model()
        priors.clear()
        got = f(m, th, xi, zi, *a, **k)
        w = R.arr("nlrl")
        for p in want:
            w = w - R.arr(p)
        run.eq(name + "-criterion", got, sreal(w))
        run.true(name + "-likelihood-arguments", len(m.calls) == 1 and all(u is t for u, t in zip(m.calls[0], (th, xi, zi))))
        run.true(name + "-priors-used", sorted(priors) == sorted(want) and all(len(u) == 1 for u in priors.values()), str(sorted(priors)))
        for p, kw in want.items():
            args, kws = priors[p][0]
            full = dict(zip(SIG[p], args), **kws)
            run.true(name + "-prior-parameters", full.pop("covparam") is th and set(full) == set(kw), str(sorted(full)))
            for key in kw:
                run.eq(name + "-" + key, full[key], kw[key])
        run.true(name + "-parameters-unmodified", th.buf.ver == 0)
    refused("both-needs-lengths", lambda: P.neg_log_restricted_posterior_logsigma2_and_logrho_prior(Model(), th, xi, zi, v0))


TASKS = [jeffreys, reference, power, power_tail, gaussian, barrier, barrier_sum, criteria]
