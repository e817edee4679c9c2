import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx
from ..gp import fn
from ..terms import Fraction, I, ONE, R, ZERO, bor, ile, rle0, toI

FUNCTIONS = ["kernel.prior_defaults." + f for f in (
    "get_default_prior_hyperparameters", "set_default_prior_hyperparameters", "set_default_prior_hyperparameters_from_kwargs", "resolve_prior_defaults_for_selection")] + [
    "kernel.priors." + f for f in ("_resolve_prior_defaults", "log_prior_gaussian_logsigma2", "neglog_f_logrho", "log_prior_logrho_barrier_linear",
                                   "neg_log_restricted_posterior_logsigma2_and_logrho_prior")] + [
    "kernel.prior_helpers." + f for f in ("resolve_logsigma2_logrho_prior_args", "compute_logrho_min_from_xi", "resolve_covparam0_prior_and_init", "resolve_covparam0_roles_for_update")] + [
    "kernel.parameter_selection." + f for f in (
        "select_parameters_with_remap", "update_parameters_with_remap", "select_parameters_with_remap_gaussian_logsigma2", "update_parameters_with_remap_gaussian_logsigma2",
        "select_parameters_with_remap_gaussian_logsigma2_and_logrho_prior", "update_parameters_with_remap_gaussian_logsigma2_and_logrho_prior")]
KEYS = ("gamma", "sigma2_coverage", "alpha", "rho_min_range_factor")
KW = ("prior_logsigma2_gamma", "prior_logsigma2_coverage", "prior_logrho_alpha", "prior_logrho_min_range_factor")


def wrong(k, x):
    """x is outside the allowed range of k."""
    r = toR(x)
    return {"gamma": lambda: rle0(r - ONE), "sigma2_coverage": lambda: bor(rle0(r), rle0(ONE - r))}.get(k, lambda: rle0(r))()


def fresh(pre):
    return {k: run.real(pre + k) for k in KEYS}


def start():
    """An arbitrary reachable state: four arbitrary accepted values."""
    import gpmp.kernel.prior_defaults as D

    old = fresh("old_")
    for k in KEYS:
        ctx().assume(_not(wrong(k, old[k])))
    D.set_default_prior_hyperparameters(**old)
    return D, old


def _not(b):
    from ..terms import bnot

    return bnot(b)


def state(D, name, want):
    got = D.get_default_prior_hyperparameters()
    run.true(name + ":keys", set(got) == set(KEYS))
    for k in KEYS:
        run.eq(name + ":" + k, sreal(toR(got[k])), sreal(toR(want[k])))


def update(ks, by_kw):
    def task():
        D, old = start()
        state(D, "accepted", old)
        new = {k: v for k, v in fresh("new_").items() if k in ks}
        bad = [ctx().branch(wrong(k, new[k])) for k in ks]
        kw = dict({KW[KEYS.index(k)]: v for k, v in new.items()}, other="x")
        refused = False
        try:
            if by_kw:
                D.set_default_prior_hyperparameters_from_kwargs(kw)
            else:
                D.set_default_prior_hyperparameters(**new)
        except ValueError:
            refused = True
        run.true("refused-iff-out-of-range", refused == any(bad))
        if by_kw and not refused:
            run.true("recognised-keys-removed", kw == {"other": "x"})
        state(D, "refused-leaves-defaults" if refused else "accepted-changes-given", old if refused else dict(old, **new))

    task.__name__ = "update_%s_%s" % ("kwargs" if by_kw else "call", "".join(k[0] for k in ks) or "none")
    return task


def subsets():
    return [ks for n in range(5) for ks in itertools.combinations(KEYS, n)]


def points():
    n, d = run.integer("n", 1), run.integer("d", 1)
    return n, d, gp.mk("xi", (n, d))


def resolve():
    D, old = start()
    import gpmp.kernel.priors as P

    n, d, xi = points()
    new = fresh("new_")

    class Loader:
        class dataset:
            x_list = [xi, gp.mk("xj", (run.integer("m", 1), d))]

    for ks in subsets():
        kw = {k: new[k] for k in ks}
        want = dict(old, **kw)
        for src in ({}, {"xi": xi}, {"dataloader": Loader()}):
            got = D.resolve_prior_defaults_for_selection(**src, **kw)
            for k, g in zip(KEYS, got):
                run.eq("resolved:" + k, sreal(toR(g)), sreal(toR(want[k])))
        if "rho_min_range_factor" not in ks:
            got = P._resolve_prior_defaults(**kw)
            for k, g in zip(KEYS, got):
                run.eq("resolved-in-prior:" + k, sreal(toR(g)), sreal(toR(want[k])))
    state(D, "resolution-leaves-defaults", old)


def priors():
    """Prior functions with an argument left out equal the same functions with the default given."""
    D, old = start()
    import gpmp.kernel.priors as P

    d = run.integer("d", 1)
    th, v0 = gp.mk("theta", (1 + d,)), run.real("v0")
    new = fresh("new_")
    for k in KEYS:
        ctx().assume(_not(wrong(k, new[k])))
    rm, r0 = gp.mk("rmin", (d,)), gp.mk("r0", (d,))
    from .. import fakes

    ctx().assume(_not(sarr(fakes.r_any(r0 <= rm)).elem(())))
    for ks in itertools.chain.from_iterable(itertools.combinations(KEYS[:2], n) for n in range(3)):
        kw = {k: new[k] for k in ks}
        full = {k: v for k, v in dict(old, **kw).items() if k in KEYS[:2]}
        run.eq("variance-prior", P.log_prior_gaussian_logsigma2(th, v0, **kw), P.log_prior_gaussian_logsigma2(th, v0, **full))
    for kw, full in (({}, dict(alpha=old["alpha"])), (dict(alpha=new["alpha"]),) * 2):
        run.eq("length-penalty", P.neglog_f_logrho(th[1:], rm, r0, **kw), P.neglog_f_logrho(th[1:], rm, r0, **full))
        run.eq("length-prior", P.log_prior_logrho_barrier_linear(th, rm, r0, **kw), P.log_prior_logrho_barrier_linear(th, rm, r0, **full))
    state(D, "priors-leave-defaults", old)


class Model:
    def __init__(self, covparam):
        self.covparam = covparam


def selection(route, both):
    def task():
        D, old = start()
        import gpmp.kernel.parameter_selection as S
        import gpmp.kernel.prior_helpers as H

        n, d, xi = points()
        zi, c0 = gp.mk("zi", (n,)), gp.mk("c0", (1 + d,))
        new = fresh("new_")
        calls = []
        keep = {}

        def stub(mod, name, f):
            keep[(mod, name)] = getattr(mod, name)
            setattr(mod, name, gp.stand(keep[(mod, name)], f))

        crits = ("neg_log_restricted_posterior_logsigma2_prior", "neg_log_restricted_posterior_logsigma2_and_logrho_prior")
        for c in crits:
            stub(S, c, lambda m, covparam, x, z, c=c, **k: calls.append((c, covparam, x, z, k)))
        factors = []
        stub(H, "compute_logrho_min_from_xi", lambda x, prior_rho_min_range_factor=None: factors.append((x, prior_rho_min_range_factor)) or gp.mk("rmin", (d,)))
        got = {}
        stub(S, "select_parameters_with_criterion", lambda model, criterion, **k: got.update(k, criterion=criterion) or (model, None))
        try:
            for ks in subsets():
                if not both and any(k not in KEYS[:2] for k in ks):
                    continue
                D.set_default_prior_hyperparameters(**old)
                want = dict(old, **{k: new[k] for k in ks})
                del calls[:], factors[:]
                kw = {"prior_" + k: new[k] for k in ks}
                if route.startswith("select"):
                    kw["covparam0"] = c0
                m = Model(c0)
                getattr(S, route)(m, xi=xi, zi=zi, **kw)
                run.eq("start", got["covparam0"], c0)
                run.true("data", got["xi"] is xi and got["zi"] is zi)
                # later changes of the defaults do not reach a selection under way
                D.set_default_prior_hyperparameters(gamma=7.0, sigma2_coverage=0.5, alpha=7.0)
                th = gp.mk("theta", (1 + d,))
                got["criterion"](m, th, xi, zi)
                run.true("criterion-used", len(calls) == 1 and calls[0][0] == crits[1 if both else 0] and calls[0][1] is th and calls[0][2] is xi and calls[0][3] is zi)
                k = calls[0][4]
                run.eq("gamma", sreal(toR(k["gamma"])), sreal(toR(want["gamma"])))
                run.eq("coverage", sreal(toR(k["sigma2_coverage"])), sreal(toR(want["sigma2_coverage"])))
                run.eq("variance-reference", sreal(toR(k["log_sigma2_0"])), sreal(toR(c0[0])))
                if both:
                    run.eq("alpha", sreal(toR(k["alpha"])), sreal(toR(want["alpha"])))
                    run.eq("length-reference", k["logrho_0"], fn((d,), lambda j: toR(c0.elem((j.add(I((), 1)),))).neg()))
                    run.eq("length-bound", k["logrho_min"], gp.mk("rmin", (d,)))
                    run.true("bound-from-the-data", len(factors) == 1 and factors[0][0] is xi)
                    run.eq("range-factor", sreal(toR(factors[0][1])), sreal(toR(want["rho_min_range_factor"])))
        finally:
            for (mod, name), f in keep.items():
                setattr(mod, name, f)

    task.__name__ = route
    return task


ROUTES = [("select_parameters_with_remap", True), ("update_parameters_with_remap", True), ("select_parameters_with_remap_gaussian_logsigma2", False),
          ("update_parameters_with_remap_gaussian_logsigma2", False)]
TASKS = [update(ks, b) for b in (False, True) for ks in subsets()] + [resolve, priors] + [selection(*r) for r in ROUTES]
