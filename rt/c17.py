import inspect
from math import inf, log, nan

import numpy as np

import gpmp as gp
import gpmp.num as gnp
from gpmp.kernel import parameter_selection as S
from gpmp.kernel import prior_defaults as D
from gpmp.kernel import prior_helpers as H
from gpmp.kernel import priors as P

from .c16 import barrier, f, gauss
from .core import Skip, check, np_, spied
from .gpx import A, kernel, linear_mean

KEYS = ("gamma", "sigma2_coverage", "alpha", "rho_min_range_factor")
KW = ("prior_logsigma2_gamma", "prior_logsigma2_coverage", "prior_logrho_alpha", "prior_logrho_min_range_factor")
BAD = {"gamma": [1.0, 0.3, -2.0, nan, -inf], "sigma2_coverage": [0.0, 1.0, -0.1, 1.7, nan], "alpha": [0.0, -1.0, nan],
       "rho_min_range_factor": [0.0, -0.5, nan]}


def good(t, k):
    u = float(t.rng.random())
    return {"gamma": 1.05 + 4 * u, "sigma2_coverage": 0.02 + 0.96 * u, "alpha": 0.05 + 4 * u, "rho_min_range_factor": 0.001 + 0.4 * u}[k]


def start(t):
    v = {k: good(t, k) for k in KEYS}
    D.set_default_prior_hyperparameters(**v)
    return v


@check(60)
def history(t):
    cur = start(t)
    log_ = [dict(cur)]
    for _ in range(t.size("steps", 1, 12)):
        ks = [k for k in KEYS if t.rng.random() < 0.6]
        new = {k: good(t, k) for k in ks}
        wrong = [k for k in ks if t.rng.random() < 0.25]
        for k in wrong:
            new[k] = BAD[k][int(t.rng.integers(len(BAD[k])))]
        by_kw = t.rng.random() < 0.4
        log_.append(dict(new))
        t.put(history=[repr(u) for u in log_], by_kwargs=bool(by_kw))
        other = {"method": "SLSQP", "info": True}
        kw = dict(other, **{KW[KEYS.index(k)]: v for k, v in new.items()})
        refused = False
        try:
            if by_kw:
                D.set_default_prior_hyperparameters_from_kwargs(kw)
            else:
                D.set_default_prior_hyperparameters(**new)
        except ValueError:
            refused = True
        t.true("refused exactly when a value is out of range", refused == bool(wrong), update=repr(new), refused=refused)
        if not refused:
            cur.update(new)
            if by_kw:
                t.true("recognised keys removed, the others kept", kw == other, left=repr(kw))
        got = D.get_default_prior_hyperparameters()
        t.true("defaults after the update", {k: float(got[k]) for k in KEYS} == cur and set(got) == set(KEYS), got=repr(got), want=repr(cur))
        got["gamma"] = -5.0
        t.true("the returned table is a copy", D.get_default_prior_hyperparameters()["gamma"] == cur["gamma"])


@check(60)
def resolution(t):
    cur = start(t)
    given = {k: good(t, k) for k in KEYS if t.rng.random() < 0.5}
    t.put(defaults=repr(cur), given=repr(given))
    want = dict(cur, **given)
    n, d = t.size("n", 3, 8), t.size("d", 1, 3, 9)
    x = t.rng.random((n, d))
    xi = t.pick("xi", [None, "given"]) and A(x)
    t.close("resolved", D.resolve_prior_defaults_for_selection(xi=xi, **given), [want[k] for k in KEYS], 1e-12)
    th = t.rng.normal(size=1 + d)
    v0 = float(t.rng.normal())
    g = {k: v for k, v in given.items() if k in ("gamma", "sigma2_coverage")}
    t.close("variance prior", f(P.log_prior_gaussian_logsigma2(A(th), v0, **g)), gauss(th[0], v0, want["gamma"], want["sigma2_coverage"]))
    r = -th[1:]
    rmin = r - 0.2 - t.rng.random(d)
    r0 = rmin + 0.1 + t.rng.random(d)
    a = {k: v for k, v in given.items() if k == "alpha"}
    b = barrier(r, rmin, r0, want["alpha"])
    t.close("length penalty", P.neglog_f_logrho(A(r), A(rmin), A(r0), **a), b)
    t.close("length prior", f(P.log_prior_logrho_barrier_linear(A(th), A(rmin), A(r0), **a)), -b.sum())

    class M:
        def negative_log_restricted_likelihood(self, covparam, xi, zi):
            return gnp.sum(covparam) * 0.0 + 7.0

    gg = gauss(th[0], v0, want["gamma"], want["sigma2_coverage"])
    t.close("criterion, variance", f(P.neg_log_restricted_posterior_logsigma2_prior(M(), A(th), A(x), None, v0, **g)), 7.0 - gg)
    t.close("criterion, lengths", f(P.neg_log_restricted_posterior_with_logrho_prior(M(), A(th), A(x), None, A(rmin), A(r0), **a)), 7.0 + b.sum())
    t.close("criterion, both", f(P.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
        M(), A(th), A(x), None, v0, logrho_min=A(rmin), logrho_0=A(r0), **dict(g, **a))), 7.0 - gg + b.sum())
    c0 = t.rng.normal(size=1 + d)
    c0[1:] = -4.0 - t.rng.random(d)
    full = {"prior_" + k: v for k, v in given.items()}
    res = H.resolve_logsigma2_logrho_prior_args(covparam0_prior=A(c0), xi=A(x), **full)
    t.close("selection hyperparameters", res[:4], [want[k] for k in KEYS], 1e-12)
    t.close("anchored variance", f(res[4]), c0[0])
    t.close("anchored lengths", res[5], -c0[1:])
    t.close("range factor used", res[6], np_(H.compute_logrho_min_from_xi(A(x), want["rho_min_range_factor"])))
    k = {} if "rho_min_range_factor" not in given else {"prior_rho_min_range_factor": given["rho_min_range_factor"]}
    t.close("lower bound default", H.compute_logrho_min_from_xi(A(x), **k), np_(H.compute_logrho_min_from_xi(A(x), want["rho_min_range_factor"])))
    t.true("defaults untouched by calls", {k: float(v) for k, v in D.get_default_prior_hyperparameters().items()} == cur)


@check(12)
def selection(t):
    """The criterion optimised by a selection call uses the resolved hyperparameters."""
    cur = start(t)
    given = {k: good(t, k) for k in KEYS if t.rng.random() < 0.5}
    want = dict(cur, **given)
    t.put(defaults=repr(cur), given=repr(given))
    n, d = t.size("n", 4, 7), t.size("d", 1, 2, 9)
    x = t.rng.random((n, d))
    z = t.rng.normal(size=n)
    c0 = np.concatenate([[0.3], -3.0 - t.rng.random(d)])
    m = gp.core.Model(linear_mean(1), kernel, meanparam=A([]), covparam=A(c0))
    seen = {}
    keep = S.select_parameters_with_criterion

    def spy(model, criterion, **kw):
        seen.update(kw, criterion=criterion)
        return model, None

    S.select_parameters_with_criterion = spied(keep, lambda *a, **kw: spy(**inspect.signature(keep).bind(*a, **kw).arguments))
    try:
        both = t.pick("both", [True, False])
        if both:
            fun = t.pick("route", ["select_parameters_with_remap", "update_parameters_with_remap"])
            kw = {"prior_" + k: v for k, v in given.items()}
        else:
            fun = t.pick("route", ["select_parameters_with_remap_gaussian_logsigma2", "update_parameters_with_remap_gaussian_logsigma2"])
            kw = {"prior_" + k: v for k, v in given.items() if k in ("gamma", "sigma2_coverage")}
        if fun.startswith("select"):
            kw["covparam0"] = A(c0)
        getattr(S, fun)(m, xi=A(x), zi=A(z), **kw)
    finally:
        S.select_parameters_with_criterion = keep
    if not seen:
        raise Skip()  # not selected through the function replaced above
    D.set_default_prior_hyperparameters(gamma=9.0, alpha=9.0, sigma2_coverage=0.11)  # resolved when the call was made
    th = np.concatenate([[0.1], -2.5 - t.rng.random(d)])
    nl = f(m.negative_log_restricted_likelihood(A(th), A(x), A(z)))
    w = nl - gauss(th[0], c0[0], want["gamma"], want["sigma2_coverage"])
    if both:
        rmin = np_(H.compute_logrho_min_from_xi(A(x), want["rho_min_range_factor"]))
        w = w + barrier(-th[1:], rmin, -c0[1:], want["alpha"]).sum()
    t.close("criterion of the selection", f(seen["criterion"](m, A(th), A(x), A(z))), w)
    t.close("start", seen["covparam0"], c0)
