import numpy as np

import gpmp.num as gnp
from gpmp.parameter.param import Normalization, Param, make_anisotropic_param, param_from_covparam_anisotropic, param_from_covparam_anisotropic_noisy

from .core import check, np_

PATHS = [["cov"], ["cov", "variance"], ["cov", "length"], ["mean"], ["noise", "a"], ["noise", "a", "b"], ["covariate"], ["cov", "var"], ["co"], ["v", "cov"]]
NORMS = ["none", "log", "log_inv", Normalization.NONE, Normalization.LOG, Normalization.LOG_INV]


def kind(n):
    return n.value if isinstance(n, Normalization) else n


def nat(v, n):
    return {"none": v, "log": np.exp(v), "log_inv": np.exp(-v)}[kind(n)]


def st(v, n):
    return {"none": v, "log": np.log(v), "log_inv": -np.log(v)}[kind(n)]


def make(t, lo=0, hi=6):
    n = t.size("n", lo, hi)
    v = t.rng.normal(size=n) * t.pick("scale", [1.0, 5.0])
    names = ["p%d" % i for i in t.rng.permutation(n)]
    paths = [list(PATHS[t.rng.integers(len(PATHS))]) for _ in range(n)]
    norms = [NORMS[t.rng.integers(len(NORMS))] for _ in range(n)]
    bounds = [None if t.rng.random() < 0.4 else (float(i) + 0.5, float(i) + 1.5) for i in range(n)]
    t.put(values=v.tolist(), names=str(names), paths=str(paths), scalings=str([kind(x) for x in norms]))
    return n, v, names, paths, norms, bounds, Param(gnp.asarray(v.copy()), [list(p) for p in paths], list(norms), list(names), list(bounds))


def aligned(t, what, P, v, names, paths, norms, bounds):
    t.true(what + ": dimension", P.dim == len(v), got=P.dim)
    t.close(what + ": values", P.values, v, 1e-13, 0)
    t.true(what + ": names", P.names == list(names), got=P.names, want=list(names))
    t.true(what + ": paths", P.paths == [list(p) for p in paths], got=P.paths)
    t.true(what + ": scalings", [n.value for n in P.normalizations] == [kind(n) for n in norms])
    t.true(what + ": bounds", P.bounds == list(bounds), got=P.bounds)


@check(60)
def natural_units(t):
    n, v, names, paths, norms, bounds, P = make(t)
    want = np.array([nat(a, k) for a, k in zip(v, norms)])
    t.close("reading in natural units", P.denormalized_values, want, 1e-12, 0)
    if n:
        d = P.to_simple_dict()
        t.true("simple dictionary", list(d) == names)
        t.close("simple dictionary values", np.array([float(d[a]) for a in names]), want, 1e-12, 0)
        full = P.to_dict()
        for i, a in enumerate(names):
            e = full[a]
            t.true("dictionary entry", e["path"] == paths[i] and e["normalization"] == kind(norms[i]) and e["bounds"] == bounds[i])
            t.close("dictionary value", float(e["value"]), v[i], 1e-13, 0)
            t.close("dictionary natural value", float(e["denormalized"]), want[i], 1e-12, 0)
    P.denormalized_values = P.denormalized_values
    aligned(t, "write back what was read", P, v, names, paths, norms, bounds)
    w = np.exp(t.rng.normal(size=n))
    P.denormalized_values = gnp.asarray(w)
    t.close("read what was written", P.denormalized_values, w, 1e-12, 0)
    t.close("stored value", P.values, np.array([st(a, k) for a, k in zip(w, norms)]), 1e-10, 1e-12)
    t.raises("wrong size", ValueError, lambda: setattr(P, "denormalized_values", gnp.asarray(np.ones(n + 1))))
    if n:
        lo = [b is None or b[0] <= x <= b[1] for b, x in zip(bounds, w)]
        t.true("bounds check", [bool(b) for b in P.check_bounds()] == lo, got=[bool(b) for b in P.check_bounds()], want=lo)


@check(80)
def addressed(t):
    """A random sequence of addressed writes against a plain model of the vector."""
    n, v, names, paths, norms, bounds, P = make(t, 1)
    cur = v.copy()
    for step in range(6):
        op = t.pick("op%d" % step, ["name", "path", "prefix", "natural", "values", "read", "view"])
        if op == "name":
            i = int(t.rng.integers(n))
            cur[i] = t.rng.normal()
            P.set_by_name(names[i], float(cur[i]))
        elif op in ("path", "prefix"):
            p = PATHS[t.rng.integers(len(PATHS))]
            idx = [i for i in range(n) if (paths[i][: len(p)] == p if op == "prefix" else paths[i] == p)]
            new = t.rng.normal(size=len(idx))
            P.set_by_path(list(p), new.tolist(), prefix_match=op == "prefix")
            cur[idx] = new
            t.raises("wrong number of values", ValueError, lambda: P.set_by_path(list(p), [0.0] * (len(idx) + 1), prefix_match=op == "prefix"))
        elif op == "natural":
            idx = t.rng.permutation(n)[: int(t.rng.integers(0, n + 1))]
            val = np.exp(t.rng.normal(size=len(idx)))
            P.set_from_unnormalized(**{names[i]: float(x) for i, x in zip(idx, val)})
            for i, x in zip(idx, val):
                cur[i] = st(x, norms[i])
        elif op == "values":
            cur = t.rng.normal(size=n)
            P.values = gnp.asarray(cur.copy())
        elif op == "view":
            i = int(t.rng.integers(n))
            w = P.get_by_name(names[i], return_view=True)
            t.close("view of a name", w, cur[i : i + 1], 1e-12, 0)
            cur[i] = 0.25
            w[0] = 0.25
        else:
            i = int(t.rng.integers(n))
            t.close("read by name", float(P.get_by_name(names[i])), cur[i], 1e-12, 1e-13)
            for p in PATHS:
                for pm in (False, True):
                    idx = [i for i in range(n) if (paths[i][: len(p)] == p if pm else paths[i] == p)]
                    if idx:
                        got = P.get_by_path(list(p), prefix_match=pm)
                        t.close("read by path", got, cur[idx], 1e-12, 1e-13)
                        got[0] = 77.0
                        if idx == list(range(idx[0], idx[-1] + 1)):
                            w = P.get_by_path(list(p), prefix_match=pm, return_view=True)
                            t.close("view by path", w, cur[idx], 1e-12, 1e-13)
                            cur[idx[0]] = w[0] = 0.5
                        else:
                            t.raises("view of scattered entries", ValueError, lambda: P.get_by_path(list(p), prefix_match=pm, return_view=True))
                    if pm:
                        t.true("indices by path", P.indices_by_path_prefix(list(p)) == idx)
                        t.true("names by path", P.names_by_path_prefix(list(p)) == [names[i] for i in idx])
                        if idx:
                            t.close("select by path", P.select_by_path_prefix(list(p)), cur[idx], 1e-12, 1e-13)
        aligned(t, op, P, cur, names, paths, norms, bounds)
    t.raises("unknown name", ValueError, lambda: P.set_by_name("nobody", 1.0))
    t.raises("unknown name read", ValueError, lambda: P.get_by_name("nobody"))


@check(60)
def slices(t):
    n, v, names, paths, norms, bounds, P = make(t, 1)
    k = int(t.rng.integers(0, n + 1))
    a, b = P[:k], P[k:]
    aligned(t, "head", a, v[:k], names[:k], paths[:k], norms[:k], bounds[:k])
    aligned(t, "tail", b, v[k:], names[k:], paths[k:], norms[k:], bounds[k:])
    for Q in (Param.concat(a, b), a + b):
        aligned(t, "concatenation of the halves", Q, v, names, paths, norms, bounds)
    s = slice(int(t.rng.integers(-n, n)), None, int(t.rng.integers(1, 3)))
    idx = list(range(n))[s]
    pick = lambda xs: [xs[i] for i in idx]
    aligned(t, "slice", P[s], v[idx], pick(names), pick(paths), pick(norms), pick(bounds))
    i = int(t.rng.integers(n))
    aligned(t, "single entry", P[i], v[i : i + 1], names[i : i + 1], paths[i : i + 1], norms[i : i + 1], bounds[i : i + 1])
    c = Param.concat(P, P[:1], P[k:])
    aligned(t, "three parts", c, np.concatenate([v, v[:1], v[k:]]), names + names[:1] + names[k:], paths + paths[:1] + paths[k:], norms + norms[:1] + norms[k:], bounds + bounds[:1] + bounds[k:])
    # a slice is independent of the vector it came from
    w = P[:]
    w.set_by_name(names[0], 123.0)
    aligned(t, "original after writing to a slice", P, v, names, paths, norms, bounds)


@check(30)
def construction(t):
    d = t.size("d", 1, 5, 9)
    th = t.rng.normal(size=d + 1)
    for P in (make_anisotropic_param(values=th), param_from_covparam_anisotropic(th)):
        want = np.concatenate([[np.exp(th[0])], np.exp(-th[1:])])
        t.close("anisotropic natural values", P.denormalized_values, want, 1e-12, 0)
        t.true("anisotropic names", P.names == ["sigma2"] + ["rho_%d" % i for i in range(d)])
        t.close("length scales by path", P.get_by_path(["covparam", "lengthscale"]), th[1:], 1e-13, 0)
    th = t.rng.normal(size=d + 2)
    P = param_from_covparam_anisotropic_noisy(th)
    t.close("noisy natural values", P.denormalized_values, np.concatenate([np.exp(th[:2]), np.exp(-th[2:])]), 1e-12, 0)
    P = make_anisotropic_param(d)
    t.close("default values", P.values, np.concatenate([[0.0], -np.ones(d)]), 0, 0)
    t.close("as many zeros", Param(dim=d).values, np.zeros(d), 0, 0)
    t.true("one path, name and bound for each", [len(Param(dim=d).paths), len(Param(dim=d).names), len(Param(dim=d).bounds)] == [d] * 3)
    t.shape("empty vector", Param().values, (0,))
    t.raises("names missing", ValueError, lambda: Param(gnp.asarray(th), names=["a"] * (d + 1)))
    t.raises("bounds missing", ValueError, lambda: Param(gnp.asarray(th), bounds=[None] * (d + 3)))
    t.raises("unknown scaling", ValueError, lambda: Param(gnp.asarray(th), normalizations=["square"] * (d + 2)))
