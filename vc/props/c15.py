import itertools

from .. import gp, run
from ..arr import sarr, sreal, toR
from ..core import ctx, rexp, rlog
from ..gp import fn
from ..terms import I, POS, R

FUNCTIONS = ["parameter.param.Param." + f for f in (
    "__init__", "_parse_normalizations", "_check_consistency", "values", "denormalized_values", "_normalize", "_denormalize", "get_by_name", "set_by_name",
    "get_by_path", "set_by_path", "set_from_unnormalized", "check_bounds", "__getitem__", "__add__", "concat", "to_dict", "to_simple_dict", "indices_by_path_prefix",
    "names_by_path_prefix", "select_by_path_prefix")] + ["parameter.param.make_anisotropic_param", "parameter.param.param_from_covparam_anisotropic", "parameter.param.param_from_covparam_anisotropic_noisy"]
KINDS = ("none", "log", "log_inv")
BOUND = "vectors of one to four entries (all values, scalings and layouts)"


def nat(k, r):
    return {"none": lambda r: r, "log": rexp, "log_inv": lambda r: rexp(r.neg())}[k](r)


def st(k, r):
    return {"none": lambda r: r, "log": rlog, "log_inv": lambda r: rlog(r).neg()}[k](r)


def vec(rs):
    return fn((len(rs),), lambda i: pick(rs, i))


def pick(rs, i):
    from ..arr import pick as p

    return rs[i.const] if i.const is not None else p(i, len(rs), lambda v: rs[v], "f")


def make(norms, paths=None):
    import gpmp.parameter.param as P

    n = len(norms)
    v = gp.mk("v", (n,))
    rs = [toR(v.elem((I((), i),))) for i in range(n)]
    names = ["n%d" % i for i in range(n)]
    paths = paths or [["g%d" % (i % 2)] for i in range(n)]
    bounds = [None if i % 2 else (float(i), float(i) + 1) for i in range(n)]
    ctx().ghost["bounded"] = BOUND
    return P, rs, names, paths, bounds, P.Param(gp.mk("v", (n,)), [list(p) for p in paths], list(norms), list(names), list(bounds))


def aligned(what, Q, rs, names, paths, norms, bounds):
    run.true(what + ":labels", Q.dim == len(rs) and Q.names == names and Q.paths == paths and [x.value for x in Q.normalizations] == list(norms) and Q.bounds == bounds)
    run.same_shape(what, Q.values, (len(rs),))
    for i, r in enumerate(rs):
        run.eq(what + ":values", sreal(toR(Q.values[i])), sreal(r))


def natural(n):
    def task():
        for norms in itertools.product(KINDS, repeat=n):
            P, rs, names, paths, bounds, p = make(norms)
            d = p.denormalized_values
            for i, k in enumerate(norms):
                run.eq("read-natural", sreal(toR(d[i])), sreal(nat(k, rs[i])))
            p.denormalized_values = d
            aligned("write-back", p, rs, names, paths, norms, bounds)
            w = gp.mk("w", (n,), pos=True)
            ws = [toR(w.elem((I((), i),))) for i in range(n)]
            p.denormalized_values = w
            aligned("written-natural", p, [st(k, r) for k, r in zip(norms, ws)], names, paths, norms, bounds)
            d = p.denormalized_values
            for i in range(n):
                run.eq("read-what-was-written", sreal(toR(d[i])), sreal(ws[i]))
            try:
                p.denormalized_values = gp.mk("u", (n + 1,))
                ok = False
            except ValueError:
                ok = True
            run.true("wrong-size-refused", ok)

    return task


def addressed(n):
    def task():
        for norms in itertools.product(KINDS, repeat=n):
            for i in range(n):
                P, rs, names, paths, bounds, p = make(norms)
                run.eq("read-by-name", sreal(toR(p.get_by_name(names[i]))), sreal(rs[i]))
                a, b = R.arr("a"), R.arr("b")
                POS.add("b")
                p.set_by_name(names[i], sreal(a))
                cur = rs[:i] + [a] + rs[i + 1 :]
                aligned("set-by-name", p, cur, names, paths, norms, bounds)
                p.set_from_unnormalized(**{names[i]: sreal(b)})
                cur[i] = st(norms[i], b)
                aligned("set-natural", p, cur, names, paths, norms, bounds)
                run.eq("natural-reads-back", sreal(toR(p.denormalized_values[i])), sreal(b))

    return task


LAYOUTS = [
    [["a"], ["a", "x"], ["b"]], [["a", "x"], ["b"], ["a", "x"]], [["b"], ["a"], ["a", "x", "y"]], [["a"], ["a"], ["a"]], [["a", "x"], ["a", "x"], ["a"], ["b", "a"]],
    [["a"], ["ab"], ["a", "b"]], [["ab", "x"], ["a", "x"], ["a", "xy"]],
]


def by_path():
    for paths in LAYOUTS:
        n = len(paths)
        norms = [KINDS[i % 3] for i in range(n)]
        for q in (["a"], ["a", "x"], ["b"]):
            for pm in (False, True):
                P, rs, names, _, bounds, p = make(norms, paths)
                idx = [i for i in range(n) if (paths[i][: len(q)] == q if pm else paths[i] == q)]
                if idx:
                    got = p.get_by_path(list(q), prefix_match=pm)
                    run.same_shape("read-by-path", got, (len(idx),))
                    for j, i in enumerate(idx):
                        run.eq("read-by-path", sreal(toR(got[j])), sreal(rs[i]))
                if pm:
                    run.true("indices-by-path", p.indices_by_path_prefix(list(q)) == idx and p.names_by_path_prefix(list(q)) == [names[i] for i in idx])
                new = [sreal(R.arr("c%d" % j)) for j in range(len(idx))]
                p.set_by_path(list(q), new, prefix_match=pm)
                cur = list(rs)
                for j, i in enumerate(idx):
                    cur[i] = toR(new[j])
                aligned("set-by-path", p, cur, names, paths, norms, bounds)
                try:
                    p.set_by_path(list(q), [sreal(R.num(0))] * (len(idx) + 1), prefix_match=pm)
                    ok = False
                except ValueError:
                    ok = True
                run.true("wrong-number-refused", ok)
                aligned("refused-write-changes-nothing", p, cur, names, paths, norms, bounds)
    ctx().ghost["bounded"] = "layouts of up to four paths"


def slices():
    for n in (1, 2, 3):
        norms = [KINDS[i % 3] for i in range(n)]
        for k in range(n + 1):
            P, rs, names, paths, bounds, p = make(norms)
            a, b = p[:k], p[k:]
            aligned("head", a, rs[:k], names[:k], paths[:k], norms[:k], bounds[:k])
            aligned("tail", b, rs[k:], names[k:], paths[k:], norms[k:], bounds[k:])
            aligned("halves-concatenated", P.Param.concat(a, b), rs, names, paths, norms, bounds)
            aligned("halves-added", a + b, rs, names, paths, norms, bounds)
        for i in range(n):
            aligned("entry", p[i], rs[i : i + 1], names[i : i + 1], paths[i : i + 1], norms[i : i + 1], bounds[i : i + 1])
        s = slice(None, None, 2)
        q = p[s]
        aligned("stride", q, rs[s], names[s], paths[s], norms[s], bounds[s])
        q.set_by_name(names[0], sreal(R.arr("a")))
        aligned("slice-is-a-copy", p, rs, names, paths, norms, bounds)
        c = P.Param.concat(p, q)
        c.set_by_name(names[0], sreal(R.arr("a")))
        aligned("concatenation-is-a-copy", p, rs, names, paths, norms, bounds)


def builders():
    import gpmp.parameter.param as P

    for d in (1, 2, 3):
        th = gp.mk("th", (d + 1,))
        for p in (P.make_anisotropic_param(values=th), P.param_from_covparam_anisotropic(th)):
            kinds = ["log"] + ["log_inv"] * d
            run.true("anisotropic-names", p.names == ["sigma2"] + ["rho_%d" % i for i in range(d)] and [x.value for x in p.normalizations] == kinds)
            v = p.denormalized_values
            for i in range(d + 1):
                run.eq("anisotropic-natural", sreal(toR(v[i])), sreal(nat(kinds[i], toR(th.elem((I((), i),))))))
        th = gp.mk("th2", (d + 2,))
        p = P.param_from_covparam_anisotropic_noisy(th)
        kinds = ["log", "log"] + ["log_inv"] * d
        run.true("noisy-names", p.names == ["sigma2", "sigma2_noise"] + ["rho_%d" % i for i in range(d)] and [x.value for x in p.normalizations] == kinds)
    ctx().ghost["bounded"] = "one to three input dimensions"


TASKS = []
for n in (1, 2, 3):
    for f in (natural, addressed):
        t = f(n)
        t.__name__ = "%s_%d" % (f.__name__, n)
        TASKS.append(t)
TASKS += [by_path, slices, builders]
