from .. import gp, la, run
from ..arr import SInt, sarr, sreal, toR
from ..core import ctx, ind, renorm, rsum, rinv, sub
from ..gp import fn
from ..loops import Open
from ..terms import Fraction, I, R, ZERO, band, bnot, ieq, ile, ilt, toI

FUNCTIONS = [
    "core.model.Model.fisher_information", "core.fisher.fisher_information", "core.fisher.fisher_information_cpd",
    "num.shared.derivative_finite_diff", "num.*.inv", "num.*.trace", "num.*.cholesky_solve",
]
SIZES = (1, 2, 3)


def setup(p):
    import gpmp as g

    n, d = run.integer("n", 1), run.integer("d", 1)
    xi, th, k = gp.points("xi", n, d), gp.mk("theta", (p,)), gp.Kernel()
    e = sreal(R.arr("eps"))
    return g, n, xi, th, k, e


def dcov(k, xi, th, p, i, e):
    """(-K(t+2h) + 8 K(t+h) - 8 K(t-h) + K(t-2h)) / (12 h) along coordinate i."""
    def K(c):
        t = fn((p,), lambda l: toR(th.elem((l,))) + ind(ieq(l, I((), i))) * toR(e).scale(c))
        return k(xi, xi, t)
    A, B_, C, D = K(2), K(1), K(-1), K(-2)
    h = rinv(toR(e).scale(12))
    return fn(A.shp, lambda a, b: (toR(B_.elem((a, b))).scale(8) - toR(A.elem((a, b))) - toR(C.elem((a, b))).scale(8) + toR(D.elem((a, b)))) * h)


def trace_form(M, X, Y, n):
    N = toI(n)
    A, B_ = M @ X, M @ Y
    return rsum(N, lambda i: rsum(N, lambda j: toR(A.elem((i, j))) * toR(B_.elem((j, i))))).scale(Fraction(1, 2))


def compare(F, p, spec):
    run.same_shape("size", F, (p, p))
    for i in range(p):
        for j in range(p):
            run.eq("entry", sreal(toR(F.elem((I((), i), I((), j))))), sreal(spec(i, j)))
            run.eq("symmetric", sreal(toR(F.elem((I((), i), I((), j))))), sreal(toR(F.elem((I((), j), I((), i))))))


def plain():
    for p in SIZES:
        g, n, xi, th, k, e = setup(p)
        mod = g.core.Model(None, k, None, th, meantype="zero")
        M = la.inv(k(xi, xi, th))
        D = [dcov(k, xi, th, p, i, e) for i in range(p)]
        spec = lambda i, j: trace_form(M, D[i], D[j], n)
        compare(mod.fisher_information(xi, covparam=th, epsilon=e), p, spec)
        compare(mod.fisher_information(xi, epsilon=e), p, spec)
        from gpmp.core import fisher

        compare(fisher.fisher_information_cpd(mod, xi, epsilon=e), p, spec)
    ctx().ghost["bounded"] = "number of covariance parameters 1..3"


def default_step():
    from ..arr import sarr

    g, n, xi, th, k, e = setup(2)
    mod = g.core.Model(None, k, None, th, meantype="zero")
    e = sreal(R.num(Fraction(1, 1000)))
    M = la.inv(k(xi, xi, th))
    D = [dcov(k, xi, th, 2, i, e) for i in range(2)]
    compare(mod.fisher_information(xi), 2, lambda i, j: trace_form(M, D[i], D[j], n))
    run.true("parameters-unmodified", th.buf.ver == 0)


def contrasts():
    from gpmp.core import fisher

    for p in SIZES:
        g, n, xi, th, k, e = setup(p)
        q = run.integer("q", 1)
        ctx().assume(ilt(toI(q), toI(n)))
        mf = gp.MeanFn(q)
        mod = g.core.Model(mf, k, None, th, meantype="linear_predictor")
        Q, _ = la.qr(mf(xi, None), "complete")
        W = Q[:, q:]
        M = la.inv(W.T @ (k(xi, xi, th) @ W))
        D = [W.T @ (dcov(k, xi, th, p, i, e) @ W) for i in range(p)]
        compare(fisher.fisher_information_cpd(mod, xi, covparam=th, epsilon=e), p, lambda i, j: trace_form(M, D[i], D[j], n - q))
    ctx().ghost["bounded"] = "number of covariance parameters 1..3"


class Along:
    """An arbitrary kernel at theta and at theta moved along one coordinate: k(i, shift; x, y)."""

    __name__ = "kernel"

    def __init__(self, th):
        self.th = th

    def __call__(self, x, y, t, pairwise=False):
        x, t = sarr(x), sarr(t)
        y = x if y is None else sarr(y)
        l = I.var("l~")
        run.same_shape("parameters", t, (SInt(self.th.shp[0]),))
        for u in [None] + [s[0] for s in reversed(ctx().scopes)]:
            with sub(band(ile(I(), l), ilt(l, t.shp[0]), *([] if u is None else [bnot(ieq(l, I.bv(u)))]))) as ok:
                if ok and (toR(t.elem((l,))) - toR(self.th.elem((l,)))).key() != ZERO.key():
                    continue
            if u is None:
                return self.at(x, y, I(), ZERO)
            return self.at(x, y, I.bv(u), toR(t.elem((I.bv(u),))) - toR(self.th.elem((I.bv(u),))))
        raise Open("parameters that are neither theta nor theta moved along the coordinate of the loop")

    def derivative(self, f, x, h):
        """The derivative along coordinate i of the kernel between the points of f, at x = theta(i)."""
        s = toR(sarr(x).elem(())) + R.arr("s")
        v = sarr(f(sreal(s)))
        l = I.var("l~")
        t = toR(v.elem((I.var("a~"), I.var("b~"))))
        (c, (bv, ats)), = t.terms.values()
        a = ats[0][0]
        if c != 1 or bv or len(ats) != 1 or not a.name.startswith("k|{1#a:s}|"):
            raise Open("the function differentiated is not the kernel along a coordinate, from theta")
        return fn(tuple(SInt(m) for m in v.shp), lambda p, q: R.arr("dk|%s" % toR(sarr(h).elem(())).key(), a.args[0], p, q))

    def at(self, x, y, i, shift):
        def get(a, b):
            (b1, r1), (b2, r2) = gp.rowtok(x, a), gp.rowtok(y, b)
            return R.arr("k|%s|%s|%s" % (renorm(shift).key(), b1, b2), i if shift.terms else I(), r1, r2)

        return fn((SInt(x.shp[0]), SInt(y.shp[0])), get)


def any_number(contrast, which=0):
    """Any number of covariance parameters."""
    def task():
        from gpmp.core import fisher
        import gpmp as g

        ctx().ghost["summarise"] = True
        p = run.integer("p", 1)
        n, d = run.integer("n", 1), run.integer("d", 1)
        xi, th, e = gp.points("xi", n, d), gp.mk("theta", (p,)), sreal(R.arr("eps"))
        k = Along(th)
        if contrast:
            q = run.integer("q", 1)
            ctx().assume(ilt(toI(q), toI(n)))
            mf = gp.MeanFn(q)
            mod = g.core.Model(mf, k, None, th, meantype="linear_predictor")
            W = la.qr(mf(xi, None), "complete")[0][:, q:]
            part, m = (lambda K: W.T @ (K @ W)), n - q
            forms = [lambda: fisher.fisher_information_cpd(mod, xi, covparam=th, epsilon=e)]
        else:
            mod = g.core.Model(None, k, None, th, meantype="zero")
            part, m = (lambda K: K), n
            forms = [lambda: mod.fisher_information(xi, covparam=th, epsilon=e), lambda: mod.fisher_information(xi, epsilon=e),
                     lambda: fisher.fisher_information_cpd(mod, xi, epsilon=e)]
        M = la.inv(part(k.at(xi, xi, I(), ZERO)))
        import gpmp.num as gnp

        gnp.derivative_finite_diff = k.derivative
        ctx().assumptions.add("derivative_finite_diff by its contract (plain and contrasts tasks): the five-point formula along the coordinate")

        def D(i):
            return part(fn((n, n), lambda a, b: R.arr("dk|%s" % toR(e).key(), i, a, b)))

        want = fn((p, p), lambda i, j: trace_form(M, D(i), D(j), m))
        run.eq("entries", forms[which](), want)
        run.true("parameters-unmodified", th.buf.ver == 0)

    task.__name__ = "any_number_" + ("contrasts" if contrast else ("plain", "of_the_model", "no_contrasts")[which])
    task.closing = True
    return task


TASKS = [any_number(False), any_number(False, 2), any_number(True), plain, default_step, contrasts]
