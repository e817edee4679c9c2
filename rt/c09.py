import math
from fractions import Fraction

import numpy as np

from .core import Skip, check, np_
from .gpx import A, gp, gnp


def closed(p, h):
    c = 2 * math.sqrt(p + 0.5)
    out = []
    for x in np.asarray(h, float).reshape(-1):
        t = c * x
        if not t < 700:
            out.append(0.0)
            continue
        s = 0.0
        for i in range(p + 1):
            co = Fraction(math.factorial(p) * math.factorial(p + i), math.factorial(2 * p) * math.factorial(i) * math.factorial(p - i))
            s += float(co * (Fraction(2 * t) ** (p - i)))
        out.append(math.exp(-t) * s)
    return np.array(out).reshape(np.shape(h))


def dists(t):
    n = t.size("n", 1, 12)
    h = t.rng.exponential(size=n) * t.pick("scale", [1e-6, 0.1, 1.0, 5.0, 30.0])
    if t.rng.random() < 0.7:
        h[t.rng.integers(n)] = t.pick("special", [0.0, 1e-300, 1e-12, 1e3, 1e20, 1e160, 1e300, np.inf])
    t.put(h=h)
    return h


@check(80)
def order_p(t):
    p = t.size("p", 0, 6, 25)
    h = dists(t)
    if t.pick("warm", [True, False]):
        for q in t.rng.integers(0, 12, size=3):
            gp.kernel.maternp_kernel(int(q), A([0.3, 1.0]))
    keep = h.copy()
    a = A(h)
    v = np_(gp.kernel.maternp_kernel(p, a))
    t.close("closed form", v, closed(p, h), 1e-9, 1e-12)
    t.true("between zero and one", np.all(v >= 0) and np.all(v <= 1 + 1e-12), got=v)
    t.same("argument unchanged", a, keep)
    h2 = np.abs(t.rng.normal(size=(3, 4)))
    t.close("matrix of distances", gp.kernel.maternp_kernel(p, A(h2)), closed(p, h2), 1e-9, 1e-12)


@check(40)
def special(t):
    h = dists(t)
    h = np.minimum(h, 1e100)
    t.close("exponential", gp.kernel.exponential_kernel(A(h)), np.exp(-h), 1e-12)
    t.close("order zero", gp.kernel.exponential_kernel(A(math.sqrt(2) * h)), gp.kernel.maternp_kernel(0, A(h)), 1e-12)
    t.close("order one", gp.kernel.matern32_kernel(A(h)), gp.kernel.maternp_kernel(1, A(h)), 1e-12)
    t.close("matern 3/2", gp.kernel.matern32_kernel(A(h)), closed(1, h), 1e-10)


@check(15)
def history(t):
    """Fresh table and any evaluation history give the same values."""
    from gpmp.config import get_config

    p = t.size("p", 0, 15)
    h = np.abs(t.rng.normal(size=5))
    get_config().caches.clear()
    ref = np_(gp.kernel.maternp_kernel(p, A(h))).copy()
    seq = [int(q) for q in t.rng.integers(0, 20, size=6)]
    t.put(history=str(seq))
    get_config().caches.clear()
    for q in seq:
        t.close("order %d" % q, gp.kernel.maternp_kernel(q, A(h)), closed(q, h), 1e-9, 1e-12)
    t.close("same after history", gp.kernel.maternp_kernel(p, A(h)), ref, 1e-13)
