import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import MinMaxScaler, Normalizer, ObservationScaler, RobustScaler

from .core import Skip, check, np_


def data(t):
    n, d = t.size("n", 2, 20, 80), t.size("d", 1, 4, 9)
    scale, shift = t.pick("scale", [1.0, 1e-3, 1e4, 1e-6]), t.pick("shift", [0.0, 10.0, -3.0])
    x = t.rng.normal(size=(n, d)) * scale + (shift if scale > 1e-5 else 0.0)
    flat = t.pick("constant", [None, 0, d - 1])
    if flat is not None:
        x[:, flat] = t.pick("value", [0.0, 4.0])
    t.put(x=x)
    return n, d, x, flat


def check_inverse(t, S, x, y):
    a, b = gnp.asarray(x.copy()), gnp.asarray(y.copy())
    for cp in (True, False):
        u = S.transform(a, copy=cp)
        t.close("round trip", S.inverse_transform(u, copy=cp), x, 1e-9, 1e-9)
        if cp:
            t.same("argument untouched", a, x)
    a = gnp.asarray(x.copy())
    v = S.inverse_transform(b, copy=True)
    t.same("inverse argument untouched", b, y)
    t.close("reverse round trip", S.transform(v), y, 1e-7, 1e-7)
    # a shared buffer must not be reused when a copy is asked for
    w = S.transform(a, copy=True)
    t.true("result is a new array", w is not a)


@check(60)
def fitted(t):
    n, d, x, flat = data(t)
    kind = t.pick("kind", ["normal", "robust", "minmax"])
    X = gnp.asarray(x.copy())
    ql, qh = t.pick("q", [(25.0, 75.0), (20.0, 80.0), (10.0, 90.0), (0.0, 100.0)])
    S = Normalizer.fit(X) if kind == "normal" else MinMaxScaler.fit(X) if kind == "minmax" else RobustScaler.fit(X, ql, qh)
    u = np_(S.transform(X))
    c = np.array([j != flat for j in range(d)])
    if kind == "normal":
        loc, sp = x.mean(0), x.std(0)
    elif kind == "minmax":
        loc, sp = x.min(0), x.max(0) - x.min(0)
    else:
        loc, sp = np.median(x, 0), np.percentile(x, qh, axis=0) - np.percentile(x, ql, axis=0)
    c &= sp > 2e-8
    sp = np.where(sp < 1e-8, 1.0, sp)
    t.close("standardised", u, (x - loc) / sp, 1e-8, 1e-8)
    if kind == "normal":
        t.close("mean zero", u.mean(0), np.zeros(d), 1e-7, 1e-6)
        t.close("unit deviation", u[:, c].std(0), np.ones(c.sum()), 1e-7)
    elif kind == "minmax":
        t.close("minimum zero", u.min(0), np.zeros(d), 1e-9, 1e-9)
        t.close("maximum one", u[:, c].max(0), np.ones(c.sum()), 1e-9)
    else:
        t.close("median zero", np.median(u, 0), np.zeros(d), 1e-7, 1e-6)
        t.close("unit range", np.percentile(u[:, c], qh, axis=0) - np.percentile(u[:, c], ql, axis=0), np.ones(c.sum()), 1e-7)
    t.same("data untouched", X, x)
    check_inverse(t, S, x, t.rng.normal(size=(5, d)))


@check(40)
def given(t):
    n, d, x, flat = data(t)
    m, s = t.rng.normal(size=(1, d)), np.abs(t.rng.normal(size=(1, d))) + 0.1
    if flat is not None:
        s[0, flat] = t.pick("spread", [0.0, 1e-9])
    k = t.pick("kind", ["normal", "robust", "minmax"])
    A = gnp.asarray
    S = Normalizer(A(m), A(s)) if k == "normal" else RobustScaler(A(m), A(s)) if k == "robust" else MinMaxScaler(A(m), A(m + s))
    check_inverse(t, S, x, t.rng.normal(size=(4, d)))
    g = np.where(s < 1e-8, 1.0, s)
    t.close("formula", S.transform(A(x)), (x - m) / g, 1e-6, 1e-8)


@check(40)
def observations(t):
    n = t.size("n", 2, 20)
    z = t.rng.normal(size=t.pick("shape", [(n,), (n, 1)])) * 3 + 2
    z = z * t.pick("unit", [1.0, 1.0, 1e-7, 1e6])
    if t.pick("constant", [False, False, True]):
        z[:] = 1.5
    Z = gnp.asarray(z.copy())
    S = ObservationScaler.fit(Z)
    u = np_(S.transform(Z))
    t.close("mean", u.mean(), 0.0, atol=1e-9)
    if z.std() > 2e-8:
        t.close("deviation", u.std(), 1.0, 1e-9)
    check_inverse(t, S, z, t.rng.normal(size=z.shape))
