"""Concrete replays of the contracts on the real code (one backend per process).

A property module registers functions with @check(trials). Each trial gets its own
generator, seeded by (seed, property, check, trial), so that a failing trial is
replayed by naming these four.
"""
import inspect
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

CHECKS = []
REPO = "/repo"


class Bad(Exception):
    """A contract is violated on a concrete input."""


class Skip(Exception):
    """The drawn input is outside the property's domain."""


def check(trials=20):
    def deco(f):
        CHECKS.append((f.__name__, trials, f))
        return f

    return deco


def np_(x):
    """To a numpy array, whatever the backend type."""
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def brief(x, k=60):
    x = np_(x) if hasattr(x, "shape") else x
    if isinstance(x, np.ndarray):
        if x.size <= k:
            return {"shape": list(x.shape), "data": x.reshape(-1).tolist()}
        return {"shape": list(x.shape), "head": x.reshape(-1)[:k].tolist()}
    if isinstance(x, (list, tuple)):
        return [brief(y) for y in x]
    if isinstance(x, dict):
        return {str(a): brief(b) for a, b in x.items()}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class T:
    def __init__(self, prop, name, trial, seed, backend, hints):
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(name.encode()), trial])
        self.prop, self.name, self.trial, self.seed, self.backend, self.hints = prop, name, trial, seed, backend, hints
        self.input = {}
        self.evals = 0
        self.keys = set()

    # -- inputs
    def size(self, name, lo, hi, big=None):
        """An integer in lo..hi; small trial numbers take the edges, hints from failed obligations come first."""
        h = self.hints.get(name)
        if h and self.trial < len(h) and lo <= h[self.trial] <= max(hi, big or hi, 300):
            v = h[self.trial]
        elif self.trial == 0:
            v = lo
        elif big and self.trial % 11 == 10:
            v = int(self.rng.integers(hi, big + 1))
        else:
            v = int(self.rng.integers(lo, hi + 1))
        self.input[name] = v
        return v

    def pick(self, name, xs):
        v = xs[int(self.rng.integers(len(xs)))]
        self.input[name] = v if isinstance(v, (int, float, str, bool)) else repr(v)[:80]
        return v

    def put(self, **kw):
        self.input.update(kw)

    # -- verdicts
    def key(self, *k):
        self.keys.add(repr(k))

    def fail(self, what, **kw):
        e = Bad(what)
        e.info = {a: brief(b) for a, b in kw.items()}
        raise e

    def true(self, what, ok, **kw):
        self.evals += 1
        if not bool(ok):
            self.fail(what, **kw)

    def shape(self, what, got, shape):
        self.true(what + ": shape", tuple(np_(got).shape) == tuple(shape), got=list(np_(got).shape), want=list(shape))

    def close(self, what, got, want, rtol=1e-6, atol=1e-8, shape=True):
        self.evals += 1
        g, w = np_(got).astype(float), np_(want).astype(float)
        if shape and g.shape != w.shape:
            self.fail(what + ": shape", got=list(g.shape), want=list(w.shape))
        if not shape:
            g, w = g.reshape(-1), w.reshape(-1)
            if g.shape != w.shape:
                self.fail(what + ": size", got=list(g.shape), want=list(w.shape))
        scale = 0.0
        f = np.abs(w[np.isfinite(w)])
        if f.size:
            scale = float(f.max())
        with np.errstate(invalid="ignore"):
            ok = (np.abs(g - w) <= atol + rtol * max(scale, 0)) | (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            i = np.argwhere(~ok)[0].tolist() if ok.ndim else []
            self.fail(what, at=i, got=g, want=w)

    def same(self, what, got, want):
        self.evals += 1
        g, w = np_(got), np_(want)
        if g.shape != w.shape or not (np.array_equal(g, w) or (g.dtype.kind == "f" and np.array_equal(g, w, equal_nan=True))):
            self.fail(what, got=g, want=w)

    def raises(self, what, exc, f):
        self.evals += 1
        try:
            v = f()
        except exc:
            return
        except BaseException as e:
            self.fail(what + ": raised %s instead" % type(e).__name__, error=str(e)[:300])
        self.fail(what + ": accepted", got=repr(v)[:300])


def in_repo(tb):
    return [
        "%s:%d %s" % (f.filename, f.lineno, f.name)
        for f in traceback.extract_tb(tb)
        if os.path.realpath(f.filename).startswith(REPO + "/gpmp/")
    ]


def spied(f, g):
    """g called in place of f with f's arguments in the order f declares them, however the caller passes them."""
    sig = inspect.signature(f)

    def h(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return g(*b.args, **b.kwargs)

    return h


def renamed(e):
    """The trial reaches for an internal name or signature of the code that no longer exists: nothing to judge here."""
    m = str(e)
    if isinstance(e, AttributeError):
        return bool(re.search(r"module '(gpmp|rt)[.\w]*' has no attribute|has no attribute '_\w", m))
    if isinstance(e, ImportError):
        return True
    return isinstance(e, TypeError) and bool(re.search(r"\(\) (missing|got an unexpected|got multiple|takes) ", m))


class Slow(Exception):
    """A trial did not finish; raised where the code is."""


def _alarm(*a):
    raise Slow("not finished after %d s" % LIMIT)


LIMIT = 100


def run(prop, seed, tier, backend, only=None, hints=None, budget=150.0):
    out = {"property": prop, "backend": backend, "seed": seed, "tier": tier, "failures": [], "errors": [], "evaluations": 0,
           "distinct": 0, "trials": 0, "samples": [], "checks": {}, "skipped": {}}
    signal.signal(signal.SIGALRM, _alarm)
    distinct = set()
    t0 = time.time()
    mult, soft = (8, 12.0) if tier == "quick" else (40, 90.0)
    n = sum(f.__module__ == "rt." + prop.lower() for _, _, f in CHECKS) or 1
    for name, trials, f in CHECKS:
        if f.__module__ != "rt." + prop.lower():
            continue
        if only and name != only[0]:
            continue
        ts = [only[1]] if only and only[1] is not None else range(trials * mult)
        nfail = 0
        tc = time.time()
        for tr in ts:
            if time.time() - t0 > budget:
                out["truncated"] = name
                break
            if tr >= trials and time.time() - tc > soft / n:
                break  # the declared number of trials is always run, further ones as time allows
            t = T(prop, name, tr, seed, backend, hints or {})
            signal.alarm(LIMIT)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    f(t)
                signal.alarm(0)
            except Skip:
                continue
            except Bad as e:
                out["failures"].append({"check": name, "trial": tr, "what": str(e), "detail": e.info, "input": brief(t.input)})
                nfail += 1
            except BaseException as e:  # the code has exceptions of its own of this kind
                if isinstance(e, KeyboardInterrupt):
                    raise
                fr = in_repo(sys.exc_info()[2])
                rec = {"check": name, "trial": tr, "what": "%s: %s" % (type(e).__name__, str(e)[:400]), "input": brief(t.input),
                       "frames": fr[-4:], "trace": traceback.format_exc()[-1500:]}
                if fr:
                    rec["what"] = "unexpected " + rec["what"]
                    out["failures"].append(rec)
                elif renamed(e):
                    out["skipped"][name] = rec["what"]
                    break
                elif type(e).__name__ in ("MemoryError", "OSError", "KeyboardInterrupt"):
                    out["errors"].append(rec)
                else:  # the oracle cannot use what the code returned
                    rec["what"] = "unusable result: " + rec["what"]
                    out["failures"].append(rec)
                nfail += 1
            finally:
                signal.alarm(0)
            out["trials"] += 1
            out["evaluations"] += t.evals
            k = repr((name, sorted((a, repr(b)[:200]) for a, b in t.input.items())))
            if t.evals and k not in distinct:
                distinct.add(k)
                if len(out["samples"]) < 6 and tr in (1, 2):
                    out["samples"].append({"check": name, "trial": tr, "input": brief(t.input)})
            if nfail >= 2:
                break
        out["checks"][name] = round(time.time() - tc, 2)
    out["distinct"] = len(distinct)
    out["wall"] = time.time() - t0
    return out


def main():
    import importlib

    prop, outfile = sys.argv[1], sys.argv[2]
    seed, tier, backend = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"), os.environ["GPMP_BACKEND"]
    only = None
    if len(sys.argv) > 3:
        only = (sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else None)
    hints = json.loads(os.environ.get("VERIF_HINTS", "{}"))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, REPO)
    os.chdir(os.environ.get("VERIF_SCRATCH", "/"))
    import rt.core as me

    try:
        import gpmp

        assert os.path.realpath(gpmp.__file__).startswith(REPO + "/"), gpmp.__file__
        importlib.import_module("rt." + prop.lower())
        res = me.run(prop, seed, tier, backend, only, hints)
    except Exception as e:
        fr = in_repo(sys.exc_info()[2])
        rec = {"check": "import", "trial": 0, "what": "%s: %s" % (type(e).__name__, e), "input": {}, "frames": fr,
               "trace": traceback.format_exc()[-2000:]}
        res = {"property": prop, "backend": backend, "failures": [rec] if fr else [], "errors": [] if fr else [rec],
               "evaluations": 0, "distinct": 0, "trials": 0, "samples": [], "seed": seed, "tier": tier, "wall": 0}
    with open(outfile, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
