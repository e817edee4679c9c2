"""Assumed contracts of the dense linear-algebra dependencies (numpy/scipy/torch).

Every result is a named array, a function of the canonical key of its operand
(congruence), with the defining equations as rewrite rules.
"""
import numpy as np

from . import terms as T
from .arr import SArr, Unsupported, akeyarr, bidx, generic, nameof, sarr, toR, unI, wrapB
from .core import POSATOM, Pat, addrule, ctx, ind, rsum, rmono, rfn, rlog, rsqrt
from .terms import I, ONE, R, ZERO, band, ieq, ile, ilt, toI

ASSUMED = {
    "cholesky": "cholesky(A) = L with L L^T = A (A symmetric positive definite)",
    "inv": "inv(A) A = A inv(A) = I (A nonsingular); symmetric if A is",
    "solve": "solve(A, B) = inv(A) B (A nonsingular; assume_a='sym' needs A symmetric)",
    "tri": "solve_triangular(L, B) = inv(L) B for triangular L on the stated side",
    "qr": "qr(P, complete): Q orthogonal, Q^T P upper triangular, P of full column rank",
    "svd": "svd of a symmetric PSD matrix: K = U diag(s) U^T, U orthogonal, s >= 0",
}


def used(k):
    ctx().assumptions.add(ASSUMED[k])


def is_sym(A):
    return akeyarr(A) == akeyarr(A.T)


def detect(A):
    """(array name, transposed) when A is exactly a named 2-d array."""

    def f(e, ix):
        if len(e.terms) != 1:
            return None
        c, (b, ats) = next(iter(e.terms.values()))
        if c != 1 or b or len(ats) != 1 or ats[0][1] != 1 or ats[0][0].kind != "a":
            return None
        a = ats[0][0]
        ks = [x.key() if isinstance(x, I) else None for x in a.args]
        if ks == ["#0", "#1"]:
            return a.name, False
        if ks == ["#1", "#0"]:
            return a.name, True
        return None

    if A.kind != "f":
        return None
    return generic(A, f)


# ---- block structure
def blocks(A, axis):
    n = A.shp[axis]
    if A.segs and axis in A.segs:
        s = A.segs[axis]
        return [(s[i], s[i + 1].add(s[i], -1)) for i in range(len(s) - 1)]
    return [(I(), n)]


def gen_block(A, r, c):
    """Generic element of block (r, c) as a function of placeholder variables #0, #1."""
    sr, lr = r
    sc, lc = c
    i, j = I.var("#0"), I.var("#1")
    cx = ctx()
    g = A.reader()
    old = cx.ghost.get("fork_ite", True)
    cx.ghost["fork_ite"] = False
    cx.solver.push()
    save = (len(cx.pc), dict(cx.pckeys), dict(cx.eqs), set(cx.fseen), cx.cache)
    try:
        for v, n in ((i, lr), (j, lc)):
            cx.assume(ile(I(), v))
            cx.assume(ilt(v, n))
        return toR(g((sr.add(i), sc.add(j))))
    finally:
        cx.ghost["fork_ite"] = old
        cx.solver.pop()
        del cx.pc[save[0] :]
        cx.pckeys, cx.eqs, cx.fseen, cx.cache = save[1:]
        cx.ver += 1


def patidx(i, names):
    hit = [(a, c) for a, c in i.t if a in names]
    for a, c in i.t:
        if a not in names and a[0] == "f":
            if any(x in names for x in I(((a, 1),), 0).atoms()):
                return None
    if not hit:
        return i
    if len(hit) > 1 or hit[0][1] != 1:
        return None
    rest = i.add(I(((hit[0][0], 1),), 0), -1)
    s = names[hit[0][0]]
    if not rest.t and rest.c == 0:
        return s
    return ("+", s, rest)


def mono_pat(mono, names):
    """Pattern atoms and bounds of a monomial; None when not expressible."""
    bvs, ats = mono
    names = dict(names)
    bounds = {}
    for u, hi in bvs:
        names[("b", u)] = "$%d" % u
        bounds["$%d" % u] = hi
    out = []
    for a, p in ats:
        if a.kind != "a" or p <= 0:
            return None
        idx = []
        for x in a.args:
            if not isinstance(x, I):
                return None
            q = patidx(x, names)
            if q is None:
                return None
            idx.append(q)
        for _ in range(p):
            out.append((a.name, tuple(idx)))
    return out, bounds


def lead_of(e):
    best = None
    for k in sorted(e.terms):
        c, (bvs, ats) = e.terms[k]
        if any(a.kind != "a" or p <= 0 for a, p in ats):
            continue
        s = (len(ats), k)
        if best is None or s > best[0]:
            best = (s, k)
    return None if best is None else best[1]


def inv_rules(A, name):
    """Rules for X = inv(A): A X = I and X A = I, blockwise."""
    RB, CB = blocks(A, 0), blocks(A, 1)
    g = A.reader()
    gens = {(r, c): gen_block(A, RB[r], CB[c]) for r in range(len(RB)) for c in range(len(CB))}

    def X(i, j):
        return R.arr(name, i, j)

    v0, v1 = ("v", "#0"), ("v", "#1")
    for side in ("L", "R"):
        outer = RB if side == "L" else CB
        inner = CB if side == "L" else RB
        fi, fk = (v0, v1) if side == "L" else (v1, v0)
        for r, (so, lo) in enumerate(outer):
            cand = None
            for c, (si, li) in enumerate(inner):
                e = gens[(r, c) if side == "L" else (c, r)]
                k = lead_of(e)
                if k is None:
                    continue
                mp = mono_pat(e.terms[k][1], {fi: "?i", fk: "$k"})
                if mp is None:
                    continue
                cand = (c, k, mp)
                break
            if cand is None:
                continue
            c0, k0, (atoms, bounds) = cand
            si, li = inner[c0]
            bounds = dict(bounds)
            bounds["$k"] = li
            kx = "$k" if (not si.t and si.c == 0) else ("+", "$k", si)
            xpat = (name, (kx, "?j") if side == "L" else ("?j", kx))
            has_i = any(q == "?i" or (isinstance(q, tuple) and q[1] == "?i") for _, ix in atoms for q in ix)
            if not has_i and lo.const != 1:
                continue
            lead_c = gens[(r, c0) if side == "L" else (c0, r)].terms[k0][0]

            def rhs(b, side=side, r=r, so=so, lo=lo, c0=c0, k0=k0, lead_c=lead_c, inner=inner, fi=fi, fk=fk):
                i = b.get("?i", I())
                j = b["?j"]
                out = ind(ieq(so.add(i), j))
                for c, (si, li) in enumerate(inner):
                    e = gens[(r, c) if side == "L" else (c, r)]
                    e2 = R({k: t for k, t in e.terms.items() if not (c == c0 and k == k0)})
                    if not e2.terms:
                        continue

                    def body(k, e2=e2, si=si):
                        x = X(si.add(k), j) if side == "L" else X(j, si.add(k))
                        return e2.subst({fi: i, fk: k}) * x

                    out = out - rsum(li, body)
                return out.scale(1 / lead_c)

            def guard(b, lo=lo):
                i = b.get("?i", I())
                return ctx().decide(band(ile(I(), i), ilt(i, lo))) is True

            addrule(
                Pat(atoms + [xpat], bounds, rhs, guard, label="inv"), "inv:%s:%s:%d" % (name, side, r)
            )


def inv_name(A, spd=False):
    n = A.shp[0]
    if n.key() != A.shp[1].key() and not ctx().branch(ieq(n, A.shp[1])):
        raise LinAlgError("square matrix expected")
    name = nameof("inv", akeyarr(A))
    if is_sym(A):
        T.SYM2.add(name)
    if spd or name in ctx().ghost.get("spdinv", ()):
        POSATOM[name] = lambda args: args[0].key() == args[1].key()
    inv_rules(A, name)
    return name


class LinAlgError(np.linalg.LinAlgError):
    pass


def linalg_error(msg):
    if ctx().ghost.get("backend") == "torch":
        return TorchLinAlgError(msg)
    return LinAlgError(msg)


class TorchLinAlgError(RuntimeError):
    pass


def inv(A):
    A = sarr(A)
    used("inv")
    name = inv_name(A)
    return SArr(A.shp, lambda ix: R.arr(name, *ix), "f")


def _may_fail(what, A):
    g = ctx().ghost
    mf = g.get("may_fail")
    if mf is not None and mf(what, A):
        key = (what, akeyarr(A))
        memo = g.setdefault("fail_memo", {})
        if key not in memo:
            memo[key] = ctx().choose_free("%s succeeds" % what)
        if not memo[key]:
            raise linalg_error("linalg.%s: matrix is singular or not positive definite" % what)


def cholesky(A, upper=False):
    A = sarr(A)
    used("cholesky")
    _may_fail("cholesky", A)
    key = akeyarr(A)
    name = nameof("chol", key)
    n = A.shp[0]
    g = A.reader()
    POSATOM[name] = lambda args: args[0].key() == args[1].key()
    CHOLS[name] = A
    addrule(
        Pat(
            [(name, ("?i", "$k")), (name, ("?j", "$k"))], {"$k": n},
            lambda b: toR(g((b["?i"], b["?j"]))), label="LLt",
        ),
        "chol:" + name,
    )
    ctx().ghost.setdefault("spdinv", set()).add(nameof("inv", key))
    r = SArr(A.shp, lambda ix: R.arr(name, *ix), "f")
    return r.T if upper else r


CHOLS = {}
TRIS = {}  # name -> 'lower' / 'upper'


def tri_inverse(name, n):
    """Named inverse of a named triangular factor."""
    tn = nameof("triinv", name)
    A = CHOLS.get(name)
    if A is not None:
        iname = inv_name(A, spd=True)
        addrule(
            Pat([(tn, ("$k", "?i")), (tn, ("$k", "?j"))], {"$k": n},
                lambda b: R.arr(iname, b["?i"], b["?j"]), label="TtT"),
            "tri1:" + tn,
        )
    addrule(
        Pat([(name, ("?i", "$k")), (tn, ("$k", "?j"))], {"$k": n},
            lambda b: ind(ieq(b["?i"], b["?j"])), label="LT"),
        "tri2:" + tn,
    )
    addrule(
        Pat([(tn, ("?i", "$k")), (name, ("$k", "?j"))], {"$k": n},
            lambda b: ind(ieq(b["?i"], b["?j"])), label="TL"),
        "tri3:" + tn,
    )
    return tn


def solve_triangular(A, B, lower=False, trans=0, unit_diagonal=False, left=True, **kw):
    A, B = sarr(A), sarr(B)
    used("tri")
    if trans in (1, "T", "t", 2, "C", "c"):
        A = A.T
        lower = not lower
    elif trans not in (0, "N", "n"):
        raise ValueError("trans")
    if not left or unit_diagonal:
        raise Unsupported("solve_triangular variant")
    n = A.shp[0]
    if n.key() != B.shp[0].key() and not ctx().branch(ieq(n, B.shp[0])):
        raise ValueError("shapes of a and b are incompatible")
    d = detect(A)
    if d is None and A.meta and "tri" in A.meta:
        d = A.meta["tri"]
    gB = B.reader()
    ok = False
    if d is not None and (d[0] in CHOLS or d[0] in TRIS):
        nm, tr = d
        is_lower = (TRIS.get(nm, "lower") == "lower") != tr
        ok = bool(is_lower) == bool(lower)
    if not ok:
        # only one triangle of A is read: an unspecified matrix for our purposes
        nm = nameof("trisolve_%s" % ("lo" if lower else "up"), akeyarr(A))
        return SArr(B.shp, lambda ix: rsum(n, lambda k: R.arr(nm, ix[0], k) * toR(gB((k,) + ix[1:]))), "f")
    tn = tri_inverse(nm, n)
    if tr:
        el = lambda i, k: R.arr(tn, k, i)
    else:
        el = lambda i, k: R.arr(tn, i, k)
    return SArr(B.shp, lambda ix: rsum(n, lambda k: el(ix[0], k) * toR(gB((k,) + ix[1:]))), "f")


def cho_solve(A, b):
    """inv(A) b for SPD A given by its Cholesky factor array."""
    raise Unsupported("cho_solve")


def solve(A, B, assume_a="gen", lower=False, **kw):
    A, B = sarr(A), sarr(B)
    used("solve")
    _may_fail("solve", A)
    n = A.shp[0]
    if n.key() != B.shp[0].key() and not ctx().branch(ieq(n, B.shp[0])):
        raise ValueError("incompatible dimensions")
    gB = B.reader()
    if assume_a in ("sym", "her", "pos") and not is_sym_blocks(A):
        nm = nameof("symsolve_nonsym", akeyarr(A))
        return SArr(B.shp, lambda ix: rsum(n, lambda k: R.arr(nm, ix[0], k) * toR(gB((k,) + ix[1:]))), "f")
    d = detect(A)
    if d is not None and d[0] in TRIS:
        tn = tri_inverse(d[0], n)
        el = (lambda i, k: R.arr(tn, k, i)) if d[1] else (lambda i, k: R.arr(tn, i, k))
    else:
        name = inv_name(A)
        if is_sym_blocks(A):
            T.SYM2.add(name)
        el = lambda i, k: R.arr(name, i, k)
    return SArr(B.shp, lambda ix: rsum(n, lambda k: el(ix[0], k) * toR(gB((k,) + ix[1:]))), "f")


def is_sym_blocks(A):
    if not A.segs:
        return is_sym(A)
    RB, CB = blocks(A, 0), blocks(A, 1)
    if len(RB) != len(CB):
        return is_sym(A)
    for r in range(len(RB)):
        for c in range(len(CB)):
            e1 = gen_block(A, RB[r], CB[c])
            e2 = gen_block(A, RB[c], CB[r]).subst({("v", "#0"): I.var("#1"), ("v", "#1"): I.var("#0")})
            if e1.key() != e2.key():
                return False
    return True


def qr(P, mode="reduced"):
    P = sarr(P)
    used("qr")
    n, q = P.shp
    key = akeyarr(P)
    qn, rn = nameof("Q", key), nameof("Rq", key)
    TRIS[rn] = "upper"
    g = P.reader()
    if not ctx().branch(ile(q, n)):
        raise Unsupported("QR of a wide matrix")
    if mode == "reduced":
        return (
            SArr((n, q), lambda ix: R.arr(qn, *ix), "f"),
            SArr((q, q), lambda ix: R.arr(rn, *ix), "f"),
        )
    if mode != "complete":
        raise Unsupported("qr mode")
    qr_rules(P, qn, rn, n, q)

    def rget(ix):
        from .core import ite

        return ite(ilt(ix[0], q), lambda: R.arr(rn, *ix), lambda: ZERO)

    return SArr((n, n), lambda ix: R.arr(qn, *ix), "f"), SArr((n, q), rget, "f")


def qr_rules(P, qn, rn, n, q):
    from .core import ite

    addrule(
        Pat([(qn, ("$k", "?i")), (qn, ("$k", "?j"))], {"$k": n},
            lambda b: ind(ieq(b["?i"], b["?j"])), label="QtQ"),
        "qr1:" + qn,
    )
    addrule(
        Pat([(qn, ("?i", "$k")), (qn, ("?j", "$k"))], {"$k": n},
            lambda b: ind(ieq(b["?i"], b["?j"])), label="QQt"),
        "qr2:" + qn,
    )
    e = gen_block(P, (I(), n), (I(), q))
    k = lead_of(e)
    if k is not None and len(e.terms) == 1:
        c, mono = e.terms[k]
        mp = mono_pat(mono, {("v", "#0"): "$k", ("v", "#1"): "?a"})
        if mp is not None:
            atoms, bounds = mp
            bounds = dict(bounds)
            bounds["$k"] = n
            has_a = any(x == "?a" or (isinstance(x, tuple) and x[1] == "?a") for _, ix in atoms for x in ix)
            if has_a or q.const == 1:
                addrule(
                    Pat(atoms + [(qn, ("$k", "?b"))], bounds,
                        lambda b: ite(ilt(b["?b"], q), lambda: R.arr(rn, b["?b"], b.get("?a", I())), lambda: ZERO).scale(1 / c),
                        label="PtQ"),
                    "qr3:" + qn,
                )
    # P = Q1 R as sum_{l<q} Q[i,l] R[l,a] -> P[i,a]
    g = P.reader()
    addrule(
        Pat([(qn, ("?i", "$l")), (rn, ("$l", "?a"))], {"$l": q},
            lambda b: toR(g((b["?i"], b["?a"]))), label="QR"),
        "qr4:" + qn,
    )


def svd_sym(K):
    K = sarr(K)
    used("svd")
    n = K.shp[0]
    key = akeyarr(K)
    un, sn = nameof("svdU", key), nameof("svds", key)
    T.NONNEG.add(sn)
    g = K.reader()
    addrule(
        Pat([(un, ("$k", "?i")), (un, ("$k", "?j"))], {"$k": n},
            lambda b: ind(ieq(b["?i"], b["?j"])), label="UtU"),
        "svd1:" + un,
    )
    addrule(
        Pat([(un, ("?i", "$k")), (un, ("?j", "$k")), (sn, ("$k",))], {"$k": n},
            lambda b: toR(g((b["?i"], b["?j"]))), label="USUt"),
        "svd2:" + un,
    )
    return (
        SArr((n, n), lambda ix: R.arr(un, *ix), "f"),
        SArr((n,), lambda ix: R.arr(sn, *ix), "f"),
        SArr((n, n), lambda ix: R.arr(un, ix[1], ix[0]), "f"),
    )


def logdet_spd(A):
    L = cholesky(A)
    from .arr import diag, reduce_sum, unary

    return reduce_sum(unary(diag(L), rlog)) * 2
