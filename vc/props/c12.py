from .. import gp, run
from ..arr import SBool, SInt, sarr, sreal, toR
from ..core import ctx, ind, rsum
from ..terms import Fraction, I, R, ZERO, ieq, ile, ilt, req0, rle0, rlt0, toI

FUNCTIONS = [
    "dataloader.Dataset.subset", "dataloader.Dataset.split", "dataloader.Dataset.k_fold_indices", "dataloader.Dataset.repeated_k_fold_indices",
    "dataloader.Dataset.__init__", "num.*.permutation", "num.torch_backend.sort", "num.*.concatenate", "num.*.cumsum",
]


class Rows:
    """A dataset of k shards of any sizes; rows are identified by (shard, position)."""

    def __init__(self, k):
        import gpmp.dataloader as D

        d = run.integer("d", 1)
        ns = [run.integer("n%d" % i, 1) for i in range(k)]
        self.xs = [gp.mk("x%d" % i, (v, d)) for i, v in enumerate(ns)]
        self.zs = [gp.mk("z%d" % i, (v,)) for i, v in enumerate(ns)]
        self.bounds = [toI(0)]
        for v in ns:
            self.bounds.append(self.bounds[-1].add(toI(v)))
        self.n, self.k, self.d = SInt(self.bounds[-1]), k, d
        self.D, self.ds = D, D.Dataset(list(self.xs), list(self.zs))
        ctx().ghost["bounded"] = "one to three shards (any sizes)"

    def at(self, g):
        """phi(row g): an arbitrary function of the row's input and output."""
        out = ZERO
        for s in range(self.k):
            o = g.add(self.bounds[s], -1)
            w = ind(ile(self.bounds[s], g)) * ind(ilt(g, self.bounds[s + 1]))
            out = out + w * R.arr("phi|x%d|z%d" % (s, s), o, o)
        return out

    def all(self):
        out = ZERO
        for s in range(self.k):
            out = out + rsum(self.bounds[s + 1].add(self.bounds[s], -1), lambda i: R.arr("phi|x%d|z%d" % (s, s), i, i))
        return out


def phi(x, z, i):
    b, r = gp.rowtok(x, i)
    e = toR(z.elem((i,)))
    if len(e.terms) == 1:
        c, (bv, ats) = next(iter(e.terms.values()))
        if c == 1 and not bv and len(ats) == 1 and ats[0][1] == 1 and ats[0][0].kind == "a":
            return R.arr("phi|%s|%s" % (b, ats[0][0].name), r, ats[0][0].args[0])
    return R.arr("phi|%s|?" % b, r, I())


def total(xs, zs):
    """Sum of phi over the rows held by a list of arrays."""
    out = ZERO
    for x, z in zip(xs, zs):
        run.same_shape("inputs-and-outputs-aligned", z, (x.shape[0],))
        out = out + rsum(toI(x.shape[0]), lambda i: phi(x, z, i))
    return out


def subset(k):
    def task():
        r = Rows(k)
        m = run.integer("m", 1)
        idx = gp.mk("idx", (m,), "i")
        run.intfact("idx", lambda a: [ile(I(), I.fn("idx", a)), ilt(I.fn("idx", a), toI(r.n))])
        S = r.ds.subset(idx)
        got = total(S.x_list, S.z_list)
        want = rsum(toI(m), lambda i: r.at(I.fn("idx", i)))
        run.eq("subset-rows", sreal(got), sreal(want))
        run.eq("subset-size", sarr(r.D.Dataset.__len__(S)), sarr(m))
        run.true("arguments-unmodified", all(a.buf.ver == 0 for a in r.xs + r.zs + [idx]))

    return task


def psi(idx):
    """Sum of an arbitrary function over the entries of an index array."""
    idx = sarr(idx)
    return rsum(idx.shp[0], lambda i: R.arr("psi", toI(idx.elem((i,)))))


def split():
    r = Rows(1)
    asked = []

    def contract(self, indices):
        run.true("split-of-the-given-dataset", self is r.ds)
        run.true("index-list", len(indices.shp) == 1)
        asked.append(indices)
        return ("subset", len(asked) - 1)

    r.D.Dataset.subset = gp.stand(r.D.Dataset.subset, contract)
    ctx().assumptions.add("Dataset.subset by its contract (subset tasks): exactly the rows of the index list")
    a, b, c = (sreal(R.arr(v)) for v in ("ra", "rb", "rc"))
    for t in (a, b, c):
        ctx().assume(rle0(toR(t).neg()))
    ctx().assume(req0(toR(a) + toR(b) + toR(c) - R.num(1)))
    seed = run.integer("seed", 0)
    for s in (None, seed):
        del asked[:]
        parts = [asked[p[1]] for p in r.D.Dataset.split(r.ds, (a, b, c), s)]
        got = ZERO
        for p in parts:
            got = got + psi(p)
        run.eq("every-row-dealt-once", sreal(got), sreal(rsum(toI(r.n), lambda g: R.arr("psi", g))))
        sizes = [p.shp[0] for p in parts]
        for t, z in zip((a, b), sizes):
            share = toR(t) * R.ofI(toI(r.n))
            run.true("share-rounded-down", SBool(rle0(R.ofI(z) - share)))
            run.true("share-rounded-down", SBool(rlt0(share - R.ofI(z) - R.num(1))))
        run.eq("last-part-size", sarr(SInt(sizes[2])), sarr(r.n - SInt(sizes[0]) - SInt(sizes[1])))


def kfold(k, rem):
    def task():
        import gpmp.dataloader as D

        b = run.integer("b", 1 if rem == 0 or k > 1 else 0)
        n = b * k + rem
        whole = rsum(toI(n), lambda g: R.arr("psi", g))
        out = D.Dataset.k_fold_indices(n, k, run.integer("seed", 0))
        run.true("number-of-folds", len(out) == k)
        tot = ZERO
        for tr, va in out:
            tot = tot + psi(va)
            run.eq("training-is-the-complement", sreal(psi(tr) + psi(va)), sreal(whole))
            s = SInt(sarr(va).shp[0])
            run.true("balanced-sizes", SBool(ile(toI(b), toI(s))))
            run.true("balanced-sizes", SBool(ile(toI(s), toI(b + (1 if rem else 0)))))
            run.eq("sizes-add-up", sarr(SInt(sarr(tr).shp[0]) + s), sarr(n))
        run.eq("validation-parts-cover-once", sreal(tot), sreal(whole))
        ctx().ghost["bounded"] = "two to four folds (any number of rows)"

    return task


def repeated():
    import gpmp.dataloader as D

    calls = []

    def contract(n_samples, n_splits, seed=None):
        calls.append((n_samples, n_splits, seed))
        return [("fold", len(calls) - 1, i) for i in range(2)]

    D.Dataset.k_fold_indices = staticmethod(contract)
    n, seed = run.integer("n", 2), run.integer("seed", 0)
    for s in (None, seed):
        del calls[:]
        out = D.Dataset.repeated_k_fold_indices(n, 2, 3, s)
        run.true("all-repetitions", out == [("fold", r, i) for r in range(3) for i in range(2)])
        run.true("same-rows-and-folds", all(toI(c[0]).key() == toI(n).key() and c[1] == 2 for c in calls))
        if s is not None:
            ks = [toI(c[2]).key() for c in calls]
            run.true("different-seeds", len(set(ks)) == 3)
    ctx().ghost["bounded"] = "three repetitions of two folds"


TASKS = []
for k in (1, 2, 3):
    t = subset(k)
    t.__name__ = "subset_%d_shards" % k
    TASKS.append(t)
for k in (2, 3, 4):
    for rem in range(k):
        t = kfold(k, rem)
        t.__name__ = "kfold_%d_rest_%d" % (k, rem)
        TASKS.append(t)
TASKS += [split, repeated]
