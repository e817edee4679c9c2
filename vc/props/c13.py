from .. import gp, run
from ..arr import SBool, SInt, sarr, sreal, toR
from ..core import ctx, rinv, rsum
from ..gp import fn
from ..terms import band, bnot, I, R, ZERO, ieq, ile, ilt, toI
from . import c11
from .c12 import Rows, psi, total

FUNCTIONS = [
    "dataloader.DataLoader.__init__", "dataloader.DataLoader.__iter__", "dataloader.DataLoader._fetch_batch", "dataloader.DataLoader.__len__",
    "dataloader.DataLoader.__getitem__", "dataloader.DataLoader.reduce_mean", "dataloader.DataLoader.set_epoch", "dataloader.collate_batches",
]


def fetch(k):
    def task():
        r = Rows(k)
        L = r.D.DataLoader(r.ds, None)
        m = run.integer("m", 1)
        idx = gp.mk("idx", (m,), "i")
        run.intfact("idx", lambda a: [ile(I(), I.fn("idx", a)), ilt(I.fn("idx", a), toI(r.n))])
        try:
            x, z = L._fetch_batch(idx)
        except ValueError:
            # no shard holds any of the rows: impossible, since the counts of the masks add up to m
            run.eq("some-row-found", sreal(R.ofI(toI(m))), sreal(ZERO))
            return
        run.eq("batch-rows", sreal(total([x], [z])), sreal(rsum(toI(m), lambda i: r.at(I.fn("idx", i)))))
        run.eq("batch-size", sarr(x.shape[0]), sarr(m))
        run.true("arguments-unmodified", all(a.buf.ver == 0 for a in r.xs + r.zs + [idx]))

    return task


def fetch_in_order(k):
    def task():
        D, n, d, x, z, xs, zs = c11.shards(k)
        import gpmp.num as gnp

        L = D.DataLoader(D.Dataset(xs, zs), None, shuffle=False)
        s, e = run.integer("s", 0), run.integer("e", 1)
        ctx().assume(ilt(toI(s), toI(e))), ctx().assume(ile(toI(e), toI(n)))
        X, Z = L._fetch_batch(gnp.arange(s, e))
        run.eq("rows-in-order", X, c11.piece(x, s, e - s))
        run.eq("outputs-in-order", Z, c11.piece(z, s, e - s))

    return task


def loader(q0, **kw):
    """A loader over n = q*b + r rows, 0 <= r < b, with _fetch_batch by its contract."""
    import gpmp.dataloader as D

    b, r = run.integer("b", 1), run.integer("r", 0)
    ctx().assume(ilt(toI(r), toI(b)))
    q = run.integer("q", 0) if q0 is None else q0
    rest = not ctx().branch(ieq(toI(r), I()))
    n = q * b + r if rest else q * b
    ctx().assume(ilt(I(), toI(n)))
    ds = D.Dataset(gp.mk("x", (n, run.integer("d", 1))), gp.mk("z", (n,)))
    L = D.DataLoader(ds, b, **kw)
    return D, ds, L, n, b, q, (r if rest else 0), rest


def stub(D):
    D.DataLoader._fetch_batch = gp.stand(D.DataLoader._fetch_batch, lambda self, idx: ("batch", self, sarr(idx)))
    ctx().assumptions.add("DataLoader._fetch_batch by its contract (fetch tasks): the rows of the index list, in order when increasing")


class Again(Exception):
    """An endless loader starts its next pass."""


def iteration(shuffle, drop, endless=False):
    def task():
        import gpmp.num as gnp

        seed, e = run.integer("seed", 0), run.integer("e", 0)
        D, ds, L, n, b, q, r, rest = loader(None, shuffle=shuffle, drop_last=drop, seed=seed, **({"infinite": True} if endless else {}))
        stub(D)
        seeds = []

        def set_seed(s):
            if seeds:
                raise Again()
            seeds.append(s)

        gnp.set_seed = gp.stand(gnp.set_seed, set_seed)
        L.set_epoch(e)
        ctx().ghost["stateless"] = {"__iter__"}
        nb = toI(D.DataLoader.__len__(L))
        run.eq("advertised-batches", sarr(SInt(nb)), sarr(q if drop or not rest else q + 1))
        got = []
        it = iter(L)
        while True:
            try:
                v = next(it)
            except StopIteration:
                run.true("ends-unless-endless", not endless)
                break
            except Again:
                run.true("next-pass-only-when-endless", endless)
                break
            got.append(v)
            kind, trips, k = ctx().ghost["loop"]
            run.true("one-batch-per-iteration", kind == "step" and len(got) == 1)
            run.true("batch-of-this-loader", v[0] == "batch" and v[1] is L)
            run.true("delivered-batch-is-advertised", SBool(ilt(k, nb)))
            at = k.mul(toI(b))
            full = ctx().branch(ile(at.add(toI(b)), toI(n)))
            run.true("only-last-batch-incomplete", full or (not drop and ctx().decide(ieq(k, toI(q))) is True))
            size = toI(b) if full else toI(n).add(at, -1)
            run.same_shape("batch-size", v[2], (SInt(size),))
            perm = [x for x in ctx().ghost.get("draws", []) if x[0] == "perm"]
            run.true("one-shuffle-per-pass", len(perm) == (1 if shuffle else 0))
            f = (lambda i: I.fn(perm[0][1], i)) if shuffle else (lambda i: i)
            run.forall_ix(v[2].shp, lambda ix: run.record("batch-takes-consecutive-entries", ctx().decide(ieq(toI(v[2].elem(ix)), f(ix[0].add(at)))) is True))
        run.true("seed-of-the-epoch", not shuffle or len(seeds) == 1 and SBool(ieq(toI(seeds[0]), toI(seed + e))))
        kind, trips, k = ctx().ghost["loop"]
        if kind == "step":
            run.true("undelivered-batch-is-not-advertised", not got and ctx().decide(ile(nb, k)) is True)
        else:
            run.true("every-advertised-batch-visited", SBool(ile(nb, trips)))
            run.true("epoch-advanced", SBool(ieq(toI(L._epoch), toI(e + 1))))

    return task


def epochs():
    """The shuffling seed depends on the base seed and the epoch only; set_epoch selects the epoch."""
    D, ds, L, n, b, q, r, rest = loader(1, shuffle=True, seed=run.integer("seed", 0))
    stub(D)
    import gpmp.num as gnp

    seeds = []
    gnp.set_seed = gp.stand(gnp.set_seed, lambda s: seeds.append(s))
    e = run.integer("e", 0)
    L.set_epoch(e)
    list(L)
    list(L)
    run.true("seed-of-the-epoch", [toI(s).key() for s in seeds] == [toI(L._base_seed + e).key(), toI(L._base_seed + e + 1).key()])
    ctx().ghost["bounded"] = "at most two batches per pass"


def indexing(drop):
    def task():
        D, ds, L, n, b, q, r, rest = loader(None, shuffle=False, drop_last=drop)
        stub(D)
        nb = D.DataLoader.__len__(L)
        i = run.integer("i")
        try:
            v = L[i]
        except IndexError:
            run.true("refused-only-out-of-range", SBool(bnot(inrange(i, nb))))
            return
        run.true("accepted-only-in-range", SBool(inrange(i, nb)))
        k = i if ctx().branch(ile(I(), toI(i))) else i + nb
        at = toI(k).mul(toI(b))
        run.true("batch-of-this-loader", v[1] is L)
        full = ctx().branch(ile(at.add(toI(b)), toI(n)))
        run.same_shape("indexed-batch-size", v[2], (SInt(toI(b) if full else toI(n).add(at, -1)),))
        run.forall_ix(v[2].shp, lambda ix: run.record("indexed-batch-entries", ctx().decide(ieq(toI(v[2].elem(ix)), ix[0].add(at))) is True))

    return task


def inrange(i, nb):
    i, nb = toI(i), toI(nb)
    return band(ile(nb.scale(-1), i), ilt(i, nb))


def refusals():
    D, ds, L, n, b, q, r, rest = loader(1, shuffle=True)
    for what, lo in (("shuffled", D.DataLoader(ds, b, shuffle=True)), ("endless", D.DataLoader(ds, b, shuffle=False, infinite=True))):
        try:
            lo[0]
            ok = False
        except RuntimeError:
            ok = True
        run.true(what + "-loader-not-indexable", ok)
    bad = run.integer("bad", None, 0)
    try:
        D.DataLoader(ds, bad)
        ok = False
    except ValueError:
        ok = True
    run.true("batch-size-must-be-positive", ok)
    L = D.DataLoader(ds)
    run.eq("default-batch-is-everything", sarr(L.batch_size), sarr(n))
    try:
        D.collate_batches([])
        ok = False
    except ValueError:
        ok = True
    run.true("nothing-to-collate", ok)


def averages(q0, shuffle):
    def task():
        D, ds, L, n, b, q, r, rest = loader(q0, shuffle=shuffle)
        import gpmp.num as gnp

        got = L.reduce_mean(lambda x, z: gnp.mean(x, axis=0))
        want = fn((ds.x_list[0].shape[1],), lambda j: rsum(toI(n), lambda i: toR(ds.x_list[0].elem((i, j)))) * rinv(R.ofI(toI(n))))
        run.eq("average-over-rows", got, want)
        ctx().ghost["bounded"] = "at most four batches (any sizes)"

    return task


def averages_any(vector):
    """Any number of batches, as the iteration tasks deliver them: the average weighted by the numbers of rows."""
    def task():
        from ..loops import isum
        from .c20 import Batches, position

        ctx().ghost["summarise"] = True
        D, ds, L, n, b, q, r, rest = loader(1)
        bs = Batches()
        D.DataLoader.__iter__ = lambda self: iter(bs)
        ctx().assumptions.add("DataLoader.__iter__ by its contract (iteration tasks): batches of any sizes")
        e = run.integer("e", 1)

        def value(x, z):
            k, l = position(x.elem((I(), I()))), position(z.elem((I(),)))
            return fn((e,), lambda j: R.arr("v", k, l, j)) if vector else sreal(R.arr("v", k, l))

        w = rinv(R.ofI(isum(bs.S, bs.m)))
        total = lambda *ix: rsum(bs.S, lambda k: R.arr("v", k, k, *ix) * R.ofI(bs.m(k))) * w
        for _ in range(2):
            got = L.reduce_mean(value)
            run.eq("average-over-rows", got, fn((e,), total)) if vector else run.eq("average-over-rows", sreal(toR(got)), sreal(total()))

    task.closing = True
    return task


def collate():
    import gpmp.dataloader as D

    ns = [run.integer("m%d" % i, 1) for i in range(3)]
    xs = [gp.mk("x%d" % i, (v, 2)) for i, v in enumerate(ns)]
    zs = [gp.mk("z%d" % i, (v,)) for i, v in enumerate(ns)]
    from ..arr import concat

    X, Z = D.collate_batches(list(zip(xs, zs)))
    run.eq("stacked-inputs", X, concat(xs, 0))
    run.eq("stacked-outputs", Z, concat(zs, 0))
    ctx().ghost["bounded"] = "three batches (any sizes)"


TASKS = []


def add(t, name):
    t.__name__ = name
    TASKS.append(t)


for k in (1, 2, 3):
    add(fetch(k), "fetch_%d_shards" % k)
    add(fetch_in_order(k), "fetch_in_order_%d_shards" % k)
for sh in (False, True):
    for dr in (False, True):
        add(iteration(sh, dr), "iteration_%s_%s" % ("shuffled" if sh else "plain", "drop" if dr else "keep"))
add(iteration(True, False, True), "iteration_endless")
for dr in (False, True):
    add(indexing(dr), "indexing_%s" % ("drop" if dr else "keep"))
for k in (0, 1, 2, 3):
    add(averages(k, k == 2), "averages_%d" % k)
TASKS += [epochs, refusals, collate]
for v in (False, True):
    add(averages_any(v), "averages_any_%s" % ("vector" if v else "scalar"))
