"""C18: occupied/virtual block containers."""
import itertools

import numpy

from mc import tensors as tn

BOUND = {
    "quick": "all occupied and virtual counts 0..2 on each of the four axes independently (6561 splits) with a unique tag per element, real and complex, five layouts on a sub-lattice of splits; every subset of given blocks for the containers of nine blocks (512) and of one-electron blocks, every single and every pair for the containers of sixteen; every wrong-extent call; long axes: every single count of the eight at 7, 16, 33, 64 and 129 and every pair at 9, the rest 1 or 2, real and complex",
    "thorough": "as quick, counts 0..3 on the lattice of splits (65536), and every subset of sixteen blocks"}
ASSUMPTIONS = []


def cases(tier):
    top = 4 if tier == "thorough" else 3
    for a in itertools.product(range(top), repeat=4):
        yield {"kind": "split", "occ": list(a), "top": top}
    yield {"kind": "one"}
    yield {"kind": "nine"}
    for k in range(16 if tier == "thorough" else 1):
        yield {"kind": "sixteen", "part": k, "all": tier == "thorough"}
    yield {"kind": "wrong"}
    for k in range(8):
        yield {"kind": "long", "k": k}


def run(case, ctx):
    from cqcpy import ov_blocks as ob
    getattr(Explore, case["kind"])(ob, ctx, case)


def absent(x):
    return x is None


class Explore(object):
    @staticmethod
    def look(ob, ctx, X, o, v, lay=None):
        args = [x for p in zip(o, v) for x in p]
        rng = {"o": [range(k) for k in o], "v": [range(k, k + l) for k, l in zip(o, v)]}
        keep = X.copy()
        cover = {}
        for nm, names in (("make_two_e_blocks", tn.NAMES9), ("make_two_e_blocks_full", tn.NAMES16)):
            B = getattr(ob, nm)(X, *args)
            ctx.step()
            for k in names:
                idx = [rng[c][p] for p, c in enumerate(k)]
                if X.size < 1000:
                    ref = numpy.array([X[i] for i in itertools.product(*idx)], dtype=X.dtype).reshape([len(i) for i in idx])
                else:
                    ref = X[numpy.ix_(*[list(i) for i in idx])]
                got = getattr(B, k)
                ctx.same("%s %s" % (nm, k), got, ref, rtol=0, occ=o, vir=v, layout=lay)
                if nm.endswith("full"):
                    for t in numpy.asarray(got).ravel():
                        cover[complex(t)] = cover.get(complex(t), 0) + 1
            for k in tn.NAMES16:
                if k not in names:
                    ctx.check(absent(getattr(B, k, None)), "%s leaves %s unset" % (nm, k), occ=o, vir=v)
        ctx.check(len(cover) == X.size and all(c == 1 for c in cover.values()), "sixteen blocks cover every element once", occ=o, vir=v)
        ctx.check(numpy.array_equal(X, keep), "input unchanged")

    @staticmethod
    def split(ob, ctx, case):
        o = tuple(case["occ"])
        for v in itertools.product(range(case["top"]), repeat=4):
            n = [x + y for x, y in zip(o, v)]
            X = 1.0 + numpy.arange(int(numpy.prod(n))).reshape(n)
            ctx.state()
            Explore.look(ob, ctx, X, o, v)
            if max(v) < 2:
                Explore.look(ob, ctx, X*(1 + 2j), o, v)
                for lay in tn.LAYOUTS:
                    ctx.state()
                    Explore.look(ob, ctx, tn.layout(X, lay), o, v, lay)
            ctx.outcome(o, v)
        ctx.sample(occ=list(o), vir=list(v))

    @staticmethod
    def long(ob, ctx, case):
        """one long axis (or two moderately long ones) of the eight counts"""
        k, todo = case["k"], []
        for n in (7, 16, 33, 64, 129):
            for rest in (1, 2):
                e = [rest]*8
                e[k] = n
                todo.append(e)
        for j in range(8):
            e = [1, 2, 2, 1, 1, 1, 2, 2]
            e[k] = e[j] = 9
            todo.append(e)
        for e in todo:
            o, v = tuple(e[:4]), tuple(e[4:])
            n = [x + y for x, y in zip(o, v)]
            X = 1.0 + numpy.arange(int(numpy.prod(n))).reshape(n)
            for Y in (X, X*(1 + 2j)):
                ctx.state()
                Explore.look(ob, ctx, Y, o, v)
            ctx.outcome(o, v)

    @staticmethod
    def holds(ctx, B, names, given, val):
        for k in names:
            x = getattr(B, k, None)
            if k in given:
                ctx.check(x is not None and numpy.array_equal(x, val[k]), "block %s returned under its name" % k, given=",".join(given))
            else:
                ctx.check(absent(x), "block %s not given is absent" % k, given=",".join(given))

    @staticmethod
    def one(ob, ctx, case):
        for dt in (float, complex):
            for no, nv in itertools.product(range(3), repeat=2):
                f = tn.weyl((no + nv,)*2, 3, dt is complex)
                val = {"oo": f[:no, :no], "ov": f[:no, no:], "vo": f[no:, :no], "vv": f[no:, no:]}
                ctx.state()
                ctx.step(2)
                Explore.holds(ctx, ob.one_e_blocks(val["oo"], val["ov"], val["vo"], val["vv"]), val, list(val), val)
                Explore.holds(ctx, ob.one_e_blocks(**val), val, list(val), val)
                ctx.outcome(no, nv)

    @staticmethod
    def nine(ob, ctx, case):
        val = {k: tn.weyl((1, 2, 1, 2), j) for j, k in enumerate(tn.NAMES9)}
        for r in range(10):
            for sub in itertools.combinations(tn.NAMES9, r):
                ctx.state()
                ctx.step()
                B = ob.two_e_blocks(**{k: val[k] for k in sub})
                Explore.holds(ctx, B, tn.NAMES9, sub, val)
                ctx.outcome(sub)
        ctx.step()
        B = ob.two_e_blocks(*[val[k] for k in tn.NAMES9])
        Explore.holds(ctx, B, tn.NAMES9, tn.NAMES9, val)

    @staticmethod
    def sixteen(ob, ctx, case):
        names = ("vvvv", "vvvo", "vvov", "vovv", "ovvv", "vvoo", "vovo", "ovvo",
                 "voov", "ovov", "oovv", "vooo", "ovoo", "oovo", "ooov", "oooo")
        val = {k: tn.weyl((1, 2, 1, 2), j) for j, k in enumerate(names)}
        if case["all"]:
            subs = [tuple(k for j, k in enumerate(names) if m >> j & 1) for m in range(case["part"] << 12, (case["part"] + 1) << 12)]
        else:
            subs = [s for r in (0, 1, 2, 14, 15, 16) for s in itertools.combinations(names, r)]
        for sub in subs:
            ctx.state()
            ctx.step()
            Explore.holds(ctx, ob.two_e_blocks_full(**{k: val[k] for k in sub}), names, sub, val)
            ctx.outcome(sub)
        Explore.holds(ctx, ob.two_e_blocks_full(*[val[k] for k in names]), names, names, val)

    @staticmethod
    def wrong(ob, ctx, case):
        """extents that do not add up are refused, not silently mis-split"""
        good = [1, 2, 2, 1, 1, 1, 2, 2]
        X = tn.weyl((3, 3, 2, 4), 1)
        for k in range(8):
            for dlt in (-1, 1):
                bad = list(good)
                bad[k] += dlt
                for nm in ("make_two_e_blocks", "make_two_e_blocks_full"):
                    ctx.state()
                    ctx.step()
                    try:
                        getattr(ob, nm)(X, *bad)
                        ok = False
                    except Exception:
                        ok = True
                    ctx.check(ok, nm + " refuses extents that do not match the tensor", extents=str(bad))
                    ctx.outcome(nm, k, dlt)
