"""C25: call histories -- results depend only on the arguments."""
import gc
import itertools

import numpy

from mc import registry as rg

BOUND = {
    "quick": "all ordered pairs of public calls of one module as histories f, g, f, each from a fresh process and with everything from earlier calls overwritten in between; all ordered pairs across modules inside histories f, g1..g12, f; for each function alone all 16 ordered pairs of 4 argument sets in 5 styles (kept, overwritten, freed, same objects refilled, results overwritten only), each followed by a repeat; all ordered triples within a family in one style where the family has at most 14 members and needs no integral backend; for each function every way in which arguments of one kind and shape can be one object (all products of set partitions up to 600, above that the ones that merge one pair or leave at most two objects, in up to two kinds at a time) and every pair of arrays, also inside containers, in which one is the other or a transposed view of it",
    "thorough": "as quick, all ordered pairs (also across modules) as separate histories f, g, f in 5 styles, all ordered triples within every family and products of set partitions up to 20000"}
ASSUMPTIONS = ["the reference value of a call is its value as the first call of a fresh process; its correctness is the subject of the other checks",
               "random generators are called with the global numpy source reseeded immediately before the call"]
STYLES = ("kept", "overwritten", "freed", "refilled", "results")
CHUNK = 12


def fams():
    d = {}
    for k, e in enumerate(rg.ENTRIES):
        d.setdefault(e.family, []).append(k)
    return d


def cases(tier):
    rg.preload()
    th = tier == "thorough"
    n = len(rg.ENTRIES)
    for k in range(n):
        yield {"kind": "alone", "f": rg.ENTRIES[k].name}
    for k in range(n):
        yield {"kind": "alias", "f": rg.ENTRIES[k].name, "limit": (20000 if th else 600)//(10 if rg.ENTRIES[k].module == "integrals" else 1)}
    for a in range(0, n, CHUNK):
        for b in range(0, n, CHUNK):
            yield {"kind": "pairs", "a": a, "b": b, "n": n, "all": th}
    for fam, ix in fams().items():
        if th or (len(ix) <= 14 and rg.ENTRIES[ix[0]].module != "integrals"):
            for k in ix:
                yield {"kind": "triples", "f": rg.ENTRIES[k].name}


def cost(c):
    return {"triples": 3, "pairs": 1 + 20*(c.get("a", 0) >= 150 and c.get("b", 0) >= 150), "alone": 2, "alias": 4}[c["kind"]] + (30 if rg.BY_NAME.get(c.get("f")) and rg.BY_NAME[c["f"]].module == "integrals" else 0)


def run(case, ctx):
    getattr(Explore, case["kind"])(ctx, case)


_REF = {}


def ref(f, v):
    if (f, v) not in _REF:
        e = rg.BY_NAME[f]
        rg.prewarm(e)
        _REF[f, v] = rg.isolated(lambda: rg.canon(e.call(e.args(v))))
    return _REF[f, v]


def history(calls, style, refs):
    """Run a history in this process; returns a list of complaints."""
    bad = []
    alive = []
    prev = None
    for n, (f, v) in enumerate(calls):
        e = rg.BY_NAME[f]
        args = None
        if style == "refilled" and prev is not None and prev[0] == f:
            new = e.args(v)
            if rg.overwrite(prev[1], new) and not differs_nonarray(prev[1], new):
                args = prev[1]
        if args is None:
            args = e.args(v)
        before = rg.canon(args)
        out = e.call(args)
        got = rg.canon(out)
        d = rg.differs(got, refs[f, v])
        if d:
            bad.append("call %d, %s[%d]: %s" % (n, f, v, d))
        d = rg.differs(rg.canon(args), before, 0.0)
        if d:
            bad.append("call %d, %s[%d] changed its arguments: %s" % (n, f, v, d))
        # results returned earlier stay what they were
        for (m, o, c, own) in alive:
            if own is not args:
                d = rg.differs(rg.canon(o), c, 0.0)
                if d:
                    bad.append("call %d, %s[%d] changed the result of call %d: %s" % (n, f, v, m, d))
        prev = (f, args)
        if style == "kept":
            alive.append((n, out, got, args))
        elif style == "overwritten":
            rg.scribble(out)
            rg.scribble(args)
            alive.append((n, None, rg.canon(None), args))
        elif style == "results":
            rg.scribble(out)
        elif style == "refilled":
            alive.append((n, None, rg.canon(None), args))
        elif style == "freed":
            prev = None
            del out, args
            gc.collect()
        if bad:
            break
    return bad


def differs_nonarray(a, b):
    keep = lambda o: [x for x in rg.canon(o) if x[0] != "array"]
    return keep(a) != keep(b)


def explore(ctx, calls, style):
    refs = {(f, v): ref(f, v) for f, v in calls}
    ctx.state()
    ctx.step(len(calls))
    ctx.note("histories_" + style)
    try:
        bad = rg.isolated(lambda: history(calls, style, refs))
    except rg.Failed as e:
        bad = [str(e)]
    ctx.check(not bad, bad[0] if bad else "", history=[list(c) for c in calls], style=style)
    for c in calls:
        ctx.outcome(c[0], c[1], [x for _, x in refs[c]])


def partitions(k):
    """all set partitions of range(k) as block labels"""
    def rec(lab):
        if len(lab) == k:
            yield tuple(lab)
            return
        for b in range(max(lab) + 2 if lab else 1):
            for x in rec(lab + [b]):
                yield x
    return list(rec([]))


def merges(groups, limit):
    """which arguments of one kind are one object: every combination of partitions of the groups, or
    (above the limit) those with at most two merged groups that join one pair or leave at most two objects
    (in groups of more than eight: one pair or everything)"""
    plain = tuple(tuple(range(len(g))) for g in groups)
    few = []
    if all(len(g) <= 8 for g in groups):
        per = [partitions(len(g)) for g in groups]
        total = 1
        for x in per:
            total *= len(x)
        if total <= limit:
            return list(itertools.product(*per))
        few = [[x for x in p if max(x) + 1 >= len(x) - 1 or max(x) <= 1] for p in per]
    else:
        for g in groups:
            pairs = [tuple(i if k == j else k for k in range(len(g))) for i, j in itertools.combinations(range(len(g)), 2)]
            few.append([tuple(range(len(g))), (0,)*len(g)] + pairs)
    out = {plain, tuple((0,)*len(g) for g in groups)}
    for a, b in itertools.combinations(range(len(groups)), 2):
        if len(few[a])*len(few[b]) <= limit:
            for x in few[a]:
                for y in few[b]:
                    out.add(tuple(x if k == a else y if k == b else plain[k] for k in range(len(groups))))
    for a in range(len(groups)):
        for x in few[a]:
            out.add(tuple(x if k == a else plain[k] for k in range(len(groups))))
    return sorted(out)


class Explore(object):
    @staticmethod
    def alias(ctx, case):
        e = rg.BY_NAME[case["f"]]
        rg.prewarm(e)

        def compare(base, new, what):
            """objects shared as given by new (path -> object) against equal copies of them"""
            ctx.state()
            ctx.step(2)
            shared = rg.substitute(base, new)
            before = rg.canon(shared)
            got = rg.canon(e.call(shared))
            d = rg.differs(rg.canon(shared), before, 0.0)
            ctx.check(not d, "arguments changed", call=e.name, shared=what, difference=d)
            own = rg.substitute(base, {p: rg.substitute(x, {}) for p, x in new.items()})
            want = rg.canon(e.call(own))
            d = rg.differs(got, want)
            ctx.check(not d, "result depends on whether equal arguments are one object", call=e.name, shared=what, difference=d)
            ctx.outcome(e.name, [x for _, x in want])

        for v in (5, 6):
            base = e.alias_args(v)
            L = rg.leaves(base)
            groups = {}
            for p, x, key in L:
                groups.setdefault(key, []).append((p, x))
            groups = [g for g in groups.values() if len(g) > 1]
            for combo in merges(groups, case["limit"]):
                new, what = {}, []
                for g, lab in zip(groups, combo):
                    for k, b in enumerate(lab):
                        if b in lab[:k] or b in lab[k + 1:]:
                            new[g[k][0]] = g[lab.index(b)][1]
                    what.append([list(map(str, [g[k][0] for k in range(len(g)) if lab[k] == b])) for b in sorted(set(lab)) if lab.count(b) > 1])
                compare(base, new, what)
            # single arrays, also inside containers, and transposed views of each other
            A = [(p, x) for p, x, _ in rg.leaves(base, True) if isinstance(x, numpy.ndarray)]
            for (p, x), (q, y) in itertools.permutations(A, 2):
                if x.ndim != y.ndim or not x.size:
                    continue
                for perm in {1: ((0,),), 2: ((0, 1), (1, 0)), 4: ((0, 1, 2, 3), (2, 3, 0, 1))}.get(x.ndim, ()):
                    z = x.transpose(perm)
                    if z.shape == y.shape:
                        compare(base, {p: x, q: z}, [[str(p), str(q), list(perm)]])
            if v == 5 and rg.differs(rg.canon(e.alias_args(6)), rg.canon(base), 0.0) is None:
                break
        ctx.sample(call=e.name, argument_kinds=len(groups))

    @staticmethod
    def alone(ctx, case):
        f = case["f"]
        e = rg.BY_NAME[f]
        rg.prewarm(e)
        V = e.variants[:4]
        for v in V:
            for w in V:
                for s in STYLES:
                    explore(ctx, [(f, v), (f, w), (f, v)], s)
        ctx.sample(history=[[f, 0], [f, 1], [f, 0]])

    @staticmethod
    def pairs(ctx, case):
        F = rg.ENTRIES[case["a"]:case["a"] + CHUNK]
        G = rg.ENTRIES[case["b"]:case["b"] + CHUNK]
        for e in F + G:
            rg.prewarm(e)
        for f in F:
            for g in G:
                if f.module == g.module or case["all"]:
                    for s in STYLES if case["all"] else ("overwritten",):
                        explore(ctx, [(f.name, 0), (g.name, 1), (f.name, 0)], s)
            other = [(g.name, 1) for g in G if g.module != f.module]
            if other and not case["all"]:
                explore(ctx, [(f.name, 0)] + other + [(f.name, 0)], "overwritten")

    @staticmethod
    def triples(ctx, case):
        f = rg.BY_NAME[case["f"]]
        rg.prewarm(f)
        fam = [e for e in rg.ENTRIES if e.family == f.family]
        for g in fam:
            for h in fam:
                explore(ctx, [(f.name, 0), (g.name, 2), (h.name, 3)], "kept")
