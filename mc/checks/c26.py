"""C26: thread interleavings of public calls."""
import os

from mc import main
from mc import registry as rg
from mc import schedule as sc

BOUND = {
    "quick": "two threads; every public function without a random source or integral backend against itself (other values, other shapes, other dtype, and the same shared argument objects), every schedule with one preemption at a source line, call or return inside the package, each from a fresh process (for code in loops: the first two and the last visit of each place); every ordered pair of functions of one family likewise, from one fresh process per pair (first visit of each place; CI vectors from amplitudes up to doubles)",
    "thorough": "as quick, preemption points at every bytecode instruction, and for every function (except cluster-to-CI conversion of third and fourth order) against itself every schedule with two preemptions at source lines (first visit of each place)"}
ASSUMPTIONS = ["code outside the package (numpy, the contraction backend) runs without preemption",
               "a thread that waits for the other one for 5 s (for instance on a lock) is released and both run freely from there on; results are compared all the same"]
ROOT = os.path.realpath(os.path.join(main.REPO, "cqcpy")) + os.sep
CHUNK = 40


def alphabet():
    return [e for e in rg.ENTRIES if e.shared and e.module not in ("integrals", "test_utils")]


def heavy(e):
    return e.name.endswith(("akeCfromT(3)", "akeCfromT(4)"))


def cases(tier):
    rg.preload()
    th = tier == "thorough"
    for e in alphabet():
        for mode in ("shared", "values", "shapes", "dtype"):
            yield {"kind": "same", "f": e.name, "mode": mode, "op": False}
            if th:
                yield {"kind": "same", "f": e.name, "mode": mode, "op": True}
        if th and not heavy(e):
            yield {"kind": "two", "f": e.name}
        if th or not heavy(e):
            yield {"kind": "family", "f": e.name, "all": th}


def cost(c):
    return {"family": 20, "same": 10, "two": 100}[c["kind"]] + 10*(c.get("op", False)) + 20*("akeCfromT" in c["f"])


def run(case, ctx):
    getattr(Explore, case["kind"])(ctx, case)


def threads(calls, plan, op=False):
    """returns (outcomes, switches, stuck)"""
    s = sc.Scheduler(calls, plan, ROOT, op)
    out = s.run()
    res = []
    for kind, val in out:
        res.append((kind, rg.canon(val) if kind == "ok" else val))
    return res, s.switches, s.stuck


def judge(ctx, what, result, refs, **d):
    out, switches, stuck = result
    ctx.state()
    ctx.step(2)
    ctx.note("switches", switches)
    if stuck:
        ctx.note("released_after_wait")
    for k, ((kind, val), r) in enumerate(zip(out, refs)):
        bad = val if kind != "ok" else rg.differs(val, r)
        ctx.check(not bad, "%s, thread %d: %s" % (what, k, bad), **d)


def pair_args(e, mode):
    if mode == "shared":
        a = e.args(0)
        return a, a
    return e.args(0), e.args({"values": 1, "shapes": 2, "dtype": 3}[mode])


class Explore(object):
    @staticmethod
    def same(ctx, case):
        e = rg.BY_NAME[case["f"]]
        mode, op = case["mode"], case["op"]
        w = {"shared": 0, "values": 1, "shapes": 2, "dtype": 3}[mode]
        refs = [rg.isolated(lambda: rg.canon(e.call(e.args(v)))) for v in (0, w)]

        def count():
            a = e.args(0)
            if op:                  # instruction events appear once the code has been traced before
                sc.points(lambda: e.call(a), ROOT, op)
            return sc.points(lambda: e.call(a), ROOT, op)
        ks, total = rg.isolated(count)
        ctx.note("points_total", total)

        def one(k):
            a, b = pair_args(e, mode)
            if op:
                sc.points(lambda: e.call(e.args(0)), ROOT, op)
            return threads([lambda: e.call(a), lambda: e.call(b)], [k], op)
        for k in ks:
            judge(ctx, e.name, rg.isolated(lambda: one(k)), refs, f=e.name, mode=mode, preempt_at=k)
        ctx.outcome(e.name, [x for r in refs for _, x in r])
        ctx.sample(f=e.name, mode=mode, preemption_points=len(ks))

    @staticmethod
    def family(ctx, case):
        e = rg.BY_NAME[case["f"]]
        ks, total = rg.isolated(lambda: (lambda a: sc.points(lambda: e.call(a), ROOT, visits=1))(e.args(0)))
        r0 = rg.isolated(lambda: rg.canon(e.call(e.args(0))))
        for g in alphabet():
            if g.family != e.family or g is e or (heavy(g) and not case["all"]):
                continue
            r1 = rg.isolated(lambda: rg.canon(g.call(g.args(1))))

            def many():
                out = []
                for k in ks:
                    a, b = e.args(0), g.args(1)
                    res, sw, st = threads([lambda: e.call(a), lambda: g.call(b)], [k])
                    bad = [val if kind != "ok" else rg.differs(val, r) for (kind, val), r in zip(res, (r0, r1))]
                    out.append((bad, sw, st))
                return out
            for k, (bad, sw, st) in zip(ks, rg.isolated(many)):
                ctx.state()
                ctx.step(2)
                ctx.note("switches", sw)
                if st:
                    ctx.note("released_after_wait")
                ctx.check(not any(bad), "%s against %s: %s" % (e.name, g.name, bad), preempt_at=k)

    @staticmethod
    def two(ctx, case):
        e = rg.BY_NAME[case["f"]]
        refs = [rg.isolated(lambda: rg.canon(e.call(e.args(v)))) for v in (0, 1)]
        k0, _ = rg.isolated(lambda: (lambda a: sc.points(lambda: e.call(a), ROOT, visits=1))(e.args(0)))
        k1, _ = rg.isolated(lambda: (lambda a: sc.points(lambda: e.call(a), ROOT, visits=1))(e.args(1)))

        def many(k):
            out = []
            for m in k1:
                a, b = e.args(0), e.args(1)
                res, sw, st = threads([lambda: e.call(a), lambda: e.call(b)], [k, m])
                out.append(([val if kind != "ok" else rg.differs(val, r) for (kind, val), r in zip(res, refs)], sw, st))
            return out
        for k in k0:
            for m, (bad, sw, st) in zip(k1, rg.isolated(lambda: many(k))):
                ctx.state()
                ctx.step(2)
                ctx.note("switches", sw)
                if st:
                    ctx.note("released_after_wait")
                ctx.check(not any(bad), "%s: %s" % (e.name, bad), preempt_at=[k, m])
