"""Large index spaces for the coupled-cluster and storage functions.

The exact model only exists for a few orbitals.  Two exact consequences of the
definitions carry the result to large arrays:

embedding    orbitals on which every input tensor vanishes contribute nothing, so a
             small problem placed on any subset of the orbitals of a large one gives
             the small result on these orbitals and zero elsewhere;
relabelling  renumbering the orbitals of one class renumbers the result.

Axes are identified by calling every function once with the sizes 1, 2, 4, 8 for
occupied alpha, virtual alpha, occupied beta, virtual beta: any extent tells which
of the four sets an axis runs over.
"""
import numpy

from mc import registry as rg

LAB = ("o", "O", "v", "V")              # order of a combined axis: occupied before virtual, alpha first
BIT = {"o": 1, "v": 2, "O": 4, "V": 8}
PROBE = 90                              # variant numbers reserved for shapes set here
FREE = 91

EMBED = {"g": ((5, 6), (9, 9), (17, 4), (4, 17), (33, 3), (3, 33)),
         "u": ((5, 4, 3, 6), (9, 3, 2, 10), (3, 10, 9, 2), (17, 2, 3, 4), (2, 17, 3, 2), (2, 3, 17, 3), (3, 2, 2, 17)),
         "r": ((5, 6), (9, 9), (17, 4), (4, 17), (33, 3), (3, 33))}
DENSE = {"g": ((9, 10), (17, 4), (4, 17)), "u": ((9, 3, 2, 10), (3, 10, 9, 2)), "r": ((9, 10), (17, 4), (4, 17))}
SMALL = {"g": (2, 2), "u": (2, 2, 2, 2), "r": (2, 2)}
MORE = {"g": ((6, 7), (8, 8), (10, 12), (16, 16), (65, 2), (2, 65)), "u": ((6, 7, 8, 5), (33, 2, 2, 2), (2, 33, 2, 2), (2, 2, 33, 2), (2, 2, 2, 33)),
        "r": ((6, 7), (8, 8), (10, 12), (16, 16), (65, 2), (2, 65))}

rg.vk0 = getattr(rg, "vk0", rg.vk)
rg.vk = lambda v: {PROBE: 2, FREE: 2}[v] if v in (PROBE, FREE) else rg.vk0(v)


def family(name):
    return "u" if name.startswith(("uccsd", "ucc_", "ump2")) else "r" if name.startswith(("rccsd", "rcc_")) else \
        "u" if rg.BY_NAME[name].module == "spin_utils" else "g"


def sizes(shape):
    if len(shape) == 2:
        return dict(zip(("o", "v"), shape))
    return dict(zip(("o", "v", "O", "V"), shape))


def make(e, shape, v=FREE):
    if len(shape) == 2:
        rg.GSHAPE[v] = rg.RSHAPE[v] = tuple(shape)
    else:
        rg.USHAPE[v] = tuple(shape)
    return e.args(v)


def axis(extent):
    """label set of an axis of the probe call"""
    s = tuple(c for c in LAB if extent & BIT[c])
    assert extent == sum(BIT[c] for c in s) and s, extent
    return s


class Call(object):
    def __init__(self, name):
        self.e = rg.BY_NAME[name]
        self.fam = family(name)
        a = make(self.e, (1, 2) if self.fam != "u" else (1, 2, 4, 8), PROBE)
        self.arg = [[axis(n) for n in x.shape] for _, x, _ in rg.leaves(a, True)]
        self.num = [axis(x) for x in a if isinstance(x, int)]
        self.res = [[axis(n) for n in x.shape] if k == "array" and x.ndim else None for k, x in rg.canon(self.e.call(a))]
        self.small = make(self.e, SMALL[self.fam])

    def run(self, args):
        out = rg.canon(self.e.call(args))
        return [complex(x) if k == "array" and not x.ndim else x for k, x in out]

    def rebuild(self, base, fn, N):
        """arguments with every array replaced by fn(array, axes) and the orbital counts by those of N"""
        L = rg.leaves(base, True)
        assert len(L) == len(self.arg)
        args = rg.substitute(base, {p: fn(x, ax) for (p, x, _), ax in zip(L, self.arg)})
        it = iter(self.num)
        return tuple(sum(N[c] for c in next(it)) if isinstance(x, int) else x for x in args)


def index(ax, pos, N):
    """positions on a combined axis"""
    out, off = [], 0
    for c in ax:
        out += [off + int(k) for k in pos[c]]
        off += N[c]
    return out


def embed(x, axes, pos, N):
    big = numpy.zeros([sum(N[c] for c in ax) for ax in axes], dtype=x.dtype)
    big[numpy.ix_(*[index(ax, pos, N) for ax in axes])] = x
    return big


def places(N, k):
    """positions of the k small orbitals of every class"""
    default = {c: tuple(range(k[c] - 1)) + (n - 1,) for c, n in N.items()}
    yield default
    for c, n in N.items():
        if k[c] != 2:
            continue
        P = [(i, j) for i in range(n) for j in range(i + 1, n)]
        if n > 9:
            P = [(i, j) for i, j in P if j == i + 1 or (n < 20 and (i == 0 or j == n - 1))]
        if n > 40:
            P = [(i, j) for i, j in P if i % 8 in (0, 7) or j == n - 1]
        for p in P:
            yield dict(default, **{c: p})
    top = max(N.values())
    for s in range(top):
        if top > 40 and s % 8 not in (0, 7):
            continue
        yield {c: tuple(sorted((s + j) % n for j in range(k[c]))) for c, n in N.items()}


def cases(names, tier):
    for nm in names:
        fam = family(nm)
        for s in EMBED[fam] + (MORE[fam] if tier == "thorough" else ()):
            yield {"kind": "embedding", "f": nm, "shape": list(s)}
        for s in DENSE[fam]:
            yield {"kind": "relabel", "f": nm, "shape": list(s)}


def embedding(ctx, case):
    c = Call(case["f"])
    N, k = sizes(case["shape"]), sizes(SMALL[c.fam])
    for ph in (1.0, 0.6 + 0.8j):
        small = c.rebuild(c.small, lambda x, ax: x*ph, k)
        ref = c.run(small)
        for n, pos in enumerate(places(N, k)):
            if ph != 1.0 and n % 7:
                continue
            ctx.state()
            ctx.step()
            got = c.run(c.rebuild(small, lambda x, ax: embed(x, ax, pos, N), N))
            ctx.check(len(got) == len(ref), "number of results", shape=case["shape"])
            for r, (g, s, ax) in enumerate(zip(got, ref, c.res)):
                if ax is None:
                    want = s
                else:
                    want = embed(s, ax, pos, N)
                if isinstance(s, (numpy.ndarray, complex, float)):
                    ctx.same("%s: small problem inside a large one, result %d" % (case["f"], r), g, want,
                             orbitals={a: list(b) for a, b in pos.items()}, sizes=case["shape"])
            ctx.outcome(case["f"], sorted(pos.items()), [g for g in got if not isinstance(g, int)])
    ctx.sample(f=case["f"], sizes=case["shape"], orbitals={a: list(b) for a, b in pos.items()})


def relabel(ctx, case):
    c = Call(case["f"])
    N = sizes(case["shape"])
    base = make(c.e, case["shape"])
    ref = c.run(base)
    for lab, n in N.items():
        perms = [numpy.roll(numpy.arange(n), s) for s in range(1, n)] + [numpy.arange(n)[::-1]]
        for p in perms:
            pos = {x: numpy.arange(m) if x != lab else p for x, m in N.items()}
            take = lambda x, ax: numpy.ascontiguousarray(x[numpy.ix_(*[index(a, pos, N) for a in ax])])
            ctx.state()
            ctx.step()
            got = c.run(c.rebuild(base, take, N))
            for r, (g, s, ax) in enumerate(zip(got, ref, c.res)):
                if isinstance(s, (numpy.ndarray, complex, float)):
                    ctx.same("%s: renumbered orbitals, result %d" % (case["f"], r), g, s if ax is None else take(s, ax),
                             axis_class=lab, order=[int(x) for x in p], sizes=case["shape"])
            ctx.outcome(case["f"], lab, [g for g in got if not isinstance(g, int)])


TEXT = "; a small problem embedded at all pairs of positions (thinned above 9 orbitals) of larger spaces with up to 33 orbitals of one class, and all cyclic renumberings of one class on dense tensors with up to 17"


def extend(mod, names):
    """add the large-space cases of the given functions to a check module"""
    import sys
    mod = sys.modules[mod]
    base_cases, base_run, base_cost = mod.cases, mod.run, getattr(mod, "cost", lambda c: 1)
    here = {"embedding": embedding, "relabel": relabel}

    def all_cases(tier):
        for c in base_cases(tier):
            yield c
        for c in cases(names, tier):
            yield c

    def all_run(case, ctx):
        if case["kind"] in here:
            here[case["kind"]](ctx, case)
        else:
            base_run(case, ctx)

    mod.cases, mod.run = all_cases, all_run
    mod.cost = lambda c: (1e3 if max(c["shape"]) > 30 else 4) if c["kind"] in here else base_cost(c)
    mod.BOUND = {"quick": mod.BOUND["quick"] + TEXT, "thorough": mod.BOUND["thorough"] + TEXT.replace("33", "65").replace("above 9 orbitals", "above 9 orbitals, further above 40")}
