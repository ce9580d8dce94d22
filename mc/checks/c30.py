"""C30: quantities of separate systems do not influence each other."""
import itertools

import numpy

from mc import registry as rg
from mc import size

BOUND = {
    "quick": "every residual, Lambda, density and energy function; all pairs of fragments with 1 or 2 orbitals per class and three larger pairs (spin-orbital and restricted); 20 pairs of unequal unrestricted fragments; fragments stored one after the other, in the opposite order and alternating; dense tensors without Hermiticity, real, complex and one of each",
    "thorough": "as quick with 1 to 3 orbitals per class, and all pairs of unrestricted fragments with 1 or 2 orbitals per class"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative"]
NAMES = [e.name for e in rg.ENTRIES if e.module in ("cc_equations", "cc_energy")]
CONNECTED = [e.name for e in rg.ENTRIES if e.family == "residual"] + [e.name for e in rg.ENTRIES if "_1rdm_" in e.name]
BIG = (((4, 5), (2, 3)), ((2, 3), (5, 4)), ((3, 6), (3, 1)))


def pairs(fam, tier):
    th = tier == "thorough"
    if fam != "u":
        s = list(itertools.product((1, 2, 3) if th else (1, 2), repeat=2))
        return list(itertools.product(s, repeat=2)) + list(BIG)
    s = list(itertools.product((1, 2), repeat=4))
    if th:
        return list(itertools.product(s, repeat=2))
    return [(s[k], s[(7*k + 3) % 16]) for k in range(16)] + [((1, 1, 1, 1),)*2, ((2, 2, 2, 2),)*2, ((3, 2, 1, 4), (1, 2, 2, 1)), ((2, 1, 3, 2), (2, 3, 1, 2))]


def cases(tier):
    for nm in NAMES:
        for a, b in pairs(size.family(nm), tier):
            yield {"kind": "fragments", "f": nm, "a": list(a), "b": list(b)}


def cost(c):
    return numpy.prod(c["a"])*numpy.prod(c["b"])


def placements(A, B):
    """positions of the orbitals of both fragments, per class"""
    for how in ("after", "before", "alternating"):
        pa, pb = {}, {}
        for c in A:
            m, n = A[c], B[c]
            if how == "after":
                order = "a"*m + "b"*n
            elif how == "before":
                order = "b"*n + "a"*m
            else:
                order = "".join(("b" if k < n else "") + ("a" if k < m else "") for k in range(max(m, n)))
            pa[c] = [k for k, x in enumerate(order) if x == "a"]
            pb[c] = [k for k, x in enumerate(order) if x == "b"]
        yield how, pa, pb


def cut(x, axes, pos, N):
    return x[numpy.ix_(*[size.index(ax, pos, N) for ax in axes])]


def run(case, ctx):
    c = size.Call(case["f"])
    A, B = size.sizes(case["a"]), size.sizes(case["b"])
    N = {k: A[k] + B[k] for k in A}
    base = [size.make(c.e, case[k]) for k in ("a", "b")]
    for fa, fb in ((1.0, 0.6), (0.8 + 0.6j, 0.5), (0.6j + 0.8, 0.7 - 0.2j)):
        k = [iter(range(1000)), iter(range(1000))]
        pa = c.rebuild(base[0], lambda x, ax: x*fa*(1 + 0.1*(next(k[0]) % 3)), A)
        pb = c.rebuild(base[1], lambda x, ax: x*fb*(1 - 0.1*(next(k[1]) % 4)), B)
        ra, rb = c.run(pa), c.run(pb)
        ctx.step(2)
        for how, xa, xb in placements(A, B):
            other = iter(rg.leaves(pb, True))
            both = c.rebuild(pa, lambda x, ax: size.embed(x.astype(numpy.result_type(fa, fb)), ax, xa, N) + size.embed(next(other)[1], ax, xb, N), N)
            ctx.state()
            ctx.step()
            got = c.run(both)
            if not ctx.check(len(got) == len(ra), "number of results", order=how):
                return
            for r, (g, s, t, ax) in enumerate(zip(got, ra, rb, c.res)):
                if not isinstance(s, (numpy.ndarray, complex, float)):
                    continue
                d = dict(order=how, a=case["a"], b=case["b"])
                if ax is None:
                    ctx.same("%s: sum over fragments" % case["f"], g, s + t, **d)
                else:
                    ctx.same("%s: first fragment, result %d" % (case["f"], r), cut(g, ax, xa, N), s, **d)
                    ctx.same("%s: second fragment, result %d" % (case["f"], r), cut(g, ax, xb, N), t, **d)
                    if case["f"] in CONNECTED:
                        ctx.same("%s: nothing between the fragments, result %d" % (case["f"], r), g,
                                 size.embed(s.astype(complex), ax, xa, N) + size.embed(t, ax, xb, N), **d)
            ctx.outcome(case["f"], how, [g for g in got if not isinstance(g, int)])
    ctx.sample(f=case["f"], a=case["a"], b=case["b"])
