"""C29: a change of orbitals only changes the representation.

The shears 1 + x e_ij and the scalings of one orbital generate all linear changes of
the orbitals of one class, so covariance under each of them is covariance under all."""
import numpy

from mc import registry as rg
from mc import size

BOUND = {
    "quick": "every coupled-cluster, energy and spin-storage function; spin-orbital and restricted shapes 1x1 .. 3x3, 2x5, 5x2, 4x6 and 6x4, unrestricted shapes of 1 or 2 orbitals per class and four larger unequal ones; dense tensors without Hermiticity, real and complex; for each class of orbitals every shear of one orbital into another, every scaling of one orbital by -1, 2 and (complex) i, and the change that moves all classes at once",
    "thorough": "as quick with shapes up to 5x5, 8x3, 3x8 and all unrestricted shapes of 1 to 3 orbitals per class"}
ASSUMPTIONS = ["floating-point agreement to 1e-8 relative"]
TOL = 1e-8
G = ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (4, 6), (6, 4))
GT = ((4, 4), (5, 5), (4, 5), (5, 4), (8, 3), (3, 8))
UX = ((3, 2, 1, 4), (2, 4, 3, 1), (1, 3, 4, 2), (3, 3, 3, 3))
NAMES = [e.name for e in rg.ENTRIES if e.module in ("cc_equations", "cc_energy") or (e.family == "spin" and e.name != "int_to_spin_block")]


def shapes(fam, tier):
    th = tier == "thorough"
    if fam != "u":
        return G + (GT if th else ())
    r = (1, 2, 3) if th else (1, 2)
    out = [(a, b, c, d) for a in r for b in r for c in r for d in r]
    return tuple(out) + tuple(x for x in UX if x not in out)


def cases(tier):
    for nm in NAMES:
        for s in shapes(size.family(nm), tier):
            for c in (0, 1):
                yield {"kind": "orbitals", "f": nm, "shape": list(s), "cplx": c}


def cost(c):
    return numpy.prod(c["shape"])**2


def changes(N, cplx):
    """name and matrix per class of every elementary change"""
    x = 0.5 + 0.25j if cplx else 0.5
    for c, n in N.items():
        for i in range(n):
            for j in range(n):
                if i != j:
                    M = numpy.eye(n, dtype=type(x))
                    M[i, j] = x
                    yield "shear %s %d %d" % (c, i, j), {c: M}
        for i in range(n):
            for s in (-1.0, 2.0) + ((1j,) if cplx else ()):
                M = numpy.eye(n, dtype=type(x))
                M[i, i] = s
                yield "scale %s %d" % (c, i), {c: M}
    every = {}
    for k, (c, n) in enumerate(N.items()):
        M = numpy.eye(n, dtype=type(x))
        for i in range(n - 1):
            M[i, i + 1] = x*(1 + 0.1*k)
        every[c] = M[::-1] if k % 2 else M
    yield "all classes", every


def represent(X, axes, M, N):
    """tensor X after the change: the first half of the indices belongs to bras, the second to kets"""
    for k, ax in enumerate(axes):
        if not any(c in M for c in ax):
            continue
        n = sum(N[c] for c in ax)
        A = numpy.zeros((n, n), dtype=numpy.result_type(float, *[M[c] for c in ax if c in M]))
        at = 0
        for c in ax:
            A[at:at + N[c], at:at + N[c]] = M.get(c, numpy.eye(N[c]))
            at += N[c]
        A = numpy.linalg.inv(A) if k < len(axes)//2 else A.T
        X = numpy.moveaxis(numpy.tensordot(A, X, axes=(1, k)), 0, k)
    return numpy.ascontiguousarray(X)


def run(case, ctx):
    c = size.Call(case["f"])
    N = size.sizes(case["shape"])
    base = size.make(c.e, case["shape"])
    if case["cplx"]:
        k = iter(range(1000))
        base = c.rebuild(base, lambda x, ax: x*numpy.exp(0.3j*(next(k) % 7 + 1)), N)
    ref = c.run(base)
    ctx.step()
    for name, M in changes(N, case["cplx"]):
        ctx.state()
        ctx.step()
        got = c.run(c.rebuild(base, lambda x, ax: represent(x, ax, M, N), N))
        if not ctx.check(len(got) == len(ref), "number of results", change=name):
            return
        for r, (g, s, ax) in enumerate(zip(got, ref, c.res)):
            if isinstance(s, (numpy.ndarray, complex, float)):
                ctx.same("%s: orbitals changed, result %d" % (case["f"], r), g, s if ax is None else represent(s, ax, M, N), rtol=TOL,
                         change=name, sizes=case["shape"])
        ctx.outcome(case["f"], [g for g in got if not isinstance(g, int)])
    ctx.sample(f=case["f"], sizes=case["shape"], change=name)
