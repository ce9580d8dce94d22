"""C13: spin-orbital one-particle density matrices."""
import numpy

from mc import fock
from mc import tensors as tn
from mc import ccgrid as cg
from mc import size

BOUND = {
    "quick": "{L=0, every unit L} x complete degree-4 amplitude grid x reference weight {1, -0.5} on all shapes up to 3x3; dense tensors on 13 shapes x {real,complex} x every subset of zero amplitudes x 4 weights x 5 layouts",
    "thorough": "as quick with 2x4, 4x2 and dense tensors on 23 shapes"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "unit/lower-set enumeration decides polynomial identities of weighted degree <= 4 for the shape"]

# block name: letters a-d virtual, i-l occupied.  P[p,q] = <q+ p>
NAMES = [("ba", False), ("ji", False), ("ai", True)]
ORDER = 1
PREFIX = "ccsd_1rdm_"


def shapes(tier):
    s = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
    return s + [(2, 4), (4, 2)] if tier == "thorough" else s


def grid_cases(tier, deg=4, secs=0.003):
    for no, nv in shapes(tier):
        npts = len(cg.grid_points(no, nv, deg))
        nl = 1 + len(tn.amp_vars(no, nv))
        k = min(npts, max(1, int(npts*nl*secs/3)))
        for c in range(k):
            yield {"kind": "grid", "no": no, "nv": nv, "deg": deg, "part": c, "of": k}
    for no, nv in (cg.DENSE_SHAPES_T if tier == "thorough" else cg.DENSE_SHAPES_Q):
        for cplx in (0, 1):
            yield {"kind": "dense", "no": no, "nv": nv, "cplx": cplx}


def cases(tier):
    return grid_cases(tier)


def cost(c):
    return c["no"]*c["nv"]


def classes(name):
    return "".join('v' if x in 'abcd' else 'o' for x in name)


def block(D, name, no):
    """D is <p+ q> (or <{p+q+sr}>) over all spin orbitals"""
    P = D.T if D.ndim == 2 else D.transpose(2, 3, 0, 1)
    sl = tuple(slice(0, no) if c == 'o' else slice(no, None) for c in classes(name))
    return P[sl]


def explore_point(ctx, eq, mod, sp, no, t, lam, tfacs, **d):
    dens = {}
    for w in tfacs:
        dens[w] = sp.density(*t, *lam, one=w)[mod.ORDER - 1]
    for name, has in mod.NAMES:
        for suf in ("", "_opt"):
            fn = getattr(eq, mod.PREFIX + name + suf)
            for w in tfacs:
                if w == 1.0:
                    out = fn(t[0], t[1], lam[0], lam[1])
                elif has:
                    out = fn(t[0], t[1], lam[0], lam[1], tfac=w)
                else:
                    continue
                ctx.step()
                ctx.same(mod.PREFIX + name + suf, out, block(dens[w], name, no), tfac=w, **d)
    ctx.outcome(dens[1.0])


def run(case, ctx):
    import sys
    run_with(sys.modules[__name__], case, ctx)


def run_with(mod, case, ctx):
    from cqcpy import cc_equations as eq
    from mc.checks.c11 import lams_from, lam_points
    no, nv = case["no"], case["nv"]
    sp = fock.space(no, nv)
    if case["kind"] == "grid":
        pts = cg.part(cg.grid_points(no, nv, case["deg"]), case["part"], case["of"])
        lpts = lam_points(no, nv)
        lams = [lams_from(p, no, nv) for p in lpts]
        for pt in pts:
            T = tn.amps_from(pt, no, nv)
            for lp, L in zip(lpts, lams):
                ctx.state()
                explore_point(ctx, eq, mod, sp, no, T, L, (1.0, -0.5), T=str(pt), L=str(lp))
        for pt in [p for p in pts if sum(p.values()) == 1]:
            T = tn.amps_from(pt, no, nv, unit=1e-7)
            for lp, L in zip(lpts, lams):
                if not lp:
                    continue
                D = sp.density(*T, *L)[mod.ORDER - 1]
                for name, has in mod.NAMES:
                    ref = block(D, name, no)
                    m = abs(ref).max() if ref.size else 0
                    for suf in ("", "_opt"):
                        out = getattr(eq, mod.PREFIX + name + suf)(T[0], T[1], L[0], L[1])
                        ctx.step()
                        ctx.same(mod.PREFIX + name + suf, out, ref, scale=m or 1e-6, rtol=1e-6, T=str(pt), L=str(lp), unit=1e-7)
        ctx.sample(T=str(pts[-1]), L=str(lpts[-1]))
        return
    cplx = bool(case["cplx"])
    T = tn.dense_T(no, nv, 1, cplx)
    L = tn.dense_L(no, nv, 2, cplx)
    for m in range(16):
        t = tuple(x if m >> k & 1 else 0*x for k, x in enumerate(T))
        l = tuple(x if m >> (k + 2) & 1 else 0*x for k, x in enumerate(L))
        ctx.state()
        explore_point(ctx, eq, mod, sp, no, t, l, (1.0, 0.0, 0.5, -2.0), nonzero=bin(m))
    from mc import ucc
    for lay in tn.LAYOUTS:
        t1, t2, l1, l2 = ucc.relayout(list(T + L), lay)
        explore_point(ctx, eq, mod, sp, no, (t1, t2), (l1, l2), (1.0,), layout=lay)


size.extend(__name__, [e.name for e in size.rg.ENTRIES if e.name.startswith("ccsd_1rdm")])
