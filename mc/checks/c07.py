"""C07: CCSD residuals against <mu|exp(-T) H exp(T)|0>."""
import numpy

from mc import fock
from mc import tensors as tn
from mc import ccgrid as cg
from mc import size

BOUND = {
    "quick": "all unit Hamiltonian elements x complete degree-4 amplitude grid on shapes (o,v) up to 2x2 and 1x4/4x1 (both implementations), 2x3, 3x2 (factorized; plain: degree 2), 3x3 degree 2; dense tensors on 13 shapes x {real,complex} x {general,Hermitian} x 5 layouts x 28 block masks",
    "thorough": "as quick, plus complete degree-4 grids on 2x3, 3x2 (plain) and 3x3 (both), and dense tensors on 23 shapes up to 4x4, 3x5, 6x1"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "unit/lower-set enumeration decides polynomial identities of weighted degree <= 4 for the shape"]

FUNCS = ("ccsd_simple", "ccsd_stanton")


def cases(tier):
    grid = []
    for fn in FUNCS:
        slow = fn == "ccsd_simple"
        for no, nv in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]:
            grid.append((fn, no, nv, 4))
        for no, nv in [(1, 4), (4, 1)]:
            grid.append((fn, no, nv, 4 if not slow or tier == "thorough" else 2))
        for no, nv in [(2, 3), (3, 2)]:
            grid.append((fn, no, nv, 4 if not slow or tier == "thorough" else 2))
        grid.append((fn, 3, 3, 4 if tier == "thorough" else (2 if not slow else 1)))
    for fn, no, nv, deg in grid:
        npts = len(cg.grid_points(no, nv, deg))
        nun = len(list(tn.unit_H(no + nv)))
        per = 0.006 if fn == "ccsd_simple" else 0.0006
        k = max(1, int(npts*nun*per/3.0))
        k = min(k, npts)
        for c in range(k):
            yield {"kind": "grid", "fn": fn, "no": no, "nv": nv, "deg": deg, "part": c, "of": k}
        if fn != "ccsd_simple" or no*nv < 5:
            yield {"kind": "tiny", "fn": fn, "no": no, "nv": nv}
    shapes = cg.DENSE_SHAPES_T if tier == "thorough" else cg.DENSE_SHAPES_Q
    for no, nv in shapes:
        for cplx in (0, 1):
            yield {"kind": "dense", "no": no, "nv": nv, "cplx": cplx}


def cost(c):
    return c["no"]*c["nv"] if c["kind"] == "dense" else 5


def compare(ctx, fn, out, ref, scale=None, rtol=1e-9, **d):
    ok = ctx.check(isinstance(out, (tuple, list)) and len(out) == 2, fn + " returns singles and doubles", **d)
    if ok:
        ctx.same(fn + " singles", out[0], ref[0], scale=scale, rtol=rtol, **d)
        ctx.same(fn + " doubles", out[1], ref[1], scale=scale, rtol=rtol, **d)


def run(case, ctx):
    from cqcpy import cc_equations as eq
    no, nv = case["no"], case["nv"]
    sp = fock.space(no, nv)
    if case["kind"] in ("grid", "tiny"):
        fn = getattr(eq, case["fn"])
        U = cg.Units(no, nv)
        if case["kind"] == "grid":
            pts = cg.part(cg.grid_points(no, nv, case["deg"]), case["part"], case["of"])
            units = [1.0]
        else:
            pts = [p for p in cg.grid_points(no, nv, 2) if len(p) == 1]
            units = [1e-7, 1e5]
        for pt in pts:
            for u in units:
                T1, T2 = tn.amps_from(pt, no, nv, unit=u)
                cols = U.project(sp.residual_gen(T1, T2))
                ctx.state()
                for k, lab in enumerate(U.labels):
                    out = fn(U.F[k], U.I[k], T1, T2)
                    ctx.step()
                    ref = sp.unpack(cols[k])
                    m = float(abs(cols[k]).max()) if cols[k].size else 0.0
                    if u == 1.0:
                        compare(ctx, case["fn"], out, ref, H=lab, T=str(pt))
                    else:       # relative to the size of the expected value itself
                        compare(ctx, case["fn"], out, ref, scale=m or 1e-3, rtol=1e-6, H=lab, T=str(pt), unit=u)
                ctx.outcome(cols)
        ctx.sample(T=str(pts[-1]) if pts else "", H=str(U.labels[-1]))
        return
    cplx = bool(case["cplx"])
    n = no + nv
    for herm in (False, True):
        f, I = tn.dense_H(n, 3*herm, cplx, herm)
        for tset in ("both", "T1", "T2", "zero"):
            T1, T2 = tn.dense_T(no, nv, 1 + herm, cplx)
            if tset in ("T2", "zero"):
                T1 = 0*T1
            if tset in ("T1", "zero"):
                T2 = 0*T2
            G = sp.residual_gen(T1, T2)
            masks = list(cg.zero_masks()) if tset == "both" and not herm else [("all", None)]
            for mname, keep in masks:
                ff, II = (f, I) if keep is None else cg.mask_H(f, I, no, keep)
                ref = sp.unpack(fock.contract(G, ff, II))
                ctx.outcome(ref)
                ctx.state()
                F, B = tn.oblocks(ff, no), tn.tblocks(II, no)
                for fn in FUNCS:
                    out = getattr(eq, fn)(F, B, T1, T2)
                    ctx.step()
                    compare(ctx, fn, out, ref, mask=mname, T=tset, herm=herm)
            if tset == "both":
                ref = sp.unpack(fock.contract(G, f, I))
                for lay in tn.LAYOUTS:
                    F, B = (tn.rebuild(o, lambda x: tn.layout(x, lay)) for o in (tn.oblocks(f, no), tn.tblocks(I, no)))
                    ctx.state()
                    for fn in FUNCS:
                        out = getattr(eq, fn)(F, B, tn.layout(T1, lay), tn.layout(T2, lay))
                        ctx.step()
                        compare(ctx, fn, out, ref, layout=lay)
                # the full block container is accepted as well
                F, B = tn.oblocks(f, no), tn.tblocks(I, no, full=True)
                for fn in FUNCS:
                    out = getattr(eq, fn)(F, B, T1, T2)
                    ctx.step()
                    compare(ctx, fn, out, ref, container="full")


size.extend(__name__, ("ccsd_simple", "ccsd_stanton"))
