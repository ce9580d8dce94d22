"""C11: spin-orbital Lambda residuals against the Lagrangian derivative."""
import numpy

from mc import fock
from mc import tensors as tn
from mc import ccgrid as cg
from mc import size

BOUND = {
    "quick": "all unit Hamiltonian elements x {L=0, every unit L} x complete degree-3 amplitude grid (the derivative has weighted degree <= 3) on shapes up to 2x2, 1x3, 3x1 (plain code: degree 2 on 2x2), degree 2 on 2x3 and 3x2 (optimized codes); dense tensors on 13 shapes x {real,complex} x block masks x 5 layouts",
    "thorough": "as quick with degree 3 everywhere incl. 2x3, 3x2 and dense tensors on 23 shapes"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "unit/lower-set enumeration decides polynomial identities of weighted degree <= 3 for the shape"]

FUNCS = ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_opt_int", "ccsd_lambda_stanton")
FAST = FUNCS[1:]


def cases(tier):
    th = tier == "thorough"
    plan = []
    for no, nv in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]:
        plan.append(("fast", no, nv, 3))
        plan.append(("slow", no, nv, 3 if th or no*nv < 3 else (2 if no*nv == 4 else 2)))
    for no, nv in [(2, 3), (3, 2)]:
        plan.append(("fast", no, nv, 3 if th else 2))
        plan.append(("slow", no, nv, 2 if th else 0))
    for grp, no, nv, deg in plan:
        npts = len(cg.grid_points(no, nv, deg))
        nl = 1 + len(tn.amp_vars(no, nv))
        nun = len(list(tn.unit_H(no + nv)))
        per = 0.009 if grp == "slow" else 0.0022
        k = min(npts, max(1, int(npts*nl*nun*per/4)))
        for c in range(k):
            yield {"kind": "grid", "grp": grp, "no": no, "nv": nv, "deg": deg, "part": c, "of": k}
    for no, nv in [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1)] + ([(3, 3)] if th else []):
        yield {"kind": "ccd", "no": no, "nv": nv}
    for no, nv in (cg.DENSE_SHAPES_T if th else cg.DENSE_SHAPES_Q):
        for cplx in (0, 1):
            yield {"kind": "dense", "no": no, "nv": nv, "cplx": cplx}


def cost(c):
    return c["no"]*c["nv"]


def lams_from(pt, no, nv):
    a, b = tn.amps_from(pt, no, nv)
    return a.T.copy(), numpy.ascontiguousarray(b.transpose(2, 3, 0, 1))


def lam_points(no, nv, singles=True):
    return [{}] + [{v: 1} for v in tn.amp_vars(no, nv, singles=singles)]


def ref_blocks(sp, col):
    S, D = sp.unpack(col)
    return S.T, D.transpose(2, 3, 0, 1)


def compare(ctx, fn, out, ref, **d):
    if ctx.check(len(out) == 2, fn + " result structure", **d):
        ctx.same(fn + " singles", out[0], ref[0], **d)
        ctx.same(fn + " doubles", out[1], ref[1], **d)


def run(case, ctx):
    from cqcpy import cc_equations as eq
    no, nv = case["no"], case["nv"]
    n = no + nv
    sp = fock.space(no, nv)
    if case["kind"] == "grid":
        U = cg.Units(no, nv)
        pts = cg.part(cg.grid_points(no, nv, case["deg"]), case["part"], case["of"])
        lpts = lam_points(no, nv)
        lams = [lams_from(p, no, nv) for p in lpts]
        for pt in pts:
            T1, T2 = tn.amps_from(pt, no, nv)
            cols = [U.project(sp.lambda_gen(T1, T2, *L)) for L in lams]
            ctx.state(len(lams))
            for k, lab in enumerate(U.labels):
                F, B = U.F[k], U.I[k]
                if case["grp"] == "fast":
                    intor = eq.lambda_int(F, B, T1, T2)
                    ctx.step()
                for q, L in enumerate(lams):
                    ref = ref_blocks(sp, cols[q][k])
                    if case["grp"] == "slow":
                        outs = [("ccsd_lambda_simple", eq.ccsd_lambda_simple(F, B, L[0], L[1], T1, T2))]
                    else:
                        outs = [("ccsd_lambda_opt", eq.ccsd_lambda_opt(F, B, L[0], L[1], T1, T2)),
                                ("ccsd_lambda_opt_int", eq.ccsd_lambda_opt_int(F, B, L[0], L[1], T1, T2, intor)),
                                ("ccsd_lambda_stanton", eq.ccsd_lambda_stanton(F, B, L[0], L[1], T1, T2))]
                    for nm, out in outs:
                        ctx.step()
                        compare(ctx, nm, out, ref, H=lab, T=str(pt), L=str(lpts[q]))
            for c in cols:
                ctx.outcome(c)
        ctx.sample(T=str(pts[-1]), L=str(lpts[-1]), H=str(U.labels[-1]))
        return
    if case["kind"] == "ccd":
        U = cg.Units(no, nv)
        z1, zl = numpy.zeros((nv, no)), numpy.zeros((no, nv))
        lpts = lam_points(no, nv, singles=False)
        for pt in cg.grid_points(no, nv, 2 if no*nv > 6 else 4, singles=False):
            T1, T2 = tn.amps_from(pt, no, nv)
            for lp in lpts:
                L2 = lams_from(lp, no, nv)[1]
                cols = U.project(sp.lambda_gen(z1, T2, zl, L2))
                ctx.state()
                ctx.outcome(cols)
                for k, lab in enumerate(U.labels):
                    out = eq.ccd_lambda_simple(U.F[k], U.I[k], L2, T2)
                    ctx.step()
                    ctx.same("ccd_lambda_simple", out, ref_blocks(sp, cols[k])[1], H=lab, T=str(pt), L=str(lp))
        return
    cplx = bool(case["cplx"])
    f, I = tn.dense_H(n, 0, cplx)
    T = tn.dense_T(no, nv, 1, cplx)
    L = tn.dense_L(no, nv, 2, cplx)
    names = ("T1", "T2", "L1", "L2")
    for keep in [names, ()] + [tuple(x for x in names if x != k) for k in names] + [("T1", "T2"), ("L1", "L2")]:
        t1, t2, l1, l2 = [x if k in keep else 0*x for k, x in zip(names, T + L)]
        G = sp.lambda_gen(t1, t2, l1, l2)
        masks = list(cg.zero_masks()) if keep == names else [("all", None)]
        for mname, kp in masks:
            ff, II = (f, I) if kp is None else cg.mask_H(f, I, no, kp)
            ref = ref_blocks(sp, fock.contract(G, ff, II))
            F, B = tn.oblocks(ff, no), tn.tblocks(II, no)
            ctx.state()
            ctx.outcome(*ref)
            for fn in FUNCS:
                ctx.step()
                compare(ctx, fn, call(eq, fn, F, B, l1, l2, t1, t2), ref, keep=str(keep), mask=mname)
            if keep == ("T2", "L2") or mname != "all":
                continue
    # doubles only
    G = sp.lambda_gen(0*T[0], T[1], 0*L[0], L[1])
    for mname, kp in cg.zero_masks():
        ff, II = cg.mask_H(f, I, no, kp)
        ctx.step()
        ctx.same("ccd_lambda_simple", eq.ccd_lambda_simple(tn.oblocks(ff, no), tn.tblocks(II, no), L[1], T[1]),
                 ref_blocks(sp, fock.contract(G, ff, II))[1], mask=mname)
    G = sp.lambda_gen(*T, *L)
    ref = ref_blocks(sp, fock.contract(G, f, I))
    from mc import ucc
    for lay in tn.LAYOUTS:
        F, B, l1, l2, t1, t2 = ucc.relayout([tn.oblocks(f, no), tn.tblocks(I, no), L[0], L[1], T[0], T[1]], lay)
        for fn in FUNCS:
            ctx.step()
            compare(ctx, fn, call(eq, fn, F, B, l1, l2, t1, t2), ref, layout=lay)


def call(eq, fn, F, B, l1, l2, t1, t2):
    if fn == "ccsd_lambda_opt_int":
        return eq.ccsd_lambda_opt_int(F, B, l1, l2, t1, t2, eq.lambda_int(F, B, t1, t2))
    return getattr(eq, fn)(F, B, l1, l2, t1, t2)


size.extend(__name__, ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton", "ccsd_lambda_opt_int", "ccd_lambda_simple"))
