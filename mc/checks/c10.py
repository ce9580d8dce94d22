"""C10: restricted CCSD residuals."""
import itertools

import numpy

from mc import fock
from mc import tensors as tn
from mc import ccgrid as cg
from mc import ucc
from mc import spin
from mc import size

BOUND = {
    "quick": "all unit spatial Hamiltonian elements (particle-exchange symmetry only) x complete degree-4 closed-shell amplitude grid on shapes 1x1, 1x2, 2x1; and 2x2, degree 2 on 1x3, 3x1; dense tensors on all shapes 0..2 x 0..3 with at most 8 spin orbitals, real and complex, 5 layouts",
    "thorough": "as quick with degree 4 on 1x3, 3x1 and dense tensors up to 10 spin orbitals"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "unit/lower-set enumeration decides polynomial identities of weighted degree <= 4 for the shape"]


def cases(tier):
    th = tier == "thorough"
    for no, nv, deg in [(1, 1, 4), (1, 2, 4), (2, 1, 4), (2, 2, 4), (1, 3, 4 if th else 2), (3, 1, 4 if th else 2)]:
        npts = len(list(tn.lower_set(ucc.rvars(no, nv), deg, tn.weight)))
        k = max(1, int(npts*(no + nv)**4*0.5*0.0015/3))
        k = min(k, npts)
        for c in range(k):
            yield {"kind": "grid", "no": no, "nv": nv, "deg": deg, "part": c, "of": k}
        yield {"kind": "tiny", "no": no, "nv": nv}
    for no, nv in dense_shapes(tier):
        for cplx in (0, 1):
            yield {"kind": "dense", "no": no, "nv": nv, "cplx": cplx}


def dense_shapes(tier):
    for no, nv in itertools.product(range(0, 4), repeat=2):
        if 0 < no + nv <= (5 if tier == "thorough" else 4):
            yield no, nv


def cost(c):
    return (c["no"] + c["nv"])**2


def blocks_of(sh, S, D):
    return sh.cut(S, 'vo', 'aa'), sh.cut(D, 'vvoo', 'abab')


def compare(ctx, out, ref, scale=None, rtol=1e-9, **d):
    if ctx.check(len(out) == 2, "rccsd_stanton result structure", **d):
        ctx.same("rccsd_stanton singles", out[0], ref[0], scale=scale, rtol=rtol, **d)
        ctx.same("rccsd_stanton doubles", out[1], ref[1], scale=scale, rtol=rtol, **d)


def run(case, ctx):
    from cqcpy import cc_equations as eq
    no, nv = case["no"], case["nv"]
    sh = spin.shape(no, nv, no, nv)
    sp = sh.space()
    fn = eq.rccsd_stanton
    if case["kind"] in ("grid", "tiny"):
        U = ucc.RUnits(no, nv)
        if case["kind"] == "grid":
            pts = cg.part(list(tn.lower_set(ucc.rvars(no, nv), case["deg"], tn.weight)), case["part"], case["of"])
            u = 1.0
        else:
            pts = [p for p in tn.lower_set(ucc.rvars(no, nv), 2, tn.weight) if sum(p.values()) == 1]
            u = 1e-7
        for pt in pts:
            T1, T2 = ucc.ramps(pt, no, nv, u)
            cols = U.project(sp.residual_gen(*ucc.embed_T(sh, T1, T2)))
            ctx.state()
            for k, lab in enumerate(U.labels):
                out = fn(*U.blocks[k], T1, T2)
                ctx.step()
                ref = blocks_of(sh, *sp.unpack(cols[k]))
                if u == 1.0:
                    compare(ctx, out, ref, H=str(lab), T=str(pt))
                else:
                    m = float(abs(cols[k]).max())
                    compare(ctx, out, ref, scale=m or 1e-3, rtol=1e-6, H=str(lab), T=str(pt), unit=u)
            ctx.outcome(cols)
        ctx.sample(T=str(pts[-1]), H=str(U.labels[-1]))
        return
    cplx = bool(case["cplx"])
    f, I = ucc.rdense(no, nv, 0, cplx)
    T1, T2 = ucc.rdense_T(no, nv, 2, cplx)
    for kt in itertools.product((1, 0), repeat=2):
        t1, t2 = kt[0]*T1, kt[1]*T2
        G = sp.residual_gen(*ucc.embed_T(sh, t1, t2))
        masks = [("all", None)]
        if kt == (1, 1):
            masks += [("only " + k, (k,)) for k in ("f.oo", "f.ov", "f.vo", "f.vv") + tuple("I." + x for x in tn.NAMES16)]
        for mname, keep in masks:
            ff, II = f, I
            if keep is not None:
                ff, II = mask(f, I, no, keep)
            ref = blocks_of(sh, *sp.unpack(fock.contract(G, *ucc.embed_H(sh, ff, II))))
            out = fn(tn.oblocks(ff, no), tn.tblocks(II, no, full=True), t1, t2)
            ctx.state()
            ctx.step()
            ctx.outcome(*ref)
            compare(ctx, out, ref, T=str(kt), mask=mname)
    G = sp.residual_gen(*ucc.embed_T(sh, T1, T2))
    ref = blocks_of(sh, *sp.unpack(fock.contract(G, *ucc.embed_H(sh, f, I))))
    for lay in tn.LAYOUTS:
        out = fn(*ucc.relayout([tn.oblocks(f, no), tn.tblocks(I, no, full=True), T1, T2], lay))
        ctx.step()
        compare(ctx, out, ref, layout=lay)


def mask(f, I, no, keep):
    """keep one block of f, or one block of I together with its exchange image"""
    n = f.shape[0]
    g = numpy.zeros_like(f)
    J = numpy.zeros_like(I)
    s = {'o': slice(0, no), 'v': slice(no, n)}
    for k in keep:
        if k[0] == 'f':
            sl = (s[k[2]], s[k[3]])
            g[sl] = f[sl]
        else:
            c = k[2:]
            for x in (c, c[1] + c[0] + c[3] + c[2]):
                sl = tuple(s[q] for q in x)
                J[sl] = I[sl]
    return g, J


size.extend(__name__, ("rccsd_stanton",))
