"""C08: CCD, linearized, ladder and ring variants."""
import numpy

from mc import fock
from mc import tensors as tn
from mc import ccgrid as cg
from mc import size

BOUND = {
    "quick": "all unit Hamiltonian elements x complete degree-2 (in doubles) / degree-1 (linearized) amplitude grids on shapes up to 2x3, 3x2; dense tensors on 13 shapes x {real,complex} x block masks x 5 layouts",
    "thorough": "as quick with shapes up to 3x3 and dense tensors on 23 shapes"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "ring variant: residual B + AT + TA + TBT in particle-hole pair-matrix form for pair-symmetric T2"]

FUNCS = ("ccd_simple", "ccd_stanton", "lccd_simple", "lccsd_simple", "ccd_ladder_simple", "ccd_ring_simple")


def cases(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)]
    if tier == "thorough":
        shapes += [(3, 3), (2, 4), (4, 2)]
    for fn in FUNCS:
        for no, nv in shapes:
            k = 3 if no*nv >= 6 else 1
            if no*nv > 6:
                k = 8
            for c in range(k):
                yield {"kind": "grid", "fn": fn, "no": no, "nv": nv, "part": c, "of": k}
    for no, nv in (cg.DENSE_SHAPES_T if tier == "thorough" else cg.DENSE_SHAPES_Q):
        for cplx in (0, 1):
            yield {"kind": "dense", "no": no, "nv": nv, "cplx": cplx}


def cost(c):
    return c["no"]*c["nv"]


def lin_gen(sp, T1, T2):
    """<mu| H + [H,T] |0>"""
    T = sp.Tmat(T1, T2)
    z = sp.v0
    bras = numpy.array([m.dot(z) for _, m in sp.mu]) if sp.mu else numpy.zeros((0, sp.dim))
    a = sp.expect(bras, z + T.dot(z))
    b = sp.expect(bras.dot(T), z)
    return a[0] - b[0], a[1] - b[1]


def ladder(I, no, T2):
    o, v = slice(0, no), slice(no, None)
    e = numpy.einsum
    R = I[v, v, o, o] + 0.5*e('abcd,cdij->abij', I[v, v, v, v], T2) + 0.5*e('klij,abkl->abij', I[o, o, o, o], T2)
    return R + 0.25*e('klcd,cdij,abkl->abij', I[o, o, v, v], T2, T2)


def ring(I, no, T2):
    """pair-matrix form: index pairs (a,i) and (b,j)"""
    nv = I.shape[0] - no
    o, v = slice(0, no), slice(no, None)
    M = nv*no
    T = T2.transpose(0, 2, 1, 3).reshape(M, M)                        # [ai, bj]
    A = I[o, v, v, o].transpose(2, 0, 1, 3).reshape(M, M)             # <kb||cj> -> [ck, bj]
    B = I[o, o, v, v].transpose(2, 0, 3, 1).reshape(M, M)             # <kl||cd> -> [ck, dl]
    R = T.dot(A) + A.T.dot(T) + T.dot(B).dot(T)
    return I[v, v, o, o] + R.reshape(nv, no, nv, no).transpose(0, 2, 1, 3)


def model(sp, fn, no, nv, f, I, T1, T2, cache):
    z = numpy.zeros_like(T1)
    if fn in ("ccd_simple", "ccd_stanton"):
        if "ccd" not in cache:
            cache["ccd"] = sp.residual_gen(z, T2)
        return (sp.unpack(fock.contract(cache["ccd"], f, I))[1],)
    if fn == "lccd_simple":
        if "lccd" not in cache:
            cache["lccd"] = lin_gen(sp, z, T2)
        return (sp.unpack(fock.contract(cache["lccd"], f, I))[1],)
    if fn == "lccsd_simple":
        if "lccsd" not in cache:
            cache["lccsd"] = lin_gen(sp, T1, T2)
        return sp.unpack(fock.contract(cache["lccsd"], f, I))
    if fn == "ccd_ladder_simple":
        return (ladder(I, no, T2),)
    return (ring(I, no, T2),)


def call(eq, fn, F, B, T1, T2):
    g = getattr(eq, fn)
    if fn == "lccsd_simple":
        return g(F, B, T1, T2)
    if fn in ("ccd_ladder_simple", "ccd_ring_simple"):
        return (g(B, T2),)
    return (g(F, B, T2),)


def compare(ctx, fn, out, ref, **d):
    ctx.check(len(out) == len(ref), fn + " number of results", **d)
    for k, (a, b) in enumerate(zip(out, ref)):
        ctx.same(fn + (" singles" if len(ref) == 2 and k == 0 else " doubles"), a, b, **d)


def pairsym_vars(no, nv):
    return sorted(set(min((a, b, i, j), (b, a, j, i)) for a in range(nv) for b in range(nv)
                      for i in range(no) for j in range(no)))


def run(case, ctx):
    from cqcpy import cc_equations as eq
    no, nv = case["no"], case["nv"]
    n = no + nv
    sp = fock.space(no, nv)
    if case["kind"] == "grid":
        fn = case["fn"]
        U = cg.Units(no, nv)
        if fn == "lccsd_simple":
            pts = [tn.amps_from(p, no, nv) for p in cg.grid_points(no, nv, 2) if sum(p.values()) <= 1]
        elif fn == "lccd_simple":
            pts = [tn.amps_from(p, no, nv) for p in cg.grid_points(no, nv, 2, singles=False)]
        elif fn == "ccd_ring_simple":
            pts = []
            for p in tn.lower_set(pairsym_vars(no, nv), 2 if no*nv < 6 else 1, lambda v: 1):
                T2 = numpy.zeros((nv, nv, no, no))
                for (a, b, i, j), m in p.items():
                    T2[a, b, i, j] = T2[b, a, j, i] = m
                pts.append((numpy.zeros((nv, no)), T2))
        else:
            pts = [tn.amps_from(p, no, nv) for p in cg.grid_points(no, nv, 4, singles=False)]
        for T1, T2 in cg.part(pts, case["part"], case["of"]):
            ctx.state()
            cache = {}
            for k, lab in enumerate(U.labels):
                f, I = tn.make_unit_H(n, lab)
                ref = model(sp, fn, no, nv, f, I, T1, T2, cache)
                out = call(eq, fn, U.F[k], U.I[k], T1, T2)
                ctx.step()
                compare(ctx, fn, out, ref, H=lab, T1=T1, T2nz=str([(tuple(int(q) for q in x), float(T2[tuple(x)])) for x in numpy.argwhere(T2)][:4]))
                ctx.outcome(*ref)
        return
    cplx = bool(case["cplx"])
    f, I = tn.dense_H(n, 0, cplx)
    for scale in (1.0, 1e-6):
        T1, T2 = tn.dense_T(no, nv, 1, cplx)
        T1 = T1*scale
        T2 = T2*scale
        cache = {}
        for mname, keep in cg.zero_masks():
            ff, II = cg.mask_H(f, I, no, keep)
            F, B = tn.oblocks(ff, no), tn.tblocks(II, no)
            ctx.state()
            for fn in FUNCS:
                ref = model(sp, fn, no, nv, ff, II, T1, T2, cache)
                out = call(eq, fn, F, B, T1, T2)
                ctx.step()
                compare(ctx, fn, out, ref, mask=mname, scale=None)
                ctx.outcome(*ref)
        if scale == 1.0:
            for lay in tn.LAYOUTS:
                F, B = (tn.rebuild(o, lambda x: tn.layout(x, lay)) for o in (tn.oblocks(f, no), tn.tblocks(I, no)))
                ctx.state()
                for fn in FUNCS:
                    ref = model(sp, fn, no, nv, f, I, T1, T2, cache)
                    out = call(eq, fn, F, B, tn.layout(T1, lay), tn.layout(T2, lay))
                    ctx.step()
                    compare(ctx, fn, out, ref, layout=lay)
    # ring amplitudes need only pair symmetry
    T2 = tn.weyl((nv, nv, no, no), 9, cplx)
    T2 = T2 + T2.transpose(1, 0, 3, 2)
    out = eq.ccd_ring_simple(tn.tblocks(I, no), T2)
    ctx.step()
    ctx.same("ccd_ring_simple pair-symmetric amplitudes", out, ring(I, no, T2))


size.extend(__name__, ("lccsd_simple", "lccd_simple", "ccd_simple", "ccd_stanton", "ccd_ladder_simple", "ccd_ring_simple"))
