"""C12: unrestricted and restricted Lambda residuals."""
import itertools

import numpy

from mc import fock
from mc import spin
from mc import tensors as tn
from mc import ccgrid as cg
from mc import ucc
from mc import size
from mc.checks import c09

BOUND = {
    "quick": "unrestricted: all unit spin-blocked Hamiltonian elements x {L=0, every unit L} x complete degree-3 amplitude grid on 1111, 2111, 1211, 1121, 1112, degree 2 on 2112, 1221; dense tensors on all 81 alpha/beta shapes 0..2, real and complex, 5 layouts; restricted: all unit spatial elements x {0, unit L} x degree-3 grid on 1x1, 1x2, 2x1, dense shapes with at most 8 spin orbitals",
    "thorough": "as quick, with unrestricted degree 3 on 2112, 1221, degree 2 on 2211, 1122; restricted degree 2 on 2x2; dense shapes up to 10 spin orbitals"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative"]


def cases(tier):
    th = tier == "thorough"
    plan = [("1111", 3)] + [(s, 3) for s in ("2111", "1211", "1121", "1112")]
    plan += [(s, 3 if th else 2) for s in ("2112", "1221")]
    if th:
        plan += [("2211", 2), ("1122", 2)]
    for s, deg in plan:
        sh = spin.shape(*[int(c) for c in s])
        npts = len(list(tn.lower_set(sh.amp_vars(), deg, spin.weight)))
        nun = len(list(sh.unit_H_labels()))
        nl = 1 + len(sh.amp_vars())
        k = min(npts, max(1, int(npts*nun*nl*0.004/4)))
        for c in range(k):
            yield {"kind": "ugrid", "shape": s, "deg": deg, "part": c, "of": k}
    for no, nv, deg in [(1, 1, 3), (1, 2, 3), (2, 1, 3)] + ([(2, 2, 2)] if th else []):
        npts = len(list(tn.lower_set(ucc.rvars(no, nv), deg, tn.weight)))
        k = min(npts, 4)
        for c in range(k):
            yield {"kind": "rgrid", "shape": "%d%d" % (no, nv), "deg": deg, "part": c, "of": k}
    for key in c09.dense_shapes(tier):
        for cplx in (0, 1):
            yield {"kind": "udense", "shape": "".join(map(str, key)), "cplx": cplx}
    for no, nv in itertools.product(range(0, 4), repeat=2):
        if 0 < no + nv <= (5 if th else 4):
            for cplx in (0, 1):
                yield {"kind": "rdense", "shape": "%d%d" % (no, nv), "cplx": cplx}


def cost(c):
    k = sum(int(x) for x in c["shape"])
    return k if c["kind"][0] == "u" else 2*k


def run(case, ctx):
    from cqcpy import cc_equations as eq
    key = [int(c) for c in case["shape"]]
    if case["kind"][0] == "u":
        sh = spin.shape(*key)
    else:
        sh = spin.shape(key[0], key[1], key[0], key[1])
    sp = sh.space()
    {"ugrid": ugrid, "udense": udense, "rgrid": rgrid, "rdense": rdense}[case["kind"]](case, ctx, eq, sh, sp)


def ugrid(case, ctx, eq, sh, sp):
    U = ucc.UUnits(sh)
    pts = cg.part(list(tn.lower_set(sh.amp_vars(), case["deg"], spin.weight)), case["part"], case["of"])
    lpts = [{}] + [{v: 1} for v in sh.amp_vars()]
    for pt in pts:
        T1, T2 = sh.amps_from(pt)
        for lp in lpts:
            L1, L2 = sh.lams_from(lp)
            cols = U.project(sp.lambda_gen(*sh.sT(T1, T2), *sh.sL(L1, L2)))
            ctx.state()
            ctx.outcome(cols)
            for k, lab in enumerate(U.labels):
                out = eq.uccsd_lambda_opt(*U.blocks[k], L1, L2, T1, T2)
                ctx.step()
                ucc.compare(ctx, "uccsd_lambda_opt", out, ucc.ulblocks_of(sh, *sp.unpack(cols[k])), H=str(lab), T=str(pt), L=str(lp))
    ctx.sample(T=str(pts[-1]), L=str(lpts[-1]), H=str(U.labels[-1]))


def udense(case, ctx, eq, sh, sp):
    cplx = bool(case["cplx"])
    H = sh.dense_H(0, cplx)
    T = sh.dense_T(3, cplx)
    L = sh.dense_L(7, cplx)
    names = ("T1a", "T1b", "T2aa", "T2ab", "T2bb", "L1a", "L1b", "L2aa", "L2ab", "L2bb")
    vals = T[0] + T[1] + L[0] + L[1]
    for keep in [names] + [tuple(x for x in names if x != k) for k in names] + [names[:5], names[5:]]:
        v = [x if k in keep else 0*x for k, x in zip(names, vals)]
        t1, t2, l1, l2 = tuple(v[0:2]), tuple(v[2:5]), tuple(v[5:7]), tuple(v[7:10])
        G = sp.lambda_gen(*sh.sT(t1, t2), *sh.sL(l1, l2))
        hn = ("fa", "fb", "Ia", "Ib", "Iab")
        hsub = [hn] if keep != names else [hn] + [(k,) for k in hn] + [tuple(x for x in hn if x != k) for k in hn]
        for hk in hsub:
            h = [x if k in hk else 0*x for k, x in zip(hn, H)]
            ref = ucc.ulblocks_of(sh, *sp.unpack(fock.contract(G, sh.F(*h[:2]), sh.I(*h[2:]))))
            out = eq.uccsd_lambda_opt(*spin.ublocks(sh, *h), l1, l2, t1, t2)
            ctx.state()
            ctx.step()
            ctx.outcome(*ref)
            ucc.compare(ctx, "uccsd_lambda_opt", out, ref, keep=str(keep), H=str(hk))
            if keep == names and hk == hn:
                full = ref
    for lay in tn.LAYOUTS:
        args = ucc.relayout(list(spin.ublocks(sh, *H)) + [L[0], L[1], T[0], T[1]], lay)
        ctx.step()
        ucc.compare(ctx, "uccsd_lambda_opt", eq.uccsd_lambda_opt(*args), full, layout=lay)


def rblocks(sh, S, D):
    return sh.cut(S.T, 'ov', 'aa'), sh.cut(D.transpose(2, 3, 0, 1), 'oovv', 'abab')


def rcompare(ctx, out, ref, **d):
    if ctx.check(len(out) == 2, "rccsd_lambda_opt result structure", **d):
        ctx.same("rccsd_lambda_opt singles", out[0], ref[0], **d)
        ctx.same("rccsd_lambda_opt doubles", out[1], ref[1], **d)


def rlams(pt, no, nv):
    a, b = ucc.ramps(pt, no, nv)
    return a.T.copy(), numpy.ascontiguousarray(b.transpose(2, 3, 0, 1))


def rgrid(case, ctx, eq, sh, sp):
    no, nv = sh.noa, sh.nva
    U = ucc.RUnits(no, nv)
    pts = cg.part(list(tn.lower_set(ucc.rvars(no, nv), case["deg"], tn.weight)), case["part"], case["of"])
    lpts = [{}] + [{v: 1} for v in ucc.rvars(no, nv)]
    for pt in pts:
        T1, T2 = ucc.ramps(pt, no, nv)
        for lp in lpts:
            L1, L2 = rlams(lp, no, nv)
            cols = U.project(sp.lambda_gen(*ucc.embed_T(sh, T1, T2), *ucc.embed_L(sh, L1, L2)))
            ctx.state()
            ctx.outcome(cols)
            for k, lab in enumerate(U.labels):
                out = eq.rccsd_lambda_opt(*U.blocks[k], L1, L2, T1, T2)
                ctx.step()
                rcompare(ctx, out, rblocks(sh, *sp.unpack(cols[k])), H=str(lab), T=str(pt), L=str(lp))


def rdense(case, ctx, eq, sh, sp):
    no, nv = sh.noa, sh.nva
    cplx = bool(case["cplx"])
    f, I = ucc.rdense(no, nv, 0, cplx)
    T1, T2 = ucc.rdense_T(no, nv, 2, cplx)
    L1, L2 = ucc.rdense_L(no, nv, 4, cplx)
    from mc.checks.c10 import mask
    for kt in [(1, 1, 1, 1), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 0, 1), (1, 1, 1, 0), (0, 0, 1, 1), (1, 1, 0, 0)]:
        t1, t2, l1, l2 = kt[0]*T1, kt[1]*T2, kt[2]*L1, kt[3]*L2
        G = sp.lambda_gen(*ucc.embed_T(sh, t1, t2), *ucc.embed_L(sh, l1, l2))
        masks = [("all", None)]
        if kt == (1, 1, 1, 1):
            masks += [("only " + k, (k,)) for k in ("f.oo", "f.ov", "f.vo", "f.vv") + tuple("I." + x for x in tn.NAMES16)]
        for mname, keep in masks:
            ff, II = (f, I) if keep is None else mask(f, I, no, keep)
            ref = rblocks(sh, *sp.unpack(fock.contract(G, *ucc.embed_H(sh, ff, II))))
            out = eq.rccsd_lambda_opt(tn.oblocks(ff, no), tn.tblocks(II, no, full=True), l1, l2, t1, t2)
            ctx.state()
            ctx.step()
            ctx.outcome(*ref)
            rcompare(ctx, out, ref, keep=str(kt), mask=mname)
            if kt == (1, 1, 1, 1) and keep is None:
                full = ref
    for lay in tn.LAYOUTS:
        args = ucc.relayout([tn.oblocks(f, no), tn.tblocks(I, no, full=True), L1, L2, T1, T2], lay)
        ctx.step()
        rcompare(ctx, eq.rccsd_lambda_opt(*args), full, layout=lay)


size.extend(__name__, ("uccsd_lambda_opt", "rccsd_lambda_opt"))
