"""C09: unrestricted CCSD residuals."""
import itertools

import numpy

from mc import fock
from mc import spin
from mc import tensors as tn
from mc import ccgrid as cg
from mc import ucc
from mc import size

BOUND = {
    "quick": "all unit spin-blocked Hamiltonian elements x complete degree-4 amplitude grid on alpha/beta shapes 1111, 2111, 1211, 1121, 1112, 2112, 1221; degree 2 on 2211, 1122, 2222; dense tensors on all 81 shapes with occ/vir counts 0..2, real and complex, 5 layouts, spin exchange",
    "thorough": "as quick with degree 4 on 2211, 1122, 2121, 1212, 2222 and dense tensors on further shapes with counts up to 3 (at most 10 spin orbitals)"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "unit/lower-set enumeration decides polynomial identities of weighted degree <= 4 for the shape"]


def cases(tier):
    full = ["1111", "2111", "1211", "1121", "1112", "2112", "1221"]
    grid = [(s, 4) for s in full]
    two = ["2211", "1122", "2121", "1212", "2222"]
    grid += [(s, 4 if tier == "thorough" else 2) for s in two]
    for s, deg in grid:
        sh = spin.shape(*[int(c) for c in s])
        npts = len(list(tn.lower_set(sh.amp_vars(), deg, spin.weight)))
        nun = len(list(sh.unit_H_labels()))
        k = min(npts, max(1, int(npts*nun*0.002/3.0)))
        for c in range(k):
            yield {"kind": "grid", "shape": s, "deg": deg, "part": c, "of": k}
        yield {"kind": "tiny", "shape": s}
    for key in dense_shapes(tier):
        for cplx in (0, 1):
            yield {"kind": "dense", "shape": "".join(map(str, key)), "cplx": cplx}


def dense_shapes(tier):
    for key in itertools.product((0, 1, 2), repeat=4):
        yield key
    if tier == "thorough":
        for key in itertools.product((0, 1, 2, 3), repeat=4):
            if 3 in key and sum(key) <= 10:
                yield key


def cost(c):
    return sum(int(x) for x in c["shape"])


def run(case, ctx):
    from cqcpy import cc_equations as eq
    sh = spin.shape(*[int(c) for c in case["shape"]])
    sp = sh.space()
    fn = eq.uccsd_stanton
    if case["kind"] in ("grid", "tiny"):
        U = ucc.UUnits(sh)
        if case["kind"] == "grid":
            pts = cg.part(list(tn.lower_set(sh.amp_vars(), case["deg"], spin.weight)), case["part"], case["of"])
            units = [1]
        else:
            pts = [p for p in tn.lower_set(sh.amp_vars(), 2, spin.weight) if len(p) == 1 and sum(p.values()) == 1]
            units = [1e-7]
        for pt, u in itertools.product(pts, units):
            T1, T2 = sh.amps_from({k: v*u for k, v in pt.items()})
            cols = U.project(sp.residual_gen(*sh.sT(T1, T2)))
            ctx.state()
            for k, lab in enumerate(U.labels):
                out = fn(*U.blocks[k], T1, T2)
                ctx.step()
                ref = ucc.ublocks_of(sh, *sp.unpack(cols[k]))
                if u == 1:
                    ucc.compare(ctx, "uccsd_stanton", out, ref, H=str(lab), T=str(pt))
                else:
                    m = float(abs(cols[k]).max())
                    ucc.compare(ctx, "uccsd_stanton", out, ref, scale=m or 1e-3, rtol=1e-6, H=str(lab), T=str(pt), unit=u)
            ctx.outcome(cols)
        ctx.sample(T=str(pts[-1]), H=str(U.labels[-1]))
        return
    cplx = bool(case["cplx"])
    H = sh.dense_H(0, cplx)
    T1, T2 = sh.dense_T(3, cplx)
    names = ("T1a", "T1b", "T2aa", "T2ab", "T2bb")
    subsets = [names, ()] + [(k,) for k in names] + [tuple(x for x in names if x != k) for k in names]
    for keep in subsets:
        t = dict(zip(names, T1 + T2))
        t = {k: (x if k in keep else 0*x) for k, x in t.items()}
        t1, t2 = (t["T1a"], t["T1b"]), (t["T2aa"], t["T2ab"], t["T2bb"])
        G = sp.residual_gen(*sh.sT(t1, t2))
        hn = ("fa", "fb", "Ia", "Ib", "Iab")
        hsub = [hn] if keep != names else [hn, ()] + [(k,) for k in hn] + [tuple(x for x in hn if x != k) for k in hn]
        for hk in hsub:
            h = [x if k in hk else 0*x for k, x in zip(hn, H)]
            ref = ucc.ublocks_of(sh, *sp.unpack(fock.contract(G, sh.F(*h[:2]), sh.I(*h[2:]))))
            out = fn(*spin.ublocks(sh, *h), t1, t2)
            ctx.state()
            ctx.step()
            ctx.outcome(*ref)
            ucc.compare(ctx, "uccsd_stanton", out, ref, T=str(keep), H=str(hk))
    G = sp.residual_gen(*sh.sT(T1, T2))
    ref = ucc.ublocks_of(sh, *sp.unpack(fock.contract(G, sh.F(*H[:2]), sh.I(*H[2:]))))
    for lay in tn.LAYOUTS:
        args = ucc.relayout(list(spin.ublocks(sh, *H)) + [T1, T2], lay)
        out = fn(*args)
        ctx.step()
        ucc.compare(ctx, "uccsd_stanton", out, ref, layout=lay)
    # exchanging the roles of alpha and beta
    sx = spin.shape(sh.nob, sh.nvb, sh.noa, sh.nva)
    hx = (H[1], H[0], H[3], H[2], H[4].transpose(1, 0, 3, 2).copy())
    tx1, tx2 = (T1[1], T1[0]), (T2[2], T2[1].transpose(1, 0, 3, 2).copy(), T2[0])
    out = fn(*spin.ublocks(sx, *hx), tx1, tx2)
    ctx.step()
    refx = ((ref[0][1], ref[0][0]), (ref[1][2], ref[1][1].transpose(1, 0, 3, 2), ref[1][0]))
    ucc.compare(ctx, "uccsd_stanton", out, refx, spins="exchanged")


size.extend(__name__, ("uccsd_stanton",))
