"""C15: unrestricted and restricted density matrices."""
import itertools

import numpy

from mc import spin
from mc import tensors as tn
from mc import ccgrid as cg
from mc import ucc
from mc import size
from mc.checks import c09

BOUND = {
    "quick": "unrestricted: {L=0, every unit L} x complete degree-4 amplitude grid on 1111, 2111, 1211, 1121, 1112, degree 3 on 2112, 1221, degree 2 on 2211, 1122, 2222; dense tensors on all 81 alpha/beta shapes 0..2, real and complex, zeroed arguments, 5 layouts; restricted: degree-4 grid on 1x1, 1x2, 2x1, degree 2 on 2x2, dense shapes with at most 8 spin orbitals",
    "thorough": "as quick with degree 4 on 2112, 1221, degree 3 on 2211, 1122 and 2x2 restricted, dense shapes up to 10 spin orbitals"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative"]

# returned tuples in order; lower case alpha, upper case beta
U1 = {"ba": ("ba", "BA"), "ji": ("ji", "JI"), "ai": ("ai", "AI")}
U2 = {"ciab": ("ciab", "CIAB", "cIaB", "CiAb"),
      "jkai": ("jkai", "JKAI", "jKaI", "JkAi"),
      "cdab": ("cdab", "CDAB", "cDaB"),
      "bjai": ("bjai", "BJAI", "bJaI", "bJAi", "BjaI", "BjAi"),
      "klij": ("klij", "KLIJ", "kLiJ"),
      "bcai": ("bcai", "BCAI", "bCaI", "BcAi"),
      "kaij": ("kaij", "KAIJ", "kAiJ", "KaIj"),
      "abij": ("abij", "ABIJ", "aBiJ")}
R1 = {"ba": "ba", "ji": "ji", "ai": "ai"}
R2 = {"ciab": "cIaB", "jkai": "jKaI", "cdab": "cDaB", "bjai": "bJaI", "bjia": "bJiA",
      "klij": "kLiJ", "bcai": "bCaI", "kaij": "kAiJ", "abij": "aBiJ"}


def cases(tier):
    th = tier == "thorough"
    plan = [(s, 4) for s in ("1111", "2111", "1211", "1121", "1112")]
    plan += [(s, 4 if th else 3) for s in ("2112", "1221")]
    plan += [(s, 3 if th else 2) for s in ("2211", "1122")] + [("2222", 2 if th else 1)]
    for s, deg in plan:
        sh = spin.shape(*[int(c) for c in s])
        npts = len(list(tn.lower_set(sh.amp_vars(), deg, spin.weight)))
        nl = 1 + len(sh.amp_vars())
        k = min(npts, max(1, int(npts*nl*0.02/4)))
        for c in range(k):
            yield {"kind": "ugrid", "shape": s, "deg": deg, "part": c, "of": k}
    for no, nv, deg in [(1, 1, 4), (1, 2, 4), (2, 1, 4), (2, 2, 3 if th else 2)]:
        npts = len(list(tn.lower_set(ucc.rvars(no, nv), deg, tn.weight)))
        nl = 1 + len(ucc.rvars(no, nv))
        k = min(npts, max(1, int(npts*nl*0.008/4)))
        for c in range(k):
            yield {"kind": "rgrid", "shape": "%d%d" % (no, nv), "deg": deg, "part": c, "of": k}
    for key in c09.dense_shapes(tier):
        for cplx in (0, 1):
            yield {"kind": "udense", "shape": "".join(map(str, key)), "cplx": cplx}
    for no, nv in itertools.product(range(0, 4), repeat=2):
        if 0 < no + nv <= (5 if th else 4):
            for cplx in (0, 1):
                yield {"kind": "rdense", "shape": "%d%d" % (no, nv), "cplx": cplx}


def cost(c):
    return sum(int(x) for x in c["shape"])*(1 if c["kind"][0] == "u" else 2)


def cut(sh, D, name):
    P = D.T if D.ndim == 2 else D.transpose(2, 3, 0, 1)
    cl = "".join('v' if x in 'abcdABCD' else 'o' for x in name)
    sp = "".join('a' if x.islower() else 'b' for x in name)
    return sh.cut_full(P, cl, sp)


def upoint(ctx, eq, sh, sp, T1, T2, L1, L2, tfacs=(1.0,), **d):
    args = tuple(T1) + tuple(T2) + tuple(L1) + tuple(L2)
    for w in tfacs:
        D1, D2 = sp.density(*sh.sT(T1, T2), *sh.sL(L1, L2), one=w)
        for tab, D, pre in ((U1, D1, "uccsd_1rdm_"), (U2, D2, "uccsd_2rdm_")):
            for nm, parts in tab.items():
                if w != 1.0:
                    if nm != "ai":
                        continue
                    out = getattr(eq, pre + nm)(*args, tfac=w)
                else:
                    out = getattr(eq, pre + nm)(*args)
                ctx.step()
                if ctx.check(len(out) == len(parts), pre + nm + " number of blocks", **d):
                    for x, p in zip(out, parts):
                        ctx.same(pre + nm + " block " + p, x, cut(sh, D, p), tfac=w, **d)
        ctx.outcome(D1, D2)


def rpoint(ctx, eq, sh, sp, T1, T2, L1, L2, tfacs=(1.0,), **d):
    for w in tfacs:
        D1, D2 = sp.density(*ucc.embed_T(sh, T1, T2), *ucc.embed_L(sh, L1, L2), one=w)
        for tab, D, pre in ((R1, D1, "rccsd_1rdm_"), (R2, D2, "rccsd_2rdm_")):
            for nm, p in tab.items():
                if w != 1.0:
                    if D.ndim != 2:
                        continue
                    out = getattr(eq, pre + nm)(T1, T2, L1, L2, tfac=w)
                else:
                    out = getattr(eq, pre + nm)(T1, T2, L1, L2)
                ctx.step()
                ctx.same(pre + nm, out, cut(sh, D, p), tfac=w, **d)
        ctx.outcome(D1, D2)


def run(case, ctx):
    from cqcpy import cc_equations as eq
    from mc.checks.c12 import rlams
    key = [int(c) for c in case["shape"]]
    kind = case["kind"]
    if kind[0] == "u":
        sh = spin.shape(*key)
    else:
        no, nv = key
        sh = spin.shape(no, nv, no, nv)
    sp = sh.space()
    if kind == "ugrid":
        pts = cg.part(list(tn.lower_set(sh.amp_vars(), case["deg"], spin.weight)), case["part"], case["of"])
        lpts = [{}] + [{v: 1} for v in sh.amp_vars()]
        for pt in pts:
            for lp in lpts:
                ctx.state()
                upoint(ctx, eq, sh, sp, *sh.amps_from(pt), *sh.lams_from(lp), tfacs=(1.0, -0.5), T=str(pt), L=str(lp))
        ctx.sample(T=str(pts[-1]), L=str(lpts[-1]))
    elif kind == "rgrid":
        pts = cg.part(list(tn.lower_set(ucc.rvars(no, nv), case["deg"], tn.weight)), case["part"], case["of"])
        lpts = [{}] + [{v: 1} for v in ucc.rvars(no, nv)]
        for pt in pts:
            for lp in lpts:
                ctx.state()
                rpoint(ctx, eq, sh, sp, *ucc.ramps(pt, no, nv), *rlams(lp, no, nv), tfacs=(1.0, -0.5), T=str(pt), L=str(lp))
    elif kind == "udense":
        cplx = bool(case["cplx"])
        T, L = sh.dense_T(3, cplx), sh.dense_L(7, cplx)
        vals = T[0] + T[1] + L[0] + L[1]
        for drop in [()] + [(k,) for k in range(10)] + [tuple(range(5)), tuple(range(5, 10)), tuple(range(10))]:
            v = [0*x if k in drop else x for k, x in enumerate(vals)]
            ctx.state()
            upoint(ctx, eq, sh, sp, v[0:2], v[2:5], v[5:7], v[7:10], tfacs=(1.0, 0.5) if not drop else (1.0,), zeroed=str(drop))
        for lay in tn.LAYOUTS:
            t1, t2, l1, l2 = ucc.relayout([T[0], T[1], L[0], L[1]], lay)
            upoint(ctx, eq, sh, sp, t1, t2, l1, l2, layout=lay)
    else:
        cplx = bool(case["cplx"])
        vals = ucc.rdense_T(no, nv, 2, cplx) + ucc.rdense_L(no, nv, 4, cplx)
        for m in range(16):
            v = [x if m >> k & 1 else 0*x for k, x in enumerate(vals)]
            ctx.state()
            rpoint(ctx, eq, sh, sp, *v, tfacs=(1.0, 0.5), nonzero=bin(m))
        for lay in tn.LAYOUTS:
            rpoint(ctx, eq, sh, sp, *ucc.relayout(list(vals), lay), layout=lay)


size.extend(__name__, [e.name for e in size.rg.ENTRIES if e.name.startswith(("uccsd_1rdm", "uccsd_2rdm", "rccsd_1rdm", "rccsd_2rdm"))])
