"""C05: CI coefficients of exp(T) from cluster amplitudes."""
import itertools

import numpy

from mc import ci
from mc import spin
from mc import tensors as tn

BOUND = {
    "quick": "orders 1-4 (and rejected orders); spin-orbital: complete grid of weighted degree = order on 1x1, 2x2, 1x3, 3x1, 2x4, 4x2, degree 3 on 3x3, dense amplitudes with every zero pattern up to 4x4 and 5x3; spin-resolved: complete grids on all alpha/beta occupations of 1 and 2 orbitals (degree 4; 2222 up to degree 4 on order 4), dense amplitudes with all 32 zero patterns for all occupations of up to 4 orbitals; real, complex and small-scaled amplitudes; dense amplitudes on spaces of up to 16 (order 2), 34 (order 1) and 10 (order 3) orbitals",
    "thorough": "as quick with 5-orbital shapes, and all pairs of doubles for 4x4"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative"]


def cases(tier):
    th = tier == "thorough"
    for no, nv, order in [(1, 1, 4), (2, 2, 4), (1, 3, 4), (3, 1, 4), (2, 4, 2), (4, 2, 2), (3, 3, 3)]:
        pts = len(list(tn.lower_set(tn.amp_vars(no, nv), order, tn.weight)))
        k = max(1, pts//60)
        for p in range(k):
            yield {"kind": "ggrid", "no": no, "nv": nv, "order": order, "part": p, "of": k}
    for no in range(0, 6):
        for nv in range(0, 6):
            if (no + nv) % 2 == 0 and 0 < no + nv <= 8:
                for cplx in (0, 1):
                    yield {"kind": "gdense", "no": no, "nv": nv, "cplx": cplx}
    if th:
        for p in range(64):
            yield {"kind": "gpairs", "no": 4, "nv": 4, "part": p, "of": 64}
    for n in (1, 2):
        for noa, nob in itertools.product(range(n + 1), repeat=2):
            sh = spin.shape(noa, n - noa, nob, n - nob)
            pts = len(list(tn.lower_set(sh.amp_vars(), 4, spin.weight)))
            k = max(1, pts//60)
            for p in range(k):
                yield {"kind": "ugrid", "shape": list(sh.key), "part": p, "of": k}
    for n in range(1, 6 if th else 5):
        for noa, nob in itertools.product(range(n + 1), repeat=2):
            for cplx in (0, 1):
                yield {"kind": "udense", "shape": [noa, n - noa, nob, n - nob], "cplx": cplx,
                       "masks": 32 if n <= 4 else 8}
    # high single-spin ranks
    for s in [(4, 4, 0, 8), (0, 8, 4, 4), (3, 3, 1, 5), (1, 5, 3, 3)]:
        yield {"kind": "udense", "shape": list(s), "cplx": 1, "masks": 8}
    yield {"kind": "orders"}
    for no, nv, o in ((4, 8, 2), (8, 4, 2), (2, 14, 2), (14, 2, 2), (1, 33, 1), (33, 1, 1), (3, 7, 3), (7, 3, 3)) + (
            ((6, 10, 2), (10, 6, 2), (4, 6, 4), (6, 4, 4), (5, 5, 4)) if th else ()):
        yield {"kind": "gwide", "no": no, "nv": nv, "order": o}
    for s, o in (((3, 6, 2, 7), 2), ((6, 3, 7, 2), 2), ((1, 12, 2, 11), 2), ((2, 3, 1, 4), 3), ((3, 2, 4, 1), 3)) + (
            (((2, 4, 3, 3), 4), ((4, 2, 2, 4), 4)) if th else ()):
        yield {"kind": "uwide", "shape": list(s), "order": o}


def cost(c):
    if c["kind"] in ("udense", "ugrid"):
        return numpy.prod([x + 1 for x in c["shape"]])/10.
    return (c.get("no", 0)*c.get("nv", 0))**2


def expT(n, occ, T1, T2, order):
    """{mask: coefficient} of exp(T)|ref> up to excitation rank `order`"""
    vir = [p for p in range(n) if p not in set(occ)]
    ref = sum(1 << p for p in occ)
    ops = []
    for a, A in enumerate(vir):
        for i, Io in enumerate(occ):
            if T1[a, i] != 0:
                ops.append((T1[a, i], 1, [(Io, A)]))
    for (a, A), (b, B) in itertools.combinations(list(enumerate(vir)), 2):
        for (i, Io), (j, J) in itertools.combinations(list(enumerate(occ)), 2):
            if T2[a, b, i, j] != 0:
                # a+ b+ j i = (a+ i)(b+ j)
                ops.append((T2[a, b, i, j], 2, [(J, B), (Io, A)]))
    total = {ref: 1.0}
    cur = {(ref, 0): 1.0}
    for k in range(1, order + 1):
        new = {}
        for (m, r), c in cur.items():
            for t, w, mv in ops:
                if r + w > order:
                    continue
                s, q = 1, m
                for i, a in mv:
                    x = ci.move(q, i, a)
                    if x is None:
                        break
                    s *= x[0]
                    q = x[1]
                else:
                    new[(q, r + w)] = new.get((q, r + w), 0.0) + s*t*c/k
        for (q, r), c in new.items():
            total[q] = total.get(q, 0.0) + c
        cur = new
    return total


def vec(basis_masks, coef):
    return numpy.array([coef.get(m, 0.0) for m in basis_masks])


def gref(no, nv):
    h = (no + nv)//2
    nb = no//2
    na = no - nb
    return [i for i in range(na)] + [h + i for i in range(nb)]


def run(case, ctx):
    from cqcpy import ci_utils as cu
    getattr(Explore, case["kind"])(cu, ctx, case)


GB = ("gcis", "gcisd", "gcisdt", "gcisdtq")
UB = ("ucis", "ucisd", "ucisdt", "ucisdtq")


def rank_scale(masks, ref, u):
    r = numpy.array([bin(m & ~ref).count("1") for m in masks])
    return u**r.astype(float)


class Explore(object):
    @staticmethod
    def gpoint(cu, ctx, no, nv, T1, T2, orders, u=None, **d):
        occ = gref(no, nv)
        n = no + nv
        full = expT(n, occ, T1, T2, max(orders))
        olist = [1 if p in occ else 0 for p in range(n)]
        for o in orders:
            basis = getattr(cu, GB[o - 1] + "_basis")(n, no)
            masks = [ci.mask_of(s.occ) for s in basis]
            ref = vec(masks, full)
            for kw in ({}, {"occ": olist}):
                if o == 2 and not kw:
                    out = cu.gmakeCfromT(no, nv, T1, T2)
                else:
                    out = cu.gmakeCfromT(no, nv, T1, T2, order=o, **kw)
                ctx.step()
                if u is None:
                    ctx.same("gmakeCfromT order %d" % o, out, ref, explicit_occ=bool(kw), **d)
                else:
                    s = rank_scale(masks, ci.mask_of(olist), u)
                    ctx.same("gmakeCfromT order %d (scaled)" % o, numpy.asarray(out)/s, ref/s, explicit_occ=bool(kw), **d)
            ctx.outcome(ref)

    @staticmethod
    def ggrid(cu, ctx, case):
        no, nv, top = case["no"], case["nv"], case["order"]
        pts = list(tn.lower_set(tn.amp_vars(no, nv), top, tn.weight))[case["part"]::case["of"]]
        for pt in pts:
            ctx.state()
            Explore.gpoint(cu, ctx, no, nv, *tn.amps_from(pt, no, nv), range(1, top + 1), T=str(pt))
        ctx.sample(T=str(pts[-1]))

    @staticmethod
    def gpairs(cu, ctx, case):
        no, nv = case["no"], case["nv"]
        dv = tn.amp_vars(no, nv, False, True)
        prs = list(itertools.combinations_with_replacement(dv, 2))[case["part"]::case["of"]]
        for x, y in prs:
            ctx.state()
            Explore.gpoint(cu, ctx, no, nv, *tn.amps_from({x: 1, y: 2}, no, nv), (4,), T=str((x, y)))

    @staticmethod
    def gwide(cu, ctx, case):
        """larger spaces"""
        no, nv, o = case["no"], case["nv"], case["order"]
        ctx.state()
        Explore.gpoint(cu, ctx, no, nv, *tn.dense_T(no, nv, 2), range(1, o + 1) if o < 3 else (o,))

    @staticmethod
    def uwide(cu, ctx, case):
        sh = spin.shape(*case["shape"])
        T1, T2 = sh.dense_T(3)
        o = case["order"]
        ctx.state()
        Explore.upoint(cu, ctx, sh, T1, T2, (o,))

    @staticmethod
    def gdense(cu, ctx, case):
        no, nv, cplx = case["no"], case["nv"], bool(case["cplx"])
        T1, T2 = tn.dense_T(no, nv, 2, cplx)
        orders = (1, 2, 3, 4)
        for z in itertools.product((1, 0), repeat=2):
            ctx.state()
            Explore.gpoint(cu, ctx, no, nv, z[0]*T1, z[1]*T2, orders, nonzero=str(z))
            if no*nv > 12 and cplx:
                return
        u = 1e-4
        Explore.gpoint(cu, ctx, no, nv, u*T1, u*u*T2, orders, u=u)
        if no*nv < 9:
            for lay in tn.LAYOUTS:
                Explore.gpoint(cu, ctx, no, nv, tn.layout(T1, lay), tn.layout(T2, lay), orders, layout=lay)
            # real singles with complex doubles and the reverse
            Explore.gpoint(cu, ctx, no, nv, T1.real, T2, orders, mixed="T1 real")
            Explore.gpoint(cu, ctx, no, nv, T1, T2.real, orders, mixed="T2 real")

    @staticmethod
    def upoint(cu, ctx, sh, T1, T2, orders, u=None, **d):
        n = sh.na
        occ = list(range(sh.noa)) + [n + i for i in range(sh.nob)]
        full = expT(2*n, occ, *sh.sT(T1, T2), max(orders))
        for o in orders:
            basis = getattr(cu, UB[o - 1] + "_basis")(n, sh.noa, sh.nob)
            masks = [ci.mask_of(a.occ) | ci.mask_of(b.occ) << n for a, b in basis]
            ref = vec(masks, full)
            if o == 2:
                out = cu.makeCfromT(*sh.key, *T1, *T2)
            else:
                out = cu.makeCfromT(*sh.key, *T1, *T2, order=o)
            ctx.step()
            if u is None:
                ctx.same("makeCfromT order %d" % o, out, ref, shape=sh.key, **d)
            else:
                s = rank_scale(masks, sum(1 << p for p in occ), u)
                ctx.same("makeCfromT order %d (scaled)" % o, numpy.asarray(out)/s, ref/s, shape=sh.key, **d)
            ctx.outcome(ref)

    @staticmethod
    def ugrid(cu, ctx, case):
        sh = spin.shape(*case["shape"])
        pts = list(tn.lower_set(sh.amp_vars(), 4, spin.weight))[case["part"]::case["of"]]
        for pt in pts:
            ctx.state()
            Explore.upoint(cu, ctx, sh, *sh.amps_from(pt), (1, 2, 3, 4) if sum(sh.key) < 8 else (4,), T=str(pt))
        ctx.sample(T=str(pts[-1]))

    @staticmethod
    def udense(cu, ctx, case):
        sh = spin.shape(*case["shape"])
        cplx = bool(case["cplx"])
        T1, T2 = sh.dense_T(2, cplx)
        v = T1 + T2
        masks = range(32) if case["masks"] == 32 else (31, 1, 2, 4, 8, 16, 6, 24)
        for m in masks:
            t = [x if m >> k & 1 else 0*x for k, x in enumerate(v)]
            ctx.state()
            Explore.upoint(cu, ctx, sh, t[:2], t[2:], (1, 2, 3, 4) if m in (31, 0) else (4,), nonzero=bin(m))
        u = 1e-4
        Explore.upoint(cu, ctx, sh, [u*x for x in T1], [u*u*x for x in T2], (4,), u=u)
        if sum(sh.key) <= 4:
            for lay in tn.LAYOUTS:
                Explore.upoint(cu, ctx, sh, [tn.layout(x, lay) for x in T1], [tn.layout(x, lay) for x in T2], (3, 4), layout=lay)
            for k in range(5):
                t = [x.real if q == k else x for q, x in enumerate(v)]
                Explore.upoint(cu, ctx, sh, t[:2], t[2:], (4,), real_only=k)
                t = [x if q == k else x.real for q, x in enumerate(v)]
                Explore.upoint(cu, ctx, sh, t[:2], t[2:], (4,), complex_only=k)

    @staticmethod
    def orders(cu, ctx, case):
        T1, T2 = tn.dense_T(2, 2, 1)
        sh = spin.shape(1, 1, 1, 1)
        t1, t2 = sh.dense_T(1)
        for o in (-2, -1, 0, 5, 6, 7):
            for nm, f in (("gmakeCfromT", lambda: cu.gmakeCfromT(2, 2, T1, T2, order=o)),
                          ("makeCfromT", lambda: cu.makeCfromT(1, 1, 1, 1, *t1, *t2, order=o))):
                ctx.state()
                ctx.step()
                try:
                    f()
                    ok = False
                except Exception:
                    ok = True
                ctx.check(ok, nm + " rejects unsupported order", order=o)
                ctx.outcome(nm, o)
