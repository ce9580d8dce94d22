"""C06: correlation energies in spin-orbital, unrestricted and restricted form."""
import itertools

import numpy

from mc import spin
from mc import tensors as tn
from mc import fock
from mc import ucc
from mc import size

BOUND = {
    "quick": "spin-orbital shapes 1..3 x 1..3: every unit f/I element x complete degree-2 amplitude grid (and all unit pairs for the bilinear form); unrestricted: all 16 alpha/beta shapes with counts 1..2; restricted 1x1..2x2 likewise; dense tensors on all shapes with zero-size spaces, all 16 real/complex combinations, 5 layouts",
    "thorough": "as quick with spin-orbital shapes up to 4x4, restricted up to 2x3 and larger dense shapes"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "unit/lower-set enumeration decides polynomial identities of degree <= 2 for the shape"]


def cases(tier):
    th = tier == "thorough"
    n = 4 if th else 3
    for no, nv in itertools.product(range(1, n + 1), repeat=2):
        yield {"kind": "ggrid", "shape": [no, nv]}
    for no, nv in itertools.product(range(0, n + 1), repeat=2):
        yield {"kind": "gdense", "shape": [no, nv]}
    for k in itertools.product((1, 2), repeat=4):
        yield {"kind": "ugrid", "shape": list(k)}
    for k in itertools.product((0, 1, 2), repeat=4):
        if sum(k):
            yield {"kind": "udense", "shape": list(k)}
    for k in [(1, 3, 2, 1), (3, 1, 1, 2), (2, 3, 1, 2), (3, 2, 0, 1)]:
        yield {"kind": "udense", "shape": list(k)}
    for k in [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 3), (3, 1), (2, 3)] if th else []):
        yield {"kind": "rgrid", "shape": list(k)}
    for k in itertools.product(range(0, 4), repeat=2):
        if 0 < sum(k) <= (5 if th else 4):
            yield {"kind": "rdense", "shape": list(k)}


def cost(c):
    return numpy.prod(c["shape"])


def value(G, f, I):
    return numpy.einsum('pq,pq->', G[0], f) + 0.25*numpy.einsum('pqrs,pqrs->', G[1], I)


def first_order(sp, T1, T2):
    """generators of <0|H T|0> (linear in T)"""
    a, b = sp.expect(sp.v0[None], sp.Tmat(T1, T2).dot(sp.v0))
    return a[0], b[0]


def gpoint(ctx, en, sp, no, T1, T2, f, I, G, G1, Gt1, Gt2, **d):
    fov = f[:no, no:]
    v = I[:no, :no, no:, no:]
    z = numpy.zeros_like
    ctx.step(5)
    ctx.same("cc_energy", en.cc_energy(T1, T2, fov, v), value(G, f, I), **d)
    ctx.same("mp2_energy", en.mp2_energy(T1, T2, fov, v), value(G1, f, I), **d)
    ctx.same("cc_energy_d", en.cc_energy_d(T2, v), value(Gt2, z(f), I), **d)
    ctx.same("cc_energy_s1", en.cc_energy_s1(T1, fov), value(Gt1, f, z(I)), **d)
    ctx.same("cc_energy_s2", en.cc_energy_s2(T1, v), 2*value(Gt1, z(f), I), **d)
    ctx.outcome(value(G, f, I))


def run(case, ctx):
    from cqcpy import cc_energy as en
    kind = case["kind"]
    k = case["shape"]
    getattr(Explore, kind)(en, ctx, k)


class Explore(object):
    @staticmethod
    def ggrid(en, ctx, k):
        no, nv = k
        n = no + nv
        sp = fock.space(no, nv)
        labs = [l for l in tn.unit_H(n)]
        H = [tn.make_unit_H(n, l) for l in labs]
        pts = list(tn.lower_set(tn.amp_vars(no, nv), 2, tn.weight))
        for pt in pts:
            T1, T2 = tn.amps_from(pt, no, nv)
            G = sp.energy_gen(T1, T2)
            gs = (G, first_order(sp, T1, T2), sp.energy_gen(T1, 0*T2), sp.energy_gen(0*T1, T2))
            ctx.state()
            for l, (f, I) in zip(labs, H):
                relevant = all(x < no for x in l[:len(l)//2]) and all(x >= no for x in l[len(l)//2:])
                if not relevant:
                    # not an argument of the functions: the model must agree it cannot matter
                    ctx.check(value(G, f, I) == 0, "model: energy depends on another block", H=l)
                    continue
                gpoint(ctx, en, sp, no, T1, T2, f, I, *gs, T=str(pt), H=str(l))
        # bilinear form on every pair of unit singles
        var = tn.amp_vars(no, nv, True, False)
        for x, y in itertools.product(var, repeat=2):
            a = tn.amps_from({x: 1}, no, nv)[0]
            b = tn.amps_from({y: 1}, no, nv)[0]
            z2 = numpy.zeros((nv, nv, no, no))
            Ga, Gb, Gab = (sp.energy_gen(q, z2) for q in (a, b, a + b))
            ctx.state()
            for l, (f, I) in zip(labs, H):
                if len(l) == 4:
                    z = numpy.zeros_like(f)
                    ref = value(Gab, z, I) - value(Ga, z, I) - value(Gb, z, I)
                    ctx.step()
                    ctx.same("cc_energy_s2_a", en.cc_energy_s2_a(a, b, I[:no, :no, no:, no:]), ref, T=str((x, y)), H=str(l))
        ctx.sample(T=str(pts[-1]), H=str(labs[-1]))

    @staticmethod
    def gdense(en, ctx, k):
        no, nv = k
        sp = fock.space(no, nv)
        n = no + nv
        for m in itertools.product((False, True), repeat=4):
            T1 = tn.dense_T(no, nv, 1, m[0])[0]
            T2 = tn.dense_T(no, nv, 1, m[1])[1]
            f = tn.dense_H(n, 2, m[2])[0]
            I = tn.dense_H(n, 2, m[3])[1]
            gs = (sp.energy_gen(T1, T2), first_order(sp, T1, T2), sp.energy_gen(T1, 0*T2), sp.energy_gen(0*T1, T2))
            ctx.state()
            gpoint(ctx, en, sp, no, T1, T2, f, I, *gs, complexity=str(m))
            b = tn.dense_T(no, nv, 5, m[1])[0]
            z = numpy.zeros_like(f)
            ref = value(sp.energy_gen(T1 + b, 0*T2), z, I) - value(sp.energy_gen(b, 0*T2), z, I) - value(gs[2], z, I)
            ctx.same("cc_energy_s2_a", en.cc_energy_s2_a(T1, b, I[:no, :no, no:, no:]), ref, complexity=str(m))
            if m in ((False,)*4, (True,)*4):
                for lay in tn.LAYOUTS:
                    t1, t2, fl, Il = ucc.relayout([T1, T2, f, I], lay)
                    gpoint(ctx, en, sp, no, t1, t2, fl, Il, *gs, layout=lay)

    @staticmethod
    def upoint(en, ctx, sh, T1, T2, H, G, G1, **d):
        fa, fb, Ia, Ib, Iab = H
        a, b = sh.noa, sh.nob
        args = (T1, T2, fa[:a, a:], fb[:b, b:], Ia[:a, :a, a:, a:], Ib[:b, :b, b:, b:], Iab[:a, :b, a:, b:])
        f, I = sh.F(fa, fb), sh.I(Ia, Ib, Iab)
        ctx.step(2)
        ctx.same("ucc_energy", en.ucc_energy(*args), value(G, f, I), **d)
        ctx.same("ump2_energy", en.ump2_energy(*args), value(G1, f, I), **d)
        ctx.outcome(value(G, f, I))

    @staticmethod
    def ugrid(en, ctx, k):
        sh = spin.shape(*k)
        sp = sh.space()
        labs = []
        na, nb = sh.noa, sh.nob
        cut = {'fa': (na, na), 'fb': (nb, nb), 'Ia': (na,)*4, 'Ib': (nb,)*4, 'Iab': (na, nb, na, nb)}
        for l in sh.unit_H_labels():
            c, ix = cut[l[0]], l[1:]
            h = len(ix)//2
            if all(x < y for x, y in zip(ix[:h], c[:h])) and all(x >= y for x, y in zip(ix[h:], c[h:])):
                labs.append(l)
        Hs = [sh.unit_H(l) for l in labs]
        for pt in tn.lower_set(sh.amp_vars(), 2, spin.weight):
            T1, T2 = sh.amps_from(pt)
            st = sh.sT(T1, T2)
            G, G1 = sp.energy_gen(*st), first_order(sp, *st)
            ctx.state()
            for l, H in zip(labs, Hs):
                Explore.upoint(en, ctx, sh, T1, T2, H, G, G1, T=str(pt), H_=str(l))
        ctx.sample(T=str(pt), H=str(labs[-1]))

    @staticmethod
    def udense(en, ctx, k):
        sh = spin.shape(*k)
        sp = sh.space()
        for m in itertools.product((False, True), repeat=2):
            T1, T2 = sh.dense_T(4, m[0])
            H = sh.dense_H(1, m[1])
            for drop in [()] + [(q,) for q in range(10)] + [tuple(range(5)), tuple(range(5, 10))]:
                v = [0*x if q in drop else x for q, x in enumerate(T1 + T2 + H)]
                t1, t2, h = tuple(v[:2]), tuple(v[2:5]), v[5:]
                st = sh.sT(t1, t2)
                G, G1 = sp.energy_gen(*st), first_order(sp, *st)
                ctx.state()
                Explore.upoint(en, ctx, sh, t1, t2, h, G, G1, zeroed=str(drop), complexity=str(m))
            st = sh.sT(T1, T2)
            G, G1 = sp.energy_gen(*st), first_order(sp, *st)
            for lay in tn.LAYOUTS:
                t1, t2, h = ucc.relayout([T1, T2, H], lay)
                Explore.upoint(en, ctx, sh, t1, t2, h, G, G1, layout=lay)

    @staticmethod
    def rpoint(en, ctx, sh, no, T1, T2, f, I, G, **d):
        ctx.step()
        ref = value(G, *ucc.embed_H(sh, f, I))
        ctx.same("rcc_energy", en.rcc_energy(T1, T2, f[:no, no:], I[:no, :no, no:, no:]), ref, **d)
        ctx.outcome(ref)

    @staticmethod
    def rgrid(en, ctx, k):
        no, nv = k
        U = ucc.RUnits(no, nv)
        sh = U.sh
        sp = sh.space()
        for pt in tn.lower_set(ucc.rvars(no, nv), 2, tn.weight):
            T1, T2 = ucc.ramps(pt, no, nv)
            G = sp.energy_gen(*ucc.embed_T(sh, T1, T2))
            ctx.state()
            for l in U.labels:
                f, I = U.unit(l)
                Explore.rpoint(en, ctx, sh, no, T1, T2, f, I, G, T=str(pt), H=str(l))

    @staticmethod
    def rdense(en, ctx, k):
        no, nv = k
        sh = spin.shape(no, nv, no, nv)
        sp = sh.space()
        for m in itertools.product((False, True), repeat=2):
            f, I = ucc.rdense(no, nv, 1, m[0])
            T1, T2 = ucc.rdense_T(no, nv, 3, m[1])
            for z in itertools.product((0, 1), repeat=4):
                t1, t2, ff, II = (q*x for q, x in zip(z, (T1, T2, f, I)))
                G = sp.energy_gen(*ucc.embed_T(sh, t1, t2))
                ctx.state()
                Explore.rpoint(en, ctx, sh, no, t1, t2, ff, II, G, zeroed=str(z), complexity=str(m))
            for lay in tn.LAYOUTS:
                t1, t2, ff, II = ucc.relayout([T1, T2, f, I], lay)
                Explore.rpoint(en, ctx, sh, no, t1, t2, ff, II, G, layout=lay)


size.extend(__name__, ("cc_energy_d", "cc_energy_s1", "cc_energy_s2", "cc_energy_s2_a", "cc_energy", "mp2_energy", "ucc_energy", "ump2_energy", "rcc_energy"))
