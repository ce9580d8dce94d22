"""C16: energy, residual, Lambda and density functions form one Lagrangian.

Uses no reference model: only identities between values the library returns, so
it reaches shapes the determinant model cannot hold."""
import itertools

import numpy

from mc import spin
from mc import tensors as tn
from mc import ccgrid as cg
from mc import ucc
from mc.checks import c15

BOUND = {
    "quick": "spin-orbital: every unit Hamiltonian element on 1x1..3x3, dense and single-block Hamiltonians up to 4x4, 2x5, 5x2; unrestricted: every unit element on the 16 shapes 1..2, dense on the 81 shapes 1..3; restricted: units up to 2x2, dense up to 3x4; real and complex; all implementation combinations; Lambda = Lagrangian derivative for every amplitude by exact 5-point differencing",
    "thorough": "as quick with units on 3x4, 4x3 and derivative on larger shapes"}
ASSUMPTIONS = ["floating-point agreement to 1e-8 relative", "the Lagrangian has degree at most 4 in any single amplitude"]

P2 = ("cdab", "ciab", "bcai", "bjai", "abij", "jkai", "kaij", "klij")


def cases(tier):
    th = tier == "thorough"
    for no, nv in itertools.product((1, 2, 3), repeat=2):
        yield {"kind": "gunit", "shape": [no, nv]}
    if th:
        for s in ([3, 4], [4, 3]):
            yield {"kind": "gunit", "shape": s}
    for s in list(itertools.product((1, 2, 3, 4), repeat=2)) + [(2, 5), (5, 2)]:
        for c in (0, 1):
            yield {"kind": "gdense", "shape": list(s), "cplx": c}
            if s[0]*s[1] <= (16 if th else 9):
                yield {"kind": "gder", "shape": list(s), "cplx": c}
    for s in itertools.product((1, 2), repeat=4):
        yield {"kind": "uunit", "shape": list(s)}
    for s in itertools.product((1, 2, 3), repeat=4):
        yield {"kind": "udense", "shape": list(s)}
    for s in itertools.product((1, 2, 3) if th else (1, 2), repeat=4):
        yield {"kind": "uder", "shape": list(s)}
    for s in itertools.product((1, 2, 3), (1, 2, 3, 4)):
        yield {"kind": "rdense", "shape": list(s)}
    for s in itertools.product((1, 2), (1, 2)):
        yield {"kind": "runit", "shape": list(s)}
        yield {"kind": "rder", "shape": list(s)}


def cost(c):
    return numpy.prod(c["shape"])




def place(P, sets, X):
    """X into P[sets] with the antisymmetric images"""
    a, b, c, d = sets
    ix = numpy.ix_
    P[ix(a, b, c, d)] = X
    P[ix(b, a, d, c)] = X.transpose(1, 0, 3, 2)
    P[ix(b, a, c, d)] = -X.transpose(1, 0, 2, 3)
    P[ix(a, b, d, c)] = -X.transpose(0, 1, 3, 2)


def value(f, I, P1, P2_):
    return numpy.einsum('pq,qp->', f, P1) + 0.25*numpy.einsum('pqrs,rspq->', I, P2_)


# ------------------------------------------------------------- spin orbital
def gdensity(eq, no, nv, T, L, suf):
    n = no + nv
    s = {c: list(range(no)) for c in "ijkl"}
    s.update({c: list(range(no, n)) for c in "abcd"})
    dt = numpy.result_type(*T, *L)
    P1, P2_ = numpy.zeros((n,)*2, dt), numpy.zeros((n,)*4, dt)
    for nm in ("ba", "ji", "ai"):
        P1[numpy.ix_(s[nm[0]], s[nm[1]])] = getattr(eq, "ccsd_1rdm_" + nm + suf)(*T, *L)
    P1[numpy.ix_(s['i'], s['a'])] = L[0]
    for nm in P2:
        place(P2_, [s[c] for c in nm], getattr(eq, "ccsd_2rdm_" + nm + suf)(*T, *L))
    place(P2_, [s[c] for c in "ijab"], L[1])
    return P1, P2_


def glag(en, out, f, I, no, T, L):
    e = en.cc_energy(T[0], T[1], f[:no, no:], I[:no, :no, no:, no:])
    return e + numpy.einsum('ia,ai->', L[0], out[0]) + 0.25*numpy.einsum('ijab,abij->', L[1], out[1])


RES = ("ccsd_simple", "ccsd_stanton")
LAM = ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_opt_int", "ccsd_lambda_stanton")


def nodes(fun):
    """derivative at 0 of a polynomial of degree <= 4"""
    h = 0.5
    m2, m1, p1, p2 = fun(-2*h), fun(-h), fun(h), fun(2*h)
    return (m2 - 8*m1 + 8*p1 - p2)/(12*h)


def run(case, ctx):
    from cqcpy import cc_equations as eq, cc_energy as en
    getattr(Explore, case["kind"])(eq, en, ctx, case)


class Explore(object):
    @staticmethod
    def gcheck(eq, en, ctx, no, f, I, T, L, dens, **d):
        F, B = tn.oblocks(f, no), tn.tblocks(I, no)
        ctx.state()
        for r in RES:
            lag = glag(en, getattr(eq, r)(F, B, *T), f, I, no, T, L)
            for suf, (P1, P2_) in dens.items():
                v = value(f, I, P1, P2_)
                ctx.step()
                ctx.same("E + L.R (%s) = D.H (rdm%s)" % (r, suf), lag, v, rtol=1e-8, **d)
        ctx.outcome(lag)

    @staticmethod
    def gsetup(eq, case, cplx):
        no, nv = case["shape"]
        T, L = tn.dense_T(no, nv, 1, cplx), tn.dense_L(no, nv, 2, cplx)
        return no, nv, T, L, {s: gdensity(eq, no, nv, T, L, s) for s in ("", "_opt")}

    @staticmethod
    def gunit(eq, en, ctx, case):
        for cplx in (False, True):
            no, nv, T, L, dens = Explore.gsetup(eq, case, cplx)
            dt = complex if cplx else float
            for lab in tn.unit_H(no + nv):
                if cplx and no*nv > 4:
                    continue
                f, I = tn.make_unit_H(no + nv, lab, dt)
                Explore.gcheck(eq, en, ctx, no, f, I, T, L, dens, unit=str(lab), cplx=cplx)

    @staticmethod
    def gdense(eq, en, ctx, case):
        no, nv, T, L, _ = Explore.gsetup(eq, case, bool(case["cplx"]))
        f, I = tn.dense_H(no + nv, 4, bool(case["cplx"]))
        for z in itertools.product((1, 0), repeat=4):
            t = (z[0]*T[0], z[1]*T[1])
            l = (z[2]*L[0], z[3]*L[1])
            dens = {s: gdensity(eq, no, nv, t, l, s) for s in ("", "_opt")}
            Explore.gcheck(eq, en, ctx, no, f, I, t, l, dens, nonzero=str(z))
        dens = {s: gdensity(eq, no, nv, T, L, s) for s in ("", "_opt")}
        for mname, keep in cg.zero_masks():
            Explore.gcheck(eq, en, ctx, no, *cg.mask_H(f, I, no, keep), T, L, dens, mask=mname)

    @staticmethod
    def gder(eq, en, ctx, case):
        cplx = bool(case["cplx"])
        no, nv, T, L, _ = Explore.gsetup(eq, case, cplx)
        f, I = tn.dense_H(no + nv, 4, cplx)
        F, B = tn.oblocks(f, no), tn.tblocks(I, no)
        outs = {}
        for nm in LAM:
            if nm == "ccsd_lambda_opt_int":
                outs[nm] = eq.ccsd_lambda_opt_int(F, B, *L, *T, eq.lambda_int(F, B, *T))
            else:
                outs[nm] = getattr(eq, nm)(F, B, *L, *T)
        for v in tn.amp_vars(no, nv):
            def fun(x):
                s, dd = tn.amps_from({v: 1}, no, nv)
                t = (T[0] + x*s, T[1] + x*dd)
                return glag(en, eq.ccsd_stanton(F, B, *t), f, I, no, t, L)
            g = nodes(fun)
            ctx.state()
            for nm, o in outs.items():
                got = o[0][v[2], v[1]] if v[0] == 's' else o[1][v[3], v[4], v[1], v[2]]
                ctx.step()
                ctx.same("%s = dLagrangian/dT" % nm, got, g, rtol=1e-8, var=str(v))
            ctx.outcome(g)

    # --------------------------------------------------------- unrestricted
    @staticmethod
    def udensity(eq, sh, T1, T2, L1, L2):
        n = sh.n
        args = tuple(T1) + tuple(T2) + tuple(L1) + tuple(L2)
        dt = numpy.result_type(*args)
        P1, P2_ = numpy.zeros((n,)*2, dt), numpy.zeros((n,)*4, dt)

        def sets(nm):
            o = {'a': sh.oa, 'b': sh.ob}
            v = {'a': [sh.no + x for x in sh.va], 'b': [sh.no + x for x in sh.vb]}
            return [(v if c.lower() in 'abcd' else o)['a' if c.islower() else 'b'] for c in nm]
        for nm, parts in c15.U1.items():
            for p, X in zip(parts, getattr(eq, "uccsd_1rdm_" + nm)(*args)):
                P1[numpy.ix_(*sets(p))] = X
        for p, X in zip(("ia", "IA"), L1):
            P1[numpy.ix_(*sets(p))] = X
        for nm, parts in c15.U2.items():
            for p, X in zip(parts, getattr(eq, "uccsd_2rdm_" + nm)(*args)):
                place(P2_, sets(p), X)
        for p, X in zip(("ijab", "iJaB", "IJAB"), L2):
            place(P2_, sets(p), X)
        return P1, P2_

    @staticmethod
    def ulag(eq, en, sh, H, blocks, T1, T2, L1, L2):
        fa, fb, Ia, Ib, Iab = H
        a, b = sh.noa, sh.nob
        e = en.ucc_energy(T1, T2, fa[:a, a:], fb[:b, b:], Ia[:a, :a, a:, a:], Ib[:b, :b, b:, b:], Iab[:a, :b, a:, b:])
        (s1, s2), (d1, d2, d3) = eq.uccsd_stanton(*blocks, T1, T2)
        es = numpy.einsum
        e = e + es('ia,ai->', L1[0], s1) + es('ia,ai->', L1[1], s2)
        e = e + 0.25*es('ijab,abij->', L2[0], d1) + es('ijab,abij->', L2[1], d2) + 0.25*es('ijab,abij->', L2[2], d3)
        return e

    @staticmethod
    def ucheck(eq, en, ctx, sh, H, T, L, P, **d):
        ctx.state()
        ctx.step()
        lag = Explore.ulag(eq, en, sh, H, spin.ublocks(sh, *H), *T, *L)
        ctx.same("unrestricted E + L.R = D.H", lag, value(sh.F(*H[:2]), sh.I(*H[2:]), *P), rtol=1e-8, **d)
        ctx.outcome(lag)

    @staticmethod
    def uunit(eq, en, ctx, case):
        sh = spin.shape(*case["shape"])
        T, L = sh.dense_T(1), sh.dense_L(3)
        P = Explore.udensity(eq, sh, *T, *L)
        for lab in sh.unit_H_labels():
            Explore.ucheck(eq, en, ctx, sh, sh.unit_H(lab), T, L, P, unit=str(lab))

    @staticmethod
    def udense(eq, en, ctx, case):
        sh = spin.shape(*case["shape"])
        for cplx in (False, True):
            T, L, H = sh.dense_T(1, cplx), sh.dense_L(3, cplx), sh.dense_H(5, cplx)
            v = T[0] + T[1] + L[0] + L[1]
            for drop in [()] + [(k,) for k in range(10)]:
                w = [0*x if k in drop else x for k, x in enumerate(v)]
                t, l = (tuple(w[:2]), tuple(w[2:5])), (tuple(w[5:7]), tuple(w[7:]))
                Explore.ucheck(eq, en, ctx, sh, H, t, l, Explore.udensity(eq, sh, *t, *l), zeroed=str(drop), cplx=cplx)
            P = Explore.udensity(eq, sh, *T, *L)
            for k in range(5):
                h = [x if q == k else 0*x for q, x in enumerate(H)]
                Explore.ucheck(eq, en, ctx, sh, h, T, L, P, only=k, cplx=cplx)
            # same state through the spin-orbital functions
            no = sh.no
            f, I = sh.F(*H[:2]), sh.I(*H[2:])
            st, sl = sh.sT(*T), sh.sL(*L)
            G = glag(en, eq.ccsd_stanton(tn.oblocks(f, no), tn.tblocks(I, no), *st), f, I, no, st, sl)
            ctx.same("unrestricted = spin-orbital Lagrangian", Explore.ulag(eq, en, sh, H, spin.ublocks(sh, *H), *T, *L), G, rtol=1e-8)

    @staticmethod
    def uder(eq, en, ctx, case):
        sh = spin.shape(*case["shape"])
        T, L, H = sh.dense_T(1, True), sh.dense_L(3, True), sh.dense_H(5, True)
        blocks = spin.ublocks(sh, *H)
        (s1, s2), (d1, d2, d3) = eq.uccsd_lambda_opt(*blocks, *L, *T)
        R = {'sa': s1, 'sb': s2, 'daa': d1, 'dab': d2, 'dbb': d3}
        for v in sh.amp_vars():
            def fun(x):
                e1, e2 = sh.amps_from({v: 1})
                t1 = tuple(a + x*b for a, b in zip(T[0], e1))
                t2 = tuple(a + x*b for a, b in zip(T[1], e2))
                return Explore.ulag(eq, en, sh, H, blocks, t1, t2, *L)
            ix = v[1:]
            h = len(ix)//2
            ctx.state()
            ctx.step()
            g = nodes(fun)
            ctx.same("uccsd_lambda_opt = dLagrangian/dT", R[v[0]][ix[h:] + ix[:h]], g, rtol=1e-8, var=str(v))
            ctx.outcome(g)

    # ----------------------------------------------------------- restricted
    @staticmethod
    def rdensity(eq, no, nv, T, L):
        """spatial one-body density per spin and opposite-spin two-body density"""
        n = no + nv
        s = {c: list(range(no)) for c in "ijkl"}
        s.update({c: list(range(no, n)) for c in "abcd"})
        dt = numpy.result_type(*T, *L)
        P1, Pab = numpy.zeros((n,)*2, dt), numpy.zeros((n,)*4, dt)
        for nm in ("ba", "ji", "ai"):
            P1[numpy.ix_(s[nm[0]], s[nm[1]])] = getattr(eq, "rccsd_1rdm_" + nm)(*T, *L)
        P1[numpy.ix_(s['i'], s['a'])] = L[0]

        def put(nm, X):
            Pab[numpy.ix_(*[s[c] for c in nm])] = X
            y = nm[1] + nm[0] + nm[3] + nm[2]
            Pab[numpy.ix_(*[s[c] for c in y])] = X.transpose(1, 0, 3, 2)
        for nm in P2 + ("bjia",):
            put(nm, getattr(eq, "rccsd_2rdm_" + nm)(*T, *L))
        put("ijab", L[1])
        return P1, Pab

    @staticmethod
    def rlag(eq, en, no, f, I, T, L):
        e = en.rcc_energy(T[0], T[1], f[:no, no:], I[:no, :no, no:, no:])
        S, D = eq.rccsd_stanton(tn.oblocks(f, no), tn.tblocks(I, no, full=True), *T)
        La = L[1] - L[1].transpose(0, 1, 3, 2)
        Da = D - D.transpose(0, 1, 3, 2)
        es = numpy.einsum
        return e + 2*es('ia,ai->', L[0], S) + es('ijab,abij->', L[1], D) + 0.5*es('ijab,abij->', La, Da)

    @staticmethod
    def rcheck(eq, en, ctx, no, f, I, T, L, P, **d):
        P1, Pab = P
        Paa = Pab - Pab.transpose(0, 1, 3, 2)
        Ia = I - I.transpose(0, 1, 3, 2)
        es = numpy.einsum
        ref = 2*es('pq,qp->', f, P1) + es('pqrs,rspq->', I, Pab) + 0.5*es('pqrs,rspq->', Ia, Paa)
        ctx.state()
        ctx.step()
        lag = Explore.rlag(eq, en, no, f, I, T, L)
        ctx.same("restricted E + L.R = D.H", lag, ref, rtol=1e-8, **d)
        ctx.outcome(lag)

    @staticmethod
    def runit(eq, en, ctx, case):
        no, nv = case["shape"]
        T, L = ucc.rdense_T(no, nv, 1), ucc.rdense_L(no, nv, 3)
        P = Explore.rdensity(eq, no, nv, T, L)
        U = ucc.RUnits(no, nv)
        for lab in U.labels:
            f, I = U.unit(lab)
            Explore.rcheck(eq, en, ctx, no, f, I, T, L, P, unit=str(lab))

    @staticmethod
    def rdense(eq, en, ctx, case):
        no, nv = case["shape"]
        for cplx in (False, True):
            T, L, H = ucc.rdense_T(no, nv, 1, cplx), ucc.rdense_L(no, nv, 3, cplx), ucc.rdense(no, nv, 5, cplx)
            for z in itertools.product((1, 0), repeat=4):
                t, l = (z[0]*T[0], z[1]*T[1]), (z[2]*L[0], z[3]*L[1])
                Explore.rcheck(eq, en, ctx, no, *H, t, l, Explore.rdensity(eq, no, nv, t, l), nonzero=str(z), cplx=cplx)
            # same state through the unrestricted functions
            sh = spin.shape(no, nv, no, nv)
            aa = lambda x: x - x.transpose(0, 1, 3, 2)
            uH = (H[0], H[0], aa(H[1]), aa(H[1]), H[1])
            u = Explore.ulag(eq, en, sh, uH, spin.ublocks(sh, *uH), (T[0], T[0]), (aa(T[1]), T[1], aa(T[1])),
                             (L[0], L[0]), (aa(L[1]), L[1], aa(L[1])))
            ctx.same("restricted = unrestricted Lagrangian", Explore.rlag(eq, en, no, *H, T, L), u, rtol=1e-8)

    @staticmethod
    def rder(eq, en, ctx, case):
        no, nv = case["shape"]
        T, L, H = ucc.rdense_T(no, nv, 1, True), ucc.rdense_L(no, nv, 3, True), ucc.rdense(no, nv, 5, True)
        S, D = eq.rccsd_lambda_opt(tn.oblocks(H[0], no), tn.tblocks(H[1], no, full=True), *L, *T)
        Da = D - D.transpose(0, 1, 3, 2)
        es = numpy.einsum
        for v in ucc.rvars(no, nv):
            e1, e2 = ucc.ramps({v: 1}, no, nv)
            g = nodes(lambda x: Explore.rlag(eq, en, no, *H, (T[0] + x*e1, T[1] + x*e2), L))
            ea = e2 - e2.transpose(0, 1, 3, 2)
            pred = 2*es('ia,ai->', S, e1) + es('ijab,abij->', D, e2) + 0.5*es('ijab,abij->', Da, ea)
            ctx.state()
            ctx.step()
            ctx.same("rccsd_lambda_opt = dLagrangian/dT", pred, g, rtol=1e-8, var=str(v))
            ctx.outcome(g)
