"""C03: CI matrix elements against second quantization."""
import itertools

import numpy

from mc import ci
from mc import fock
from mc import tensors as tn

BOUND = {
    "quick": "spin-orbital: every bra/ket pair of every sector x every unit h, I (electron-exchange classes) and the constant for n <= 6, dense real/complex/Hermitian for n <= 8; spin-resolved: every pair x every unit for (na,nb) orbital counts up to 3, dense for all counts up to 4 and for 5 to 8 orbitals of one spin with 1 or 2 of the other; storage layouts; all pairs of determinants on up to 7 (4 + 4) chosen orbitals out of 9..40 with dense integrals",
    "thorough": "as quick with units for 4 spatial orbitals, dense for 9 spin orbitals and 5 spatial orbitals"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "integrals have the electron-exchange symmetry I[pqrs] = I[qpsr] every two-electron interaction has"]


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 7):
        for N in range(n + 1):
            k = 8 if n == 6 and N in (2, 3, 4) else 1
            for p in range(k):
                yield {"kind": "gunit", "n": n, "N": N, "part": p, "of": k}
    for n in range(1, 10 if th else 9):
        for N in range(n + 1):
            yield {"kind": "gdense", "n": n, "N": N}
    for na, nb in itertools.product(range(1, 5 if th else 4), repeat=2):
        for Na in range(na + 1):
            for Nb in range(nb + 1):
                k = 4 if na*nb > 9 else 1
                for p in range(k):
                    yield {"kind": "uunit", "orb": [na, nb], "el": [Na, Nb], "part": p, "of": k}
    for na, nb in [x for x in itertools.product(range(1, 6), repeat=2) if max(x) <= (5 if th else 4)]:
        for Na in range(na + 1):
            for Nb in range(nb + 1):
                yield {"kind": "udense", "orb": [na, nb], "el": [Na, Nb]}

    # two moves with several electrons of the same spin in between
    for x in (5, 6, 7, 8):
        for y in (1, 2) if x == 6 else (1,):
            if x == 5 and th:
                continue
            for na, nb in ((x, y), (y, x)):
                for Na in range(na + 1):
                    for Nb in range(nb + 1):
                        yield {"kind": "udense", "orb": [na, nb], "el": [Na, Nb]}
    for n in (9, 17, 33, 40):
        for N in range(8):
            yield {"kind": "gwide", "n": n, "N": N}
    for na, nb in ((9, 4), (4, 9), (33, 5), (5, 33), (17, 17)):
        for Na, Nb in itertools.product(range(4), repeat=2):
            yield {"kind": "uwide", "orb": [na, nb], "el": [Na, Nb]}


def cost(c):
    return c["n"] if "n" in c else sum(c["orb"])*1.2


def pair_dense(n, k, cplx, herm):
    h = tn.weyl((n, n), k, cplx)
    I = tn.weyl((n,)*4, k + 1, cplx)
    I = I + I.transpose(1, 0, 3, 2)
    if herm:
        h = h + h.conj().T
        I = I + I.transpose(2, 3, 0, 1).conj()
    return h, I


def udense(na, nb, k, cplx, herm):
    ha, Ia = pair_dense(na, k, cplx, herm)
    hb, Ib = pair_dense(nb, k + 2, cplx, herm)
    Iab = tn.weyl((na, nb, na, nb), k + 4, cplx)
    if herm:
        Iab = Iab + Iab.transpose(2, 3, 0, 1).conj()
    return ha, hb, Ia, Ib, Iab


def D(cu, mask, n):
    return cu.Dstring(n, ci.occ_of(mask, n))


def run(case, ctx):
    from cqcpy import ci_utils as cu
    getattr(Explore, case["kind"])(cu, ctx, case)


class Explore(object):
    @staticmethod
    def gunit(cu, ctx, case):
        n, N = case["n"], case["N"]
        S = ci.sector(n, N)
        units = []
        for p, q in itertools.product(range(n), repeat=2):
            h = numpy.zeros((n, n))
            h[p, q] = 1
            units.append((("h", p, q), h, numpy.zeros((n,)*4), 0.0))
        for x, y in ci.pair_units(n):
            I = numpy.zeros((n,)*4)
            I[x] = I[y] = 1
            units.append((("I",) + x, numpy.zeros((n, n)), I, 0.0))
        units.append((("const",), numpy.zeros((n, n)), numpy.zeros((n,)*4), 1.0))
        prs = list(itertools.product(S.dets, repeat=2))
        for b, k in prs[case["part"]::case["of"]]:
            G1, G2 = S.gen(b, k)
            bra, ket = D(cu, b, n), D(cu, k, n)
            ctx.state()
            tot = 0.0
            for lab, h, I, c in units:
                if lab[0] == "h":
                    ref = G1[lab[1:]]
                elif lab[0] == "I":
                    x = lab[1:]
                    y = (x[1], x[0], x[3], x[2])
                    ref = 0.5*G2[x] + (0.5*G2[y] if x != y else 0.0)
                else:
                    ref = 1.0 if b == k else 0.0
                out = cu.gci_matrixel(bra, ket, h, I, c)
                ctx.step()
                ctx.same("gci_matrixel", out, ref, bra=bra.occ, ket=ket.occ, unit=str(lab))
                tot += ref*len(lab)
            ctx.outcome(tot)
            ctx.check(list(bra.occ) == ci.occ_of(b, n) and list(ket.occ) == ci.occ_of(k, n), "strings unchanged")
        ctx.sample(bra=ci.occ_of(prs[-1][0], n), units=len(units))

    @staticmethod
    def gwide(cu, ctx, case):
        """determinants on seven of many orbitals: only the integrals of these count"""
        n, N = case["n"], case["N"]
        for K in ([0, 1, 2, n//2, n - 3, n - 2, n - 1], sorted(set(min(x, n - 1 - k) for k, x in enumerate((32, 31, 16, 15, 8, 7, 6))))):
            m = len(K)
            if N > m:
                continue
            S = ci.sector(m, N)
            h, I = pair_dense(n, 4, n < 20, False)
            M = S.H(h[numpy.ix_(K, K)], I[numpy.ix_(K, K, K, K)], 0.7)
            dets = []
            for d in S.dets:
                occ = [0]*n
                for k in range(m):
                    occ[K[k]] = d >> k & 1
                dets.append(cu.Dstring(n, occ))
            out = numpy.zeros_like(M)
            for i, b in enumerate(dets):
                for j, k in enumerate(dets):
                    out[S.ia[S.dets[i]], S.ia[S.dets[j]]] = cu.gci_matrixel(b, k, h, I, 0.7)
            ctx.state()
            ctx.step(len(dets)**2)
            ctx.same("gci_matrixel, few of many orbitals", out, M, n=n, N=N, orbitals=K)
            ctx.outcome(M)

    @staticmethod
    def uwide(cu, ctx, case):
        na, nb = case["orb"]
        Na, Nb = case["el"]
        KA = sorted(set((0, 1, na//2, na - 1)))
        KB = sorted(set((0, nb//2, nb - 2, nb - 1)))
        ma, mb = len(KA), len(KB)
        if Na > ma or Nb > mb:
            return
        S, A, B = Explore.usector(ma, mb, Na, Nb)
        H = udense(na, nb, 1, na + nb < 20, False)
        cut = [H[0][numpy.ix_(KA, KA)], H[1][numpy.ix_(KB, KB)], H[2][numpy.ix_(KA, KA, KA, KA)],
               H[3][numpy.ix_(KB, KB, KB, KB)], H[4][numpy.ix_(KA, KB, KA, KB)]]
        dets = [(a, b) for a in A for b in B]
        ix = [S.ia[a | b << ma] for a, b in dets]
        M = S.H(*ci.spin_orbital(*cut), 0.7)[numpy.ix_(ix, ix)]

        def wide(mask, K, n):
            occ = [0]*n
            for k, x in enumerate(K):
                occ[x] = mask >> k & 1
            return cu.Dstring(n, occ)
        st = [(wide(a, KA, na), wide(b, KB, nb)) for a, b in dets]
        out = numpy.array([[cu.ci_matrixel(b[0], b[1], k[0], k[1], *H, 0.7) for k in st] for b in st])
        ctx.state()
        ctx.step(len(st)**2)
        ctx.same("ci_matrixel, few of many orbitals", out, M, orb=case["orb"], el=case["el"])
        ctx.outcome(M)

    @staticmethod
    def gdense(cu, ctx, case):
        n, N = case["n"], case["N"]
        S = ci.sector(n, N)
        for cplx, herm in itertools.product((False, True), repeat=2):
            h, I = pair_dense(n, 2, cplx, herm)
            const = 0.7 + (0.3j if cplx and not herm else 0)
            M = S.H(h, I, const)
            out = numpy.zeros_like(M)
            lays = tn.LAYOUTS if n <= 4 else ("C",)
            for lay in lays:
                hh, II = tn.layout(h, lay), tn.layout(I, lay)
                dets = [D(cu, b, n) for b in S.dets]
                for i, b in enumerate(dets):
                    for j, k in enumerate(dets):
                        out[S.ia[S.dets[i]], S.ia[S.dets[j]]] = cu.gci_matrixel(b, k, hh, II, const)
                ctx.state()
                ctx.step(len(dets)**2)
                ctx.same("gci_matrixel matrix", out, M, n=n, N=N, complex=cplx, herm=herm, layout=lay)
            if herm:
                ctx.same("Hermitian matrix", out, out.conj().T, n=n, N=N)
            ctx.outcome(M)

    @staticmethod
    def usector(na, nb, Na, Nb):
        S = ci.sector(na + nb, Na + Nb)
        A = [m for m in fock.sector(na, Na)]
        B = [m for m in fock.sector(nb, Nb)]
        return S, A, B

    @staticmethod
    def uunit(cu, ctx, case):
        na, nb = case["orb"]
        S, A, B = Explore.usector(na, nb, *case["el"])
        n = na + nb
        zero = lambda: [numpy.zeros((na, na)), numpy.zeros((nb, nb)), numpy.zeros((na,)*4), numpy.zeros((nb,)*4), numpy.zeros((na, nb, na, nb))]
        units = []
        for w, m, off in ((0, na, 0), (1, nb, na)):
            for p, q in itertools.product(range(m), repeat=2):
                H = zero()
                H[w][p, q] = 1
                units.append((("h", p + off, q + off), H, 0.0))
            for x, y in ci.pair_units(m):
                H = zero()
                H[2 + w][x] = H[2 + w][y] = 1
                units.append((("I",) + tuple(z + off for z in x), H, 0.0))
        for p, q, r, s in itertools.product(range(na), range(nb), range(na), range(nb)):
            H = zero()
            H[4][p, q, r, s] = 1
            units.append((("ab", p, q + na, r, s + na), H, 0.0))
        units.append((("const",), zero(), 1.0))
        dets = [(a, b) for a in A for b in B]
        prs = list(itertools.product(dets, repeat=2))
        for (a1, b1), (a2, b2) in prs[case["part"]::case["of"]]:
            m1, m2 = a1 | b1 << na, a2 | b2 << na
            G1, G2 = S.gen(m1, m2)
            st = (D(cu, a1, na), D(cu, b1, nb), D(cu, a2, na), D(cu, b2, nb))
            ctx.state()
            tot = 0.0
            for lab, H, c in units:
                if lab[0] == "h":
                    ref = G1[lab[1:]]
                elif lab[0] == "const":
                    ref = 1.0 if m1 == m2 else 0.0
                else:
                    x = lab[1:]
                    y = (x[1], x[0], x[3], x[2])
                    ref = 0.5*G2[x] + (0.5*G2[y] if x != y else 0.0)
                out = cu.ci_matrixel(*st, *H, c)
                ctx.step()
                ctx.same("ci_matrixel", out, ref, bra=[list(map(int, st[0].occ)), list(map(int, st[1].occ))],
                         ket=[list(map(int, st[2].occ)), list(map(int, st[3].occ))], unit=str(lab))
                tot += ref*len(lab)
            ctx.outcome(tot)
        ctx.sample(pairs=len(prs), units=len(units))

    @staticmethod
    def udense(cu, ctx, case):
        na, nb = case["orb"]
        S, A, B = Explore.usector(na, nb, *case["el"])
        dets = [(a, b) for a in A for b in B]
        ix = [S.ia[a | b << na] for a, b in dets]
        st = [(D(cu, a, na), D(cu, b, nb)) for a, b in dets]
        for cplx, herm in itertools.product((False, True), repeat=2):
            H = udense(na, nb, 1, cplx, herm)
            const = 0.7 + (0.3j if cplx and not herm else 0)
            M = S.H(*ci.spin_orbital(*H), const)[numpy.ix_(ix, ix)]
            for lay in (tn.LAYOUTS if na + nb <= 4 else ("C",)):
                HH = [tn.layout(x, lay) for x in H]
                out = numpy.zeros_like(M)
                for i, b in enumerate(st):
                    for j, k in enumerate(st):
                        out[i, j] = cu.ci_matrixel(b[0], b[1], k[0], k[1], *HH, const)
                ctx.state()
                ctx.step(len(st)**2)
                ctx.same("ci_matrixel matrix", out, M, orb=case["orb"], el=case["el"], complex=cplx, herm=herm, layout=lay)
            ctx.outcome(M)
        if na + nb <= 6:
            # the spin-orbital route on the same state and Hamiltonian
            h, I = ci.spin_orbital(*H)
            g = [cu.Dstring(na + nb, ci.occ_of(a, na) + ci.occ_of(b, nb)) for a, b in dets]
            out2 = numpy.array([[cu.gci_matrixel(x, y, h, I, const) for y in g] for x in g])
            ctx.same("spin-orbital route", out2, out, orb=case["orb"], el=case["el"])
