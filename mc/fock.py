"""Second-quantization reference model.

Written from the definitions; shares nothing with the code under test.
Spin orbitals are numbered 0..n-1, a determinant is a bit mask, and the
canonical order of creation operators is ascending orbital number.
"""
import functools
import itertools

import numpy


def popcount(x):
    return bin(x).count("1")


def annihilate(p, det):
    """a_p |det> -> (sign, det') or None"""
    if not det >> p & 1:
        return None
    s = -1 if popcount(det & ((1 << p) - 1)) & 1 else 1
    return s, det ^ (1 << p)


def create(p, det):
    if det >> p & 1:
        return None
    s = -1 if popcount(det & ((1 << p) - 1)) & 1 else 1
    return s, det | (1 << p)


def apply_ops(ops, det):
    """ops is a list of ('c'|'a', orbital) written left to right."""
    s = 1
    for kind, p in reversed(ops):
        r = create(p, det) if kind == 'c' else annihilate(p, det)
        if r is None:
            return None
        s *= r[0]
        det = r[1]
    return s, det


@functools.lru_cache(maxsize=None)
def sector(n, N):
    """All determinants with N electrons in n orbitals."""
    dets = [sum(1 << p for p in c) for c in itertools.combinations(range(n), N)]
    dets.sort()
    return tuple(dets)


class Space(object):
    """N-electron sector with a reference determinant (occupied list)."""

    def __init__(self, n, occ):
        self.n = n
        self.occ = list(occ)
        self.vir = [p for p in range(n) if p not in set(occ)]
        self.N = len(self.occ)
        self.dets = sector(n, self.N)
        self.index = {d: k for k, d in enumerate(self.dets)}
        d = len(self.dets)
        self.dim = d
        E = numpy.zeros((n, n, d, d))
        for k, det in enumerate(self.dets):
            for p in range(n):
                for q in range(n):
                    r = apply_ops([('c', p), ('a', q)], det)
                    if r is not None:
                        E[p, q, self.index[r[1]], k] = r[0]
        self.E = E
        self.ref = sum(1 << p for p in self.occ)
        self.v0 = numpy.zeros(d)
        self.v0[self.index[self.ref]] = 1.0
        self.nocc = numpy.zeros(n)
        self.nocc[self.occ] = 1.0
        o, v = self.occ, self.vir
        self.Eai = E[numpy.ix_(v, o)]          # excitations   [a,i]
        self.Eia = E[numpy.ix_(o, v)]          # deexcitations [i,a]

    # -- operators ----------------------------------------------------------
    def Tmat(self, T1=None, T2=None):
        """sum t1[a,i] a+i + 1/4 sum t2[a,b,i,j] a+b+ j i"""
        dt = numpy.result_type(*[x for x in (T1, T2) if x is not None] + [numpy.float64])
        M = numpy.zeros((self.dim, self.dim), dtype=dt)
        if T1 is not None:
            M = M + numpy.einsum('ai,aixy->xy', T1, self.Eai)
        if T2 is not None and T2.size:
            X = numpy.einsum('abij,bjyz->aiyz', T2, self.Eai)
            M = M + 0.25*numpy.einsum('aixy,aiyz->xz', self.Eai, X)
        return M

    def Lmat(self, L1=None, L2=None):
        """sum l1[i,a] i+a + 1/4 sum l2[i,j,a,b] i+j+ b a"""
        dt = numpy.result_type(*[x for x in (L1, L2) if x is not None] + [numpy.float64])
        M = numpy.zeros((self.dim, self.dim), dtype=dt)
        if L1 is not None:
            M = M + numpy.einsum('ia,iaxy->xy', L1, self.Eia)
        if L2 is not None and L2.size:
            X = numpy.einsum('ijab,jbyz->iayz', L2, self.Eia)
            M = M + 0.25*numpy.einsum('iaxy,iayz->xz', self.Eia, X)
        return M

    def exp(self, M):
        """Exponential of a nilpotent matrix (cluster operator)."""
        X = numpy.eye(self.dim, dtype=M.dtype)
        Y = X
        for k in range(1, self.N + 1):
            Y = Y.dot(M)/k
            X = X + Y
        return X

    def _H(self, f, I):
        """Normal-ordered Hamiltonian matrix sum f{p+q} + 1/4 I{p+q+sr}."""
        n = self.n
        g = f - numpy.einsum('pqrs,qs,q->pr', I, numpy.eye(n), self.nocc)  # remove mean field of I
        e0 = (f.diagonal()*self.nocc).sum()
        e0 = e0 - 0.5*numpy.einsum('pqpq,p,q->', I, self.nocc, self.nocc)
        M = numpy.einsum('pr,prxy->xy', g, self.E)
        # 1/4 I p+q+sr = 1/4 I (E_pr E_qs - d_qr E_ps)
        X = numpy.einsum('pqrs,qsyz->pryz', I, self.E)
        M = M + 0.25*numpy.einsum('prxy,pryz->xz', self.E, X)
        M = M - 0.25*numpy.einsum('pqqs,psxy->xy', I, self.E)
        return M - e0*numpy.eye(self.dim)

    # -- expectation values of normal-ordered strings -----------------------
    def expect(self, bras, ket):
        """bras [m,d], ket [d] -> D1[m,p,q] = <m|{p+q}|ket>,
        D2[m,p,q,r,s] = <m|{p+q+ s r}|ket>"""
        n = self.n
        E = self.E
        d = self.nocc
        eye = numpy.eye(n)
        Y = E.dot(ket)                                   # [q,s,x]
        G1 = numpy.einsum('mx,pqx->mpq', bras, Y)
        B = numpy.einsum('mx,prxy->mpry', bras, E)
        G2 = numpy.einsum('mpry,qsy->mpqrs', B, Y)
        G2 = G2 - numpy.einsum('qr,mps->mpqrs', eye, G1)
        nrm = bras.dot(ket)
        dn = numpy.diag(d)
        N1 = G1 - numpy.einsum('pq,m->mpq', dn, nrm)
        N2 = G2
        N2 = N2 - numpy.einsum('pr,mqs->mpqrs', dn, N1)
        N2 = N2 + numpy.einsum('ps,mqr->mpqrs', dn, N1)
        N2 = N2 + numpy.einsum('qr,mps->mpqrs', dn, N1)
        N2 = N2 - numpy.einsum('qs,mpr->mpqrs', dn, N1)
        N2 = N2 - numpy.einsum('pr,qs,m->mpqrs', dn, dn, nrm)
        N2 = N2 + numpy.einsum('ps,qr,m->mpqrs', dn, dn, nrm)
        return N1, N2

    # -- excited projections ------------------------------------------------
    @functools.cached_property
    def singles(self):
        """list of ((a,i), vector) with block indices"""
        out = []
        for a in range(len(self.vir)):
            for i in range(len(self.occ)):
                out.append(((a, i), self.Eai[a, i]))
        return out

    @functools.cached_property
    def doubles(self):
        out = []
        for a, b in itertools.combinations(range(len(self.vir)), 2):
            for i, j in itertools.combinations(range(len(self.occ)), 2):
                out.append(((a, b, i, j), self.Eai[a, i].dot(self.Eai[b, j])))
        return out

    @functools.cached_property
    def mu(self):
        return self.singles + self.doubles

    def unpack(self, vec, dtype=None):
        """vector over mu (leading axis) -> (S[a,i,...], D[a,b,i,j,...])"""
        nv, no = len(self.vir), len(self.occ)
        vec = numpy.asarray(vec)
        rest = vec.shape[1:]
        S = numpy.zeros((nv, no) + rest, dtype=vec.dtype)
        D = numpy.zeros((nv, nv, no, no) + rest, dtype=vec.dtype)
        k = 0
        for (ix, _) in self.singles:
            S[ix] = vec[k]
            k += 1
        for (ix, _) in self.doubles:
            a, b, i, j = ix
            D[a, b, i, j] = vec[k]
            D[b, a, j, i] = vec[k]
            D[b, a, i, j] = -vec[k]
            D[a, b, j, i] = -vec[k]
            k += 1
        return S, D

    # -- the quantities -----------------------------------------------------
    def residual_gen(self, T1, T2):
        """Generators of the residual: for all mu, <mu|e^-T {..} e^T|0>.
        Returns (G1[m,p,q], G2[m,p,q,r,s]) with residual = f.G1 + 1/4 I.G2"""
        T = self.Tmat(T1, T2)
        ket = self.exp(T).dot(self.v0)
        em = self.exp(-T)
        bras = numpy.array([(m.dot(self.v0)).dot(em) for _, m in self.mu])
        if not len(bras):
            bras = numpy.zeros((0, self.dim))
        return self.expect(bras, ket)

    def energy_gen(self, T1, T2):
        ket = self.exp(self.Tmat(T1, T2)).dot(self.v0)
        a, b = self.expect(self.v0[None], ket)
        return a[0], b[0]

    def left(self, T1, T2, L1, L2, one=1.0):
        """<0|(one + L) e^-T as a row vector"""
        em = self.exp(-self.Tmat(T1, T2))
        row = one*self.v0 + self.v0.dot(self.Lmat(L1, L2))
        return row.dot(em)

    def density(self, T1, T2, L1, L2, one=1.0):
        ket = self.exp(self.Tmat(T1, T2)).dot(self.v0)
        bra = self.left(T1, T2, L1, L2, one)
        a, b = self.expect(bra[None], ket)
        return a[0], b[0]

    def lambda_gen(self, T1, T2, L1, L2):
        """<bra|{..} tau_mu|ket> - <bra|tau_mu {..}|ket> for all mu"""
        ket = self.exp(self.Tmat(T1, T2)).dot(self.v0)
        bra = self.left(T1, T2, L1, L2)
        G1 = []
        G2 = []
        tb = numpy.array([bra.dot(m) for _, m in self.mu])
        if not len(tb):
            return numpy.zeros((0,) + (self.n,)*2), numpy.zeros((0,) + (self.n,)*4)
        B1, B2 = self.expect(tb, ket)
        for k, (_, m) in enumerate(self.mu):
            a, b = self.expect(bra[None], m.dot(ket))
            G1.append(a[0] - B1[k])
            G2.append(b[0] - B2[k])
        return numpy.array(G1), numpy.array(G2)


@functools.lru_cache(maxsize=None)
def space(no, nv):
    """Spin-orbital space: occupied 0..no-1, virtual no..no+nv-1."""
    return Space(no + nv, range(no))


def contract(G, f, I):
    """residual-like vector from generators and Hamiltonian"""
    G1, G2 = G
    return numpy.einsum('mpq,pq->m', G1, f) + 0.25*numpy.einsum('mpqrs,pqrs->m', G2, I)
