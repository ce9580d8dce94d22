"""Reference model for determinants, CI Hamiltonians and moves (dense matrices
over particle-number sectors, built from elementary ladder operators)."""
import functools
import itertools

import numpy

from mc import fock


def occ_of(mask, n):
    return [mask >> p & 1 for p in range(n)]


def mask_of(occ):
    return sum(1 << p for p, x in enumerate(occ) if x)


def occs(n, N=None):
    """all occupation lists, optionally with N electrons"""
    for m in range(1 << n):
        if N is None or fock.popcount(m) == N:
            yield occ_of(m, n)


def move(mask, i, a):
    """a+ i |mask> -> (sign, mask) or None"""
    return fock.apply_ops([('c', a), ('a', i)], mask)


class Sector(object):
    """list of determinants (bit masks over n spin orbitals) closed or not"""

    def __init__(self, n, dets):
        self.n = n
        self.dets = list(dets)
        self.index = {d: k for k, d in enumerate(self.dets)}
        self.all = fock.sector(n, fock.popcount(self.dets[0])) if self.dets else ()
        ia = {d: k for k, d in enumerate(self.all)}
        d = len(self.all)
        E = numpy.zeros((n, n, d, d))
        for k, det in enumerate(self.all):
            for p in range(n):
                for q in range(n):
                    r = move(det, q, p)
                    if r is not None:
                        E[p, q, ia[r[1]], k] = r[0]
        self.E = E
        self.ia = ia

    def gen(self, bra, ket):
        """G1[p,q] = <bra|p+q|ket>, G2[p,q,r,s] = <bra|p+q+ s r|ket>"""
        b, k = self.ia[bra], self.ia[ket]
        B = self.E[:, :, b, :]
        K = self.E[:, :, :, k]
        G1 = self.E[:, :, b, k]
        G2 = numpy.tensordot(B, K, axes=(2, 2)).transpose(0, 2, 1, 3)
        G2 = G2 - numpy.einsum('qr,ps->pqrs', numpy.eye(self.n), G1)
        return G1, G2

    def H(self, h, I, const):
        """const + h p+q + 1/2 I p+q+ s r over self.all"""
        n = self.n
        d = len(self.all)
        M = numpy.tensordot(h, self.E, axes=2)
        X = numpy.einsum('pqrs,qsyz->pryz', I, self.E)
        Y = numpy.einsum('prxy,pryz->xz', self.E, X, optimize=True)
        M = M + 0.5*Y - 0.5*numpy.tensordot(numpy.einsum('pqqs->ps', I), self.E, axes=2)
        return M + const*numpy.eye(d)


@functools.lru_cache(maxsize=None)
def sector(n, N):
    return Sector(n, fock.sector(n, N))


def spin_orbital(ha, hb, Ia, Ib, Iab):
    """plain (not antisymmetrized) spin-orbital integrals, alpha orbitals first"""
    na, nb = ha.shape[0], hb.shape[0]
    n = na + nb
    A, B = slice(0, na), slice(na, n)
    h = numpy.zeros((n, n), dtype=numpy.result_type(ha, hb))
    h[A, A], h[B, B] = ha, hb
    I = numpy.zeros((n,)*4, dtype=numpy.result_type(Ia, Ib, Iab))
    I[A, A, A, A] = Ia
    I[B, B, B, B] = Ib
    I[A, B, A, B] = Iab
    I[B, A, B, A] = Iab.transpose(1, 0, 3, 2)
    return h, I


def pair_units(n):
    """classes of (p,q,r,s) under exchange of the two electrons"""
    seen = set()
    for x in itertools.product(range(n), repeat=4):
        y = (x[1], x[0], x[3], x[2])
        if y not in seen:
            seen.add(x)
            yield x, y
