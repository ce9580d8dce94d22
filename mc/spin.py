"""Independent alpha/beta <-> spin-orbital embedding used by the reference model.

Spin-orbital order: occupied alpha, occupied beta, virtual alpha, virtual beta.
"""
import functools
import itertools

import numpy

from mc import fock
from mc.tensors import weyl, asym


class Shape(object):
    def __init__(self, noa, nva, nob, nvb):
        self.noa, self.nva, self.nob, self.nvb = noa, nva, nob, nvb
        self.no = noa + nob
        self.nv = nva + nvb
        self.n = self.no + self.nv
        self.na = noa + nva
        self.nb = nob + nvb
        # spatial index (occ first) -> spin orbital
        self.A = list(range(noa)) + [self.no + a for a in range(nva)]
        self.B = [noa + i for i in range(nob)] + [self.no + nva + a for a in range(nvb)]

    @property
    def key(self):
        return (self.noa, self.nva, self.nob, self.nvb)

    def space(self):
        return fock.space(self.no, self.nv)

    # occupied/virtual *block* index lists in the spin-orbital o and v spaces
    @property
    def oa(self):
        return list(range(self.noa))

    @property
    def ob(self):
        return [self.noa + i for i in range(self.nob)]

    @property
    def va(self):
        return list(range(self.nva))

    @property
    def vb(self):
        return [self.nva + i for i in range(self.nvb)]

    # -- embedding ----------------------------------------------------------
    def F(self, fa, fb):
        f = numpy.zeros((self.n,)*2, dtype=numpy.result_type(fa, fb))
        f[numpy.ix_(self.A, self.A)] = fa
        f[numpy.ix_(self.B, self.B)] = fb
        return f

    def I(self, Ia, Ib, Iab):
        """antisymmetric spin-orbital integrals from same-spin antisymmetric and
        opposite-spin plain ones"""
        X = numpy.zeros((self.n,)*4, dtype=numpy.result_type(Ia, Ib, Iab))
        A, B = self.A, self.B
        X[numpy.ix_(A, A, A, A)] = Ia
        X[numpy.ix_(B, B, B, B)] = Ib
        X[numpy.ix_(A, B, A, B)] = Iab
        X[numpy.ix_(B, A, B, A)] = Iab.transpose(1, 0, 3, 2)
        X[numpy.ix_(A, B, B, A)] = -Iab.transpose(0, 1, 3, 2)
        X[numpy.ix_(B, A, A, B)] = -Iab.transpose(1, 0, 2, 3)
        return X

    def T1(self, ta, tb):
        X = numpy.zeros((self.nv, self.no), dtype=numpy.result_type(ta, tb))
        X[numpy.ix_(self.va, self.oa)] = ta
        X[numpy.ix_(self.vb, self.ob)] = tb
        return X

    def T2(self, aa, ab, bb):
        X = numpy.zeros((self.nv, self.nv, self.no, self.no), dtype=numpy.result_type(aa, ab, bb))
        return self._four(X, aa, ab, bb, (self.va, self.vb), (self.oa, self.ob))

    def L1(self, la, lb):
        X = numpy.zeros((self.no, self.nv), dtype=numpy.result_type(la, lb))
        X[numpy.ix_(self.oa, self.va)] = la
        X[numpy.ix_(self.ob, self.vb)] = lb
        return X

    def L2(self, aa, ab, bb):
        X = numpy.zeros((self.no, self.no, self.nv, self.nv), dtype=numpy.result_type(aa, ab, bb))
        return self._four(X, aa, ab, bb, (self.oa, self.ob), (self.va, self.vb))

    @staticmethod
    def _four(X, aa, ab, bb, P, Q):
        ix = numpy.ix_
        X[ix(P[0], P[0], Q[0], Q[0])] = aa
        X[ix(P[1], P[1], Q[1], Q[1])] = bb
        X[ix(P[0], P[1], Q[0], Q[1])] = ab
        X[ix(P[1], P[0], Q[1], Q[0])] = ab.transpose(1, 0, 3, 2)
        X[ix(P[0], P[1], Q[1], Q[0])] = -ab.transpose(0, 1, 3, 2)
        X[ix(P[1], P[0], Q[0], Q[1])] = -ab.transpose(1, 0, 2, 3)
        return X

    # -- extraction: spins is a string like 'ab' or 'abab', classes like 'vo' --
    def cut(self, X, classes, spins):
        """block of an array whose axes run over the o or v spin-orbital spaces"""
        sets = {('o', 'a'): self.oa, ('o', 'b'): self.ob, ('v', 'a'): self.va, ('v', 'b'): self.vb}
        return X[numpy.ix_(*[sets[(c, s)] for c, s in zip(classes, spins)])]

    def cut_full(self, X, classes, spins):
        """same for an array whose axes run over all spin orbitals"""
        sets = {('o', 'a'): self.oa, ('o', 'b'): self.ob,
                ('v', 'a'): [self.no + x for x in self.va], ('v', 'b'): [self.no + x for x in self.vb]}
        return X[numpy.ix_(*[sets[(c, s)] for c, s in zip(classes, spins)])]

    # -- dense inputs -------------------------------------------------------
    def dense_H(self, k, cplx=False):
        na, nb = self.na, self.nb
        fa, fb = weyl((na, na), k, cplx), weyl((nb, nb), k + 1, cplx)
        Ia, Ib = asym(weyl((na,)*4, k + 2, cplx)), asym(weyl((nb,)*4, k + 3, cplx))
        Iab = weyl((na, nb, na, nb), k + 4, cplx)
        return fa, fb, Ia, Ib, Iab

    def dense_T(self, k, cplx=False):
        noa, nva, nob, nvb = self.key
        return (weyl((nva, noa), k, cplx), weyl((nvb, nob), k + 1, cplx)), (
            asym(weyl((nva, nva, noa, noa), k + 2, cplx)), weyl((nva, nvb, noa, nob), k + 3, cplx),
            asym(weyl((nvb, nvb, nob, nob), k + 4, cplx)))

    def dense_L(self, k, cplx=False):
        (a, b), (aa, ab, bb) = self.dense_T(k, cplx)
        tr = lambda x: numpy.ascontiguousarray(x.transpose(2, 3, 0, 1))
        return (a.T.copy(), b.T.copy()), (tr(aa), tr(ab), tr(bb))

    # -- unit inputs --------------------------------------------------------
    def unit_H_labels(self):
        na, nb = self.na, self.nb
        for p in range(na):
            for q in range(na):
                yield ('fa', p, q)
        for p in range(nb):
            for q in range(nb):
                yield ('fb', p, q)
        for nm, n in (('Ia', na), ('Ib', nb)):
            pr = list(itertools.combinations(range(n), 2))
            for p, q in pr:
                for r, s in pr:
                    yield (nm, p, q, r, s)
        for p, q, r, s in itertools.product(range(na), range(nb), range(na), range(nb)):
            yield ('Iab', p, q, r, s)

    def unit_H(self, lab, dtype=float):
        na, nb = self.na, self.nb
        d = {'fa': numpy.zeros((na, na), dtype), 'fb': numpy.zeros((nb, nb), dtype),
             'Ia': numpy.zeros((na,)*4, dtype), 'Ib': numpy.zeros((nb,)*4, dtype),
             'Iab': numpy.zeros((na, nb, na, nb), dtype)}
        X = d[lab[0]]
        ix = lab[1:]
        X[ix] = 1
        if lab[0] in ('Ia', 'Ib'):
            p, q, r, s = ix
            X[q, p, s, r] = 1
            X[q, p, r, s] = -1
            X[p, q, s, r] = -1
        return d['fa'], d['fb'], d['Ia'], d['Ib'], d['Iab']

    def amp_vars(self):
        noa, nva, nob, nvb = self.key
        out = [('sa', a, i) for a in range(nva) for i in range(noa)]
        out += [('sb', a, i) for a in range(nvb) for i in range(nob)]
        out += [('daa', a, b, i, j) for a, b in itertools.combinations(range(nva), 2)
                for i, j in itertools.combinations(range(noa), 2)]
        out += [('dbb', a, b, i, j) for a, b in itertools.combinations(range(nvb), 2)
                for i, j in itertools.combinations(range(nob), 2)]
        out += [('dab', a, b, i, j) for a in range(nva) for b in range(nvb)
                for i in range(noa) for j in range(nob)]
        return out

    def amps_from(self, point, dtype=float):
        noa, nva, nob, nvb = self.key
        d = {'sa': numpy.zeros((nva, noa), dtype), 'sb': numpy.zeros((nvb, nob), dtype),
             'daa': numpy.zeros((nva, nva, noa, noa), dtype), 'dbb': numpy.zeros((nvb, nvb, nob, nob), dtype),
             'dab': numpy.zeros((nva, nvb, noa, nob), dtype)}
        for v, m in point.items():
            X = d[v[0]]
            X[v[1:]] = m
            if v[0] in ('daa', 'dbb'):
                a, b, i, j = v[1:]
                X[b, a, j, i] = m
                X[b, a, i, j] = -m
                X[a, b, j, i] = -m
        return (d['sa'], d['sb']), (d['daa'], d['dab'], d['dbb'])

    def lams_from(self, point, dtype=float):
        (a, b), (aa, ab, bb) = self.amps_from(point, dtype)
        tr = lambda x: numpy.ascontiguousarray(x.transpose(2, 3, 0, 1))
        return (a.T.copy(), b.T.copy()), (tr(aa), tr(ab), tr(bb))

    def sT(self, T1, T2):
        return self.T1(*T1), self.T2(*T2)

    def sL(self, L1, L2):
        return self.L1(*L1), self.L2(*L2)


def weight(v):
    return 1 if v[0][0] == 's' else 2


@functools.lru_cache(maxsize=None)
def shape(noa, nva, nob, nvb):
    return Shape(noa, nva, nob, nvb)


def bi(f, no):
    from mc.tensors import oblocks
    return oblocks(f, no)


def ublocks(sh, fa, fb, Ia, Ib, Iab, full_same=True):
    """Library containers for the unrestricted functions."""
    from cqcpy.ov_blocks import two_e_blocks_full, two_e_blocks
    from mc.tensors import NAMES16, NAMES9, blk, oblocks
    noa, nob = sh.noa, sh.nob
    oA, vA = slice(0, noa), slice(noa, None)
    oB, vB = slice(0, nob), slice(nob, None)
    Fa, Fb = oblocks(fa, noa), oblocks(fb, nob)
    BA = two_e_blocks(**{k: blk(Ia, k, [oA]*4, [vA]*4) for k in NAMES9})
    BB = two_e_blocks(**{k: blk(Ib, k, [oB]*4, [vB]*4) for k in NAMES9})
    BM = two_e_blocks_full(**{k: blk(Iab, k, [oA, oB, oA, oB], [vA, vB, vA, vB]) for k in NAMES16})
    return Fa, Fb, BA, BB, BM
