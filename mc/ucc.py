"""Shared exploration for unrestricted and restricted amplitude equations."""
import itertools

import numpy
import scipy.sparse

from mc import fock
from mc import spin
from mc import tensors as tn


class UUnits(object):
    """All unit spin-blocked Hamiltonians with containers and the sparse map to
    the spin-orbital Hamiltonian."""

    def __init__(self, sh, containers=True):
        self.sh = sh
        self.labels = list(sh.unit_H_labels())
        self.blocks = []
        rows = []
        for lab in self.labels:
            H = sh.unit_H(lab)
            if containers:
                self.blocks.append(spin.ublocks(sh, *H))
            rows.append(flat(sh.F(*H[:2]), sh.I(*H[2:])))
        self.M = scipy.sparse.csr_matrix(scipy.sparse.vstack(rows))

    def project(self, G):
        """-> [unit, mu]"""
        m = G[0].shape[0]
        X = numpy.concatenate((G[0].reshape(m, -1), 0.25*G[1].reshape(m, -1)), axis=1)
        return self.M.dot(X.T)


def flat(f, I):
    return scipy.sparse.csr_matrix(numpy.concatenate((f.ravel(), I.ravel()))[None])


def ublocks_of(sh, S, D):
    """spin blocks of spin-orbital residuals"""
    return ((sh.cut(S, 'vo', 'aa'), sh.cut(S, 'vo', 'bb')),
            (sh.cut(D, 'vvoo', 'aaaa'), sh.cut(D, 'vvoo', 'abab'), sh.cut(D, 'vvoo', 'bbbb')))


def ulblocks_of(sh, S, D):
    S = S.T
    D = D.transpose(2, 3, 0, 1)
    return ((sh.cut(S, 'ov', 'aa'), sh.cut(S, 'ov', 'bb')),
            (sh.cut(D, 'oovv', 'aaaa'), sh.cut(D, 'oovv', 'abab'), sh.cut(D, 'oovv', 'bbbb')))


UNAMES = (("singles a", "singles b"), ("doubles aa", "doubles ab", "doubles bb"))


def compare(ctx, fn, out, ref, scale=None, rtol=1e-9, **d):
    if not ctx.check(len(out) == 2 and len(out[0]) == 2 and len(out[1]) == 3, fn + " result structure", **d):
        return
    for k in (0, 1):
        for nm, a, b in zip(UNAMES[k], out[k], ref[k]):
            ctx.same(fn + " " + nm, a, b, scale=scale, rtol=rtol, **d)


# ---------------------------------------------------------------- restricted
class RUnits(object):
    """Unit spatial Hamiltonians: f_pq, and I_pqrs with I_pqrs = I_qpsr only."""

    def __init__(self, no, nv):
        n = no + nv
        self.no, self.nv, self.n = no, nv, n
        self.sh = spin.shape(no, nv, no, nv)
        self.labels = [('f', p, q) for p in range(n) for q in range(n)]
        seen = set()
        for x in itertools.product(range(n), repeat=4):
            y = (x[1], x[0], x[3], x[2])
            if y in seen:
                continue
            seen.add(x)
            self.labels.append(('I',) + x)
        self.blocks = []
        rows = []
        for lab in self.labels:
            f, I = self.unit(lab)
            self.blocks.append((tn.oblocks(f, no), tn.tblocks(I, no, full=True)))
            rows.append(flat(*embed_H(self.sh, f, I)))
        self.M = scipy.sparse.csr_matrix(scipy.sparse.vstack(rows))

    def unit(self, lab):
        n = self.n
        f = numpy.zeros((n, n))
        I = numpy.zeros((n,)*4)
        if lab[0] == 'f':
            f[lab[1:]] = 1
        else:
            _, p, q, r, s = lab
            I[p, q, r, s] = 1
            I[q, p, s, r] = 1
        return f, I

    project = UUnits.project


def embed_H(sh, f, I):
    Ia = I - I.transpose(0, 1, 3, 2)
    return sh.F(f, f), sh.I(Ia, Ia, I)


def embed_T(sh, T1, T2):
    aa = T2 - T2.transpose(0, 1, 3, 2)
    return sh.T1(T1, T1), sh.T2(aa, T2, aa)


def embed_L(sh, L1, L2):
    aa = L2 - L2.transpose(0, 1, 3, 2)
    return sh.L1(L1, L1), sh.L2(aa, L2, aa)


def rvars(no, nv):
    out = [('s', a, i) for a in range(nv) for i in range(no)]
    seen = set()
    for a, b, i, j in itertools.product(range(nv), range(nv), range(no), range(no)):
        if (b, a, j, i) in seen:
            continue
        seen.add((a, b, i, j))
        out.append(('d', a, b, i, j))
    return out


def ramps(point, no, nv, unit=1.0, dtype=float):
    T1 = numpy.zeros((nv, no), dtype)
    T2 = numpy.zeros((nv, nv, no, no), dtype)
    for v, m in point.items():
        if v[0] == 's':
            T1[v[1:]] = m*unit
        else:
            _, a, b, i, j = v
            T2[a, b, i, j] = m*unit
            T2[b, a, j, i] = m*unit
    return T1, T2


def rdense(no, nv, k, cplx=False):
    n = no + nv
    f = tn.weyl((n, n), k, cplx)
    I = tn.weyl((n,)*4, k + 1, cplx)
    return f, I + I.transpose(1, 0, 3, 2)


def rdense_T(no, nv, k, cplx=False):
    T2 = tn.weyl((nv, nv, no, no), k + 1, cplx)
    return tn.weyl((nv, no), k, cplx), T2 + T2.transpose(1, 0, 3, 2)


def rdense_L(no, nv, k, cplx=False):
    L2 = tn.weyl((no, no, nv, nv), k + 1, cplx)
    return tn.weyl((no, nv), k, cplx), L2 + L2.transpose(1, 0, 3, 2)


def relayout(objs, lay):
    """apply a storage layout to containers, arrays and (nested) tuples"""
    return [tn.rebuild(o, lambda x: tn.layout(x, lay)) for o in objs]
