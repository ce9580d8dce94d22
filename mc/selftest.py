"""Self-test of the reference model: run by the setup command, independent of /repo.

The model in mc.fock works with bit masks inside one electron-number sector and
obtains normal ordering from contractions. Here the same quantities are built in
another way: Jordan-Wigner matrices of all ladder operators on the whole Fock
space (Kronecker products), normal ordering by sorting quasi-particle operators,
the exponential by scipy, and derivatives by differencing.
"""
import itertools
import sys

import numpy
import scipy.linalg

from mc import fock
from mc import tensors as tn

COUNT = [0]


def need(ok, what, *d):
    COUNT[0] += 1
    if not ok:
        sys.exit("reference model self-test failed: %s %s" % (what, d))


def ladder(n):
    """annihilation operators as Kronecker products; orbital 0 is the lowest bit"""
    a = numpy.array([[0.0, 1.0], [0.0, 0.0]])
    z = numpy.diag([1.0, -1.0])
    out = []
    for p in range(n):
        M = numpy.eye(1)
        for q in reversed(range(n)):
            M = numpy.kron(M, a if q == p else z if q < p else numpy.eye(2))
        out.append(M)
    return out


def normal(ops, occ, A):
    """normal-ordered product of [(dagger, p), ...]: quasi-particle creators first"""
    def creator(o):
        return o[0] != (o[1] in occ)
    order = sorted(range(len(ops)), key=lambda k: (not creator(ops[k]), k))
    s = 1
    for i, j in itertools.combinations(range(len(order)), 2):
        if order[i] > order[j]:
            s = -s
    M = numpy.eye(len(A[0]))
    for k in order:
        d, p = ops[k]
        M = M.dot(A[p].T if d else A[p])
    return s*M


def main():
    # strings: anticommutation relations on every determinant
    for n in range(1, 6):
        A = ladder(n)
        for det in range(1 << n):
            for p in range(n):
                r = fock.annihilate(p, det)
                col = A[p][:, det]
                need((r is None and not col.any()) or (r is not None and col[r[1]] == r[0] and numpy.count_nonzero(col) == 1), "annihilate", n, det, p)
                r = fock.create(p, det)
                col = A[p].T[:, det]
                need((r is None and not col.any()) or (r is not None and col[r[1]] == r[0] and numpy.count_nonzero(col) == 1), "create", n, det, p)
        for p, q in itertools.product(range(n), repeat=2):
            need(numpy.array_equal(A[p].dot(A[q].T) + A[q].T.dot(A[p]), (p == q)*numpy.eye(1 << n)), "anticommutator", n, p, q)
            need(not (A[p].dot(A[q]) + A[q].dot(A[p])).any(), "anticommutator", n, p, q)
    for no, nv in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        n = no + nv
        S = fock.space(no, nv)
        A = ladder(n)
        o, v = range(no), range(no, n)
        ref = numpy.zeros(1 << n)
        ref[(1 << no) - 1] = 1.0
        anti = lambda X: X - X.transpose(1, 0, 2, 3) - X.transpose(0, 1, 3, 2) + X.transpose(1, 0, 3, 2)
        f = tn.weyl((n, n), 1)
        I = anti(tn.weyl((n,)*4, 2))
        T1, T2 = tn.weyl((nv, no), 3), anti(tn.weyl((nv, nv, no, no), 4))
        L1, L2 = tn.weyl((no, nv), 5), anti(tn.weyl((no, no, nv, nv), 6))
        N1 = {(p, q): normal([(True, p), (False, q)], set(o), A) for p, q in itertools.product(range(n), repeat=2)}
        N2 = {k: normal([(True, k[0]), (True, k[1]), (False, k[3]), (False, k[2])], set(o), A)
              for k in itertools.product(range(n), repeat=4)}
        H = sum(f[k]*M for k, M in N1.items()) + 0.25*sum(I[k]*M for k, M in N2.items())

        def cluster(t1, t2):
            M = numpy.zeros_like(H)
            for a, i in itertools.product(range(nv), range(no)):
                M += t1[a, i]*A[no + a].T.dot(A[i])
            for a, b, i, j in itertools.product(range(nv), range(nv), range(no), range(no)):
                M += 0.25*t2[a, b, i, j]*A[no + a].T.dot(A[no + b].T).dot(A[j]).dot(A[i])
            return M

        def hbar(t1, t2):
            T = cluster(t1, t2)
            return scipy.linalg.expm(-T).dot(H).dot(scipy.linalg.expm(T))

        def lag(t1, t2):
            L = cluster(L1.T, L2.transpose(2, 3, 0, 1)).T
            return (ref + ref.dot(L)).dot(hbar(t1, t2)).dot(ref)

        Hb = hbar(T1, T2).dot(ref)
        R1 = numpy.array([[ref.dot(A[i].T).dot(A[a]).dot(Hb) for i in o] for a in v])
        R2 = numpy.array([[[[ref.dot(A[i].T).dot(A[j].T).dot(A[b]).dot(A[a]).dot(Hb) for j in o] for i in o] for b in v] for a in v])
        s, d = S.unpack(fock.contract(S.residual_gen(T1, T2), f, I))
        need(numpy.allclose(s, R1, atol=1e-11), "singles residual", no, nv)
        need(numpy.allclose(d, R2, atol=1e-11), "doubles residual", no, nv)
        e = S.energy_gen(T1, T2)
        need(abs(numpy.sum(e[0]*f) + 0.25*numpy.sum(e[1]*I) - ref.dot(Hb)) < 1e-11, "energy", no, nv)
        T = cluster(T1, T2)
        bra = (ref + ref.dot(cluster(L1.T, L2.transpose(2, 3, 0, 1)).T)).dot(scipy.linalg.expm(-T))
        ket = scipy.linalg.expm(T).dot(ref)
        D1, D2 = S.density(T1, T2, L1, L2)
        need(all(abs(D1[k] - bra.dot(M).dot(ket)) < 1e-11 for k, M in N1.items()), "one-particle density", no, nv)
        need(all(abs(D2[k] - bra.dot(M).dot(ket)) < 1e-11 for k, M in N2.items()), "two-particle density", no, nv)
        # the Lagrangian has degree <= 4 in one amplitude: five points differentiate exactly
        s, d = S.unpack(fock.contract(S.lambda_gen(T1, T2, L1, L2), f, I))
        h = 0.5
        for a, i in itertools.product(range(nv), range(no)):
            x = []
            for k in (-2, -1, 1, 2):
                t = T1.copy()
                t[a, i] += k*h
                x.append(lag(t, T2))
            need(abs((x[0] - 8*x[1] + 8*x[2] - x[3])/(12*h) - s[a, i]) < 1e-9, "Lambda singles", no, nv, a, i)
        for a, b in itertools.combinations(range(nv), 2):
            for i, j in itertools.combinations(range(no), 2):
                x = []
                for k in (-2, -1, 1, 2):
                    u = numpy.zeros_like(T2)
                    u[a, b, i, j] = u[b, a, j, i] = k*h
                    u[b, a, i, j] = u[a, b, j, i] = -k*h
                    x.append(lag(T1, T2 + u))
                need(abs((x[0] - 8*x[1] + 8*x[2] - x[3])/(12*h) - d[a, b, i, j]) < 1e-9, "Lambda doubles", no, nv, a, b, i, j)
    print("reference model self-test: %d comparisons agree" % COUNT[0])


if __name__ == "__main__":
    main()
