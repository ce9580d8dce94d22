"""Reference integrals and tiny systems for the integral checks."""
import functools
import itertools

import numpy

from mc import tensors as tn

MOLS = {
    "heh": dict(atom="He 0 0 0; H 0.1 0.2 0.8", basis="6-31g", charge=1),       # 4 AOs, no symmetry
    "he": dict(atom="He 0 0 0", basis="6-31g"),                                  # 2 AOs
    "h3": dict(atom="H 0 0 0; H 0.2 0.9 0.1; H -0.4 0.3 1.1", basis="sto-3g", charge=1),  # 3 AOs
    "hf": dict(atom="H 0 0 0; F 0.1 0.3 0.9", basis="6-31g"),                    # 11 AOs
    "hed": dict(atom="He 0 0 0; H 0.2 0.1 0.9", basis={"He": [[0, [1.1, 1.0]], [2, [0.7, 1.0]]], "H": [[0, [0.8, 1.0]]]}, charge=1, cart=True),  # 8 Cartesian AOs
    "h2": dict(atom="H 0 0 0; H 0.3 0.4 0.7", basis="sto-3g"),                  # 2 AOs
}


@functools.lru_cache(maxsize=None)
def mol(name):
    from pyscf import gto
    return gto.M(verbose=0, **MOLS[name])


@functools.lru_cache(maxsize=None)
def ao(name):
    m = mol(name)
    n = m.nao
    return m.intor("int2e").reshape((n,)*4)


@functools.lru_cache(maxsize=None)
def cell():
    from pyscf.pbc import gto
    c = gto.Cell()
    c.atom = "H 0 0 0; H 0.3 0.4 0.9"
    c.basis = "gth-szv"
    c.pseudo = "gth-pade"
    c.a = numpy.array([[3.0, 0.1, 0.0], [0.0, 3.2, 0.2], [0.3, 0.0, 2.7]])
    c.mesh = [5, 5, 5]
    c.verbose = 0
    c.build()
    return c


def chem(E, c1, c2, c3, c4):
    """(12|34): first and third orbitals conjugated"""
    X = numpy.tensordot(c1.conj(), E, axes=(0, 0))            # p n l s
    X = numpy.tensordot(X, c2, axes=(1, 0))                   # p l s q
    X = numpy.tensordot(X, c3.conj(), axes=(1, 0))            # p s q r
    X = numpy.tensordot(X, c4, axes=(1, 0))                   # p q r t
    return X


def chem_anti(E, c1, c2, c3, c4, Ex=None):
    Ex = E if Ex is None else Ex
    return chem(E, c1, c2, c3, c4) - chem(Ex, c1, c4, c3, c2).transpose(0, 3, 2, 1)


def phys(E, c1, c2, c3, c4):
    """<12|34> = (13|24)"""
    return chem(E, c1, c3, c2, c4).transpose(0, 2, 1, 3)


def phys_anti(E, c1, c2, c3, c4):
    """<12|34> - <12|43>"""
    return phys(E, c1, c2, c3, c4) - phys(E, c1, c2, c4, c3).transpose(0, 1, 3, 2)


def so_chem(E, O, P, anti):
    """spin-orbital (12|34), alpha columns first, from spin deltas"""
    S = (O, P)
    n = [(O[k].shape[1], P[k].shape[1]) for k in range(4)]
    X = numpy.zeros([a + b for a, b in n], dtype=complex)
    for s in itertools.product((0, 1), repeat=4):
        ix = tuple(slice(0, n[k][0]) if s[k] == 0 else slice(n[k][0], None) for k in range(4))
        C = [S[s[k]][k] for k in range(4)]
        if s[0] == s[1] and s[2] == s[3]:
            X[ix] += chem(E, *C)
        if anti and s[0] == s[3] and s[2] == s[1]:
            X[ix] -= chem(E, C[0], C[3], C[2], C[1]).transpose(0, 3, 2, 1)
    return X


def so_phys(E, O, P, anti):
    sw = lambda C: (C[0], C[2], C[1], C[3])
    return so_chem(E, sw(O), sw(P), anti).transpose(0, 2, 1, 3)


def coefs(n, cols, k, cplx=False):
    return [tn.weyl((n, c), k + j, cplx) for j, c in enumerate(cols)]
