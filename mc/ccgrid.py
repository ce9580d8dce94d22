"""Shared exploration for spin-orbital amplitude equations."""
import itertools

import numpy

from mc import fock
from mc import tensors as tn


def chunks(total, size):
    k = (total + size - 1)//size
    return max(1, k)


def grid_points(no, nv, degree, singles=True, doubles=True):
    return list(tn.lower_set(tn.amp_vars(no, nv, singles, doubles), degree, tn.weight))


def part(seq, idx, of):
    return [x for k, x in enumerate(seq) if k % of == idx]


class Units(object):
    """All unit Hamiltonians of a shape with their library containers."""

    def __init__(self, no, nv, dtype=float):
        self.n = no + nv
        self.labels = list(tn.unit_H(self.n))
        self.F = []
        self.I = []
        zf = None
        zi = None
        for lab in self.labels:
            f, I = tn.make_unit_H(self.n, lab, dtype)
            if len(lab) == 2:
                if zi is None:
                    zi = tn.tblocks(I, no)
                self.F.append(tn.oblocks(f, no))
                self.I.append(zi)
            else:
                if zf is None:
                    zf = tn.oblocks(f, no)
                self.F.append(zf)
                self.I.append(tn.tblocks(I, no))

    def project(self, G):
        """generator (G1[m,p,q],G2[m,p,q,r,s]) -> columns, one per unit H.
        A unit integral has four nonzero entries, so 1/4*4 = 1."""
        G1, G2 = G
        cols = [G1[:, l[0], l[1]] if len(l) == 2 else G2[:, l[0], l[1], l[2], l[3]] for l in self.labels]
        return numpy.array(cols)            # [unit, mu]


DENSE_SHAPES_Q = [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)]
DENSE_SHAPES_T = DENSE_SHAPES_Q + [(1, 4), (4, 1), (3, 4), (4, 3), (4, 4), (2, 5), (5, 2), (3, 5), (1, 6), (6, 1)]


def zero_masks():
    """each block alone, each block missing, everything, nothing"""
    names = ["f.oo", "f.ov", "f.vo", "f.vv"] + ["I." + k for k in tn.NAMES9]
    yield ("all", names)
    yield ("none", [])
    for k in names:
        yield ("only " + k, [k])
    for k in names:
        yield ("without " + k, [x for x in names if x != k])


def mask_H(f, I, no, keep):
    """zero all element classes not kept (classes identified up to antisymmetry)"""
    f = f.copy()
    I = I.copy()
    n = f.shape[0]
    cls = ['o' if p < no else 'v' for p in range(n)]
    canon = {}
    for k in tn.NAMES16:
        for c in (k, k[1] + k[0] + k[2:], k[:2] + k[3] + k[2], k[1] + k[0] + k[3] + k[2]):
            if c in tn.NAMES9:
                canon[k] = c
    for a in "ov":
        for b in "ov":
            if "f." + a + b not in keep:
                f[numpy.ix_([p for p in range(n) if cls[p] == a], [p for p in range(n) if cls[p] == b])] = 0
    for k in tn.NAMES16:
        if "I." + canon[k] not in keep:
            I[numpy.ix_(*[[p for p in range(n) if cls[p] == c] for c in k])] = 0
    return f, I
