"""Deterministic inputs: unit tensors, amplitude grids, dense tensors, layouts."""
import itertools

import numpy


def weyl(shape, k, cplx=False):
    """Dense deterministic tensor with entries in (-0.5,0.5); k picks another one.
    Additive recurrence on irrational steps: no two entries coincide."""
    n = int(numpy.prod(shape)) if len(shape) else 1
    x = numpy.arange(1, n + 1, dtype=float)
    step = numpy.sqrt(numpy.array([2., 3., 5., 7., 11., 13., 17., 19., 23., 29., 31., 37., 41., 43.]))
    a = (x*step[k % 14] + x*x*0.137*step[(k + 5) % 14] + 0.31*(k + 1)) % 1.0 - 0.5
    if cplx:
        b = (x*step[(k + 3) % 14] + x*x*0.219*step[(k + 8) % 14] + 0.17*(k + 1)) % 1.0 - 0.5
        a = a + 1j*b
    return a.reshape(shape)


def asym(X):
    """Antisymmetrize a 4-index tensor in (0,1) and in (2,3) (square pairs)."""
    X = X - X.transpose(1, 0, 2, 3)
    return X - X.transpose(0, 1, 3, 2)


def dense_H(n, k, cplx=False, herm=False):
    f = weyl((n, n), k, cplx)
    I = asym(weyl((n, n, n, n), k + 1, cplx))
    if herm:
        f = 0.5*(f + f.conj().T)
        I = 0.5*(I + I.conj().transpose(2, 3, 0, 1))
    return f, I


def dense_T(no, nv, k, cplx=False):
    return weyl((nv, no), k + 2, cplx), asym(weyl((nv, nv, no, no), k + 3, cplx))


def dense_L(no, nv, k, cplx=False):
    return weyl((no, nv), k + 4, cplx), asym(weyl((no, no, nv, nv), k + 5, cplx))


def unit_H(n):
    """Every independent element of (f, antisymmetric I):
    yields (label, f or None, I or None, pick) where pick indexes it."""
    for p in range(n):
        for q in range(n):
            yield (p, q)
    pairs = list(itertools.combinations(range(n), 2))
    for p, q in pairs:
        for r, s in pairs:
            yield (p, q, r, s)


def make_unit_H(n, lab, dtype=float):
    f = numpy.zeros((n, n), dtype=dtype)
    I = numpy.zeros((n,)*4, dtype=dtype)
    if len(lab) == 2:
        f[lab] = 1
    else:
        p, q, r, s = lab
        I[p, q, r, s] = 1
        I[q, p, s, r] = 1
        I[q, p, r, s] = -1
        I[p, q, s, r] = -1
    return f, I


def amp_vars(no, nv, singles=True, doubles=True):
    out = []
    if singles:
        out += [('s', a, i) for a in range(nv) for i in range(no)]
    if doubles:
        out += [('d', a, b, i, j) for a, b in itertools.combinations(range(nv), 2)
                for i, j in itertools.combinations(range(no), 2)]
    return out


def lower_set(variables, degree, weight):
    """All multisets of variables with total weight <= degree, as dicts
    variable -> multiplicity.  This is a lower set, hence unisolvent for the
    polynomials spanned by the corresponding monomials."""
    def rec(k, left):
        yield {}
        for q in range(k, len(variables)):
            w = weight(variables[q])
            if w > left:
                continue
            for m in rec(q, left - w):
                mm = dict(m)
                mm[variables[q]] = mm.get(variables[q], 0) + 1
                yield mm
    seen = set()
    for m in rec(0, degree):
        k = tuple(sorted(m.items()))
        if k not in seen:
            seen.add(k)
            yield m


def amps_from(point, no, nv, dtype=float, unit=1.0):
    T1 = numpy.zeros((nv, no), dtype=dtype)
    T2 = numpy.zeros((nv, nv, no, no), dtype=dtype)
    for v, m in point.items():
        x = m*unit
        if v[0] == 's':
            T1[v[1], v[2]] = x
        else:
            _, a, b, i, j = v
            T2[a, b, i, j] = x
            T2[b, a, j, i] = x
            T2[b, a, i, j] = -x
            T2[a, b, j, i] = -x
    return T1, T2


def weight(v):
    return 1 if v[0] == 's' else 2


LAYOUTS = ("C", "F", "strided", "reversed", "readonly")


def layout(x, kind):
    """Same values, different storage."""
    if not isinstance(x, numpy.ndarray) or x.ndim == 0:
        return x
    if kind == "C":
        return numpy.ascontiguousarray(x).copy()
    if kind == "F":
        return numpy.asfortranarray(x).copy(order='F')
    if kind == "strided":
        big = numpy.full(tuple(2*s + 1 for s in x.shape), 77.0, dtype=x.dtype)
        sl = tuple(slice(1, 2*s + 1, 2) for s in x.shape)
        big[sl] = x
        return big[sl]
    if kind == "reversed":
        sl = tuple(slice(None, None, -1) for s in x.shape)
        return numpy.ascontiguousarray(x[sl])[sl]
    if kind == "readonly":
        y = numpy.ascontiguousarray(x).copy()
        y.setflags(write=False)
        return y
    if kind == "offset":                   # inner window of a larger array
        big = numpy.full(tuple(s + 2 for s in x.shape), 77.0, dtype=x.dtype)
        sl = tuple(slice(1, s + 1) for s in x.shape)
        big[sl] = x
        return big[sl]
    if kind == "rolled":                   # axes stored in another order
        ax = list(range(1, x.ndim)) + [0]
        return numpy.ascontiguousarray(x.transpose(ax)).transpose(numpy.argsort(ax))
    raise ValueError(kind)


def oblocks(f, no):
    from cqcpy.ov_blocks import one_e_blocks
    return one_e_blocks(f[:no, :no].copy(), f[:no, no:].copy(), f[no:, :no].copy(), f[no:, no:].copy())


NAMES9 = ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo")
NAMES16 = tuple("".join(x) for x in itertools.product("ov", repeat=4))


def blk(I, name, o=None, v=None):
    """block of a full tensor by class name; o, v are slices or lists per index"""
    sl = tuple(o[k] if c == 'o' else v[k] for k, c in enumerate(name))
    return I[sl].copy()


def tblocks(I, no, full=False, copy=True):
    from cqcpy.ov_blocks import two_e_blocks, two_e_blocks_full
    o = [slice(0, no)]*4
    v = [slice(no, None)]*4
    if full:
        return two_e_blocks_full(**{k: blk(I, k, o, v) for k in NAMES16})
    return two_e_blocks(**{k: blk(I, k, o, v) for k in NAMES9})


def rebuild(o, fn):
    """same container / nested tuple with fn applied to every array"""
    if isinstance(o, numpy.ndarray):
        return fn(o)
    if isinstance(o, (tuple, list)):
        return tuple(rebuild(x, fn) for x in o)
    names = {"one_e_blocks": ("oo", "ov", "vo", "vv"), "two_e_blocks": NAMES9,
             "two_e_blocks_full": NAMES16}.get(type(o).__name__)
    if names is None:
        return o
    kw = {k: getattr(o, k) for k in names}
    kw = {k: fn(x) if isinstance(x, numpy.ndarray) else x for k, x in kw.items()}
    if type(o).__name__ == "one_e_blocks":
        return type(o)(kw["oo"], kw["ov"], kw["vo"], kw["vv"])
    return type(o)(**{k: x for k, x in kw.items() if x is not None})
