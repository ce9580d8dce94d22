"""C20: energy denominators and block-diagonal assembly."""
import itertools

import numpy

from mc import tensors as tn

BOUND = {
    "quick": "every size 0..3 of each energy vector (D1, D2: 16 pairs, D2u: 256 quadruples), energies with a unique value per index combination and every unit energy, real and complex, contiguous and strided; block_diag: all 256 pairs of rectangular shapes 0..3, unique entries, every mixed dtype, five layouts; long vectors: D1 for all pairs of the sizes 1, 2, 5, 8, 9, 16, 17, 33, 64, 130, D2 and D2u for those with at most 150000 elements, block_diag for all quadruples of the sizes 0, 1, 9, 33, 130",
    "thorough": "as quick with sizes 0..4"}
ASSUMPTIONS = []


def cases(tier):
    top = 5 if tier == "thorough" else 4
    yield {"kind": "dens", "top": top}
    for n in LONG:
        yield {"kind": "long", "n": n}
        yield {"kind": "long_u", "n": n}
    for n in (0, 1, 9, 33, 130):
        yield {"kind": "longdiag", "n": n}
    for n in itertools.product(range(top), repeat=2):
        yield {"kind": "dens_u", "nv": list(n), "top": top}
        yield {"kind": "diag", "a": list(n), "top": top}


LONG = (1, 2, 5, 8, 9, 16, 17, 33, 64, 130)


def run(case, ctx):
    from cqcpy import utils as ut
    getattr(Explore, case["kind"])(ut, ctx, case)


def vecs(sizes, cplx=False):
    """powers of two: all sums with coefficients 0, +-1, +-2 over distinct vectors identify the indices"""
    out, k = [], 0
    for n in sizes:
        v = numpy.array([4.0**(k + i) for i in range(n)])
        k += n
        out.append(v*(1 + 0.5j) if cplx else v)
    return out


def units(sizes):
    for w, n in enumerate(sizes):
        for i in range(n):
            out = [numpy.zeros(m) for m in sizes]
            out[w][i] = 1.0
            yield out


def variants(sizes):
    yield vecs(sizes)
    yield vecs(sizes, True)
    yield [-0.3*v for v in vecs(sizes)]
    for kind in ("strided", "reversed", "readonly"):
        yield [tn.layout(v, kind) for v in vecs(sizes)]
    yield [v.astype(int) for v in vecs(sizes)]
    for u in units(sizes):
        yield u


class Explore(object):
    @staticmethod
    def dens(ut, ctx, case):
        for nv, no in itertools.product(range(case["top"]), repeat=2):
            for ev, eo in variants((nv, no)):
                ctx.state()
                ctx.step(2)
                r1 = numpy.array([[ev[a] - eo[i] for i in range(no)] for a in range(nv)]).reshape(nv, no)
                ctx.same("D1", ut.D1(ev, eo), r1, rtol=1e-13)
                r2 = numpy.array([ev[a] + ev[b] - eo[i] - eo[j] for a, b in itertools.product(range(nv), repeat=2)
                                  for i, j in itertools.product(range(no), repeat=2)]).reshape(nv, nv, no, no)
                ctx.same("D2", ut.D2(ev, eo), r2, rtol=1e-13)
                ctx.outcome(r1, r2)

    @staticmethod
    def dens_u(ut, ctx, case):
        nva, nvb = case["nv"]
        for noa, nob in itertools.product(range(case["top"]), repeat=2):
            for eva, evb, eoa, eob in variants((nva, nvb, noa, nob)):
                ctx.state()
                ctx.step()
                r = numpy.array([eva[a] + evb[b] - eoa[i] - eob[j] for a in range(nva) for b in range(nvb)
                                 for i in range(noa) for j in range(nob)]).reshape(nva, nvb, noa, nob)
                ctx.same("D2u", ut.D2u(eva, evb, eoa, eob), r, rtol=1e-13, sizes=(nva, nvb, noa, nob))
                ctx.outcome(r)
        ctx.sample(sizes=[nva, nvb])

    @staticmethod
    def long(ut, ctx, case):
        nv = case["n"]
        for no in LONG:
            for cplx in (False, True):
                ev, eo = tn.weyl((nv,), 1, cplx) + 2, tn.weyl((no,), 2, cplx) - 1
                ctx.state()
                ctx.step()
                ctx.same("D1", ut.D1(ev, eo), numpy.subtract.outer(ev, eo), rtol=1e-13, sizes=(nv, no))
                if nv*nv*no*no <= 150000:
                    ctx.step()
                    r = numpy.subtract.outer(numpy.add.outer(ev, ev), numpy.add.outer(eo, eo))
                    ctx.same("D2", ut.D2(ev, eo), r, rtol=1e-13, sizes=(nv, no))
                ctx.outcome(nv, no)

    @staticmethod
    def long_u(ut, ctx, case):
        for rest in itertools.product(LONG, repeat=3):
            n = (case["n"],) + rest
            if max(n) < 5 or numpy.prod(n) > 150000 or sorted(n)[-2] > 17:
                continue
            e = [tn.weyl((m,), k + 1) for k, m in enumerate(n)]
            ctx.state()
            ctx.step()
            r = numpy.subtract.outer(numpy.add.outer(e[0], e[1]), numpy.add.outer(e[2], e[3]))
            ctx.same("D2u", ut.D2u(*e), r, rtol=1e-13, sizes=n)
            ctx.outcome(n)

    @staticmethod
    def longdiag(ut, ctx, case):
        for na, mb, nb in itertools.product((0, 1, 9, 33, 130), repeat=3):
            A, B = tn.weyl((case["n"], na), 1) + 2, tn.weyl((mb, nb), 2) - 2
            ctx.state()
            ctx.step()
            r = numpy.zeros((case["n"] + mb, na + nb))
            r[:case["n"], :na] = A
            r[case["n"]:, na:] = B
            ctx.same("block_diag", ut.block_diag(A, B), r, rtol=1e-14, a=A.shape, b=B.shape)
            ctx.outcome(A.shape, B.shape)

    @staticmethod
    def diag(ut, ctx, case):
        ma, na = case["a"]
        for mb, nb in itertools.product(range(case["top"]), repeat=2):
            for ca, cb in itertools.product((0, 1), repeat=2):
                A = tn.weyl((ma, na), 1, ca) + 2
                B = tn.weyl((mb, nb), 2, cb) - 2
                for lay in tn.LAYOUTS:
                    a, b = tn.layout(A, lay), tn.layout(B, lay)
                    ctx.state()
                    ctx.step()
                    r = numpy.zeros((ma + mb, na + nb), dtype=complex)
                    for i, j in itertools.product(range(ma), range(na)):
                        r[i, j] = A[i, j]
                    for i, j in itertools.product(range(mb), range(nb)):
                        r[ma + i, na + j] = B[i, j]
                    ctx.same("block_diag", ut.block_diag(a, b), r, rtol=1e-14, a=(ma, na), b=(mb, nb), layout=lay)
                    ctx.check(numpy.array_equal(a, A) and numpy.array_equal(b, B), "inputs unchanged")
                    ctx.outcome(r)
