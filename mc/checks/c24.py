"""C24: the integral block container built from a mean field."""
import itertools

import numpy

from mc import eri
from mc import tensors as tn
from mc.checks import c23

BOUND = {
    "quick": "selection codes 0..9 and out-of-range codes; every occupation pattern of 3 molecular orbitals (8 restricted, 64 unrestricted) with code 0, every code for the 2-orbital molecule and all its occupation patterns; 3-orbital cell at Gamma and a general k-point, all restricted and unrestricted patterns with nonempty spaces with code 0 and every code for those with unequal alpha/beta counts; doubly, singly and fractionally filled orbitals, integer and floating-point occupation arrays; real and complex coefficients; mean-field objects used repeatedly with changing occupations; larger: 11 orbitals, every electron count filled from below, from above and every other orbital, restricted and unrestricted with unequal counts",
    "thorough": "as quick with every code for every pattern, and a 4-orbital molecule"}
ASSUMPTIONS = ["AO integrals from the backend are taken as given", "periodic: at least one occupied and one virtual orbital per spin (the backend divides by the column count)"]
CODE = dict(enumerate(("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"), 1))


def cases(tier):
    th = tier == "thorough"
    for p in itertools.product((0, 1), repeat=3):
        yield {"kind": "rmol", "mol": "h3", "occ": list(p), "codes": 10 if th else 1}
        for q in itertools.product((0, 1), repeat=3):
            yield {"kind": "umol", "mol": "h3", "occ": [list(p), list(q)], "codes": 10 if th else 1}
    for p in itertools.product((0, 1), repeat=2):
        yield {"kind": "rmol", "mol": "he", "occ": list(p), "codes": 10}
        for q in itertools.product((0, 1), repeat=2):
            yield {"kind": "umol", "mol": "he", "occ": [list(p), list(q)], "codes": 10}
    # three (not independent) orbitals over the two AOs of the cell; the backend needs
    # at least one occupied and one virtual orbital per spin
    pats = [p for p in itertools.product((0, 1), repeat=3) if 0 < sum(p) < 3]
    for k in (0, 1):
        for p in pats:
            yield {"kind": "rsol", "k": k, "occ": list(p), "codes": 10 if th or k else 1}
            for q in pats:
                yield {"kind": "usol", "k": k, "occ": [list(p), list(q)], "codes": 10 if th or (k and sum(p) != sum(q)) else 1}
    if th:
        for p in itertools.product((0, 1), repeat=4):
            yield {"kind": "rmol", "mol": "heh", "occ": list(p), "codes": 10}
            yield {"kind": "umol", "mol": "heh", "occ": [list(p), [1, 0, 1, 0]], "codes": 10}
    yield {"kind": "reuse"}
    n = 11
    for k in range(n + 1):
        pats = {tuple(int(i < k) for i in range(n)), tuple(int(i >= n - k) for i in range(n)),
                tuple(int((i*4) % n < k) for i in range(n))}
        for p in sorted(pats):
            yield {"kind": "rmol", "mol": "hf", "occ": list(p), "codes": 1}
            q = p[::-1] if k in (0, n) else (1 - p[0],) + p[1:]
            yield {"kind": "umol", "mol": "hf", "occ": [list(p), list(q)], "codes": 1}


def run(case, ctx):
    from cqcpy import integrals as ig
    getattr(Explore, case["kind"])(ig, ctx, case)


# an orbital is occupied if it holds any electrons: doubly, singly and fractionally filled ones
FRAC = (2.0, 0.5, 1.0, 0.01)


def weights(pattern, w):
    return numpy.array([w[k % len(w)]*x for k, x in enumerate(pattern)])


class Explore(object):
    @staticmethod
    def container(ig, ctx, m, E, Ca, Cb, occa, occb, codes, **d):
        occa, occb = numpy.asarray(occa), numpy.asarray(occb)
        col = {"o": (Ca[:, occa > 0], Cb[:, occb > 0]), "v": (Ca[:, occa == 0], Cb[:, occb == 0])}
        for code in codes:
            B = ig.eri_blocks(m) if code is None else ig.eri_blocks(m, code=code)
            ctx.state()
            ctx.step()
            for c, k in CODE.items():
                want = code in (None, 0, c)
                ctx.check(bool(getattr(B, "has_" + k)) == want, "presence flag of " + k, code=str(code), **d)
                if want:
                    ref = eri.so_phys(E, [col[x][0] for x in k], [col[x][1] for x in k], True)
                    ctx.same("block " + k, getattr(B, k), ref, code=str(code), **d)
                    ctx.outcome(k, ref)
                else:
                    ctx.check(getattr(B, k, None) is None, "block %s not requested is not stored" % k, code=str(code), **d)

    @staticmethod
    def codes(case):
        return (None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -1) if case["codes"] > 1 else (None,)

    @staticmethod
    def rmol(ig, ctx, case):
        from pyscf import scf
        m, E = eri.mol(case["mol"]), eri.ao(case["mol"])
        n = len(case["occ"])
        for C, wt in ((numpy.eye(n), (2.0,)), (tn.weyl((n, n), 2), FRAC), (tn.layout(tn.weyl((n, n), 3), "F"), (2, 1))):
            r = scf.RHF(m)
            r.mo_coeff, r.mo_occ = C, weights(case["occ"], wt)
            Explore.container(ig, ctx, r, E, C, C, case["occ"], case["occ"], Explore.codes(case), occ=str(case["occ"]))

    @staticmethod
    def umol(ig, ctx, case):
        from pyscf import scf
        m, E = eri.mol(case["mol"]), eri.ao(case["mol"])
        n = len(case["occ"][0])
        Ca, Cb = tn.weyl((n, n), 2), tn.weyl((n, n), 5)
        for tup in (True, False):
            u = scf.UHF(m)
            u.mo_coeff = (Ca, Cb) if tup else numpy.array([Ca, Cb])
            u.mo_occ = numpy.array([weights(p, (1.0,) if tup else FRAC[1:]) for p in case["occ"]])
            Explore.container(ig, ctx, u, E, Ca, Cb, *case["occ"], Explore.codes(case) if tup else (None,), occ=str(case["occ"]))

    @staticmethod
    def rsol(ig, ctx, case):
        import copy
        m, E = c23.mf(case["k"])
        for cplx in (False, True):
            r = copy.copy(m)
            r.mo_coeff, r.mo_occ = tn.weyl((2, 3), 3, cplx), weights(case["occ"], FRAC if cplx else (2.0,))
            Explore.container(ig, ctx, r, E, r.mo_coeff, r.mo_coeff, case["occ"], case["occ"], Explore.codes(case), occ=str(case["occ"]), k=case["k"])

    @staticmethod
    def usol(ig, ctx, case):
        from pyscf.pbc import scf
        m, E = c23.mf(case["k"])
        for ca, cb in ((False, True), (True, False), (True, True)):
            Ca, Cb = tn.weyl((2, 3), 3, ca), tn.weyl((2, 3), 7, cb)
            u = scf.UHF(eri.cell(), kpt=m.kpt, exxdiv=None)
            u.with_df = m.with_df
            u.mo_coeff = (Ca, Cb)
            u.mo_occ = numpy.array(case["occ"], dtype=float)
            Explore.container(ig, ctx, u, E, Ca, Cb, *case["occ"], Explore.codes(case), occ=str(case["occ"]), k=case["k"])

    @staticmethod
    def reuse(ig, ctx, case):
        """one mean-field object, occupations and coefficients changed between constructions"""
        from pyscf import scf
        m, E = eri.mol("h3"), eri.ao("h3")
        r = scf.RHF(m)
        for rnd in (0, 1):
            for p in itertools.product((0, 1), repeat=3):
                r.mo_coeff, r.mo_occ = tn.weyl((3, 3), 2 + rnd), numpy.array([2.0*x for x in p])
                Explore.container(ig, ctx, r, E, r.mo_coeff, r.mo_coeff, p, p, (0, 4), occ=str(p), round=rnd)
