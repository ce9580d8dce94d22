"""C22: molecular two-electron integral transforms."""
import itertools

import numpy

from mc import eri
from mc import tensors as tn

BOUND = {
    "quick": "restricted routes: every quadruple of unit AO vectors of HeH+ (4 AOs) and H3+ (3 AOs); all column counts 0..3 per slot (256); slot pattern: every partition of the four slots into equal coefficient arrays (15); unrestricted routes: every one of the 8 slots replaced separately, every spin/slot choice of unit vectors for a 2-AO molecule (256 x 16), all column counts 0..2 of the eight slots on sub-lattices (alpha and beta 81 x 81 thinned to equal pairs and one-slot differences); five layouts; mean-field routes with RHF and UHF objects for every column count; larger: 11-AO molecule and 8 Cartesian AOs, each slot alone and each pair of slots with 9 columns (more columns than AOs for the small molecule), all slots full",
    "thorough": "as quick with all 81 x 81 column counts of the eight slots"}
ASSUMPTIONS = ["AO integrals from pyscf are taken as given", "real coefficients (the backend refuses complex molecular orbitals)"]
TOL = 1e-9


def cases(tier):
    for m, n in (("heh", 4), ("h3", 3)):
        for p in range(n):
            yield {"kind": "runit", "mol": m, "p": p}
    for a in itertools.product(range(4), repeat=2):
        yield {"kind": "rcols", "first": list(a)}
    yield {"kind": "rshared"}
    for s in itertools.product((0, 1), repeat=4):
        yield {"kind": "uunit", "spins": list(s)}
    for a in itertools.product(range(3), repeat=4):
        yield {"kind": "ucols", "a": list(a), "all": tier == "thorough"}
    yield {"kind": "ushared"}
    for n in itertools.product(range(4), repeat=2):
        yield {"kind": "uall", "n": list(n)}
    yield {"kind": "layouts"}
    for m in ("hf", "hed", "heh"):
        for k in range(4):
            yield {"kind": "rlarge", "mol": m, "k": k}
            yield {"kind": "ularge", "mol": m, "k": k}
        yield {"kind": "full", "mol": m}


def run(case, ctx):
    from cqcpy import integrals as ig
    getattr(Explore, case["kind"])(ig, ctx, case)


class Explore(object):
    @staticmethod
    def restricted(ig, ctx, name, C, **d):
        m, E = eri.mol(name), eri.ao(name)
        from pyscf import scf
        mf = scf.RHF(m)
        kw = dict(mol=name, **d)
        x, xa = eri.chem(E, *C), eri.chem_anti(E, *C)
        p, pa = eri.phys(E, *C), eri.phys_anti(E, *C)
        for nm, got, ref in (
                ("get_chem", ig.get_chem(m, *C), x),
                ("get_chem anti=False", ig.get_chem(m, *C, anti=False), x),
                ("get_chem anti=True", ig.get_chem(m, *C, anti=True), xa),
                ("get_chem_anti", ig.get_chem_anti(m, *C), xa),
                ("get_phys", ig.get_phys(m, *C), p),
                ("get_phys anti=True", ig.get_phys(m, *C, anti=True), pa),
                ("get_phys_anti", ig.get_phys_anti(m, *C), pa),
                ("get_phys_gen", ig.get_phys_gen(mf, *C), p),
                ("get_phys_gen anti=True", ig.get_phys_gen(mf, *C, anti=True), pa)):
            ctx.step()
            ctx.same(nm, got, ref, rtol=TOL, **kw)
        ctx.outcome(x, pa)

    @staticmethod
    def unrestricted(ig, ctx, name, O, P, light=False, **d):
        m, E = eri.mol(name), eri.ao(name)
        x, xa = eri.so_chem(E, O, P, False), eri.so_chem(E, O, P, True)
        pa = eri.so_phys(E, O, P, True)
        todo = [("get_chemu", lambda: ig.get_chemu(m, *O, *P), x),
                ("get_chemu anti=True", lambda: ig.get_chemu(m, *O, *P, anti=True), xa),
                ("get_phys_antiu", lambda: ig.get_phys_antiu(m, *O, *P), pa)]
        if not light:
            todo.append(("get_chem_antiu", lambda: ig.get_chem_antiu(m, *O, *P), xa))
        for nm, f, ref in todo:
            ctx.step()
            ctx.same(nm, f(), ref, rtol=TOL, mol=name, **d)
        ctx.outcome(x, pa)

    # ------------------------------------------------------------ exploration
    @staticmethod
    def runit(ig, ctx, case):
        n = eri.mol(case["mol"]).nao
        U = [numpy.eye(n)[:, [k]] for k in range(n)]
        for q, r, s in itertools.product(range(n), repeat=3):
            ix = (case["p"], q, r, s)
            ctx.state()
            Explore.restricted(ig, ctx, case["mol"], [U[k] for k in ix], unit=ix)
        ctx.sample(mol=case["mol"], unit=list(ix))

    @staticmethod
    def rcols(ig, ctx, case):
        for b in itertools.product(range(4), repeat=2):
            cols = tuple(case["first"]) + b
            ctx.state()
            Explore.restricted(ig, ctx, "heh", eri.coefs(4, cols, 1), cols=cols)

    @staticmethod
    def rshared(ig, ctx, case):
        """the same array object given in several slots"""
        for pat in itertools.product(range(4), repeat=4):
            if any(x not in (0,) + tuple(y + 1 for y in pat[:k]) and x not in pat[:k] for k, x in enumerate(pat)):
                continue
            A = [tn.weyl((3, 2), 3 + k) for k in range(4)]
            ctx.state()
            Explore.restricted(ig, ctx, "h3", [A[k] for k in pat], slots=pat)

    @staticmethod
    def uunit(ig, ctx, case):
        n = 2
        U = [numpy.eye(n)[:, [k]] for k in range(n)]
        Z = numpy.zeros((n, 1))
        for ix in itertools.product(range(n), repeat=4):
            O = [U[i] if s == 0 else Z for s, i in zip(case["spins"], ix)]
            P = [U[i] if s == 1 else Z for s, i in zip(case["spins"], ix)]
            ctx.state()
            Explore.unrestricted(ig, ctx, "he", O, P, unit=ix, spins=tuple(case["spins"]))
        # every slot alone different from a common array
        for w in range(4):
            A, B = tn.weyl((4, 2), 1), tn.weyl((4, 2), 2)
            O = [tn.weyl((4, 2), 5) if k == w and case["spins"][k] == 0 else A for k in range(4)]
            P = [tn.weyl((4, 2), 6) if k == w and case["spins"][k] == 1 else B for k in range(4)]
            ctx.state()
            Explore.unrestricted(ig, ctx, "heh", O, P, slot=w, spins=tuple(case["spins"]))

    @staticmethod
    def ucols(ig, ctx, case):
        a = tuple(case["a"])
        if case["all"]:
            bs = list(itertools.product(range(3), repeat=4))
        else:
            bs = {a, a[::-1], tuple(2 - x for x in a), (1, 1, 1, 1), (2, 1, 2, 1)}
            for k in range(4):
                bs.add(tuple((x + 1) % 3 if j == k else x for j, x in enumerate(a)))
            bs = sorted(bs)
        for b in bs:
            ctx.state()
            Explore.unrestricted(ig, ctx, "h3", eri.coefs(3, a, 1), eri.coefs(3, b, 5), light=True, a=a, b=b)

    @staticmethod
    def ushared(ig, ctx, case):
        A, B, V, W = (tn.weyl((4, c), 3 + k) for k, c in enumerate((2, 1, 2, 3)))
        for pat in itertools.product((0, 1), repeat=4):
            O = [(A, V)[k] for k in pat]
            for P in ([(B, W)[k] for k in pat], O, [(W, B)[k] for k in pat]):
                ctx.state()
                Explore.unrestricted(ig, ctx, "heh", O, P, slots=pat)

    @staticmethod
    def rlarge(ig, ctx, case):
        """long slots, one or two at a time"""
        n, k = eri.mol(case["mol"]).nao, case["k"]
        for j in range(k, 4):
            for big in (5, 9, 13) if j == k else (9,):
                cols = [1, 2, 2, 1]
                cols[k] = cols[j] = big
                ctx.state()
                Explore.restricted(ig, ctx, case["mol"], eri.coefs(n, cols, 1), cols=str(cols))

    @staticmethod
    def ularge(ig, ctx, case):
        n, k = eri.mol(case["mol"]).nao, case["k"]
        for j in range(8):
            cols = [1, 2, 2, 1, 2, 1, 1, 2]
            cols[k] = cols[j] = 9
            ctx.state()
            Explore.unrestricted(ig, ctx, case["mol"], eri.coefs(n, cols[:4], 1), eri.coefs(n, cols[4:], 5), cols=str(cols))
            cols = [1, 2, 2, 1, 2, 1, 1, 2]
            cols[k + 4] = cols[j] = 9
            ctx.state()
            Explore.unrestricted(ig, ctx, case["mol"], eri.coefs(n, cols[:4], 1), eri.coefs(n, cols[4:], 5), light=True, cols=str(cols))

    @staticmethod
    def full(ig, ctx, case):
        """every slot holds all orbitals"""
        m, E = eri.mol(case["mol"]), eri.ao(case["mol"])
        n = m.nao
        for C in (numpy.eye(n), tn.weyl((n, n), 2)):
            ctx.state()
            Explore.restricted(ig, ctx, case["mol"], [C]*4)
        A, B = tn.weyl((n, n), 3), tn.weyl((n, n), 4)
        ctx.state()
        Explore.unrestricted(ig, ctx, case["mol"], [A]*4, [B]*4, light=True)
        for a, b in ((A, B), (A[:, :3], B), (A, B[:, :3])):
            O, P = [a]*4, [b]*4
            ctx.state()
            ctx.step(3)
            ctx.same("get_chemu_all", ig.get_chemu_all(m, a, b), eri.so_chem(E, O, P, False), rtol=TOL)
            ctx.same("get_physu_all", ig.get_physu_all(m, a, b), eri.so_phys(E, O, P, False), rtol=TOL)
            ctx.same("get_phys_antiu_all", ig.get_phys_antiu_all(m, a, b), eri.so_phys(E, O, P, True), rtol=TOL)

    @staticmethod
    def uall(ig, ctx, case):
        from pyscf import scf
        na, nb = case["n"]
        m, E = eri.mol("heh"), eri.ao("heh")
        for ka, kb in ((1, 2), (4, 3), (6, 6)):
            for lay in tn.LAYOUTS:
                oa, ob = tn.layout(tn.weyl((4, na), ka), lay), tn.layout(tn.weyl((4, nb), kb), lay)
                O, P = [oa]*4, [ob]*4
                ctx.state()
                x, xa = eri.so_chem(E, O, P, False), eri.so_chem(E, O, P, True)
                p, pa = eri.so_phys(E, O, P, False), eri.so_phys(E, O, P, True)
                todo = [("get_chemu_all", ig.get_chemu_all(m, oa, ob), x),
                        ("get_chemu_all anti=True", ig.get_chemu_all(m, oa, ob, anti=True), xa),
                        ("get_chem_antiu_all", ig.get_chem_antiu_all(m, oa, ob), xa),
                        ("get_physu_all", ig.get_physu_all(m, oa, ob), p),
                        ("get_physu_all anti=True", ig.get_physu_all(m, oa, ob, anti=True), pa),
                        ("get_phys_antiu_all", ig.get_phys_antiu_all(m, oa, ob), pa)]
                uhf = scf.UHF(m)
                uhf.mo_coeff = (oa, ob)
                if na == nb:
                    uhf.mo_occ = numpy.zeros((2, na))
                    todo += [("get_physu_all_gen UHF", ig.get_physu_all_gen(uhf), p),
                             ("get_physu_all_gen UHF anti=True", ig.get_physu_all_gen(uhf, anti=True), pa),
                             ("get_phys_antiu_all_gen UHF", ig.get_phys_antiu_all_gen(uhf), pa)]
                    rhf = scf.RHF(m)
                    rhf.mo_coeff = oa
                    rhf.mo_occ = numpy.zeros(na)
                    R = eri.so_phys(E, O, O, False)
                    Ra = eri.so_phys(E, O, O, True)
                    todo += [("get_physu_all_gen RHF", ig.get_physu_all_gen(rhf), R),
                             ("get_physu_all_gen RHF anti=True", ig.get_physu_all_gen(rhf, anti=True), Ra),
                             ("get_phys_antiu_all_gen RHF", ig.get_phys_antiu_all_gen(rhf), Ra)]
                for nm, got, ref in todo:
                    ctx.step()
                    ctx.same(nm, got, ref, rtol=TOL, na=na, nb=nb, layout=lay)
                ctx.outcome(pa)

    @staticmethod
    def layouts(ig, ctx, case):
        C = eri.coefs(4, (1, 2, 3, 2), 1)
        D = eri.coefs(4, (2, 1, 1, 2), 6)
        for lay in tn.LAYOUTS:
            ctx.state()
            Explore.restricted(ig, ctx, "heh", [tn.layout(c, lay) for c in C], layout=lay)
            Explore.unrestricted(ig, ctx, "heh", [tn.layout(c, lay) for c in C], [tn.layout(c, lay) for c in D], layout=lay)
            for k in range(4):
                ctx.state()
                Explore.restricted(ig, ctx, "heh", [tn.layout(c, lay) if j == k else c for j, c in enumerate(C)], layout=lay, slot=k)
        # integer-typed and single-precision unit vectors must not change the stored precision
        for k in range(8):
            for dt in (int, numpy.float32):
                U = [numpy.eye(4)[:, [j % 4]] for j in range(8)]
                U[k] = U[k].astype(dt)
                ctx.state()
                Explore.unrestricted(ig, ctx, "heh", U[:4], U[4:], slot=k, dtype=str(dt))
