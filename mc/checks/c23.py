"""C23: periodic and k-point two-electron integrals."""
import functools
import itertools

import numpy

from mc import eri
from mc import tensors as tn

BOUND = {
    "quick": "one triclinic 2-AO cell; single k-point routes at Gamma, one general and one zone-boundary k-point: every unit coefficient quadruple, all column counts 0..2 per slot with real, complex and mixed coefficients, every slot and spin separately complex; k-point routes: every quadruple of k indices of the meshes 1, 2, 3, 4, 2x2 and a shifted 3 mesh (conserving or not), both orders and antisymmetrization settings, dense complex coefficients of unequal column counts; every unit coefficient quadruple on the 2 and 3 meshes for conserving quadruples; assembled Hamiltonians of all meshes up to 4 points in both orders with square and rectangular coefficients; larger: each slot alone with 5 and 9 columns on all routes, all quadruples of the 5 and 2x2x2 meshes starting at their last k index",
    "thorough": "as quick with unit quadruples on all meshes and the 2x3 mesh"}
ASSUMPTIONS = ["AO integrals over Bloch functions from the backend's density fitting are taken as given"]
TOL = 1e-9

MESHES = {"1": ([1, 1, 1], 0), "2": ([2, 1, 1], 0), "3": ([1, 3, 1], 0), "4": ([1, 1, 4], 0), "22": ([2, 2, 1], 0), "3s": ([3, 1, 1], 1), "23": ([2, 3, 1], 0),
          "5": ([5, 1, 1], 0), "222": ([2, 2, 2], 0)}


def cases(tier):
    th = tier == "thorough"
    for k in range(3):
        yield {"kind": "sunit", "k": k}
        yield {"kind": "suunit", "k": k}
        yield {"kind": "scols", "k": k}
        yield {"kind": "sucplx", "k": k}
        yield {"kind": "suall", "k": k}
    for m in MESHES:
        if m == "23" and not th:
            continue
        nk = int(numpy.prod(MESHES[m][0]))
        if m in ("5", "222"):
            for k1 in range(nk) if th else (nk - 1,):
                yield {"kind": "kquads", "mesh": m, "k1": k1}
            continue
        for k1 in range(nk):
            yield {"kind": "kquads", "mesh": m, "k1": k1}
            if th or m in ("2", "3"):
                yield {"kind": "kunit", "mesh": m, "k1": k1}
        yield {"kind": "kham", "mesh": m}
    yield {"kind": "krej"}
    for k in range(3):
        for j in range(8):
            yield {"kind": "slarge", "k": k, "slot": j}
    for j in range(4):
        yield {"kind": "klarge", "slot": j}


def cost(c):
    return {"kquads": 50, "kham": 60}.get(c["kind"], 10)


def run(case, ctx):
    from cqcpy import integrals as ig
    getattr(Explore, case["kind"])(ig, ctx, case)


@functools.lru_cache(maxsize=None)
def mf(k):
    """mean field at one k-point and its AO integrals"""
    from pyscf.pbc import scf
    c = eri.cell()
    kpt = [numpy.zeros(3), c.get_abs_kpts([0.17, -0.29, 0.41]), c.get_abs_kpts([0.5, 0.0, 0.0])][k]
    m = scf.RHF(c, kpt=numpy.asarray(kpt).reshape(3), exxdiv=None)
    m.verbose = 0
    n = c.nao
    E = m.with_df.get_eri(m.kpt, compact=False).reshape((n,)*4)
    return m, E


@functools.lru_cache(maxsize=None)
def kmf(mesh):
    from pyscf.pbc import scf
    c = eri.cell()
    m, shift = MESHES[mesh]
    k = c.make_kpts(m)
    if shift:
        k = k + c.get_abs_kpts([0.1, 0.2, -0.15])
    r = scf.KRHF(c, k, exxdiv=None)
    r.verbose = 0
    return r, numpy.asarray(k)


@functools.lru_cache(maxsize=None)
def kao(mesh, q):
    """AO integrals of the k-point quadruple, None if crystal momentum is not conserved"""
    r, k = kmf(mesh)
    c = eri.cell()
    d = k[q[0]] - k[q[1]] + k[q[2]] - k[q[3]]
    s = numpy.dot(numpy.asarray(c.lattice_vectors()), d)/(2*numpy.pi)
    if numpy.max(numpy.abs(s - numpy.round(s))) > 1e-8:
        return None
    n = c.nao
    return numpy.asarray(r.with_df.get_eri(tuple(k[i] for i in q), compact=False)).reshape((n,)*4)


class Explore(object):
    @staticmethod
    def restricted(ig, ctx, k, C, **d):
        m, E = mf(k)
        x, xa = eri.chem(E, *C), eri.chem_anti(E, *C)
        p, pa = eri.phys(E, *C), eri.phys_anti(E, *C)
        for nm, got, ref in (
                ("get_chem_sol", ig.get_chem_sol(m, *C), x),
                ("get_chem_sol anti=True", ig.get_chem_sol(m, *C, anti=True), xa),
                ("get_phys_sol", ig.get_phys_sol(m, *C), p),
                ("get_phys_sol anti=True", ig.get_phys_sol(m, *C, anti=True), pa),
                ("get_phys_gen", ig.get_phys_gen(m, *C), p),
                ("get_phys_gen anti=True", ig.get_phys_gen(m, *C, anti=True), pa)):
            ctx.step()
            ctx.same(nm, got, ref, rtol=TOL, k=k, **d)
        ctx.outcome(x, pa)

    @staticmethod
    def unrestricted(ig, ctx, k, O, P, **d):
        m, E = mf(k)
        x, xa = eri.so_chem(E, O, P, False), eri.so_chem(E, O, P, True)
        pa = eri.so_phys(E, O, P, True)
        for nm, got, ref in (
                ("get_chemu_sol", ig.get_chemu_sol(m, *O, *P), x),
                ("get_chemu_sol anti=True", ig.get_chemu_sol(m, *O, *P, anti=True), xa),
                ("get_chem_antiu_sol", ig.get_chem_antiu_sol(m, *O, *P), xa),
                ("get_phys_antiu_sol", ig.get_phys_antiu_sol(m, *O, *P), pa)):
            ctx.step()
            ctx.same(nm, got, ref, rtol=TOL, k=k, **d)
        ctx.outcome(x, pa)

    # ------------------------------------------------------------ exploration
    @staticmethod
    def sunit(ig, ctx, case):
        n = eri.cell().nao
        U = [numpy.eye(n)[:, [q]] for q in range(n)]
        for ix in itertools.product(range(n), repeat=4):
            for ph in (1.0, 1j):
                ctx.state()
                Explore.restricted(ig, ctx, case["k"], [U[i]*ph if j % 3 == 0 else U[i] for j, i in enumerate(ix)], unit=ix, phase=str(ph))
        ctx.sample(k=case["k"], unit=list(ix))

    @staticmethod
    def suunit(ig, ctx, case):
        n = eri.cell().nao
        U = [numpy.eye(n)[:, [q]] for q in range(n)]
        for ix in itertools.product(range(n), repeat=4):
            O = [U[i] for i in ix]
            P = [2.0*U[1 - i] for i in ix]
            ctx.state()
            Explore.unrestricted(ig, ctx, case["k"], O, P, unit=ix)

    @staticmethod
    def scols(ig, ctx, case):
        for cols in itertools.product(range(1, 3), repeat=4):
            for cplx in (False, True):
                ctx.state()
                Explore.restricted(ig, ctx, case["k"], eri.coefs(2, cols, 1, cplx), cols=cols, cplx=cplx)
            b = tuple(3 - c for c in cols)
            for ca, cb in itertools.product((False, True), repeat=2):
                ctx.state()
                Explore.unrestricted(ig, ctx, case["k"], eri.coefs(2, cols, 1, ca), eri.coefs(2, b, 5, cb), a=cols, b=b, cplx=str((ca, cb)))
        C = eri.coefs(2, (1, 2, 2, 1), 1, True)
        D = eri.coefs(2, (2, 1, 2, 1), 5, True)
        for lay in tn.LAYOUTS:
            ctx.state()
            Explore.restricted(ig, ctx, case["k"], [tn.layout(c, lay) for c in C], layout=lay)
            Explore.unrestricted(ig, ctx, case["k"], [tn.layout(c, lay) for c in C], [tn.layout(c, lay) for c in D], layout=lay)

    @staticmethod
    def sucplx(ig, ctx, case):
        """each one of the eight slots complex on its own, or real on its own"""
        for k in range(8):
            for inv in (False, True):
                A = eri.coefs(2, (2, 1, 1, 2), 1, True) + eri.coefs(2, (1, 2, 1, 2), 5, True)
                C = [c if (j == k) != inv else c.real.copy() for j, c in enumerate(A)]
                ctx.state()
                Explore.unrestricted(ig, ctx, case["k"], C[:4], C[4:], slot=k, inverted=inv)
                if k < 4:
                    Explore.restricted(ig, ctx, case["k"], C[:4], slot=k, inverted=inv)

    @staticmethod
    def suall(ig, ctx, case):
        import copy
        from pyscf.pbc import scf
        m, E = mf(case["k"])
        for na, nb in itertools.product(range(1, 3), repeat=2):
            for ca, cb in itertools.product((False, True), repeat=2):
                oa, ob = tn.weyl((2, na), 1, ca), tn.weyl((2, nb), 2, cb)
                O, P = [oa]*4, [ob]*4
                ctx.state()
                x, xa = eri.so_chem(E, O, P, False), eri.so_chem(E, O, P, True)
                p, pa = eri.so_phys(E, O, P, False), eri.so_phys(E, O, P, True)
                todo = [("get_chemu_all_sol", ig.get_chemu_all_sol(m, oa, ob), x),
                        ("get_chemu_all_sol anti=True", ig.get_chemu_all_sol(m, oa, ob, anti=True), xa),
                        ("get_physu_all_sol", ig.get_physu_all_sol(m, oa, ob), p),
                        ("get_physu_all_sol anti=True", ig.get_physu_all_sol(m, oa, ob, anti=True), pa)]
                if na == nb:
                    u = scf.UHF(eri.cell(), kpt=m.kpt, exxdiv=None)
                    u.with_df = m.with_df
                    u.mo_coeff = (oa, ob)
                    u.mo_occ = numpy.zeros((2, na))
                    r = copy.copy(m)
                    r.mo_coeff = oa
                    r.mo_occ = numpy.zeros(na)
                    todo += [("get_physu_all_gen UHF", ig.get_physu_all_gen(u), p),
                             ("get_physu_all_gen UHF anti=True", ig.get_physu_all_gen(u, anti=True), pa),
                             ("get_phys_antiu_all_gen UHF", ig.get_phys_antiu_all_gen(u), pa),
                             ("get_physu_all_gen RHF", ig.get_physu_all_gen(r), eri.so_phys(E, O, O, False)),
                             ("get_phys_antiu_all_gen RHF", ig.get_phys_antiu_all_gen(r), eri.so_phys(E, O, O, True))]
                for nm, got, ref in todo:
                    ctx.step()
                    ctx.same(nm, got, ref, rtol=TOL, k=case["k"], n=(na, nb), cplx=str((ca, cb)))
                ctx.outcome(pa)

    @staticmethod
    def slarge(ig, ctx, case):
        for n in (5, 9):
            cols = [1, 2, 2, 1, 2, 1, 1, 2]
            cols[case["slot"]] = n
            for cplx in (False, True):
                O, P = eri.coefs(2, cols[:4], 1, cplx), eri.coefs(2, cols[4:], 5, cplx)
                ctx.state()
                if case["slot"] < 4:
                    Explore.restricted(ig, ctx, case["k"], O, cols=str(cols), cplx=cplx)
                Explore.unrestricted(ig, ctx, case["k"], O, P, cols=str(cols), cplx=cplx)

    @staticmethod
    def klarge(ig, ctx, case):
        for q in itertools.product(range(3), repeat=4):
            for n in (5, 9):
                cols = [1, 2, 2, 1]
                cols[case["slot"]] = n
                ctx.state()
                Explore.quad(ig, ctx, "3", q, eri.coefs(2, cols, 1, True), cols=str(cols))

    # -- several k-points ---------------------------------------------------
    @staticmethod
    def quad(ig, ctx, mesh, q, C, **d):
        r, _ = kmf(mesh)
        shp = [c.shape[1] for c in C]
        E = kao(mesh, q)
        Ex = kao(mesh, (q[0], q[3], q[2], q[1]))
        x = eri.chem(E, *C) if E is not None else numpy.zeros(shp)
        xa = eri.chem_anti(E, *C, Ex=Ex) if E is not None else numpy.zeros(shp)
        # physicist order of the same four orbitals: <13|24>
        p = (q[0], q[2], q[1], q[3])
        D = (C[0], C[2], C[1], C[3])
        for nm, got, ref in (
                ("get_chem_solk", ig.get_chem_solk(r, q, *C), x),
                ("get_chem_solk anti=True", ig.get_chem_solk(r, q, *C, anti=True), xa),
                ("get_phys_solk", ig.get_phys_solk(r, p, *D), x.transpose(0, 2, 1, 3)),
                ("get_phys_solk anti=True", ig.get_phys_solk(r, p, *D, anti=True), xa.transpose(0, 2, 1, 3))):
            ctx.step()
            ctx.same(nm, got, ref, rtol=TOL, mesh=mesh, q=q, **d)
            if E is None:
                ctx.check(not numpy.any(got), nm + " is exactly zero when crystal momentum is not conserved", mesh=mesh, q=q)
        ctx.note("conserving" if E is not None else "non_conserving")
        ctx.outcome(x, xa)

    @staticmethod
    def kquads(ig, ctx, case):
        r, k = kmf(case["mesh"])
        for rest in itertools.product(range(len(k)), repeat=3):
            q = (case["k1"],) + rest
            for cols in ((1, 2, 2, 1), (2, 1, 2, 1)) if len(k) < 4 else ((1, 2, 2, 1),):
                ctx.state()
                Explore.quad(ig, ctx, case["mesh"], q, eri.coefs(2, cols, 1, True), cols=cols)
        ctx.sample(mesh=case["mesh"], q=list(q))

    @staticmethod
    def kunit(ig, ctx, case):
        r, k = kmf(case["mesh"])
        n = eri.cell().nao
        U = [numpy.eye(n)[:, [j]].astype(complex) for j in range(n)]
        for rest in itertools.product(range(len(k)), repeat=3):
            q = (case["k1"],) + rest
            if kao(case["mesh"], q) is None:
                continue
            for ix in itertools.product(range(n), repeat=4):
                ctx.state()
                Explore.quad(ig, ctx, case["mesh"], q, [U[i] for i in ix], unit=ix)

    @staticmethod
    def kham(ig, ctx, case):
        import copy
        r0, k = kmf(case["mesh"])
        nk = len(k)
        r = copy.copy(r0)
        c = eri.cell()
        hc = numpy.asarray(r.get_hcore())
        for nmo in (1, 2):
            for v in (1, 4):
                mo = [tn.weyl((c.nao, nmo), v + j, True) for j in range(nk)]
                r.mo_coeff = mo
                r.mo_occ = [numpy.zeros(nmo) for j in range(nk)]
                for order in ("chem", "phys", None, "Chem", "PHYS", "c", "p"):
                    if order in ("Chem", "PHYS", "c", "p", None) and (nmo > 1 or v > 1):
                        continue
                    ctx.state()
                    ctx.step()
                    h1, h2 = ig.get_solk_integrals(r) if order is None else ig.get_solk_integrals(r, eriorder=order)
                    ref1 = numpy.array([mo[j].conj().T.dot(hc[j]).dot(mo[j]) for j in range(nk)])
                    ctx.same("one-electron part", h1, ref1, rtol=TOL, mesh=case["mesh"])
                    ref2 = numpy.zeros((nk,)*3 + (nmo,)*4, dtype=complex)
                    full = {}
                    ch = order is None or order[0] in "cC"
                    for q in itertools.product(range(nk), repeat=4):
                        cq = q if ch else (q[0], q[2], q[1], q[3])
                        E = kao(case["mesh"], cq)
                        if E is not None:
                            x = eri.chem(E, *[mo[j] for j in cq])
                            full[q] = x if ch else x.transpose(0, 2, 1, 3)
                            ref2[q[:3]] = full[q]
                    ctx.check(len(full) == nk**3, "one conserving fourth index per triple")
                    ctx.same("two-electron part", h2, ref2, rtol=TOL, mesh=case["mesh"], order=str(order), nmo=nmo)
                    ctx.same("one-electron part is Hermitian", h1, numpy.asarray(h1).conj().transpose(0, 2, 1), rtol=TOL)
                    for q in full:
                        # exchange of the two particles and Hermiticity of the assembled Hamiltonian
                        if ch:
                            ex, he, te, th = (q[2], q[3], q[0], q[1]), (q[1], q[0], q[3], q[2]), (2, 3, 0, 1), (1, 0, 3, 2)
                        else:
                            ex, he, te, th = (q[1], q[0], q[3], q[2]), (q[2], q[3], q[0], q[1]), (1, 0, 3, 2), (2, 3, 0, 1)
                        X = h2[q[:3]]
                        ctx.same("particle exchange", h2[ex[:3]], X.transpose(te), rtol=1e-8, q=q)
                        ctx.same("Hermiticity", h2[he[:3]], X.conj().transpose(th), rtol=1e-8, q=q)
                    ctx.outcome(ref2)
        ctx.sample(mesh=case["mesh"], nk=nk)

    @staticmethod
    def krej(ig, ctx, case):
        """only restricted k-point mean fields are accepted by the assembled Hamiltonian"""
        from pyscf.pbc import scf
        r, k = kmf("2")
        u = scf.KUHF(eri.cell(), k, exxdiv=None)
        u.verbose = 0
        u.mo_coeff = [[numpy.eye(2)]*2]*2
        u.mo_occ = [[numpy.zeros(2)]*2]*2
        ctx.state()
        ctx.step()
        try:
            ig.get_solk_integrals(u)
            ok = False
        except Exception:
            ok = True
        ctx.check(ok, "get_solk_integrals refuses an unrestricted mean field")
        ctx.outcome("rejected")
