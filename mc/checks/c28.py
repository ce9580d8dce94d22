"""C28: whole calculations on systems for which coupled cluster is exact."""
import itertools

import numpy

from mc import ci
from mc import eri
from mc import fock
from mc import tensors as tn

BOUND = {
    "quick": "systems of separate fragments with at most two electrons each (site models with hopping, on-site and neighbour repulsion and bias): one pair on 2 and 3 sites and two pairs on 2 + 2 sites for every combination of hopping {0.3, 1}, on-site repulsion {0.4, 0.8}, neighbour repulsion {0, 0.3} and bias {2, 3}; 26 further fragment lists with one to three fragments of 1 to 8 sites holding 0, 1 or 2 electrons of equal or opposite spin; each in five orbital sets (eigenvectors of the one-electron part; rotated; different for the two spins; complex; complex and different for the two spins); the molecules He, H2, HeH+ and H3+ through the molecular integral routines in restricted and unrestricted orbitals; every amplitude, Lambda, energy, density and CI routine on each, over all combinations of amplitude and Lambda implementations",
    "thorough": "as quick with the full parameter lattice for all fragment lists of at most 6 sites"}
ASSUMPTIONS = ["floating-point agreement to 1e-8 relative after iterating to 1e-12",
               "the systems of the bound have a gap large enough for the damped iteration to converge (observed)"]
TOL = 1e-8
SHIFT = 1.0
ORBS = ("core", "rotated", "two", "phase", "phase2")
# fragments: sites, alpha electrons, beta electrons
GRID = ("211", "311", "211 211")
LISTS = ("111", "411", "511", "611", "811", "111 211", "111 111 211", "211 211 211", "311 311", "211 411", "210", "201", "310", "320", "302",
         "420", "211 210", "211 301", "311 310", "211 320", "211 302", "210 201", "210 210 211", "200 211", "111 220", "211 310 201")


def cases(tier):
    th = tier == "thorough"
    for s in GRID + LISTS:
        few = s not in GRID and not (th and sum(int(x[0]) for x in s.split()) <= 6)
        for t, U, W, b in itertools.product((0.3, 1.0), (0.4, 0.8), (0.0, 0.3), (2.0, 3.0)):
            if few and (t, U, W, b) != (1.0, 0.8, 0.3, 3.0):
                continue
            for o in ORBS:
                yield {"kind": "sites", "sites": s, "t": t, "U": U, "W": W, "bias": b, "orb": o}
    for m in ("he", "h2", "heh", "h3"):
        for o in ("core", "two"):
            yield {"kind": "molecule", "mol": m, "orb": o}


def cost(c):
    return sum(int(x[0]) for x in c["sites"].split())**3 if "sites" in c else 60


def unitary(n, k, size, cplx):
    """orbital rotation close to (size small) or far from the identity"""
    A = tn.weyl((n, n), k, cplx)
    A = size*(A - A.conj().T)
    w, v = numpy.linalg.eigh(1j*A)
    U = (v*numpy.exp(-1j*w)).dot(v.conj().T)
    return U if cplx else U.real


def chain(n, t, U, W, b, k):
    """site Hamiltonian h, <pq|rs>"""
    h = numpy.zeros((n, n))
    V = numpy.zeros((n,)*4)
    for p in range(n):
        h[p, p] = b*p + 0.05*k
        V[p, p, p, p] = U*(1 + 0.1*p)
        if p:
            h[p, p-1] = h[p-1, p] = -t
            V[p, p-1, p, p-1] = V[p-1, p, p-1, p] = W
    return h, V


def rotate(h, V, A, B=None):
    B = A if B is None else B
    return (A.conj().T.dot(h).dot(A),
            numpy.einsum('pqrs,pi,qj,rk,sl->ijkl', V, A.conj(), B.conj(), A, B, optimize=True))


def blockdiag(parts):
    n = sum(len(x) for x in parts)
    out = numpy.zeros((n,)*parts[0].ndim, dtype=numpy.result_type(*parts))
    at = 0
    for x in parts:
        out[(slice(at, at + len(x)),)*x.ndim] = x
        at += len(x)
    return out


def exact(ha, hb, V, Ca, Cb, na, nb):
    """energy and site-basis densities of at most two electrons in the state that resembles the reference
    determinant most (first quantization)"""
    n = len(ha)
    Z = numpy.zeros((n, n))
    one = numpy.eye(n)
    if na + nb == 0:
        return 0.0, Z, Z
    if na + nb == 1:
        w, v = numpy.linalg.eigh(ha if na else hb)
        c = (Ca if na else Cb)[:, 0]
        k = int(numpy.argmax(abs(v.conj().T.dot(c))))
        D = numpy.outer(v[:, k], v[:, k].conj())
        return w[k], D if na else Z, D if nb else Z
    h1, h2 = ha if na else hb, hb if nb else ha
    H = (numpy.einsum('pr,qs->pqrs', h1, one) + numpy.einsum('pr,qs->pqrs', one, h2) + V).reshape(n*n, n*n)
    if na == nb:
        P = numpy.eye(n*n)
        ref = numpy.outer(Ca[:, 0], Cb[:, 0])
    else:
        C = Ca if na else Cb
        P = numpy.array([(numpy.outer(one[p], one[q]) - numpy.outer(one[q], one[p])).ravel()/numpy.sqrt(2) for p in range(n) for q in range(p)]).T
        ref = (numpy.outer(C[:, 0], C[:, 1]) - numpy.outer(C[:, 1], C[:, 0]))/numpy.sqrt(2)
    w, v = numpy.linalg.eigh(P.T.dot(H).dot(P))
    v = P.dot(v)
    k = int(numpy.argmax(abs(v.conj().T.dot(ref.ravel()))))
    c = v[:, k].reshape(n, n)
    A, B = c.dot(c.conj().T), c.T.dot(c.conj())
    if na == nb:
        return w[k], A, B
    return w[k], A + B if na else Z, A + B if nb else Z


def run(case, ctx):
    if case["kind"] == "molecule":
        return molecule(ctx, case)
    frag = [[int(y) for y in x] for x in case["sites"].split()]
    kind = case["orb"]
    E, D, H, C = 0.0, ([], []), [], ([], [])
    for k, (n, na, nb) in enumerate(frag):
        h, V = chain(n, case["t"], case["U"], case["W"], case["bias"], k)
        c = numpy.linalg.eigh(h)[1]
        cs = [c.dot(unitary(n, j, 0.1, kind.startswith("phase"))) if kind != "core" else c for j in ((1, 4) if kind in ("two", "phase2") else (1, 1))]
        # a field that keeps electrons from moving between the fragments
        hs = [h + (2.0*(x == 0) - 1.0*(max(na, nb) == 2))*numpy.eye(n) for x in (na, nb)]
        e, da, db = exact(hs[0], hs[1], V, cs[0], cs[1], na, nb)
        E += e
        H.append((hs[0], hs[1], V))
        for s in (0, 1):
            D[s].append((da, db)[s])
            C[s].append(cs[s])
    ha, hb, V = [blockdiag([x[j] for x in H]) for j in (0, 1, 2)]
    X = []
    for s in (0, 1):
        c = blockdiag(C[s])
        occ, at = [], 0
        for x in frag:
            occ += list(range(at, at + x[1 + s]))
            at += x[0]
        c = c[:, occ + [p for p in range(at) if p not in occ]]
        if kind != "core":                       # occupied and virtual orbitals among themselves
            no = len(occ)
            R = unitary(no, 2 + 3*s*(kind in ("two", "phase2")), 0.4, kind.startswith("phase"))
            S = unitary(at - no, 3 + 3*s*(kind in ("two", "phase2")), 0.15, kind.startswith("phase"))
            c = c.dot(numpy.block([[R, numpy.zeros((no, at - no))], [numpy.zeros((at - no, no)), S]]))
        X.append(c)
    R = [rotate(ha, V, X[0]), rotate(hb, V, X[1])]
    Vab = rotate(ha, V, X[0], X[1])[1]
    D = [x.conj().T.dot(blockdiag(d)).dot(x) for x, d in zip(X, D)]
    no = [sum(x[1 + s] for x in frag) for s in (0, 1)]
    solve(ctx, case, no[0], no[1], R[0][0], R[1][0], R[0][1], R[1][1], Vab,
          kind in ("core", "rotated", "phase") and all(x[1:] == [1, 1] for x in frag), E, D)


def molecule(ctx, case):
    from pyscf import scf
    from cqcpy import integrals as ig
    m = eri.mol(case["mol"])
    S = m.intor("int1e_ovlp")
    hcore = m.intor("int1e_kin") + m.intor("int1e_nuc")
    w, v = numpy.linalg.eigh(S)
    X = (v/numpy.sqrt(w)).dot(v.T)
    C = X
    for _ in range(200):                     # closed-shell mean field on the reference integrals
        f = hcore
        if _:
            D = 2*numpy.outer(C[:, 0], C[:, 0])
            E = eri.ao(case["mol"])
            f = hcore + numpy.einsum('pqrs,rs->pq', E, D) - 0.5*numpy.einsum('psrq,rs->pq', E, D)
        C = X.dot(numpy.linalg.eigh(X.dot(f).dot(X))[1])
    A, B = (C, C) if case["orb"] == "core" else [C.dot(unitary(C.shape[1], k, 0.05, False)) for k in (1, 4)]
    h = [Y.T.dot(hcore).dot(Y) for Y in (A, B)]
    V = [ig.get_phys(m, Y, Y, Y, Y) for Y in (A, B)]
    Vab = ig.get_phys(m, A, B, A, B)
    ctx.step(3)
    n = A.shape[1]
    if case["orb"] == "core":
        mf = scf.RHF(m)
        mf.mo_coeff, mf.mo_occ = A, numpy.array([2.0] + [0.0]*(n - 1))
    else:
        mf = scf.UHF(m)
        mf.mo_coeff, mf.mo_occ = numpy.array([A, B]), numpy.array([[1.0] + [0.0]*(n - 1)]*2)
    blocks = ig.eri_blocks(mf)
    ctx.step()
    ao = eri.ao(case["mol"]).transpose(0, 2, 1, 3)
    L = X.T.dot(hcore).dot(X), rotate(hcore, ao, X)[1]     # symmetrically orthogonalized basis
    Y = [numpy.linalg.inv(X).dot(Z) for Z in (A, B)]
    E, da, db = exact(L[0], L[0], L[1], Y[0], Y[1], 1, 1)
    D = [Z.T.dot(d).dot(Z) for Z, d in zip(Y, (da, db))]
    solve(ctx, case, 1, 1, h[0], h[1], V[0], V[1], Vab, case["orb"] == "core", E, D, blocks)


def iterate(update, x, D):
    """fixed-point iteration of a list of amplitudes, damped by a level shift"""
    for k in range(3000):
        r = update(x)
        step = [-a/(b + SHIFT) for a, b in zip(r, D)]
        x = [a + b for a, b in zip(x, step)]
        big = max([abs(s).max() for s in step if s.size] + [0.0])
        if big < 1e-12:
            return x, True
        if big > 1e6:
            break
    return x, False


def solve(ctx, case, noa, nob, ha, hb, Va, Vb, Vab, restricted, E, dens, blocks=None):
    from cqcpy import cc_energy as en, cc_equations as cc, ci_utils as cu, ov_blocks as ov, spin_utils as su, utils as ut
    n = ha.shape[0]
    nva, nvb, N = n - noa, n - nob, noa + nob
    dims = (noa, nva, nob, nvb)
    no, nv = noa + nob, nva + nvb
    what = dict(orbitals=case["orb"])
    dt = numpy.result_type(Va, Vb, Vab)
    anti = lambda x: x - x.transpose(0, 1, 3, 2)
    oa, ob = slice(0, noa), slice(0, nob)
    ctx.state()
    ctx.outcome(E)
    # -- CI by the library
    uC = gC = None
    if N in (2, 3, 4) and len(fock.sector(2*n, N)) <= 70:
        h, I = ci.spin_orbital(ha, hb, Va, Vb, Vab)
        Sec = ci.sector(2*n, N)
        ref = sum(1 << p for p in list(range(noa)) + list(range(n, n + nob)))
        dets = [d for d in Sec.all if fock.popcount(d & ((1 << n) - 1)) == noa]
        at = [Sec.ia[d] for d in dets]
        w, v = numpy.linalg.eigh(Sec.H(h, I, 0.0)[numpy.ix_(at, at)])
        r = dets.index(ref)
        k = int(numpy.argmax(abs(v[r])))
        if abs(w[k] - E) > 1e-9 or sum(abs(w - w[k]) < 1e-6) > 1:
            raise RuntimeError("reference models disagree or state not unique")
        coef = dict(zip(dets, v[:, k]/v[r, k]))
        ub = {2: cu.ucisd_basis, 3: cu.ucisdt_basis, 4: cu.ucisdtq_basis}[N](n, noa, nob)
        uC = numpy.array([coef[ci.mask_of(list(a.occ) + list(b.occ))] for a, b in ub])
        M = numpy.array([[cu.ci_matrixel(a, b, c, d, ha, hb, Va, Vb, Vab, 0.0) for c, d in ub] for a, b in ub])
        ctx.step(len(ub)**2)
        ctx.same("CI energies", numpy.linalg.eigvalsh(M), w, rtol=TOL, **what)
        ctx.same("spin-resolved Hamiltonian on the exact state", cu.H_on_vec(ub, uC, ha, hb, Va, Vb, Vab), E*uC, rtol=TOL, **what)
        ctx.step()
        if noa - nob in (0, 1):
            gb = {2: cu.gcisd_basis, 3: cu.gcisdt_basis, 4: cu.gcisdtq_basis}[N](2*n, N)
            gC = numpy.array([coef.get(ci.mask_of(d.occ), 0.0) for d in gb])
            ctx.same("spin-orbital Hamiltonian on the exact state", cu.gH_on_vec(gb, gC, h, I), E*gC, rtol=TOL, **what)
            ctx.step()
    # -- containers and mean field
    fa = ha + numpy.einsum('pjqj->pq', anti(Va)[:, oa, :, oa]) + numpy.einsum('pjqj->pq', Vab[:, ob, :, ob])
    fb = hb + numpy.einsum('pjqj->pq', anti(Vb)[:, ob, :, ob]) + numpy.einsum('jpjq->pq', Vab[oa, :, oa, :])
    E0 = sum((x + y).diagonal()[z].sum() for x, y, z in ((ha, fa, oa), (hb, fb, ob)))/2
    Fa, Fb = tn.oblocks(fa, noa), tn.oblocks(fb, nob)
    two = lambda x, o, v: ov.make_two_e_blocks(x, o, v, o, v, o, v, o, v)
    full = lambda x, o, v, p, w: ov.make_two_e_blocks_full(x, o, v, p, w, o, v, p, w)
    Ia, Ib, Iab = two(anti(Va), noa, nva), two(anti(Vb), nob, nvb), full(Vab, *dims)
    F = su.F_to_spin(Fa, Fb, *dims)
    Ig = blocks if blocks is not None else su.int_to_spin2(full(anti(Va), noa, nva, noa, nva), full(anti(Vb), nob, nvb, nob, nvb), Iab, *dims)
    ctx.step(5)
    # -- spin-orbital
    eo, ev = F.oo.diagonal().real, F.vv.diagonal().real
    d1, d2 = ut.D1(ev, eo), ut.D2(ev, eo)
    flip = lambda x: x.transpose(1, 0) if x.ndim == 2 else x.transpose(2, 3, 0, 1)
    zt = [numpy.zeros(d1.shape, dt), numpy.zeros(d2.shape, dt)]
    zl, ld = [flip(x) for x in zt], [flip(d1), flip(d2)]
    parts = [{"ba": d[o:, o:], "ji": d[:o, :o] - numpy.eye(o), "ai": d[o:, :o], "ia": d[:o, o:]} for d, o in zip(dens, (noa, nob))]
    both = {b: numpy.block([[parts[0][b], numpy.zeros((parts[0][b].shape[0], parts[1][b].shape[1]))],
                            [numpy.zeros((parts[1][b].shape[0], parts[0][b].shape[1])), parts[1][b]]]) for b in parts[0]}
    T = L = None
    for r in ("ccsd_simple", "ccsd_stanton"):
        T, ok = iterate(lambda t: getattr(cc, r)(F, Ig, *t), zt, [d1, d2])
        ctx.step()
        ctx.check(ok, r + " converges", **what)
        ctx.same(r + ": energy", E0 + en.cc_energy(*T, F.ov, Ig.oovv), E, rtol=TOL, **what)
        if gC is not None:
            ctx.same(r + ": state", cu.gmakeCfromT(no, nv, T[0], T[1], N), gC, rtol=TOL, **what)
        inter = cc.lambda_int(F, Ig, *T)
        for l in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton", "ccsd_lambda_opt_int"):
            more = (inter,) if l.endswith("int") else ()
            L, ok = iterate(lambda x: getattr(cc, l)(F, Ig, x[0], x[1], T[0], T[1], *more), zl, ld)
            ctx.step()
            ctx.check(ok, l + " converges", **what)
            for b in ("ba", "ji", "ai"):
                for suffix in ("", "_opt"):
                    P = getattr(cc, "ccsd_1rdm_" + b + suffix)(*T, *L)
                    ctx.step()
                    ctx.same("%s, %s: density %s%s" % (r, l, b, suffix), P, both[b], rtol=TOL, **what)
            ctx.same("%s, %s: density ia" % (r, l), L[0], both["ia"], rtol=TOL, **what)
    # -- unrestricted
    ea = [(x.oo.diagonal().real, x.vv.diagonal().real) for x in (Fa, Fb)]
    (eoa, eva), (eob, evb) = ea
    du = [ut.D1(eva, eoa), ut.D1(evb, eob), ut.D2(eva, eoa), ut.D2u(eva, evb, eoa, eob), ut.D2(evb, eob)]
    zu = [numpy.zeros(x.shape, dt) for x in du]

    def flat(x):
        return list(x[0]) + list(x[1])
    TU, ok = iterate(lambda t: flat(cc.uccsd_stanton(Fa, Fb, Ia, Ib, Iab, tuple(t[:2]), tuple(t[2:]))), zu, du)
    ctx.step()
    ctx.check(ok, "uccsd_stanton converges", **what)
    ctx.same("uccsd_stanton: energy", E0 + en.ucc_energy(tuple(TU[:2]), tuple(TU[2:]), Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv), E, rtol=TOL, **what)
    if uC is not None:
        ctx.same("uccsd_stanton: state", cu.makeCfromT(*dims, *TU, order=N), uC, rtol=TOL, **what)
    ctx.same("singles of both forms", su.T1_to_spin(TU[0], TU[1], *dims), T[0], rtol=TOL, **what)
    ctx.same("doubles of both forms", su.T2_to_spin(TU[2], TU[3], TU[4], *dims), T[1], rtol=TOL, **what)
    LU, ok = iterate(lambda x: flat(cc.uccsd_lambda_opt(Fa, Fb, Ia, Ib, Iab, tuple(x[:2]), tuple(x[2:]), tuple(TU[:2]), tuple(TU[2:]))),
                     [flip(x) for x in zu], [flip(x) for x in du])
    ctx.step(4)
    ctx.check(ok, "uccsd_lambda_opt converges", **what)
    for b in ("ba", "ji", "ai"):
        P = getattr(cc, "uccsd_1rdm_" + b)(*TU, *LU)
        ctx.step()
        for s in (0, 1):
            ctx.same("unrestricted density %s" % b, P[s], parts[s][b], rtol=TOL, spin=s, **what)
    # -- restricted
    if not restricted:
        return
    Ir = full(Va, *dims)
    dr = [du[0], du[3]]
    TR, ok = iterate(lambda t: cc.rccsd_stanton(Fa, Ir, *t), [numpy.zeros(x.shape, dt) for x in dr], dr)
    ctx.step()
    ctx.check(ok, "rccsd_stanton converges", **what)
    ctx.same("rccsd_stanton: energy", E0 + en.rcc_energy(*TR, Fa.ov, Ir.oovv), E, rtol=TOL, **what)
    ctx.same("rccsd_stanton: doubles", TR[1], TU[3], rtol=TOL, **what)
    LR, ok = iterate(lambda x: cc.rccsd_lambda_opt(Fa, Ir, x[0], x[1], *TR), [flip(numpy.zeros(x.shape, dt)) for x in dr], [flip(x) for x in dr])
    ctx.step()
    ctx.check(ok, "rccsd_lambda_opt converges", **what)
    for b in ("ba", "ji", "ai"):
        P = getattr(cc, "rccsd_1rdm_" + b)(*TR, *LR)
        ctx.step()
        ctx.same("restricted density %s" % b, P, parts[0][b], rtol=TOL, **what)
    ctx.sample(case=case, energy=float(E))
