"""C04: operators acting on CI vectors."""
import itertools

import numpy

from mc import ci
from mc import fock
from mc import tensors as tn
from mc.checks import c03

BOUND = {
    "quick": "spin-orbital moves: S, SD, SDT and full bases of nmo = 2, 4 (all electron numbers, every unit vector, every index pair/quadruple with coinciding indices), 6 (dense vectors); spin-resolved moves: the same for 2 and 3 spatial orbitals, all (na,nb), 4 spatial for single moves; basis reversed, rotated and with each element removed; real and complex vectors; Hamiltonian action on every unit vector and dense vectors; bases on 5 chosen orbitals out of 9..65",
    "thorough": "as quick with every unit vector for nmo = 6 and 3 spatial orbitals and Hamiltonian action for 4 spatial / 8 spin orbitals"}
ASSUMPTIONS = ["floating-point agreement to 1e-9 relative", "a two-electron move is the move i to a followed by j to b"]

G = ("gcis", "gcisd", "gcisdt", "gcisdtq")
U = ("ucis", "ucisd", "ucisdt", "ucisdtq")


def cases(tier):
    th = tier == "thorough"
    for nmo in (2, 4, 6):
        for N in range(nmo + 1):
            for b in G[:1 + min(3, nmo//2)] + ("full",):
                yield {"kind": "gmove", "nmo": nmo, "N": N, "basis": b, "units": int(nmo < 6 or th)}
    for n in (1, 2, 3, 4):
        for na, nb in itertools.product(range(n + 1), repeat=2):
            for b in (U[:min(4, 1 + n)] if n < 4 else U[:2]):
                yield {"kind": "umove", "n": n, "na": na, "nb": nb, "basis": b, "units": int(n < 3 or th and n < 4)}
    for nmo in (2, 4, 6) + ((8,) if th else ()):
        for N in range(nmo + 1):
            yield {"kind": "gham", "nmo": nmo, "N": N}
    for n in (1, 2, 3) + ((4,) if th else ()):
        for na, nb in itertools.product(range(n + 1), repeat=2):
            yield {"kind": "uham", "n": n, "na": na, "nb": nb}

    for n in (9, 17, 33, 65):
        yield {"kind": "wide", "n": n}


def cost(c):
    return c.get("nmo", 2*c.get("n", 0))


def variants(basis):
    """the basis in other orders and with elements missing"""
    yield "as built", list(basis)
    if len(basis) > 1:
        yield "reversed", list(basis)[::-1]
        k = len(basis)//2
        yield "rotated", list(basis)[k:] + list(basis)[:k]
    for k in range(len(basis)) if len(basis) <= 7 else (0, len(basis)//2, len(basis) - 1):
        yield "without %d" % k, basis[:k] + basis[k+1:]


def vectors(m, units):
    v = tn.weyl((m,), 3)
    yield "dense", v
    yield "complex", tn.weyl((m,), 5, True)
    if units:
        for k in range(m):
            e = numpy.zeros(m)
            e[k] = 1
            yield "unit %d" % k, e


def act(masks, vec, moves):
    """apply moves (list of (i,a), first applied first) and project"""
    ix = {m: k for k, m in enumerate(masks)}
    out = numpy.zeros(len(masks), dtype=vec.dtype)
    for k, m in enumerate(masks):
        s = 1
        for i, a in moves:
            r = ci.move(m, i, a)
            if r is None:
                break
            s *= r[0]
            m = r[1]
        else:
            if m in ix:
                out[ix[m]] += s*vec[k]
    return out


def run(case, ctx):
    from cqcpy import ci_utils as cu
    getattr(Explore, case["kind"])(cu, ctx, case)


def call(ctx, what, fn, basis, vec, args, ref, occs, key, **d):
    v = vec.copy()
    b = list(basis)
    out = fn(b, v, *args)
    ctx.step()
    ctx.same(what, out, ref, args=str(args)[:60], **d)
    ctx.check(numpy.array_equal(v, vec), what + ": input vector unchanged", **d)
    ctx.check(len(b) == len(basis) and all(x is y for x, y in zip(b, basis)) and [key(x) for x in basis] == occs,
              what + ": basis unchanged", **d)
    ctx.outcome(ref)


class Explore(object):
    @staticmethod
    def wide(cu, ctx, case):
        """bases on a few of many orbitals"""
        n = case["n"]
        K = sorted(set((0, 1, n//2, n - 2, n - 1)))
        for N in range(len(K) + 1):
            occs = [[int(p in c) for p in range(n)] for c in itertools.combinations(K, N)]
            basis = [cu.Dstring(n, o) for o in occs]
            key = lambda s: ci.mask_of(s.occ)
            masks = [key(s) for s in basis]
            vec = tn.weyl((len(basis),), 3)
            ctx.state()
            for i, a in itertools.product(K, repeat=2):
                call(ctx, "s_on_vec", cu.s_on_vec, basis, vec, (i, a), act(masks, vec, [(i, a)]), masks, key, n=n)
            for i, j, a, b in itertools.product(K, repeat=4):
                call(ctx, "d_on_vec", cu.d_on_vec, basis, vec, (i, j, a, b), act(masks, vec, [(i, a), (j, b)]), masks, key, n=n)
            if n < 40:
                h, I = c03.pair_dense(n, 4, False, False)
                S = ci.sector(len(K), N)
                M = S.H(h[numpy.ix_(K, K)], I[numpy.ix_(K, K, K, K)], 0.0)
                small = [S.ia[sum(1 << k for k, x in enumerate(K) if o[x])] for o in occs]
                ctx.step()
                ctx.same("gH_on_vec", cu.gH_on_vec(basis, vec, h, I), M[numpy.ix_(small, small)].dot(vec), n=n, N=N)
        for Na, Nb in itertools.product(range(3), repeat=2):
            basis = [(cu.Dstring(n, [int(p in c) for p in range(n)]), cu.Dstring(n, [int(p in d) for p in range(n)]))
                     for c in itertools.combinations(K, Na) for d in itertools.combinations(K, Nb)]
            key = lambda s: ci.mask_of(s[0].occ) | ci.mask_of(s[1].occ) << n
            masks = [key(s) for s in basis]
            vec = tn.weyl((len(basis),), 3)
            ctx.state()
            for i, a in itertools.product(K, repeat=2):
                call(ctx, "sa_on_vec", cu.sa_on_vec, basis, vec, (i, a), act(masks, vec, [(i, a)]), masks, key, n=n)
                call(ctx, "sb_on_vec", cu.sb_on_vec, basis, vec, (i, a), act(masks, vec, [(i + n, a + n)]), masks, key, n=n)

    @staticmethod
    def gbasis(cu, nmo, N, name):
        if name == "full":
            return [cu.Dstring(nmo, o) for o in ci.occs(nmo, N)]
        return getattr(cu, name + "_basis")(nmo, N)

    @staticmethod
    def gmove(cu, ctx, case):
        nmo, N = case["nmo"], case["N"]
        built = Explore.gbasis(cu, nmo, N, case["basis"])
        key = lambda s: ci.mask_of(s.occ)
        vs = list(variants(built)) if nmo < 6 else list(variants(built))[:3]
        for vname, basis in vs:
            masks = [key(s) for s in basis]
            ctx.state()
            for kname, vec in vectors(len(basis), case["units"]):
                d = dict(order=vname, vector=kname)
                for i, a in itertools.product(range(nmo), repeat=2):
                    call(ctx, "s_on_vec", cu.s_on_vec, basis, vec, (i, a), act(masks, vec, [(i, a)]), masks, key, **d)
                if nmo == 6 and (vname != "as built" or kname[0] == "c"):
                    continue
                for i, j, a, b in itertools.product(range(nmo), repeat=4):
                    call(ctx, "d_on_vec", cu.d_on_vec, basis, vec, (i, j, a, b), act(masks, vec, [(i, a), (j, b)]), masks, key, **d)

    @staticmethod
    def umove(cu, ctx, case):
        n, na, nb = case["n"], case["na"], case["nb"]
        built = getattr(cu, case["basis"] + "_basis")(n, na, nb)
        key = lambda s: ci.mask_of(s[0].occ) | ci.mask_of(s[1].occ) << n
        vs = list(variants(built)) if n < 3 else list(variants(built))[:3]
        for vname, basis in vs:
            masks = [key(s) for s in basis]
            ctx.state()
            for kname, vec in vectors(len(basis), case["units"]):
                d = dict(order=vname, vector=kname)
                for i, a in itertools.product(range(n), repeat=2):
                    call(ctx, "sa_on_vec", cu.sa_on_vec, basis, vec, (i, a), act(masks, vec, [(i, a)]), masks, key, **d)
                    call(ctx, "sb_on_vec", cu.sb_on_vec, basis, vec, (i, a), act(masks, vec, [(i + n, a + n)]), masks, key, **d)
                if n == 4 or n == 3 and vname != "as built" and len(basis) > 9:
                    continue
                for i, j, a, b in itertools.product(range(n), repeat=4):
                    x = (i, j, a, b)
                    call(ctx, "da_on_vec", cu.da_on_vec, basis, vec, x, act(masks, vec, [(i, a), (j, b)]), masks, key, **d)
                    call(ctx, "db_on_vec", cu.db_on_vec, basis, vec, x, act(masks, vec, [(i + n, a + n), (j + n, b + n)]), masks, key, **d)
                    call(ctx, "sasb_on_vec", cu.sasb_on_vec, basis, vec, x, act(masks, vec, [(i, a), (j + n, b + n)]), masks, key, **d)

    @staticmethod
    def gham(cu, ctx, case):
        nmo, N = case["nmo"], case["N"]
        S = ci.sector(nmo, N)
        key = lambda s: ci.mask_of(s.occ)
        for bname in G[:3] + ("full",):
            built = Explore.gbasis(cu, nmo, N, bname)
            if len(built) > 36 and bname != "gcisd":
                continue
            for cplx in (False, True):
                h, I = c03.pair_dense(nmo, 4, cplx, False)
                M = S.H(h, I, 0.0)
                for vname, basis in list(variants(built))[:4]:
                    masks = [key(s) for s in basis]
                    ix = [S.ia[m] for m in masks]
                    ctx.state()
                    for kname, vec in vectors(len(basis), len(basis) <= 8):
                        if cplx and kname[0] == "u":
                            continue
                        ref = M[numpy.ix_(ix, ix)].dot(vec) if len(ix) else numpy.zeros(0)
                        call(ctx, "gH_on_vec", cu.gH_on_vec, basis, vec, (h, I), ref, masks, key, order=bname + " " + vname, vector=kname)

    @staticmethod
    def uham(cu, ctx, case):
        n, na, nb = case["n"], case["na"], case["nb"]
        S = ci.sector(2*n, na + nb)
        key = lambda s: ci.mask_of(s[0].occ) | ci.mask_of(s[1].occ) << n
        for bname in U[:3]:
            built = getattr(cu, bname + "_basis")(n, na, nb)
            for cplx in (False, True):
                H = c03.udense(n, n, 2, cplx, False)
                M = S.H(*ci.spin_orbital(*H), 0.0)
                for vname, basis in list(variants(built))[:4]:
                    masks = [key(s) for s in basis]
                    ix = [S.ia[m] for m in masks]
                    ctx.state()
                    for kname, vec in vectors(len(basis), len(basis) <= 5):
                        if cplx and kname[0] == "u":
                            continue
                        ref = M[numpy.ix_(ix, ix)].dot(vec) if len(ix) else numpy.zeros(0)
                        call(ctx, "H_on_vec", cu.H_on_vec, basis, vec, H, ref, masks, key, order=bname + " " + vname, vector=kname)
