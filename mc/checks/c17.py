"""C17: spin-blocked <-> spin-orbital storage."""
import itertools

import numpy

from mc import spin
from mc import tensors as tn
from mc import size

BOUND = {
    "quick": "all alpha/beta occupied/virtual counts 0..2 (81 shapes): every unit element of Fock, T1, T2, D2, plain and antisymmetrized integrals (units of integrals on shapes with at most 6 spin orbitals), dense tensors with both dtypes, every mixed real/complex choice of the blocks, five storage layouts, and return trips; all eight block extents 0..2 (6561) for the six-block assembly, and every single and every pair of its extents at 5, 9, 17 and 33 (pairs: 7)",
    "thorough": "as quick with counts 0..3 (256 shapes) for dense data and unit integrals on all shapes with at most 8 spin orbitals"}
ASSUMPTIONS = ["same-spin integrals given in plain form have particle-exchange symmetry, antisymmetrized ones are antisymmetric"]

SPINS = ("aaaa", "bbbb", "abab", "baba", "abba", "baab")


def cases(tier):
    top = 4 if tier == "thorough" else 3
    lim = 8 if tier == "thorough" else 6
    for s in itertools.product(range(top), repeat=4):
        yield {"kind": "dense", "shape": list(s)}
        if sum(s) <= lim:
            yield {"kind": "units", "shape": list(s)}
    for na in itertools.product(range(3), repeat=4):
        yield {"kind": "block", "na": list(na)}
    for k in range(8):
        yield {"kind": "longblock", "k": k}


def cost(c):
    return sum(c["shape"])**4 * (40 if c["kind"] == "units" else 1) if "shape" in c else 30


def run(case, ctx):
    from cqcpy import spin_utils as su
    getattr(Explore, case["kind"])(su, ctx, case)


# -- element-by-element reference (no slicing shared with the implementation) --
def spins_of(classes, sh):
    """list of (spin, index in the spin space) for each axis"""
    out = []
    for c in classes:
        na, nb = (sh.noa, sh.nob) if c == "o" else (sh.nva, sh.nvb)
        out.append([("a", i) for i in range(na)] + [("b", i) for i in range(nb)])
    return out


def build(classes, sh, get, dtype):
    ax = spins_of(classes, sh)
    X = numpy.zeros([len(a) for a in ax], dtype=dtype)
    for ix in itertools.product(*[range(len(a)) for a in ax]):
        lab = [ax[k][i] for k, i in enumerate(ix)]
        X[ix] = get("".join(x[0] for x in lab), tuple(x[1] for x in lab))
    return X


def two(aa, bb):
    def get(s, i):
        return aa[i] if s == "aa" else bb[i] if s == "bb" else 0
    return get


def four(aaaa, bbbb, abab, sign=-1):
    def get(s, i):
        p, q, r, t = i
        if s == "aaaa":
            return aaaa[i]
        if s == "bbbb":
            return bbbb[i]
        if s == "abab":
            return abab[p, q, r, t]
        if s == "baba":
            return abab[q, p, t, r]
        if s == "abba":
            return sign*abab[p, q, t, r]
        if s == "baab":
            return sign*abab[q, p, r, t]
        return 0
    return get


def containers(sh, V, full):
    from cqcpy.ov_blocks import two_e_blocks, two_e_blocks_full
    a, b = sh.noa, sh.nob
    oa, va, ob, vb = slice(0, a), slice(a, None), slice(0, b), slice(b, None)
    one = []
    for X, o, v in ((V[0], [oa]*4, [va]*4), (V[1], [ob]*4, [vb]*4)):
        if full:
            one.append(two_e_blocks_full(**{k: tn.blk(X, k, o, v) for k in tn.NAMES16}))
        else:
            one.append(two_e_blocks(**{k: tn.blk(X, k, o, v) for k in tn.NAMES9}))
    one.append(two_e_blocks_full(**{k: tn.blk(V[2], k, [oa, ob, oa, ob], [va, vb, va, vb]) for k in tn.NAMES16}))
    return one


def split(sh, k, i, spin):
    """position of (class letter k, index i) in the spatial space of that spin"""
    return i if k == "o" else i + (sh.noa if spin == "a" else sh.nob)


class Explore(object):
    # ---------------------------------------------------------------- checks
    @staticmethod
    def fock(su, ctx, sh, fa, fb, **d):
        from mc.tensors import oblocks
        Fa, Fb = oblocks(fa, sh.noa), oblocks(fb, sh.nob)
        Explore.fock_blocks(su, ctx, sh, Fa, Fb, **d)

    @staticmethod
    def fock_blocks(su, ctx, sh, Fa, Fb, **d):
        F = su.F_to_spin(Fa, Fb, *sh.key)
        ctx.step()
        for k in ("oo", "ov", "vo", "vv"):
            a, b = getattr(Fa, k), getattr(Fb, k)
            ref = build(k, sh, two(a, b), numpy.result_type(a, b))
            ctx.same("F_to_spin " + k, getattr(F, k), ref, shape=sh.key, **d)
            ctx.outcome(k, ref)
        Ga, Gb = su.F_to_spatial(F, *sh.key)
        ctx.step()
        for k in ("oo", "ov", "vo", "vv"):
            ctx.same("F_to_spatial alpha " + k, getattr(Ga, k), getattr(Fa, k), shape=sh.key, **d)
            ctx.same("F_to_spatial beta " + k, getattr(Gb, k), getattr(Fb, k), shape=sh.key, **d)

    @staticmethod
    def t1(su, ctx, sh, a, b, **d):
        X = su.T1_to_spin(a, b, *sh.key)
        ctx.step(2)
        ref = build("vo", sh, two(a, b), numpy.result_type(a, b))
        ctx.same("T1_to_spin", X, ref, shape=sh.key, **d)
        out = su.T1_to_spatial(X, *sh.key)
        for g, r, n in zip(out, (a, b), "ab"):
            ctx.same("T1_to_spatial " + n, g, r, shape=sh.key, **d)
        ctx.outcome(ref)

    @staticmethod
    def t2(su, ctx, sh, aa, ab, bb, **d):
        dt = numpy.result_type(aa, ab, bb)
        for nm, sg in (("T2_to_spin", -1), ("D2_to_spin", 1)):
            X = getattr(su, nm)(aa, ab, bb, *sh.key)
            ref = build("vvoo", sh, four(aa, bb, ab, sg), dt)
            ctx.step()
            ctx.same(nm, X, ref, shape=sh.key, **d)
            if sg == -1:
                out = su.T2_to_spatial(X, *sh.key)
                ctx.check(len(out) == 3, "T2_to_spatial returns three blocks")
                for g, r, n in zip(out, (aa, ab, bb), ("aa", "ab", "bb")):
                    ctx.same("T2_to_spatial " + n, g, r, shape=sh.key, **d)
            ctx.outcome(ref)

    @staticmethod
    def ints(su, ctx, sh, V, C, anti, **d):
        """V: spatial tensors aaaa, bbbb, abab;  C: containers with the same content"""
        nm = "int_to_spin2" if anti else "int_to_spin"
        A = V[0] if anti else V[0] - V[0].transpose(0, 1, 3, 2)
        B = V[1] if anti else V[1] - V[1].transpose(0, 1, 3, 2)
        ref = sh.I(A, B, V[2])      # spin-orbital order: occ a, occ b, vir a, vir b
        no = sh.no
        S = getattr(su, nm)(*C, *sh.key)
        ctx.step()
        o, v = [slice(0, no)]*4, [slice(no, None)]*4
        for k in tn.NAMES9:
            ctx.same("%s %s" % (nm, k), getattr(S, k), tn.blk(ref, k, o, v), shape=sh.key, **d)
        ctx.outcome(ref)
        W = su.int_to_spatial(S, sh.noa, sh.nob, sh.nva, sh.nvb)
        ctx.step()
        ctx.check(len(W) == 3, "int_to_spatial returns three containers")
        CW = containers(sh, (A, B, V[2]), False)
        for w, (got, want) in zip(("aaaa", "bbbb", "abab"), zip(W, CW)):
            for k in (tn.NAMES16 if w == "abab" else tn.NAMES9):
                ctx.same("int_to_spatial %s %s" % (w, k), getattr(got, k), getattr(want, k), shape=sh.key, **d)

    # ------------------------------------------------------------ exploration
    @staticmethod
    def units(su, ctx, case):
        sh = spin.shape(*case["shape"])
        na, nb = sh.na, sh.nb
        for lab in sh.unit_H_labels():
            ctx.state()
            fa, fb, Ia, Ib, Iab = sh.unit_H(lab)
            if lab[0][0] == "f":
                Explore.fock(su, ctx, sh, fa, fb, unit=str(lab))
            else:
                V = (Ia, Ib, Iab)
                Explore.ints(su, ctx, sh, V, containers(sh, V, len(lab) % 2 == 0), True, unit=str(lab))
        # plain same-spin integrals: every particle-exchange orbit
        for which, n in ((0, na), (1, nb)):
            seen = set()
            for p, q, r, s in itertools.product(range(n), repeat=4):
                if (q, p, s, r) in seen:
                    continue
                seen.add((p, q, r, s))
                V = [numpy.zeros((na,)*4), numpy.zeros((nb,)*4), numpy.zeros((na, nb, na, nb))]
                V[which][p, q, r, s] = 1
                V[which][q, p, s, r] = 1
                ctx.state()
                Explore.ints(su, ctx, sh, V, containers(sh, V, True), False, unit=str((which, p, q, r, s)))
        for v in sh.amp_vars():
            ctx.state()
            (a, b), (aa, ab, bb) = sh.amps_from({v: 1})
            if v[0][0] == "s":
                Explore.t1(su, ctx, sh, a, b, unit=str(v))
            else:
                Explore.t2(su, ctx, sh, aa, ab, bb, unit=str(v))
        ctx.sample(shape=sh.key)

    @staticmethod
    def dense(su, ctx, case):
        sh = spin.shape(*case["shape"])
        na, nb = sh.na, sh.nb
        for m in itertools.product((0, 1), repeat=2):      # which block is complex
            fa, fb = tn.weyl((na, na), 1, m[0]), tn.weyl((nb, nb), 2, m[1])
            ctx.state()
            Explore.fock(su, ctx, sh, fa, fb, cplx=str(m))
            a, b = tn.weyl((sh.nva, sh.noa), 3, m[0]), tn.weyl((sh.nvb, sh.nob), 4, m[1])
            Explore.t1(su, ctx, sh, a, b, cplx=str(m))
        if sum(sh.key) <= 6:
            # every ov block of either spin complex on its own
            for s, k in itertools.product((0, 1), ("oo", "ov", "vo", "vv")):
                f = [tn.oblocks(tn.weyl((na, na), 1), sh.noa), tn.oblocks(tn.weyl((nb, nb), 2), sh.nob)]
                kw = {q: getattr(f[s], q) for q in ("oo", "ov", "vo", "vv")}
                kw[k] = kw[k]*(1 + 0.5j)
                f[s] = type(f[s])(kw["oo"], kw["ov"], kw["vo"], kw["vv"])
                ctx.state()
                Explore.fock_blocks(su, ctx, sh, *f, complex_block="%d%s" % (s, k))
        for m in itertools.product((0, 1), repeat=3):
            aa = tn.asym(tn.weyl((sh.nva, sh.nva, sh.noa, sh.noa), 5, m[0]))
            ab = tn.weyl((sh.nva, sh.nvb, sh.noa, sh.nob), 6, m[1])
            bb = tn.asym(tn.weyl((sh.nvb, sh.nvb, sh.nob, sh.nob), 7, m[2]))
            ctx.state()
            Explore.t2(su, ctx, sh, aa, ab, bb, cplx=str(m))
            V = [tn.weyl((na,)*4, 8, m[0]), tn.weyl((nb,)*4, 9, m[1]), tn.weyl((na, nb, na, nb), 10, m[2])]
            plain = (V[0] + V[0].transpose(1, 0, 3, 2), V[1] + V[1].transpose(1, 0, 3, 2), V[2])
            Explore.ints(su, ctx, sh, plain, containers(sh, plain, True), False, cplx=str(m))
            an = (tn.asym(V[0]), tn.asym(V[1]), V[2])
            for full in (True, False):
                Explore.ints(su, ctx, sh, an, containers(sh, an, full), True, cplx=str(m), full=full)
        if sum(sh.key) <= 6:
            V = [tn.weyl((na,)*4, 8), tn.weyl((nb,)*4, 9), tn.weyl((na, nb, na, nb), 10)]
            plain = (V[0] + V[0].transpose(1, 0, 3, 2), V[1] + V[1].transpose(1, 0, 3, 2), V[2])
            an = (tn.asym(V[0]), tn.asym(V[1]), V[2])
            for lay in tn.LAYOUTS:
                f = lambda x: tn.layout(x, lay)
                ctx.state()
                Explore.ints(su, ctx, sh, plain, [tn.rebuild(c, f) for c in containers(sh, plain, True)], False, layout=lay)
                Explore.ints(su, ctx, sh, an, [tn.rebuild(c, f) for c in containers(sh, an, False)], True, layout=lay)

    @staticmethod
    def block(su, ctx, case):
        na = case["na"]
        for nb in itertools.product(range(3), repeat=4):
            Explore.six(su, ctx, na, nb, ((), (0,), (3,), tuple(range(6))))

    @staticmethod
    def longblock(su, ctx, case):
        """one long axis (or two moderately long ones) of the eight"""
        k = case["k"]
        for n in (5, 9, 17, 33):
            for rest in (1, 2):
                e = [rest]*8
                e[k] = n
                Explore.six(su, ctx, e[:4], e[4:], ((), tuple(range(6))))
        for j in range(8):
            e = [1, 2, 2, 1, 2, 1, 1, 2]
            e[k] = e[j] = 7
            Explore.six(su, ctx, e[:4], e[4:], ((), (2,)))

    @staticmethod
    def six(su, ctx, na, nb, kinds):
        ctx.state()
        dims = {"a": na, "b": nb}
        for cplx in kinds:
            blocks = {s: tn.weyl([dims[c][k] for k, c in enumerate(s)], j, j in cplx) for j, s in enumerate(SPINS)}
            X = su.int_to_spin_block(*[blocks[s] for s in SPINS], *na, *nb)
            ctx.step()
            ref = numpy.zeros([x + y for x, y in zip(na, nb)], dtype=complex if cplx else float)
            for s in SPINS:
                ix = [list(range(na[k])) if c == "a" else list(range(na[k], na[k] + nb[k])) for k, c in enumerate(s)]
                ref[numpy.ix_(*ix)] = blocks[s]
            ctx.same("int_to_spin_block", X, ref, na=tuple(na), nb=tuple(nb), complex_blocks=cplx)
        ctx.outcome(ref)


size.extend(__name__, [e.name for e in size.rg.ENTRIES if e.family == "spin" and e.name != "int_to_spin_block"])
