"""The alphabet of public calls used by the history, schedule and configuration checks.

Every entry is a call with several argument sets ("variants"):
  0, 1  same shapes, different real values
  2     other shapes
  3     shapes of 0, complex values
  4     large arrays (only built on demand; coupled-cluster functions only)
  5, 6  shapes in which many arguments can stand for each other (alias exploration;
        entries without such a variant use 0)
Arguments are built from scratch on every request.
"""
import numpy

from mc import ci
from mc import spin
from mc import tensors as tn
from mc import ucc

GSHAPE = {0: (2, 2), 1: (2, 2), 2: (1, 3), 3: (2, 2), 4: (7, 7), 5: (2, 4), 6: (2, 2)}
USHAPE = {0: (2, 1, 1, 2), 1: (2, 1, 1, 2), 2: (1, 2, 2, 1), 3: (2, 1, 1, 2), 4: (7, 7, 7, 7), 5: (2, 3, 2, 3), 6: (2, 2, 2, 2)}
RSHAPE = {0: (1, 2), 1: (1, 2), 2: (2, 1), 3: (1, 2), 4: (7, 7), 5: (2, 3), 6: (2, 2)}


def vk(v):
    """value selector of a variant"""
    return {0: 0, 1: 5, 2: 3, 3: 1, 4: 2, 5: 4, 6: 6}[v]


class Entry(object):
    def __init__(self, name, module, family, make, call=None, variants=(0, 1, 2, 3), shared=True):
        self.name, self.module, self.family = name, module, family
        self.make, self._call, self.variants = make, call, variants
        self.shared = shared                 # arguments may be shared between threads

    def args(self, v):
        return self.make(v)

    def alias_args(self, v):
        try:
            return self.make(v)
        except KeyError:
            return self.make(0)

    def call(self, args):
        import importlib
        m = importlib.import_module("cqcpy." + self.module)
        if self._call is not None:
            return self._call(m, *args)
        return getattr(m, self.name)(*args)


# -- argument builders -------------------------------------------------------
def gH(v, full=False):
    no, nv = GSHAPE[v]
    f, I = tn.dense_H(no + nv, vk(v), v == 3)
    return tn.oblocks(f, no), tn.tblocks(I, no, full)


def gT(v):
    return tn.dense_T(*GSHAPE[v], vk(v), v == 3)


def gL(v):
    return tn.dense_L(*GSHAPE[v], vk(v), v == 3)


def sh(v):
    return spin.shape(*USHAPE[v])


def uH(v):
    s = sh(v)
    return spin.ublocks(s, *s.dense_H(vk(v), v == 3))


def uT(v):
    return sh(v).dense_T(vk(v) + 1, v == 3)


def uL(v):
    return sh(v).dense_L(vk(v) + 2, v == 3)


def rH(v):
    no, nv = RSHAPE[v]
    n = no + nv
    f = tn.weyl((n, n), vk(v), v == 3)
    I = tn.weyl((n,)*4, vk(v) + 1, v == 3)
    I = I + I.transpose(1, 0, 3, 2)
    return tn.oblocks(f, no), tn.tblocks(I, no, True)


def rT(v):
    return ucc.rdense_T(*RSHAPE[v], vk(v), v == 3)


def rL(v):
    return ucc.rdense_L(*RSHAPE[v], vk(v), v == 3)


ENTRIES = []


def add(*a, **k):
    ENTRIES.append(Entry(*a, **k))


def _build():
    E5 = (0, 1, 2, 3, 4)
    EQ, EN, CI, SP, OV, FT, UT, TU, IN = ("cc_equations", "cc_energy", "ci_utils", "spin_utils", "ov_blocks",
                                          "ft_utils", "utils", "test_utils", "integrals")
    # ---- spin-orbital residuals
    for nm in ("ccsd_simple", "ccsd_stanton", "lccsd_simple"):
        add(nm, EQ, "residual", lambda v: gH(v) + gT(v), variants=E5)
    for nm in ("ccd_simple", "ccd_stanton", "lccd_simple"):
        add(nm, EQ, "residual", lambda v: gH(v) + gT(v)[1:], variants=E5)
    for nm in ("ccd_ladder_simple", "ccd_ring_simple"):
        add(nm, EQ, "residual", lambda v: (gH(v)[1], gT(v)[1]), variants=E5)
    add("uccsd_stanton", EQ, "residual", lambda v: uH(v) + tuple(uT(v)), variants=E5)
    add("rccsd_stanton", EQ, "residual", lambda v: rH(v) + tuple(rT(v)), variants=E5)
    # ---- Lambda
    for nm in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"):
        add(nm, EQ, "lambda", lambda v: gH(v) + gL(v) + gT(v), variants=E5)
    add("ccd_lambda_simple", EQ, "lambda", lambda v: gH(v) + gL(v)[1:] + gT(v)[1:], variants=E5)

    def opt_int(m, F, I, L1, L2, T1, T2):
        intor = m.lambda_int(F, I, T1, T2)
        a = m.ccsd_lambda_opt_int(F, I, L1, L2, T1, T2, intor)
        b = m.ccsd_lambda_opt_int(F, I, L1, L2, T1, T2, intor)
        return a, b
    add("ccsd_lambda_opt_int", EQ, "lambda", lambda v: gH(v) + gL(v) + gT(v), call=opt_int, variants=E5)
    add("uccsd_lambda_opt", EQ, "lambda", lambda v: uH(v) + tuple(uL(v)) + tuple(uT(v)), variants=E5)
    add("rccsd_lambda_opt", EQ, "lambda", lambda v: rH(v) + tuple(rL(v)) + tuple(rT(v)), variants=E5)
    # ---- densities
    for nm in ("1rdm_ba", "1rdm_ji", "1rdm_ai", "2rdm_cdab", "2rdm_ciab", "2rdm_bcai", "2rdm_bjai", "2rdm_abij",
               "2rdm_jkai", "2rdm_kaij", "2rdm_klij", "1rdm_ba_opt", "1rdm_ji_opt", "1rdm_ai_opt",
               "2rdm_ciab_opt", "2rdm_jkai_opt", "2rdm_cdab_opt", "2rdm_bcai_opt",
               "2rdm_bjai_opt", "2rdm_abij_opt", "2rdm_kaij_opt", "2rdm_klij_opt"):
        add("ccsd_" + nm, EQ, "rdm", lambda v: gT(v) + gL(v), variants=E5)
    flat = lambda v: tuple(x for y in (uT(v) + uL(v)) for x in y)
    for nm in ("1rdm_ba", "1rdm_ji", "1rdm_ai", "2rdm_ciab", "2rdm_jkai", "2rdm_cdab", "2rdm_bjai", "2rdm_klij",
               "2rdm_bcai", "2rdm_kaij", "2rdm_abij"):
        add("uccsd_" + nm, EQ, "urdm", flat, variants=E5)
    for nm in ("1rdm_ba", "1rdm_ji", "1rdm_ai", "2rdm_ciab", "2rdm_jkai", "2rdm_cdab", "2rdm_bjai", "2rdm_bjia",
               "2rdm_klij", "2rdm_bcai", "2rdm_kaij", "2rdm_abij"):
        add("rccsd_" + nm, EQ, "rrdm", lambda v: tuple(rT(v)) + tuple(rL(v)), variants=E5)
    # ---- energies
    add("cc_energy_d", EN, "energy", lambda v: (gT(v)[1], gH(v)[1].oovv), variants=E5)
    add("cc_energy_s1", EN, "energy", lambda v: (gT(v)[0], gH(v)[0].ov), variants=E5)
    add("cc_energy_s2", EN, "energy", lambda v: (gT(v)[0], gH(v)[1].oovv), variants=E5)
    add("cc_energy_s2_a", EN, "energy", lambda v: (gT(v)[0], 2*gT(v)[0] + 1, gH(v)[1].oovv), variants=E5)
    for nm in ("cc_energy", "mp2_energy"):
        add(nm, EN, "energy", lambda v: gT(v) + (gH(v)[0].ov, gH(v)[1].oovv), variants=E5)

    def uen(v):
        Fa, Fb, Ia, Ib, Iab = uH(v)
        T1, T2 = uT(v)
        return T1, T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv
    for nm in ("ucc_energy", "ump2_energy"):
        add(nm, EN, "energy", uen, variants=E5)

    def ren(v):
        F, I = rH(v)
        T1, T2 = rT(v)
        return T1, T2, F.ov, I.oovv
    add("rcc_energy", EN, "energy", ren, variants=E5)
    # ---- CI
    gs = {0: (4, 2), 1: (4, 3), 2: (6, 3), 3: (4, 1)}
    us = {0: (3, 1, 2), 1: (3, 2, 1), 2: (4, 2, 2), 3: (2, 1, 1)}
    for nm in ("s", "d", "t", "q"):
        add(nm + "_strings", CI, "ci", lambda v: {0: (5, 2), 1: (5, 3, [0, 1, 0, 1, 1]), 2: (6, 4), 3: (4, 2, [1, 0, 0, 1])}[v])
    for nm in ("s_pstrings", "d_pstrings", "vcis_basis", "vcisd_basis"):
        add(nm, CI, "ci", lambda v: ({0: 2, 1: 3, 2: 4, 3: 1}[v],))
    for nm in ("gcis_basis", "gcisd_basis", "gcisdt_basis", "gcisdtq_basis"):
        add(nm, CI, "ci", lambda v: gs[v])
    for nm in ("ucis_basis", "ucisd_basis", "ucisdt_basis", "ucisdtq_basis"):
        add(nm, CI, "ci", lambda v: us[v])

    def dstr(occ):
        from cqcpy.ci_utils import Dstring
        return Dstring(len(occ), list(occ))

    def pstr(occ):
        from cqcpy.ci_utils import Pstring
        return Pstring(len(occ), list(occ))
    so = {0: ([1, 0, 1, 1, 0], [0, 1, 1, 1, 0]), 1: ([1, 1, 1, 0, 0], [1, 1, 0, 1, 0]),
          2: ([1, 0, 1, 0], [1, 1, 0, 0]), 3: ([0, 1, 1, 0, 0], [1, 0, 0, 1, 0])}
    add("Dstring.excite", CI, "ci", lambda v: (dstr(so[v][0]),) + {0: (2, 4), 1: (0, 3), 2: (0, 1), 3: (1, 1)}[v],
        call=lambda m, s, i, a: s.excite(i, a))
    add("Dstring.__eq__", CI, "ci", lambda v: (dstr(so[v][0]), dstr(so[v][v == 1])), call=lambda m, a, b: (a == b, b == a, a == a))
    add("Pstring.raize", CI, "ci", lambda v: (pstr(so[v][0]), 1 + (v == 2)), call=lambda m, s, p: s.raize(p))
    add("Pstring.lower", CI, "ci", lambda v: (pstr(so[v][0]), 1 + (v == 2)), call=lambda m, s, p: s.lower(p))
    add("level", CI, "ci", lambda v: tuple(dstr(x) for x in so[v]))
    add("diff", CI, "ci", lambda v: tuple(dstr(x) for x in so[v]))

    def gham(v, n):
        f, I = tn.dense_H(n, vk(v), v == 3)
        return f, I
    add("gci_matrixel", CI, "ci", lambda v: tuple(dstr(x) for x in so[v]) + gham(v, len(so[v][0])) + (0.3 + v,))

    def uham(v, n):
        s = spin.shape(1, n - 1, 1, n - 1)
        return s.dense_H(vk(v), v == 3)
    add("ci_matrixel", CI, "ci", lambda v: tuple(dstr(x) for x in so[v]) + tuple(dstr(x) for x in so[v][::-1])
        + uham(v, len(so[v][0])) + (0.3 + v,))

    def gb(v):
        import cqcpy.ci_utils as cu
        return cu.gcisd_basis(*gs[v])

    def ub(v):
        import cqcpy.ci_utils as cu
        return cu.ucisd_basis(*us[v])

    def vec(b, v):
        return tn.weyl((len(b),), vk(v), v == 3)

    def onvec(basis, idx):
        def make(v):
            b = basis(v)
            return (b, vec(b, v)) + idx[v]
        return make
    add("s_on_vec", CI, "civec", onvec(gb, {0: (0, 1), 1: (2, 3), 2: (1, 5), 3: (0, 2)}))
    for nm in ("sa_on_vec", "sb_on_vec"):
        add(nm, CI, "civec", onvec(ub, {0: (0, 1), 1: (0, 2), 2: (1, 2), 3: (0, 1)}))
    add("d_on_vec", CI, "civec", onvec(gb, {0: (0, 2, 1, 3), 1: (0, 2, 1, 3), 2: (0, 1, 2, 5), 3: (0, 1, 2, 3)}))
    for nm in ("da_on_vec", "db_on_vec", "sasb_on_vec"):
        add(nm, CI, "civec", onvec(ub, {0: (0, 1, 1, 2), 1: (0, 1, 2, 2), 2: (0, 1, 2, 3), 3: (0, 0, 1, 1)}))

    def hon(v):
        b = ub({0: 3, 1: 3, 2: 0, 3: 3}[v])
        n = len(b[0][0].occ)
        return (b, vec(b, v)) + tuple(uham(v, n))
    add("H_on_vec", CI, "civec", hon)

    def ghon(v):
        b = gb({0: 0, 1: 0, 2: 1, 3: 0}[v])
        return (b, vec(b, v)) + gham(v, 4)
    add("gH_on_vec", CI, "civec", ghon)

    def gmk(order):
        return lambda v: GSHAPE[v] + gT(v) + (order,)
    for o in (1, 2, 3, 4):
        add("gmakeCfromT(%d)" % o, CI, "cic", gmk(o), call=lambda m, *a: m.gmakeCfromT(*a))

    def umk(order):
        def make(v):
            T1, T2 = uT(v)
            return USHAPE[v] + tuple(T1) + tuple(T2) + (order,)
        return make
    for o in (1, 2, 3, 4):
        add("makeCfromT(%d)" % o, CI, "cic", umk(o), call=lambda m, *a: m.makeCfromT(*a))
    # ---- spin storage
    add("F_to_spin", SP, "spin", lambda v: uH(v)[:2] + USHAPE[v])
    add("F_to_spatial", SP, "spin", lambda v: (tn.oblocks(tn.weyl((sh(v).n,)*2, vk(v), v == 3), sh(v).no),) + USHAPE[v])
    add("T1_to_spin", SP, "spin", lambda v: tuple(uT(v)[0]) + USHAPE[v])
    add("T2_to_spin", SP, "spin", lambda v: tuple(uT(v)[1]) + USHAPE[v])
    add("D2_to_spin", SP, "spin", lambda v: tuple(uT(v)[1]) + USHAPE[v])
    add("T1_to_spatial", SP, "spin", lambda v: (sh(v).T1(*uT(v)[0]),) + USHAPE[v])
    add("T2_to_spatial", SP, "spin", lambda v: (sh(v).T2(*uT(v)[1]),) + USHAPE[v])

    def ints(v, anti):
        s = sh(v)
        from mc.checks import c17
        V = [tn.weyl((s.na,)*4, vk(v), v == 3), tn.weyl((s.nb,)*4, vk(v) + 1, v == 3),
             tn.weyl((s.na, s.nb, s.na, s.nb), vk(v) + 2, v == 3)]
        for k in (0, 1):
            V[k] = tn.asym(V[k]) if anti else V[k] + V[k].transpose(1, 0, 3, 2)
        return tuple(c17.containers(s, V, not anti)) + USHAPE[v]
    add("int_to_spin", SP, "spin", lambda v: ints(v, False))
    add("int_to_spin2", SP, "spin", lambda v: ints(v, True))

    def spat(v):
        s = sh(v)
        H = s.dense_H(vk(v), v == 3)
        return tn.tblocks(s.I(*H[2:]), s.no), s.noa, s.nob, s.nva, s.nvb
    add("int_to_spatial", SP, "spin", spat)

    def spblock(v):
        na, nb = {2: ((2, 1, 1, 2), (1, 1, 2, 1))}.get(v, ((1, 2, 1, 2), (2, 1, 1, 1)))
        d = {"a": na, "b": nb}
        return tuple(tn.weyl([d[c][k] for k, c in enumerate(s)], vk(v) + j, v == 3)
                     for j, s in enumerate(("aaaa", "bbbb", "abab", "baba", "abba", "baab"))) + na + nb
    add("int_to_spin_block", SP, "spin", spblock)
    # ---- blocks
    sp = {0: (1, 2, 2, 1, 1, 1, 2, 1), 1: (1, 2, 2, 1, 1, 1, 2, 1), 2: (2, 1, 1, 1, 2, 2, 1, 2), 3: (1, 2, 2, 1, 1, 1, 2, 1)}
    for nm in ("make_two_e_blocks", "make_two_e_blocks_full"):
        add(nm, OV, "blocks", lambda v: (tn.weyl([sp[v][2*k] + sp[v][2*k + 1] for k in range(4)], vk(v), v == 3),) + sp[v])

    def one_args(v):
        no, nv = GSHAPE[v]
        f = tn.weyl((no + nv,)*2, vk(v), v == 3)
        return f[:no, :no].copy(), f[:no, no:].copy(), f[no:, :no].copy(), f[no:, no:].copy()
    add("one_e_blocks", OV, "blocks", one_args)

    def some_blocks(names):
        def make(v):
            pick = {0: names, 1: names[::-1], 2: names[::2], 3: names[1::2]}[v]
            return tuple(pick), tuple(tn.weyl((1, 2, 1, 2), vk(v) + j, v == 3) for j in range(len(pick)))
        return make
    add("two_e_blocks", OV, "blocks", some_blocks(tn.NAMES9), call=lambda m, k, x: m.two_e_blocks(**dict(zip(k, x))))
    add("two_e_blocks_full", OV, "blocks", some_blocks(tn.NAMES16), call=lambda m, k, x: m.two_e_blocks_full(**dict(zip(k, x))))
    # ---- finite temperature, denominators
    en = {0: numpy.array([-50.0, 0.3, 25.0]), 1: numpy.array([2.0, -31.0, 0.0]), 2: numpy.array([0.1, 0.2, 40.0, -24.0]), 3: numpy.array([1.0])}
    for nm in ("fermi_function", "vfermi_function", "grand_potential0", "dgrand_potential0"):
        add(nm, FT, "ft", lambda v: (1.0 + v, float(en[v][0]), 0.2*v))
    for nm in ("ff", "ffv", "GP0", "dGP0"):
        add(nm, FT, "ft", lambda v: (1.0 + v, en[v].copy(), 0.2*v))
    add("uGP0", FT, "ft", lambda v: (1.0 + v, en[v].copy(), en[(v + 1) % 4].copy(), 0.2*v))
    add("HtoK", FT, "ft", lambda v: (0.5 + v,))
    ev = {0: (2, 3, 1, 2), 1: (2, 3, 1, 2), 2: (1, 2, 3, 3), 3: (2, 3, 1, 2)}
    for nm in ("D1", "D2"):
        add(nm, UT, "utils", lambda v: (tn.weyl((ev[v][0],), vk(v), v == 3), tn.weyl((ev[v][1],), vk(v) + 1, v == 3)))
    add("D2u", UT, "utils", lambda v: tuple(tn.weyl((ev[v][k],), vk(v) + k, v == 3) for k in range(4)))
    add("block_diag", UT, "utils", lambda v: (tn.weyl(ev[v][:2], vk(v), v == 3), tn.weyl(ev[v][2:], vk(v) + 1, v == 3)))

    # ---- generators: value determined by the state of the random source
    def seeded(nm):
        def f(m, seed, *a):
            numpy.random.seed(seed)
            return getattr(m, nm)(*a)
        return f
    for nm in ("make_random_F", "make_random_I", "make_random_I_anti", "make_random_Ifull", "make_random_integrals",
               "make_random_T", "make_random_L"):
        add(nm, TU, "random", lambda v: (11 + v,) + {2: (1, 2)}.get(v, (2, 1)), call=seeded(nm), shared=False)
    for nm in ("make_random_Itot", "make_random_ft_integrals", "make_random_ft_D", "make_random_ft_D1"):
        add(nm, TU, "random", lambda v: (11 + v, 3 if v == 2 else 2), call=seeded(nm), shared=False)
    for nm in ("make_random_T1_spatial", "make_random_T2_spatial"):
        add(nm, TU, "random", lambda v: (11 + v,) + USHAPE[v], call=seeded(nm), shared=False)
    add("make_random_Ifull_gen", TU, "random", lambda v: (11 + v,) + sp[v], call=seeded("make_random_Ifull_gen"), shared=False)
    add("make_random_ft_T", TU, "random", lambda v: (11 + v, 2, 3 if v == 2 else 2), call=seeded("make_random_ft_T"), shared=False)
    for nm in ("make_random_ft_T1_spatial", "make_random_ft_T2_spatial"):
        add(nm, TU, "random", lambda v: (11 + v, 2, 1 + (v == 2), 2), call=seeded(nm), shared=False)
    add("make_random_ft_D2", TU, "random", lambda v: (11 + v, 2 + (v == 2), 3), call=seeded("make_random_ft_D2"), shared=False)

    # ---- integrals (backend needed)
    def icoef(n, cols, v):
        return tuple(tn.weyl((n, c), vk(v) + j) for j, c in enumerate(cols))

    def with_mol(nm):
        from mc import eri
        return lambda m, which, *a: getattr(m, nm)(eri.mol(which), *a)
    imol = {0: ("he", 2), 1: ("h2", 2), 2: ("h3", 3), 3: ("he", 2)}
    for nm in ("get_chem", "get_chem_anti", "get_phys", "get_phys_anti"):
        add(nm, IN, "integrals", lambda v: (imol[v][0],) + icoef(imol[v][1], (1, 2, 1, 2), v) , call=with_mol(nm), shared=False)
    for nm in ("get_chemu", "get_chem_antiu", "get_phys_antiu"):
        add(nm, IN, "integrals", lambda v: (imol[v][0],) + icoef(imol[v][1], (1, 2, 1, 2, 2, 1, 1, 2), v), call=with_mol(nm), shared=False)
    for nm in ("get_chemu_all", "get_chem_antiu_all", "get_physu_all", "get_phys_antiu_all"):
        add(nm, IN, "integrals", lambda v: (imol[v][0],) + icoef(imol[v][1], (1, 2), v), call=with_mol(nm), shared=False)

    def blocks_mol(m, which, C, occ, code):
        from pyscf import scf
        from mc import eri
        r = scf.RHF(eri.mol(which))
        r.mo_coeff, r.mo_occ = C, occ
        b = m.eri_blocks(r, code=code)
        return tuple(getattr(b, k, None) for k in tn.NAMES9)
    add("eri_blocks", IN, "integrals", lambda v: (imol[v][0], tn.weyl((imol[v][1],)*2, vk(v)),
                                                  numpy.array([2.0, 0.0, 2.0][:imol[v][1]]) if v != 1 else numpy.array([0.0, 2.0]), {0: 0, 1: 4, 2: 5, 3: 9}[v]),
        call=blocks_mol, shared=False)

    # ---- periodic integrals
    def pmf(nm):
        from mc.checks import c23
        return lambda m, k, *a: getattr(m, nm)(c23.mf(k)[0], *a)
    kp = {0: 0, 1: 2, 2: 1, 3: 1}
    for nm in ("get_chem_sol", "get_phys_sol", "get_phys_gen"):
        add(nm, IN, "periodic", lambda v: (kp[v],) + icoef(2, {2: (2, 1, 1, 2)}.get(v, (1, 2, 1, 2)), v), call=pmf(nm), shared=False)
    for nm in ("get_chemu_sol", "get_chem_antiu_sol", "get_phys_antiu_sol"):
        add(nm, IN, "periodic", lambda v: (kp[v],) + icoef(2, (1, 2, 1, 2, 2, 1, 1, 2), v), call=pmf(nm), shared=False)
    for nm in ("get_chemu_all_sol", "get_physu_all_sol"):
        add(nm, IN, "periodic", lambda v: (kp[v],) + icoef(2, (1, 2), v), call=pmf(nm), shared=False)

    def kmf(nm):
        from mc.checks import c23
        return lambda m, mesh, q, *a: getattr(m, nm)(c23.kmf(mesh)[0], q, *a)
    qs = {0: (0, 0, 0, 0), 1: (0, 1, 1, 0), 2: (0, 0, 0, 1), 3: (1, 1, 0, 0)}
    for nm in ("get_chem_solk", "get_phys_solk"):
        add(nm, IN, "periodic", lambda v: ("2", qs[v]) + icoef(2, (1, 2, 1, 2), v), call=kmf(nm), shared=False)

    def solk(m, mesh, mo, occ, order):
        import copy
        from mc.checks import c23
        r = copy.copy(c23.kmf(mesh)[0])
        r.mo_coeff, r.mo_occ = mo, occ
        return m.get_solk_integrals(r, eriorder=order)
    add("get_solk_integrals", IN, "periodic", lambda v: ("2", [tn.weyl((2, 1), vk(v) + j, True) for j in range(2)],
                                                         [numpy.zeros(1)]*2, "phys" if v == 3 else "chem"), call=solk, shared=False)


_build()
BY_NAME = {e.name: e for e in ENTRIES}


# -- results and arguments as plain data ----------------------------------------
def canon(o):
    """nested result -> flat list of (kind, value)"""
    out = []

    def rec(x):
        if x is None:
            out.append(("none", None))
        elif isinstance(x, numpy.ndarray):
            out.append(("array", x.copy()))
        elif isinstance(x, (bool, numpy.bool_)):
            out.append(("bool", bool(x)))
        elif isinstance(x, (int, float, complex, numpy.number)):
            out.append(("num", complex(x)))
        elif isinstance(x, str):
            out.append(("str", x))
        elif isinstance(x, (tuple, list)):
            out.append(("seq", len(x)))
            for y in x:
                rec(y)
        elif hasattr(x, "vvvv"):
            for k in tn.NAMES16:
                rec(getattr(x, k, None))
        elif hasattr(x, "oo") and hasattr(x, "vv"):
            for k in ("oo", "ov", "vo", "vv"):
                rec(getattr(x, k))
        elif hasattr(x, "occ"):
            out.append(("occ", tuple(int(y) for y in x.occ)))
        else:
            raise TypeError("unexpected value %r" % (x,))
    rec(o)
    return out


def differs(a, b, tol=1e-9):
    """None if equal, else a description"""
    if len(a) != len(b):
        return "structure"
    for k, ((ka, xa), (kb, xb)) in enumerate(zip(a, b)):
        if ka in ("num", "array") and kb in ("num", "array"):
            xa, xb = numpy.asarray(xa), numpy.asarray(xb)
            if xa.shape != xb.shape:
                return "item %d: shape %s and %s" % (k, xa.shape, xb.shape)
            if xa.size:
                m = max(1.0, float(numpy.max(numpy.abs(xb))))
                d = numpy.abs(xa - xb)
                if not (d <= tol*m).all():
                    return "item %d: values differ by up to %g" % (k, float(numpy.nanmax(d)) if numpy.isfinite(d).any() else float("nan"))
        elif ka != kb or xa != xb:
            return "item %d: %r and %r" % (k, xa, xb)
    return None


def arrays(o, seen=None):
    """every array reachable from a nested argument or result"""
    if isinstance(o, numpy.ndarray):
        yield o
    elif isinstance(o, (tuple, list)):
        for x in o:
            for y in arrays(x):
                yield y
    elif hasattr(o, "vvvv"):
        for k in tn.NAMES16:
            x = getattr(o, k, None)
            if isinstance(x, numpy.ndarray):
                yield x
    elif hasattr(o, "oo") and hasattr(o, "vv"):
        for k in ("oo", "ov", "vo", "vv"):
            x = getattr(o, k)
            if isinstance(x, numpy.ndarray):
                yield x


def leaves(o, split=False):
    """paths and values of the objects an argument list is made of: containers, arrays, strings
    and whole lists of strings; with split the arrays inside containers instead of these"""
    out = []

    def rec(x, path):
        if isinstance(x, numpy.ndarray):
            out.append((path, x, ("array", x.shape)))
        elif isinstance(x, (tuple, list)) and not any(True for _ in strings(x) if path):
            for k, y in enumerate(x):
                rec(y, path + (k,))
        elif hasattr(x, "vvvv") or (hasattr(x, "oo") and hasattr(x, "vv")):
            names = [k for k in (tn.NAMES16 if hasattr(x, "vvvv") else ("oo", "ov", "vo", "vv"))
                     if isinstance(getattr(x, k, None), numpy.ndarray)]
            if split:
                for k in names:
                    rec(getattr(x, k), path + (k,))
            else:
                out.append((path, x, (type(x).__name__,) + tuple((k, getattr(x, k).shape) for k in names)))
        elif hasattr(x, "occ"):
            out.append((path, x, ("string", len(x.occ))))
    rec(o, ())
    return out


def substitute(o, new, path=()):
    """the nested argument with the objects at the given paths replaced; everything else copied"""
    import copy
    if path in new:
        return new[path]
    if isinstance(o, numpy.ndarray):
        return o.copy()
    if isinstance(o, (tuple, list)):
        return type(o)(substitute(x, new, path + (k,)) for k, x in enumerate(o))
    if hasattr(o, "vvvv"):
        return type(o)(**{k: substitute(getattr(o, k), new, path + (k,)) for k in tn.NAMES16
                          if getattr(o, k, None) is not None})
    if hasattr(o, "oo") and hasattr(o, "vv"):
        return type(o)(*[substitute(getattr(o, k), new, path + (k,)) for k in ("oo", "ov", "vo", "vv")])
    if hasattr(o, "occ"):
        return copy.deepcopy(o)
    return o


def strings(o):
    if isinstance(o, (tuple, list)):
        for x in o:
            for y in strings(x):
                yield y
    elif hasattr(o, "occ") and not isinstance(o, numpy.ndarray):
        yield o


def scribble(o):
    """what a caller may do to data it owns: overwrite it"""
    for a in arrays(o):
        if a.flags.writeable:
            a[...] = 1e6
    for s in strings(o):
        flipped = [1 - x if x in (0, 1) else 0 for x in list(s.occ)]
        if isinstance(s.occ, list) or (isinstance(s.occ, numpy.ndarray) and s.occ.flags.writeable):
            s.occ[:] = flipped
    if isinstance(o, list):
        del o[:]
    elif isinstance(o, tuple):
        for x in o:
            if isinstance(x, list):
                del x[:]


def overwrite(dst, src):
    """copy the contents of one argument set into the arrays of another; False if they do not fit"""
    A, B = list(arrays(dst)), list(arrays(src))
    if len(A) != len(B) or not A:
        return False
    for a, b in zip(A, B):
        if a.shape != b.shape or (numpy.iscomplexobj(b) and not numpy.iscomplexobj(a)):
            return False
    for a, b in zip(A, B):
        a[...] = b
    return True


def prewarm(entry):
    """build the molecules and cells of the harness (not the code under test) before forking"""
    if entry.family == "integrals":
        from mc import eri
        for k in ("he", "h2", "h3"):
            eri.mol(k)
    elif entry.family == "periodic":
        from mc.checks import c23
        for k in range(3):
            c23.mf(k)
        c23.kmf("2")


def isolated(fn):
    """run fn() in a forked copy of this process and return its value"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception as e:  # noqa
                import traceback
                out = ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, -1)
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("isolated process died")
    kind, val = pickle.loads(data)
    if kind == "exc":
        raise Failed(val)
    return val


class Failed(Exception):
    pass


def preload():
    """import everything once, so that forks start with loaded modules"""
    import importlib
    mods = ["pyscf.scf", "pyscf.pbc.scf", "pyscf.pbc.tools"] + ["cqcpy." + m for m in sorted({e.module for e in ENTRIES})]
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception:  # noqa: shows up in the cases
            pass
    import gc
    gc.collect()
    gc.freeze()
