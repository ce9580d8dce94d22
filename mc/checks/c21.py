"""C21: random model generators under an enumerated random source."""
import itertools

import numpy

from mc import tensors as tn

BOUND = {
    "quick": "every generator, all sizes 0..3 per space (0..2 where two spins or grids appear); random source replaced by an enumerator: every single unit variate, all zeros, all ones, a ramp and two irrational sequences; rank of the image compared with the dimension of the stated symmetric space; draws in two different stream positions; larger sizes (up to 10 orbitals, 9 grid points, one long axis at a time) with the fixed sequences only",
    "thorough": "as quick with one more orbital per space"}
ASSUMPTIONS = ["the variates are taken from numpy.random's global stream or from a generator made by numpy.random.default_rng, RandomState or Generator; if they come from elsewhere only the stated symmetries of eight draws are decided"]

GEN2 = ("make_random_F", "make_random_I", "make_random_I_anti", "make_random_Ifull", "make_random_integrals",
        "make_random_T", "make_random_L")
GEN1 = ("make_random_Itot", "make_random_ft_integrals", "make_random_ft_D", "make_random_ft_D1")
GEN4 = ("make_random_T1_spatial", "make_random_T2_spatial")


def cases(tier):
    x = 1 if tier == "thorough" else 0
    for g in GEN2:
        for no, nv in itertools.product(range(4), repeat=2):
            if no + nv <= 4 + x:
                yield {"gen": g, "args": [no, nv]}
    for g in GEN1:
        for n in range(0, 5 + x):
            yield {"gen": g, "args": [n]}
    for g in GEN4:
        for s in itertools.product(range(3 + x), repeat=4):
            yield {"gen": g, "args": list(s)}
    for s in itertools.product(range(3), range(4)):
        yield {"gen": "make_random_ft_T", "args": list(s)}
    for s in itertools.product(range(3), repeat=3):
        yield {"gen": "make_random_ft_T1_spatial", "args": list(s)}
        yield {"gen": "make_random_ft_T2_spatial", "args": list(s)}
    for s in itertools.product(range(4), repeat=2):
        yield {"gen": "make_random_ft_D2", "args": list(s)}
    for s in itertools.product(range(2), repeat=8):
        if sum(s) >= 5:
            yield {"gen": "make_random_Ifull_gen", "args": list(s)}
    for s in ([1, 2, 2, 1, 1, 1, 2, 0], [0, 2, 1, 2, 2, 1, 1, 1], [2, 1, 1, 2, 0, 2, 1, 1]):
        yield {"gen": "make_random_Ifull_gen", "args": s}
    for g in GEN2:
        for s in ([5, 5], [6, 3], [3, 7], [1, 9], [9, 1], [0, 8], [8, 0], [2, 7]):
            yield {"gen": g, "args": s, "large": True}
    for g in GEN1:
        for n in (6, 7, 8, 9, 10):
            yield {"gen": g, "args": [n], "large": True}
    for g in GEN4:
        for k in range(4):
            for n in (5, 9):
                yield {"gen": g, "args": [n if j == k else 3 for j in range(4)], "large": True}
    for g in ("make_random_ft_T1_spatial", "make_random_ft_T2_spatial"):
        for s in ([9, 2, 3], [2, 6, 3], [2, 3, 6], [5, 5, 5]):
            yield {"gen": g, "args": s, "large": True}
    for s in ([9, 3], [17, 2], [2, 7], [4, 6]):
        yield {"gen": "make_random_ft_T", "args": s, "large": True}
    for s in ([9, 2], [2, 9], [6, 7], [8, 8]):
        yield {"gen": "make_random_ft_D2", "args": s, "large": True}
    for k in range(8):
        yield {"gen": "make_random_Ifull_gen", "args": [7 if j == k else 2 for j in range(8)], "large": True}


def cost(c):
    return sum(c["args"])**4


class Source(object):
    """stands in for numpy.random: hands out a scripted stream of variates"""

    def __init__(self):
        self.value = lambda k: 0.0
        self.pos = 0

    def take(self, shape):
        if shape is None:
            self.pos += 1
            return self.value(self.pos - 1)
        if numpy.isscalar(shape):
            shape = (int(shape),)
        n = int(numpy.prod(shape)) if len(shape) else 1
        out = numpy.array([self.value(self.pos + k) for k in range(n)], dtype=float).reshape(shape)
        self.pos += n
        return out

    # the spellings a generator could use
    def random(self, size=None):
        return self.take(size)

    random_sample = ranf = sample = random

    def rand(self, *size):
        return self.take(size if size else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low)*self.take(size)


def blocks(o, full):
    return {k: numpy.asarray(getattr(o, k)) for k in (tn.NAMES16 if full else tn.NAMES9)}


def flat(res):
    """all arrays of a result, in a fixed order, as one vector"""
    out = []

    def rec(o):
        if isinstance(o, (tuple, list)):
            for x in o:
                rec(x)
        elif hasattr(o, "vvvv"):
            for k in tn.NAMES16:
                x = getattr(o, k, None)
                if x is not None:
                    out.append(numpy.asarray(x).ravel())
        elif hasattr(o, "oo"):
            for k in ("oo", "ov", "vo", "vv"):
                out.append(numpy.asarray(getattr(o, k)).ravel())
        else:
            out.append(numpy.asarray(o).ravel())
    rec(res)
    return numpy.concatenate(out) if out else numpy.zeros(0)


def c2(n):
    return n*(n - 1)//2


def eq(a, b):
    return a.shape == b.shape and (a.size == 0 or numpy.max(numpy.abs(a - b)) < 1e-12)


def is_anti(x, axes=((1, 0, 2, 3), (0, 1, 3, 2))):
    return all(eq(x, -x.transpose(t)) for t in axes)


def assemble(no, nv, b):
    """full tensor from the blocks present; None where no block covers"""
    n = no + nv
    X = numpy.full((n,)*4, numpy.nan)
    o, v = range(no), range(no, n)
    for k, x in b.items():
        ix = [o if c == "o" else v for c in k]
        want = tuple(len(i) for i in ix)
        if x.shape != want:
            return None
        X[numpy.ix_(*ix)] = x
    return X


class Sym(object):
    """stated symmetry of each generator's result; returns a list of complaints"""

    @staticmethod
    def make_random_F(r, no, nv):
        b = {k: numpy.asarray(getattr(r, k)) for k in ("oo", "ov", "vo", "vv")}
        d = {"o": no, "v": nv}
        bad = ["shape " + k for k in b if b[k].shape != (d[k[0]], d[k[1]])]
        if not bad:
            for k, t in (("oo", "oo"), ("vv", "vv"), ("ov", "vo")):
                if not eq(b[k], b[t].T):
                    bad.append("%s is not the transpose of %s" % (k, t))
        return bad, no*(no + 1)//2 + nv*(nv + 1)//2 + no*nv

    @staticmethod
    def _exchange(no, nv, b, anti):
        X = assemble(no, nv, b)
        if X is None:
            return ["block shapes"]
        bad = []
        perms = [((1, 0, 3, 2), 1)]
        if anti:
            perms += [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1)]
        for t, s in perms:
            Y = s*X.transpose(t)
            m = ~(numpy.isnan(X) | numpy.isnan(Y))
            if m.any() and numpy.max(numpy.abs(X[m] - Y[m])) > 1e-12:
                bad.append("blocks violate the %s symmetry" % (t,))
        return bad

    @staticmethod
    def make_random_I(r, no, nv):
        n = no + nv
        # independent elements of a particle-exchange symmetric tensor covered by the nine blocks
        cov = set()
        for ix in itertools.product(range(n), repeat=4):
            k = "".join("o" if i < no else "v" for i in ix)
            if k in tn.NAMES9:
                cov.add(min(ix, (ix[1], ix[0], ix[3], ix[2])))
        return Sym._exchange(no, nv, blocks(r, False), False), len(cov)

    @staticmethod
    def make_random_I_anti(r, no, nv):
        return Sym._exchange(no, nv, blocks(r, False), True), c2(no + nv)**2

    @staticmethod
    def make_random_Ifull(r, no, nv):
        b = blocks(r, True)
        bad = Sym._exchange(no, nv, b, True)
        X = assemble(no, nv, b)
        if X is not None and numpy.isnan(X).any():
            bad.append("blocks do not cover the tensor")
        return bad, c2(no + nv)**2

    @staticmethod
    def make_random_Ifull_gen(r, *s):
        o, v = s[0::2], s[1::2]
        bad = []
        for k in tn.NAMES16:
            want = tuple(o[p] if c == "o" else v[p] for p, c in enumerate(k))
            if numpy.asarray(getattr(r, k)).shape != want:
                bad.append("shape of " + k)
        return bad, int(numpy.prod([x + y for x, y in zip(o, v)]))

    @staticmethod
    def make_random_integrals(r, no, nv):
        b1, d1 = Sym.make_random_F(r[0], no, nv)
        b2, d2 = Sym.make_random_I_anti(r[1], no, nv)
        return b1 + b2, d1 + d2

    @staticmethod
    def make_random_T(r, no, nv):
        bad = []
        if r[0].shape != (nv, no) or r[1].shape != (nv, nv, no, no):
            bad.append("shape")
        elif not is_anti(r[1]):
            bad.append("T2 not antisymmetric")
        return bad, nv*no + c2(nv)*c2(no)

    @staticmethod
    def make_random_L(r, no, nv):
        bad = []
        if r[0].shape != (no, nv) or r[1].shape != (no, no, nv, nv):
            bad.append("shape")
        elif not is_anti(r[1]):
            bad.append("L2 not antisymmetric")
        return bad, nv*no + c2(nv)*c2(no)

    @staticmethod
    def make_random_T1_spatial(r, noa, nva, nob, nvb):
        bad = [] if r[0].shape == (nva, noa) and r[1].shape == (nvb, nob) else ["shape"]
        return bad, nva*noa + nvb*nob

    @staticmethod
    def make_random_T2_spatial(r, noa, nva, nob, nvb):
        aa, ab, bb = r
        bad = []
        if aa.shape != (nva, nva, noa, noa) or bb.shape != (nvb, nvb, nob, nob) or ab.shape != (nva, nvb, noa, nob):
            bad.append("shape")
        else:
            if not is_anti(aa):
                bad.append("alpha-alpha not antisymmetric")
            if not is_anti(bb):
                bad.append("beta-beta not antisymmetric")
        return bad, c2(nva)*c2(noa) + c2(nvb)*c2(nob) + nva*nvb*noa*nob

    @staticmethod
    def make_random_Itot(r, n):
        bad = []
        if r.shape != (n,)*4:
            bad.append("shape")
        else:
            for t in ((1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)):
                if not eq(r, r.transpose(t)):
                    bad.append("not symmetric under %s" % (t,))
        orb = set()
        for p, q, r_, s in itertools.product(range(n), repeat=4):
            orb.add(min((p, q, r_, s), (q, p, s, r_), (r_, s, p, q), (s, r_, q, p)))
        return bad, len(orb)

    @staticmethod
    def make_random_ft_integrals(r, n):
        F, I = r
        bad = []
        if F.shape != (n, n) or I.shape != (n,)*4:
            bad.append("shape")
        else:
            if not eq(F, F.T):
                bad.append("F not symmetric")
            if not is_anti(I):
                bad.append("I not antisymmetric")
        return bad, n*(n + 1)//2 + c2(n)**2

    @staticmethod
    def _anti_g(x):
        return all(eq(x, -x.transpose(t)) for t in ((0, 2, 1, 3, 4), (0, 1, 2, 4, 3)))

    @staticmethod
    def make_random_ft_T(r, ng, n):
        bad = []
        if r[0].shape != (ng, n, n) or r[1].shape != (ng, n, n, n, n):
            bad.append("shape")
        elif not Sym._anti_g(r[1]):
            bad.append("T2 not antisymmetric at each grid point")
        return bad, ng*(n*n + c2(n)**2)

    @staticmethod
    def make_random_ft_T1_spatial(r, ng, na, nb):
        bad = [] if r[0].shape == (ng, na, na) and r[1].shape == (ng, nb, nb) else ["shape"]
        return bad, ng*(na*na + nb*nb)

    @staticmethod
    def make_random_ft_T2_spatial(r, ng, na, nb):
        aa, ab, bb = r
        bad = []
        if aa.shape != (ng,) + (na,)*4 or bb.shape != (ng,) + (nb,)*4 or ab.shape != (ng, na, nb, na, nb):
            bad.append("shape")
        elif not (Sym._anti_g(aa) and Sym._anti_g(bb)):
            bad.append("same-spin block not antisymmetric")
        return bad, ng*(c2(na)**2 + c2(nb)**2 + na*na*nb*nb)

    @staticmethod
    def _d1(D, n):
        """differences of one set of energies"""
        if D.shape != (n, n):
            return ["shape"]
        if n == 0:
            return []
        e = D[:, 0]
        return [] if eq(D, e[:, None] - e[None, :]) else ["D1 is not a table of energy differences"]

    @staticmethod
    def make_random_ft_D1(r, n):
        return Sym._d1(r, n), max(0, n - 1)

    @staticmethod
    def make_random_ft_D(r, n):
        bad = Sym._d1(r[0], n)
        if r[1].shape != (n,)*4:
            bad.append("shape")
        elif not bad and not eq(r[1], r[0][:, None, :, None] + r[0][None, :, None, :]):
            bad.append("D2 does not belong to the energies of D1")
        return bad, max(0, n - 1)

    @staticmethod
    def make_random_ft_D2(r, n1, n2):
        if r.shape != (n1, n2, n1, n2):
            return ["shape"], 0
        bad = []
        if n1 and n2:
            a, b = r[:, 0, :, 0], r[0, :, 0, :]
            bad = Sym._d1(a, n1) + Sym._d1(b, n2)
            if not eq(r, a[:, None, :, None] + b[None, :, None, :]):
                bad.append("D2 is not a sum of energy differences of the two sets")
            return bad, n1 - 1 + n2 - 1
        return bad, 0


def run(case, ctx):
    src = Source()
    for nm in ("random", "random_sample", "ranf", "sample", "rand", "uniform"):
        setattr(numpy.random, nm, getattr(src, nm))
    for nm in ("default_rng", "RandomState", "Generator"):
        setattr(numpy.random, nm, lambda *a, **k: src)
    import importlib
    tu = importlib.reload(importlib.import_module("cqcpy.test_utils"))
    fn = getattr(tu, case["gen"])
    args = case["args"]
    sym = getattr(Sym, case["gen"])

    def call(value, start=0):
        src.pos = start
        src.value = value
        r = fn(*args)
        ctx.state()
        ctx.step()
        bad, dim = sym(r, *args)
        return flat(r), bad, dim, src.pos - start

    zero, bad, dim, ndraw = call(lambda k: 0.0)
    ctx.check(not bad, "%s: %s" % (case["gen"], bad), draw="all zero")
    if ndraw == 0 and dim > 0:
        # the variates do not pass through the scripted source
        seen = [call(lambda k: 0.0) for k in range(8)]
        ctx.check(not any(s[1] for s in seen), "%s: %s" % (case["gen"], seen[0][1]), draw="own source")
        ctx.check(any(not numpy.array_equal(s[0], zero) for s in seen), "%s: draws differ" % case["gen"])
        ctx.outcome("own source")
        return
    if case.get("large"):
        for nm, s in (("ones", numpy.ones(ndraw)), ("ramp", numpy.arange(ndraw)/max(1, ndraw)),
                      ("w1", tn.weyl((ndraw,), 1) + 0.5), ("w2", tn.weyl((ndraw,), 2) + 0.5)):
            v, bad, dim, m = call(lambda k: float(s[k]))
            ctx.check(not bad, "%s: %s" % (case["gen"], bad), draw=nm)
            ctx.check(m == ndraw, "number of variates does not depend on their values")
            ctx.outcome(v)
        u = v - zero
        ctx.check(dim == 0 or numpy.count_nonzero(numpy.abs(u) > 1e-12) >= dim, "%s: result uses the whole symmetric space" % case["gen"], dim=dim)
        return
    rows = []
    for u in range(ndraw):
        v, bad, dim, m = call(lambda k: 1.0 if k == u else 0.0)
        ctx.check(not bad, "%s: %s" % (case["gen"], bad), draw="unit %d" % u)
        ctx.check(m == ndraw, "number of variates does not depend on their values")
        rows.append(v - zero)
        ctx.outcome(v)
    A = numpy.array(rows).reshape(ndraw, len(zero))
    rank = int(numpy.linalg.matrix_rank(A)) if A.size else 0
    ctx.check(rank == dim, "%s: image has dimension %d, the stated symmetric space has %d" % (case["gen"], rank, dim))
    seqs = {"ones": numpy.ones(ndraw), "ramp": numpy.arange(ndraw)/max(1, ndraw)}
    seqs["w1"] = tn.weyl((ndraw,), 1) + 0.5
    seqs["w2"] = tn.weyl((ndraw,), 2) + 0.5
    for nm, s in seqs.items():
        for start in (0, 17):
            v, bad, dim, m = call(lambda k: float(s[k - start]), start)
            ctx.check(not bad, "%s: %s" % (case["gen"], bad), draw=nm)
            ctx.same("%s is linear in the variates" % case["gen"], v - zero, s.dot(A) if ndraw else zero, draw=nm)
    ctx.sample(gen=case["gen"], args=str(args), draws=ndraw, rank=rank)
