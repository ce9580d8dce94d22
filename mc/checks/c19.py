"""C19: Fermi occupations and non-interacting grand potentials."""
import decimal
import itertools
import math

import numpy

BOUND = {
    "quick": "beta in {1e-6..1e6 by decades, 0.3, 7, 2^-3, 2^5} x mu in 5 values x x=beta*(e-mu) on a lattice of 250+ points incl. both neighbours of every integer and half integer in [-40,40], +-{100, 700, 745, 746, 800, 1e4, 1e8}; vectors: every sequence of length <=4 over 7 regimes (incl. empty), float and int energies, three layouts; long vectors of 16 lengths from 5 to 4097, seven rotations of the regimes, sorted both ways and constant",
    "thorough": "as quick, with the x lattice refined to steps of 1/16 in [-45,45] and neighbours at 1, 2, 4 ulp"}
ASSUMPTIONS = ["x = beta*(e-mu) is formed in floating point by any implementation, so the comparison is made for the rounded x, with a forward-error allowance"]

D = decimal.Decimal
CTX = decimal.Context(prec=60, Emax=10**9, Emin=-10**9)

BETAS = [10.0**k for k in range(-6, 7)] + [0.3, 7.0, 0.125, 32.0]
MUS = [0.0, 1.0, -2.5, 0.1, 1e-8]
LONG = (5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 257, 1025, 4097)
BIG = [100.0, 700.0, 745.0, 746.0, 800.0, 1e4, 1e8]


def xs(tier):
    out = set()
    st = 16 if tier == "thorough" else 2
    top = 45 if tier == "thorough" else 40
    for k in range(-top*st, top*st + 1):
        x = k/st
        out.add(x)
        lo = hi = x
        for u in range(4 if tier == "thorough" else 1):
            lo, hi = math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)
            out.update((lo, hi))
    for e in (1e-3, 1e-6, 1e-9, 1e-12):
        for c in (-36, -30, -20, 0, 20, 30, 36):
            out.update((c - e, c + e))
    for b in BIG:
        out.update((b, -b))
    return sorted(out)


def cases(tier):
    for b in BETAS:
        for m in MUS:
            yield {"kind": "scalar", "beta": b, "mu": m, "tier": tier}
    yield {"kind": "vector", "beta": 1.0, "mu": 0.0}
    yield {"kind": "vector", "beta": 3.7, "mu": -0.4}
    yield {"kind": "vector", "beta": 1e-3, "mu": 2.0}
    for n in LONG:
        yield {"kind": "long", "n": n}
    yield {"kind": "deriv"}
    yield {"kind": "units"}


def run(case, ctx):
    from cqcpy import ft_utils as ft
    with numpy.errstate(all="ignore"):
        getattr(Explore, case["kind"])(ft, ctx, case)


def exact(beta, e, mu):
    """reference values with 60 digits for the given floats"""
    with decimal.localcontext(CTX):
        emm = D(e) - D(mu)
        x = D(beta)*emm
        if x > 0:
            q = (-x).exp() if x < D(10)**7 else D(0)
            f, g = q/(1 + q), 1/(1 + q)
            l1 = (1 + q).ln() if q > D(10)**-30 else q - q*q/2
            om = -l1/D(beta)
            lx = l1
        else:
            q = x.exp() if -x < D(10)**7 else D(0)
            f, g = 1/(1 + q), q/(1 + q)
            l1 = (1 + q).ln() if q > D(10)**-30 else q - q*q/2
            lx = l1 - x
            om = -lx/D(beta)
        if x > 0:
            dom = l1/(D(beta)*D(beta)) + emm*f/D(beta)
        else:
            dom = l1/(D(beta)*D(beta)) - emm*g/D(beta)
        return f, g, om, dom, emm, x


def close(ctx, what, got, ref, allow, **d):
    """|got-ref| <= allow, all in Decimal"""
    ctx.traces += 1
    got = float(got)
    if not math.isfinite(got):
        ctx.fail(what + ": not finite", got=got, expected=float(ref), **d)
        return
    with decimal.localcontext(CTX):
        err = abs(D(got) - ref)
        if err > allow:
            ctx.fail(what, got=repr(got), expected=str(+ref)[:25], error=float(err), allowed=float(allow), **d)


class Explore(object):
    @staticmethod
    def point(ft, ctx, beta, e, mu, vals=None, **d):
        ctx.state()
        f, g, om, dom, emm, x = exact(beta, e, mu)
        with decimal.localcontext(CTX):
            # forward error of forming e-mu and beta*(e-mu) in doubles
            dx = D(beta)*abs(emm)*D(2)**-51
            eps = D("4e-13")
            tiny = D(2)**-1060
            if vals is None:
                vals = {k: float(getattr(ft, k)(beta, e, mu)) for k in
                        ("fermi_function", "vfermi_function", "grand_potential0", "dgrand_potential0")}
                ctx.step(4)
            kw = dict(beta=beta, energy=e, mu=mu, x=float(x), **d)
            if "fermi_function" in vals:
                close(ctx, "fermi_function", vals["fermi_function"], f, f*(eps + dx) + tiny, **kw)
            if "vfermi_function" in vals:
                close(ctx, "vfermi_function", vals["vfermi_function"], g, g*(eps + dx) + tiny, **kw)
            if "grand_potential0" in vals:
                sc = (abs(emm) + 1/D(beta))
                a = D("1e-13")*sc
                close(ctx, "grand_potential0", vals["grand_potential0"], om, a, **kw)
            if "dgrand_potential0" in vals:
                sc = (abs(emm) + 1/D(beta))/D(beta)
                a = D("2e-13")*sc
                close(ctx, "dgrand_potential0", vals["dgrand_potential0"], dom, a, **kw)
        return vals

    @staticmethod
    def scalar(ft, ctx, case):
        beta, mu = case["beta"], case["mu"]
        last = None
        for x in xs(case["tier"]):
            e = mu + x/beta
            v = Explore.point(ft, ctx, beta, e, mu)
            fo, fv = v["fermi_function"], v["vfermi_function"]
            ctx.check(0.0 <= fo <= 1.0 and 0.0 <= fv <= 1.0, "occupations lie in [0,1]", beta=beta, energy=e, mu=mu, occ=fo, vir=fv)
            ctx.check(abs(fo + fv - 1.0) <= 1e-14, "occupied and virtual factors sum to one", beta=beta, energy=e, mu=mu, occ=fo, vir=fv)
            if last is not None and last[0] <= e:
                ctx.check(fo <= last[1]*(1 + 4e-13) and last[2] <= fv*(1 + 4e-13), "occupations are monotone in energy",
                          beta=beta, mu=mu, energies=(last[0], e))
            last = (e, fo, fv)
            ctx.outcome(fo, fv, v["grand_potential0"])
        # numpy scalar and int arguments
        for e in (-3, 0, 2):
            vals = {k: float(getattr(ft, k)(beta, numpy.float64(e), mu)) for k in
                    ("fermi_function", "vfermi_function", "grand_potential0", "dgrand_potential0")}
            Explore.point(ft, ctx, beta, float(e), mu, vals, typ="float64")
            vals = {k: float(getattr(ft, k)(beta, e, mu)) for k in vals}
            Explore.point(ft, ctx, beta, float(e), mu, vals, typ="int")
            ctx.step(8)
        ctx.sample(beta=beta, mu=mu)

    @staticmethod
    def vector(ft, ctx, case):
        beta, mu = case["beta"], case["mu"]
        regimes = [-50.0, -30.5, -22.0, 0.0, 3.0, 21.5, 31.0]
        base = [mu + x/beta for x in regimes]
        ref = {}
        for k, e in enumerate(base):
            ref[k] = Explore.point(ft, ctx, beta, e, mu)
        fns = (("ff", "fermi_function"), ("ffv", "vfermi_function"), ("GP0", "grand_potential0"), ("dGP0", "dgrand_potential0"))
        for n in range(0, 5):
            for seq in itertools.product(range(len(base)), repeat=n):
                en = numpy.array([base[k] for k in seq], dtype=float)
                ctx.state()
                for nm, sc in fns:
                    out = getattr(ft, nm)(beta, en, mu)
                    ctx.step()
                    want = numpy.array([ref[k][sc] for k in seq], dtype=float)
                    ctx.same(nm, out, want, rtol=1e-12, energies=en, beta=beta, mu=mu)
                    if n <= 2:
                        for lay in (en[::-1].copy()[::-1], numpy.repeat(en, 2)[::2]):
                            ctx.same(nm + " strided", getattr(ft, nm)(beta, lay, mu), want, rtol=1e-12, energies=en)
                        ro = en.copy()
                        ro.setflags(write=False)
                        ctx.same(nm + " read-only", getattr(ft, nm)(beta, ro, mu), want, rtol=1e-12, energies=en)
                ctx.check(numpy.array_equal(en, [base[k] for k in seq]), "energies unchanged")
                ctx.outcome(seq)
        for na, nb in itertools.product(range(0, 4), repeat=2):
            for sa in itertools.product((0, 3, 5), repeat=na):
                for sb in itertools.product((1, 4), repeat=nb):
                    a = numpy.array([base[k] for k in sa], dtype=float)
                    b = numpy.array([base[k] for k in sb], dtype=float)
                    out = ft.uGP0(beta, a, b, mu)
                    ctx.state()
                    ctx.step()
                    ctx.check(len(out) == 2, "uGP0 returns two vectors")
                    ctx.same("uGP0 alpha", out[0], numpy.array([ref[k]["grand_potential0"] for k in sa]), rtol=1e-12)
                    ctx.same("uGP0 beta", out[1], numpy.array([ref[k]["grand_potential0"] for k in sb]), rtol=1e-12)
        ie = numpy.array([-2, 0, 1, 3])
        for nm, sc in fns:
            want = numpy.array([float(getattr(ft, sc)(beta, float(e), mu)) for e in ie])
            ctx.same(nm + " integer energies", getattr(ft, nm)(beta, ie, mu), want, rtol=1e-12)

    @staticmethod
    def long(ft, ctx, case):
        """each entry of a long vector is the scalar value at that entry"""
        beta, mu, n = 3.7, -0.4, case["n"]
        base = [mu + x/beta for x in (-50.0, -30.5, -22.0, 0.0, 3.0, 21.5, 31.0)]
        ref = [Explore.point(ft, ctx, beta, e, mu) for e in base]
        fns = (("ff", "fermi_function"), ("ffv", "vfermi_function"), ("GP0", "grand_potential0"), ("dGP0", "dgrand_potential0"))
        rot = [[(i + r) % 7 for i in range(n)] for r in range(7)]
        seqs = rot + [sorted(rot[0]), sorted(rot[0], reverse=True)] + [[k]*n for k in range(7)]
        for seq in seqs:
            en = numpy.array([base[k] for k in seq])
            ctx.state()
            for nm, sc in fns:
                ctx.step()
                ctx.same(nm, getattr(ft, nm)(beta, en, mu), numpy.array([ref[k][sc] for k in seq]), rtol=1e-12, n=n, regimes=str(seq[:8]))
            for m in (0, 1, n // 2, n - 1):
                ctx.step()
                out = ft.uGP0(beta, en, en[m:], mu)
                g = numpy.array([ref[k]["grand_potential0"] for k in seq])
                ctx.same("uGP0 alpha", out[0], g, rtol=1e-12, n=n)
                ctx.same("uGP0 beta", out[1], g[m:], rtol=1e-12, n=n)
            ctx.outcome(seq[:8])

    @staticmethod
    def deriv(ft, ctx, case):
        """d(grand potential)/d(mu) = -occupation; d/d(beta) = dgrand_potential0 (central differences)"""
        for beta in (0.3, 1.0, 7.0):
            for x in [k/4 for k in range(-160, 161)]:
                e = 0.2 + x/beta
                ctx.state()
                ctx.step(4)
                h = 1e-3/beta
                d = [(ft.grand_potential0(beta, e, 0.2 + k*h) - ft.grand_potential0(beta, e, 0.2 - k*h))/(2*k*h) for k in (1, 2)]
                dm = (4*d[0] - d[1])/3
                ctx.check(abs(dm + ft.fermi_function(beta, e, 0.2)) < 1e-8*(1 + abs(x)), "mu derivative is minus the occupation", beta=beta, x=x, got=float(dm))
                hb = beta*1e-4
                d = [(ft.grand_potential0(beta + k*hb, e, 0.2) - ft.grand_potential0(beta - k*hb, e, 0.2))/(2*k*hb) for k in (1, 2)]
                db = (4*d[0] - d[1])/3
                ref = ft.dgrand_potential0(beta, e, 0.2)
                ctx.check(abs(db - ref) < 1e-7*(1 + abs(x))**2/beta**2, "beta derivative", beta=beta, x=x, got=float(db), expected=float(ref))
                ctx.outcome(round(float(ref), 9))

    @staticmethod
    def units(ft, ctx, case):
        """temperature conversion: proportional, and 1 hartree = 315775 K to the quoted constants"""
        for T in (0.0, 1e-8, 0.01, 1.0, 2.0, 3.5, 1e6):
            ctx.state()
            ctx.step()
            k = float(ft.HtoK(T))
            ctx.check(abs(k - T*315775.02) <= 2e-6*T*315775.02, "hartree to kelvin", T=T, got=k)
            ctx.outcome(k)
        ctx.same("HtoK array", ft.HtoK(numpy.array([0.0, 1.0, 2.0])), numpy.array([0.0, 1.0, 2.0])*float(ft.HtoK(1.0)))
