"""C02: excitation lists and CI bases."""
import itertools
import math

from mc import ci

BOUND = {
    "quick": "excitation lists of rank 1-4 for every reference occupation of n <= 10 orbitals (and the default one); spin-resolved bases n <= 6 and the one of rank 4 on 8 orbitals, all (na,nb); spin-orbital bases nmo <= 10, all n; vibrational bases up to 8 modes; single, double, triple and quadruple lists of 12 to 65 orbitals with three references for every electron number with at most 6000 strings, and selected bases of 8 to 66 orbitals",
    "thorough": "lists n <= 11, spin-resolved n <= 7, spin-orbital nmo <= 12, 10 modes"}
ASSUMPTIONS = []
RANKS = {"s": 1, "d": 2, "t": 3, "q": 4}


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 12 if th else 11):
        for N in range(n + 1):
            yield {"kind": "lists", "n": n, "N": N}
    for n in range(1, 8 if th else 7):
        for na, nb in itertools.product(range(n + 1), repeat=2):
            yield {"kind": "u", "n": n, "na": na, "nb": nb}
    for n in range(2, 13 if th else 11, 2):
        for N in range(n + 1):
            yield {"kind": "g", "n": n, "N": N}
    for n in range(0, 11 if th else 9):
        yield {"kind": "v", "n": n}


    # larger spaces, every electron number where the list stays short
    for r, sizes in ((1, (16, 33, 64, 65)), (2, (16, 20)), (3, (12, 13)), (4, (12,))):
        for n in sizes:
            for N in range(n + 1):
                if math.comb(N, r)*math.comb(n - N, r) <= 6000:
                    yield {"kind": "long", "n": n, "N": N, "r": r}
    for n, na, nb, r in ((9, 3, 2, 2), (9, 1, 8, 2), (20, 2, 1, 2), (33, 1, 1, 1), (9, 2, 2, 3), (8, 4, 1, 3), (8, 2, 2, 4), (9, 8, 7, 4), (10, 0, 3, 3), (10, 9, 9, 4)):
        yield {"kind": "longu", "n": n, "na": na, "nb": nb, "r": r}
        if na != nb:
            yield {"kind": "longu", "n": n, "na": nb, "nb": na, "r": r}
    # four electrons of one spin move only if there are four empty orbitals for them
    for na, nb in itertools.product(range(9), repeat=2):
        if (na, nb) != (2, 2):
            yield {"kind": "longu", "n": 8, "na": na, "nb": nb, "r": 4}
    for na, nb in ((4, 5), (5, 4), (4, 3), (3, 4), (4, 4), (5, 5), (1, 5), (5, 1)):
        yield {"kind": "longu", "n": 9, "na": na, "nb": nb, "r": 4}
    for n, N, r in ((24, 4, 2), (24, 21, 2), (66, 2, 1), (66, 63, 1), (16, 5, 3), (16, 12, 3), (14, 6, 4), (14, 9, 4)):
        yield {"kind": "longg", "n": n, "N": N, "r": r}


def cost(c):
    return c["n"]*(3 if c["kind"].startswith("long") else 1)


def excited(occ, r):
    """all occupations with r electrons moved, from the lists of holes and particles"""
    o = [k for k, x in enumerate(occ) if x]
    v = [k for k, x in enumerate(occ) if not x]
    for h in itertools.combinations(o, r):
        for p in itertools.combinations(v, r):
            y = list(occ)
            for k in h:
                y[k] = 0
            for k in p:
                y[k] = 1
            yield tuple(y)


def key(s):
    return tuple(int(x) for x in s.occ)


def rank(a, b):
    return sum(1 for x, y in zip(a, b) if x > y)


def same_set(ctx, what, got, want, **d):
    """exactly once each"""
    ctx.step()
    ctx.check(len(got) == len(want), what + ": number of strings", got_n=len(got), expected_n=len(want), **d)
    ctx.check(len(set(got)) == len(got), what + ": no duplicates", **d)
    miss = set(want) - set(got)
    extra = set(got) - set(want)
    ctx.check(not miss and not extra, what + ": strings", missing=sorted(miss)[:2], extra=sorted(extra)[:2], **d)
    ctx.outcome(tuple(sorted(got)))


def run(case, ctx):
    from cqcpy import ci_utils as cu
    kind, n = case["kind"], case["n"]
    if kind == "lists":
        N = case["N"]
        refs = list(ci.occs(n, N))
        aufbau = [1]*N + [0]*(n - N)
        for occ in refs:
            groups = {r: [] for r in range(5)}
            for o in refs:
                r = rank(occ, o)
                if r in groups:
                    groups[r].append(tuple(o))
            for nm, r in RANKS.items():
                fn = getattr(cu, nm + "_strings")
                ctx.state()
                arg = list(occ)
                out = fn(n, N, occ=arg)
                ctx.check(arg == occ, nm + "_strings leaves the reference alone", occ=occ)
                same_set(ctx, nm + "_strings", [key(s) for s in out], groups[r], occ=occ)
                ctx.check(all(s.n == n for s in out), nm + "_strings size", occ=occ)
                if occ == aufbau:
                    same_set(ctx, nm + "_strings default reference", [key(s) for s in fn(n, N)], groups[r], occ=occ)
    elif kind == "long":
        N, r = case["N"], case["r"]
        nm = "sdtq"[r - 1] + "_strings"
        aufbau = [1]*N + [0]*(n - N)
        alt = [0]*(n - N) + [1]*N
        mix = aufbau[::2] + aufbau[1::2]
        ctx.state(3)
        same_set(ctx, nm, [key(s) for s in getattr(cu, nm)(n, N)], list(excited(aufbau, r)), n=n, N=N)
        for occ in (alt, mix):
            same_set(ctx, nm, [key(s) for s in getattr(cu, nm)(n, N, occ=list(occ))], list(excited(occ, r)), occ=occ)
    elif kind == "longu":
        na, nb, r = case["na"], case["nb"], case["r"]
        ra, rb = [1]*na + [0]*(n - na), [1]*nb + [0]*(n - nb)
        want = [(a, b) for t in range(r + 1) for k in range(t + 1) for a in excited(ra, k) for b in excited(rb, t - k)]
        got = [(key(a), key(b)) for a, b in getattr(cu, "ucis" + "dtq"[:r - 1] + "_basis")(n, na, nb)]
        ctx.state()
        same_set(ctx, "long spin-resolved basis", got, want, n=n, na=na, nb=nb, r=r)
        ctx.check(got[0] == (tuple(ra), tuple(rb)), "reference first", n=n, na=na, nb=nb)
        order = [rank(ra, a) + rank(rb, b) for a, b in got]
        ctx.check(order == sorted(order), "rank order", n=n, na=na, nb=nb)
    elif kind == "longg":
        N, r = case["N"], case["r"]
        nb = N//2
        na = N - nb
        ref = [1]*na + [0]*(n//2 - na) + [1]*nb + [0]*(n//2 - nb)
        got = [key(s) for s in getattr(cu, "gcis" + "dtq"[:r - 1] + "_basis")(n, N)]
        ctx.state()
        same_set(ctx, "long spin-orbital basis", got, [x for k in range(r + 1) for x in excited(ref, k)], nmo=n, N=N, r=r)
        ctx.check(got[0] == tuple(ref), "reference first", nmo=n, N=N)
        order = [rank(ref, o) for o in got]
        ctx.check(order == sorted(order), "rank order", nmo=n, N=N)
    elif kind == "u":
        na, nb = case["na"], case["nb"]
        ra, rb = [1]*na + [0]*(n - na), [1]*nb + [0]*(n - nb)
        allp = [(tuple(a), tuple(b), rank(ra, a) + rank(rb, b)) for a in ci.occs(n, na) for b in ci.occs(n, nb)]
        for nm, top, kw in (("ucis", 1, {}), ("ucis", 1, {"gs": True}), ("ucis", 1, {"gs": False}), ("ucisd", 2, {}), ("ucisdt", 3, {}), ("ucisdtq", 4, {})):
            out = getattr(cu, nm + "_basis")(n, na, nb, **kw)
            ctx.state()
            low = 1 if kw.get("gs") is False else 0
            got = [(key(a), key(b)) for a, b in out]
            d = dict(n=n, na=na, nb=nb, kw=str(kw))
            same_set(ctx, nm + "_basis", got, [(a, b) for a, b, r in allp if low <= r <= top], **d)
            order = [rank(ra, a) + rank(rb, b) for a, b in got]
            ctx.check(order == sorted(order), nm + "_basis rank order", **d)
            if low == 0:
                ctx.check(got and got[0] == (tuple(ra), tuple(rb)), nm + "_basis reference first", **d)
    elif kind == "g":
        N = case["N"]
        nb = N//2
        na = N - nb
        ref = [1]*na + [0]*(n//2 - na) + [1]*nb + [0]*(n//2 - nb)
        alld = [(tuple(o), rank(ref, o)) for o in ci.occs(n, N)]
        for nm, top, kw in (("gcis", 1, {}), ("gcis", 1, {"gs": True}), ("gcis", 1, {"gs": False}), ("gcisd", 2, {}), ("gcisdt", 3, {}), ("gcisdtq", 4, {})):
            out = getattr(cu, nm + "_basis")(n, N, **kw)
            ctx.state()
            low = 1 if kw.get("gs") is False else 0
            got = [key(s) for s in out]
            d = dict(nmo=n, n=N, kw=str(kw))
            same_set(ctx, nm + "_basis", got, [o for o, r in alld if low <= r <= top], **d)
            order = [rank(ref, o) for o in got]
            ctx.check(order == sorted(order), nm + "_basis rank order", **d)
            if low == 0:
                ctx.check(got and got[0] == tuple(ref), nm + "_basis reference first", **d)
    else:
        two = [o for o in itertools.product(range(3), repeat=n) if sum(o) <= 2]
        for nm, lo, hi in (("s_pstrings", 1, 1), ("d_pstrings", 2, 2), ("vcis_basis", 0, 1), ("vcisd_basis", 0, 2)):
            got = [key(s) for s in getattr(cu, nm)(n)]
            ctx.state()
            same_set(ctx, nm, got, [o for o in two if lo <= sum(o) <= hi], n=n)
            order = [sum(o) for o in got]
            ctx.check(order == sorted(order), nm + " rank order", n=n)
