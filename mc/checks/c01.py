"""C01: occupation strings against the ladder-operator algebra."""
import itertools

import numpy

from mc import ci

BOUND = {
    "quick": "every determinant of n <= 10 orbitals x every (i,a) with i=a included, breadth-first over strings produced by the library itself, 4 ways of giving the occupation; all pairs of strings for n <= 7 (equality, level); every mode string with up to 4 modes and 3 quanta; 15..129 orbitals: all occupation patterns made of one run of filled or empty orbitals ending at word-size boundaries, and alternating ones, x all moves between orbitals next to such boundaries",
    "thorough": "as quick with n <= 12 orbitals, pairs for n <= 8, 5 modes and 4 quanta"}
ASSUMPTIONS = []
WIDE = (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129)
KINDS = ("list", "tuple", "int64", "int8")


def given(occ, kind):
    if kind == "list":
        return list(occ)
    if kind == "tuple":
        return tuple(occ)
    return numpy.array(occ, dtype=kind)


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (13 if th else 11)):
        for N in range(n + 1):
            yield {"kind": "bfs", "n": n, "N": N}
    for n in range(1, (9 if th else 8)):
        yield {"kind": "pairs", "n": n}
    for n in range(0, (6 if th else 5)):
        yield {"kind": "modes", "n": n, "cap": 4 if th else 3}
    yield {"kind": "lengths"}
    for n in WIDE + ((255, 256, 257, 513) if th else ()):
        yield {"kind": "wide", "n": n}


def cost(c):
    return c.get("n", 0)*(1 if c["kind"] == "wide" else 20)


def key(s):
    return tuple(int(x) for x in s.occ)


def run(case, ctx):
    from cqcpy import ci_utils as cu
    kind = case["kind"]
    if kind == "bfs":
        n, N = case["n"], case["N"]
        # depth-one from every determinant in every input form
        for occ in ci.occs(n, N):
            for k in KINDS:
                ctx.state()
                check_moves(ctx, cu, cu.Dstring(n, given(occ, k)), occ, n, k)
        # breadth-first over library-made strings
        start = [1]*N + [0]*(n - N)
        seen = {tuple(start): None}
        todo = [cu.Dstring(n, start)]
        while todo:
            s = todo.pop(0)
            ctx.state()
            for new in check_moves(ctx, cu, s, list(key(s)), n, "reached"):
                if key(new) not in seen:
                    seen[key(new)] = None
                    todo.append(new)
        ctx.check(len(seen) == len(list(ci.occs(n, N))), "all strings of the sector are reachable by moves", n=n, N=N)
    elif kind == "pairs":
        n = case["n"]
        occs = list(ci.occs(n))
        for a in occs:
            for b in occs:
                for cls in (cu.Dstring, cu.Pstring):
                    x, y = cls(n, list(a)), cls(n, numpy.array(b))
                    ctx.state()
                    ctx.step(2)
                    ctx.check(bool(x == y) == (a == b), "equality of strings", a=a, b=b)
                    ctx.check(bool(x != y) == (a != b), "inequality of strings", a=a, b=b)
                    lev = sum(abs(p - q) for p, q in zip(a, b))
                    ctx.check(int(cu.level(x, y)) == lev, "level", a=a, b=b, got=str(cu.level(x, y)))
                    ctx.check(int(cu.diff(x, y)) == lev, "diff", a=a, b=b, got=str(cu.diff(x, y)))
                    ctx.check(list(key(x)) == a and list(key(y)) == b, "comparison leaves strings alone", a=a, b=b)
                    # membership as used by the bases
                    ctx.check(([y].index(x) == 0) if a == b else (y not in [x]), "list search", a=a, b=b)
                    ctx.outcome(a == b, lev)
    elif kind == "wide":
        n = case["n"]
        edge = sorted(set(x for x in (0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, n//2, n - 1, n) if x <= n))
        near = sorted(set(x for e in edge for x in (e - 1, e) if 0 <= x < n))
        pats = [[int(p <= k < q) for k in range(n)] for p in edge for q in edge if p < q]
        pats = [x for y in pats for x in (y, [1 - k for k in y])] + [[(k + j) % 2 for k in range(n)] for j in (0, 1)]
        pats = [list(x) for x in sorted(set(tuple(x) for x in pats))]
        for k, occ in enumerate(pats):
            ctx.state()
            check_moves(ctx, cu, cu.Dstring(n, given(occ, KINDS[k % 4])), occ, n, KINDS[k % 4], near)
            x = cu.Dstring(n, occ)
            for b in pats:
                y = cu.Dstring(n, numpy.array(b))
                ctx.step()
                ctx.check(bool(x == y) == (occ == b), "equality of long strings")
                if b == pats[0] or b == pats[-1]:
                    lev = sum(abs(p - q) for p, q in zip(occ, b))
                    ctx.check(int(cu.level(x, y)) == lev, "level of long strings", a=occ, b=b)
    elif kind == "modes":
        n, cap = case["n"], case["cap"]
        for occ in itertools.product(range(cap + 1), repeat=n):
            for k in KINDS:
                s = cu.Pstring(n, given(occ, k))
                ctx.state()
                for p in range(n):
                    ctx.step(2)
                    up = s.raize(p)
                    want = list(occ)
                    want[p] += 1
                    ctx.check(list(key(up)) == want and up.n == n, "raise", occ=occ, p=p, got=key(up))
                    dn = s.lower(p)
                    if occ[p] == 0:
                        ctx.check(dn is None, "lowering the empty mode reports nothing", occ=occ, p=p)
                    else:
                        want[p] -= 2
                        ctx.check(dn is not None and list(key(dn)) == want and dn.n == n, "lower", occ=occ, p=p)
                        ctx.check(dn.raize(p) == s, "raise after lower", occ=occ, p=p)
                    ctx.check(up.lower(p) == s, "lower after raise", occ=occ, p=p)
                    ctx.check(key(s) == occ, "original string untouched", occ=occ, p=p)
                    ctx.outcome(key(up))
        # levels between mode strings
        small = list(itertools.product(range(min(cap, 2) + 1), repeat=min(n, 3)))
        for a in small:
            for b in small:
                x, y = cu.Pstring(len(a), list(a)), cu.Pstring(len(b), list(b))
                ctx.step()
                ctx.check(int(cu.level(x, y)) == sum(abs(p - q) for p, q in zip(a, b)), "level of mode strings", a=a, b=b)
                ctx.check(bool(x == y) == (a == b), "equality of mode strings", a=a, b=b)
    else:
        for n, m in itertools.product(range(1, 5), repeat=2):
            if n == m:
                continue
            for a in ci.occs(n):
                for b in ci.occs(m):
                    ctx.state()
                    ctx.check(not (cu.Dstring(n, a) == cu.Dstring(m, b)), "strings of different length differ", a=a, b=b)
                    ctx.check(not (cu.Pstring(n, a) == cu.Pstring(m, b)), "mode strings of different length differ", a=a, b=b)


def check_moves(ctx, cu, s, occ, n, how, orbs=None):
    """one-electron moves from s, all (i,a) (among orbs); yields new strings"""
    m = ci.mask_of(occ)
    out = []
    for i in range(n) if orbs is None else orbs:
        for a in range(n) if orbs is None else orbs:
            ctx.step()
            sign, new = s.excite(i, a)
            ref = ci.move(m, i, a)
            d = dict(occ=occ, i=i, a=a, given=how)
            if ref is None:
                ctx.check(new is None and sign is None, "move reports no result when the operator annihilates", **d)
            else:
                ok = ctx.check(new is not None, "move reports a result", **d)
                if ok:
                    ctx.check(list(key(new)) == ci.occ_of(ref[1], n) and new.n == n, "determinant after the move", got=key(new), **d)
                    ctx.check(sign == ref[0], "sign of the move", got=float(sign), expected=ref[0], **d)
                    ctx.outcome(key(new), int(sign))
                    out.append(new)
            ctx.check(list(key(s)) == list(occ), "original string untouched", **d)
    return out
