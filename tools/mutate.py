"""Development aid: how many small edits of the library do the checks notice?

Makes single-token edits (signs, factors, comparison operators, index letters,
block names, alpha/beta names, dropped statements, slice bounds), evenly spread
over all functions of a module, in scratch copies, and runs the check(s)
responsible for the function. Prints the edits nobody reports; those are either
equivalent or point at a gap.

usage: mutate.py [--per N] [--par N] [--start K] module.py...
"""
import argparse
import ast
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RULES = [
    ("ci_utils.py", r"Dstring|Pstring|level|diff", "C01"),
    ("ci_utils.py", r".*strings|.*basis", "C02"),
    ("ci_utils.py", r".*matrixel", "C03"),
    ("ci_utils.py", r".*CfromT", "C05"),
    ("ci_utils.py", r".*", "C04"),
    ("cc_energy.py", r".*", "C06"),
    ("cc_equations.py", r"_S_|_D_", "C08 C07"),
    ("cc_equations.py", r"lcc|ccd_ladder|ccd_ring|ccd_simple|ccd_stanton|_Stanton_ccd", "C08"),
    ("cc_equations.py", r"_Stanton|ccsd_s", "C07"),
    ("cc_equations.py", r"_u_Stanton|uccsd_s", "C09"),
    ("cc_equations.py", r"_r_Stanton|rccsd_s", "C10"),
    ("cc_equations.py", r"_u_LS|_r_LS|_uccsd_L|_rccsd_L|uccsd_l|rccsd_l", "C12"),
    ("cc_equations.py", r"_LS|_LD|lambda_int|_Lambda|ccsd_l|ccd_l", "C11"),
    ("cc_equations.py", r"ccsd_1rdm", "C13"),
    ("cc_equations.py", r"ccsd_2rdm", "C14"),
    ("cc_equations.py", r"[ur]ccsd_.rdm", "C15"),
    ("spin_utils.py", r".*", "C17"),
    ("ov_blocks.py", r".*", "C18"),
    ("ft_utils.py", r".*", "C19"),
    ("utils.py", r".*", "C20"),
    ("test_utils.py", r".*", "C21"),
    ("integrals.py", r"eri_blocks", "C24"),
    ("integrals.py", r".*sol.*", "C23"),
    ("integrals.py", r".*", "C22 C23"),
]


def responsible(mod, fn):
    for m, pat, c in RULES:
        if m == mod and re.match("(%s)" % pat, fn):
            return c.split()
    return []


def edits(src):
    """yield (function, line, start, end, replacement) on character offsets"""
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l))
    tree = ast.parse(src)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    for top in tree.body:
        if not isinstance(top, (ast.FunctionDef, ast.ClassDef)):
            continue
        if top.name == "ccsd_pt_simple":
            continue
        for n in ast.walk(top):
            if isinstance(n, ast.Assert):
                continue
            if not hasattr(n, "lineno"):
                continue
            s, e = pos(n)
            t = src[s:e]
            if isinstance(n, ast.AugAssign):
                k = t.find("+=") if isinstance(n.op, ast.Add) else t.find("-=")
                if k > 0:
                    yield top.name, n.lineno, s + k, s + k + 2, "-=" if t[k] == "+" else "+="
                yield top.name, n.lineno, s, e, "pass"
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                a, b = pos(n.left)[1], pos(n.right)[0]
                m = src[a:b]
                c = "+" if isinstance(n.op, ast.Add) else "-"
                if c in m:
                    k = a + m.index(c)
                    yield top.name, n.lineno, k, k + 1, "-" if c == "+" else "+"
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                yield top.name, n.lineno, s, s + 1, "+"
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                yield top.name, n.lineno, s, e, repr(n.value*2 if n.value else 1)
                if isinstance(n.value, int):
                    yield top.name, n.lineno, s, e, repr(n.value + 1)
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                yield top.name, n.lineno, s, e, repr(not n.value)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "->" in n.value:
                inp, out = n.value.split("->")
                for w, term in enumerate(inp.split(",")):
                    for k in range(len(term) - 1):
                        x = term[:k] + term[k + 1] + term[k] + term[k + 2:]
                        new = ",".join(x if j == w else y for j, y in enumerate(inp.split(",")))
                        if x != term:
                            yield top.name, n.lineno, s, e, repr(new + "->" + out)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = pos(n.left)[1], pos(n.comparators[0])[0]
                m = src[a:b].strip()
                alt = {"<": ("<=", ">"), "<=": ("<",), ">": (">=", "<"), ">=": (">",), "==": ("!=",), "!=": ("==",), "is": ("is not",), "is not": ("is",)}.get(m, ())
                for x in alt:
                    yield top.name, n.lineno, a, b, " " + x + " "
            elif isinstance(n, ast.Attribute) and re.fullmatch("[ov]{2}|[ov]{4}", n.attr):
                a = n.attr
                new = a[::-1] if len(a) == 2 else a[2:] + a[:2]
                if new != a:
                    yield top.name, n.lineno, e - len(a), e, new
                if len(a) == 4 and a[1] + a[0] + a[3] + a[2] != a:
                    yield top.name, n.lineno, e - len(a), e, a[1] + a[0] + a[3] + a[2]
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for x, y in (("aa", "bb"), ("bb", "aa"), ("a", "b"), ("b", "a"), ("o", "v"), ("v", "o")):
                    if n.id.endswith(x) and len(n.id) > 1:
                        new = n.id[:-len(x)] + y
                        if re.search(r"\b%s\b" % new, src[off[top.lineno - 1]:off[top.end_lineno]]):
                            yield top.name, n.lineno, s, e, new
                            break
                for x, y in (("no", "nv"), ("nv", "no"), ("o1", "o2"), ("o2", "o1"), ("o3", "o4"), ("o4", "o2"), ("L1", "L2"), ("i", "a"), ("a", "i"), ("j", "b"), ("b", "a")):
                    if n.id == x:
                        yield top.name, n.lineno, s, e, y
            elif isinstance(n, ast.Tuple) and len(n.elts) in (2, 3, 4, 5) and all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in n.elts):
                v = [x.value for x in n.elts]
                for k in range(len(v) - 1):
                    w = list(v)
                    w[k], w[k + 1] = w[k + 1], w[k]
                    if w != v:
                        yield top.name, n.lineno, s, e, repr(tuple(w))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("mods", nargs="+")
    p.add_argument("--per", type=int, default=6, help="edits per function")
    p.add_argument("--par", type=int, default=4)
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--fn", default="")
    p.add_argument("--tests", action="store_true", help="run the test suite on what the checks miss")
    a = p.parse_args()
    jobs = []
    for m in a.mods:
        src = open("/repo/cqcpy/" + m).read()
        by = {}
        for e in edits(src):
            by.setdefault(e[0], []).append(e)
        for fn, es in by.items():
            if not re.match(a.fn, fn):
                continue
            es.sort(key=lambda e: e[2:])
            step = max(1.0, len(es)/a.per)
            k = a.start*step/3.0
            while k < len(es):
                jobs.append((m, src, es[int(k)]))
                k += step
    print("%d edits" % len(jobs), flush=True)

    def one(j):
        m, src, (fn, line, s, e, new) = j
        tmp = tempfile.mkdtemp(prefix="mut-")
        try:
            tree = os.path.join(tmp, "repo")
            shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pyc"))
            txt = src[:s] + new + src[e:]
            try:
                ast.parse(txt)
            except SyntaxError:
                return None
            open(os.path.join(tree, "cqcpy", m), "w").write(txt)
            env = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=os.path.join(tmp, "ev"), VERIF_JOBS="2", VERIF_TIER="quick")
            seen = []
            for c in responsible(m, fn):
                r = subprocess.run(["bash", os.path.join(HERE, "check.sh"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                seen.append("%s=%d" % (c, r.returncode))
                if r.returncode == 1:
                    return True
            ctx = src[src.rfind("\n", 0, s) + 1:src.find("\n", e)]
            print("MISSED %s:%d %s  [%s]  %r -> %r   in: %s" % (m, line, fn, " ".join(seen), src[s:e], new, ctx.strip()), flush=True)
            return False
        finally:
            shutil.rmtree(tmp)

    with concurrent.futures.ThreadPoolExecutor(a.par) as ex:
        res = list(ex.map(one, jobs))
    print("caught %d missed %d unparsable %d" % (res.count(True), res.count(False), res.count(None)))


main()
