"""C27: backend configurations, interpreter configurations and storage layouts."""
import itertools
import os
import pickle
import subprocess
import sys
import warnings

import numpy

from mc import main
from mc import registry as rg
from mc import tensors as tn

BOUND = {
    "quick": "every public function without integral backend on four argument sets, and the coupled-cluster functions also on 7+7 orbitals (where the optional backend uses its own contraction path), in 23 process configurations compared with the plain one: backend missing entirely or without its lib part, assertions off, backend missing and assertions or docstrings off, several threads for linear algebra, other hash seed, each of the eight modules imported first and alone with and without the backend; every array argument separately and all together in 6 storage layouts; every choice of the arguments that are real while the others are complex, and integer while the others are real (functions with more than 6 array arguments: choices with up to two members or two missing)",
    "thorough": "as quick, every pair of array arguments in every pair of layouts"}
ASSUMPTIONS = ["a combination of number types that numpy's casting rule refuses with a TypeError is accepted", "the backend is made unavailable by an import hook that raises ImportError for it"]
LAYOUTS = ("F", "strided", "reversed", "readonly", "offset", "rolled")
MODULES = ("cc_energy", "cc_equations", "ci_utils", "ft_utils", "ov_blocks", "spin_utils", "test_utils", "utils")

CHILD = r'''
import sys, pickle
cfg = %(cfg)r
sys.dont_write_bytecode = True
sys.path[:0] = [%(repo)r, %(here)r]
if cfg.get("block"):
    class Block(object):
        def find_spec(self, name, path=None, target=None):
            if name == cfg["block"] or name.startswith(cfg["block"] + "."):
                raise ImportError("No module named %%r" %% name)
            return None
    sys.meta_path.insert(0, Block())
if cfg.get("first"):
    __import__("cqcpy." + cfg["first"])
from mc import registry as rg
out = {}
for e in rg.ENTRIES:
    if e.module == "integrals" or (cfg.get("first") and e.module != cfg["first"]):
        continue
    for v in e.variants:
        try:
            out[e.name, v] = rg.canon(e.call(e.args(v)))
        except Exception as x:
            out[e.name, v] = "%%s: %%s" %% (type(x).__name__, x)
out["pyscf"] = "pyscf.lib" in sys.modules
sys.stdout.buffer.write(b"@@@" + pickle.dumps(out, 2))
'''


def child(cfg):
    env = dict(os.environ)
    env.update(cfg.get("env", {}))
    code = CHILD % {"cfg": cfg, "repo": main.REPO, "here": main.HERE}
    r = subprocess.run([sys.executable] + cfg.get("flags", []) + ["-c", code], env=env, cwd="/",
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b"@@@" not in r.stdout:
        raise RuntimeError("configuration %s: %s" % (cfg, r.stderr.decode()[-1500:]))
    return pickle.loads(r.stdout.split(b"@@@", 1)[1])


CONFIGS = {
    "missing": {"block": "pyscf"},
    "nolib": {"block": "pyscf.lib"},
    "no_assertions": {"flags": ["-O"]},
    "missing_no_docstrings": {"block": "pyscf", "flags": ["-OO"]},     # the backend itself needs docstrings
    "missing_no_assertions": {"block": "pyscf", "flags": ["-O"]},
    "threads": {"env": {"OMP_NUM_THREADS": "4", "OPENBLAS_NUM_THREADS": "4", "MKL_NUM_THREADS": "4"}},
    "hash": {"env": {"PYTHONHASHSEED": "12345"}},
}
for _m in MODULES:
    CONFIGS["first_" + _m] = {"first": _m}
    CONFIGS["first_" + _m + "_missing"] = {"first": _m, "block": "pyscf"}


def alphabet():
    return [e for e in rg.ENTRIES if e.module != "integrals"]


def cases(tier):
    rg.preload()
    for c in CONFIGS:
        yield {"kind": "config", "cfg": c}
    for e in alphabet():
        yield {"kind": "layout", "f": e.name, "pairs": tier == "thorough"}
        for low in ("real", "integer"):
            yield {"kind": "types", "f": e.name, "low": low, "deep": tier == "thorough"}


def cost(c):
    return 100 if c["kind"] == "config" else 1


def run(case, ctx):
    getattr(Explore, case["kind"])(ctx, case)


def relay(o, pick, lay, n):
    """copy of a nested argument with the arrays whose running number is in `pick` stored differently"""
    if isinstance(o, numpy.ndarray):
        k = n[0]
        n[0] += 1
        if k in pick:
            return tn.layout(o, lay if isinstance(lay, str) else lay[k])
        return o.copy()
    if isinstance(o, (tuple, list)):
        return type(o)([relay(x, pick, lay, n) for x in o])
    if hasattr(o, "vvvv") or (hasattr(o, "oo") and hasattr(o, "vv")):
        return tn.rebuild(o, lambda x: relay(x, pick, lay, n))
    return o


def kinds(o, n, f):
    """copy of a nested argument with f(number, array) applied; the arrays of one container share a number"""
    if isinstance(o, numpy.ndarray):
        if o.dtype.kind not in "fc":
            return o.copy()
        n[0] += 1
        return f(n[0] - 1, o)
    if isinstance(o, (tuple, list)):
        return type(o)([kinds(x, n, f) for x in o])
    if hasattr(o, "vvvv") or (hasattr(o, "oo") and hasattr(o, "vv")):
        n[0] += 1
        k = n[0] - 1
        return tn.rebuild(o, lambda x: f(k, x) if isinstance(x, numpy.ndarray) else x)
    return o


def subsets(n, deep):
    """all subsets of n arguments if there are few, else those with up to two (three) members or two missing"""
    if n <= (10 if deep else 6):
        return [set(s) for m in range(n + 1) for s in itertools.combinations(range(n), m)]
    sizes = [0, 1, 2, n - 2, n - 1, n] + ([3, n - 3] if deep else [])
    return [set(s) for m in sorted(set(sizes)) for s in itertools.combinations(range(n), m)]


class Explore(object):
    @staticmethod
    def types(ctx, case):
        """arguments of different number types: the value of equal arguments of the widest type, or a refusal"""
        e = rg.BY_NAME[case["f"]]
        wide, v = (complex, 3) if case["low"] == "real" else (float, 0)
        # integer values keep every permutational symmetry of the arguments; integer arguments are whole numbers
        low = (lambda x: x.real.copy()) if case["low"] == "real" else (lambda x: numpy.rint(3*x.real).astype(int))
        args = e.args(v)
        n = [0]
        kinds(args, n, lambda k, x: x)
        refused = 0
        for pick in subsets(n[0], case["deep"]) if n[0] else ():
            ctx.state()
            ctx.step(2)
            ref = rg.canon(e.call(kinds(args, [0], lambda k, x: low(x).astype(wide) if k in pick else x.astype(wide))))
            a = kinds(args, [0], lambda k, x: low(x) if k in pick else x.astype(wide))
            b = rg.canon(a)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = rg.canon(e.call(a))
            except TypeError:                # numpy's casting rule
                refused += 1
                continue
            d = rg.differs(got, ref)
            ctx.check(d is None, "%s with arguments %s %s: %s" % (e.name, sorted(pick), case["low"], d))
            ctx.check(rg.differs(rg.canon(a), b, 0.0) is None, "arguments unchanged", f=e.name, types=sorted(pick))
            ctx.outcome(e.name, sorted(pick), case["low"], [x for _, x in ref])
        ctx.sample(f=e.name, arguments=n[0], refused=refused)

    @staticmethod
    def config(ctx, case):
        cfg = CONFIGS[case["cfg"]]
        got = child(cfg)
        if cfg.get("block") == "pyscf":
            ctx.check(not got["pyscf"], "the backend is unavailable")
        n = 0
        for e in alphabet():
            if cfg.get("first") and e.module != cfg["first"]:
                continue
            for v in e.variants:
                ctx.state()
                ctx.step(2)
                n += 1
                ref = rg.canon(e.call(e.args(v)))
                g = got[e.name, v]
                bad = g if isinstance(g, str) else rg.differs(g, ref)
                ctx.check(not bad, "%s[%d] with %s: %s" % (e.name, v, case["cfg"], bad))
                ctx.outcome(e.name, v, [x for _, x in ref])
        ctx.sample(configuration=case["cfg"], calls=n)

    @staticmethod
    def layout(ctx, case):
        e = rg.BY_NAME[case["f"]]
        for v in e.variants:
            args = e.args(v)
            ref = rg.canon(e.call(e.args(v)))
            n = [0]
            relay(args, (), "F", n)
            count = n[0]
            todo = [(range(count), lay) for lay in LAYOUTS] if count else []
            if v < 4:
                todo += [((k,), lay) for k in range(count) for lay in LAYOUTS]
            if case["pairs"] and v in (0, 3):
                todo += [((k, m), {k: x, m: y}) for k in range(count) for m in range(k) for x in LAYOUTS for y in LAYOUTS]
            for pick, lay in todo:
                ctx.state()
                ctx.step()
                a = relay(args, set(pick), lay, [0])
                d = rg.differs(rg.canon(e.call(a)), ref)
                ctx.check(d is None, "%s[%d], argument arrays %s stored as %s: %s" % (e.name, v, list(pick), lay, d))
                ctx.check(rg.differs(rg.canon(a), rg.canon(args), 0.0) is None, "arguments unchanged", f=e.name, layout=str(lay))
            ctx.outcome(e.name, v, [x for _, x in ref])
