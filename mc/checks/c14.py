"""C14: spin-orbital two-particle density matrices."""
import sys

from mc import size
from mc.checks import c13

BOUND = {
    "quick": "{L=0, every unit L} x complete degree-4 amplitude grid x reference weight {1, -0.5} on shapes up to 2x3, 3x2, degree 2 on 3x3; dense tensors on 13 shapes x {real,complex} x every subset of zero amplitudes x 4 weights x 5 layouts",
    "thorough": "as quick with degree 3 on 3x3 and dense tensors on 23 shapes"}
ASSUMPTIONS = c13.ASSUMPTIONS
NAMES = [("cdab", False), ("ciab", False), ("bcai", False), ("bjai", False),
         ("abij", True), ("jkai", False), ("kaij", False), ("klij", False)]
ORDER = 2
PREFIX = "ccsd_2rdm_"
cost = c13.cost


def cases(tier):
    for c in c13.grid_cases(tier, 4, 0.008):
        if c["kind"] == "grid" and c["no"]*c["nv"] > 6:
            continue
        yield c
    for k in range(12):
        yield {"kind": "grid", "no": 3, "nv": 3, "deg": 3 if tier == "thorough" else 2, "part": k, "of": 12}


def run(case, ctx):
    c13.run_with(sys.modules[__name__], case, ctx)


size.extend(__name__, [e.name for e in size.rg.ENTRIES if e.name.startswith("ccsd_2rdm")])
