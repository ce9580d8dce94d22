"""Writes DESIGN.md. Run with /opt/venv/bin/python from /verif."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# property: (what is enumerated and why it reaches what tests cannot, oracle, quick cost in s on 8 cores)
TEXT = {
    "C01": ("The strings reachable from all determinants by all moves form the state graph; every transition (i,a) of every state is executed. Tests only see moves from aufbau references.", "ladder operators on bit masks", 10),
    "C02": ("Every reference occupation and electron number of the bound; the list returned is compared as a set with the determinants of that rank, plus uniqueness, conservation and rank order. Tests use one closed-shell size.", "enumeration of all determinants by rank", 9),
    "C03": ("Every bra/ket pair and every unit integral, so that each matrix element is decided as a linear form. Tests use one small random Hamiltonian.", "second-quantized Hamiltonian on bit masks", 17),
    "C04": ("Every index tuple (coinciding indices included) on every unit vector, in permuted and punctured bases.", "operator product followed by projection", 12),
    "C05": ("Complete amplitude grids per order and dense amplitudes with every zero pattern, every open-shell occupation.", "power series of exp(T) on determinants", 16),
    "C06": ("Unit integrals x complete degree-2 grids for all three storage forms, plus dense dtypes, layouts, zero spaces and large spaces.", "vacuum expectation value of H exp(T)", 12),
    "C07": ("Unit Hamiltonians x complete degree-4 grids decide every term of both implementations, including terms that vanish in the Hermitian Hamiltonians and nonzero-singles amplitudes the tests use.", "projection of exp(-T) H exp(T)", 50),
    "C08": ("As C07 for each truncated variant with its own degree.", "projection restricted to the defined terms", 10),
    "C09": ("Unit spin-blocked Hamiltonians x complete grids on unequal alpha/beta shapes; tests use symmetric Fock matrices.", "spin-orbital projection of the embedded problem", 42),
    "C10": ("As C09 for closed shells; Hamiltonian elements have particle-exchange symmetry only.", "spin-orbital projection of the embedded problem", 14),
    "C11": ("Unit Hamiltonians x {0, unit L} x complete degree-3 grids for plain, optimized, intermediate and factorized codes.", "derivative of the Lagrangian", 65),
    "C12": ("As C11 for unrestricted and restricted codes on unequal shapes.", "spin blocks of the derivative", 65),
    "C13": ("{0, unit L} x complete degree-4 grids x reference weights; tests always use weight one.", "operator expectation values", 17),
    "C14": ("As C13 for all two-particle blocks.", "operator expectation values", 48),
    "C15": ("As C13/C14 for unrestricted and restricted codes.", "spin blocks of the expectation values", 45),
    "C16": ("No reference model: identities between returned values, for every combination of implementations and every unit Hamiltonian, at shapes the determinant model cannot hold.", "E + L.R = D.H and exact differencing in each amplitude", 20),
    "C17": ("Every unit element at every spin/space position of all alpha/beta count combinations, each block separately real or complex.", "element-by-element placement from spin labels", 9),
    "C18": ("All independent splits of the four axes with a unique tag per element; every subset of given blocks; every off-by-one extent.", "index classes of each element", 2),
    "C19": ("A lattice of all regimes including both floating-point neighbours of every switch-over candidate; all short and several long regime sequences for the vector forms.", "60-digit decimal arithmetic", 3),
    "C20": ("All size combinations with energies whose sums identify the indices.", "the defining formula per index tuple", 1),
    "C21": ("The random source is an enumerated environment: every unit variate, every generator and size; the rank of the image decides that nothing of the symmetric space is missed.", "stated symmetries and dimension of the symmetric space", 5),
    "C22": ("Every unit quadruple (a complete decision per molecule, as the transform is multilinear), all column counts, all patterns of equal arrays, every slot alone.", "contraction of AO integrals", 50),
    "C23": ("Every quadruple of k indices, conserving or not, every slot separately complex, unit quadruples.", "contraction of Bloch AO integrals, momentum conservation from reciprocal vectors", 35),
    "C24": ("All occupation patterns (not only aufbau), all codes, restricted/unrestricted, molecular/periodic.", "slices of the full spin-orbital tensor", 60),
    "C25": ("State = everything the process remembers. All ordered pairs (triples within families) of calls, with memory overwritten, freed or refilled between; all aliasing patterns of arguments.", "value of the call as first call of a fresh process", 130),
    "C26": ("State = program points of two threads. All one-preemption schedules at source lines (quick), at bytecodes, and two-preemption schedules (thorough).", "value of the call made alone", 150),
    "C27": ("All process configurations, all layouts of each argument alone and together.", "value in the plain configuration", 20),
    "C28": ("Whole calculations: integrals, containers, denominators, amplitude and Lambda iterations, energies, CI conversion, densities. Systems for which the method is exact leave no freedom in the answer, and converged Lambda and amplitudes are related in a way no test tensor is.", "exact diagonalization in first quantization, cross-checked with the determinant model", 60),
    "C29": ("Elementary shears and scalings generate the general linear group of each orbital class, so the enumeration decides covariance for the tensors used; no model needed, so it reaches larger shapes.", "transformation of the value before the change", 40),
    "C30": ("Fragment pairs of all shapes in three orbital orders. Block-diagonal tensors are never used in tests.", "values of the fragments alone", 25),
}

TITLE = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    TITLE[p["id"]] = p


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
    out.append("## 5. Properties\n")
    for pid in sorted(TEXT):
        m = importlib.import_module("mc.checks." + pid.lower())
        what, oracle, cost = TEXT[pid]
        out.append("### %s %s\n" % (pid, TITLE[pid]["title"]))
        out.append("%s\n" % what)
        out.append("* Oracle: %s." % oracle)
        out.append("* Quick bound: %s." % m.BOUND["quick"])
        out.append("* Thorough bound: %s." % m.BOUND["thorough"])
        if m.ASSUMPTIONS:
            out.append("* Assumes: %s." % "; ".join(m.ASSUMPTIONS))
        out.append("* Cost: about %d s on 8 cores (quick).\n" % cost)
    out.append("""## 6. Robustness of the machinery

* Only public names and constructors are used; private helpers may be renamed,
  merged or removed.
* Values are compared with tolerance, order only where a property states it.
* Exact dtype is never demanded, only that no information is lost.
* Every case runs in a fresh fork, so state left behind by one case cannot reach
  another, except where histories are the subject (C25).
* Nothing is written outside evidence/ and temporary directories.
""")
    out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
    out.append("| change | caught by | what it breaks | needs |\n|---|---|---|---|")
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)):
        j = json.load(open(os.path.join(sd, d, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"], j["needs"]))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
