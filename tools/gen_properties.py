#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


CI = "cqcpy/ci_utils.py"
EQ = "cqcpy/cc_equations.py"
EN = "cqcpy/cc_energy.py"
SP = "cqcpy/spin_utils.py"
OV = "cqcpy/ov_blocks.py"
FT = "cqcpy/ft_utils.py"
UT = "cqcpy/utils.py"
TU = "cqcpy/test_utils.py"
IN = "cqcpy/integrals.py"

prop("C01", "Occupation strings obey the fermion and boson ladder algebra",
     "Moving one electron from orbital i to orbital a in any determinant gives exactly the determinant and the sign that the second-quantized operator a†i gives, reports 'no result' exactly when that operator annihilates the determinant, and leaves the original string untouched. Raising and lowering a vibrational mode changes exactly that mode by one quantum, lowering the empty mode reports 'no result', and two strings compare equal exactly when they have the same occupations. The excitation level between two strings is the total occupation difference.",
     ["inputs", "histories"],
     "every determinant with up to 10 orbitals (and structured ones up to 129), every (i,a) pair including i=a, every pair of strings, and every sequence of moves reachable from every determinant; every mode string up to a quantum cap",
     "The suite builds a handful of CIS/CISD bases for one or two sizes and never looks at signs of individual moves, i=a moves, the boson strings or the level function; sign bugs need a specific occupied pattern between i and a.",
     [CI], [("single-electron move with sign", "Dstring.excite"), ("mode ladder", "Pstring.raize/lower"), ("string equality and excitation level", "__eq__, level, diff")],
     "return values of the string operations")

prop("C02", "CI bases list every determinant up to their excitation rank exactly once",
     "Each excitation-list and basis builder returns the reference (when requested) plus every determinant, or every mode string, whose excitation rank from the reference is within the requested truncation, each exactly once, with conserved particle number per spin and with the reference first and ranks in non-decreasing order. This holds for closed-shell, open-shell, empty and full occupations and for arbitrary reference occupations.",
     ["inputs", "configurations"],
     "all orbital counts up to 6 (spin resolved; 8 for rank 4) or 10 (spin orbital), all electron counts, selected ones up to 66, all explicit reference occupations, all truncation levels S, SD, SDT, SDTQ, with and without the ground state; all mode counts up to 8",
     "Tests only use the S and SD spin-resolved bases at one size each; triples, quadruples, spin-orbital and vibrational bases and non-aufbau references are never executed.",
     [CI], [("excitation lists", "s_strings, d_strings, t_strings, q_strings, s_pstrings, d_pstrings"), ("spin-resolved bases", "ucis_basis ... ucisdtq_basis"), ("spin-orbital bases", "gcis_basis ... gcisdtq_basis"), ("vibrational bases", "vcis_basis, vcisd_basis")],
     "returned lists")

prop("C03", "CI matrix elements equal the second-quantized Hamiltonian",
     "For every pair of determinants with the same particle numbers, the matrix element returned, spin-resolved or spin-orbital, equals the element of the constant plus one- and two-body Hamiltonian evaluated by second quantization, including phases, the constant on the diagonal only, and zero for determinants differing by more than two moves. Consequently a Hermitian set of integrals gives a Hermitian matrix, and the spin-resolved and spin-orbital routes agree.",
     ["inputs"],
     "every bra/ket pair of every particle-number sector up to 4 spatial (8 of one spin) or 8 spin orbitals, times every unit one- and two-electron integral, the constant, and dense integral sets, real and complex",
     "Tests compare only lowest eigenvalues of the spin-resolved CIS/CISD matrices for two molecules with equal alpha and beta integrals; eigenvalues hide compensating phase errors, and the spin-orbital route and the constant are untested.",
     [CI], [("spin-orbital Slater-Condon rules", "gci_matrixel"), ("spin-resolved Slater-Condon rules", "ci_matrixel")],
     "returned matrix elements")

prop("C04", "Excitation and Hamiltonian operators act correctly on CI vectors",
     "Applying a one-electron move, a two-electron move (i to a and then j to b; same spin or opposite spin) or the full Hamiltonian to a coefficient vector over a determinant basis gives the vector of the corresponding second-quantized operator projected on that basis, for any basis order, with input vector and basis unchanged. Contributions leaving the basis are dropped and nothing else is.",
     ["inputs", "configurations"],
     "every basis vector of every S, SD, SDT and full basis up to 4 spatial or 6 spin orbitals, every orbital index tuple including coinciding indices, every unit Hamiltonian element, permuted and truncated bases",
     "Tests call only the spin-resolved Hamiltonian action once per size; the move operators and the spin-orbital action are never executed.",
     [CI], [("operators on vectors", "s_on_vec, sa_on_vec, sb_on_vec, d_on_vec, da_on_vec, db_on_vec, sasb_on_vec"), ("Hamiltonian action", "H_on_vec, gH_on_vec")],
     "returned vectors")

prop("C05", "Cluster amplitudes expand to the exponential-ansatz CI coefficients",
     "Converting singles and doubles amplitudes to CI coefficients up to order n returns, aligned with the corresponding basis, exactly the determinant coefficients of exp(T1+T2) acting on the reference truncated at rank n, for spin-resolved and spin-orbital amplitudes, open or closed shell, real or complex. The two routes agree on the same state, lower orders are prefixes of higher orders, and an unsupported order raises an error.",
     ["inputs", "configurations"],
     "all orders 1 to 4, all occupation/virtual counts up to 4 spin-orbital electrons per sector, every multiset of up to four unit amplitudes (lower-set grid), plus dense amplitudes",
     "The conversion is never executed by the suite; missing or double-counted cross terms appear only at orders 3 and 4 with both spins populated.",
     [CI], [("spin-resolved expansion", "makeCfromT"), ("spin-orbital expansion", "gmakeCfromT")],
     "returned coefficient vectors")

prop("C06", "Correlation energies equal the projected energy expression in every spin form",
     "For any amplitudes and integrals, the coupled-cluster energy equals the fully contracted part of H exp(T) on the reference, and the second-order energy equals its own contraction, for spin-orbital, unrestricted and restricted storage, including their singles-only, doubles-only and combined forms. The three storage forms give the same number for the same state, with any size of each orbital space and with real or complex data.",
     ["inputs", "configurations"],
     "all shapes up to 3x3 spin-orbital and all unequal alpha/beta shapes up to 2, every unit integral times every pair of unit amplitudes, plus dense inputs with both dtypes",
     "Tests draw one random tensor at equal alpha and beta sizes and compare implementations with each other, so a common mistake or an error in unequal sizes is invisible.",
     [EN], [("spin-orbital energies", "cc_energy, cc_energy_d, cc_energy_s1, cc_energy_s2, mp2_energy"), ("spin-resolved energies", "ucc_energy, rcc_energy, ump2_energy")],
     "returned energies")

prop("C07", "CCSD amplitude residuals equal projections of exp(-T) H exp(T)",
     "The spin-orbital coupled-cluster singles-and-doubles update functions return, for any Hamiltonian whose integrals are antisymmetric, the singles and doubles projections of the similarity-transformed normal-ordered Hamiltonian on the reference. The term-by-term and the factorized implementations agree with that definition and with each other for every orbital-space size, dtype and memory layout, and the doubles residual is antisymmetric.",
     ["inputs", "configurations"],
     "every unit Hamiltonian element times every point of a unisolvent amplitude grid (all multisets of amplitudes with total cluster degree at most 4) for small shapes; dense inputs on all shapes up to 4x4, both dtypes, contiguous and strided arrays",
     "Tests compare one random draw of one implementation against another at a single shape with Hermitian integrals, so errors common to both, non-Hermitian integrals, complex data and degenerate shapes are out of reach.",
     [EQ], [("term-by-term residual", "ccsd_simple and the S/D term functions"), ("factorized residual", "ccsd_stanton")],
     "returned singles and doubles arrays")

prop("C08", "Truncated CC variants return exactly their defined subset of terms",
     "Coupled-cluster doubles equals the full residual with singles set to zero, in both implementations; the linearized variants equal the part of the residual that is constant or linear in the amplitudes (with and without singles); the ladder and ring variants equal the ladder (particle-particle and hole-hole) and the defined particle-hole contractions alone. Each is exact for every orbital-space size and dtype.",
     ["inputs", "configurations"],
     "every unit Hamiltonian element times every amplitude multiset of degree at most 2 for small shapes; dense inputs on all shapes up to 4x4 and both dtypes",
     "Only the doubles variants are compared with each other at one shape; linearized, ladder and ring variants are checked at most at one random point against the same code base.",
     [EQ], [("doubles-only residuals", "ccd_simple, ccd_stanton"), ("linearized residuals", "lccd_simple, lccsd_simple"), ("ladder and ring", "ccd_ladder_simple, ccd_ring_simple")],
     "returned arrays")

prop("C09", "Unrestricted CCSD residuals equal the spin blocks of the spin-orbital ones",
     "For any alpha and beta Fock blocks, same-spin antisymmetrized and opposite-spin integrals and spin-conserving amplitudes, the unrestricted singles and doubles residuals equal the corresponding spin blocks of the spin-orbital projection of exp(-T) H exp(T). This holds when alpha and beta have different numbers of occupied or virtual orbitals, and relabelling alpha as beta relabels the result.",
     ["inputs", "configurations"],
     "every unit spin-blocked Hamiltonian element times an amplitude grid for small shapes; dense inputs on every (occ,vir) alpha/beta combination from 1 to 2 (3 in the thorough tier), both dtypes",
     "The tests use equal alpha and beta sizes and one random draw compared with the library's own spin-orbital code.",
     [EQ], [("unrestricted factorized residual", "uccsd_stanton")],
     "returned spin blocks")

prop("C10", "Restricted CCSD residuals equal the closed-shell spin-orbital ones",
     "For any spatial Fock matrix and two-electron integrals with particle-exchange symmetry and any closed-shell amplitudes, the restricted residuals equal the alpha singles block and the alpha-beta doubles block of the spin-orbital projection of exp(-T) H exp(T), and the doubles residual keeps the closed-shell pair symmetry. Exact for every occupied and virtual count and dtype.",
     ["inputs", "configurations"],
     "every unit spatial Hamiltonian element times an amplitude grid for small shapes; dense inputs on all shapes up to 3x3 and both dtypes",
     "One random draw at one shape against the library's own unrestricted code, with fully symmetric real integrals.",
     [EQ], [("restricted factorized residual", "rccsd_stanton")],
     "returned arrays")

prop("C11", "Lambda residuals equal the derivative of the CC Lagrangian",
     "The spin-orbital left-hand (Lambda) update functions return the exact derivative of <0|(1+L) exp(-T) H exp(T)|0> with respect to each singles and doubles amplitude, for any antisymmetric integrals and any L and T. The term-by-term, optimized, precomputed-intermediate and factorized implementations all equal it, for doubles-only and singles-and-doubles, at every orbital-space size and dtype, and the doubles part is antisymmetric.",
     ["inputs", "configurations"],
     "every unit Hamiltonian element times every unit left amplitude times an amplitude grid for small shapes; dense inputs on all shapes up to 4x4, both dtypes",
     "Tests compare implementations with each other for one random draw with Hermitian real integrals at one shape; the derivative definition itself is never used as an oracle.",
     [EQ], [("Lambda residuals", "ccd_lambda_simple, ccsd_lambda_simple, ccsd_lambda_opt, ccsd_lambda_opt_int, ccsd_lambda_stanton"), ("reusable intermediates", "lambda_int")],
     "returned arrays")

prop("C12", "Unrestricted and restricted Lambda residuals match the spin-orbital ones",
     "For any spin-conserving Hamiltonian, T and L, the unrestricted Lambda residuals equal the spin blocks of the spin-orbital Lagrangian derivative, and the restricted ones equal the closed-shell blocks. This holds for unequal alpha and beta orbital counts, open shells and complex data.",
     ["inputs", "configurations"],
     "every unit spin-blocked Hamiltonian element times unit left amplitudes times an amplitude grid for small shapes; dense inputs on every alpha/beta shape combination from 1 to 2 and both dtypes",
     "Tests use equal alpha and beta sizes, one random draw and the library's own spin-orbital code as reference.",
     [EQ], [("unrestricted Lambda", "uccsd_lambda_opt"), ("restricted Lambda", "rccsd_lambda_opt")],
     "returned spin blocks")

prop("C13", "CC one-particle density matrices equal their operator expectation values",
     "Each block of the spin-orbital coupled-cluster one-particle density matrix equals <0|(1+L) exp(-T) p†q exp(T)|0> for that block with the reference contribution removed, for any T and L. Plain and optimized implementations agree for every shape and dtype, and the optional reference scale factor multiplies exactly the L-independent part.",
     ["inputs", "configurations"],
     "every unit or zero L times every amplitude multiset in a unisolvent grid for small shapes; dense inputs on all shapes up to 4x4, both dtypes, several scale factors",
     "Tests compare plain with optimized code at one random draw and default scale factor.",
     [EQ], [("one-particle density blocks", "ccsd_1rdm_ba, ccsd_1rdm_ji, ccsd_1rdm_ai and _opt variants")],
     "returned density blocks")

prop("C14", "CC two-particle density matrices equal their operator expectation values",
     "Each of the spin-orbital coupled-cluster two-particle density blocks equals <0|(1+L) exp(-T) {p†q†sr} exp(T)|0> for that block with normal-ordered operators, for any T and L, has the antisymmetry of its index pairs, and the plain and optimized implementations agree. The optional reference scale factor multiplies exactly the L-independent part.",
     ["inputs", "configurations"],
     "every unit or zero L times every amplitude multiset in a unisolvent grid for small shapes; dense inputs on all shapes up to 4x4, both dtypes, several scale factors",
     "Tests compare plain with optimized code at one random draw at one shape; neither is compared with the definition for general T and L.",
     [EQ], [("two-particle density blocks", "ccsd_2rdm_cdab ... ccsd_2rdm_klij and _opt variants")],
     "returned density blocks")

prop("C15", "Unrestricted and restricted density matrices match the spin-orbital blocks",
     "Every spin block of the unrestricted one- and two-particle density matrices equals the same spin block of the spin-orbital density of the embedded amplitudes, and every restricted block equals the closed-shell block, for all orbital counts including unequal alpha and beta spaces and complex data.",
     ["inputs", "configurations"],
     "every unit or zero L block times unit amplitude multisets for small spin-resolved shapes; dense inputs on every alpha/beta shape combination from 1 to 2 and both dtypes",
     "Tests use equal alpha/beta sizes and one random draw each; several mixed-spin blocks are only compared through one shape where transposition errors cannot be seen in sizes.",
     [EQ], [("unrestricted densities", "uccsd_1rdm_*, uccsd_2rdm_*"), ("restricted densities", "rccsd_1rdm_*, rccsd_2rdm_*")],
     "returned tuples of spin blocks")

prop("C16", "Energy, residual, Lambda and density functions describe one Lagrangian",
     "For any Hamiltonian, T and L, the energy plus L contracted with the amplitude residuals equals the density matrices contracted with the Hamiltonian, and the change of that number when one amplitude is changed is what the Lambda residual predicts. This holds across every combination of implementations offered for the same quantity, spin-orbital, unrestricted and restricted.",
     ["inputs", "configurations"],
     "every unit Hamiltonian element (each single density element), with a grid of T and L points, over all implementation combinations and shapes up to 4x4 or alpha/beta shapes up to 3; derivative identity by exact polynomial differencing for every amplitude",
     "No test relates the energy, residual, Lambda and density routines to one another for general amplitudes; each is tested against its own sibling only.",
     [EQ, EN], [("Lagrangian identity", "energy + L*residual vs density*H"), ("stationarity", "Lambda residual vs amplitude derivative")],
     "returned numbers and arrays of the public functions")

prop("C17", "Spin-block and spin-orbital storage convert losslessly with correct signs",
     "Converting Fock matrices, amplitudes, denominators and integrals between spin-blocked and spin-orbital storage places every element at the right alpha/beta position with the antisymmetrized sign, fills spin-forbidden positions with zero, and converting back returns the original blocks. This holds for any, possibly unequal or zero, orbital counts and for real and complex data.",
     ["inputs", "configurations"],
     "all (occ,vir) alpha/beta counts from 0 to 2 (3 in thorough), every unit element of every block, dense data, both dtypes",
     "Existing tests use one or two shapes, real data, and one round-trip test is vacuous (takes the norm of a boolean).",
     [SP], [("Fock", "F_to_spin, F_to_spatial"), ("amplitudes", "T1_to_spin, T1_to_spatial, T2_to_spin, T2_to_spatial, D2_to_spin"), ("integrals", "int_to_spin, int_to_spin2, int_to_spatial, int_to_spin_block")],
     "returned arrays and block containers")

prop("C18", "Occupied/virtual block containers partition the full tensors exactly",
     "Splitting a one- or two-electron tensor into occupied/virtual blocks returns, for each named block, exactly the elements whose index classes spell that name, in order; together the full set of blocks covers every element once, and containers built from given blocks return those blocks under their own names and nothing for those not given. Holds for a different occupied/virtual split on each index, and extents that do not add up to the size of the tensor are refused.",
     ["inputs", "configurations"],
     "every combination of occupied and virtual counts 0..2 on each of the four indices with every element tagged uniquely",
     "Tests never check block contents; all uses have equal splits, so a swapped index range between equal-size axes is invisible.",
     [OV], [("one-electron blocks", "one_e_blocks"), ("two-electron blocks", "two_e_blocks, two_e_blocks_full"), ("splitting", "make_two_e_blocks, make_two_e_blocks_full")],
     "block attributes")

prop("C19", "Finite-temperature occupations and grand potentials are accurate everywhere",
     "Fermi occupations and their complements are accurate to floating-point precision for every temperature, energy and chemical potential, lie in [0,1], are monotone in energy and occupied plus virtual factors sum to one (both to floating-point precision), also across internal switch-over points and without overflow. The non-interacting grand potential and its temperature derivatives satisfy their closed forms to floating-point precision of the energy scale, and the chemical-potential derivative is minus the particle number.",
     ["inputs"],
     "a complete lattice of (beta, energy, mu) exponents including both sides of every switch-over, extreme and degenerate values, all orderings of energy vectors up to length 4, against 60-digit decimal arithmetic",
     "Tests check a few smooth points by finite differences; switch-over points, extreme arguments, and vectors mixing the regimes are not reached.",
     [FT], [("occupations", "fermi_function, vfermi_function, ff, ffv"), ("grand potentials", "grand_potential0, dgrand_potential0, GP0, uGP0, dGP0"), ("statistical operator", "HtoK")],
     "returned numbers and vectors")

prop("C20", "Denominators and block-diagonal assembly index every element correctly",
     "Each element of the one- and two-particle energy-denominator arrays equals the occupied-minus-virtual (or defined) combination of exactly the energies its own indices name, for spin-orbital and mixed-spin forms with unequal space sizes, and block-diagonal assembly places both matrices without overlap and zeros elsewhere.",
     ["inputs"],
     "all space sizes 0..3 per spin, energies chosen so every index combination has a unique value, unit energies, rectangular blocks",
     "Denominator helpers are used only at equal sizes, so exchanged axes cannot be detected.",
     [UT], [("denominators", "D1, D2, D2u"), ("block diagonal", "block_diag")],
     "returned arrays")

prop("C21", "Random model generators produce tensors with their stated symmetries",
     "Whatever the random draws are, generated Fock matrices, integrals, amplitudes, left amplitudes and denominators have their stated shape and permutational symmetry: Hermitian or symmetric where a physical Hamiltonian requires it, antisymmetric within index pairs, and mutually consistent blocks of one underlying Hamiltonian. The generated tensor is a linear image of the draws and, over all draws, spans the whole symmetric space.",
     ["inputs"],
     "the random source is replaced by an enumerator: every unit draw (one variate 1, others 0) for every generator and all sizes up to 3 and selected larger ones, plus all-ones and ramp draws",
     "Tests check symmetry for a few generators at one size and one seed; a generator that loses a component or breaks symmetry only in cross blocks passes.",
     [TU], [("generators", "make_random_F, make_random_I_anti, make_random_Ifull, make_random_T, make_random_L, make_random_ft_* ...")],
     "returned tensors under a controlled random source")

prop("C22", "Molecular integral transforms equal the defined contraction of AO integrals",
     "For any molecule and any four (or eight alpha/beta) sets of real orbital coefficients, of any and different column counts, the returned repulsion integrals equal the AO integrals contracted with those coefficients in the requested chemist or physicist index order, antisymmetrized exactly when requested, with correct zero and exchange blocks in spin-orbital form.",
     ["inputs", "configurations"],
     "every quadruple of unit AO coefficient vectors for tiny molecules, all column-count combinations 0..3 per slot, both orders, both antisymmetrization settings, all spin combinations",
     "Tests compare two library routes for one column per slot and one open-shell atom or molecule; wrong slot usage with equal orbitals is invisible.",
     [IN], [("restricted", "get_chem, get_chem_anti, get_phys, get_phys_anti"), ("unrestricted", "get_chemu, get_chem_antiu, get_phys_antiu, get_chemu_all, get_physu_all, get_phys_antiu_all, get_phys_gen, get_physu_all_gen")],
     "returned arrays")

prop("C23", "Periodic integrals conserve crystal momentum and index their k-points correctly",
     "For periodic systems at any k-point or k-point quadruple, integrals equal the density-fitted AO integrals contracted with the given coefficients with bra indices conjugated, in the requested order and antisymmetrization, are exactly zero when crystal momentum is not conserved, and the assembled k-point Hamiltonian has the Hermitian and particle-exchange symmetries of the physical one. Restricted and unrestricted routes agree.",
     ["inputs", "configurations"],
     "every k-point quadruple of meshes with 1 to 4 points, including a two-dimensional and a shifted one (conserving or not), every unit coefficient quadruple for a tiny cell, complex coefficients, both orders and antisymmetrization settings",
     "Tests cover one conserving quadruple of a two-point mesh and the SCF energy, which cannot see phases, exchange order at three or more k-points, or non-conserving quadruples.",
     [IN], [("single k-point", "get_chem_sol, get_phys_sol, get_chemu_sol, get_chemu_all_sol, get_physu_all_sol"), ("k-point", "get_chem_solk, get_phys_solk, get_solk_integrals")],
     "returned arrays")

prop("C24", "Integral block containers from a mean field hold the right blocks",
     "The block container built from a mean-field object stores, for each requested selection code, exactly the requested antisymmetrized spin-orbital occupied/virtual blocks, equal to slices of the full spin-orbital integral tensor with occupied and virtual orbitals chosen by the occupations in any order, restricted or unrestricted, molecular or periodic, and flags which blocks are present.",
     ["inputs", "configurations"],
     "every selection code, every occupation pattern (including non-aufbau, fractional and singly filled) of tiny molecules and cells (for cells with non-empty occupied and virtual spaces, which the periodic backend requires), restricted and unrestricted references",
     "Tests never build the container with a selection code or with non-aufbau or unequal alpha/beta occupations.",
     [IN], [("block container", "eri_blocks")],
     "block attributes and presence flags")

prop("C25", "Results depend only on arguments: no hidden state, no input mutation",
     "Every public function returns a value determined only by its current arguments: calling any functions beforehand in any order, overwriting in place arrays, lists or strings passed to or returned by earlier calls, refilling and passing the same arrays again, or repeating the call, does not change it, and neither does passing one object, or views of one array, for several arguments instead of equal copies. No call modifies anything passed to it, and no call changes a result returned earlier. Random generators depend only on the random source.",
     ["histories"],
     "all ordered pairs of calls over the full public function alphabet (more than 180 calls with four argument sets each) as histories f, g, f, with caller mutation of earlier arguments and results between them; for each function all ordered pairs of argument sets in five styles of keeping, overwriting, freeing and refilling; all triples within the smaller families; all ways of passing one object for several arguments of the same kind; reference values from fresh processes",
     "Each test makes isolated calls with fresh arrays, so caches, module-level buffers, aliasing between results and inputs and in-place accumulation into inputs go unseen.",
     [EQ, EN, CI, SP, OV, FT, UT, TU, IN], [("in-place accumulation on copies", "residual, Lambda and density functions"), ("views and copies", "block containers")],
     "returned values and argument contents before and after")

prop("C26", "Concurrent calls from several threads do not interfere",
     "Two threads evaluating public functions that use no random source at the same time, on their own or on shared arguments, each obtain exactly the value they would obtain alone, whatever the interleaving of their execution.",
     ["schedules"],
     "two threads; every function against itself with other values, other shapes, other dtype and shared arguments, and every ordered pair of functions of one family; every schedule with one preemption at source-line, call and return granularity (bytecode granularity and two preemptions in the thorough tier)",
     "No test uses threads; a shared scratch buffer or lazily built global only fails for particular interleavings.",
     [EQ, EN, CI, SP, OV, FT, UT], [("reentrancy", "all public functions")],
     "values returned in each thread")

prop("C27", "Results do not depend on backend, process configuration or array storage",
     "With the optional quantum-chemistry backend missing, every function that does not need it imports and returns the same values as with it; each module can be imported first and alone; switching assertions off or changing thread counts or hash seed changes no value; and for every function the memory layout (row-major, column-major, strided, reversed, permuted, window of a larger array, read-only) of the arrays passed in never changes the result. Arguments of different number types (integer, real, complex) give the value that equal arguments of the widest type give, or are refused with an error.",
     ["configurations", "inputs"],
     "every public function of the non-integral modules under 23 process configurations and six storage layouts of each array argument separately and all together, over four small argument sets and one large enough for the backend's own contraction path; every choice of real against complex and integer against real arguments",
     "The suite runs with the backend installed and only row-major contiguous arrays.",
     [EQ, EN, CI, SP, OV, FT, UT, TU], [("contraction backend selection", "module import of einsum"), ("array handling", "all public functions")],
     "returned values")

prop("C28", "Solving the equations gives exact results for separate electron pairs",
     "For a system made of independent parts with at most two electrons each, coupled cluster with singles and doubles is exact. Solving the amplitude equations in any of the three storage forms with any implementation therefore gives the exact energy, amplitudes whose CI coefficients are the exact state (an eigenvector of the CI Hamiltonian with that energy), and, with the solved Lambda equations in any implementation, the exact one-particle density; for every choice of orbitals with a gap, including non-canonical, complex and spin-dependent ones.",
     ["inputs", "configurations"],
     "all site models of the bound with one to three parts of one to eight sites holding 0, 1 or 2 electrons of equal or opposite spin, in five orbital sets, and four two-electron molecules through the integral routines; every combination of amplitude and Lambda implementation",
     "Tests compare single functions with each other on random tensors; none carries a calculation from integrals to a converged energy and density or compares it with an exact result.",
     [EQ, EN, CI, SP, OV, UT, IN], [("amplitude and Lambda iteration", "ccsd_*, uccsd_*, rccsd_* and D1, D2, D2u"), ("CI conversion and Hamiltonian", "gmakeCfromT, makeCfromT, gH_on_vec, H_on_vec"), ("storage conversion", "F_to_spin, int_to_spin2, make_two_e_blocks")],
     "converged energies, CI coefficients and densities")

prop("C29", "Results transform with the orbitals",
     "Replacing the occupied or the virtual orbitals of one spin by any other set spanning the same space, orthonormal or not, and transforming all input tensors accordingly, transforms every residual, Lambda residual, density and converted tensor accordingly and leaves every energy unchanged.",
     ["inputs"],
     "every function of the coupled-cluster, energy and spin-storage modules; every shear and scaling of one orbital (these generate all changes of orbitals) for every class of orbitals, on all shapes of the bound, with real and complex tensors without Hermiticity",
     "Tests evaluate one set of random tensors per function and never relate two representations of the same problem.",
     [EQ, EN, SP], [("index contractions", "all residual, Lambda, density and energy functions"), ("storage conversion", "spin_utils")],
     "returned values before and after a change of orbitals")

prop("C30", "Separate systems do not influence each other",
     "If all input tensors are block diagonal over two fragments, every energy is the sum of the energies of the fragments, every residual, Lambda residual and density restricted to one fragment equals the value computed for that fragment alone, and residuals and one-particle densities have no elements between the fragments; whichever way the orbitals of the fragments are ordered.",
     ["inputs"],
     "every residual, Lambda, density and energy function; all pairs of fragment shapes of the bound, three orders of the orbitals, real and complex fragments in all combinations",
     "Tests only see dense random tensors of one system.",
     [EQ, EN], [("connectedness of the equations", "all residual, Lambda, density and energy functions")],
     "returned values for the fragments and for the combined system")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
