"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

ED = "impurityModel/ed/"
FIN, SPE, PSR = ED + "finite.py", ED + "spectra.py", ED + "product_state_representation.py"
CRE, REM, AVG, MPIC = ED + "create.py", ED + "remove.py", ED + "average.py", ED + "mpi_comm.py"
GS, GSCF = ED + "get_spectra.py", ED + "get_spectra_using_CF.py"
PLR, PLS = "impurityModel/plotScripts/plotRIXS.py", "impurityModel/plotScripts/plotSpectra.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors=a))


prop("C01", "Product-state representations are lossless and interchangeable",
     "For any number of spin-orbitals and any occupation, converting a product state between the tuple, string, integer, bitarray and bytes representations, along any chain of conversions, always yields the same occupation. Each representation denotes exactly the occupied orbitals documented for it (orbital 0 is the leftmost character / most significant bit), two different occupations never share a representation, and no conversion modifies its argument.",
     ["inputs"], "every number of spin-orbitals n>=1 (also not a multiple of 8, above 64, several hundred), every subset of occupied orbitals (also empty and full), every chain of conversions",
     "The tests convert one 7-orbital state (and a few small ones); widths above 64, byte boundaries, the empty and the full state, and long conversion chains are never sampled.",
     [PSR], [("pairwise conversion functions", PSR)], ["return value of each conversion function"])

prop("C02", "Create and remove obey the fermion algebra in every representation",
     "Creating or removing an electron changes exactly that orbital's occupation and multiplies by the sign (-1)^(number of occupied orbitals with lower index); it gives amplitude zero exactly when the orbital is already filled (create) or empty (remove). All five representations agree with each other, and on every state and pair of orbitals the operators satisfy the canonical anticommutation relations.",
     ["inputs"], "every number of spin-orbitals, occupation, orbital index (or pair of indices) and representation",
     "The tests check a handful of states of at most 9 orbitals in some representations; signs across byte boundaries, high indices, and anticommutation of pairs are not tested.",
     [CRE, REM, PSR], [("create/remove per representation", CRE + ", " + REM)],
     ["returned state and amplitude; in-place update of a bitarray"])

prop("C03", "Applying an operator gives the exact second-quantised result",
     "For every operator (a sum of products of creation and annihilation operators of any length and order, with real or complex strengths) and every many-body state, applying the operator returns exactly the image of the state: all contributions with the correct sign, summed, and nothing else. With occupation restrictions, exactly those product states whose occupation of every restricted orbital set lies within its limits are kept, and a product state of the result is otherwise dropped exactly when its weight is below the requested cutoff. Neither the operator, nor the state, nor the restrictions are modified.",
     ["inputs"], "every operator, state, set of restrictions (none, one, several, overlapping, empty sets), weight cutoff, number of spin-orbitals, with and without a result cache",
     "Existing tests apply a few real one- and two-body operators on small states; complex amplitudes, long or unusually ordered processes, cancellations, several overlapping restrictions and many orbitals are not covered.",
     [FIN, CRE, REM, PSR], [("applyOp: four code paths (restrictions x cache)", FIN)],
     ["returned state; arguments after the call"])

prop("C04", "Cached operator action is transparent: results do not depend on history",
     "When an operator's action on product states is remembered between calls, every later result equals what a fresh computation gives, whatever sequence of states was processed before. Every remembered entry equals the operator's action (within the restrictions and weight cutoff in use) on that one product state, entries for product states with zero result are also correct, and entries never change once stored.",
     ["histories", "inputs"], "every sequence of states (overlapping, repeated, superpositions with cancellations) applied with one shared cache, with and without restrictions, and every cache pre-filled by other calls (operator application, basis expansion, Green's functions)",
     "Tests use a cache for one or two calls; order-dependence, aliasing between entries, and pollution by a preceding superposition only show up in multi-step histories.",
     [FIN, SPE], [("opResult in applyOp", FIN), ("h_dict in expand_basis", FIN), ("h, t_big, tOut_big, h_dict_excited in getSpectra/getRIXSmap", SPE)],
     ["returned states and the cache contents after every step"],
     [("opResult / h_dict", "product state -> operator acting on it", FIN)])

prop("C05", "State and operator algebra is exact linear algebra",
     "The inner product is conjugate-linear in its first and linear in its second argument, the norm is its diagonal, and addition/subtraction of states with any scalar factor is exact, with documented in-place or copying behaviour. Adding operators and taking the Hermitian adjoint are exact: the adjoint satisfies <a|O b> = <O^+ a|b> for all states, the adjoint of the adjoint is the original operator, and the Hermiticity guard accepts exactly the operators equal to their adjoint.",
     ["inputs"], "all states and operators with real and complex amplitudes, including empty ones, disjoint ones, repeated processes, zero strengths and cancellations",
     "No test exercises these functions directly; conjugation errors vanish for the real amplitudes used in tests.",
     [FIN], [("inner, norm2, add, addToFirst, a, c, daggerOp, addOps, assert_hermitian", FIN)],
     ["return values; arguments after the call"])

prop("C06", "Orbital labels and indices are in one-to-one correspondence",
     "For every system layout (any angular momenta in any order, any numbers of bath states, bath states shared between angular momenta) each impurity spin-orbital and each bath state has exactly one index, the indices are exactly 0..N-1, and label->index->label and index->label->index are identities. Impurity orbitals come first, ordered by angular momentum as listed, spin and magnetic quantum number; then all bath states in listed order; a label or index outside the system is rejected with an error.",
     ["configurations", "inputs"], "all ordered layouts of angular momenta 0..4 with any numbers of bath states, including zero and shared baths",
     "No test covers shared-bath layouts, empty baths, more than two shells or out-of-range labels.",
     [FIN], [("c2i and i2c", FIN)], ["return values and raised errors"])

prop("C07", "The many-body basis contains exactly the allowed configurations, once each",
     "For every system layout and occupation constraints, the generated basis is exactly the set of product states in which each shell has n0 + dv - dc impurity electrons, valence bath filling reduced by dv and conduction bath filling dc, for all allowed dv, dc with |dv - dc| within the tolerance; each occurs exactly once and all have the same total electron number. All ranks and runs produce the same states in the same order.",
     ["configurations", "inputs"], "all layouts and constraints (numbers of valence/conduction bath states, excitation limits, tolerances, nominal occupations; also valence excitation limits larger than the bath)",
     "No unit test calls the basis generator; the shipped examples use one or two layouts without conduction baths.",
     [FIN], [("get_basis", FIN)], ["returned tuple of product states"])

prop("C08", "Every Hamiltonian matrix construction equals the operator on the basis",
     "For every operator and every list of product states, the Hamiltonian matrix has element (i,j) = <i|H|j> for all pairs, whichever construction (dense or sparse, serial or distributed, from the operator or from stored operator action) and whatever the order of the basis. Distributed pieces add up to the full matrix with no column counted twice or lost, and for a Hermitian operator the matrix is Hermitian.",
     ["inputs", "configurations"], "all operators (Hermitian and not, real and complex), bases (closed or truncated, any order, size 1 and up), construction modes and numbers of processes",
     "No unit test compares the modes with each other or with an independent matrix; only one Hamiltonian is ever built in the tests.",
     [FIN], [("get_hamiltonian_matrix, get_hamiltonian_matrix_from_h_dict, expand_basis_and_hamiltonian", FIN)],
     ["returned matrix and basis index"])

prop("C09", "The active space is exactly the closure under the Hamiltonian",
     "Starting from any set of product states, the expanded basis consists of exactly the starting states plus everything reachable by repeatedly applying the Hamiltonian within the occupation restrictions, each state once, starting states first. The stored operator action is complete for the resulting basis and correct for every entry, whatever was stored before, and the resulting order is reproducible in every run and on every process.",
     ["inputs", "histories"], "all Hamiltonians, starting sets, restrictions, pre-filled stores, serial and distributed modes",
     "No unit test calls the expansion; missing or extra states only change spectra quantitatively.",
     [FIN], [("expand_basis, expand_basis_and_hamiltonian", FIN)], ["returned basis, contents of the operator store"],
     [("h_dict", "product state -> H acting on it", FIN)])

prop("C10", "The solver returns the lowest orthonormal eigenstates",
     "For every Hermitian Hamiltonian and basis, the returned energies are the lowest k eigenvalues in ascending order, counted with degeneracy, and the returned states are orthonormal eigenvectors with those energies, for both diagonalisation methods and whatever the degeneracies. Product states are omitted from a state only if their weight is below the requested cutoff.",
     ["inputs", "configurations"], "all Hermitian operators (real, complex, degenerate, block-diagonal, shifted), bases, numbers of states, both methods, weight cutoffs",
     "Only the excluded long-running reference comparison ever diagonalises anything; degenerate and complex cases never appear in unit tests.",
     [FIN], [("eigensystem", FIN)], ["returned energies and states"])

prop("C11", "The Coulomb operator is the Slater-Condon interaction of the given integrals",
     "The electron-electron operator built from Slater integrals equals the Coulomb interaction expanded in spherical harmonics with those integrals: every matrix element has the value given by the angular integrals, each scattering process counted once. It is Hermitian, rotationally invariant in spin and orbital space, conserves the electron number of every shell, and reproduces the textbook multiplet energies.",
     ["inputs"], "all values of the Slater integrals Fdd, Fpp, Fpd, Gpd (also zero and negative), all angular momenta s..f, all product states",
     "No test inspects any element of the interaction; a wrong sign or missing exchange term only shifts multiplets.",
     [FIN], [("gauntC, getU, getNoSpinUop, getUop, get2p3dSlaterCondonUop", FIN)], ["operator elements; energies on complete shells"])

prop("C12", "One-body operators implement spin-orbit, Zeeman and cubic-harmonic physics",
     "The spin-orbit operator equals xi*L.S (eigenvalues xi*l/2 with degeneracy 2l+2 and -xi*(l+1)/2 with degeneracy 2l), and the field operator equals hx*Sx+hy*Sy+hz*Sz on the given shell, for every strength and direction. The spherical-to-cubic matrices are unitary and their columns are the real cubic harmonics (up to a sign per column) in the order the code relies on, p: y, x, z and d: eg = z2, x2-y2 followed by t2g = yz, xz, xy, with and without spin.",
     ["inputs"], "all strengths (positive, negative, zero), field directions and magnitudes, angular momenta 1..3 (p and d for the cubic matrices)",
     "No test checks any of these operators; sign and direction errors are invisible in the tests.",
     [FIN], [("getSOCop, gethHfieldop, get_spherical_2_cubic_matrix", FIN)], ["operator elements"])

prop("C13", "The assembled Hamiltonian is exactly the sum of the specified terms",
     "For every set of input parameters the Hamiltonian equals Coulomb + spin-orbit + magnetic field - double counting + the non-interacting Hamiltonian described by the input file (crystal-field parameters with documented defaults for missing ones, or a stored operator), expressed in the index numbering of the system. It is Hermitian and accepted as such for all valid inputs, and the choice of bath basis (spherical or cubic) does not change the physics.",
     ["inputs", "configurations"], "all values of the physical parameters and files (any subset of crystal-field parameters given), with and without conduction baths, both bath bases, both input routes",
     "Tests build the operator for one or two parameter files and compare nothing but a few elements.",
     [GS, GSCF, FIN], [("get_hamiltonian_operator, get_hamiltonian_operator_using_CF, get_CF_hamiltonian, read_h0_CF_file, dc_MLFT", GSCF + ", " + GS + ", " + FIN)],
     ["returned operator"])

prop("C14", "Reported static expectation values are those of the eigenstates",
     "For every many-body state, the occupation numbers (total, eg/t2g by spin), Lz, Sz, L^2, S^2 and the density matrices in the spherical and cubic basis equal the corresponding quantum-mechanical expectation values, including complex off-diagonal elements, and ladder operators act exactly. The table printed for the eigenstates contains these values, one row per state in order of energy.",
     ["inputs"], "all states with real and complex amplitudes, eigenstates and superpositions, with p and d shells and any bath sizes",
     "No unit test evaluates any expectation value.",
     [FIN], [("getLz3d, getSz3d, getLsqr3d, getSsqr3d, getTraceDensityMatrix, getDensityMatrix, getDensityMatrixCubic, getEgT2gOccupation, apply*3d, printExpValues", FIN)],
     ["return values and printed table"])

prop("C15", "Thermal averages are Boltzmann averages at the requested temperature",
     "For every set of energies, observables (scalars or arrays of any shape, real or complex) and temperature, the average is sum_i exp(-E_i/kT) O_i / sum_i exp(-E_i/kT): a convex combination, independent of the zero of energy and of the order of the states, finite for arbitrarily low temperature and large energies. Printed thermal values and thermally averaged spectra use the temperature the user requested.",
     ["inputs"], "all energy lists (unsorted, degenerate, shifted by large constants), shapes, temperatures from microkelvin to 1e6 K",
     "No unit test calls it; overflow or a wrong reference energy only shows for particular energies and temperatures.",
     [AVG, FIN, SPE, GS, GSCF], [("thermal_average", AVG), ("printThermalExpValues", FIN), ("simulate_spectra", SPE)],
     ["return value; printed values; thermally averaged datasets"])

prop("C16", "The Green's function equals the exact resolvent element",
     "For every Hermitian Hamiltonian and normalised state, with a sufficiently large Krylov space, the Green's function equals <psi|(omega + i*delta + E - H)^-1|psi> within the restricted space, for every frequency and for positive and negative delta, for all algorithm variants, also when the Krylov space is exhausted early. With a smaller Krylov space of size k the first 2k-1 spectral moments are still exact.",
     ["inputs", "configurations"], "all Hamiltonians, states (single product states, eigenstates, superpositions, the empty state), frequency meshes, broadenings, Krylov sizes, modes, operator stores (empty or pre-filled)",
     "No unit test evaluates a Green's function.",
     [SPE, FIN], [("getGreen", SPE), ("get_tridiagonal_krylov_vectors", FIN)], ["returned array; tridiagonal elements"])

prop("C17", "Spectra equal the exact spectral sum for every transition and eigenstate",
     "For every transition operator and every initial eigenstate the calculated spectrum equals <psi|T^+ (omega + i*delta + E - H)^-1 T|psi> with that state's energy, independently for each operator and state, in the right position of the output; the result does not depend on the other operators or states in the same call, their order, or the parallelisation mode. A transition that is impossible gives exactly zero.",
     ["inputs", "histories"], "all lists of operators and states (one or many, repeated, impossible ones), frequency meshes, signs of delta, restrictions, Krylov sizes and both parallelisation modes",
     "Unit tests never compute a spectrum; the long reference comparison is excluded and covers one input.",
     [SPE], [("getSpectra", SPE)], ["returned array"])

prop("C18", "RIXS maps obey the Kramers-Heisenberg formula for every polarisation pair",
     "For every initial state, incoming and outgoing transition operator, incoming photon energy and energy loss, the RIXS amplitude equals the Kramers-Heisenberg expression with the core-hole broadening in the intermediate and the final-state broadening in the final propagator, within the iterative solver's tolerance, placed at its own position in the output. Results for one combination do not depend on which other combinations are calculated with it, nor on the parallelisation mode.",
     ["inputs", "histories"], "all lists of states, in/out operators and meshes, broadenings, restrictions, all four parallelisation modes",
     "No unit test computes a RIXS map; the one reference comparison sums over all polarisations and is excluded.",
     [SPE, FIN], [("getRIXSmap", SPE)], ["returned array"])

prop("C19", "Transition operators are the stated one-body matrix elements",
     "Dipole operators equal the angular matrix elements of the polarisation vector between the two shells and are linear in it; their adjoints are exact. Scattering operators equal the matrix elements of exp(i q.r) (without the monopole unless requested) for every direction and magnitude of q, with one common normalisation; photoemission and inverse photoemission operators remove or add one electron in each orbital of the shell exactly once, in documented order.",
     ["inputs", "configurations"], "all polarisation vectors (complex, not normalised), all q vectors (also along the axes and negative components), shells, radial functions and meshes, system layouts",
     "No unit test builds any of these operators; wrong phases or directions survive isotropic sums.",
     [SPE, FIN], [("getDipoleOperator(s), getDaggeredDipoleOperators, getNIXSOperator(s), getPhotoEmissionOperators, getInversePhotoEmissionOperators", SPE)],
     ["returned operators"])

prop("C20", "Results are the same for any number of MPI processes and any timing",
     "Eigenenergies, spectra, RIXS maps and written files are the same (to numerical tolerance) for every number of processes, every relative speed of the processes and every hash randomisation seed, and every process obtains the complete result. All processes take part in the same sequence of collective operations, so that no run deadlocks or mixes up messages.",
     ["schedules", "configurations", "inputs"], "1..8 processes (also more processes than tasks), random delays around every communication, different hash seeds per process, all parallelisation modes",
     "All tests run with one process; differing iteration orders between processes only occur with several processes and different hash seeds.",
     [FIN, SPE, MPIC], [("get_job_tasks, get_hamiltonian_matrix, expand_basis (send/recv/bcast), get_tridiagonal_krylov_vectors (Reduce/Bcast)", FIN), ("getSpectra, getRIXSmap", SPE), ("allgather_dict", MPIC)],
     ["per-process results; log of every communication call"])

prop("C21", "Work and stored data are distributed over processes exactly once",
     "For every number of tasks and processes each task is assigned to exactly one process and the loads differ by at most one. The distributed store of the Hamiltonian's action assigns each product state of the active space to exactly one process; exchanging dictionaries between processes delivers every entry of every process to all processes, unchanged, for every chunk size.",
     ["configurations", "schedules", "inputs"], "all numbers of tasks and processes (also fewer tasks than processes, zero tasks), histories of several basis expansions, dictionaries of any (unequal, empty) sizes, chunk sizes and roots",
     "Tests run with one process, where distribution is trivial.",
     [FIN, MPIC], [("get_job_tasks, expand_basis", FIN), ("dict_chunks_from_one_MPI_rank, allgather_dict", MPIC)],
     ["task lists per rank; union and overlaps of per-rank stores"])

prop("C22", "A simulation run writes complete, correct and mutually consistent files",
     "A run of the command-line programs with any valid parameters writes the energies, per-state and thermally averaged PS, XPS, XAS, NIXS and RIXS spectra of exactly the eigenstates within the energy cutoff, computed from exactly the given parameters (temperature, broadenings, occupations, Slater integrals, fields, input files). The text and binary files contain the same numbers as the HDF5 file with documented layout, and the recorded parameters equal the given ones.",
     ["inputs", "configurations"], "all command-line parameters of both programs and the shipped input files",
     "The reference comparison needs a missing file and is excluded from the tests; nothing runs the programs.",
     [GS, GSCF, SPE], [("main and command line", GS + ", " + GSCF), ("simulate_spectra", SPE)],
     ["spectra.h5, *.dat, RIXS.bin, data.npz, standard output"])

prop("C23", "Plots show the numbers in the data files",
     "The plotting programs draw exactly the stored data: spectra summed over the stated index against the stored energy axis, RIXS maps with correct orientation, axis ranges and masking of values below the cutoff, for the default and an explicitly given file. They handle every file content a simulation can produce (missing datasets, any mesh sizes from two points up) and report a missing file as an error.",
     ["inputs"], "all data files with any subset of spectra, mesh sizes and polarisation numbers a simulation can write, with and without file name argument",
     "No test runs the plotting programs.",
     [PLR, PLS], [("main; plot_spectra_in_file", PLR + ", " + PLS)], ["matplotlib draw calls"])

prop("C24", "Physical invariances hold: relabelling, energy zero, rotation, gauge",
     "Results do not depend on arbitrary conventions: adding a constant to the energy zero shifts only the energies, renumbering the orbitals or changing the phase of orbitals or of the initial state leaves energies and spectra unchanged, and the order in which operator terms or basis states are listed is irrelevant. For a rotationally symmetric system rotating field, polarisations and momentum transfer together leaves energies and spectra unchanged, and for cubic symmetry the x, y and z averages coincide.",
     ["inputs", "programs"], "all Hamiltonians, orbital permutations and phases, rotations, starting states",
     "Metamorphic relations between pairs of runs; no test compares two runs.",
     [FIN, SPE, GSCF], [("whole pipeline", FIN + ", " + SPE)], ["energies and spectra of related runs"])

prop("C25", "Electron number and occupation limits are respected throughout a simulation",
     "In every simulation all product states that ever appear in eigenstates, intermediate states, operator stores and active spaces have exactly the electron number implied by the process (N for absorption and scattering, N+1 and N-1 for inverse and direct photoemission) and respect every occupation limit in force. Core-excited states have exactly the implied number of core electrons.",
     ["inputs", "histories"], "all systems, transition operators and restrictions, throughout complete simulations",
     "Invariant of internal states during long runs; tests do not look at intermediate states.",
     [FIN, SPE, GS, GSCF], [("applyOp restrictions, expand_basis, getSpectra, getRIXSmap", FIN + ", " + SPE), ("restrictions built in main", GS + ", " + GSCF)],
     ["states entering and leaving the operator-application and basis-expansion functions"])

prop("C26", "Spectra are finite, causal, non-negative and obey the sum rules",
     "Every calculated spectral function is finite and, up to rounding, non-negative for every input; its integral equals the norm of the excited state, so that photoemission integrates to the occupied and inverse photoemission to the empty states of the shell, and its first moment equals the commutator expectation value. Changing the broadening only convolves the spectrum with a Lorentzian.",
     ["inputs"], "all Hamiltonians, states, transition operators, broadenings and meshes",
     "Global identities of the spectra over whole meshes; no test computes a spectrum.",
     [SPE, FIN], [("getGreen, getSpectra, getRIXSmap", SPE)], ["returned arrays; floating-point exceptions"])

prop("C27", "Calculations are repeatable and have no side effects on their inputs",
     "Calling any calculation twice with the same inputs gives the same results, whatever was calculated before or in between in the same process and whatever the hash randomisation. No calculation modifies the operators, states, bases, restrictions, layouts or meshes passed to it, and returned objects do not share mutable state with each other, with the inputs or with later results.",
     ["histories", "inputs"], "all sequences of library calls with shared and mutated inputs and outputs, and all hash seeds",
     "Every test calls a function once in a fresh process.",
     [FIN, SPE, GS, GSCF], [("all public functions", FIN + ", " + SPE)], ["arguments before/after, results of repeated calls"])
prop("C28", "The report printed by a run describes the eigenstates that were found",
     "For every valid input, a run of the command-line programs prints the size of the problem, the energies and static expectation values of every calculated eigenstate, the thermal expectation values at the requested temperature, and for every eigenstate the requested number of product states with the largest weights (in decreasing order, with their weights) and exactly the density-matrix elements above the requested limit; all of them agree with the eigenstates of the specified Hamiltonian in the specified basis, and the number of eigenstates announced for the spectra is that within the energy cutoff.",
     ["inputs", "configurations"], "all command-line parameters of both programs, including the printing parameters",
     "No test runs the programs; the report is assembled in the main functions, outside any tested function.",
     [GS, GSCF, FIN], [("main", GS + ", " + GSCF), ("printThermalExpValues, printExpValues, getDensityMatrixCubic", FIN)],
     ["standard output"])

prop("C29", "The documented example calculations run as shipped and show the known physics",
     "Every script in scripts/ starts exactly one calculation, with the requested number of bath states and MPI ranks, input files that exist in the repository, and a command line that its program accepts. The shipped one-body Hamiltonians are Hermitian, not spin polarised and have the bath states their names announce; the radial orbitals are normalised. The NiO example with 50 bath states reproduces the reference spectra stored in the repository for every number of MPI ranks. Run as documented, the examples write complete files that agree with the exact solution of the documented model with the documented default parameters, and show the known physics of the cubic monoxides: the high-spin ground multiplets of NiO (3A2g), CoO (4T1g), FeO (5T2g) and MnO (6A1g) with their degeneracies and spin-orbit splitting, separated from the excited multiplets; absorption independent of the direction of the polarisation; L2 and L3 edges about 3/2 xi_2p apart with L3 the stronger one; ten 3d and six 2p spin-orbitals in the photoemission spectra; d-d excitations of a few eV in NIXS and RIXS.",
     ["configurations", "inputs"], "all shipped scripts with their documented arguments, all shipped input files",
     "The only test of an example takes very long, compares with stored numbers that are not in the repository, and is not run; a consistent error in an operator and its inverse, in a default value or in the order of the arguments goes unnoticed.",
     [GS, GSCF, SPE, FIN], [("main", GS + ", " + GSCF), ("scripts/*.sh", "scripts"), ("stored Hamiltonians and radial orbitals", "h0, radialOrbitals")],
     ["started commands", "standard output", "spectra.h5, *.dat, RIXS.bin, data.npz"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
