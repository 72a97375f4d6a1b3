"""Per property: how cases are made, required monitor events, and what the level means."""

COMMON = ["The reference model (vm/fock.py: Fock space on integer bit masks) and numpy/scipy/OpenMPI are trusted.",
          "Held on the executions counted here; nothing is claimed about inputs that were not generated."]


def m(rule, events=(), technique="", note="", assumptions=()):
    return dict(rule=rule, events=tuple(events), technique=technique, note=note, assumptions=list(assumptions) + COMMON)


META = {}
META["C01"] = m("Exhaustive over all occupations of small systems and random occupations (empty, full, sparse, dense, byte/word edges; n up to 700, sizes biased to constants found in the source); all 20 conversions plus random chains. Non-trivial: distinct (n, occupation).",
                ["conversions", "chain_steps"], "runtime monitoring: oracle on every conversion call against independent encodings")
META["C02"] = m("Exhaustive for small systems, random for up to 420 orbitals; every representation compared with an independent bit-mask fermion model; anticommutators and in-place chains evaluated on the real functions. Non-trivial: distinct (n, occupation, orbitals).",
                ["operator_actions", "anticommutators", "chain_steps"], "runtime monitoring: reference-model monitor on create/remove calls")
META["C03"] = m("Random operators (any length/order, real/complex, cancellations), states, restrictions (none to five, overlapping, empty), cutoffs, up to 420 orbitals and 3500 product states, with and without cache. Non-trivial: distinct (operator, state, restrictions).",
                ["applyOp_calls", "result_product_states", "dropped_by_restriction", "dropped_by_weight", "large_states"], "runtime monitoring: reference-model monitor on operator application")
META["C04"] = m("Random histories of states (single, superpositions, repeats, results fed back, cancellations) through one shared cache with row-by-row snapshot monitor; shared stores filled by application, expansion and Green's functions; online monitor on every cached call inside complete spectra and RIXS calculations. Non-trivial: distinct (operator, pool, restrictions, length).",
                ["cached_calls", "rows_checked", "rows_rechecked", "zero_rows_checked", "shared_store_steps", "rixs_store_rows"],
                "runtime monitoring: history monitor with reference model on cache contents")
META["C05"] = m("Random real/complex/integer/empty/cancelling states up to 300 orbitals and operators (products of any length, index or label form); sesqui-linearity, adjoint relations, in-place semantics and the Hermiticity guard with one-term perturbations. Non-trivial: distinct (states, scalars) or operators.",
                ["state_operations", "operator_operations", "adjoint_matrix_elements", "guard_accepted", "guard_rejected", "ladder_actions", "scales"], "runtime monitoring: reference-model and algebraic-law monitor on every call")
META["C06"] = m("All layouts with one or two shells (l<=3, up to 3 baths, both orders, shared baths) and random layouts of up to 4 shells with up to 330 bath states; every label and index of each layout plus labels/indices outside it. Non-trivial: distinct layouts.",
                ["labels_checked", "rejections_observed"], "runtime monitoring: bijection monitor over complete layouts")
META["C07"] = m("Random layouts and constraints (up to 3 shells, valence and conduction bath, limits beyond the bath size) and the layouts of the programs, bases of up to 110000 configurations; own enumeration as oracle; order compared between processes with different hash seeds. Non-trivial: distinct argument sets.",
                ["configurations_checked", "multi_configuration_bases", "runs_compared", "rejections_observed"], "runtime monitoring: set-equality monitor against independent enumeration")
META["C08"] = m("Random Hermitian and general operators on random (closed, not closed, shuffled) bases with up to 100 orbitals and 1300 states, and sparse bases of up to 75000 states; all matrix constructions from operators and from stored action, random partitions of stores, and real MPI runs with 2-5 processes. Non-trivial: distinct (operator, basis).",
                ["matrices_compared", "hermitian_matrices", "distributed_pieces", "mpi_matrices_compared", "mpi_jobs", "collective_sequences_compared", "large_bases", "huge_matrix_elements"], "runtime monitoring: matrix-element oracle, real MPI runs with event logs")
META["C09"] = m("Random operators (Hermitian, one-way, not number conserving), starts, restrictions and partially pre-filled stores; serial and distributed expansion in one process, in real MPI runs with 2-5 processes with random store partitions, and in processes with other hash seeds; spaces of up to 4000 product states; repeated expansions with one store. Non-trivial: distinct (operator, start, restrictions).",
                ["active_spaces_checked", "expanded_spaces", "store_entries_checked", "orders_compared", "hash_seeds_compared", "mpi_jobs", "collective_sequences_compared", "large_spaces"], "runtime monitoring: closure oracle, store monitor, real MPI runs with event logs")
META["C10"] = m("Random Hamiltonians (generic, with spin/flavour degeneracies, diagonal, constant, nearly degenerate, large energy offsets; real/complex) on complete, shuffled and truncated bases with up to 720 states, Hamiltonians with few distinct eigenvalues, independent electrons in thousands of states (analytic energies), atomic d shells with Coulomb, spin-orbit, field and crystal field, both solvers, k from 1 beyond the dimension, several weight cutoffs; real MPI runs. Oracle: dense diagonalisation of an independent matrix, orthonormality and residuals of the returned states. Non-trivial: distinct (operator, basis, k, solver).",
                ["eigenstates_checked", "degenerate_cases", "multiplet_cut_at_k", "solver_full", "solver_Lanczos", "atomic_cases", "mpi_solutions", "mpi_jobs", "large_bases", "few_distinct_eigenvalues"], "runtime monitoring: spectral oracle on every solver call, real MPI runs")
META["C11"] = m("Gaunt coefficients by quadrature over the sphere, Coulomb elements of arbitrary shells (l<=4), shell operators, and the 2p-3d Slater-Condon operator for random integrals (zeros, integers, negative, odd k), compared in normal-ordered (unique) form; commutators with L and S of the operator of the code in the complete two-electron space; textbook d2/p2 multiplets and average energies. Non-trivial: distinct integrals/shells.",
                ["gaunt_coefficients", "coulomb_elements", "shell_operators", "slater_condon_operators", "symmetry_commutators", "multiplets_checked"], "runtime monitoring: angular-integral oracle and conservation/symmetry monitor on constructed operators")
META["C12"] = m("Random strengths and directions (zero, tiny, huge, negative, integer) for l=0..4; operators compared with independent angular-momentum matrices and their eigenvalues; transformation matrices evaluated as functions at random points on the sphere. Non-trivial: distinct (shell, strengths).",
                ["spin_orbit_operators", "field_operators", "summed_operators", "harmonics_checked"], "runtime monitoring: angular-momentum oracle on constructed operators")
META["C13"] = m("Random parameters (zeros, integers, list/tuple), random subsets of crystal-field keys in the json file, both bath bases, with and without conduction states, both shell orders; shipped and random stored operators with p and d baths; compared term by term in normal-ordered form with an independent assembly; impurity resolvents between bath bases; non-Hermitian stored operators. Non-trivial: distinct parameter sets.",
                ["hamiltonians_compared", "hamiltonian_terms", "bath_bases_compared", "stored_operators", "non_hermitian_rejected", "double_countings", "hamiltonians_in_sequence"], "runtime monitoring: independent assembly oracle on both assembly routes")
META["C14"] = m("Random normalised states (multiplet superpositions, weak admixtures, coherent one-electron superpositions with complex off-diagonal density, mixed particle numbers, empty/full shells) in random layouts (s, p, d, f shells) with up to 300 orbitals; all expectation values, density matrices, ladder operators and the printed table. Non-trivial: distinct states.",
                ["states_evaluated", "complex_offdiagonal_density", "spin_offdiagonal_density", "p_shells", "s_and_f_shells", "ladder_actions", "printed_values"], "runtime monitoring: expectation-value oracle on return values and captured output")
META["C15"] = m("Random energies (unsorted, degenerate, shifted up to 1e5 eV, integers), observables of any shape/kind, T from 1e-6 to 1e6 K with floating-point errors trapped; permutations and energy shifts; printed values parsed from captured output; thermal datasets of complete simulations; averages in the reports of complete program runs. Non-trivial: distinct inputs.",
                ["averages_compared", "energy_shifts", "low_temperatures", "mixed_ensembles", "printed_thermal_values", "states_above_cutoff", "thermal_datasets", "mixed_datasets", "rejections_observed", "runs_at_given_temperature"], "runtime monitoring: Boltzmann-sum oracle on return values, captured output and written datasets")
META["C16"] = m("Random Hermitian Hamiltonians (dense, chains, decoupled orbitals, few active orbitals among up to 300, energy offsets), states (product states, eigenstates, superpositions, empty), restrictions, meshes on and off the poles, both signs of delta, all modes, Krylov sizes from 1 beyond the dimension, empty/pre-filled stores; spaces of up to 1300 product states; atomic shells with the default Krylov size; energies in other units; real MPI runs. Oracle: spectral decomposition of an independent matrix; tolerance from the accuracy of a Krylov space of the same size. Non-trivial: distinct (operator, state, parameters).",
                ["greens_functions", "mode_sparse_serial", "mode_sparse_H_build", "mode_dense_serial", "mode_dense_H_build", "mode_dict_serial", "negative_delta", "exhausted_krylov_spaces", "restrictions_active", "truncated_krylov_spaces", "moments_checked", "empty_states", "atomic_greens_functions", "mpi_greens_functions", "mpi_jobs", "large_greens_functions", "units"], "runtime monitoring: resolvent oracle on every Green's function, real MPI runs")
META["C17"] = m("Random core-valence systems with restrictions, lists of dipole-like, scattering, addition, removal, diagonal and impossible transition operators, one to five eigenstates or superpositions (also repeated), both signs of delta, both parallelisation modes, several cutoffs; recombination of operators and states; spaces of several hundred product states; dozens of operators or states and thousands of energies in one call; exactly solvable levels; real MPI runs with 2-5 processes. Non-trivial: distinct (system, operators, states, parameters).",
                ["spectra_compared", "impossible_transitions", "restricted_transitions", "several_states", "several_operators", "mode_H_build", "mode_eigen_states", "negative_delta", "independent_results", "exact_levels", "mpi_spectra", "mpi_jobs", "large_spectra", "many_operators", "many_states", "many_energies"], "runtime monitoring: spectral-sum oracle and independence monitor, real MPI runs")
META["C18"] = m("Random core-valence systems with restrictions, lists of incoming and outgoing operators (including impossible ones), one to three states, all four parallelisation modes, several cutoffs; half of the cases with the iterative solver replaced by a direct one (tight comparison), the others with the real solver (non-convergence counts unless the standard solver fails as well); recombination of states/operators/energies with a shared store; spaces of several hundred product states; dozens of states, operators or incoming energies and thousands of losses in one call; exactly solvable levels; real MPI runs with 2-5 processes. Non-trivial: distinct (system, operators, states, parameters).",
                ["maps_compared", "impossible_transitions", "exact_solver_cases", "several_outgoing", "several_incoming", "several_states", "mode_serial", "mode_H_build", "mode_wIn", "mode_H_build_wIn", "independent_results", "shared_stores", "exact_levels", "mpi_maps", "mpi_jobs", "large_maps", "many_states", "many_wIn", "many_wLoss", "many_incoming", "many_outgoing"], "runtime monitoring: Kramers-Heisenberg oracle and independence monitor, real MPI runs")
META["C19"] = m("Random polarisation vectors (axes, negative, complex, not normalised, list/tuple/array), shell pairs in both orders, layouts with baths; momentum transfers along and off the axes, zero to large, uniform and logarithmic meshes, different radial functions, with any lowest multipole; matrix elements also by direct quadrature of exp(iq.r); all (inverse) photoemission operators. Non-trivial: distinct (layout, vectors, radial functions).",
                ["dipole_operators", "complex_polarisations", "scattering_operators", "with_monopole", "adjoint_relations", "direct_integrals", "photoemission_operators"], "runtime monitoring: angular-integral oracle and algebraic-law monitor on constructed operators")
META["C20"] = m("Real MPI runs with 1-8 processes (own hash seed per process, random delays around every communication, logs of all calls): eigenstates followed by spectra and maps with every rank's own (also degenerate) eigenstates, the same library tasks with two numbers of processes, complete simulations against serial runs and the exact spectra, and the command-line programs. Oracle: exact spectra of complete multiplets, equality of ranks and of files, equal collective sequences, no deadlock. Non-trivial: distinct (tasks, number of processes).",
                ["spectra_compared", "maps_compared", "degenerate_multiplets", "library_results_compared", "exact_values", "datasets_compared", "files_compared", "program_runs_compared", "mpi_jobs", "collective_sequences_compared"], "runtime monitoring: real MPI runs with event logs, injected delays and different hash seeds; schedule-independence oracle")
META["C21"] = m("All numbers of tasks below 130 for up to 40 processes, random task lists of several kinds for up to 700 processes; in real MPI runs with 1-8 processes: dictionaries of unequal sizes (also empty), all kinds of chunk sizes and roots, and histories of expansions, matrix constructions and Green's functions that share one distributed store, with a snapshot of every process's store after each step. Oracle: exact multiset equality, disjointness, completeness and correctness of stored rows. Non-trivial: distinct task lists, dictionaries or histories.",
                ["assignments_checked", "fewer_tasks_than_processes", "no_tasks", "exchanged_dictionaries", "chunk_sequences", "local_exchanges", "history_steps", "distributed_steps", "store_entries_checked", "mpi_jobs", "collective_sequences_compared"], "runtime monitoring: exactly-once and conservation monitor over per-process task lists and store snapshots in real MPI runs")
META["C22"] = m("Complete runs of both command-line programs with random options (any subset given, others default; layouts with and without bath, occupations, limits, Slater integrals, fields, temperatures, energy cuts, broadenings), own crystal-field and stored input files and shipped or own radial files (many more up to the spectra only); and of simulate_spectra on random 2p-3d systems with random meshes and polarisations (short and long lists). Oracle: independently assembled Hamiltonian, own basis, dense diagonalisation and exact spectra on parts of the meshes, Boltzmann averages, text/binary files against the HDF5 file, recorded parameters. Non-trivial: distinct parameter sets.",
                ["program_runs", "program_CF", "program_stored", "simulations", "exact_values", "thermal_datasets", "text_files", "binary_files", "recorded_parameters", "several_states", "started_runs", "long_lists"], "runtime monitoring: end-to-end oracle on the files of real runs")
META["C23"] = m("Random data files (all subsets of datasets, mesh sizes from two to thousands of points, 1-9 in- and outgoing polarisations, up to 30 momentum transfers, intensities around the cut-off, empty maps, default and explicit file names beside a decoy, missing files) and files of real simulations. Oracle: every curve and every pixel on the figures at the time of show() against the stored numbers, axis positions, masking, labels; nothing else may be drawn. Non-trivial: distinct file contents.",
                ["plots", "curves_compared", "energy_loss_curves", "maps_compared", "polarisation_maps", "pixels", "masked_pixels", "maps_without_intensity", "momentum_labels", "default_name", "explicit_name", "missing_datasets", "missing_files", "simulation_files", "large_w", "large_map", "large_polarisations", "large_momenta"], "runtime monitoring: inspection of the drawn figures at every show()")
META["C24"] = m("Random core-valence systems calculated twice, under changed orbital numbers, orbital phases, phases of the initial state, energy zero, order of terms and basis states, additional unused orbitals (spectra, RIXS maps, energies, expectation values, active spaces); transition, field and spin-orbit operators under rotations and for special directions; 2p-3d ions under rotations of field, polarisations and momentum transfers together; cubic ions and clusters with bath for x, y, z and other equivalent directions. Oracle: the two results of the code agree. Non-trivial: distinct systems and changes.",
                ["spectra_compared", "maps_compared", "energies_compared", "active_spaces", "expectation_values", "change_numbers", "change_phases", "change_zero", "change_order", "change_state_phase", "change_unused", "rotations", "rotated_fields", "rotation_xas", "cubic_systems", "cubic_densities", "cubic_xas", "rotated_operators"], "runtime monitoring: metamorphic oracle over pairs of real runs")
META["C25"] = m("Monitors on operator application, active spaces, Hamiltonian stores, Hamiltonian bases and Green's functions in complete simulations (simulate_spectra on random 2p-3d systems, both programs with random options), in direct calls for random core-valence systems with limits that bite, stores returned by RIXS on one and on several MPI processes. Oracle: every product state seen has the electron number and core occupation of one of the processes and respects the limits derived from the options; forbidden processes have exactly zero intensity. Non-trivial: distinct systems or options.",
                ["simulations", "limited_simulations", "program_runs", "limits_checked", "states_observed", "core_excited_spaces", "rixs_stores", "forbidden_processes", "wide_limits", "mpi_jobs", "systems"], "runtime monitoring: invariant monitors on every product state seen by hooked functions")
META["C26"] = m("Green's functions (all modes and Krylov sizes, also far from exhausted spaces), spectra of core excitation, removal and addition, RIXS maps, 2p-3d ions with all transition operators, complete simulations on whole-axis meshes, inputs at the edge of the domain (vanishing broadening, huge and tiny energies, poles on the mesh, empty Hamiltonian, forbidden processes). Oracle: finiteness, sign, zeroth and first moment from the far asymptotics and from whole-axis quadrature against independently applied operators, and the complete Green's function for another broadening from the convolved spectral function (causality). Non-trivial: distinct systems.",
                ["points_observed", "sum_rules", "first_moments", "convolutions", "rixs_weights", "extreme_inputs", "ions", "shell_totals", "occupations", "simulations", "file_sum_rules", "complete_shells", "datasets_observed", "unexhausted_spaces"], "runtime monitoring: invariant monitors (sign, sum rules, dispersion relation) on the spectra of real runs")
META["C27"] = m("Batches of calls of (nearly) all public functions with arguments that differ from call to call in single entries, evaluated in fresh processes in different orders and with different hash seeds, every call three times: inputs are compared with a snapshot (arrays are made read-only), results are checked for shared mutable parts, one result is overwritten between the calls; spectra, RIXS maps and Green's functions in the same way within the accuracy of the method; simulations and both programs repeated after other ones and in a fresh process. Non-trivial: distinct batches.",
                ["calls_observed", "results_compared", "processes", "hash_seeds", "spectra_calls", "simulations", "datasets_compared", "program_runs"], "runtime monitoring: differential runs in fresh processes with input snapshots and result-aliasing monitors")
META["C28"] = m("Runs of both command-line programs up to the calculation of spectra, with random options (layouts, occupations, limits, Slater integrals, fields, temperatures, printing parameters) and own input files. Oracle: the text on standard output against the exact eigenstates of the independently assembled Hamiltonian: sizes, energies, table of expectation values, thermal averages, product states with the largest weights, density matrices above the limit; sums over complete multiplets where single eigenvectors are arbitrary. Non-trivial: distinct parameter sets.",
                ["reports", "report_CF", "report_stored", "reported_numbers", "table_values", "thermal_values", "excited_states_in_average", "reported_determinants", "weights_of_single_states", "density_elements", "offdiagonal_elements"], "runtime monitoring: end-to-end oracle on the standard output of real runs")
META["C29"] = m("The scripts in scripts/ run with every documented argument and a launcher that only records what is started (program, ranks, files, options; the options are offered to the real argument parser); the README's commands; the shipped one-body Hamiltonians and radial orbitals. The NiO examples (crystal field and 10 bath states) run completely, NiO with 50 bath states on several MPI ranks against the stored reference output, CoO, FeO and NiO with more bath states (thorough: also MnO) up to the spectra. Oracle: exact diagonalisation of the independently assembled model for all datasets and the report, plus textbook facts that do not depend on the model code: high-spin ground multiplets (3A2g, 4T1g, 5T2g, 6A1g) with their spin-orbit degeneracies, isotropic absorption, L2,3 splitting and branching, number of orbitals. Non-trivial: distinct example calculations.",
                ["scripts_launched", "input_files", "documented_commands", "radial_orbitals", "stored_hamiltonians", "full_examples", "reference_runs", "reference_values", "rixs_features", "ground_Fe", "reports", "ground_Ni", "ground_Co", "edges", "exact_values", "energies"], "runtime monitoring: end-to-end oracle on real runs of the shipped examples")
