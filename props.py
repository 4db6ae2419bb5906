"""Single source of the property texts; mk.py writes properties.jsonl and MANIFEST.json from it and checks.py."""
PROPS = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe or []))


I = "include/qlpeps/"

prop("C01", "Grid containers behave as independent owning value matrices",
     "The two-dimensional containers (element grid, tensor grid, observable grid) behave as plain value matrices under any sequence of construct, resize, element write, allocate, release, copy, move, iterate and file save/load: every cell reads back exactly what was last stored there, absent cells are reported absent, copies share nothing with their source, and moved-from objects stay destructible and reassignable. Every stored element is destroyed exactly once. Saving an element reports success only when its bytes reached the file, and the in-memory copy is given up only after such a success.",
     ["histories", "inputs", "fault_sequences"],
     "all operation histories over several live containers of any shape (including empty, 1xN, Nx1), all element types with ownership, and file faults at save/load",
     "the unit tests touch a 2x3 container with one fixed sequence; aliasing, double destruction and lost-write bugs need particular orders of copy/move/resize/release, and I/O failure is never injected",
     [I + "two_dim_tn/framework/duomatrix.h", I + "two_dim_tn/framework/ten_matrix.h", I + "utility/observable_matrix.h"],
     [("DuoMatrix raw-pointer grid with deep copy and null cells", I + "two_dim_tn/framework/duomatrix.h"),
      ("TenMatrix dump/load with release", I + "two_dim_tn/framework/ten_matrix.h"),
      ("ObservableMatrix bounds-checked access, extraction", I + "utility/observable_matrix.h")],
     "model-based runtime monitor (shadow model + instance ledger) under ASan/UBSan with injected file faults",
     "bounded random histories against a shadow model; memory errors by AddressSanitizer/LeakSanitizer")

prop("C02", "Learning-rate schedules give exactly the documented rate at every step",
     "For any parameters and any iteration, every learning-rate schedule returns the rate its documented formula gives: constant, exponential, step, multi-step, linear warm-up, cosine annealing, and their continuation outside the scheduled range. The plateau schedule multiplies its rate by its factor exactly when the energy has failed to improve on the best one by more than the threshold for the patience number of consecutive calls, after which it starts over from the current energy. A clone continues exactly like its original and neither influences the other afterwards.",
     ["inputs", "histories"],
     "all parameter values, all iterations (breakpoints and their neighbours), all energy histories incl. NaN-free plateaus and mid-history clones",
     "tests evaluate a few iterations of one parameter set per schedule and one short energy list; off-by-one at breakpoints and clone aliasing need other histories",
     [I + "optimizer/lr_schedulers.h"],
     [("GetLearningRate formulas", I + "optimizer/lr_schedulers.h"), ("PlateauLR patience state machine", I + "optimizer/lr_schedulers.h")],
     "reference-model monitor over generated iteration/energy histories under ASan/UBSan",
     "random parameters and histories compared with independent formulas, relative tolerance 1e-9")

prop("C03", "Rejection-minimised state update has global balance and correct support",
     "For any finite list of non-negative weights with at least one positive weight and any current state of positive weight, the transition kernel induced by the state-selection routine (over its uniform random number) leaves the weight distribution invariant, its rows are probability distributions, it never selects a state of zero weight, and it depends only on ratios of the weights. It always returns an index in range, and it stays put no more often than balance forces it to.",
     ["inputs"],
     "all weight lists (zero entries, ties, ratios up to 1e300, any length) and all current states and random numbers",
     "no test covers the kernel; statistical VMC tests cannot resolve small imbalance, and boundaries of the uniform are never hit on purpose",
     [I + "vmc_basic/monte_carlo_tools/suwa_todo_update.h"],
     [("SuwaTodoStateUpdate cumulative landfill", I + "vmc_basic/monte_carlo_tools/suwa_todo_update.h")],
     "exact transition-kernel reconstruction by driving the uniform generator through every boundary, balance monitor, sanitizers",
     "kernel measured exactly by bisecting the uniform input for random weight lists; long chains additionally checked")

prop("C04", "Running-average tracker matches its recurrence and resets cleanly",
     "For every sequence of observations, the running mean and spread used for spike detection equal the documented exponential-moving recurrences (first observation initialises the mean with zero spread), the variance is never negative or NaN for finite input, and the mean stays within the range of the observations. After a reset the tracker is indistinguishable from a new one, and copies evolve independently. Every spike signal and action has its own distinct report label.",
     ["histories", "inputs"],
     "all observation sequences, all windows, resets at any point",
     "tests feed one short constant or ramp sequence",
     [I + "optimizer/spike_detection.h"],
     [("EMATracker::Update/Reset", I + "optimizer/spike_detection.h")],
     "reference-recurrence monitor over generated sequences under ASan/UBSan",
     "random sequences compared with an independent recurrence, relative tolerance")

prop("C05", "Optimizer parameters hold exactly what was set and own it independently",
     "An optimizer parameter set built through any order of builder or factory calls reports exactly the values given, with documented defaults for everything else regardless of call order, rejects an incomplete specification, and identifies exactly one algorithm family. Copies, moves and assignments of parameter sets preserve every value and share no mutable state, and each owned schedule object is destroyed exactly once.",
     ["histories", "inputs", "configurations"],
     "all builder call orders and subsets, all factories, all copy/move/assign histories, with and without schedules, clipping and checkpoint settings",
     "tests build a handful of parameter sets in one order and do not copy them with owned schedules",
     [I + "optimizer/optimizer_params.h"],
     [("OptimizerParams / OptimizerParamsBuilder / OptimizerFactory", I + "optimizer/optimizer_params.h")],
     "model-based monitor of generated build/copy histories with instance ledger, ASan/UBSan",
     "random histories against a field-by-field model")

prop("C06", "Wave-function consistency summary is correct, ordered and scale-free",
     "Given any list of amplitude evaluations of one configuration, the summary reports their mean and the relative radius of their spread (largest deviation from the mean over the magnitude of the mean) after flipping the sign of every value that opposes the largest-magnitude one; it does so independently of a common scale factor, a common phase, sign flips of individual values, and the order of the values. Zero or empty input yields zero spread rather than NaN, and the printed summary contains every value it was given up to the documented truncation.",
     ["inputs"],
     "all real and complex amplitude lists of any length and scale, including zeros and sign-flipped pairs",
     "tests use three or four values of order one; scale dependence and zero handling only show at amplitudes tests do not use",
     [I + "algorithm/vmc_update/psi_consistency.h"],
     [("ComputePsiConsistencySummaryAligned", I + "algorithm/vmc_update/psi_consistency.h")],
     "formula oracle plus metamorphic monitors (scale, phase, permutation) under UBSan",
     "random lists; formula evaluated independently in long double")

prop("C07", "Directory helpers report what is really on disk, also under races",
     "After a call that asks for a directory, success is reported if and only if the path is a directory, for any path string, any pre-existing file or link at it, and any number of processes creating it at the same time. The helpers never throw, never remove or alter existing entries, and an existence query answers exactly whether the path names an existing entry.",
     ["inputs", "schedules", "fault_sequences"],
     "all path strings over all pre-existing trees, and all interleavings of concurrent creators",
     "no test exercises the helpers; the creation race needs several processes, and regular files in the way are never set up",
     [I + "utility/filesystem_utils.h"],
     [("IsPathExist/CreatePath/EnsureDirectoryExists", I + "utility/filesystem_utils.h")],
     "post-state monitor on a scratch tree with concurrent forked creators and pre-placed obstacles, sanitizers",
     "random trees and racing processes; file system oracle via lstat/stat")

prop("C08", "Monte Carlo statistics are exact sample estimators for any data and rank split",
     "For any sample (real or complex, any length, any common offset) the mean, variance and standard error equal the textbook sample estimators of that data to rounding, also when the spread is tiny compared with the mean; a single sample gives an infinite standard error and an empty one gives zero. The binned and per-rank estimators over any number of ranks equal the same estimators on the pooled data, whatever the message schedule; averaging a tensor over ranks gives the arithmetic mean. The autocorrelation inflation factor is finite, at least one, and equals the initial-positive-sequence estimate. Writing data to a file either stores every value or throws.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all samples incl. empty/single/constant/large-offset, 1..n ranks, eager and rendezvous message delivery, full or unwritable files",
     "tests use a few small well-conditioned samples; cancellation, one-rank and zero-length cases, and interleavings of the gathers are never exercised",
     [I + "vmc_basic/monte_carlo_tools/statistics.h", I + "vmc_basic/statistics_tensor.h"],
     [("Mean/Variance/StandardError/IPS", I + "vmc_basic/monte_carlo_tools/statistics.h"), ("GatherStatistic*, binned mean over ranks", I + "vmc_basic/monte_carlo_tools/statistics.h"), ("MPIMeanTensor", I + "vmc_basic/statistics_tensor.h")],
     "long-double reference estimators over generated samples; multi-rank runs under an MPI monitor (deadlock, mismatch, lost message) with random schedules; ASan/UBSan",
     "random data and 1..6 simulated ranks against long-double oracles")

prop("C09", "Configurations keep their occupation and survive save, load and transport",
     "A configuration built or randomised with prescribed occupation numbers has exactly those occupations, a randomised configuration can reach every arrangement, and inconsistent occupations are refused without changing the object. Counting and summing report what the sites hold, and copies are independent. Saving and loading a configuration under any directory and label restores exactly the same occupations; loading from a missing, truncated, damaged or differently shaped file returns false rather than a wrong configuration, and a failed save is reported. Broadcast, send and exchange between ranks deliver exactly the sender's configuration.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "all lattice shapes and occupations, all cut points and damages of the saved files, all rank counts, roots and message schedules",
     "tests round-trip one square lattice; torn files, non-square shapes and multi-rank transport are not covered",
     [I + "vmc_basic/configuration.h"],
     [("Random(occupancy)", I + "vmc_basic/configuration.h"), ("Dump/Load with shape sidecar", I + "vmc_basic/configuration.h"), ("MPI_BCast/MPI_Send/MPI_Recv/MPI_Sendrecv", I + "vmc_basic/configuration.h")],
     "round-trip and fault-injection monitors on generated configurations, multi-rank MPI monitor, ASan/UBSan",
     "random shapes/occupations, torn files at random cuts, 2..5 ranks")

prop("C10", "Conjugate gradient never reports a false solution, serial or distributed",
     "For any Hermitian operator, right-hand side, start vector and settings, the linear solver stops within the iteration limit, reports convergence only when the true residual of the returned vector meets the tolerance, reports that vector's true residual, and never returns a vector worse than the start. Well-conditioned positive-definite systems converge, and are never called indefinite, whatever their overall scale; negative-definite systems are reported as indefinite; non-finite operators yield a finite vector without a claim of convergence. Inputs are not modified. The distributed solver, with the operator split over ranks in any way, gives the serial result and leaves no rank waiting and no message undelivered.",
     ["inputs", "configurations", "schedules"],
     "all Hermitian matrices up to the tested size, scales 1e-12..1e12, NaN/Inf entries, all solver settings, 1..n ranks and message schedules",
     "tests solve two fixed systems; false convergence, scale-dependence and early-exit deadlocks need ill-conditioned, indefinite or distributed inputs",
     [I + "utility/conjugate_gradient_solver.h"],
     [("serial CG with residual recomputation", I + "utility/conjugate_gradient_solver.h"), ("master/slave distributed matvec protocol", I + "utility/conjugate_gradient_solver.h")],
     "true-residual oracle on generated Hermitian systems; distributed runs under the MPI monitor; ASan/UBSan",
     "random systems of size 1..18, residual slack 1e-12 relative")

prop("C11", "All ranks agree on an emergency stop and no stop request is lost",
     "When interrupt or terminate signals reach any ranks at any moments, the next collective poll returns true on every rank, every rank gets the same answer at every poll, and the answer stays true until it is explicitly reset; with no signal no poll ever reports a stop. The local query is true exactly on ranks that received a signal since the last reset.",
     ["schedules", "histories"],
     "all placements of signals over ranks and polls, asynchronous delivery during a poll, resets at any round, 1..n ranks",
     "tests have a single process; disagreement between ranks needs a signal on a subset of ranks at a specific time",
     [I + "base/mpi_signal_guard.h"],
     [("MPISignalGuard flag and collective OR", I + "base/mpi_signal_guard.h")],
     "trace monitor over per-rank poll logs with signals injected at chosen and random times, MPI monitor, ASan/UBSan",
     "random signal plans on 1..5 simulated ranks (real processes, real signals)")

prop("C12", "Jastrow couplings are symmetric pair values and fields are exact",
     "For any lattice and any sequence of writes through any of the setters, the coupling of an unordered pair of sites reads back the last value written for that pair in either order, unset pairs and the diagonal read zero, and pairs never alias one another. The field at a site equals the sum over all other sites of coupling times occupation, and moving one particle changes the exponent by exactly what the fields predict.",
     ["inputs", "histories"],
     "all lattice shapes incl. 1xN and Nx1, all write orders and argument forms, all configurations",
     "tests use one square lattice with uniform couplings, on which transposed or aliased index maps are invisible",
     [I + "vmc_basic/jastrow_factor.h"],
     [("packed triangular pair index", I + "vmc_basic/jastrow_factor.h"), ("JastrowFieldAtSite", I + "vmc_basic/jastrow_factor.h")],
     "shadow-map monitor over generated write histories, algebraic oracle for the fields, ASan/UBSan",
     "random lattices up to 5x5 and write histories")

prop("C13", "Split-index tensor states form an exact vector space with intact metadata",
     "Under any sequence of additions, subtractions, scalings, element-wise maps, copies, moves and in-place variants, a split-index state equals the component-by-component result of the same operations, a component that was never set acts as zero, operands of out-of-place operations stay unchanged, and lattice size, boundary condition and physical dimension carry over to every result. Inner product and norms agree with the component-wise sums. Bond-dimension queries report the true minimum, maximum and uniformity on every lattice shape, including one-row and one-column lattices.",
     ["histories", "inputs"],
     "all operation histories on states of any lattice shape, boundary condition, symmetry and element type, with unset components and mixed magnitudes",
     "tests apply each operator once to one fully set open-boundary state; aliasing, unset components and lost metadata need longer histories",
     [I + "two_dim_tn/tps/split_index_tps.h", I + "two_dim_tn/tps/split_index_tps_impl.h", I + "two_dim_tn/tps/tps_impl.h"],
     [("operators and element-wise maps", I + "two_dim_tn/tps/split_index_tps_impl.h"), ("bond-dimension queries", I + "two_dim_tn/tps/tps_impl.h")],
     "shadow-model monitor over generated operation histories under ASan/UBSan",
     "random histories of up to 16 operations over four states, relative tolerance 1e-12")

prop("C14", "Conversions between state representations keep the wave function",
     "Every conversion between representations of a state describes the same wave function: for every configuration the amplitude obtained from the weighted (bond-weight) form, the five-leg form, the split-index form and back is the same, whatever the lattice shape, boundary condition, bond directions, symmetry and statistics. A (weighted) sum of states has amplitudes equal to the weighted sum of the amplitudes, including signs and complex phases. Projection onto a configuration, and replacing one site's projection, select exactly the requested components, and out-of-range or unset components are refused. A product-state initialisation has amplitude one on its configuration and zero elsewhere; normalising changes the wave function by exactly the factor it reports.",
     ["inputs"],
     "all states, configurations, lattice shapes incl. 1xN, open and periodic boundaries, bosonic and fermionic symmetries, all coefficients",
     "tests check one conversion on one uniform state; wrong leg order or lost sign shows only for non-uniform bonds, reversed directions or particular coefficients",
     [I + "two_dim_tn/tps/tps_impl.h", I + "two_dim_tn/tps/split_index_tps_impl.h", I + "two_dim_tn/peps/square_lattice_peps_basic_impl.h", I + "api/conversions.h", I + "two_dim_tn/tensor_network_2d/tensor_network_2d_basic_impl.h"],
     [("TPS/SplitIndexTPS/PEPS conversion", I + "api/conversions.h"), ("WaveFunctionSum", I + "two_dim_tn/tps/tps_impl.h"), ("Project/UpdateSiteTensor", I + "two_dim_tn/tps/split_index_tps_impl.h")],
     "exact-amplitude oracle (brute-force contraction of every configuration) on generated states under ASan/UBSan",
     "lattices up to 3x3, bond dimension up to 3, two or three physical states")

prop("C15", "States survive files and messages unchanged and failures are reported",
     "A state dumped to a directory and loaded again, into any target object, or sent or broadcast to other ranks, is identical to the original in lattice, boundary condition and every component, for all three state classes; a newer dump replaces an older one and older metadata layouts still load. Missing, truncated or damaged tensor or metadata files make the load report failure rather than succeed with a different state, and a dump that could not write everything reports it and has not released the only copy of what it failed to write. Message exchange of states never deadlocks, mixes up or loses messages.",
     ["inputs", "fault_sequences", "schedules"],
     "all states and lattice shapes, every file of a dump missing/torn/damaged/unwritable, 1..n ranks with any roots and message schedules",
     "tests round-trip one state on a healthy disk with one process; silent loss needs an injected fault or a particular target object or rank layout",
     [I + "two_dim_tn/tps/split_index_tps_impl.h", I + "two_dim_tn/tps/tps_impl.h", I + "two_dim_tn/peps/square_lattice_peps_basic_impl.h", I + "two_dim_tn/framework/ten_matrix.h"],
     [("Dump/Load", I + "two_dim_tn/tps/split_index_tps_impl.h"), ("MPI_Send/MPI_Recv/MPI_Bcast", I + "two_dim_tn/tps/split_index_tps_impl.h"), ("SquareLatticePEPS::Dump/Load", I + "two_dim_tn/peps/square_lattice_peps_basic_impl.h")],
     "round-trip and fault-injection monitor (torn files, full device), MPI monitor over simulated ranks, ASan/UBSan",
     "random states up to 4x4, each file kind damaged, 1..5 ranks")

prop("C16", "Boundary-MPS contraction equals the exact contraction when nothing is cut",
     "On every open lattice with at least two rows and columns, whatever history of boundary growth, sweeps, local tensor changes with the matching invalidation, and walkers preceded a query, the contractor's traces, its replacement traces on one site and on nearest, diagonal, next-nearest, knight-move and three-site clusters, and its punched holes equal the exact contraction of the current network, bosonic and fermionic, real and complex, as long as the bond limit does not cut. Variational compression with enough bonds reaches the same value. With truncation, bond limits are respected. Two walkers never disturb each other or the contractor.",
     ["histories", "inputs"],
     "all networks, lattice shapes >= 2x2, symmetries, operation histories on the contractor and its walkers, all compression schemes",
     "tests contract a few fixed uniform networks in one order; stale environments need particular update/invalidate/query histories on non-uniform networks",
     [I + "two_dim_tn/tensor_network_2d/bmps/", I + "one_dim_tn/boundary_mps/bmps_impl.h"],
     [("BMPSContractor growth, traces, holes, invalidation", I + "two_dim_tn/tensor_network_2d/bmps/bmps_contractor.h"), ("BMPS compression schemes", I + "one_dim_tn/boundary_mps/bmps_impl.h"), ("BMPSWalker", I + "two_dim_tn/tensor_network_2d/bmps/impl/bmps_walker.h")],
     "brute-force contraction oracle after every step of generated operation histories, ASan/UBSan",
     "lattices up to 4x4, bond dimension up to 3; relative tolerance scaled by the sum of absolute terms")

prop("C17", "Periodic (TRG) contraction is exact when nothing is cut; trials have no effect",
     "On every supported periodic lattice (square, side 2^m or 3*2^k) with bonds large enough that nothing is cut, the contraction, the amplitude of any replacement evaluation and of any trial equal the exact contraction of the corresponding network, for real and complex tensors and with or without symmetry. Evaluations and unaccepted trials change nothing; after any history of committed trials, copies, cache clears and re-initialisations the contractor equals a freshly built one. Every punched hole closed with its own site tensor gives the amplitude, and on lattices small enough to be contracted directly any tensor put into the hole gives the amplitude of that replacement. Unsupported geometries, and calls before initialisation or without truncation parameters, are refused.",
     ["histories", "inputs"],
     "all periodic networks on supported sizes, bond patterns, symmetries, all trial/commit/copy/reload histories",
     "tests use uniform Ising-like networks and one commit; stale coarse tensors and swapped legs need non-uniform networks and longer histories",
     [I + "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h", I + "two_dim_tn/tensor_network_2d/trg/trg_contractor.h"],
     [("TRG coarse graining and trial/commit", I + "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h"), ("hole punching", I + "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h")],
     "brute-force contraction oracle after every step of generated histories, ASan/UBSan",
     "sizes 1-4, 6 with bond dimension up to 3, 8 and 12 with sparse bonds; on lattices beyond 3x3 holes are only required to reproduce the amplitude (the code freezes the splitting isometries by design)")

prop("C18", "Monte-Carlo sweeps sample |psi|^2 with an exact tracked amplitude",
     "For every state and every sweep updater (nearest-neighbour exchange, full-space, three-site exchange, Hubbard U1xU1; open and periodic), a sweep leaves the distribution |psi|^2 on the updater's sector invariant and a long enough walk reaches every configuration of a sector without zero amplitudes. After any number of sweeps, global replacements and copies the tracked amplitude and the projected network are those of the current configuration; the conserved counts of the updater never change, zero-amplitude configurations are never entered, acceptance rates are fractions consistent with whether anything moved, and equal seeds give equal trajectories.",
     ["inputs", "histories", "schedules"],
     "all states, sectors, lattice shapes (>= 2x2; three-site >= 3x3), boundary conditions, statistics, random streams and sweep histories",
     "tests check a handful of seeds for energies within loose error bars; a biased acceptance rule or stale amplitude hides inside the statistical error",
     [I + "vmc_basic/configuration_update_strategies/", I + "vmc_basic/wave_function_component.h", I + "vmc_basic/monte_carlo_tools/suwa_todo_update.h"],
     [("NN updaters (open, periodic)", I + "vmc_basic/configuration_update_strategies/square_nn_updater.h"), ("three-site updater", I + "vmc_basic/configuration_update_strategies/square_3site_updater.h"), ("Hubbard updater", I + "vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h"), ("amplitude tracking", I + "vmc_basic/wave_function_component.h")],
     "exact-enumeration oracle: amplitude and network monitors after sweeps, chi-square invariance monitor with a bound below 1e-10, reachability monitor; ASan/UBSan",
     "sectors up to 400 states; contraction without truncation; Jastrow-dressed updater is not compilable and not claimed")

prop("C19", "Model solvers report the exact local energy and observables of their Hamiltonian",
     "For every shipped model (XXZ, Heisenberg, J1-J2, triangular J1 and J1-J2, transverse-field Ising, spinless fermions, Hubbard, t-J family with pinning field; open and periodic where offered), every state, configuration with non-zero amplitude and set of couplings, the local energy equals sum_c' conj(psi(c')/psi(c)) <c'|H|c> of the documented Hamiltonian, with or without gradient holes, and the holes are the derivatives of the amplitude. Measured observables (bond energies, site densities and spins, correlations, sigma_x, singlet bonds) equal their exact local estimators, appear under the described keys with the described shapes, add up to the same energy, and measuring neither changes the sample nor depends on having measured before. The reported amplitude summary is the true amplitude. Invalid pinning fields are refused.",
     ["inputs", "histories"],
     "all models, couplings, states (symmetries, real and complex), configurations and lattice shapes >= 2x2",
     "tests compare a few converged energies at loose tolerance; a wrong sign, missing bond or wrong conjugation hides when couplings or states are symmetric, real or averaged",
     [I + "algorithm/vmc_update/model_solvers/", I + "algorithm/vmc_update/model_energy_solver.h", I + "algorithm/vmc_update/model_measurement_solver.h"],
     [("nearest/next-nearest energy traversal", I + "algorithm/vmc_update/model_solvers/base/"), ("t-J family", I + "algorithm/vmc_update/model_solvers/square_tJ_model.h"), ("spin models", I + "algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h")],
     "exact-enumeration oracle: brute-force amplitudes and Jordan-Wigner matrix elements for every local value, ASan/UBSan",
     "contraction without truncation; long-range S+S- structure factor is checked with one known finding; singlet pair correlations are documented as not implemented")

prop("C20", "Energy and gradient estimates are the exact weighted averages of their samples",
     "For every state, model and set of configurations the exact-summation evaluator returns the |psi|^2-weighted mean local energy, a gradient equal to <E_loc* O*> - E* <O*> with O* = d ln psi*/d theta*, which on a full sector is the derivative of the energy, and the exact-summation measurer returns the weighted mean of every observable. The sampled evaluator returns, for whatever configurations the chain visited, the same estimates over all samples of all ranks: the energy (equal on all ranks), per-rank local energies, gradient, per-sample and mean O* when requested, mean acceptance rates and binned error; the energy-only path agrees. Results do not depend on the number of ranks or on the state held by other ranks than the master, exactly the configured number of sweeps is made, the state is not rescaled, and no rank deadlocks. Holds for bosons and fermions, real and complex, open and periodic.",
     ["inputs", "schedules"],
     "all states, models, configuration sets, sample sequences, rank counts (also more ranks than configurations) and message schedules",
     "tests compare a final energy on one state within error bars; a lost sample, wrong conjugate or rank-dependent result needs scripted samples, complex states and several ranks to show",
     [I + "algorithm/vmc_update/exact_summation_energy_evaluator.h", I + "algorithm/vmc_update/exact_summation_measurer.h", I + "algorithm/vmc_update/mc_energy_grad_evaluator.h"],
     [("exact summation", I + "algorithm/vmc_update/exact_summation_energy_evaluator.h"), ("sampled evaluator", I + "algorithm/vmc_update/mc_energy_grad_evaluator.h"), ("exact measurer", I + "algorithm/vmc_update/exact_summation_measurer.h")],
     "brute-force oracle over scripted sample sequences, finite-difference oracle, MPI monitor over simulated ranks, ASan/UBSan",
     "lattices up to 2x3, bond dimension up to 3, configurations with non-vanishing amplitude (the code refuses near-zero amplitudes)")

prop("C21", "The sampling engine starts every rank from a legal, jointly normalised sample",
     "For every state, per-rank initial configuration, rescue setting, amplitude thresholds and number of ranks: at start-up a rank whose amplitude lies within the thresholds keeps its configuration, a rank outside them adopts that of the lowest-numbered valid rank, and the run aborts on all ranks (rather than deadlocking or continuing) if rescue is off or no rank is valid. The state, identical on all ranks, is rescaled uniformly so that the largest amplitude over the ranks is one, also after warm-up. A rank makes exactly the configured warm-up sweeps, none if already warmed up and not rescued, never twice; an illegal amplitude after warm-up aborts. Samples are split over ranks rounding up, and a backend that does not match the boundary condition or truncation parameters (or an unsupported periodic size) is refused.",
     ["inputs", "schedules"],
     "all states, amplitude scales, initial configurations, thresholds, rank counts and message schedules",
     "tests start from one good configuration on one or two ranks; rescue, abort and renormalisation paths need several ranks with vanishing amplitudes",
     [I + "algorithm/vmc_update/monte_carlo_engine.h", I + "algorithm/vmc_update/monte_carlo_peps_params.h"],
     [("configuration rescue", I + "algorithm/vmc_update/monte_carlo_engine.h"), ("normalisation", I + "algorithm/vmc_update/monte_carlo_engine.h")],
     "scripted updater with brute-force amplitudes as oracle, MPI monitor over simulated ranks (deadlock, mismatch, abort), ASan/UBSan",
     "1..5 simulated ranks, lattices 2x2 and 2x3; amplitudes within 1e-6 of a threshold are skipped")

prop("C22", "Optimizers follow their update rules exactly, on any number of ranks",
     "For every objective, parameter set and number of ranks, the sequence of states an optimization run evaluates is the one of the documented rule: SGD (momentum, Nesterov, decoupled weight decay), AdaGrad, Adam/AdamW, L-BFGS with fixed or strong-Wolfe steps, stochastic reconfiguration (the shifted solve, optionally normalised) and MinSR (pseudo-inverse with soft or hard cutoff), with element and norm clipping for first-order methods only, schedulers, initial and periodic step selectors. Accepted strong-Wolfe steps satisfy the Wolfe conditions or are the explicitly allowed fallback. Spikes lead to bounded resampling, rollback to the previous accepted state, or a counted forced acceptance, so that every run terminates; spiked evaluations never enter trajectories or running averages. Stopping rules, callbacks, lowest state and energy, trajectories, JSONL records and checkpoints report exactly that run; all ranks agree; unsupported parameter combinations are refused on every rank; a second run with the same optimizer starts afresh.",
     ["inputs", "histories", "schedules"],
     "all objectives, algorithms, parameters, spike patterns, rank counts and message schedules",
     "tests run a few well-behaved optimizations and compare the final energy loosely; a wrong moment, stale history, polluted average or rank divergence needs the whole trajectory to be compared",
     [I + "optimizer/optimizer.h", I + "optimizer/optimizer_impl.h", I + "optimizer/minsr_tmatrix.h", I + "optimizer/minsr_eigensolve.h", I + "optimizer/stochastic_reconfiguration_smatrix.h"],
     [("update rules", I + "optimizer/optimizer_impl.h"), ("spike recovery", I + "optimizer/optimizer_impl.h"), ("T matrix", I + "optimizer/minsr_tmatrix.h")],
     "reference-model monitor (independent flat-vector implementation) over every evaluated state, log record and checkpoint, MPI monitor over simulated ranks, ASan/UBSan",
     "states up to ~100 parameters, up to 15 iterations, 1..4 ranks; ScaLAPACK path not built; SR compared at converged CG; decisions within 1e-8 of a threshold are skipped")

prop("C23", "Measurement runs report exactly the samples they took, in every file and query",
     "For every state, model, measurement functor, sample script, number of ranks and message schedule, a Monte Carlo measurement evaluates each observable once per sample on the configuration the walker is then in, after the requested number of warm-up and between-sample sweeps. Registry results, statistics files, energy queries and the amplitude log report the mean over all samples of all ranks and the standard error over ranks, in the shape and under the key the model describes; every observable a shipped model describes it delivers with that shape. Stop conditions act at the first sample that meets them, on all ranks together; failed wavefunction loads, shape mismatches, and energy queries before a run are refused on all ranks, not answered with stale or partial data. Final configurations and metadata files describe the run that happened. The replica test starts replicas from distinct configurations and reports their true overlap for any sample count.",
     ["inputs", "schedules", "histories"],
     "all states, models, sample scripts, functors, rank counts and message schedules",
     "tests print observables of one state and compare one energy loosely; a dropped or doubled sample, per-rank bias, wrong key or shape is invisible to them",
     [I + "algorithm/vmc_update/monte_carlo_peps_measurer.h", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h", I + "algorithm/vmc_update/psi_consistency.h"],
     [("sample accumulation", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h"), ("model descriptions", I + "algorithm/vmc_update/model_measurement_solver.h")],
     "scripted-walker monitor recording every visited configuration, offline comparison of files and queries with the recorded samples, MPI monitor over simulated ranks, ASan/UBSan",
     "2x2..3x3 lattices, 1..4 ranks, up to ~20 samples per rank; single-rank error bars and conditional keys differing between ranks not claimed")

prop("C24", "A VMC run does the documented optimization end to end and reports it faithfully",
     "For every state, model, optimizer choice, number of ranks and message schedule, a whole VMC optimization run through the executor or the one-call API evaluates each iterate from exactly the configurations its walkers visit, updates it by the chosen rule, keeps all ranks on the same state, and ends with the final and lowest-energy states, minimum energy and trajectories of that run. The CSV and JSONL logs, dumped final and lowest wavefunctions and configurations contain those values and states, and reload to them. Callbacks and custom energy evaluators set by the user are invoked for every iteration, including the one that meets a stopping criterion. Inconsistent sizes, boundary conditions or backends are refused on all ranks before any sampling.",
     ["inputs", "schedules", "histories"],
     "all states, models, optimizer parameters, sample scripts, rank counts and message schedules",
     "tests run a few optimizations of standard models and check the final energy loosely; wrong bookkeeping between evaluator, optimizer and files leaves the energy looking fine",
     [I + "algorithm/vmc_update/vmc_peps_optimizer.h", I + "algorithm/vmc_update/vmc_peps_optimizer_impl.h", I + "optimizer/optimizer_impl.h", I + "api/vmc_api.h"],
     [("executor", I + "algorithm/vmc_update/vmc_peps_optimizer_impl.h"), ("one-call API", I + "api/vmc_api.h")],
     "scripted-walker reference monitor (brute-force energies and gradients per visited configuration) over every evaluated state, log, dump and callback, MPI monitor over simulated ranks, ASan/UBSan",
     "2x2..2x3 lattices, 1..4 ranks, up to ~8 iterations; SGD, momentum and SR")

prop("C25", "Simple update evolves the PEPS by the requested Hamiltonian and reports it",
     "For every PEPS, symmetry, boundary condition and Hermitian Hamiltonian, the evolution gates are exp(-tau*H), and each bond or triangle projection turns the wavefunction into the gated wavefunction divided by the returned norm; when a bond limit forces truncation, a two-site projection keeps the largest singular values, the reported truncation error and bond dimension are the real ones, and only the tensors and weights of that bond or triangle change. A sweep of the nearest-neighbor, next-nearest-neighbor or triangle executor applies, to first order in tau, every term of the given Hamiltonian exactly once (the triangle executor both triangle orientations): uniform, bond-dependent and on-site terms, including on-site terms set on only some sites and on one-row or one-column lattices. The energy estimate of a product state is its energy. Step metrics, observer calls, summary and SU_METRIC lines agree with the steps actually run, the advanced stop rule fires at exactly the first step that meets it, and invalid rules or bond grids are refused without touching the state.",
     ["inputs", "histories"],
     "all states, Hamiltonians, lattices up to 3x3, bond limits, step lengths, stopping rules",
     "tests compare converged energies of a few standard models with stored values within loose tolerances; a wrong share of a term, a wrong environment or a wrong sign on one orientation converges to something plausible",
     [I + "algorithm/simple_update/simple_update_impl.h", I + "algorithm/simple_update/square_lattice_nn_simple_update.h", I + "algorithm/simple_update/square_lattice_nnn_simple_update.h", I + "algorithm/simple_update/triangle_nn_on_sqr_peps_simple_update.h", I + "two_dim_tn/peps/square_lattice_peps_projection_impl.h"],
     [("gates and runs", I + "algorithm/simple_update/simple_update_impl.h"), ("projections", I + "two_dim_tn/peps/square_lattice_peps_projection_impl.h"), ("sweeps", I + "algorithm/simple_update/square_lattice_nnn_simple_update.h")],
     "full-wavefunction reference monitor around every gate, projection and sweep, replica of the stopping rule fed by the observer, ASan/UBSan",
     "lattices up to 3x3, physical dimension 2-3, bond dimension up to 16; triangle executor on open lattices; NNN and triangle terms symmetric under exchange")


prop("C26", "Loop update applies the given plaquette gates and reports it faithfully",
     "For every bosonic PEPS and every plaquette gate given as a ring of four tensors, a plaquette projection without truncation turns the wavefunction into the gated wavefunction divided by the returned norm, the second returned value is the expectation of the gate in the plaquette with its surrounding weights, and only the four tensors and four weights of that plaquette change; a redundant bond introduced by the gate is removed without changing the state, a bond limit is never exceeded, and cutting the only bond in question loses no more than the best possible truncation. A sweep of the loop update executor applies every given gate exactly once, open and periodic; E0 is the sum over plaquettes of (1-overlap)/tau or -ln(overlap)/tau according to the gate type, and En is -ln of the product of the norms over tau. Step metrics, observer calls, run summary, LU_METRIC lines and dumped state agree with the steps actually run, the advanced stop rule fires at exactly the first step that meets it, and odd periodic lattices, wrong gate grids, wrapping plaquettes and invalid rules are refused without touching the state.",
     ["inputs", "histories"],
     "all bosonic states with irreducible plaquettes, ring gates, lattices up to 3x3, bond limits, step lengths, stopping rules",
     "tests compare one converged energy with a stored value within a loose tolerance; a wrong leg order in one corner or a wrong share of the norm converges to something plausible",
     [I + "algorithm/loop_update/loop_update_impl.h", I + "two_dim_tn/peps/square_lattice_peps_projection4_impl.h", I + "two_dim_tn/peps/arnoldi_solver.h"],
     [("projection", I + "two_dim_tn/peps/square_lattice_peps_projection4_impl.h"), ("sweeps and runs", I + "algorithm/loop_update/loop_update_impl.h")],
     "full-wavefunction reference monitor around every plaquette projection and sweep, replica of the stopping rule fed by the observer, ASan/UBSan",
     "lattices up to 3x3 (2x4), physical dimension 2-3, bond dimension up to ~12; plaquettes the library itself gives up on (ill-conditioned, ends the process) are counted and bounded, not judged; fermionic loop update is declared broken upstream and not claimed")