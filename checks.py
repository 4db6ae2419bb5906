"""Which harness binaries decide which property."""
CHECKS = {}


def check(pid, bins, rule, **kw):
    CHECKS[pid] = dict(bins=[dict(src=b) if isinstance(b, str) else b for b in bins], rule=rule, **kw)

check("C01", ["c01_containers.cpp"],
      "random operation histories on up to 4 matrices (and file/fault round trips); a case is one history, distinct by its operation signature",
      must_observe=["container_empty_iteration", "container_state_compare", "ownership_ledger", "file_roundtrip", "obs_access_out_of_range", "container_iteration"])
check("C02", ["c02_lr.cpp"],
      "random scheduler parameters x iterations hugging each breakpoint x energy histories with mid-run clones; distinct by parameters/history",
      must_observe=["lr_value", "plateau_step", "plateau_lr_drops", "plateau_midrun_clone"])
check("C03", ["c03_suwatodo.cpp"],
      "random weight vectors (zeros, ties, huge ratios, 1..24 states) with every uniform bracketed around each transition boundary; distinct by weight vector",
      must_observe=["st_rows", "st_balance", "st_support", "st_chain_steps"])
check("C04", ["c04_spike.cpp"],
      "random observation sequences (constants, outliers, zeros, negative, reset points, warm-up) against an independent EMA recurrence; distinct by sequence",
      must_observe=["ema_update", "ema_reset"])
check("C05", ["c05_params.cpp"],
      "random copy/move/assign histories over parameter objects with instance-counting algorithm payloads; random builder call orders; distinct by history",
      must_observe=["params_state_compare", "params_ledger", "builder_build", "builder_fields", "params_family", "factory_fields", "params_defaults"])
check("C06", ["c06_psi.cpp"],
      "random amplitude lists (real/complex, scales 1e-200..1e200, sign flips, zeros) and metamorphic images (rescale, permute, global sign); distinct by list",
      must_observe=["psi_formula", "psi_metamorphic", "psi_format"])
check("C07", ["c07_fs.cpp"],
      "random path strings over a scratch tree (existing dirs, files, nested, trailing slashes, dangling links, races by forked processes); distinct by path kind and tree",
      must_observe=["fs_call", "fs_race_calls"])
check("C08", ["c08_stats.cpp"],
      "random samples (real/complex, offsets up to 1e8, zero spread, lengths 0..120), ranks 1..6 in eager and rendezvous MPI with random schedules; distinct by data",
      must_observe=["stat_serial", "stat_avelist", "stat_ips", "stat_dump", "stat_dump_fault", "stat_ranks", "stat_single", "stat_tensor_mean", "mpi_events"])
check("C09", ["c09_config.cpp"],
      "random lattice shapes (1xN, Nx1, up to 6x6) and occupations, files torn/damaged/unwritable at random points, 2..5 ranks exchanging configurations; distinct by shape and contents",
      must_observe=["cfg_occupancy", "cfg_values", "cfg_roundtrip", "cfg_refused", "cfg_torn", "cfg_fault", "cfg_transport", "mpi_events"])
check("C10", ["c10_cg.cpp"],
      "random Hermitian systems of size 1..18 (positive, negative, indefinite, condition 1..1e7, scale 1e-12..1e12, NaN/Inf entries), solver settings, 1..5 ranks with A split at random; distinct by right-hand side and settings",
      must_observe=["cg_positive", "cg_negative", "cg_rescaled", "cg_poison", "cg_distributed", "cg_dist_vs_serial", "cg_reason_kConverged", "cg_reason_kMaxIterations", "cg_reason_kIndefiniteMatrix", "mpi_events"])
check("C11", ["c11_signal.cpp"],
      "SIGINT/SIGTERM raised on random ranks before random polls, or by timers while ranks poll, resets at random rounds, 1..5 ranks, random schedules; distinct by signal plan",
      must_observe=["stop_polls_true", "stop_polls_false", "stop_schedules", "stop_async", "mpi_events"])
check("C12", ["c12_jastrow.cpp"],
      "random lattices 1x1..5x5, random write histories through every setter, random densities; distinct by write history",
      must_observe=["jastrow_pair", "jastrow_field", "jastrow_hop"])
check("C13", ["c13_sitps.cpp"],
      "random operation histories over four states of one lattice (1..3 x 1..3, both boundaries, 2-3 physical states, unset components, mixed scales); distinct by history",
      must_observe=["sitps_op", "sitps_bonds"])
check("C14", ["c14_convert.cpp"],
      "random states (1x1..3x3, open/periodic, trivial/U1/fermion parity, non-uniform and reversed bonds), random coefficients; every configuration's amplitude compared with brute force; distinct by shape and state",
      must_observe=["wf_nonzero", "wf_split", "wf_group", "wf_project", "wf_sum", "wf_peps", "wf_peps_reversed", "wf_normalise", "wf_product"])
check("C15", ["c15_persist.cpp"],
      "random states x target objects x file faults (missing, torn at random byte, damaged metadata, full device, directory in place of file), 1..5 ranks; distinct by state and fault",
      must_observe=["persist_roundtrip", "persist_overwrite", "persist_legacy", "persist_damage", "persist_torn", "persist_fault", "persist_tps", "persist_peps", "persist_transport", "persist_bcast_default", "mpi_events"])
check("C16", ["c16_bmps.cpp"],
      "random networks (2x2..4x4, bond dimension 1..3, trivial/U1/fermion parity, real and complex, exact-zero sectors) under random histories of boundary growth/shift/invalidate/replace operations and walkers, all compression schemes; distinct by network and history",
      must_observe=["bmps_history", "bmps_trace", "bmps_nn", "bmps_tnn", "bmps_nnn", "bmps_sqrt5", "bmps_one", "bmps_hole", "bmps_sweep", "bmps_update", "bmps_walker-row", "bmps_walker-trace", "bmps_walker-two", "bmps_var1", "bmps_var2", "bmps_bound"])
check("C17", ["c17_trg.cpp"],
      "random periodic networks (1x1..4x4 and 6x6, 8x8, 12x12, non-uniform bonds, trivial/U1, real/complex) under random histories of evaluations, trials, commits, copies, reloads and hole punching; all geometries 1..14 x 1..14 for acceptance; distinct by network and history",
      must_observe=["trg_history", "trg_trace", "trg_evaluate", "trg_trial", "trg_commit", "trg_unchanged", "trg_reload", "trg_copy", "trg_hole", "trg_hole-any", "trg_refuse"])
check("C18", ["c18_mc.cpp"],
      "random states on 2x2..4x3 open and 2x2, 3x3 periodic lattices x every sweep updater; sweeps started from exact |psi|^2 samples; exact enumeration of the sector; distinct by state and seed",
      must_observe=["mc_amplitude", "mc_sweep", "mc_invariance", "mc_reproducible", "mc_reach"])
check("C19", [dict(src="c19_models.cpp", flags=["-DPART=0"]), dict(src="c19_models.cpp", flags=["-DPART=1"])],
      "random states x random couplings (incl. exact zeros) x random configurations for every shipped model, open 2x2..5x2 and periodic 2x2, 3x3; every value compared with brute-force matrix elements; distinct by model, state and configuration",
      must_observe=["observables", "local_energy", "local_energy_holes", "hole", "hole_any", "measure_psi", "bond_energy", "row_corr", "psi_summary", "szsz", "sigma_x", "sc_bond", "structure_factor", "pinning"])
check("C20", [dict(src="c20_energy.cpp", flags=["-DPART=0"]), dict(src="c20_energy.cpp", flags=["-DPART=1"])],
      "random states x models x configuration sets (full sectors, arbitrary subsets, fewer configurations than ranks), scripted sample sequences, 1..5 ranks in eager and rendezvous MPI with garbage state on non-master ranks; distinct by state, script and schedule",
      must_observe=["exact_energy", "exact_gradient", "exact_observable", "fd_direction", "mc_energy", "mc_gradient", "mc_ostar", "mc_energy_only", "mpi_events"])
check("C21", ["c21_engine.cpp"],
      "random states over 12 decades of scale x per-rank initial configurations (with exactly vanishing ones) x thresholds x rescue x warm-up flags, 1..5 ranks in eager and rendezvous MPI; all backend/boundary/parameter/geometry combinations for refusal; distinct by state, thresholds and schedule",
      must_observe=["engine_abort", "engine_warm_abort", "engine_kept", "engine_rescued", "engine_warm", "engine_refusal", "mpi_events"])
check("C22", ["c22_optimizer.cpp"],
      "random objectives (convex and not) x all algorithms and parameters x spike patterns x selectors x schedulers x 1..4 ranks with placeholder or stale data on other ranks; every evaluated state compared with the reference; distinct by objective and parameters",
      must_observe=["opt_SGD", "opt_AdaGrad", "opt_Adam", "opt_LBFGS-fixed", "opt_LBFGS-Wolfe", "opt_SR", "opt_MinSR", "opt_states", "opt_selector", "opt_converged", "opt_wolfe", "opt_fallback", "opt_checkpoint", "opt_log", "opt_refusal", "spike_S1_1", "spike_S2_1", "spike_S3_1", "spike_S4_2", "spike_S4_3", "mpi_events"])
check("C23", [dict(src="c23_measure.cpp", flags=["-DPART=%d" % i]) for i in range(3)],
      "random states x scripted per-rank configuration sequences x random functors and shipped models x stop conditions x load failures x 1..4 ranks in eager and rendezvous MPI; replica overlaps; distinct by state, script and schedule",
      must_observe=["measure_registry", "measure_particles", "measure_mismatch", "measure_psi", "measure_stop", "measure_stop_warm", "measure_stop_late", "measure_load_failure", "measure_metadata", "measure_refused", "measure_model", "measure_config", "measure_stats", "measure_energy", "measure_replica", "mpi_events"])
check("C24", [dict(src="c24_vmc.cpp", flags=["-DPART=%d" % i]) for i in range(5)],
      "random states (trivial, U1, fermionic; open and periodic) x scripted per-rank configuration sequences x SGD/momentum/SR x stopping rules x dump settings x callbacks x executor or one-call API, 1..4 ranks; distinct by state, parameters and script",
      must_observe=["vmc_executor", "vmc_loaded", "vmc_api", "vmc_custom", "vmc_SGD", "vmc_momentum", "vmc_SR", "vmc_converged", "vmc_state", "vmc_iteration", "vmc_callback", "vmc_csv", "vmc_jsonl", "vmc_dump", "vmc_refusal", "mpi_events"])
check("C25", [dict(src="c25_simple.cpp", flags=["-DPART=%d" % i]) for i in range(3)],
      "random PEPS (trivial, U1, fermionic; real and complex; open and periodic; bonds of either direction) x random Hermitian two- and three-site terms x every bond, triangle and sweep executor, uniform, bond-dependent and site-dependent terms, truncating and exact; runs x stopping rules x observers; distinct by state, terms and parameters",
      must_observe=["gate", "project_horizontal", "project_vertical", "project_upper-right", "project_upper-left", "project_lower-right", "project_lower-left", "project_fermion_horizontal", "project_fermion_vertical", "project_fermion_upper-right", "project_fermion_upper-left", "project_fermion_lower-right", "project_fermion_lower-left", "project_periodic", "project_energy", "project_truncated", "project_truncated_3", "project_converted", "energy_exact", "energy_exact_fermion", "sweep_nn", "sweep_nnn", "sweep_tri", "sweep_nn_fermion", "sweep_nnn_fermion", "sweep_tri_fermion", "sweep_periodic", "sweep_onsite1", "sweep_onsite2", "sweep_onsite3", "sweep_energy", "sweep_twice", "run", "run_zero", "run_converged", "run_not_converged", "run_held_by_min_steps", "run_energy_open", "run_lambda_open", "run_dims_open", "run_bond_change", "run_lines", "run_split", "run_refused", "run_bond_grid_refused"])
check("C26", [dict(src="c26_loop.cpp", flags=["-DPART=%d" % i, "-DNDEBUG"]) for i in range(2)],
      "random bosonic PEPS (trivial and U1, real and complex, open and periodic) x random ring gates of bond 1..3 (entangling, diagonal, redundant, across one bond) x every plaquette; whole sweeps; runs x stopping rules x observers; distinct by state, gate and parameters",
      must_observe=["loop_overlap", "loop_open", "loop_periodic", "loop_entangling", "loop_whole_lattice", "loop_second", "loop_truncated", "loop_redundant", "loop_truncated_bond", "loop_refused", "sweep_exact_diagonal", "sweep_exact_whole", "sweep_generator", "sweep_periodic", "sweep_energy", "sweep_energy_exponential", "sweep_energy_first_order", "sweep_dumped", "run", "run_zero", "run_converged", "run_not_converged", "run_held_by_min_steps", "run_energy_open", "run_lambda_open", "run_bond_change", "run_lines", "run_split", "run_refused", "run_grid_refused", "run_odd_refused"])
