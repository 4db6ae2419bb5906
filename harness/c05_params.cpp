// Optimizer parameter packs: value semantics (deep, independent copies), builder = last-write-wins, factories carry their arguments.
#include "vh.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlpeps;
using BP = OptimizerParams::BaseParams;
static double rd(vh::Rng &r) { return r.coin(.2) ? 0. : std::pow(10., r.uni(-12, 3)); }
// A scheduler that records its own life, so that sharing / slicing / leaks are visible.
struct Spy : LearningRateScheduler {
  static inline std::set<const Spy *> live; static inline int next = 0;
  int state; double lr;
  Spy(double l, int s = 0) : state(s), lr(l) { live.insert(this); }
  ~Spy() override { live.erase(this); }
  double GetLearningRate(size_t, double = 0.0) const override { const_cast<Spy *>(this)->state++; return lr; }
  void Step() override { state++; }
  std::unique_ptr<LearningRateScheduler> Clone() const override { return std::make_unique<Spy>(lr, state); }
  std::string Name() const override { return "Spy"; }
  std::string Describe() const override { return vh::cat("Spy(", lr, ",", state, ")"); }
};
struct Snap {  // everything observable about a BaseParams
  size_t it, pat; double et, gt, lr; std::string sch; bool hs; std::optional<double> cv, cn; bool ie; size_t im; bool idet; bool pe; size_t pn; double pr; bool pdet; std::string log;
  bool operator==(const Snap &) const = default;
};
static Snap snap(const BP &b) {
  return {b.max_iterations, b.plateau_patience, b.energy_tolerance, b.gradient_tolerance, b.learning_rate, b.lr_scheduler ? b.lr_scheduler->Name() + "|" + b.lr_scheduler->Describe() : "", (bool) b.lr_scheduler, b.clip_value, b.clip_norm,
          b.initial_step_selector.enabled, b.initial_step_selector.max_line_search_steps, b.initial_step_selector.enable_in_deterministic,
          b.periodic_step_selector.enabled, b.periodic_step_selector.every_n_steps, b.periodic_step_selector.phase_switch_ratio, b.periodic_step_selector.enable_in_deterministic, b.jsonl_log_path};
}
static std::string show(const Snap &s) { return vh::cat("it=", s.it, " pat=", s.pat, " et=", s.et, " gt=", s.gt, " lr=", s.lr, " sch=", s.sch, " cv=", s.cv ? *s.cv : -1, " cn=", s.cn ? *s.cn : -1, " init=", s.ie, ",", s.im, ",", s.idet, " per=", s.pe, ",", s.pn, ",", s.pr, ",", s.pdet, " log=", s.log); }
static std::unique_ptr<LearningRateScheduler> rs(vh::Rng &r) {
  switch (r.below(4)) { case 0: return nullptr; case 1: return std::make_unique<Spy>(rd(r), (int) r.below(5)); case 2: return std::make_unique<StepLR>(rd(r), 1 + r.below(9), .5); default: return std::make_unique<PlateauLR>(rd(r) + 1e-6, .5, 1 + r.below(4), 1e-3); }
}
static BP rbase(vh::Rng &r) {
  BP b(r.below(1000), rd(r), rd(r), r.below(50), rd(r), rs(r));
  if (r.coin()) b.clip_value = rd(r); if (r.coin()) b.clip_norm = rd(r);
  if (r.coin()) b.initial_step_selector = {r.coin(), r.below(9), r.coin()};
  if (r.coin()) b.periodic_step_selector = {r.coin(), r.below(99), r.u01(), r.coin()};
  if (r.coin()) b.jsonl_log_path = vh::cat("log", r.below(100), ".jsonl");
  return b;
}
static void mutate(vh::Rng &r, BP &b) {
  b.max_iterations += 1 + r.below(5); b.energy_tolerance += 1; b.gradient_tolerance += 1; b.plateau_patience += 3; b.learning_rate += 1; b.clip_value = 77; b.clip_norm = 78;
  b.initial_step_selector.max_line_search_steps += 5; b.periodic_step_selector.every_n_steps += 5; b.jsonl_log_path += "x";
  if (b.lr_scheduler) { for (int k = 0; k < 6; ++k) { b.lr_scheduler->GetLearningRate(k, 1.0); b.lr_scheduler->Step(); } }
}
SECTION("base-value-semantics", 2, 6) {
  for (uint64_t c = 0; c < vh::N(6000, 60000); ++c) {
    size_t live0 = Spy::live.size();
    {
      std::vector<BP> v; for (int i = 0; i < 3; ++i) v.push_back(rbase(rng));
      std::vector<Snap> m; for (auto &b : v) m.push_back(snap(b));
      std::string ops;
      for (int k = 0; k < 12; ++k) {
        size_t i = rng.below(v.size()), j = rng.below(v.size());
        switch (rng.below(6)) {
          case 0: { BP t(v[i]); vh::Check(snap(t) == m[i], "params:copy-ctor", show(snap(t)), " vs ", show(m[i])); mutate(rng, t); ops += "c"; break; }
          case 1: v[i] = v[j]; m[i] = m[j]; ops += i == j ? "S" : "a"; break;
          case 2: { BP t(v[j]); BP u(std::move(t)); v[i] = std::move(u); m[i] = m[j]; ops += "m"; break; }
          case 3: mutate(rng, v[i]); m[i] = snap(v[i]); ops += "x"; break;
          case 4: { OptimizerParams p(v[i], SGDParams()); OptimizerParams q(p), z; z = p; mutate(rng, p.base_params); vh::Check(snap(q.base_params) == m[i] && snap(z.base_params) == m[i], "params:optimizer-params-copy", show(snap(q.base_params)), " vs ", show(m[i])); v[i] = q.base_params; ops += "p"; break; }
          default: v[i] = rbase(rng); m[i] = snap(v[i]); ops += "n";
        }
        for (size_t t = 0; t < v.size(); ++t) vh::Check(snap(v[t]) == m[t], "params:value-semantics", "after ", ops, " object ", t, ": ", show(snap(v[t])), " want ", show(m[t]));
        vh::Observe("params_state_compare", v.size());
      }
      // two copies never share a scheduler object
      std::set<const void *> ptrs; size_t nsch = 0; for (auto &b : v) if (b.lr_scheduler) { ptrs.insert(b.lr_scheduler.get()); nsch++; }
      vh::Check(ptrs.size() == nsch, "params:shared-scheduler", ops);
      vh::Case(vh::hash_str(ops, c));
    }
    vh::Check(Spy::live.size() == live0, "params:scheduler-leak", Spy::live.size() - live0, " schedulers alive"); vh::Observe("params_ledger");
  }
}
struct Algo { size_t idx = 99; std::vector<double> f; bool operator==(const Algo &) const = default; };
static Algo algo(const OptimizerParams &p) {
  Algo a; a.idx = p.algorithm_params.index();
  std::visit([&](auto &&x) { using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, SGDParams>) a.f = {x.momentum, (double) x.nesterov, x.weight_decay};
    else if constexpr (std::is_same_v<T, AdamParams>) a.f = {x.beta1, x.beta2, x.epsilon, x.weight_decay};
    else if constexpr (std::is_same_v<T, StochasticReconfigurationParams>) a.f = {(double) x.cg_params.max_iter, x.cg_params.relative_tolerance, x.cg_params.absolute_tolerance, (double) x.cg_params.residual_recompute_interval, x.cg_params.orthogonality_threshold, x.diag_shift, (double) x.normalize_update, x.adaptive_diagonal_shift};
    else if constexpr (std::is_same_v<T, LBFGSParams>) a.f = {(double) x.history_size, x.tolerance_grad, x.tolerance_change, (double) x.max_eval, (double) x.step_mode, x.wolfe_c1, x.wolfe_c2, x.min_step, x.max_step, x.min_curvature, (double) x.use_damping, x.max_direction_norm, (double) x.allow_fallback_to_fixed_step, x.fallback_fixed_step_scale};
    else if constexpr (std::is_same_v<T, AdaGradParams>) a.f = {x.epsilon, x.initial_accumulator_value};
    else a.f = {x.r_pinv, x.a_pinv, (double) x.soft_cutoff, (double) x.solver_mode}; }, p.algorithm_params);
  return a;
}
static StochasticReconfigurationParams rsr(vh::Rng &r) { StochasticReconfigurationParams s; s.cg_params.max_iter = r.below(500); s.cg_params.relative_tolerance = rd(r); s.cg_params.absolute_tolerance = rd(r); s.cg_params.residual_recompute_interval = (int) r.below(40); s.cg_params.orthogonality_threshold = r.u01(); s.diag_shift = rd(r); s.normalize_update = r.coin(); s.adaptive_diagonal_shift = rd(r); return s; }
static LBFGSParams rlb(vh::Rng &r) { return LBFGSParams(r.below(30), rd(r), rd(r), r.below(40), r.coin() ? LBFGSStepMode::kFixed : LBFGSStepMode::kStrongWolfe, rd(r), rd(r), rd(r), rd(r), rd(r), r.coin(), rd(r), r.coin(), rd(r)); }
static std::vector<double> lbf(const LBFGSParams &x) { return {(double) x.history_size, x.tolerance_grad, x.tolerance_change, (double) x.max_eval, (double) x.step_mode, x.wolfe_c1, x.wolfe_c2, x.min_step, x.max_step, x.min_curvature, (double) x.use_damping, x.max_direction_norm, (double) x.allow_fallback_to_fixed_step, x.fallback_fixed_step_scale}; }
static std::vector<double> srf(const StochasticReconfigurationParams &x) { return {(double) x.cg_params.max_iter, x.cg_params.relative_tolerance, x.cg_params.absolute_tolerance, (double) x.cg_params.residual_recompute_interval, x.cg_params.orthogonality_threshold, x.diag_shift, (double) x.normalize_update, x.adaptive_diagonal_shift}; }
static std::string spk(const SpikeRecoveryParams &s) { return vh::cat(s.enable_auto_recover, s.redo_mc_max_retries, ",", s.factor_err, ",", s.factor_grad, ",", s.factor_ngrad, ",", s.sr_min_iters_suspicious, ",", s.enable_rollback, s.ema_window, ",", s.sigma_k, s.log_trigger_csv_path); }
static void family(const OptimizerParams &p, const std::string &ctx) {
  int n = p.IsAlgorithm<SGDParams>() + p.IsAlgorithm<AdamParams>() + p.IsAlgorithm<StochasticReconfigurationParams>() + p.IsAlgorithm<LBFGSParams>() + p.IsAlgorithm<AdaGradParams>() + p.IsAlgorithm<MinSRParams>();
  vh::Check(n == 1, "params:not-exactly-one-algorithm", ctx, " ", n);
  bool fo = p.IsAlgorithm<SGDParams>() || p.IsAlgorithm<AdamParams>() || p.IsAlgorithm<AdaGradParams>();
  vh::Check(p.IsFirstOrder() == fo, "params:first-order", ctx);
  bool t1 = vh::Throws([&] { (void) p.GetAlgorithmParams<SGDParams>(); }), t2 = vh::Throws([&] { (void) p.GetAlgorithmParams<MinSRParams>(); }), t3 = vh::Throws([&] { (void) p.GetAlgorithmParams<LBFGSParams>(); });
  vh::Check(t1 == !p.IsAlgorithm<SGDParams>() && t2 == !p.IsAlgorithm<MinSRParams>() && t3 == !p.IsAlgorithm<LBFGSParams>(), "params:wrong-type-access", ctx);
  vh::Observe("params_family");
}
SECTION("builder", 3, 8) {
  for (uint64_t c = 0; c < vh::N(8000, 80000); ++c) {
    OptimizerParamsBuilder b; bool have = false; Algo al; bool hal = false; CheckpointParams ck; SpikeRecoveryParams sp; std::string ops;
    size_t it = 1000, pat = 20; double et = 1e-10, gt = 1e-30, lr = 0.01; std::string sch; std::optional<double> cv, cn; InitialStepSelectorParams is; PeriodicStepSelectorParams ps;
    size_t L = rng.below(14);
    for (size_t k = 0; k < L; ++k) {
      OptimizerParamsBuilder *ret = nullptr;
      switch (rng.below(19)) {
        case 0: it = rng.below(999); ret = &b.SetMaxIterations(it); have = true; ops += "i"; break;
        case 1: et = rd(rng); ret = &b.SetEnergyTolerance(et); have = true; ops += "e"; break;
        case 2: case 3: { lr = rd(rng); auto s = rs(rng); if (s) sch = s->Name() + "|" + s->Describe(); ret = s || rng.coin() ? &b.SetLearningRate(lr, std::move(s)) : &b.SetLearningRate(lr); have = true; ops += "l"; break; }
        case 4: pat = rng.below(99); ret = &b.SetPlateauPatience(pat); have = true; ops += "p"; break;
        case 5: { double m = rd(rng); bool n = rng.coin(); ret = &b.WithSGD(m, n); al = {0, {m, (double) n, 0.}}; hal = true; ops += "S"; break; }
        case 6: { auto s = rsr(rng); ret = &b.WithStochasticReconfiguration(s); al = {2, srf(s)}; hal = true; ops += "R"; break; }
        case 7: { double x = rd(rng), y = rd(rng), z = rd(rng), w = rd(rng); ret = &b.WithAdam(x, y, z, w); al = {1, {x, y, z, w}}; hal = true; ops += "A"; break; }
        case 8: { auto s = rlb(rng); ret = &b.WithLBFGS(s); al = {3, lbf(s)}; hal = true; ops += "L"; break; }
        case 9: { double x = rd(rng), y = rd(rng); ret = &b.WithAdaGrad(x, y); al = {4, {x, y}}; hal = true; ops += "G"; break; }
        case 10: { MinSRParams s(rd(rng), rd(rng), rng.coin(), (MinSRSolverMode) rng.below(3)); ret = &b.WithMinSR(s); al = {5, {s.r_pinv, s.a_pinv, (double) s.soft_cutoff, (double) s.solver_mode}}; hal = true; ops += "M"; break; }
        case 11: { double v = rd(rng); bool t = vh::Throws([&] { ret = &b.SetClipValue(v); }); vh::Check(t == !have, "builder:clip-before-base", ops); if (!t) cv = v; ops += "v"; break; }
        case 12: { double v = rd(rng); bool t = vh::Throws([&] { ret = &b.SetClipNorm(v); }); vh::Check(t == !have, "builder:clip-before-base", ops); if (!t) cn = v; ops += "n"; break; }
        case 13: { PeriodicStepSelectorParams q{rng.coin(), rng.below(50), rng.u01(), rng.coin()}; bool t = vh::Throws([&] { ret = &b.SetPeriodicStepSelector(q.enabled, q.every_n_steps, q.phase_switch_ratio, q.enable_in_deterministic); }); vh::Check(t == !have, "builder:selector-before-base", ops); if (!t) ps = q; ops += "P"; break; }
        case 14: { InitialStepSelectorParams q{rng.coin(), rng.below(50), rng.coin()}; bool t = vh::Throws([&] { ret = &b.SetInitialStepSelector(q.enabled, q.max_line_search_steps, q.enable_in_deterministic); }); vh::Check(t == !have, "builder:selector-before-base", ops); if (!t) is = q; ops += "I"; break; }
        case 15: ck = CheckpointParams{rng.below(20), rng.coin(.3) ? "" : vh::cat("ck", rng.below(9))}; ret = &b.SetCheckpoint(ck.every_n_steps, ck.base_path); ops += "C"; break;
        case 16: sp = SpikeRecoveryParams{}; sp.enable_auto_recover = rng.coin(); sp.redo_mc_max_retries = rng.below(9); sp.factor_err = rd(rng); sp.factor_grad = rd(rng); sp.factor_ngrad = rd(rng); sp.sr_min_iters_suspicious = rng.below(5); sp.enable_rollback = rng.coin(); sp.ema_window = rng.below(99); sp.sigma_k = rd(rng); sp.log_trigger_csv_path = rng.coin() ? "" : "x.csv"; ret = &b.SetSpikeRecovery(sp); ops += "K"; break;
        case 17: sp = SpikeRecoveryParams{}; sp.enable_auto_recover = false; sp.enable_rollback = false; ret = &b.DisableSpikeRecovery(); ops += "D"; break;
        default: { OptimizerParamsBuilder t(b); b = t; ret = &b; ops += "b"; }
      }
      if (ret) vh::Check(ret == &b, "builder:chaining", ops);
    }
    vh::Doing(ops);
    bool threw = false; std::optional<OptimizerParams> p, q;
    try { p.emplace(b.Build()); q.emplace(b.Build()); } catch (const std::invalid_argument &) { threw = true; }
    vh::Check(threw == !(have && hal), "builder:build-validation", ops, " threw=", threw); vh::Observe("builder_build");
    if (!threw && have && hal) {
      Snap want{it, pat, et, gt, lr, sch, !sch.empty(), cv, cn, is.enabled, is.max_line_search_steps, is.enable_in_deterministic, ps.enabled, ps.every_n_steps, ps.phase_switch_ratio, ps.enable_in_deterministic, ""};
      vh::Check(snap(p->base_params) == want, "builder:base-fields", ops, ": ", show(snap(p->base_params)), " want ", show(want));
      vh::Check(algo(*p) == al, "builder:algorithm-fields", ops, " index ", algo(*p).idx, " want ", al.idx, " ", vh::vec2s(algo(*p).f), " want ", vh::vec2s(al.f));
      vh::Check(p->checkpoint_params.every_n_steps == ck.every_n_steps && p->checkpoint_params.base_path == ck.base_path && p->checkpoint_params.IsEnabled() == (ck.every_n_steps > 0 && ck.base_path != ""), "builder:checkpoint", ops);
      vh::Check(spk(p->spike_recovery_params) == spk(sp), "builder:spike", ops, " ", spk(p->spike_recovery_params), " want ", spk(sp));
      family(*p, ops);
      mutate(rng, p->base_params); vh::Check(snap(q->base_params) == want, "builder:builds-share-state", ops);
      OptimizerParams z = b.Build(); vh::Check(snap(z.base_params) == want, "builder:build-consumes", ops); vh::Observe("builder_fields");
    }
    vh::Case(vh::hash_str(ops)); vh::Sample(ops);
  }
  vh::Check(Spy::live.empty(), "params:scheduler-leak", Spy::live.size());
}
static void simple(const OptimizerParams &p, size_t mi, double lr, const std::string &w) {
  auto &b = p.base_params;
  vh::Check(b.max_iterations == mi && b.learning_rate == lr, "factory:args", w, " ", b.max_iterations, " ", b.learning_rate);
  vh::Check(b.energy_tolerance == 0 && b.gradient_tolerance == 0 && b.plateau_patience == mi, "factory:simple-not-disabled", w, " simple factory must disable advanced stopping: ", b.energy_tolerance, " ", b.gradient_tolerance, " ", b.plateau_patience);
}
static void adv(const OptimizerParams &p, size_t mi, double et, double gt, size_t pa, double lr, const std::string &sch, const std::string &w) {
  auto &b = p.base_params;
  vh::Check(b.max_iterations == mi && b.learning_rate == lr && b.energy_tolerance == et && b.gradient_tolerance == gt && b.plateau_patience == pa, "factory:args", w, " got ", show(snap(b)), " want ", mi, " ", et, " ", gt, " ", pa, " ", lr);
  vh::Check((b.lr_scheduler ? b.lr_scheduler->Describe() : "") == sch, "factory:scheduler", w, " ", sch);
}
SECTION("factory", 2, 6) {
  using F = OptimizerFactory;
  for (uint64_t c = 0; c < vh::N(5000, 50000); ++c) {
    size_t mi = rng.below(1000), pa = rng.below(1000), ds = 1 + rng.below(50), hs = rng.below(40); double et = rd(rng), gt = rd(rng), lr = rd(rng), x = rd(rng), y = rd(rng), dr = rng.u01();
    auto sr = rsr(rng); auto lb = rlb(rng); auto s = rs(rng); std::string sd = s ? s->Describe() : ""; std::string decay = ExponentialDecayLR(lr, dr, ds).Describe();
    auto chk = [&](const OptimizerParams &p, Algo a, const char *w) { family(p, w); vh::Check(algo(p) == a, "factory:algorithm", w, " ", algo(p).idx, " ", vh::vec2s(algo(p).f), " want ", vh::vec2s(a.f)); vh::Check(!p.base_params.clip_value && !p.base_params.clip_norm && !p.base_params.initial_step_selector.enabled && !p.base_params.periodic_step_selector.enabled && p.base_params.jsonl_log_path.empty() && !p.checkpoint_params.IsEnabled() && spk(p.spike_recovery_params) == spk(SpikeRecoveryParams{}), "factory:unrequested-features", w); vh::Observe("factory_fields"); };
    switch (rng.below(12)) {
      case 0: { auto p = F::CreateStochasticReconfiguration(mi, sr, lr); simple(p, mi, lr, "SR"); chk(p, {2, srf(sr)}, "SR"); break; }
      case 1: { auto p = F::CreateStochasticReconfigurationAdvanced(mi, et, gt, pa, sr, lr, std::move(s)); adv(p, mi, et, gt, pa, lr, sd, "SRadv"); chk(p, {2, srf(sr)}, "SRadv"); break; }
      case 2: { auto p = F::CreateSGDWithDecay(mi, lr, dr, ds); simple(p, mi, lr, "SGDdecay"); vh::Check(p.base_params.lr_scheduler && p.base_params.lr_scheduler->Describe() == decay, "factory:scheduler", "SGDdecay"); chk(p, {0, {0, 0, 0}}, "SGDdecay"); break; }
      case 3: { auto p = F::CreateSGDWithDecayAdvanced(mi, et, gt, pa, lr, dr, ds); adv(p, mi, et, gt, pa, lr, decay, "SGDdecayAdv"); chk(p, {0, {0, 0, 0}}, "SGDdecayAdv"); break; }
      case 4: { auto p = F::CreateAdam(mi, lr, x, y); simple(p, mi, lr, "Adam"); chk(p, {1, {x, y, 1e-8, 0}}, "Adam"); break; }
      case 5: { auto p = F::CreateAdamAdvanced(mi, et, gt, pa, lr, x, y, std::move(s)); adv(p, mi, et, gt, pa, lr, sd, "AdamAdv"); chk(p, {1, {x, y, 1e-8, 0}}, "AdamAdv"); break; }
      case 6: { auto p = F::CreateAdaGrad(mi, lr, x, y); simple(p, mi, lr, "AdaGrad"); chk(p, {4, {x, y}}, "AdaGrad"); break; }
      case 7: { auto p = F::CreateAdaGradAdvanced(mi, et, gt, pa, lr, x, y); adv(p, mi, et, gt, pa, lr, "", "AdaGradAdv"); chk(p, {4, {x, y}}, "AdaGradAdv"); break; }
      case 8: { auto p = F::CreateLBFGS(mi, lr, hs); simple(p, mi, lr, "LBFGS"); chk(p, {3, lbf(LBFGSParams(hs))}, "LBFGS"); break; }
      case 9: { auto p = F::CreateLBFGSAdvanced(mi, et, gt, pa, lr, hs, std::move(s)); adv(p, mi, et, gt, pa, lr, sd, "LBFGSadv"); chk(p, {3, lbf(LBFGSParams(hs))}, "LBFGSadv"); break; }
      case 10: { auto p = F::CreateLBFGSAdvanced(mi, et, gt, pa, lr, lb, std::move(s)); adv(p, mi, et, gt, pa, lr, sd, "LBFGSfull"); chk(p, {3, lbf(lb)}, "LBFGSfull"); break; }
      default: { OptimizerParams::BaseParams b(mi, et, gt, pa, lr, std::move(s)); SpikeRecoveryParams sp; sp.enable_rollback = true; CheckpointParams ck{pa, "zz"}; OptimizerParams p(b, lb, ck, sp); adv(p, mi, et, gt, pa, lr, sd, "ctor"); vh::Check(p.spike_recovery_params.enable_rollback && p.checkpoint_params.base_path == "zz" && p.checkpoint_params.every_n_steps == pa && algo(p) == Algo{3, lbf(lb)}, "factory:full-ctor", ""); vh::Observe("factory_fields"); }
    }
    vh::Case(rng());
  }
}
SECTION("defaults", 1, 1) {
  ConjugateGradientParams cg; vh::Check(cg.max_iter == 100 && cg.relative_tolerance == 1e-4 && cg.absolute_tolerance == 0 && cg.residual_recompute_interval == 20 && cg.orthogonality_threshold == .5, "params:defaults", "CG");
  StochasticReconfigurationParams sr; vh::Check(sr.diag_shift == 1e-3 && !sr.normalize_update && sr.adaptive_diagonal_shift == 0, "params:defaults", "SR");
  SpikeRecoveryParams sp; vh::Check(sp.enable_auto_recover && sp.redo_mc_max_retries == 2 && sp.factor_err == 100 && sp.factor_grad == 1e10 && sp.factor_ngrad == 10 && sp.sr_min_iters_suspicious == 1 && !sp.enable_rollback && sp.ema_window == 50 && sp.sigma_k == 10 && sp.log_trigger_csv_path.empty(), "params:defaults", "spike");
  MinSRParams ms; vh::Check(ms.r_pinv == 1e-12 && ms.a_pinv == 0 && ms.soft_cutoff && ms.solver_mode == MinSRSolverMode::kAuto, "params:defaults", "minsr");
  LBFGSParams l; vh::Check(l.history_size == 10 && l.step_mode == LBFGSStepMode::kFixed && !l.allow_fallback_to_fixed_step && l.use_damping, "params:defaults", "lbfgs");
  AdamParams a; vh::Check(a.beta1 == .9 && a.beta2 == .999 && a.epsilon == 1e-8 && a.weight_decay == 0, "params:defaults", "adam");
  SGDParams s; vh::Check(s.momentum == 0 && !s.nesterov && s.weight_decay == 0, "params:defaults", "sgd");
  PeriodicStepSelectorParams p; InitialStepSelectorParams i; vh::Check(!p.enabled && !i.enabled && !p.enable_in_deterministic && !i.enable_in_deterministic, "params:defaults", "selectors");
  vh::Check(l.tolerance_grad == 1e-5 && l.tolerance_change == 1e-9 && l.max_eval == 20 && l.wolfe_c1 == 1e-4 && l.wolfe_c2 == .9 && l.min_step == 1e-8 && l.max_step == 1 && l.min_curvature == 1e-12 && l.max_direction_norm == 1e3 && l.fallback_fixed_step_scale == .2, "params:defaults", "lbfgs tolerances");
  vh::Check(p.every_n_steps == 10 && p.phase_switch_ratio == .3 && i.max_line_search_steps == 3, "params:defaults", "selector intervals");
  CheckpointParams ck; IterationRecord ir; vh::Check(!ck.IsEnabled() && ck.every_n_steps == 0 && ck.base_path.empty() && ir.iteration == 0 && ir.energy == 0 && ir.accept_rates.empty() && !ir.selector_triggered, "params:defaults", "checkpoint/record");
  // every call with its optional arguments left out takes the documented defaults
  using F = OptimizerFactory; auto al = [&](const OptimizerParams &o, Algo a, double lr, const char *w) { vh::Check(algo(o) == a && o.base_params.learning_rate == lr, "params:default-arguments", w, " ", vh::vec2s(algo(o).f), " lr ", o.base_params.learning_rate); vh::Observe("params_default_calls"); };
  al(F::CreateStochasticReconfiguration(7, sr), {2, srf(sr)}, .1, "SR"); al(F::CreateStochasticReconfigurationAdvanced(7, 0, 0, 1, sr), {2, srf(sr)}, .1, "SRadv");
  al(F::CreateSGDWithDecay(7), {0, {0, 0, 0}}, .01, "SGD"); vh::Check(F::CreateSGDWithDecay(7).base_params.lr_scheduler->Describe() == ExponentialDecayLR(.01, .95, 100).Describe() && F::CreateSGDWithDecayAdvanced(7, 0, 0, 1).base_params.lr_scheduler->Describe() == ExponentialDecayLR(.01, .95, 100).Describe(), "params:default-arguments", "SGD decay");
  al(F::CreateAdam(7), {1, {.9, .999, 1e-8, 0}}, 1e-3, "Adam"); al(F::CreateAdamAdvanced(7, 0, 0, 1), {1, {.9, .999, 1e-8, 0}}, 1e-3, "AdamAdv");
  al(F::CreateAdaGrad(7), {4, {1e-8, 0}}, .01, "AdaGrad"); al(F::CreateAdaGradAdvanced(7, 0, 0, 1), {4, {1e-8, 0}}, .01, "AdaGradAdv");
  al(F::CreateLBFGS(7), {3, lbf(l)}, 1, "LBFGS"); al(F::CreateLBFGSAdvanced(7, 0, 0, 1), {3, lbf(l)}, 1, "LBFGSadv");
  auto B = [] { OptimizerParamsBuilder b; b.SetMaxIterations(3); return b; };
  al(B().WithSGD().Build(), {0, {0, 0, 0}}, .01, "b.SGD"); al(B().WithSGD(.5).Build(), {0, {.5, 0, 0}}, .01, "b.SGD1"); al(B().WithAdam().Build(), {1, {.9, .999, 1e-8, 0}}, .01, "b.Adam"); al(B().WithAdaGrad().Build(), {4, {1e-8, 0}}, .01, "b.AdaGrad"); al(B().WithMinSR().Build(), {5, {1e-12, 0, 1, 0}}, .01, "b.MinSR");
  { auto o = B().WithSGD().SetPeriodicStepSelector(true).SetInitialStepSelector(true).Build(); auto &q = o.base_params; vh::Check(q.periodic_step_selector.enabled && q.periodic_step_selector.every_n_steps == 10 && q.periodic_step_selector.phase_switch_ratio == .3 && !q.periodic_step_selector.enable_in_deterministic && q.initial_step_selector.enabled && q.initial_step_selector.max_line_search_steps == 3 && !q.initial_step_selector.enable_in_deterministic, "params:default-arguments", "selectors"); }
  vh::Case(1); vh::Case(2); vh::Observe("params_defaults");
}
// Whole parameter sets (base + algorithm + checkpoint + spike) as values.
SECTION("set-value-semantics", 2, 6) {
  auto full = [](const OptimizerParams &p) { return vh::cat(show(snap(p.base_params)), " algo ", algo(p).idx, " ", vh::vec2s(algo(p).f), " ck ", p.checkpoint_params.every_n_steps, ",", p.checkpoint_params.base_path, " spike ", spk(p.spike_recovery_params)); };
  auto mk = [&]() {
    AlgorithmParams a = SGDParams(rd(rng), rng.coin(), rd(rng));
    switch (rng.below(6)) { case 0: break; case 1: a = AdamParams(rd(rng), rd(rng), rd(rng), rd(rng)); break; case 2: a = rsr(rng); break; case 3: a = rlb(rng); break; case 4: a = AdaGradParams(rd(rng), rd(rng)); break; default: a = MinSRParams(rd(rng), rd(rng), rng.coin(), (MinSRSolverMode) rng.below(3)); }
    SpikeRecoveryParams sp; if (rng.coin()) { sp.enable_auto_recover = rng.coin(); sp.redo_mc_max_retries = rng.below(9); sp.factor_err = rd(rng); sp.factor_grad = rd(rng); sp.factor_ngrad = rd(rng); sp.sr_min_iters_suspicious = rng.below(5); sp.enable_rollback = rng.coin(); sp.ema_window = rng.below(99); sp.sigma_k = rd(rng); sp.log_trigger_csv_path = rng.coin() ? "" : "x.csv"; }
    CheckpointParams ck; if (rng.coin()) ck = {rng.below(9), vh::cat("c", rng.below(9))};
    if (rng.coin(.3)) { OptimizerParams o(rbase(rng), a); o.checkpoint_params = ck; o.spike_recovery_params = sp; return o; }
    return OptimizerParams(rbase(rng), a, ck, sp); };
  for (uint64_t c = 0; c < vh::N(3000, 30000); ++c) {
    size_t live0 = Spy::live.size();
    { std::vector<OptimizerParams> v; for (int i = 0; i < 3; ++i) v.push_back(mk());
      std::vector<std::string> m; for (auto &p : v) m.push_back(full(p)); std::string ops;
      for (int k = 0; k < 10; ++k) {
        size_t i = rng.below(3), j = rng.below(3);
        switch (rng.below(6)) {
          case 0: v[i] = v[j]; m[i] = m[j]; ops += "a"; break;
          case 1: { OptimizerParams t(v[j]); vh::Check(full(t) == m[j], "params:set-copy", ops, " ", full(t), " want ", m[j]); mutate(rng, t.base_params); t.checkpoint_params.base_path += "!"; t.algorithm_params = SGDParams(9, true, 9); ops += "c"; break; }
          case 2: { OptimizerParams t(v[j]), u(std::move(t)); vh::Check(full(u) == m[j], "params:set-move", ops, " ", full(u), " want ", m[j]); v[i] = std::move(u); m[i] = m[j]; t = v[i]; vh::Check(full(t) == m[i], "params:moved-from-reassign", ops); ops += "m"; break; }
          case 3: if (i != j) { std::swap(v[i], v[j]); std::swap(m[i], m[j]); } ops += "w"; break;
          case 4: v.insert(v.begin() + i, v[j]); m.insert(m.begin() + i, std::string(m[j])); v.erase(v.begin() + 1); m.erase(m.begin() + 1); ops += "v"; break;
          default: v[i] = mk(); m[i] = full(v[i]); ops += "n";
        }
        for (size_t t = 0; t < v.size(); ++t) vh::Check(full(v[t]) == m[t], "params:set-value-semantics", "after ", ops, " object ", t, ": ", full(v[t]), " want ", m[t]);
        vh::Observe("params_set_compare", 3);
      }
      vh::Case(vh::hash_str(ops, c)); }
    vh::Check(Spy::live.size() == live0, "params:scheduler-leak", Spy::live.size() - live0, " schedulers alive");
  }
}
