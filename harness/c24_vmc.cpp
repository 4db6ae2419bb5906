// C24: whole VMC optimization runs through the executor and the one-call API: every step, result and file against a brute-force reference.
#include "mp.h"
#include "scripted.h"
#include "qlpeps/api/vmc_api.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spinless_fermion.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_pbc.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
#include <filesystem>
#include <fstream>
using namespace sc; using namespace vh; namespace fs = std::filesystem;
template<class E> using F = std::vector<E>;
template<class E, class Q> F<E> dlnpsi(const SI<E, Q> &s, const V &c, E psi, const std::vector<char> &free) {
  SI<E, Q> w = s; F<E> o; size_t C = s.cols(), at = 0;
  for (size_t r = 0; r < s.rows(); ++r) for (size_t x = 0; x < C; ++x) for (size_t k = 0; k < s({r, x}).size(); ++k) { auto &t = w({r, x})[k]; size_t n = t.size(); if (c[r * C + x] != k) { o.insert(o.end(), n, E(0)); at += n; continue; } const auto keep = t; for (size_t i = 0; i < n; ++i, ++at) { if (!free[at]) { o.push_back(E(0)); continue; } for (auto &y : t.Data_()) y = E(0); t.Data_()[i] = E(1); o.push_back(amplitude<E, Q>(w, c) / psi); } t = keep; } return o; }
template<class E, class Q> SI<E, Q> unflat(const F<E> &v, const SI<E, Q> &shape) { SI<E, Q> s = shape; size_t at = 0; for (size_t r = 0; r < s.rows(); ++r) for (size_t x = 0; x < s.cols(); ++x) for (auto &t : s({r, x})) for (auto &y : t.Data_()) y = v[at++]; return s; }
template<class E> F<E> solve(std::vector<F<E>> a, F<E> b) { size_t n = b.size(); for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (mag(a[i][k]) > mag(a[p][k])) p = i; std::swap(a[k], a[p]); std::swap(b[k], b[p]); for (size_t i = k + 1; i < n; ++i) { E f = a[i][k] / a[k][k]; if (f == E(0)) continue; for (size_t j = k; j < n; ++j) a[i][j] -= f * a[k][j]; b[i] -= f * b[k]; } } for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= a[k][j] * b[j]; b[k] /= a[k][k]; } return b; }
struct Oracle { std::function<void(Terms &, const V &)> H; };
inline Oracle oracle(Ref ref, size_t R, size_t C) { return {[=](Terms &t, const V &c) { for (auto &b : bonds(ref, R, C)) ref.bond(t, c, b.d, b.i, b.j); if (ref.onsite) ref.onsite(t, c); }}; }
template<class E> struct Step { F<E> x, g; E en; double err; };
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
template<class E> double off_by_scale(const F<E> &a, const F<E> &b) { double na = std::sqrt(norm2(a)), nb = std::sqrt(norm2(b)); if (a.size() != b.size() || na == 0 || nb == 0) return INFINITY; double m = 0; for (size_t i = 0; i < a.size(); ++i) m = std::max(m, mag(a[i] / na - b[i] / nb)); return m; }
template<class E, class Q, template<class, class> class CT, bool PBC, class M> void run(Rng &rng, const std::string &name, size_t R, size_t C, size_t d, SI<E, Q> s, const Oracle &o, M model) {
  using X = VMCPEPSOptimizer<E, Q, Scripted<E, Q, CT>, M, CT>; size_t n = R * C; int ranks = rng.coin(0.3) ? 1 : 2 + (int) rng.below(3); static const size_t nice[] = {1, 2, 3, 4, 6, 9, 12}; size_t per = nice[rng.below(7)], sbs = 1 + rng.below(2), warm = rng.below(3), iters = 1 + rng.below(4), total = per * ranks - (per > 1 ? rng.below(ranks) : 0); bool warmed = rng.coin(0.3); size_t w0 = warmed ? 0 : warm;
  Amp<E> amp{[&](const V &c) { return amplitude<E, Q>(s, c); }, {}}; std::vector<V> pool; double rms = 0; { std::vector<V> all; if (std::pow(d, n) <= 300) all_cfg(n, d, [&](const V &c) { all.push_back(c); }); else for (int k = 0; k < 200; ++k) { V c(n); for (auto &x : c) x = rng.below(d); all.push_back(c); } size_t cnt = 0; for (auto &c : all) if (double a = std::norm(amp(c)); a > 0) { rms += a; ++cnt; } rms = std::sqrt(rms / std::max<size_t>(cnt, 1)); for (auto &c : all) if (mag(amp(c)) > 0.3 * rms) pool.push_back(c); } if (pool.size() < 2) { TrivialCase(); return; }
  int algo = (int) rng.below(3); double lr = rng.uni(0.005, 0.05), mom = algo == 1 ? rng.uni(0.1, 0.9) : 0, shift = rng.uni(0.05, 1); bool sched = rng.coin(0.3); double gamma = rng.uni(0.5, 0.9);
  g_script.assign(ranks, {}); g_rates = {{0.5}}; size_t need = w0 + iters * per * sbs; std::vector<V> init; for (int r = 0; r < ranks; ++r) { for (size_t k = 0; k < need; ++k) g_script[r].push_back(pool[rng.below(pool.size())]); init.push_back(pool[rng.below(pool.size())]); }
  double gtol = 0, etol = 0; bool user_stop = rng.coin(0.15); size_t stop_at = rng.below(iters); int mode = (int) rng.below(4); /* 0 executor, 1 loaded, 2 API, 3 custom evaluator */ if (mode == 2) user_stop = false;
  // reference trajectory
  double top = 0; for (int r = 0; r < ranks; ++r) { V c = w0 ? g_script[r][w0 - 1] : init[r]; top = std::max(top, mag(amp(c))); } F<E> x = flat(s, s); std::vector<char> free; for (auto &y : x) { free.push_back(y != E(0)); y *= std::pow(top, -1.0 / n); } std::vector<Step<E>> tr; size_t at = w0; F<E> vel(x.size(), E(0)); size_t conv_at = size_t(-1); bool weak = false; double scale = 1;
  if (mode != 3 && rng.coin(0.25) && iters > 1) { conv_at = 1 + rng.below(iters - 1); } // decided below through the gradient tolerance
  for (size_t k = 0; k < iters; ++k) { SI<E, Q> st = unflat(x, s); std::map<V, std::pair<E, F<E>>> memo; Amp<E> am{[&](const V &c) { return amplitude<E, Q>(st, c); }, {}}; std::vector<E> e; std::vector<const F<E> *> O; std::vector<std::vector<E>> byrank(ranks);
    for (int r = 0; r < ranks; ++r) for (size_t i = 0; i < per; ++i) { const V &c = g_script[r][(at + (i + 1) * sbs - 1) % need]; auto f = memo.find(c); if (f == memo.end()) { E psi = am(c); if (mag(psi) < 1e-3 || mag(psi) > 1e3) weak = true; Terms t; o.H(t, c); double sc_ = 1; E le = eval(am, c, t, sc_); scale = std::max(scale, sc_); auto g = dlnpsi(st, c, psi, free); for (auto &y : g) y = cj(y); f = memo.emplace(c, std::make_pair(le, g)).first; } e.push_back(f->second.first); byrank[r].push_back(f->second.first); O.push_back(&f->second.second); }
    if (weak) break; double tot = (double) e.size(); E em = 0; for (auto y : e) em += y / tot; F<E> om(x.size(), E(0)), g(x.size(), E(0)); for (size_t q = 0; q < O.size(); ++q) for (size_t i = 0; i < x.size(); ++i) { om[i] += (*O[q])[i] / tot; g[i] += cj(e[q]) * (*O[q])[i] / tot; } for (size_t i = 0; i < x.size(); ++i) g[i] -= cj(em) * om[i];
    std::vector<E> bins; size_t bs = std::max<size_t>(1, (size_t) std::sqrt((double) per)); for (auto &v : byrank) for (size_t b = 0; b < per / bs; ++b) { E m = 0; for (size_t i = 0; i < bs; ++i) m += v[b * bs + i] / (double) bs; bins.push_back(m); } double var = 0; for (auto b : bins) var += std::norm(b - em); double err = bins.size() > 1 ? std::sqrt(var / bins.size() / (bins.size() - 1)) : INFINITY;
    if (mode == 3) { em = E(0); for (size_t i = 0; i < x.size(); ++i) { g[i] = free[i] ? x[i] * 0.3 : E(0); em += std::norm(x[i]); } err = 0.01 * (k + 1); }
    tr.push_back({x, g, em, err}); at += per * sbs; double gn = std::sqrt(norm2(g)); if (k == conv_at && gn < 1e-6) { conv_at = size_t(-1); } if (k == conv_at) { gtol = gn * 1.5; etol = 0; break; }
    F<E> dir = g; if (algo == 1) { for (size_t i = 0; i < x.size(); ++i) { vel[i] = mom * vel[i] + g[i]; dir[i] = vel[i]; } } if (algo == 2 && mode != 3) { std::vector<F<E>> S(x.size(), F<E>(x.size(), E(0))); for (auto v : O) for (size_t i = 0; i < x.size(); ++i) { E a = (*v)[i] / tot; if (a == E(0)) continue; for (size_t j = 0; j < x.size(); ++j) S[i][j] += a * cj((*v)[j]); } for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) S[i][j] -= om[i] * cj(om[j]); for (size_t i = 0; i < x.size(); ++i) S[i][i] += shift; dir = solve(S, g); }
    double eta = sched ? lr * std::pow(gamma, (double) k) : lr; for (size_t i = 0; i < x.size(); ++i) x[i] -= eta * dir[i]; if (user_stop && k == stop_at) break; }
  if (weak || (mode == 3 && algo == 2)) { TrivialCase(); return; } if (conv_at != size_t(-1) && gtol > 0) { for (size_t k = 1; k + 1 < tr.size(); ++k) if (std::sqrt(norm2(tr[k].g)) < gtol * 1.0001) { TrivialCase(); return; } if (user_stop && stop_at < tr.size()) user_stop = false; }
  size_t low = 0; for (size_t k = 1; k < tr.size(); ++k) if (std::real(tr[k].en) < std::real(tr[low].en)) low = k; bool clear_low = true; for (size_t k = 0; k < tr.size(); ++k) if (k != low && std::real(tr[k].en) - std::real(tr[low].en) < 1e-7 * scale) clear_low = false;
  bool conv = gtol > 0 && tr.size() == conv_at + 1; std::string dir = "out", base = rng.coin(0.2) ? "" : rng.coin() ? "out/deep/tps_" : "mytps", cd = rng.coin(0.4) ? "" : rng.coin() ? "cfg" : "cfg/a/b", jl = rng.coin(0.3) ? "jl/x.jsonl" : ""; for (auto f : {"out", "cfg", "jl", "energy", "mytpsfinal", "mytpslowest", "start"}) fs::remove_all(f); if (mode == 1) s.Dump("start");
  static const char *mn[] = {"executor", "loaded", "api", "custom"}; static const char *an[] = {"SGD", "momentum", "SR"}; std::string sig = cat(name, " ", R, "x", C, " ", qname<Q>(), std::is_same_v<E, Z> ? " z " : " d ", mn[mode], " ", an[algo], " ranks=", ranks, " samples=", total, " warm=", w0, "x", sbs, " iterations=", iters, conv ? " converging" : "", user_stop ? " user-stop" : ""); Case(hash_str(sig) ^ rng()); Doing(sig); bool hear = mode != 2 && rng.coin(0.6); size_t every = rng.coin(0.2) ? 1 + rng.below(2) : 0;
  auto body = [&](int rank, std::ostream &os) { g_rank = rank; g_at = 0; g_hook = nullptr; MPI_Comm comm = MPI_COMM_WORLD; OptimizerParams::BaseParams bp(iters, etol, gtol, 1000, lr, sched ? std::make_unique<ExponentialDecayLR>(lr, gamma, 1) : nullptr); bp.jsonl_log_path = jl; StochasticReconfigurationParams sp; sp.cg_params = ConjugateGradientParams{2000, 1e-13, 0.0, 20}; sp.diag_shift = shift; AlgorithmParams ap = SGDParams(mom); if (algo == 2) ap = sp; OptimizerParams op(bp, ap); op.spike_recovery_params.enable_auto_recover = false; op.spike_recovery_params.enable_rollback = false; if (every) { op.checkpoint_params.every_n_steps = every; op.checkpoint_params.base_path = "out/ck"; }
    VMCPEPSOptimizerParams vp(op, MonteCarloParams(total, warm, sbs, config(R, C, init[rank]), warmed, cd), PEPSParams(trunc<PBC>()), ""); vp.tps_dump_base_name = base; std::vector<size_t> its; std::vector<double> its_e, lows; size_t fails = 0; std::streambuf *cb_ = std::cout.rdbuf(); std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf());
    SI<E, Q> fin, lowest; double me = 0; std::vector<E> en; std::vector<double> er, gn; double cur = 0;
    if (mode == 2) { auto r = VmcOptimize<E, Q, Scripted<E, Q, CT>, M>(vp, s, comm, model); fin = r.state; lowest = r.lowest_state; me = r.min_energy; en = r.energy_trajectory; er = r.energy_error_trajectory; gn = r.gradient_norms; cur = en.empty() ? 0 : std::real(en.back()); }
    else { auto x = mode == 1 ? X::CreateByLoadingTPS(vp, "start", comm, model) : std::make_unique<X>(vp, s, comm, model); typename X::OptimizerT::OptimizationCallback cb; if (hear) { cb.on_iteration = [&](size_t i, double e, double, double) { its.push_back(i); its_e.push_back(e); }; cb.on_lowest_state_found = [&](const SI<E, Q> &, double e) { lows.push_back(e); }; } if (user_stop) cb.should_stop = [&](size_t i, double, double) { return i == stop_at; }; if (hear || user_stop) x->SetOptimizationCallback(cb);
      size_t calls = 0; if (mode == 3) x->SetEnergyEvaluator([&](const SI<E, Q> &st) -> std::tuple<E, SI<E, Q>, double> { ++calls; auto f = rank == 0 ? flat(st, s) : F<E>(); E e = E(0); F<E> g; for (auto y : f) { e += std::norm(y); g.push_back(0.3 * y); } E tmp = e; MPI_Bcast(&tmp, sizeof(E), MPI_BYTE, 0, comm); e = tmp; return {e, rank == 0 ? unflat(g, s) : SI<E, Q>(), 0.01 * calls}; });
      x->Execute(); fin = x->GetState(); lowest = x->GetLowestState(); me = x->GetMinEnergy(); en = x->GetEnergyTrajectory(); er = x->GetEnergyErrorTrajectory(); gn = x->GetGradientNorms(); cur = x->GetCurrentEnergy(); fails = linf(flat(x->GetOptimizedState(), s), flat(fin, s)) != 0; }
    std::cout.rdbuf(cb_); putv(os, flat(fin, s)); putv(os, flat(lowest, s)); mp::put(os, me); putv(os, en); putv(os, er); putv(os, gn); mp::put(os, cur); mp::put(os, g_at); putv(os, its); putv(os, its_e); putv(os, lows); mp::put(os, fails); mp::put(os, (int) (fin.GetBoundaryCondition() == s.GetBoundaryCondition() && lowest.GetBoundaryCondition() == s.GetBoundaryCondition())); };
  auto r = vmpi::Run(mp::Opt(rng, ranks), body); Observe("mpi_events", r.events); if (!mp::Clean(r, "vmc")) return; Observe(cat("vmc_", mn[mode])); Observe(cat("vmc_", an[algo])); if (conv) Observe("vmc_converged");
  double tol = 1e-6 * scale; F<E> tail = conv ? tr.back().x : x, f0, l0; 
  for (int k = 0; k < ranks; ++k) { mp::In in(r.out[k]); auto fin = getv<E>(in), lo = getv<E>(in); double me = in.get<double>(); auto en = getv<E>(in); auto er = getv<double>(in), gn = getv<double>(in); double cur = in.get<double>(); size_t ga = in.get<size_t>(); auto its = getv<size_t>(in); auto ie = getv<double>(in), lows = getv<double>(in); size_t fails = in.get<size_t>(); int bc = in.get<int>(); if (!Check(!in.bad, "report", sig)) return; Check(bc && !fails, "result-metadata", sig);
    Check(ga == w0 + (mode == 3 ? 0 : tr.size() * per * sbs), "sweep-count", sig, " rank ", k, " made ", ga, " sweeps, expected ", w0 + (mode == 3 ? 0 : tr.size() * per * sbs));
    double d1 = off_by_scale(fin, tail); Check(d1 <= tol, "final-state", sig, " rank ", k, " off by ", d1); if (clear_low) { double d2 = off_by_scale(lo, tr[low].x); Check(d2 <= tol, "lowest-state", sig, " rank ", k, " off by ", d2, " expected evaluation ", low); } if (k == 0) { f0 = fin; l0 = lo; } Check(linf(fin, f0) == 0 && linf(lo, l0) == 0, "ranks-disagree", sig, " rank ", k); Observe("vmc_state");
    if (k) continue; Check(std::abs(me - std::real(tr[low].en)) <= tol, "min-energy", sig, " ", me, " expected ", std::real(tr[low].en)); if (Check(en.size() == tr.size() && er.size() == tr.size() && gn.size() == tr.size(), "trajectory-length", sig, " ", en.size(), " entries for ", tr.size(), " iterations")) { for (size_t i = 0; i < tr.size(); ++i) { Check(std::abs(std::real(en[i]) - std::real(tr[i].en)) <= tol, "energy-trajectory", sig, " iteration ", i, " ", en[i], " expected ", tr[i].en); double wg = std::sqrt(norm2(tr[i].g)); Check(std::abs(gn[i] - wg) <= 1e-5 * (wg + scale), "gradient-trajectory", sig, " iteration ", i, " ", gn[i], " expected ", wg); if (std::isfinite(tr[i].err) && tr[i].err > 1e-5 * scale) Check(std::abs(er[i] - tr[i].err) <= 1e-5 * scale, "error-trajectory", sig, " iteration ", i, " ", er[i], " expected ", tr[i].err); Observe("vmc_iteration"); } Check(std::abs(cur - std::real(tr.back().en)) <= tol, "current-energy", sig, " ", cur); }
    if (hear) { bool ok = its.size() == tr.size(); for (size_t i = 0; ok && i < its.size(); ++i) ok = its[i] == i && std::abs(ie[i] - std::real(tr[i].en)) <= tol; Check(ok, "user-callback", sig, " on_iteration called ", its.size(), " times for ", tr.size(), " iterations"); Check(!lows.empty() && std::abs(lows.back() - std::real(tr[low].en)) <= tol, "user-callback-lowest", sig, " on_lowest_state_found called ", lows.size(), " times"); Observe("vmc_callback"); }
    // files
    auto csv = [&] { std::vector<std::vector<double>> v; std::ifstream f("energy/energy_trajectory.csv"); std::string l; std::getline(f, l); while (std::getline(f, l)) { std::vector<double> q; std::stringstream ss(l); std::string t; while (std::getline(ss, t, ',')) q.push_back(std::strtod(t.c_str(), nullptr)); v.push_back(q); } return v; }(); if (Check(csv.size() == tr.size(), "csv-length", sig, " ", csv.size(), " lines for ", tr.size(), " iterations")) for (size_t i = 0; i < csv.size(); ++i) Check(csv[i].size() == 4 && csv[i][0] == (double) i && csv[i][1] == std::real(en[i]) && (csv[i][2] == er[i] || !std::isfinite(er[i])) && csv[i][3] == gn[i], "csv-value", sig, " line ", i); Observe("vmc_csv");
    std::string log = jl.empty() ? base.empty() ? "" : "energy/optimization_log.jsonl" : jl; if (!log.empty()) { std::string t = slurp(log); Check((size_t) std::count(t.begin(), t.end(), '\n') == tr.size(), "jsonl-lines", sig, " ", log, " has ", std::count(t.begin(), t.end(), '\n'), " lines for ", tr.size(), " iterations"); Observe("vmc_jsonl"); }
    if (base.empty()) Check(!fs::exists("final") && !fs::exists("lowest"), "dump-unwanted", sig); else for (int q = 0; q < 2; ++q) { SI<E, Q> back(R, C); bool ok = back.Load(base + (q ? "lowest" : "final")); Check(ok && linf(flat(back, s), q ? lo : fin) <= 1e-14 * (1 + std::sqrt(norm2(fin))), q ? "dump-lowest" : "dump-final", sig, ok ? " differs" : " cannot be loaded"); Observe("vmc_dump"); } }
  if (!cd.empty()) for (int k = 0; k < ranks; ++k) { Configuration cc(R, C); bool ok = cc.Load(cd, k); V want = mode == 3 ? (w0 ? g_script[k][w0 - 1] : init[k]) : g_script[k][(w0 + tr.size() * per * sbs - 1) % need]; Check(ok && cfgv(cc) == want, "configuration-dump", sig, " rank ", k, ok ? " differs" : " missing"); }
  for (auto f : {"out", "cfg", "jl", "energy", "mytpsfinal", "mytpslowest", "start"}) fs::remove_all(f); if (rng.coin(0.03)) Sample(sig); }
const std::vector<std::pair<size_t, size_t>> SH{{2, 2}, {2, 2}, {2, 3}, {3, 2}};
template<class E, class Q> void open(Rng &rng, uint64_t cases) { for (uint64_t k = 0; k < cases; ++k) { auto [R, C] = SH[rng.below(SH.size())]; double a = rng.uni(-1.5, 1.5), b = rng.uni(-1.5, 1.5), c2 = rng.uni(-1, 1); Ref ref; SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, BoundaryCondition::Open, std::is_same_v<Q, U1> ? 4 : 2, phys<Q>(rng, 2), Q(), 0.6)); s *= std::pow(10.0, rng.uni(-3, 3));
    if constexpr (std::is_same_v<Q, Triv>) if (rng.coin()) { ref.bond = [](Terms &t, const V &c, Dir, size_t i, size_t j) { t.push_back({c, c[i] == c[j] ? -1.0 : 1.0}); }; ref.onsite = [=](Terms &t, const V &c) { for (size_t i = 0; i < c.size(); ++i) { V d = c; d[i] = 1 - d[i]; t.push_back({d, -a}); } }; run<E, Q, BMPSContractor, false>(rng, "TFI", R, C, 2, s, oracle(ref, R, C), TransverseFieldIsingSquareOBC(a)); continue; }
    ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, a, b); }; ref.onsite = [=](Terms &t, const V &c) { t.push_back({c, -c2 * (c[0] - 0.5)}); }; run<E, Q, BMPSContractor, false>(rng, "XXZ", R, C, 2, s, oracle(ref, R, C), SquareSpinOneHalfXXZModelOBC(a, b, c2)); } }
template<class E> void fermion(Rng &rng, uint64_t cases) { for (uint64_t k = 0; k < cases; ++k) { auto [R, C] = SH[rng.below(SH.size())]; double t = rng.uni(-1.5, 1.5), t2 = rng.uni(-1, 1), Vn = rng.uni(-1, 1); SI<E, fZ2> s = SI<E, fZ2>::FromTPS(random_tps<E, fZ2>(rng, R, C, BoundaryCondition::Open, 2, phys<fZ2>(rng, 2), fZ2(), 0.6)); Ref ref; ref.diag = true; ref.bond = [=](Terms &o, const V &c, Dir d, size_t i, size_t j) { Fock f{SPINLESS, c.size()}; if (d == H || d == VV) { f.hop(o, c, i, j, t); o.push_back({c, Vn * f.dens(c, i) * f.dens(c, j)}); } else f.hop(o, c, i, j, t2); }; run<E, fZ2, BMPSContractor, false>(rng, "spinless", R, C, 2, s, oracle(ref, R, C), SquareSpinlessFermion(t, t2, Vn)); } }
template<class E> void torus(Rng &rng, uint64_t cases) { for (uint64_t k = 0; k < cases; ++k) { double a = rng.uni(-1.5, 1.5), b = rng.uni(-1.5, 1.5); SI<E, Triv> s = SI<E, Triv>::FromTPS(random_tps<E, Triv>(rng, 2, 2, BoundaryCondition::Periodic, 2, phys<Triv>(rng, 2), Triv(), 0.6)); Ref ref; ref.per = true; ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, a, b); }; run<E, Triv, TRGContractor, true>(rng, "XXZ-periodic", 2, 2, 2, s, oracle(ref, 2, 2), SquareSpinOneHalfJ1J2XXZModelPBC(a, b, 0, 0, 0)); } }
#if PART == 0
SECTION("open_d", 2, 8) { open<double, Triv>(rng, N(60, 700)); }
#endif
#if PART == 1
SECTION("open_z", 2, 8) { open<Z, Triv>(rng, N(60, 700)); }
#endif
#if PART == 2
SECTION("open_u", 1, 4) { open<double, U1>(rng, N(40, 400)); open<Z, U1>(rng, N(40, 400)); }
#endif
#if PART == 3
SECTION("fermion", 1, 4) { fermion<double>(rng, N(40, 400)); fermion<Z>(rng, N(40, 400)); }
#endif
#if PART == 4
SECTION("torus", 1, 4) { torus<double>(rng, N(30, 300)); torus<Z>(rng, N(30, 300)); }
#endif
// ---- refusals of the one-call API
#if PART == 4
SECTION("api_refusal", 1, 2) { using S = SI<double, Triv>; for (uint64_t it = 0; it < N(60, 600); ++it) { bool per = rng.coin(), trgpar = rng.coin(), meas = rng.coin(), only = rng.coin(); S s = S::FromTPS(random_tps<double, Triv>(rng, 2, 2, per ? BoundaryCondition::Periodic : BoundaryCondition::Open, 2, phys<Triv>(rng, 2), Triv(), 0.6)); std::string sig = cat(meas ? "measure" : "optimize", per ? " periodic" : " open", trgpar ? " TRG-params" : " BMPS-params", only ? " BMPS-only updater" : ""); Case(hash_str(sig)); Doing(sig); bool ok = per == trgpar && !(per && only); g_script = {{V{0, 1, 1, 0}}}; g_rank = 0; g_at = 0; g_hook = nullptr; MPI_Comm comm = MPI_COMM_WORLD; PEPSParams pp = trgpar ? PEPSParams(trunc<true>()) : PEPSParams(trunc<false>()); MonteCarloParams mc(2, 0, 1, config(2, 2, V{0, 1, 1, 0}), true); bool refused = false, other = false; std::string what; std::streambuf *cb_ = std::cout.rdbuf(); std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf());
    try { OptimizerParams::BaseParams bp(1, 0, 0, 100, 0.01, nullptr); VMCPEPSOptimizerParams vp(OptimizerParams(bp, SGDParams()), mc, pp, ""); vp.tps_dump_base_name = ""; MCMeasurementParams mp_(mc, pp, "am");
      if (per && !only) { SquareSpinOneHalfJ1J2XXZModelPBC m(1, 1, 0, 0, 0); if (meas) MonteCarloMeasure<double, Triv, Scripted<double, Triv, TRGContractor>, decltype(m)>(s, mp_, comm, m); else VmcOptimize<double, Triv, Scripted<double, Triv, TRGContractor>, decltype(m)>(vp, s, comm, m); }
      else { SquareSpinOneHalfXXZModelOBC m(1, 1, 0); if (only) { using U = MCUpdateSquareNNFullSpaceUpdate; if (meas) MonteCarloMeasure<double, Triv, U, decltype(m)>(s, mp_, comm, m, U(1)); else VmcOptimize<double, Triv, U, decltype(m)>(vp, s, comm, m, U(1)); } else if (meas) MonteCarloMeasure<double, Triv, Scripted<double, Triv, BMPSContractor>, decltype(m)>(s, mp_, comm, m); else VmcOptimize<double, Triv, Scripted<double, Triv, BMPSContractor>, decltype(m)>(vp, s, comm, m); } }
    catch (const std::invalid_argument &e) { refused = true; } catch (const std::exception &e) { other = true; what = e.what(); } std::cout.rdbuf(cb_);
    Check(!other && refused == !ok, "api-refusal", sig, other ? cat(" threw ", what) : refused ? " refused" : " accepted"); Observe("vmc_refusal"); fs::remove_all("am"); fs::remove_all("energy"); } }
#endif
