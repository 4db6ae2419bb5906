// C20: energy and gradient estimates, exact-summation and sampled, serial and multi-rank, against brute force.
#include "models.h"
#include "mp.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/heisenberg_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_measurer.h"
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
#ifndef PART
#define PART 0
#endif
using namespace vh; using namespace tn; using namespace qlpeps; using namespace md;
template<class E, class Q> using SI = SplitIndexTPS<E, Q>;
// flat parameter vector: every element of every component in site, component, element order
template<class E, class Q> std::vector<E> flat(const SI<E, Q> &s, const SI<E, Q> &shape) {
  std::vector<E> v; for (size_t r = 0; r < shape.rows(); ++r) for (size_t c = 0; c < shape.cols(); ++c) for (size_t k = 0; k < shape({r, c}).size(); ++k) { size_t n = shape({r, c})[k].size(); bool has = r < s.rows() && c < s.cols() && k < s({r, c}).size() && !s({r, c})[k].IsDefault() && s({r, c})[k].size() == n; for (size_t i = 0; i < n; ++i) v.push_back(has ? s({r, c})[k].At_(i) : E(0)); } return v; }
template<class E> double linf(const std::vector<E> &a, const std::vector<E> &b) { if (a.size() != b.size()) return INFINITY; double m = 0; for (size_t i = 0; i < a.size(); ++i) { double x = mag(a[i] - b[i]); if (!(x <= m)) m = x; } return m; }
template<class E> double norm2(const std::vector<E> &a) { double s = 0; for (auto &x : a) s += std::norm(x); return s; }
// d ln psi / d theta (plain, not conjugated), by linearity of psi in each element
template<class E, class Q> std::vector<E> dlnpsi(const SI<E, Q> &s, const V &c, E psi) {
  SI<E, Q> w = s; std::vector<E> o; size_t C = s.cols();
  for (size_t r = 0; r < s.rows(); ++r) for (size_t x = 0; x < C; ++x) for (size_t k = 0; k < s({r, x}).size(); ++k) { auto &t = w({r, x})[k]; size_t n = t.size(); if (c[r * C + x] != k) { o.insert(o.end(), n, E(0)); continue; }
    const auto keep = t; for (size_t i = 0; i < n; ++i) { bool free = keep.At_(i) != E(0); if (!free) { o.push_back(E(0)); continue; } for (auto &y : t.Data_()) y = E(0); t.Data_()[i] = E(1); o.push_back(amplitude<E, Q>(w, c) / psi); } t = keep; }
  return o; }
struct Oracle { std::function<void(Terms &, const V &)> H; };
inline Oracle oracle(Ref ref, size_t R, size_t C) { return {[=](Terms &t, const V &c) { for (auto &b : bonds(ref, R, C)) ref.bond(t, c, b.d, b.i, b.j); if (ref.onsite) ref.onsite(t, c); }}; }
template<class E> struct Smp { V c; E psi, e; double scale; };
// choose configurations with safe amplitudes; returns pool
template<class E, class Q> std::vector<Smp<E>> pool(Rng &rng, const SI<E, Q> &s, const Oracle &o, size_t d, size_t max, Amp<E> &amp, double &rms, bool sector) {
  size_t n = s.rows() * s.cols(); std::vector<V> all; if (std::pow(d, n) <= 300) all_cfg(n, d, [&](const V &c) { all.push_back(c); }); else for (int k = 0; k < 200; ++k) { V c(n); for (auto &x : c) x = rng.below(d); all.push_back(c); }
  if (sector) { size_t base = rng.below(all.size()); std::vector<size_t> want(d, 0); for (auto x : all[base]) ++want[x]; std::vector<V> f; for (auto &c : all) { std::vector<size_t> k(d, 0); for (auto x : c) ++k[x]; if (k == want) f.push_back(c); } all = f; }
  rms = 0; size_t cnt = 0; for (auto &c : all) { double a = std::norm(amp(c)); if (a > 0) { rms += a; ++cnt; } } if (cnt) rms = std::sqrt(rms / cnt);
  for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[rng.below(i)]); std::vector<Smp<E>> p;
  for (auto &c : all) { if (p.size() >= max) break; E a = amp(c); if (mag(a) < 0.03 * rms || rms == 0) continue; Terms t; o.H(t, c); double sc = 1; E e = eval(amp, c, t, sc); p.push_back({c, a, e, sc}); } return p; }
template<class E, class Q> void putv(std::ostream &os, const std::vector<E> &v) { mp::put(os, v.size()); for (auto &x : v) mp::put(os, x); }
template<class E> std::vector<E> getv(mp::In &in) { size_t n = in.get<size_t>(); std::vector<E> v; if (n > 10000000) { in.bad = true; return v; } for (size_t i = 0; i < n && !in.bad; ++i) v.push_back(in.get<E>()); return v; }
template<class E, class Q, bool PBC> auto trunc() { if constexpr (PBC) return TRGTruncateParams<double>::SVD(1, 1000, 0.0); else return BMPSTruncateParams<double>::SVD(1, 1000, 0.0); }
struct Prob { std::string sig; size_t R, C, d; };
// ---- exact summation
template<class E, class Q, bool PBC, class M> void exact(Rng &rng, const Prob &p, const SI<E, Q> &s, const Oracle &o, M model0) {
  Amp<E> amp{[&](const V &c) { return amplitude<E, Q>(s, c); }, {}}; double rms; auto pl = pool(rng, s, o, p.d, PBC ? 12 : 24, amp, rms, rng.coin()); if (pl.empty()) { TrivialCase(); return; }
  std::string sig = cat("exact ", p.sig, " n=", pl.size()); size_t n = p.R * p.C; double W = 0; E es = 0; auto f0 = flat(s, s); std::vector<E> so(f0.size(), 0), seo(f0.size(), 0); double sc = 0; std::vector<Configuration> cfgs;
  for (auto &x : pl) { double w = std::norm(x.psi); W += w; es += w * x.e; sc = std::max(sc, x.scale); auto g = dlnpsi(s, x.c, x.psi); for (size_t i = 0; i < g.size(); ++i) { so[i] += w * cj(g[i]); seo[i] += w * cj(x.e) * cj(g[i]); } cfgs.push_back(config(p.R, p.C, x.c)); }
  E en = es / W; std::vector<E> grad(so.size()); double gm = 0, om = 0; for (size_t i = 0; i < so.size(); ++i) { grad[i] = (seo[i] - cj(en) * so[i]) / W; gm = std::max(gm, mag(grad[i])); om = std::max({om, mag(seo[i]) / W, mag(en * so[i]) / W}); }
  double te = 1e-7 * sc + 1e-9, tg = 1e-6 * (om + sc) + 1e-9; int ranks = rng.coin(0.4) ? 1 : 2 + (int) rng.below(4); sig += cat(" ranks=", ranks); Case(hash_str(sig) ^ rng()); Doing(sig);
  // expected observables: recomputed one configuration at a time by the single-sample solver (decided by C19), combined here
  std::map<std::string, std::vector<E>> wo; for (size_t i = 0; i < pl.size(); ++i) { using Wf = std::conditional_t<PBC, TPSWaveFunctionComponent<E, Q, NoDress, TRGContractor>, TPSWaveFunctionComponent<E, Q>>; Wf wf(s, cfgs[i], trunc<E, Q, PBC>()); M m = model0; auto out = m.template EvaluateObservables<E, Q>(&s, &wf); for (auto &[k, v] : out) { auto &a = wo[k]; a.resize(std::max(a.size(), v.size()), E(0)); for (size_t j = 0; j < v.size(); ++j) a[j] += std::norm(pl[i].psi) / W * v[j]; } }
  SI<E, Q> junk = s; junk *= 3.7;
  auto body = [&](int rank, std::ostream &os) { M model = model0; const SI<E, Q> &mine = rank == 0 ? s : junk; 
    auto call = [&](const SI<E, Q> &st) { if constexpr (PBC) return ExactSumEnergyEvaluatorMPI<M, E, Q, TRGContractor>(st, cfgs, trunc<E, Q, PBC>(), model, p.R, p.C, MPI_COMM_WORLD, rank, ranks); else return ExactSumEnergyEvaluatorMPI<M, E, Q>(st, cfgs, trunc<E, Q, PBC>(), model, p.R, p.C, MPI_COMM_WORLD, rank, ranks); };
    auto [e, g, err] = call(mine); mp::put(os, e); mp::put(os, err); putv<E, Q>(os, flat(g, s)); mp::put(os, (int) (linf(flat(mine, s), rank == 0 ? f0 : flat(junk, s)) == 0)); mp::put(os, (int) g.GetBoundaryCondition());
    ObservableMap<E> obs; if constexpr (PBC) obs = ExactSumMeasurerMPI<M, E, Q, TRGContractor>(mine, cfgs, trunc<E, Q, PBC>(), model, p.R, p.C, MPI_COMM_WORLD, rank, ranks); else obs = ExactSumMeasurerMPI<M, E, Q>(mine, cfgs, trunc<E, Q, PBC>(), model, p.R, p.C, MPI_COMM_WORLD, rank, ranks);
    mp::put(os, obs.size()); for (auto &[k, v] : obs) { mp::put(os, k); putv<E, Q>(os, v); } };
  auto r = vmpi::Run(mp::Opt(rng, ranks), body); Observe("mpi_events", r.events); if (!mp::Clean(r, "exact")) return;
  for (int k = 0; k < ranks; ++k) { mp::In in(r.out[k]); E e = in.get<E>(); double err = in.get<double>(); auto g = getv<E>(in); int same = in.get<int>(); int bc = in.get<int>(); (void) bc; Check(same && !in.bad, "exact-input", sig, " rank ", k); Check(err == 0, "exact-error", sig, " error ", err);
    size_t no = in.get<size_t>(); std::map<std::string, std::vector<E>> obs; for (size_t q = 0; q < no && !in.bad; ++q) { auto key = in.str(); obs[key] = getv<E>(in); } if (k) continue;
    Check(mag(e - en) <= te, "exact-energy", sig, " got ", e, " want ", en); Observe("exact_energy"); double dg = linf(g, grad); Check(dg <= tg, "exact-gradient", sig, " off by ", dg, " tolerance ", tg); Observe("exact_gradient");
    for (auto &[key, v] : wo) { auto it = obs.find(key); if (!Check(it != obs.end() && it->second.size() == v.size(), "exact-observable-missing", sig, " ", key)) continue; double m = 1; for (auto x : v) m = std::max(m, mag(x)); Check(linf(it->second, v) <= 1e-8 * (m + sc), cat("exact-observable-", key), sig, " off by ", linf(it->second, v)); Observe("exact_observable"); } Check(obs.size() == wo.size(), "exact-observable-extra", sig); }
  if (rng.coin(0.05)) Sample(sig); (void) n;
}
// ---- finite differences on a full sector: the gradient is the derivative of the energy
template<class E, class Q, class M> void fd(Rng &rng, const Prob &p, const SI<E, Q> &s, const Oracle &o, M model, bool sector) {
  size_t n = p.R * p.C; std::vector<V> all; all_cfg(n, p.d, [&](const V &c) { all.push_back(c); });
  if (sector) { size_t base = rng.below(all.size()); std::vector<size_t> want(p.d, 0); for (auto x : all[base]) ++want[x]; std::vector<V> f; for (auto &c : all) { std::vector<size_t> k(p.d, 0); for (auto x : c) ++k[x]; if (k == want) f.push_back(c); } all = f; }
  auto energy = [&](const SI<E, Q> &st, double &mn, double &mx) { std::map<V, E> a; mn = INFINITY; mx = 0; for (auto &c : all) { E x = amplitude<E, Q>(st, c); a[c] = x; mn = std::min(mn, mag(x)); mx = std::max(mx, mag(x)); } E num = 0; double den = 0; for (auto &c : all) { den += std::norm(a[c]); Terms t; o.H(t, c); for (auto &[d, x] : t) { auto it = a.find(d); if (it != a.end()) num += cj(it->second) * x * a[c]; } } return num / den; };
  double mn, mx; E e0 = energy(s, mn, mx); if (!(mn >= 1e-3 * mx) || mx == 0) { TrivialCase(); return; } std::string sig = cat("derivative ", p.sig, " configs ", all.size()); Case(hash_str(sig) ^ rng()); Doing(sig);
  std::vector<Configuration> cfgs; for (auto &c : all) cfgs.push_back(config(p.R, p.C, c)); auto [e, g, err] = ExactSumEnergyEvaluatorMPI<M, E, Q>(s, cfgs, trunc<E, Q, false>(), model, p.R, p.C, MPI_COMM_WORLD, 0, 1);
  double hs = 1 + mag(e0); Check(mag(e - e0) <= 1e-7 * hs, "fd-energy", sig, " got ", e, " want ", e0); auto gf = flat(g, s), th = flat(s, s); double gn = std::sqrt(norm2(gf)), tn_ = std::sqrt(norm2(th));
  for (int q = 0; q < 3; ++q) { SI<E, Q> X = s; for (size_t r = 0; r < p.R; ++r) for (size_t c = 0; c < p.C; ++c) for (auto &t : X({r, c})) for (auto &y : t.Data_()) if (y != E(0)) y = rnd<E>(rng); auto xf = flat(X, s); double xn = std::sqrt(norm2(xf)); double h = 1e-4 * tn_ / xn; double u, v; E ep = energy(s + X * h, u, v), em = energy(s + X * (-h), u, v); double d = std::real(ep - em) / (2 * h); E ip = 0; for (size_t i = 0; i < xf.size(); ++i) ip += cj(xf[i]) * gf[i]; double want = 2 * std::real(ip);
    Check(std::abs(d - want) <= 2e-5 * (gn * xn + hs * xn / tn_), "fd-gradient", sig, " directional derivative ", d, " from gradient ", want); Observe("fd_direction"); }
}
// ---- sampled estimates with a scripted sweep: the chain visits known configurations
static std::vector<std::vector<V>> g_script; static size_t g_at = 0; static int g_rank = 0; static std::vector<std::vector<double>> g_rates;
template<class E, class Q, template<class, class> class CT> struct Scripted { void operator()(const SI<E, Q> &s, TPSWaveFunctionComponent<E, Q, NoDress, CT> &w, std::vector<double> &acc) { auto &sc = g_script[g_rank]; const V &c = sc[g_at % sc.size()]; acc = g_rates[g_at % g_rates.size()]; ++g_at; w = TPSWaveFunctionComponent<E, Q, NoDress, CT>(s, config(s.rows(), s.cols(), c), w.trun_para); } };
template<class E, class Q, template<class, class> class CT, bool PBC, class M> void sampled(Rng &rng, const Prob &p, const SI<E, Q> &s, const Oracle &o, M model0) {
  Amp<E> amp{[&](const V &c) { return amplitude<E, Q>(s, c); }, {}}; double rms; auto pl = pool(rng, s, o, p.d, 8, amp, rms, false); if (pl.empty()) { TrivialCase(); return; }
  int ranks = rng.coin(0.35) ? 1 : 2 + (int) rng.below(3); size_t total = 1 + rng.below(rng.coin(0.3) ? 60 : 14), per = (total + ranks - 1) / ranks, between = 1 + rng.below(2); bool sr = rng.coin();
  std::string sig = cat("sampled ", p.sig, " ranks=", ranks, " total=", total, " between=", between, sr ? " sr" : ""); Case(hash_str(sig) ^ rng()); Doing(sig);
  g_script.assign(ranks, {}); std::vector<std::vector<size_t>> idx(ranks); for (int r = 0; r < ranks; ++r) for (size_t k = 0; k < per * between; ++k) { size_t j = rng.below(pl.size()); g_script[r].push_back(pl[j].c); if (k % between == between - 1) idx[r].push_back(j); }
  size_t nr = rng.below(3); g_rates.clear(); for (size_t k = 0; k < per * between; ++k) { std::vector<double> v; for (size_t q = 0; q < nr; ++q) v.push_back(rng.u01()); g_rates.push_back(v); }
  std::vector<std::vector<E>> O; double sc = 0; for (auto &x : pl) { auto g = dlnpsi(s, x.c, x.psi); for (auto &y : g) y = cj(y); O.push_back(g); sc = std::max(sc, x.scale); } size_t np = O[0].size();
  SI<E, Q> junk = s; junk *= 1.9; MonteCarloParams mc(total, 3, between, config(p.R, p.C, pl[0].c), true); auto f0 = flat(s, s); bool energy_only = rng.coin(0.3);
  auto body = [&](int rank, std::ostream &os) { g_rank = rank; g_at = 0; M model = model0; MPI_Comm comm = MPI_COMM_WORLD; MonteCarloEngine<E, Q, Scripted<E, Q, CT>, CT> eng(s, mc, PEPSParams(trunc<E, Q, PBC>()), comm); size_t before = g_at; MCEnergyGradEvaluator<E, Q, Scripted<E, Q, CT>, M, CT> ev(eng, model, comm, sr);
    mp::put(os, before); mp::put(os, eng.SamplesPerRank()); if (energy_only) { auto r0 = ev.EvaluateEnergyOnly(rank == 0 ? s : junk); mp::put(os, g_at); g_at = 0; mp::put(os, r0.energy); mp::put(os, r0.energy_error); putv<double, Q>(os, r0.accept_rates_avg); }
    auto res = ev.Evaluate(rank == 0 ? s : junk); mp::put(os, g_at); mp::put(os, res.energy); mp::put(os, res.energy_error); mp::put(os, res.gradient_norm); putv<double, Q>(os, res.accept_rates_avg); putv<E, Q>(os, res.energy_samples); putv<E, Q>(os, flat(res.gradient, s)); mp::put(os, (int) res.Ostar_mean.has_value()); putv<E, Q>(os, res.Ostar_mean ? flat(*res.Ostar_mean, s) : std::vector<E>()); mp::put(os, res.Ostar_samples.size()); for (auto &x : res.Ostar_samples) putv<E, Q>(os, flat(x, s)); mp::put(os, (int) (linf(flat(eng.State(), s), f0) == 0)); mp::put(os, (int) (eng.State().GetBoundaryCondition() == s.GetBoundaryCondition())); };
  auto r = vmpi::Run(mp::Opt(rng, ranks), body); Observe("mpi_events", r.events); if (!mp::Clean(r, "sampled")) return;
  // oracle
  double tol = 1e-7 * sc + 1e-9; E mean_all = 0, binned = 0; size_t nb = 0; std::vector<E> bins; for (int k = 0; k < ranks; ++k) { size_t bs = std::max<size_t>(1, (size_t) std::sqrt((double) per)); for (size_t b = 0; b < per / bs; ++b) { E m = 0; for (size_t i = 0; i < bs; ++i) m += pl[idx[k][b * bs + i]].e; m /= (double) bs; bins.push_back(m); binned += m; ++nb; } for (auto j : idx[k]) mean_all += pl[j].e; } binned /= (double) nb; mean_all /= (double) (per * ranks);
  std::vector<E> om(np, 0), eo(np, 0); double omx = 0; for (int k = 0; k < ranks; ++k) for (auto j : idx[k]) for (size_t i = 0; i < np; ++i) { om[i] += O[j][i] / (double) (per * ranks); eo[i] += cj(pl[j].e) * O[j][i] / (double) (per * ranks); omx = std::max(omx, mag(O[j][i]) * (1 + sc)); }
  double tg = 1e-6 * omx + 1e-9; E e0 = 0; std::vector<double> acc(nr, 0); for (size_t k = 0; k < per; ++k) for (size_t q = 0; q < nr; ++q) acc[q] += g_rates[k * between + between - 1][q] / per;
  double var = 0; for (auto b : bins) var += std::norm(b - binned); double err = nb > 1 ? std::sqrt(var / nb / (nb - 1)) : INFINITY;
  for (int k = 0; k < ranks; ++k) { mp::In in(r.out[k]); Check(in.get<size_t>() == 0, "sampled-init-sweeps", sig, " the engine swept during construction"); Check(in.get<size_t>() == per, "sampled-per-rank", sig);
    if (energy_only) { size_t sw = in.get<size_t>(); E e = in.get<E>(); double er = in.get<double>(); auto a = getv<double>(in); Check(sw == per * between, "sampled-sweeps", sig, " energy-only swept ", sw); Check(mag(e - binned) <= tol || mag(e - mean_all) <= tol, "energy-only", sig, " got ", e, " want ", binned); Check(linf(a, acc) < 1e-12, "energy-only-acceptance", sig); Check(k ? er == 0 : true, "energy-only-error", sig); Observe("mc_energy_only"); }
    size_t sw = in.get<size_t>(); E e = in.get<E>(); double er = in.get<double>(), gn = in.get<double>(); auto a = getv<double>(in); auto es = getv<E>(in); auto g = getv<E>(in); int hm = in.get<int>(); auto omr = getv<E>(in); size_t ns = in.get<size_t>(); std::vector<std::vector<E>> sm; for (size_t i = 0; i < ns && !in.bad; ++i) sm.push_back(getv<E>(in)); int same = in.get<int>(), bc = in.get<int>(); if (!Check(!in.bad, "sampled-report", sig)) return;
    Check(sw == per * between, "sampled-sweeps", sig, " swept ", sw, " times, want ", per * between); if (k == 0) e0 = e; Check(e == e0, "sampled-energy-broadcast", sig, " rank ", k); Check(mag(e - binned) <= tol || mag(e - mean_all) <= tol, "sampled-energy", sig, " got ", e, " want ", binned, " or ", mean_all); Check(same && bc, "sampled-state", sig, " rank ", k, " state changed");
    std::vector<E> want; for (auto j : idx[k]) want.push_back(pl[j].e); Check(linf(es, want) <= tol, "sampled-local-energies", sig, " rank ", k); Check(linf(a, acc) < 1e-12, "sampled-acceptance", sig, " rank ", k); Check(hm == (int) sr && ns == (sr ? per : 0), "sampled-sr-presence", sig);
    for (size_t i = 0; i < ns; ++i) Check(linf(sm[i], O[idx[k][i]]) <= tg, "sampled-ostar", sig, " rank ", k, " sample ", i, " off by ", linf(sm[i], O[idx[k][i]])); if (ns) Observe("mc_ostar", ns); Observe("mc_energy");
    if (k) { Check(er == 0, "sampled-error-nonmaster", sig); continue; }
    std::vector<E> gw(np); for (size_t i = 0; i < np; ++i) gw[i] = eo[i] - cj(e) * om[i]; Check(linf(g, gw) <= tg, "sampled-gradient", sig, " off by ", linf(g, gw), " tolerance ", tg); Observe("mc_gradient"); Check(std::abs(gn - norm2(g)) <= 1e-9 * (1 + norm2(g)) || std::abs(gn - std::sqrt(norm2(g))) <= 1e-9 * (1 + norm2(g)), "sampled-gradient-norm", sig, " ", gn, " vs ", norm2(g));
    if (sr) Check(linf(omr, om) <= tg, "sampled-ostar-mean", sig, " off by ", linf(omr, om)); if (nb > 1 && err > 1e-6 * sc) Check(std::abs(er - err) <= 1e-6 * (err + sc) , "sampled-error", sig, " got ", er, " want ", err); }
  if (rng.coin(0.05)) Sample(sig);
}
const std::vector<std::pair<size_t, size_t>> SH{{2, 2}, {2, 2}, {2, 3}, {3, 2}};
template<class E, class Q> void boson(Rng &rng, uint64_t cases, int what) {
  for (uint64_t k = 0; k < cases; ++k) { auto [R, C] = SH[rng.below(SH.size())]; auto ph = phys<Q>(rng, 2); SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, BoundaryCondition::Open, R * C > 4 ? 2 : 3, ph, Q(), rng.coin() ? 0.6 : 0.0)); auto cf = [&] { return rng.uni(-1.5, 1.5); };
    auto go = [&](const char *nm, auto m, const Ref &ref, bool sector) { Prob p{cat(nm, " ", R, "x", C, " ", qname<Q>(), std::is_same_v<E, Z> ? " z" : " d"), R, C, 2}; auto o = oracle(ref, R, C); if (what == 0) exact<E, Q, false>(rng, p, s, o, m); else if (what == 1) sampled<E, Q, BMPSContractor, false>(rng, p, s, o, m); else fd<E, Q>(rng, p, s, o, m, sector); };
    double a = cf(), b = cf(), c2 = cf(), d2 = cf(); Ref ref;
    if (std::is_same_v<Q, Triv> && rng.coin(0.3)) { ref.bond = [](Terms &t, const V &c, Dir, size_t i, size_t j) { t.push_back({c, c[i] == c[j] ? -1.0 : 1.0}); }; ref.onsite = [=](Terms &t, const V &c) { for (size_t i = 0; i < c.size(); ++i) { V d = c; d[i] = 1 - d[i]; t.push_back({d, -a}); } }; if constexpr (std::is_same_v<Q, Triv>) go("TFI", TransverseFieldIsingSquareOBC(a), ref, false); }
    else if (rng.coin()) { ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, a, b); }; ref.onsite = [=](Terms &t, const V &c) { t.push_back({c, -c2 * (c[0] - 0.5)}); }; go("XXZ", SquareSpinOneHalfXXZModelOBC(a, b, c2), ref, true); }
    else { ref.diag = true; ref.bond = [=](Terms &t, const V &c, Dir d, size_t i, size_t j) { if (d == H || d == VV) spin_bond(t, c, i, j, a, b); else spin_bond(t, c, i, j, c2, d2); }; go("J1J2", SquareSpinOneHalfJ1J2XXZModelOBC(a, b, c2, d2, 0.0), ref, true); } } }
template<class E> void fermion(Rng &rng, uint64_t cases, int what) {
  for (uint64_t k = 0; k < cases; ++k) { auto [R, C] = SH[rng.below(SH.size())]; bool tj = rng.coin(); double t = rng.uni(-1.5, 1.5), t2 = rng.uni(-1, 1), J = rng.uni(-1, 1), Vn = rng.uni(-1, 1), mu = rng.uni(-1, 1); auto ph = phys<fZ2>(rng, tj ? 3 : 2); SI<E, fZ2> s = SI<E, fZ2>::FromTPS(random_tps<E, fZ2>(rng, R, C, BoundaryCondition::Open, R * C > 4 ? 2 : 3, ph, fZ2(), 0.6)); Ref ref; ref.diag = true;
    auto go = [&](const char *nm, auto m, size_t d) { Prob p{cat(nm, " ", R, "x", C, std::is_same_v<E, Z> ? " z" : " d"), R, C, d}; auto o = oracle(ref, R, C); if (what == 0) exact<E, fZ2, false>(rng, p, s, o, m); else if (what == 1) sampled<E, fZ2, BMPSContractor, false>(rng, p, s, o, m); else fd<E, fZ2>(rng, p, s, o, m, true); };
    if (!tj) { ref.bond = [=](Terms &o, const V &c, Dir d, size_t i, size_t j) { Fock f{SPINLESS, c.size()}; if (d == H || d == VV) { f.hop(o, c, i, j, t); o.push_back({c, Vn * f.dens(c, i) * f.dens(c, j)}); } else f.hop(o, c, i, j, t2); }; go("spinless", SquareSpinlessFermion(t, t2, Vn), 2); }
    else { ref.bond = [=](Terms &o, const V &c, Dir d, size_t i, size_t j) { Fock f{TJ, c.size()}; if (d == H || d == VV) { f.hop(o, c, i, j, t); f.exch(o, c, i, j, J); o.push_back({c, Vn * f.dens(c, i) * f.dens(c, j)}); } else f.hop(o, c, i, j, t2); }; ref.onsite = [=](Terms &o, const V &c) { Fock f{TJ, c.size()}; double e = 0; for (size_t i = 0; i < c.size(); ++i) e -= mu * f.dens(c, i); o.push_back({c, e}); }; go("tJV", SquaretJVModel(t, t2, J, Vn, mu), 3); } } }
template<class E, class Q> void torus(Rng &rng, uint64_t cases, bool mc) {
  for (uint64_t k = 0; k < cases; ++k) { auto ph = phys<Q>(rng, 2); SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, 2, 2, BoundaryCondition::Periodic, 2, ph, Q(), 0.6)); double a = rng.uni(-1.5, 1.5), b = rng.uni(-1.5, 1.5); Ref ref; ref.per = true; ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, a, b); }; Prob p{cat("XXZ-periodic 2x2 ", qname<Q>(), std::is_same_v<E, Z> ? " z" : " d"), 2, 2, 2}; auto o = oracle(ref, 2, 2); HeisenbergSquarePBC m(a, b); if (mc) sampled<E, Q, TRGContractor, true>(rng, p, s, o, m); else exact<E, Q, true>(rng, p, s, o, m); } }
#if PART == 0
SECTION("exact_b", 1, 4) { boson<double, Triv>(rng, N(40, 400), 0); boson<Z, Triv>(rng, N(40, 400), 0); }
SECTION("exact_u", 1, 4) { boson<double, U1>(rng, N(30, 300), 0); boson<Z, U1>(rng, N(30, 300), 0); }
SECTION("exact_torus", 1, 4) { torus<double, Triv>(rng, N(15, 150), false); torus<Z, Triv>(rng, N(15, 150), false); }
SECTION("fd_b", 1, 4) { boson<double, Triv>(rng, N(20, 200), 2); boson<Z, Triv>(rng, N(20, 200), 2); boson<Z, U1>(rng, N(15, 150), 2); }
SECTION("mc_b", 2, 4) { boson<double, Triv>(rng, N(60, 600), 1); boson<Z, Triv>(rng, N(60, 600), 1); }
SECTION("mc_u", 1, 4) { boson<double, U1>(rng, N(30, 300), 1); boson<Z, U1>(rng, N(30, 300), 1); }
SECTION("mc_torus", 1, 4) { torus<double, Triv>(rng, N(15, 150), true); torus<Z, Triv>(rng, N(15, 150), true); }
#else
SECTION("exact_f", 2, 8) { fermion<double>(rng, N(20, 200), 0); fermion<Z>(rng, N(20, 200), 0); }
SECTION("fd_f", 1, 4) { fermion<double>(rng, N(120, 1200), 2); fermion<Z>(rng, N(120, 1200), 2); }
SECTION("mc_f", 2, 8) { fermion<double>(rng, N(30, 300), 1); fermion<Z>(rng, N(30, 300), 1); }
#endif
