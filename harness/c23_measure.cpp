// C23: measurement runs: which samples enter the results, and what the result files, metadata and queries say about them.
#include "mp.h"
#include "scripted.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h"
#include <filesystem>
#include <fstream>
#include <csignal>
using namespace sc; using namespace vh; namespace fs = std::filesystem;
struct Obs { std::string key; size_t len = 1; std::vector<size_t> shape; std::vector<std::string> labels; std::string coords; bool described = true; double off = 0; };
struct Spec { std::vector<Obs> obs; bool cached = true; };
template<class E> E make(double a, double b) { if constexpr (std::is_same_v<E, double>) return a; else return E(a, b); }
template<class E> std::vector<E> value(const Obs &o, const V &c) { uint64_t h = hash_str(o.key); for (auto x : c) h = h * 1000003 + x + 1; Rng g(h); std::vector<E> v; for (size_t i = 0; i < o.len; ++i) { double a = g.uni(-1, 1), b = g.uni(-1, 1); v.push_back(make<E>(o.off + a, b)); } return v; }
template<class E> std::pair<E, double> psi_of(const V &c) { uint64_t h = 77; for (auto x : c) h = h * 1000003 + x + 1; Rng g(h); double a = g.uni(0.5, 2), b = g.uni(-1, 1), e = g.uni(0, 1e-3); return {make<E>(a, b), e}; }
struct Probe : ModelMeasurementSolver<Probe> {
  Spec sp; Probe() = default; explicit Probe(const Spec &s) : sp(s) {}
  template<class E, class Q, class W> ObservableMap<E> EvaluateObservables(const SI<E, Q> *, W *w) { ObservableMap<E> m; V c = cfgv(w->config); for (auto &o : sp.obs) m[o.key] = value<E>(o, c); if (sp.cached) { auto p = psi_of<E>(c); this->template SetLastPsiSummary<E>(p.first, p.second); } return m; }
  std::vector<ObservableMeta> DescribeObservables(size_t, size_t) const { std::vector<ObservableMeta> v; for (auto &o : sp.obs) if (o.described) { ObservableMeta m{o.key, "d", o.shape, o.labels}; if (!o.coords.empty()) { std::string t = o.coords; m.coord_generator = [t](size_t ly, size_t lx) { return t + std::to_string(ly) + ":" + std::to_string(lx); }; } v.push_back(m); } return v; }
  template<class E, class Q, class W> std::vector<E> BuildPsiList(const SI<E, Q> *, W *w) const { return std::vector<E>(1, psi_of<E>(cfgv(w->config)).first); } };
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
std::vector<std::string> fields(const std::string &l) { std::vector<std::string> v(1); int d = 0; for (char ch : l) { if (ch == '(') ++d; if (ch == ')') --d; if (ch == ',' && !d) v.emplace_back(); else v.back() += ch; } return v; }
std::vector<std::vector<std::string>> csv(const std::string &f, bool &ok) { std::ifstream i(f); ok = i.is_open(); std::vector<std::vector<std::string>> r; std::string l; while (std::getline(i, l)) r.push_back(fields(l)); return r; }
template<class E> bool num(const std::string &s, E &v) { std::istringstream is(s); is >> v; return !is.fail() && is.peek() == EOF; }
template<class E> void stat_of(const std::vector<E> &x, E &m, double &e) { m = E(0); for (auto &v : x) m += v; m /= (double) x.size(); double s = 0; for (auto &v : x) s += std::norm(v - m); e = x.size() > 1 ? std::sqrt(s / x.size() / (x.size() - 1)) : 0; }

template<class E, class Q, template<class, class> class CT, bool PBC> void runs(Rng &rng, uint64_t cases) {
  using M = MCPEPSMeasurer<E, Q, Scripted<E, Q, CT>, Probe, CT>;
  for (uint64_t it = 0; it < cases; ++it) {
    size_t R = 2, C = PBC ? 2 : 2 + rng.below(2), n = R * C, d = 2 + rng.below(2); SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, PBC ? BoundaryCondition::Periodic : BoundaryCondition::Open, 2, phys<Q>(rng, d), Q(), 0.7));
    int ranks = 1 + (int) rng.below(5); size_t total = 1 + rng.below(rng.coin(0.2) ? 60 : 14), per = (total + ranks - 1) / ranks, warm = rng.below(4), sbs = 1 + rng.below(3); bool warmed = rng.coin(0.3), distr = rng.coin(0.5); size_t w0 = warmed ? 0 : warm;
    Spec sp; sp.cached = rng.coin(0.7); bool has_energy = rng.coin(0.9); if (has_energy) sp.obs.push_back({"energy", 1, {}, {}, "", rng.coin(0.8), rng.uni(-3, 3)});
    if (rng.coin(0.7)) sp.obs.push_back({"grid", n, {R, C}, {"y", "x"}, rng.coin() ? "coords of grid " : "", true, rng.uni(-3, 3)});
    if (rng.coin(0.5)) { size_t l = 1 + rng.below(12); sp.obs.push_back({"line", l, {l}, {"i"}, rng.coin() ? "line " : "", true, 0}); }
    if (rng.coin(0.4)) { size_t l = n * (n + 1) / 2; sp.obs.push_back({"pairs", l, {l}, {"pair_packed_upper_tri"}, "", true, 100}); }
    if (rng.coin(0.3)) sp.obs.push_back({"unlisted", 1 + rng.below(5), {}, {}, "", false, 0});
    if (rng.coin(0.3)) { size_t a = 1 + rng.below(4), b = 1 + rng.below(4); sp.obs.push_back({"rect", a * b, {a, b}, {}, "", true, 0}); }
    if (rng.coin(0.3)) { size_t a = 1 + rng.below(3), b = 1 + rng.below(3), c = 1 + rng.below(3); sp.obs.push_back({"cube", a * b * c, {a, b, c}, {}, "", true, 0}); }
    bool mismatch = rng.coin(0.06); if (mismatch) { sp.obs.push_back(rng.coin() ? Obs{"bad", 3, {2, 2}, {}, "", true, 0} : rng.coin() ? Obs{"bad", 3, {2}, {}, "", true, 0} : Obs{"bad", 0, {0}, {}, "", true, 0}); if (sp.obs.back().len == 0) sp.obs.back().len = 1; }
    std::vector<size_t> pps; for (size_t i = 0; i < d + rng.below(2); ++i) pps.push_back(rng.below(3)); bool shortp = distr && rng.coin(0.1); if (shortp) pps.resize(rng.below(d));
    // scripted samples; ranks visit different configurations
    g_script.assign(ranks, {}); size_t sweeps = w0 + per * sbs; std::vector<V> init; double amin = 1e300, amax = 0; for (int r = 0; r < ranks; ++r) { size_t L = std::min<size_t>(sweeps ? sweeps : 1, 1 + rng.below(40)); for (size_t i = 0; i < L; ++i) { V c(n); for (auto &x : c) x = rng.below(d); g_script[r].push_back(c); } V c(n); for (auto &x : c) x = rng.below(d); init.push_back(c); }
    for (auto &v : g_script) for (auto &c : v) { double a = mag(amplitude<E, Q>(s, c)); amin = std::min(amin, a); amax = std::max(amax, a); } for (auto &c : init) { double a = mag(amplitude<E, Q>(s, c)); amin = std::min(amin, a); amax = std::max(amax, a); } if (!(amin > 1e-8 * amax)) continue;
    g_rates = {std::vector<double>(2, 0.5)}; 
    int sig_rank = -1; size_t sig_at = 0; int sig_no = rng.coin() ? SIGINT : SIGTERM; if (rng.coin(0.35) && sweeps) { sig_rank = (int) rng.below(ranks); sig_at = rng.below(sweeps); }
    size_t got = per; if (sig_rank >= 0) got = sig_at < w0 ? 0 : std::min(per, (sig_at - w0) / sbs + 1);
    std::string dir = cat("run", it), dump = rng.coin(0.3) ? "" : rng.coin() ? cat(dir, "/a/b") : dir, cdump = rng.coin(0.4) ? "" : rng.coin() ? cat(dir, "_cfg/deep/configuration") : cat(dir, "_cfg"); fs::remove_all(dir); fs::remove_all(dir + "_cfg"); if (dump.empty()) for (auto f : {"stats", "samples", "metadata.txt"}) fs::remove_all(f); std::string base = dump.empty() ? "./" : dump + "/"; bool load = rng.coin(0.25); std::string tps = cat("tps", it); if (load) s.Dump(tps);
    std::string sig = cat("measure ", R, "x", C, " d=", d, " ", qname<Q>(), PBC ? " periodic" : "", " ranks=", ranks, " samples=", total, " warm=", w0, "x", sbs, sig_rank >= 0 ? cat(" signal at sweep ", sig_at, " of rank ", sig_rank) : "", load ? " loaded" : "", distr ? " distribution" : "", mismatch ? " mismatch" : ""); Case(hash_str(sig) ^ rng()); Doing(sig);
    auto body = [&](int rank, std::ostream &os) { g_rank = rank; g_at = 0; g_hook = [&](size_t i) { if (rank == sig_rank && i == sig_at) std::raise(sig_no); }; MPISignalGuard::Reset(); MPI_Comm comm = MPI_COMM_WORLD;
      MCMeasurementParams mp_(MonteCarloParams(total, warm, sbs, config(R, C, init[rank]), warmed, cdump), PEPSParams(trunc<PBC>()), dump); mp_.particle_number_distribution.enabled = distr; mp_.particle_number_distribution.particles_per_state = pps;
      std::unique_ptr<M> m; int refused = 0; try { if (load) m = M::CreateByLoadingTPS(tps, mp_, comm, Probe(sp)); else m = std::make_unique<M>(s, mp_, comm, Probe(sp)); } catch (const std::invalid_argument &) { refused = 1; } mp::put(os, refused); if (refused) return;
      mp::put(os, (int) m->GetEnergyEstimate().has_value()); std::cout.setstate(std::ios::failbit); int threw = 0; if (mismatch && ranks == 1) { try { m->Execute(); } catch (const std::runtime_error &) { threw = 1; } } else m->Execute(); mp::put(os, threw); mp::put(os, g_at); putv(os, cfgv(m->GetCurrentConfiguration()));
      auto e = m->GetEnergyEstimate(); mp::put(os, (int) e.has_value()); mp::put(os, e ? e->energy : E(0)); mp::put(os, e ? e->stderr : 0.0); auto o = m->OutputEnergy(); mp::put(os, o.first); mp::put(os, o.second);
      std::vector<std::string> keys; for (auto &kv : m->ObservableRegistry()) keys.push_back(kv.first); std::sort(keys.begin(), keys.end()); mp::put(os, keys.size()); for (auto &k : keys) { mp::put(os, k); putv(os, m->ObservableRegistry().at(k).first); putv(os, m->ObservableRegistry().at(k).second); } };
    auto r = vmpi::Run(mp::Opt(rng, ranks), body); Observe("mpi_events", r.events);
    if (mismatch && got && !shortp) { mp::In in(r.out[0]); bool bad = !r.clean(); if (!bad && ranks == 1) { in.get<int>(); in.get<int>(); bad = in.get<int>() == 1; } Check(bad, "shape-mismatch-accepted", sig); Observe("measure_mismatch"); fs::remove_all(dir); fs::remove_all(dir + "_cfg"); fs::remove_all(tps); continue; }
    if (!mp::Clean(r, "measure")) continue; bool skip = false;
    std::map<std::string, std::pair<std::vector<E>, std::vector<double>>> want; auto sample = [&](int k, size_t i) -> const V & { return g_script[k][(w0 + (i + 1) * sbs - 1) % g_script[k].size()]; };
    auto obs = sp.obs; size_t nb = 0; auto count = [&](const V &c) { size_t t = 0; for (auto x : c) t += pps[x]; return t; }; if (distr && !shortp) { nb = n * *std::max_element(pps.begin(), pps.end()) + 1; obs.push_back({"particle_number_distribution", nb, {nb}, {}, "", true, 0}); }
    if (!shortp && got) for (auto &o : obs) { auto &w = want[o.key]; w.first.resize(o.len); w.second.resize(o.len); std::vector<std::vector<E>> means(o.len); for (int k = 0; k < ranks; ++k) { std::vector<E> m(o.len, E(0)); for (size_t i = 0; i < got; ++i) { std::vector<E> v; if (o.key == "particle_number_distribution") { v.assign(nb, E(0)); v[count(sample(k, i))] = E(1); } else v = value<E>(o, sample(k, i)); for (size_t j = 0; j < o.len; ++j) m[j] += v[j] / (double) got; } for (size_t j = 0; j < o.len; ++j) means[j].push_back(m[j]); } for (size_t j = 0; j < o.len; ++j) stat_of(means[j], w.first[j], w.second[j]); }
    auto near = [&](E a, E b) { return mag(a - b) <= 1e-10 * (1 + mag(b)); }; auto neare = [&](double a, double b) { return std::abs(a - b) <= 1e-9 + 1e-6 * b; };
    for (int k = 0; k < ranks && !skip; ++k) { mp::In in(r.out[k]); int refused = in.get<int>(); Check(refused == (int) shortp, "distribution-refusal", sig, " rank ", k, refused ? " refused " : " accepted ", pps.size(), " entries for dimension ", d); if (refused || shortp) { skip = true; Observe("measure_refused"); continue; }
      Check(in.get<int>() == 0, "energy-before-run", sig); in.get<int>(); size_t at = in.get<size_t>(); Check(at == w0 + got * sbs, sig_rank >= 0 ? "stop-point" : "sweep-count", sig, " rank ", k, " made ", at, " sweeps, expected ", w0 + got * sbs); auto c = getv<size_t>(in); if (at) Check(c == g_script[k][(at - 1) % g_script[k].size()], "final-configuration", sig);
      int has = in.get<int>(); E e = in.get<E>(); double er = in.get<double>(); E oe = in.get<E>(); double oer = in.get<double>(); size_t nk = in.get<size_t>(); if (k == 0) { Check(nk == want.size(), "registry-keys", sig, " ", nk, " keys, expected ", want.size()); Check(has == (has_energy && got > 0), "energy-available", sig); if (has) { auto &w = want["energy"]; Check(near(e, w.first[0]) && near(oe, w.first[0]), "energy-value", sig, " ", e, "/", oe, " expected ", w.first[0]); if (ranks > 1) Check(neare(er, w.second[0]) && neare(oer, w.second[0]), "energy-error", sig, " ", er, " expected ", w.second[0]); Observe("measure_energy"); }
        for (size_t q = 0; q < nk && !in.bad; ++q) { std::string key = in.str(); auto v = getv<E>(in); auto ev = getv<double>(in); if (!Check(want.count(key) && want[key].first.size() == v.size(), "registry-entry", sig, " ", key, " has ", v.size(), " entries")) continue; for (size_t j = 0; j < v.size(); ++j) { Check(near(v[j], want[key].first[j]), "registry-mean", sig, " ", key, "[", j, "] ", v[j], " expected ", want[key].first[j]); if (ranks > 1) Check(j < ev.size() && neare(ev[j], want[key].second[j]), "registry-error", sig, " ", key, "[", j, "] ", j < ev.size() ? ev[j] : -1, " expected ", want[key].second[j]); Observe("measure_registry"); } } }
      Check(!in.bad, "output", sig);
      if (!cdump.empty()) { Configuration cc(R, C); bool ok = cc.Load(cdump, k); Check(ok && cfgv(cc) == c, "configuration-dump", sig, " rank ", k, ok ? " differs" : " missing"); Observe("measure_config"); }
      if (distr) { bool ok; auto t = csv(cat(base, "samples/particle_number_rank", k, ".csv"), ok); if (Check(ok && t.size() == got + 1, "particle-samples", sig, " rank ", k, " has ", t.size(), " lines for ", got, " samples")) for (size_t i = 0; i < got; ++i) { size_t id, v; Check(t[i + 1].size() == 2 && num(t[i + 1][0], id) && num(t[i + 1][1], v) && id == i && v == count(sample(k, i)), "particle-sample", sig, " rank ", k, " sample ", i, " expected ", count(sample(k, i))); Observe("measure_particles"); } } }
    if (!skip) {
      std::map<std::string, std::string> md_; { std::ifstream f(base + "metadata.txt"); std::string l; while (std::getline(f, l)) { auto p = l.find(' '); md_[l.substr(0, p)] = p == l.npos ? "" : l.substr(p + 1); } }
      size_t reg = distr; for (auto &o : sp.obs) reg += o.described; auto meta = [&](const char *k, const std::string &w) { Check(md_[k] == w, cat("metadata-", k), sig, " says '", md_[k], "' expected '", w, "'"); Observe("measure_metadata"); };
      meta("total_samples_requested", cat(total)); meta("samples_per_rank", cat(per)); meta("samples_scheduled_total", cat(per * ranks)); meta("samples_collected_master", cat(got)); meta("samples_collected_total", cat(got * ranks)); meta("mpi_size", cat(ranks)); meta("warmup_sweeps", cat(warm)); meta("sweeps_between_samples", cat(sbs)); meta("initial_config_warmed_up", warmed ? "true" : "false"); meta("lx", cat(C)); meta("ly", cat(R)); meta("boundary_condition", PBC ? "Periodic" : "Open"); meta("peps_bond_dimension", cat(s.GetMaxBondDimension())); meta("registered_observables", cat(reg)); meta("particle_number_distribution_enabled", distr ? "true" : "false"); if (!cdump.empty()) meta("config_dump_path", cdump);
      if (distr) { std::string l; for (size_t i = 0; i < pps.size(); ++i) l += cat(i ? "," : "", pps[i]); meta("particle_number_particles_per_state", l); }
      for (auto &o : obs) if (want.count(o.key)) { auto &w = want[o.key]; std::vector<E> m; std::vector<double> er; bool ok = true, good = true, real = o.key == "particle_number_distribution"; auto val = [&](const std::string &f) { if (real) { double x = 0; good = good && num(f, x); return E(x); } E x(0); good = good && num(f, x); return x; };
        if (o.described && o.shape.size() == 2) { auto t = csv(base + "stats/" + o.key + "_mean.csv", ok); bool ok2; auto u = csv(base + "stats/" + o.key + "_stderr.csv", ok2); ok = ok && ok2 && t.size() == o.shape[0] && u.size() == o.shape[0]; if (ok) for (size_t y = 0; y < t.size(); ++y) { ok = ok && t[y].size() == o.shape[1] && u[y].size() == o.shape[1]; for (auto &f : t[y]) m.push_back(val(f)); for (auto &f : u[y]) { double x = 0; good = good && num(f, x); er.push_back(x); } } }
        else { auto t = csv(base + "stats/" + o.key + ".csv", ok); ok = ok && t.size() == o.len + 1; if (ok) for (size_t j = 0; j < o.len; ++j) { size_t id; double x = 0; ok = ok && t[j + 1].size() == 3 && num(t[j + 1][0], id) && id == j && num(t[j + 1][2], x); if (!ok) break; m.push_back(val(t[j + 1][1])); er.push_back(x); } }
        if (!Check(ok && good && m.size() == o.len && er.size() == o.len, "stats-file", sig, " file of ", o.key, " missing or malformed")) continue; for (size_t j = 0; j < o.len; ++j) { Check(near(m[j], w.first[j]), "stats-mean", sig, " ", o.key, "[", j, "] ", m[j], " expected ", w.first[j]); if (ranks > 1) Check(neare(er[j], w.second[j]), "stats-error", sig, " ", o.key, "[", j, "] ", er[j], " expected ", w.second[j]); Observe("measure_stats"); }
        if (!o.coords.empty() && o.described) Check(slurp(base + "stats/" + o.key + "_coords.txt") == cat(o.coords, R, ":", C), "coords-file", sig, " ", o.key); if (!o.labels.empty() && o.labels[0] == "pair_packed_upper_tri") Check(fs::exists(base + "stats/" + o.key + "_index_map.txt"), "index-map", sig); }
      bool ok; auto t = csv(base + "samples/psi.csv", ok); if (Check(ok && t.size() == got + 1, "psi-file", sig, " has ", t.size(), " lines for ", got, " samples")) for (size_t i = 0; i < got; ++i) { auto p = psi_of<E>(sample(0, i)); double re = 0, im = 0, e = 0; size_t id; Check(t[i + 1].size() == 4 && num(t[i + 1][0], id) && id == i && num(t[i + 1][1], re) && num(t[i + 1][2], im) && num(t[i + 1][3], e), "psi-line", sig); Check(std::abs(re - std::real(p.first)) <= 1e-4 && std::abs(im - std::imag(p.first)) <= 1e-4 && std::abs(e - (sp.cached ? p.second : 0)) <= 1e-5 * (1e-3 + e), "psi-value", sig, " sample ", i, " ", re, ",", im, ",", e); Observe("measure_psi"); }
      if (sig_rank >= 0) Observe(got == 0 ? "measure_stop_warm" : got < per ? "measure_stop" : "measure_stop_late"); }
    fs::remove_all(dir); fs::remove_all(dir + "_cfg"); fs::remove_all(tps); if (rng.coin(0.02)) Sample(sig);
  } }
#if PART == 0
SECTION("runs_d", 2, 8) { runs<double, Triv, BMPSContractor, false>(rng, N(250, 2500)); }
SECTION("runs_z", 2, 8) { runs<Z, Triv, BMPSContractor, false>(rng, N(250, 2500)); }
SECTION("runs_p", 1, 4) { runs<double, Triv, TRGContractor, true>(rng, N(120, 1200)); runs<Z, Triv, TRGContractor, true>(rng, N(120, 1200)); }
SECTION("load_failure", 1, 1) { using M = MCPEPSMeasurer<double, Triv, Scripted<double, Triv, BMPSContractor>, Probe, BMPSContractor>; g_script = {{V(4, 0)}}; g_rank = 0; g_hook = nullptr;
  for (uint64_t k = 0; k < N(30, 200); ++k) { Case(k); MPI_Comm comm = MPI_COMM_WORLD; MCMeasurementParams p(MonteCarloParams(2, 1, 1, config(2, 2, V(4, 0)), false), PEPSParams(trunc<false>()), "lf"); std::string path = cat("absent", k); if (rng.coin()) fs::create_directories(path); bool th = false; try { auto m = M::CreateByLoadingTPS(path, p, comm, Probe()); } catch (const std::runtime_error &) { th = true; } Check(th, "load-failure-accepted", "CreateByLoadingTPS of a missing state succeeded"); Observe("measure_load_failure"); fs::remove_all(path); } }
#endif
// ---- replica test
template<class E, class Q> void replicas(Rng &rng, uint64_t cases) {
  using M = MCPEPSMeasurer<E, Q, Scripted<E, Q, BMPSContractor>, Probe, BMPSContractor>;
  for (uint64_t it = 0; it < cases; ++it) { size_t R = 2, C = 2 + rng.below(2), n = R * C; SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, BoundaryCondition::Open, 2, phys<Q>(rng, 2), Q(), 0.7)); int ranks = 1 + (int) rng.below(5); size_t total = 1 + rng.below(60), per = (total + ranks - 1) / ranks, sbs = 1 + rng.below(2); std::vector<V> init; g_script.assign(ranks, {}); double amin = 1e300, amax = 0;
    for (int r = 0; r < ranks; ++r) { auto draw = [&] { V c(n); for (auto &x : c) x = rng.below(2); double a = mag(amplitude<E, Q>(s, c)); amin = std::min(amin, a); amax = std::max(amax, a); return c; }; init.push_back(draw()); for (size_t i = 0; i < per * sbs; ++i) g_script[r].push_back(draw()); } if (!(amin > 1e-8 * amax)) continue; g_rates = {{0.5}}; bool cd = rng.coin(); std::string cdump = cat("rcfg", it);
    std::string sig = cat("replica ", R, "x", C, " ranks=", ranks, " samples=", total); Case(hash_str(sig) ^ rng()); Doing(sig); fs::remove_all("replica_overlap"); auto ov = [n](const Configuration &a, const Configuration &b) { double t = 0; auto x = cfgv(a), y = cfgv(b); for (size_t i = 0; i < n; ++i) t += (double) (1 + i) * (double) x[i] - 0.37 * (double) (2 + i) * (double) y[i]; return t; };
    auto r = vmpi::Run(mp::Opt(rng, ranks), [&](int rank, std::ostream &os) { g_rank = rank; g_at = 0; g_hook = nullptr; g_seen.clear(); g_record = true; MPI_Comm comm = MPI_COMM_WORLD; MCMeasurementParams p(MonteCarloParams(total, 0, sbs, config(R, C, init[rank]), true, cd ? cdump : ""), PEPSParams(trunc<false>()), "x"); M m(s, p, comm, Probe()); std::cout.setstate(std::ios::failbit); m.ReplicaTest(ov); mp::put(os, g_at); putv(os, g_seen.empty() ? V() : g_seen[0]); }); Observe("mpi_events", r.events); if (!mp::Clean(r, "replica")) continue;
    for (int k = 0; k < ranks; ++k) { mp::In in(r.out[k]); size_t at = in.get<size_t>(); auto first = getv<size_t>(in); Check(at == per * sbs, "replica-sweeps", sig, " made ", at); Check(first == init[0], "replica-start", sig, " rank ", k, " started from ", vec2s(first), " expected ", vec2s(init[0])); std::ifstream f(cat("replica_overlap/replica_overlap", k)); std::vector<double> v; double x; while (f >> x) v.push_back(x); if (!Check(v.size() == per, "replica-file", sig, " rank ", k, " has ", v.size(), " overlaps, expected ", per)) continue; int from = (k + ranks - 1) % ranks; for (size_t i = 0; i < per; ++i) { size_t j = (i + 1) * sbs - 1; double w = ov(config(R, C, g_script[k][j]), config(R, C, g_script[from][j])); Check(std::abs(v[i] - w) <= 1e-4 * (1 + std::abs(w)), "replica-overlap", sig, " rank ", k, " sample ", i, " ", v[i], " expected ", w); Observe("measure_replica"); }
      if (cd) { Configuration cc(R, C); bool ok = cc.Load(cdump, k); Check(ok && cfgv(cc) == g_script[k].back(), "replica-dump", sig); } } fs::remove_all(cdump); fs::remove_all("replica_overlap"); } }
#if PART == 1
SECTION("replica", 1, 4) { replicas<double, Triv>(rng, N(120,1200)); replicas<Z, Triv>(rng, N(40, 400)); }
#endif
// ---- every shipped model: what it describes is what it delivers
template<class E, class Q, template<class, class> class CT, bool PBC, class Mod> void model(Rng &rng, const char *name, Mod mod, Index<Q> p, size_t d, size_t R, size_t C) {
  using M = MCPEPSMeasurer<E, Q, Scripted<E, Q, CT>, Mod, CT>; size_t n = R * C; SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, PBC ? BoundaryCondition::Periodic : BoundaryCondition::Open, 2, p, Q(), 0.7)); int ranks = 1 + (int) rng.below(3); size_t per = 1 + rng.below(3); g_script.assign(ranks, {}); double amin = 1e300, amax = 0; size_t tries = 0; std::vector<V> pool; while (pool.size() < 4 && tries++ < 400) { V c(n); for (auto &x : c) x = rng.below(d); double a = mag(amplitude<E, Q>(s, c)); if (a > 1e-3 * std::max(amax, 1e-3)) { pool.push_back(c); amax = std::max(amax, a); } } if (pool.size() < 2) return; for (auto &v : g_script) for (size_t i = 0; i < per; ++i) v.push_back(pool[rng.below(pool.size())]); V init = pool[0];
  std::string sig = cat("model ", name, " ", R, "x", C, " ranks=", ranks); Case(hash_str(sig) ^ rng()); Doing(sig); std::string dir = cat("mod_", name); fs::remove_all(dir);
  auto r = vmpi::Run(mp::Opt(rng, ranks), [&](int rank, std::ostream &os) { g_rank = rank; g_at = 0; g_hook = nullptr; MPI_Comm comm = MPI_COMM_WORLD; MCMeasurementParams pr(MonteCarloParams(per * ranks, 0, 1, config(R, C, init), true), PEPSParams(trunc<PBC>()), dir); M m(s, pr, comm, mod); std::cout.setstate(std::ios::failbit); m.Execute(); auto meta = mod.DescribeObservables(R, C); if (rank == 0) { std::vector<std::string> keys; for (auto &kv : m.ObservableRegistry()) keys.push_back(kv.first); mp::put(os, keys.size()); for (auto &k : keys) { const ObservableMeta *me = nullptr; size_t copies = 0; for (auto &x : meta) if (x.key == k) { me = &x; ++copies; } mp::put(os, k); mp::put(os, m.ObservableRegistry().at(k).first.size()); mp::put(os, (int) copies); putv(os, me ? me->shape : std::vector<size_t>()); } size_t missing = 0; for (auto &x : meta) if (!m.ObservableRegistry().count(x.key)) ++missing; mp::put(os, missing); } }); if (!mp::Clean(r, cat("model-", name))) return;
  mp::In in(r.out[0]); size_t nk = in.get<size_t>(); Check(nk > 0, "model-empty", sig); for (size_t i = 0; i < nk && !in.bad; ++i) { std::string k = in.str(); size_t len = in.get<size_t>(); int copies = in.get<int>(); auto sh = getv<size_t>(in); size_t want = 1; for (auto x : sh) want *= x; Check(copies == 1, cat("model-described-", name), sig, " ", k, " described ", copies, " times"); if (!sh.empty()) Check(want == len, cat("model-shape-", name), sig, " ", k, " has ", len, " values, described ", want); bool flat_ = fs::exists(dir + "/stats/" + k + ".csv"), mat = fs::exists(dir + "/stats/" + k + "_mean.csv") && fs::exists(dir + "/stats/" + k + "_stderr.csv"); Check(sh.size() == 2 ? mat : flat_, "model-file", sig, " ", k, " has no result file"); Observe("measure_model"); } fs::remove_all(dir); }
template<class E> void models(Rng &rng, uint64_t cases) { for (uint64_t k = 0; k < cases; ++k) { size_t R = 2 + rng.below(3), C = 2 + rng.below(3); if (R * C > 12) C = 2; auto t = phys<Triv>(rng, 2);
    model<E, Triv, BMPSContractor, false>(rng, "XXZ", SquareSpinOneHalfXXZModelOBC(0.7, 1, 0.1), t, 2, R, C); model<E, Triv, BMPSContractor, false>(rng, "J1J2", SquareSpinOneHalfJ1J2XXZModelOBC(1, 1, 0.3, 0.4, 0), t, 2, R, C); model<E, Triv, BMPSContractor, false>(rng, "Tri", SpinOneHalfTriHeisenbergSqrPEPS(), t, 2, R, C); model<E, Triv, BMPSContractor, false>(rng, "TriJ1J2", SpinOneHalfTriJ1J2HeisenbergSqrPEPS(0.2), t, 2, R, C); model<E, Triv, BMPSContractor, false>(rng, "TFI", TransverseFieldIsingSquareOBC(0.8), t, 2, R, C); model<E, Triv, TRGContractor, true>(rng, "TFIp", TransverseFieldIsingSquarePBC(0.8), t, 2, 2, 2); model<E, Triv, TRGContractor, true>(rng, "J1J2p", SquareSpinOneHalfJ1J2XXZModelPBC(1, 1, 0.3, 0.4, 0), t, 2, 2, 2);
    { SquareSpinOneHalfXXZModelOBC m(1, 1, 0); m.SetEnableStructureFactor(true); model<E, Triv, BMPSContractor, false>(rng, "XXZsf", m, t, 2, 2, C); SpinOneHalfTriHeisenbergSqrPEPS q; q.SetEnableStructureFactor(true); model<E, Triv, BMPSContractor, false>(rng, "Trisf", q, t, 2, 2, C); }
    size_t FR = 2 + rng.below(2), FC = 2 + rng.below(2); SquaretJModelMixIn::enable_sc_measurement = rng.coin(); Idx<fZ2> hb({Sct<fZ2>(fZ2(0), 1), Sct<fZ2>(fZ2(1), 2), Sct<fZ2>(fZ2(0), 1)}, qlten::IN);
    model<E, fZ2, BMPSContractor, false>(rng, "Spinless", SquareSpinlessFermion(1, 0.2, 0.3), phys<fZ2>(rng, 2), 2, FR, FC); model<E, fZ2, BMPSContractor, false>(rng, "Hubbard", SquareHubbardModel(1, 4, 0.5), hb, 4, FR, FC); model<E, fZ2, BMPSContractor, false>(rng, "tJ", SquaretJNNModel(1, 0.4, 0.1), phys<fZ2>(rng, 3), 3, FR, FC); model<E, fZ2, BMPSContractor, false>(rng, "tJNNN", SquaretJNNNModel(1, 0.2, 0.4, 0.1), phys<fZ2>(rng, 3), 3, FR, FC); model<E, fZ2, BMPSContractor, false>(rng, "tJV", SquaretJVModel(1, 0.2, 0.4, 0.3, 0.1), phys<fZ2>(rng, 3), 3, FR, FC); } }
#if PART == 1
SECTION("models_d", 2, 6) { models<double>(rng, N(15, 150)); }
#endif
#if PART == 2
SECTION("models_z", 1, 6) { models<Z>(rng, N(15, 150)); }
#endif
