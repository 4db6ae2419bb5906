// C21: sampling engine start-up: validation and rescue of initial configurations, normalisation, warm-up, refusals.
#include "mp.h"
#include "scripted.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_engine.h"
using namespace sc; using namespace vh;
template<class E, class Q, template<class, class> class CT, bool PBC> void startup(Rng &rng, uint64_t cases) {
  for (uint64_t it = 0; it < cases; ++it) {
    size_t R = 2, C = PBC ? 2 : 2 + rng.below(2), n = R * C; SI<E, Q> s = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, PBC ? BoundaryCondition::Periodic : BoundaryCondition::Open, 2, phys<Q>(rng, 2), Q(), 0.5)); double bigness = std::pow(10.0, rng.uni(-6, 6)); s *= bigness;
    // configurations with c[z]=1 vanish exactly when that component is zero
    size_t z = rng.below(n); bool kill = rng.coin(0.6); if (kill) for (auto &x : s({z / C, z % C})[1].Data_()) x = E(0);
    int ranks = 1 + (int) rng.below(5); std::vector<V> init; std::vector<double> a; for (int r = 0; r < ranks; ++r) { V c(n); for (auto &x : c) x = rng.below(2); init.push_back(c); a.push_back(mag(amplitude<E, Q>(s, c))); }
    ConfigurationRescueParams rp; rp.enabled = rng.coin(0.7); double ref = *std::max_element(a.begin(), a.end()); if (rng.coin(0.4) && ref > 0) rp.amplitude_min_threshold = ref * std::pow(10.0, -rng.uni(0, 3)); if (rng.coin(0.2) && ref > 0) rp.amplitude_max_threshold = std::max(ref * rng.uni(0.3, 3), rp.amplitude_min_threshold * 1.5);
    bool unsafe = false; std::vector<char> ok; for (auto x : a) { ok.push_back(x > rp.amplitude_min_threshold && x < rp.amplitude_max_threshold); for (double t : {rp.amplitude_min_threshold, rp.amplitude_max_threshold}) if (std::abs(x / t - 1) < 1e-6) unsafe = true; if (x > 0 && x < 1e-12 * std::pow(bigness, n)) unsafe = true; } if (unsafe) continue;
    size_t warm = rng.below(5); std::vector<char> warmed; bool same_flag = rng.coin(0.5); for (int r = 0; r < ranks; ++r) warmed.push_back(same_flag ? (r == 0 ? (char) rng.coin() : warmed[0]) : (char) rng.coin()); size_t total = 1 + rng.below(20);
    bool all = true, any = false; for (auto x : ok) { all = all && x; any = any || x; } bool must_abort = !all && (!rp.enabled || !any); int src = -1; for (int r = ranks; r-- > 0;) if (ok[r]) src = r;
    std::string sig = cat("startup ", R, "x", C, " ", qname<Q>(), PBC ? " periodic" : "", " ranks=", ranks, " ok="); for (auto x : ok) sig += x ? '1' : '0'; sig += cat(rp.enabled ? " rescue" : " no-rescue", " min=", rp.amplitude_min_threshold, " scale=", bigness); Case(hash_str(sig) ^ rng()); Doing(sig);
    // warm-up visits only safe configurations
    V safe; if (src >= 0) safe = init[src]; else safe = init[0]; g_script.assign(ranks, {safe}); g_rates.clear(); g_hook = nullptr; size_t ex0 = rng.below(3);
    auto body = [&](int rank, std::ostream &os) { g_rank = rank; g_at = 0; MPI_Comm comm = MPI_COMM_WORLD; MonteCarloParams mc(total, warm, 1 + ex0, config(R, C, init[rank]), warmed[rank]);
      MonteCarloEngine<E, Q, Scripted<E, Q, CT>, CT> eng(s, mc, PEPSParams(trunc<PBC>()), comm, Scripted<E, Q, CT>(), rp);
      putv(os, cfgv(eng.WavefuncComp().config)); mp::put(os, eng.WavefuncComp().amplitude); putv(os, flat(eng.State(), s)); mp::put(os, g_at); mp::put(os, (int) (eng.State().GetBoundaryCondition() == s.GetBoundaryCondition())); mp::put(os, eng.SamplesPerRank()); mp::put(os, eng.TotalSamples()); mp::put(os, eng.Ly()); mp::put(os, eng.Lx()); mp::put(os, eng.Rank()); mp::put(os, eng.MpiSize());
      int rc = eng.WarmUp(); mp::put(os, rc); mp::put(os, g_at); mp::put(os, eng.WavefuncComp().amplitude); putv(os, flat(eng.State(), s)); size_t b = g_at; eng.WarmUp(); mp::put(os, g_at - b); b = g_at; eng.StepSweep(); mp::put(os, g_at - b); b = g_at; eng.StepSweep(3); mp::put(os, g_at - b); putv(os, cfgv(eng.WavefuncComp().config)); eng.RefreshWavefunctionComponent(); putv(os, cfgv(eng.WavefuncComp().config)); };
    auto r = vmpi::Run(mp::Opt(rng, ranks), body); Observe("mpi_events", r.events); if (must_abort) { Check(ranks == 1 && !r.clean() || r.fate == vmpi::F_ABORT, "invalid-start-accepted", sig, " ", r.describe()); Observe("engine_abort"); continue; }
    // after warm-up the engine demands a legal amplitude: the scripted configuration is legal before normalisation, so judge by scaled value
    double top = 0; for (int k = 0; k < ranks; ++k) top = std::max(top, ok[k] ? a[k] : a[src]); std::vector<double> aw; bool warm_bad = false; for (int k = 0; k < ranks; ++k) { bool does = !(warmed[k] && ok[k]) && warm > 0; double now = (does ? a[src] : ok[k] ? a[k] : a[src]) / top; aw.push_back(now); if (!(now > rp.amplitude_min_threshold * (1 + 1e-6) && now < rp.amplitude_max_threshold * (1 - 1e-6))) warm_bad = true; }
    if (warm_bad) { bool sharp = false; for (auto x : aw) if (x > rp.amplitude_min_threshold * (1 - 1e-6) && x < rp.amplitude_min_threshold * (1 + 1e-6)) sharp = true; if (!sharp) Check(r.fate == vmpi::F_ABORT || (ranks == 1 && !r.clean()), "illegal-after-warmup-accepted", sig, " ", r.describe()); Observe("engine_warm_abort"); continue; }
    if (!mp::Clean(r, "startup")) continue; std::vector<E> st0, st1; double wtop = *std::max_element(aw.begin(), aw.end());
    for (int k = 0; k < ranks; ++k) { mp::In in(r.out[k]); auto c = getv<size_t>(in); E amp = in.get<E>(); auto st = getv<E>(in); size_t at = in.get<size_t>(); int bc = in.get<int>(); size_t per = in.get<size_t>(), tot = in.get<size_t>(), ly = in.get<size_t>(), lx = in.get<size_t>(); int rk = in.get<int>(), ms = in.get<int>();
      Check(c == (ok[k] ? init[k] : init[src]), "rescue-configuration", sig, " rank ", k, " has ", vec2s(c), " expected ", vec2s(ok[k] ? init[k] : init[src])); Observe(ok[k] ? "engine_kept" : "engine_rescued"); Check(at == 0 && bc, "startup-metadata", sig); Check(per == (total + ranks - 1) / ranks && tot == total && ly == R && lx == C && rk == k && ms == ranks, "engine-accessors", sig, " per rank ", per, " total ", tot);
      double want = (ok[k] ? a[k] : a[src]) / top; Check(std::abs(mag(amp) - want) <= 1e-8, "normalisation", sig, " rank ", k, " |psi| ", mag(amp), " expected ", want); if (k == 0) st0 = st; Check(linf(st, st0) == 0, "state-differs", sig, " rank ", k);
      auto f0 = flat(s, s); double f = std::pow(top, -1.0 / n), m = 0; for (size_t i = 0; i < f0.size() && i < st.size(); ++i) m = std::max(m, mag(st[i] - f * f0[i]) / (1e-300 + f * bigness * 10)); Check(st.size() == f0.size() && m < 1e-10, "normalised-state", sig, " not a uniform rescaling, off by ", m);
      int rc = in.get<int>(); size_t sweeps = in.get<size_t>(); E amp2 = in.get<E>(); auto st2 = getv<E>(in); size_t again = in.get<size_t>(), one = in.get<size_t>(), three = in.get<size_t>(); auto c1 = getv<size_t>(in), c2 = getv<size_t>(in); if (!Check(!in.bad && rc == 0, "warmup-result", sig)) break; bool does = !(warmed[k] && ok[k]); Check(sweeps == (does ? warm : 0), "warmup-sweeps", sig, " rank ", k, " made ", sweeps, " warm-up sweeps, expected ", does ? warm : 0); Check(again == 0, "warmup-twice", sig, " second WarmUp swept ", again); Check(one == 1 + ex0 && three == 3, "step-sweeps", sig, " StepSweep made ", one, " and ", three); Check(std::abs(mag(amp2) - aw[k] / wtop) <= 1e-7, "normalisation-after-warmup", sig, " |psi| ", mag(amp2), " expected ", aw[k] / wtop); Check(c1 == c2, "refresh-configuration", sig); Observe("engine_warm"); if (k == 0) st1 = st2; Check(linf(st2, st1) == 0, "state-differs", sig, " after warm-up, rank ", k); }
    if (rng.coin(0.03)) Sample(sig);
  } }
SECTION("startup_b", 2, 8) { startup<double, Triv, BMPSContractor, false>(rng, N(150, 1500)); startup<Z, Triv, BMPSContractor, false>(rng, N(100, 1000)); }
SECTION("startup_p", 1, 4) { startup<double, Triv, TRGContractor, true>(rng, N(80, 800)); startup<Z, Triv, TRGContractor, true>(rng, N(50, 500)); }
SECTION("refusals", 1, 2) {
  for (uint64_t it = 0; it < N(200, 2000); ++it) { bool per = rng.coin(), trg = rng.coin(), trgpar = rng.coin(); size_t R = 2 + rng.below(6), C = rng.coin(0.6) ? R : 2 + rng.below(6); std::string sig = cat(R, "x", C, per ? " periodic" : " open", trg ? " TRG" : " BMPS", trgpar ? " TRG-params" : " BMPS-params"); Case(hash_str(sig)); Doing(sig); SI<double, Triv> s = SI<double, Triv>::FromTPS(random_tps<double, Triv>(rng, R, C, per ? BoundaryCondition::Periodic : BoundaryCondition::Open, 1, phys<Triv>(rng, 2), Triv(), 0.5));
    auto side = [](size_t n) { while (n % 2 == 0) n /= 2; return n == 1 || n == 3; }; bool ok = trg ? per && trgpar && R == C && side(R) : !per && !trgpar; PEPSParams pp = trgpar ? PEPSParams(trunc<true>()) : PEPSParams(trunc<false>()); MonteCarloParams mc(4, 1, 1, config(R, C, V(R * C, 0)), false); g_script = {{V(R * C, 0)}}; g_rank = 0; bool refused = false, other = false; MPI_Comm comm = MPI_COMM_WORLD;
    try { if (trg) MonteCarloEngine<double, Triv, Scripted<double, Triv, TRGContractor>, TRGContractor> e(s, mc, pp, comm); else MonteCarloEngine<double, Triv, Scripted<double, Triv, BMPSContractor>, BMPSContractor> e(s, mc, pp, comm); } catch (const std::invalid_argument &) { refused = true; } catch (const std::exception &) { other = true; }
    Check(!other && refused == !ok, "engine-refusal", sig, refused ? " refused" : other ? " other exception" : " accepted"); Observe("engine_refusal"); } }
