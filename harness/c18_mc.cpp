// C18: Monte-Carlo sweeps keep the tracked amplitude exact, conserve what they promise, and leave |psi|^2 invariant.
#include "tn.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
using namespace vh; using namespace tn; using namespace qlpeps;
template<class U> struct Seeded : U { explicit Seeded(unsigned s) { this->random_engine_.seed(s); } };
using V = std::vector<size_t>;
enum Rule { EXCHANGE, FULL, HUBBARD };
V charge(Rule rule, const V &c, size_t d) { V q; if (rule == EXCHANGE) { q.assign(d, 0); for (auto x : c) ++q[x]; } else if (rule == HUBBARD) { q = {0, 0}; for (auto x : c) { q[0] += x == 0 || x == 1; q[1] += x == 0 || x == 2; } } return q; }
V flat(const Configuration &c, size_t R, size_t C) { V v; for (size_t r = 0; r < R; ++r) for (size_t k = 0; k < C; ++k) v.push_back(c({r, k})); return v; }
template<class E, class Q> Idx<Q> hub() { return Idx<Q>({Sct<Q>(Q(0), 1), Sct<Q>(Q(1), 2), Sct<Q>(Q(0), 1)}, qlten::IN); }
template<class E, class Q, class U, bool PBC> void run(Rng &rng, Rule rule, std::vector<std::pair<size_t, size_t>> shapes, size_t d, uint64_t states, uint64_t samples, double force = 0) {
  using S = SplitIndexTPS<E, Q>; using T = qlten::QLTensor<E, Q>;
  using W = std::conditional_t<PBC, TPSWaveFunctionComponent<E, Q, NoDress, TRGContractor>, TPSWaveFunctionComponent<E, Q>>;
  auto tp = [] { if constexpr (PBC) return TRGTruncateParams<double>::SVD(1, 1000, 0.0); else return BMPSTruncateParams<double>::SVD(1, 1000, 0.0); }();
  for (uint64_t st = 0, attempt = 0; st < states && attempt < 400; ++st, ++attempt) {
    auto [R, C] = shapes[rng.below(shapes.size())]; size_t n = R * C, D = n > 6 ? 2 : 3; Idx<Q> p = phys<Q>(rng, d); if constexpr (std::is_same_v<Q, fZ2>) if (rule == HUBBARD) p = hub<E, Q>();
    S s = S::FromTPS(random_tps<E, Q>(rng, R, C, PBC ? BoundaryCondition::Periodic : BoundaryCondition::Open, D, p, Q(), force ? force : rng.coin(0.7) ? rng.coin(0.4) ? 2.0 : 0.7 : 0.0));
    // the state space of one sector with its exact weights
    std::map<V, std::map<V, double>> sect; std::map<V, E> amp; size_t space = 1; for (size_t i = 0; i < n; ++i) space *= d;
    bool whole = space <= 600, complete = whole; std::map<V, size_t> sector_size;
    if (whole) all_cfg(n, d, [&](const V &c) { if constexpr (Q::IsFermionic()) { int par = 0; for (auto x : c) par += rule == HUBBARD ? (x == 1 || x == 2) : x + 1 < d; if (par % 2) return; } ++sector_size[charge(rule, c, d)]; E a = amplitude<E, Q>(s, c); if (mag(a) > 0) { sect[charge(rule, c, d)][c] = std::norm(a); amp[c] = a; } });
    else { V c(n); do for (auto &x : c) x = rng.below(d); while ([&] { if constexpr (Q::IsFermionic()) { int par = 0; for (auto x : c) par += rule == HUBBARD ? (x == 1 || x == 2) : x + 1 < d; return par % 2 == 1; } else return false; }());
      std::set<V> todo; if (rule == EXCHANGE) { V q = c; std::sort(q.begin(), q.end()); do todo.insert(q); while (std::next_permutation(q.begin(), q.end()) && todo.size() < 400); complete = todo.size() < 400; }
      else { todo.insert(c); auto want = charge(rule, c, d); for (int k = 0; k < 20000 && todo.size() < 400; ++k) { V q(n); for (auto &x : q) x = rng.below(d); if (charge(rule, q, d) == want) todo.insert(q); } }
      for (auto &q : todo) { E a = amplitude<E, Q>(s, q); if (mag(a) > 0) { sect[charge(rule, q, d)][q] = std::norm(a); amp[q] = a; } } }
    if (sect.empty()) { --st; continue; }
    auto best = sect.begin(); for (auto it = sect.begin(); it != sect.end(); ++it) if (it->second.size() > best->second.size() && (rng.coin(0.8) || best->second.size() < 2)) best = it;
    auto &pi = best->second; if (pi.size() < 3) { --st; continue; }
    double tot = 0, mx = 0; for (auto &[c, w] : pi) { tot += w; mx = std::max(mx, w); } double scale = std::sqrt(tot / pi.size());
    std::string sig = cat(R, "x", C, PBC ? " periodic" : " open", " d", d, " ", qname<Q>(), std::is_same_v<E, Z> ? " z " : " d ", pi.size(), " states"); Case(hash_str(sig) ^ rng()); Doing(sig);
    std::vector<const V *> keys; std::vector<double> cum; { double a = 0; for (auto &[c, w] : pi) { keys.push_back(&c); a += w / tot; cum.push_back(a); } }
    unsigned seed = (unsigned) rng(); Seeded<U> up(seed); std::map<V, size_t> hist; std::set<V> seen; bool dead = false; uint64_t done = 0;
    W wf(s, config(R, C, *keys[0]), tp); uint64_t changes = 0;
    auto verify = [&](const char *what) {
      V c = flat(wf.config, R, C); auto it = amp.find(c); E a = it == amp.end() ? amplitude<E, Q>(s, c) : it->second; Observe("mc_amplitude"); double e = Q::IsFermionic() ? std::abs(mag(a) - mag(wf.amplitude)) : mag(a - wf.amplitude);
      if (!(e <= 1e-8 * (scale + mag(a)))) { Violation(cat("mc-amplitude-", what), cat(sig, " tracked ", wf.amplitude, " exact ", a)); dead = true; }
      for (size_t i = 0; i < n && !dead; ++i) { const T &x = wf.tn({i / C, i % C}), &y = s({i / C, i % C})[c[i]]; bool same = x.size() == y.size(); for (size_t k = 0; same && k < x.size(); ++k) same = x.At_(k) == y.At_(k); if (!Check(same, cat("mc-network-", what), sig, " site ", i)) dead = true; } };
    for (uint64_t k = 0; k < samples && !dead; ++k) {
      double u = rng.u01(); size_t i0 = std::min<size_t>(std::lower_bound(cum.begin(), cum.end(), u) - cum.begin(), keys.size() - 1); const V &c0 = *keys[i0]; Doing(sig);
      switch (k % 3) { case 0: wf.ReplaceGlobalConfig(s, config(R, C, c0)); break; case 1: { W fresh(s, config(R, C, c0), tp); wf = fresh; break; } default: wf = W(s, config(R, C, c0), tp); }
      if (k % 16 == 0) verify("start"); if (dead) break;
      std::vector<double> rate; up(s, wf, rate); V c1 = flat(wf.config, R, C); ++done; Observe("mc_sweep"); if (c1 != c0) ++changes;
      if (charge(rule, c1, d) != best->first) { Violation("mc-conservation", cat(sig, " after a sweep the conserved counts changed")); dead = true; break; }
      if (!Check(rate.size() == 1 && rate[0] >= 0 && rate[0] <= 1 && (c1 == c0 || rate[0] > 0), "mc-rate", sig, " ", rate.empty() ? -1.0 : rate[0])) { dead = true; break; }
      if (whole && !pi.count(c1)) { Violation("mc-zero-weight", cat(sig, " moved to a configuration with amplitude ", amplitude<E, Q>(s, c1))); dead = true; break; }
      ++hist[c1]; seen.insert(c1); if (k % 4 == 0) verify("sweep");
      if (!dead && k % 50 == 0) { E a = wf.amplitude; wf.EvaluateAmplitude(); Check(Q::IsFermionic() ? std::abs(mag(a) - mag(wf.amplitude)) <= 1e-8 * scale : mag(a - wf.amplitude) <= 1e-8 * scale, "mc-reevaluate", sig, " ", a, " ", wf.amplitude); }
    }
    if (dead) continue;
    // invariance: started from |psi|^2, one sweep must end in |psi|^2
    double chi = 0, eacc = 0, oacc = 0; size_t bins = 0; for (auto &[c, w] : pi) { eacc += (double) done * w / tot; oacc += hist.count(c) ? (double) hist[c] : 0.0; if (eacc >= 12) { chi += (oacc - eacc) * (oacc - eacc) / eacc; ++bins; eacc = oacc = 0; } }
    if (complete && bins >= 2) { double dof = (double) bins, t = 35, lim = dof + 2 * std::sqrt(dof * t) + 2 * t; Observe("mc_invariance"); Observe("mc_chi_bins", bins); Check(chi <= lim, "mc-invariance", sig, " chi2 ", chi, " bins ", bins, " limit ", lim, " sweeps ", done); }
    // reproducibility: same seed, same start => same trajectory
    { Seeded<U> a(seed), b(seed); W x(s, config(R, C, *keys[0]), tp), y(s, config(R, C, *keys[0]), tp); std::vector<double> r1, r2; for (int k = 0; k < 5; ++k) { a(s, x, r1); b(s, y, r2); } Check(flat(x.config, R, C) == flat(y.config, R, C) && r1 == r2, "mc-reproducible", sig); Observe("mc_reproducible"); }
    // reach: a long walk visits every configuration that carries weight
    if (whole && pi.size() <= 130 && pi.size() == sector_size[best->first]) {   // no exact zeros, so the moves connect the sector
      double wmin = 1; for (auto &[c, w] : pi) wmin = std::min(wmin, w / tot);
      if (wmin > 0.0025 && (wmin > 0.008 || force > 0)) { std::set<V> vis; W x(s, config(R, C, *keys[rng.below(keys.size())]), tp); std::vector<double> r; Seeded<U> w2((unsigned) rng()); size_t cap = (size_t) (60 / wmin), k = 0; for (; k < cap && vis.size() < pi.size(); ++k) { w2(s, x, r); V c = flat(x.config, R, C); vis.insert(c); }
        Observe("mc_reach"); Check(vis.size() == pi.size(), "mc-reach", sig, " only ", vis.size(), " configurations reached in ", k, " sweeps"); if (!dead) { wf = x; verify("long"); } } }
    Sample(cat(sig, " sweeps ", done, " moved ", changes, " seen ", seen.size(), " chi2 ", chi, "/", bins));
  }
}
using X = MCUpdateSquareNNExchange; using F = MCUpdateSquareNNFullSpaceUpdate; using XP = MCUpdateSquareNNExchangePBC; using FP = MCUpdateSquareNNFullSpaceUpdatePBC; using T3 = MCUpdateSquareTNN3SiteExchange; using H = MCUpdateSquareNNHubbardU1U1;
using SH = std::vector<std::pair<size_t, size_t>>;
SECTION("nn_bd", 1, 6) { run<double, Triv, X, false>(rng, EXCHANGE, SH{{2, 2}, {2, 3}, {3, 2}, {3, 3}}, 2 + rng.below(2), N(4, 12), N(1500, 8000)); }
SECTION("nn_uz", 1, 6) { run<Z, U1, X, false>(rng, EXCHANGE, SH{{2, 2}, {2, 3}, {3, 2}}, 2 + rng.below(2), N(4, 12), N(1500, 8000)); }
SECTION("nn_fd", 1, 6) { run<double, fZ2, X, false>(rng, EXCHANGE, SH{{2, 2}, {2, 3}, {3, 2}}, 2 + rng.below(2), N(4, 12), N(1200, 8000)); }
SECTION("nn_fz", 1, 6) { run<Z, fZ2, X, false>(rng, EXCHANGE, SH{{2, 2}, {2, 3}, {3, 2}}, 2 + rng.below(2), N(4, 12), N(1200, 8000)); }
SECTION("full_bd", 1, 6) { run<double, Triv, F, false>(rng, FULL, SH{{2, 2}, {2, 3}, {3, 2}}, 2, N(3, 12), N(1500, 8000)); }
SECTION("full_bz", 1, 6) { run<Z, Triv, F, false>(rng, FULL, SH{{2, 2}}, 3, N(3, 12), N(1500, 8000)); }
SECTION("three_bd", 1, 6) { run<double, Triv, T3, false>(rng, EXCHANGE, SH{{3, 3}, {3, 4}, {4, 3}}, 2, N(2, 8), N(1000, 8000)); }
SECTION("three_f", 1, 6) { run<Z, fZ2, T3, false>(rng, EXCHANGE, SH{{3, 3}}, 2 + rng.below(2), N(2, 8), N(800, 6000)); }
SECTION("hub_f", 1, 6) { run<double, fZ2, H, false>(rng, HUBBARD, SH{{2, 2}, {2, 3}}, 4, N(3, 10), N(1200, 8000)); }
SECTION("hub_b", 1, 6) { run<Z, Triv, H, false>(rng, HUBBARD, SH{{2, 2}, {3, 2}}, 4, N(3, 10), N(1200, 8000)); }
SECTION("pnn_bd", 1, 6) { run<double, Triv, XP, true>(rng, EXCHANGE, SH{{2, 2}, {3, 3}}, 2 + rng.below(2), N(3, 12), N(1200, 8000)); }
SECTION("pnn_uz", 1, 6) { run<Z, U1, XP, true>(rng, EXCHANGE, SH{{2, 2}, {3, 3}}, 2, N(3, 12), N(1200, 8000)); }
SECTION("pfull_bd", 1, 6) { run<double, Triv, FP, true>(rng, FULL, SH{{2, 2}}, 2 + rng.below(2), N(3, 12), N(1200, 8000)); }
SECTION("reach_x", 1, 4) { run<double, Triv, X, false>(rng, EXCHANGE, SH{{2, 2}, {2, 3}, {3, 2}}, 2, N(3, 12), N(100, 1000), 4); }
SECTION("reach_f", 1, 4) { run<double, Triv, F, false>(rng, FULL, SH{{2, 2}}, 2, N(3, 12), N(100, 1000), 4); }
SECTION("reach_t", 1, 4) { run<double, Triv, T3, false>(rng, EXCHANGE, SH{{3, 3}}, 2, N(2, 12), N(30, 300), 4); }
SECTION("reach_h", 1, 4) { run<double, Triv, H, false>(rng, HUBBARD, SH{{2, 2}}, 4, N(2, 12), N(100, 1000), 4); }
SECTION("reach_p", 1, 4) { run<double, Triv, XP, true>(rng, EXCHANGE, SH{{2, 2}}, 2, N(3, 12), N(100, 1000), 4); run<double, Triv, FP, true>(rng, FULL, SH{{2, 2}}, 2, N(3, 12), N(100, 1000), 4); }
