// Suwa-Todo single-state update: global balance, minimal rejection, support, determinism.
#include "vh.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
using namespace qlpeps;

// A 64-bit generator whose first draw is scripted; later draws are pseudo-random. Counts draws.
struct Scripted {
  using result_type = uint64_t;
  uint64_t first; vh::Rng tail; int draws = 0;
  Scripted(uint64_t f, uint64_t s) : first(f), tail(s) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ULL; }
  uint64_t operator()() { return draws++ == 0 ? first : tail(); }
};
static std::vector<double> rweights(vh::Rng &r, size_t n, std::string &kind) {
  std::vector<double> w(n);
  switch (r.below(7)) {
    case 0: kind = "uniform"; for (auto &x : w) x = r.uni(0.01, 1); break;
    case 1: kind = "equal"; { double v = std::pow(10., r.uni(-8, 8)); for (auto &x : w) x = v; } break;
    case 2: kind = "zeros"; for (auto &x : w) x = r.coin(.5) ? 0. : r.u01(); break;
    case 3: kind = "dominant"; for (auto &x : w) x = r.u01() * .1; w[r.below(n)] = 5; break;
    case 4: kind = "wide"; for (auto &x : w) x = std::pow(10., r.uni(-12, 0)); break;
    case 5: kind = "ties"; for (auto &x : w) x = 1 + (double) r.below(3); break;
    default: kind = "amplitude^2"; for (auto &x : w) { double g = r.gauss(); x = g * g; }
  }
  if (r.coin(.3)) { double sc = std::pow(10., r.uni(-200, 200)); for (auto &x : w) x *= sc; kind += "*scaled"; }
  if (*std::max_element(w.begin(), w.end()) <= 0) w[r.below(n)] = 1;
  return w;
}
// empirical transition row by stratified enumeration of the random stream
static std::vector<double> row(size_t i, const std::vector<double> &w, size_t M, vh::Rng &r, int &maxdraw, bool &ok) {
  std::vector<double> p(w.size(), 0.);
  for (size_t k = 0; k < M; ++k) {
    uint64_t f = (uint64_t) (((long double) k + 0.5L) / (long double) M * 18446744073709551616.0L);
    Scripted g(f, r());
    size_t j = SuwaTodoStateUpdate(i, w, g);
    maxdraw = std::max(maxdraw, g.draws);
    if (j >= w.size()) { vh::Check(false, "st:out-of-range", "i=", i, " w=", vh::vec2s(w), " got ", j); ok = false; return p; }
    if (!(w[j] > 0)) vh::Check(false, "st:chose-zero-weight", "i=", i, " w=", vh::vec2s(w), " got ", j);
    p[j] += 1.;
  }
  for (auto &x : p) x /= (double) M;
  return p;
}
SECTION("transition-matrix", 4, 8) {
  const size_t M = vh::N(600, 4000);
  for (uint64_t c = 0; c < vh::N(400, 3000); ++c) {
    size_t n = 1 + rng.below(rng.coin(.7) ? 5 : 24);
    std::string kind; auto w = rweights(rng, n, kind);
    vh::Doing(vh::cat("w=", vh::vec2s(w)));
    long double S = 0; for (double x : w) S += x;
    double mx = *std::max_element(w.begin(), w.end());
    std::vector<double> flow(n, 0.); double rej = 0; int maxdraw = 0; bool ok = true;
    for (size_t i = 0; i < n && ok; ++i) {
      if (!(w[i] > 0)) continue;
      auto p = row(i, w, M, rng, maxdraw, ok);
      for (size_t j = 0; j < n; ++j) flow[j] += (double) (w[i] / S) * p[j];
      rej += (double) (w[i] / S) * p[i];
      vh::Observe("st_rows");
    }
    if (!ok) continue;
    // one scripted draw: each row entry is exact to ~2/M.  More draws: statistical bound.
    double tol = maxdraw <= 1 ? 4.0 / M + 1e-9 : 8.0 / std::sqrt((double) M);
    for (size_t j = 0; j < n; ++j)
      vh::Check(std::abs(flow[j] - (double) (w[j] / S)) <= tol, "st:global-balance", kind, " w=", vh::vec2s(w), " state ", j, " inflow ", flow[j], " want ", (double) (w[j] / S), " tol ", tol);
    double want = std::max(0., (double) ((2 * (long double) mx - S) / S));
    vh::Check(std::abs(rej - want) <= tol, "st:rejection-not-minimal", kind, " w=", vh::vec2s(w), " rejection ", rej, " want ", want);
    vh::Observe("st_balance"); vh::Observe(vh::cat("st_draws_", maxdraw));
    vh::Case(vh::hash_bytes(w.data(), w.size() * 8)); vh::Sample(kind + " " + vh::vec2s(w));
  }
}
// Exact rows: with one draw per update the map draw -> next state is piecewise constant, so its breakpoints are found by
// bisection to 2^-60 and the row entries are exact.  Integer weights keep every piece far wider than the scan grid; a
// mismatch is only reported if it survives a much finer scan.
static bool exactRow(size_t i, const std::vector<double> &w, size_t M, std::vector<long double> &p) {
  p.assign(w.size(), 0.L); bool one = true;
  auto f = [&](uint64_t x) { Scripted g(x, 7); size_t j = SuwaTodoStateUpdate(i, w, g); if (g.draws != 1) one = false; return j < w.size() ? j : (size_t) 0; };
  const uint64_t step = ~0ULL / M; uint64_t lo = 0; size_t jl = f(0);
  std::function<void(uint64_t, size_t, uint64_t, size_t)> seg = [&](uint64_t a, size_t ja, uint64_t b, size_t jb) {
    if (ja == jb) { p[ja] += (long double) (b - a); return; }
    if (b - a < 32) { p[ja] += (long double) (b - a) / 2; p[jb] += (long double) (b - a) / 2; return; }
    uint64_t m = a + (b - a) / 2; size_t jm = f(m); seg(a, ja, m, jm); seg(m, jm, b, jb);
  };
  for (size_t k = 1; k <= M && one; ++k) { uint64_t hi = k == M ? ~0ULL : k * step; size_t jh = f(hi); seg(lo, jl, hi, jh); lo = hi; jl = jh; }
  for (auto &x : p) x /= 18446744073709551615.0L;
  return one;
}
SECTION("exact-rows", 2, 4) {
  for (uint64_t c = 0; c < vh::N(400, 6000); ++c) {
    size_t n = 1 + rng.below(6); std::vector<double> w(n); double sc = std::ldexp(1., (int) rng.range(-300, 300));
    for (auto &x : w) x = rng.coin(.15) ? 0. : sc * (double) (1 + rng.below(rng.coin(.3) ? 3 : 12));
    if (*std::max_element(w.begin(), w.end()) <= 0) w[rng.below(n)] = sc;
    vh::Doing(vh::cat("w=", vh::vec2s(w)));
    long double S = 0; for (double x : w) S += x; double mx = *std::max_element(w.begin(), w.end());
    auto run = [&](size_t M, std::string &bad) {
      std::vector<long double> flow(n, 0.L), p; long double rej = 0; bad.clear();
      for (size_t i = 0; i < n; ++i) { if (!(w[i] > 0)) continue; if (!exactRow(i, w, M, p)) return false;
        for (size_t j = 0; j < n; ++j) flow[j] += w[i] / S * p[j]; rej += w[i] / S * p[i]; }
      for (size_t j = 0; j < n; ++j) if (std::abs((double) (flow[j] - w[j] / S)) > 1e-11) bad = vh::cat("state ", j, " inflow ", (double) flow[j], " want ", (double) (w[j] / S));
      double want = std::max(0., (double) ((2 * (long double) mx - S) / S));
      if (bad.empty() && std::abs((double) rej - want) > 1e-11) bad = vh::cat("rejection ", (double) rej, " want ", want);
      return true;
    };
    std::string bad;
    if (!run(97, bad)) { vh::Observe("st_exact_skipped_multidraw"); vh::TrivialCase(); continue; }
    if (!bad.empty()) run(9973, bad);
    vh::Check(bad.empty(), bad.rfind("rej", 0) == 0 ? "st:rejection-not-minimal" : "st:global-balance", "exact: w=", vh::vec2s(w), " ", bad);
    vh::Observe("st_exact_matrix"); vh::Case(vh::hash_bytes(w.data(), n * 8));
  }
}
// Hostile weights and hostile streams: support and range only.
SECTION("support", 2, 4) {
  for (uint64_t c = 0; c < vh::N(60000, 800000); ++c) {
    size_t n = 1 + rng.below(rng.coin(.8) ? 6 : 60);
    std::vector<double> w(n);
    for (auto &x : w) {
      switch (rng.below(7)) {
        case 0: x = 0; break; case 1: x = 5e-324 * (1 + rng.below(3)); break; case 2: x = 1e300 * rng.u01(); break;
        case 3: x = 1; break; case 4: x = std::nextafter(1., 2.); break; case 5: x = std::pow(10., rng.uni(-320, 300)); break; default: x = rng.u01();
      }
    }
    size_t i = rng.below(n); if (!(w[i] > 0)) w[i] = rng.coin() ? 5e-324 : rng.u01() + 1e-9;
    uint64_t f; switch (rng.below(5)) { case 0: f = 0; break; case 1: f = ~0ULL; break; case 2: f = ~0ULL - rng.below(4096); break; case 3: f = rng.below(4096); break; default: f = rng(); }
    uint64_t ts = rng();
    vh::Doing(vh::cat("i=", i, " w=", vh::vec2s(w), " f=", f));
    Scripted g(f, ts), g2(f, ts);
    auto wcopy = w;
    size_t j = SuwaTodoStateUpdate(i, w, g), j2 = rng.coin(.3) ? NonDBMCMCStateUpdate(i, w, g2) : SuwaTodoStateUpdate(i, w, g2);
    vh::Check(w == wcopy, "st:mutates-caller", "weights changed");
    vh::Check(j == j2 && g.draws == g2.draws, "st:not-a-function-of-inputs", "same stream gave ", j, " and ", j2, " i=", i, " w=", vh::vec2s(w));
    if (vh::Check(j < n, "st:out-of-range", "i=", i, " w=", vh::vec2s(w), " got ", j))
      vh::Check(w[j] > 0, "st:chose-zero-weight", "i=", i, " w=", vh::vec2s(w), " f=", f, " got ", j);
    vh::Observe("st_support");
    vh::Case(vh::hash_bytes(w.data(), n * 8, i * 131 + f));
  }
}
// Long chains with the standard generators: visited frequencies vs weights (chi-square over thinned visits).
template<class G> static void chain(vh::Rng &rng, const char *name) {
  for (uint64_t c = 0; c < vh::N(6, 60); ++c) {
    size_t n = 2 + rng.below(4); std::string kind; std::vector<double> w(n);
    for (auto &x : w) x = rng.coin(.15) ? 0. : rng.uni(.05, 1); size_t cur = rng.below(n); if (!(w[cur] > 0)) w[cur] = .3;
    G g((typename G::result_type) (rng() % 2147483646 + 1));
    const size_t L = vh::N(40000, 300000);
    std::vector<double> cnt(n, 0), bm; double S = 0; for (double x : w) S += x;
    const size_t B = 100; std::vector<std::vector<double>> bins(B, std::vector<double>(n, 0));
    for (size_t t = 0; t < L; ++t) { cur = SuwaTodoStateUpdate(cur, w, g); if (cur >= n) { vh::Violation("st:out-of-range", name); return; } bins[t * B / L][cur] += 1; }
    for (size_t j = 0; j < n; ++j) {
      double m = 0, v = 0; for (auto &b : bins) m += b[j]; m /= B; for (auto &b : bins) v += (b[j] - m) * (b[j] - m);
      double se = std::sqrt(v / (B - 1) / B) / (L / B), f = m / (L / B), p = w[j] / S;
      vh::Check(std::abs(f - p) <= 8 * se + 3e-3, "st:chain-frequency", name, " w=", vh::vec2s(w), " state ", j, " freq ", f, " want ", p, " se ", se);
      if (w[j] == 0) vh::Check(f == 0, "st:chose-zero-weight", name, " w=", vh::vec2s(w));
    }
    vh::Observe("st_chain_steps", L); vh::Case(vh::hash_bytes(w.data(), n * 8));
  }
}
SECTION("chains", 2, 4) {
  chain<std::mt19937>(rng, "mt19937"); chain<std::mt19937_64>(rng, "mt19937_64"); chain<std::minstd_rand>(rng, "minstd"); chain<std::ranlux24_base>(rng, "ranlux24");
}
// Sequential application over changing local weight sets (heat-bath style Gibbs sweep): joint stationarity.
SECTION("composed-sweep", 2, 4) {
  for (uint64_t c = 0; c < vh::N(6, 40); ++c) {
    // two variables a in 0..2, b in 0..1 with joint weight; alternate a|b and b|a updates
    double W[3][2]; double S = 0; for (auto &r : W) for (auto &x : r) { x = rng.uni(.05, 1); S += x; }
    std::mt19937_64 g(rng()); size_t a = 0, b = 0; const size_t L = vh::N(40000, 300000), B = 100;
    std::vector<std::vector<double>> bins(B, std::vector<double>(6, 0));
    for (size_t t = 0; t < L; ++t) {
      a = SuwaTodoStateUpdate(a, {W[0][b], W[1][b], W[2][b]}, g);
      b = SuwaTodoStateUpdate(b, {W[a][0], W[a][1]}, g);
      bins[t * B / L][a * 2 + b] += 1;
    }
    for (size_t j = 0; j < 6; ++j) {
      double m = 0, v = 0; for (auto &x : bins) m += x[j]; m /= B; for (auto &x : bins) v += (x[j] - m) * (x[j] - m);
      double se = std::sqrt(v / (B - 1) / B) / (L / B), f = m / (L / B), p = W[j / 2][j % 2] / S;
      vh::Check(std::abs(f - p) <= 8 * se + 3e-3, "st:sweep-frequency", "state ", j, " freq ", f, " want ", p, " se ", se);
    }
    vh::Observe("st_chain_steps", 2 * L); vh::Case(vh::hash_bytes(W, sizeof W));
  }
}
