// C12: Jastrow pair couplings.
#include "mpi.h"
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/configuration.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/jastrow_factor.h"
#include "vh.h"
using namespace vh; using namespace qlpeps;
SECTION("pairs", 2, 8) {
  for (uint64_t it = 0; it < N(1200, 12000); ++it) {
    size_t Ly = rng.coin(0.2) ? 1 : 1 + rng.below(5), Lx = rng.coin(0.2) ? 1 : 1 + rng.below(5), n = Ly * Lx;
    JastrowFactor J(Ly, Lx); std::map<std::pair<size_t, size_t>, double> m;
    auto key = [](size_t i, size_t j) { return std::make_pair(std::min(i, j), std::max(i, j)); };
    auto S = [&](size_t i) { return SiteIdx({i / Lx, i % Lx}); };
    Check(J.NumSites() == n, "sites", "");
    std::string sig = cat(Ly, "x", Lx); Doing(sig);
    size_t ops = n > 1 ? rng.below(60) : 0;
    if (rng.coin(0.3) && n > 1) J.Fill([&](size_t i, size_t j) { Check(i < j && j < n, "fill-arguments", i, ",", j); double v = rng.gauss(); Check(!m.count({i, j}), "fill-twice", i, ",", j); m[{i, j}] = v; return v; });
    for (size_t o = 0; o < ops; ++o) {
      size_t i = rng.below(n), j = rng.below(n); if (i == j) j = (j + 1) % n; double v = rng.gauss(); sig += cat(" ", i, ",", j);
      switch (rng.below(4)) { case 0: J.Set(i, j, v); m[key(i, j)] = v; break; case 1: J.Set(S(i), S(j), v); m[key(i, j)] = v; break;
        case 2: J(i, j) += v; m[key(i, j)] += v; break; default: J(S(i), S(j)) = v; m[key(i, j)] = v; }
    }
    Case(hash_str(sig));
    JastrowFactor K = J; if (n > 1) K(0, 1) += 1;   // copies are independent
    const JastrowFactor &C = J;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      double w = i == j ? 0 : m.count(key(i, j)) ? m[key(i, j)] : 0;
      Check(C(i, j) == w && C(S(i), S(j)) == w, "pair-value", Ly, "x", Lx, " (", i, ",", j, ") got ", C(i, j), " want ", w);
      Observe("jastrow_pair");
    }
    Configuration c(Ly, Lx, (size_t) 3); double tot = 0;
    for (size_t i = 0; i < n; ++i) {
      double f = 0; for (size_t j = 0; j < n; ++j) if (j != i) f += (m.count(key(i, j)) ? m[key(i, j)] : 0) * (double) c(S(j));
      double g = J.JastrowFieldAtSite(c, S(i)); tot += g * (double) c(S(i));
      Check(vh::close(f, g, 1e-12, 1e-12), "field", Ly, "x", Lx, " site ", i, " got ", g, " want ", f); Observe("jastrow_field");
      Check(C.SiteToIndex(S(i)) == i && C.SiteIdxToLinear(S(i)) == i, "site-index", "");
    }
    double e = 0; for (auto &[k, v] : m) e += v * (double) c(S(k.first)) * (double) c(S(k.second));
    Check(vh::close(tot, 2 * e, 1e-10, 1e-10), "exponent-consistency", "sum of fields ", tot, " twice the exponent ", 2 * e);
    // moving one particle changes the exponent by the field difference
    if (n > 1) { size_t a = rng.below(n), b = (a + 1 + rng.below(n - 1)) % n; Configuration d(c); if (d(S(a)) > 0) { double fa = J.JastrowFieldAtSite(c, S(a)), fb = J.JastrowFieldAtSite(c, S(b)); d(S(a)) -= 1; d(S(b)) += 1; double e2 = 0; for (auto &[k, v] : m) e2 += v * (double) d(S(k.first)) * (double) d(S(k.second)); Check(vh::close(e2 - e, fb - fa - C(a, b), 1e-9, 1e-9), "hop-ratio", "", e2 - e, " vs ", fb - fa - C(a, b)); Observe("jastrow_hop"); } }
  }
}
