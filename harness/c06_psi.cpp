// Amplitude-consistency summary: formula, invariances under order, global phase, scale and branch signs.
#include "vh.h"
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
using namespace qlpeps;
using cd = std::complex<double>;
template<class T> static T rnd(vh::Rng &r) { if constexpr (std::is_same_v<T, double>) return r.gauss(); else return cd(r.gauss(), r.gauss()); }
template<class T> static T unit(vh::Rng &r) { if constexpr (std::is_same_v<T, double>) return r.coin() ? 1. : -1.; else return std::polar(1., r.uni(0, 6.283)); }
template<class T> static std::vector<T> gen(vh::Rng &r, double &spread) {
  size_t n = 1 + r.below(r.coin(.8) ? 8 : r.coin(.95) ? 60 : 1500); if (r.coin(.15)) { std::vector<T> v(n); double e = r.coin() ? 0. : r.uni(0, 8); for (auto &x : v) x = rnd<T>(r) * std::pow(10., -r.u01() * e); spread = 1; return v; } T base = rnd<T>(r); if (std::abs(base) < 1e-3) base = T(1);
  spread = r.coin(.2) ? 0 : std::pow(10., r.uni(-12, -0.7)); std::vector<T> v(n);
  for (auto &x : v) { x = base * (T(1) + spread * rnd<T>(r) * 0.3); if (r.coin(.4)) x = -x; }
  if (r.coin(.1)) v[r.below(n)] *= 1e-3; if (r.coin(.05)) v[r.below(n)] = T(0);
  return v;
}
template<class T> static void ref(const std::vector<T> &v, T &mean, double &rel, bool &ambiguous) {
  size_t k = 0; for (size_t i = 0; i < v.size(); ++i) if (std::abs(v[i]) > std::abs(v[k])) k = i;
  std::vector<T> a; mean = T(0); ambiguous = false;
  for (size_t i = 0; i < v.size(); ++i) { double o = std::real(v[i] * std::conj(v[k])), sc = std::abs(v[i]) * std::abs(v[k]);
    if (i != k && sc > 0 && std::abs(o) < 1e-6 * sc) ambiguous = true;
    if (i != k && std::abs(std::abs(v[i]) - std::abs(v[k])) < 1e-12 * std::abs(v[k]) && std::abs(v[i] - v[k]) > 1e-9 * std::abs(v[k]) && std::abs(v[i] + v[k]) > 1e-9 * std::abs(v[k])) ambiguous = true;
    a.push_back(o < 0 ? -v[i] : v[i]); mean += a.back(); }
  mean /= (double) v.size(); double d = 0; for (auto &x : a) d = std::max(d, std::abs(x - mean)); rel = std::abs(mean) > 0 ? d / std::abs(mean) : 0;
}
template<class T> static void run(vh::Rng &rng) {
  for (uint64_t c = 0; c < vh::N(20000, 300000); ++c) {
    double spread; auto v = gen<T>(rng, spread);
    double sc = rng.coin(.4) ? 1 : std::pow(10., rng.coin() ? rng.uni(-140, 140) : rng.uni(-285, 285)); for (auto &x : v) x *= sc;
    vh::Doing(vh::cat("n=", v.size(), " scale=", sc));
    std::vector<T> un = v; for (auto &x : un) x /= sc;   // reference evaluated at unit scale
    T m; double rel; bool amb; ref(un, m, rel, amb); if (amb) { vh::Observe("psi_ambiguous_skipped"); continue; }
    auto before = v;
    auto s = ComputePsiConsistencySummaryAligned(v);
    vh::Check(v == before, "psi:mutates", "");
    T got = s.psi_mean / sc;
    double am = std::abs(m);
    // global sign is fixed by the largest-magnitude element; a tie between +x and -x leaves the sign free
    double dm = std::min(std::abs(got - m), std::abs(got + m));
    vh::Check(dm <= 1e-9 * am, "psi:mean", "n=", v.size(), " scale ", sc, " got ", got, " want ", m, " list ", vh::vec2s(v));
    vh::Check(vh::close(s.psi_rel_err, rel, 1e-6, 1e-10), "psi:radius", "n=", v.size(), " scale ", sc, " got ", s.psi_rel_err, " want ", rel, " list ", vh::vec2s(v));
    vh::Check(std::isfinite(s.psi_rel_err) && s.psi_rel_err >= 0, "psi:radius-invalid", s.psi_rel_err);
    vh::Observe("psi_formula");
    // metamorphic: permutation, per-element branch signs, global phase, scale
    auto w = v; std::shuffle(w.begin(), w.end(), rng); auto s2 = ComputePsiConsistencySummaryAligned(w);
    vh::Check(vh::close(s2.psi_rel_err, s.psi_rel_err, 1e-6, 1e-10) && vh::close(std::abs(s2.psi_mean), std::abs(s.psi_mean), 1e-9), "psi:order-dependent", vh::vec2s(v));
    w = v; for (auto &x : w) if (rng.coin()) x = -x; s2 = ComputePsiConsistencySummaryAligned(w);
    vh::Check(vh::close(s2.psi_rel_err, s.psi_rel_err, 1e-6, 1e-10) && vh::close(std::abs(s2.psi_mean), std::abs(s.psi_mean), 1e-9), "psi:branch-sign-dependent", vh::vec2s(v));
    T ph = unit<T>(rng); w = v; for (auto &x : w) x *= ph; s2 = ComputePsiConsistencySummaryAligned(w);
    vh::Check(vh::close(s2.psi_rel_err, s.psi_rel_err, 1e-6, 1e-10) && vh::close(std::abs(s2.psi_mean), std::abs(s.psi_mean), 1e-9), "psi:phase-dependent", vh::vec2s(v));
    double k = std::pow(10., rng.coin() ? rng.uni(-140, 140) : rng.uni(-285, 285)); w = v; for (auto &x : w) x = x / sc * k; s2 = ComputePsiConsistencySummaryAligned(w);
    vh::Check(vh::close(s2.psi_rel_err, s.psi_rel_err, 1e-6, 1e-10), "psi:scale-dependent", "scale ", sc, " -> ", k, " err ", s.psi_rel_err, " -> ", s2.psi_rel_err, " ", vh::vec2s(v));
    vh::Observe("psi_metamorphic", 4);
    vh::Case(vh::hash_bytes(v.data(), v.size() * sizeof(T))); vh::Sample(vh::cat("scale ", sc, " ", vh::vec2s(v)));
  }
  auto e = ComputePsiConsistencySummaryAligned(std::vector<T>{}); vh::Check(e.psi_mean == T(0) && e.psi_rel_err == 0, "psi:empty", "");
  auto z = ComputePsiConsistencySummaryAligned(std::vector<T>(3, T(0))); vh::Check(z.psi_mean == T(0) && z.psi_rel_err == 0, "psi:zeros", z.psi_rel_err);
}
SECTION("real", 2, 4) { run<double>(rng); }
SECTION("complex", 2, 4) { run<cd>(rng); }
SECTION("format", 1, 2) {
  for (uint64_t c = 0; c < vh::N(4000, 40000); ++c) {
    size_t n = rng.below(20), m = rng.below(24); std::vector<double> v(n); for (auto &x : v) x = rng.logscale(-20, 20);
    std::string s = FormatPsiListTruncated(v, m);
    vh::Check(s.size() >= 2 && s.front() == '[' && s.back() == ']', "psi:format", s);
    size_t shown = 0; std::string body = s; size_t cut = s.find("..."); if (cut != std::string::npos) body = s.substr(0, cut);
    std::vector<double> got; for (size_t i = 0; i < body.size();) { char *e; double x = std::strtod(body.c_str() + i, &e); if (e != body.c_str() + i) { got.push_back(x); i = e - body.c_str(); } else ++i; }
    shown = std::min(n, m);
    vh::Check(got.size() == shown, "psi:format-count", "n=", n, " max=", m, " ", s);
    for (size_t i = 0; i < std::min(shown, got.size()); ++i) vh::Check(vh::close(got[i], v[i], 1e-5), "psi:format-value", s);
    vh::Check((cut != std::string::npos) == (n > shown), "psi:format-ellipsis", "n=", n, " max=", m, " ", s);
    if (n > shown) vh::Check(s.find(std::to_string(n)) != std::string::npos, "psi:format-total", s);
    vh::Observe("psi_format"); vh::Case(vh::hash_str(s));
    std::vector<cd> z(n); for (auto &x : z) x = cd(rng.gauss(), rng.gauss()); std::string t = FormatPsiListTruncated(z, m);
    vh::Check((size_t) std::count(t.begin(), t.end(), '(') == shown + (n > shown), "psi:format-complex", t);
  }
}
SECTION("defaults", 1, 1) {
  RuntimeParams p;
  vh::Check(p.psi_consistency.enabled && !p.psi_consistency.master_only && p.psi_consistency.threshold == 1e-3 && p.config_rescue.enabled, "psi:defaults", "");
  // every normal nonzero finite amplitude is inside the default validity window
  for (uint64_t c = 0; c < 2000; ++c) { double a = std::pow(10., rng.uni(-307, 308)); vh::Check(a > p.config_rescue.amplitude_min_threshold && a < p.config_rescue.amplitude_max_threshold, "psi:rescue-window", a); vh::Case(c); }
  vh::Check(!(0. > p.config_rescue.amplitude_min_threshold), "psi:rescue-window", "zero amplitude accepted");
}
