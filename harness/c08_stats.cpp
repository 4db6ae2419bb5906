// C08: Monte Carlo statistics, serial and across ranks.
#include "mpi.h"
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#include "qlpeps/vmc_basic/statistics_tensor.h"
#include "vh.h"
#include "mp.h"
using namespace vh;
using Z = std::complex<double>;
template<class T> T draw(Rng &r, double off, double w) {
  if constexpr (std::is_same_v<T, double>) return off + w * r.gauss(); else return Z(off + w * r.gauss(), 0.3 * off + w * r.gauss());
}
template<class T> struct LD { using t = long double; };
template<> struct LD<Z> { using t = std::complex<long double>; };
template<class T> std::complex<long double> up(T x) { if constexpr (std::is_same_v<T, double>) return {(long double) x, 0}; else return {x.real(), x.imag()}; }
template<class T> void oracle(const std::vector<T> &v, std::complex<long double> &mean, long double &var, long double &mx) {
  mean = 0; var = 0; mx = 0;
  for (auto x : v) { mean += up(x); mx = std::max(mx, std::abs(up(x))); }
  if (v.empty()) return;
  mean /= (long double) v.size();
  for (auto x : v) var += std::norm(up(x) - mean);
  var /= (long double) v.size();
}
template<class T> bool near_(T a, std::complex<long double> b, long double mx, size_t n) {
  return std::abs(up(a) - b) <= 4e-16L * (n + 4) * mx + 1e-300L;
}
inline bool near_err(double a, long double e, long double mx, size_t n) {
  if (std::isinf((double) e)) return std::isinf(a) && a > 0;
  return std::abs((long double) a - e) <= 1e-7L * e + 4e-16L * (n + 4) * mx + 1e-300L;
}
inline double off_for(Rng &r) { double t[] = {0, 0, 1, -3.7, 1e6, -1e8, 1e-5}; return t[r.below(7)]; }
inline double w_for(Rng &r) { double t[] = {1, 1, 1e-3, 1e-6, 0, 1e4}; return t[r.below(6)]; }

template<class T> void serial(Rng &rng) {
  size_t n = rng.coin(0.2) ? rng.below(4) : 1 + rng.below(120);
  double off = off_for(rng), w = w_for(rng);
  std::vector<T> v(n);
  for (auto &x : v) x = draw<T>(rng, off, w);
  Case(hash_bytes(v.data(), n * sizeof(T), n));
  std::complex<long double> m; long double var, mx;
  oracle(v, m, var, mx);
  Doing(cat("serial n=", n, " off=", off, " w=", w));
  T gm = qlpeps::Mean(v);
  Check(near_(gm, m, mx, n), "mean", "n=", n, " got ", gm, " off ", off, " w ", w);
  Observe("stat_serial");
  if (n == 0) return;
  double gv = qlpeps::Variance(v), gv2 = qlpeps::Variance(v, gm);
  Check(gv >= 0 && std::abs(gv - (double) var) <= 1e-7 * (double) var + 1e-30 * (double) (mx * mx) * n * n, "variance", "n=", n, " got ", gv, " want ", (double) var);
  Check(vh::close(gv, gv2, 1e-7, 1e-30 * (double) (mx * mx) * n * n), "variance-with-mean", gv, " vs ", gv2);
  double ge = qlpeps::StandardError(v, gm);
  long double we = n == 1 ? INFINITY : std::sqrt(var / (n - 1));
  Check(near_err(ge, we, mx, n), "standard-error", "n=", n, " got ", ge, " want ", (double) we);
  // lists of samples
  size_t N = rng.below(6), S = rng.below(8);
  std::vector<std::vector<T>> d(S, std::vector<T>(N));
  for (auto &s : d) for (auto &x : s) x = draw<T>(rng, off, w);
  auto a = qlpeps::AveListOfData(d);
  if (Check(a.size() == (S == 0 ? 0 : N), "avelist-size", "S=", S, " N=", N, " got ", a.size()))
    for (size_t i = 0; i < a.size(); ++i) {
      std::vector<T> c; for (auto &s : d) c.push_back(s[i]);
      oracle(c, m, var, mx);
      Check(near_(a[i], m, mx, S), "avelist-value", "i=", i, " got ", a[i]);
    }
  Observe("stat_avelist");
  // inflation factor: >= 1, shift and scale invariant, independent of whether the mean is supplied
  double ipsm = -1; std::vector<T> x(v); double rho = rng.uni(-0.9, 0.95);
  for (size_t i = 1; i < n; ++i) x[i] = x[i - 1] * rho + draw<T>(rng, 0, 1);
  double g = qlpeps::IPSInflationFactor(x);
  Check(g >= 1.0 && std::isfinite(g), "ips-range", "g=", g, " n=", n);
  { double gm2 = qlpeps::IPSInflationFactor(x, std::optional<double>(std::real(qlpeps::Mean(x)))); bool flat = true; for (auto &q : x) flat &= std::abs(std::real(q) - std::real(x[0])) < 1e-9 * std::abs(std::real(x[0])); if (!flat) ipsm = gm2; else ipsm = -1; }
  // oracle: initial positive sequence with lag cap 20
  {
    size_t M = x.size(); double want = 1;
    if (M >= 3) {
      std::vector<long double> y(M); long double mu = 0; for (size_t i = 0; i < M; ++i) { y[i] = std::real(x[i]); mu += y[i]; } mu /= M; for (auto &q : y) q -= mu;
      auto gam = [&](size_t k) { long double s = 0; for (size_t t = 0; t + k < M; ++t) s += y[t] * y[t + k]; return s / M; };
      long double g0 = gam(0), sum = 0; bool tie = g0 <= 1e-20L;
      if (g0 > 0) for (size_t k = 1; k <= std::min<size_t>(20, M - 2); ++k) { long double s = gam(k) + gam(k + 1); if (std::abs(s) < 1e-9L * g0) tie = true; if (s <= 0) break; sum += gam(k) / g0; }
      want = std::max(1.0L, 1 + 2 * sum);
      if (!tie) Check(vh::close(g, want, 1e-6), "ips-value", "n=", M, " got ", g, " want ", want);
      if (!tie && ipsm >= 0) Check(vh::close(ipsm, want, 1e-6), "ips-value-with-mean", "n=", M, " got ", ipsm, " want ", want);
    } else Check(g == 1.0, "ips-short", g);
  }
  Observe("stat_ips");
}
SECTION("serial", 2, 8) {
  for (uint64_t i = 0; i < N(6000, 60000); ++i) { if (rng.coin()) serial<double>(rng); else serial<Z>(rng); }
}
SECTION("dump", 1, 2) {
  for (uint64_t i = 0; i < N(300, 3000); ++i) {
    size_t n = rng.below(40); std::vector<double> v(n); for (auto &x : v) x = rng.logscale(-8, 8);
    Case(hash_bytes(v.data(), n * 8, n));
    std::string f = cat("d", rng.below(3), ".dat");
    if (rng.coin(0.5)) std::ofstream(f) << "stale stale stale\n" << std::string(rng.below(3000), '7');
    qlpeps::DumpVecData(f, v);
    std::ifstream in(f); std::vector<double> r; double x; while (in >> x) r.push_back(x);
    Check(in.eof() && r.size() == n, "dump-count", "wrote ", n, " read ", r.size());
    for (size_t k = 0; k < std::min(n, r.size()); ++k) Check(vh::close(r[k], v[k], 1e-5), "dump-value", k, " ", r[k], " vs ", v[k]);
    Observe("stat_dump");
    size_t big = 1 + rng.below(5000);
    Check(Throws([&] { qlpeps::DumpVecData("/dev/full", std::vector<double>(big, 1.5)); }), "dump-full-silent", "writing ", big, " values to a full device reported success");
    Check(Throws([&] { qlpeps::DumpVecData("no/such/dir/x", v); }), "dump-noopen-silent", "");
    Observe("stat_dump_fault");
  }
}
template<class T> void ranks(Rng &rng) {
  int n = 1 + rng.below(6);
  double off = off_for(rng), w = w_for(rng);
  size_t L = rng.coin(0.15) ? rng.below(3) : 1 + rng.below(70), K = rng.below(5);
  bool constant = rng.coin(0.2); if (constant) w = 0; if (constant && rng.coin()) off = rng.uni(-3, 3);
  std::vector<std::vector<T>> d(n), lst(n); std::vector<T> one(n); bool uneven = rng.coin(.3); std::vector<size_t> Ls(n);
  for (int r = 0; r < n; ++r) {
    Ls[r] = uneven ? (rng.coin(.2) ? 0 : rng.below(60)) : L; d[r].resize(Ls[r]); for (auto &x : d[r]) x = draw<T>(rng, off, w);
    lst[r].resize(K); for (auto &x : lst[r]) x = draw<T>(rng, off, w);
    one[r] = draw<T>(rng, off, w);
  }
  Case(hash_bytes(one.data(), n * sizeof(T), L * 31 + K));
  vmpi::Options o = mp::Opt(rng, n);
  Doing(cat("ranks n=", n, " L=", L, " K=", K, " off=", off, " w=", w));
  auto res = vmpi::Run(o, [&](int r, std::ostream &os) {
    auto a = qlpeps::MeanAndBinnedErrorSqrtNUniformBin(d[r], MPI_COMM_WORLD);
    auto b = qlpeps::GatherStatisticSingleData(one[r], MPI_COMM_WORLD);
    std::vector<T> avg; std::vector<double> err;
    qlpeps::GatherStatisticListOfData(lst[r], MPI_COMM_WORLD, avg, err);
    if (r == 0) {
      mp::put(os, a.first); mp::put(os, a.second); mp::put(os, b.first); mp::put(os, b.second);
      mp::put(os, avg.size()); for (auto x : avg) mp::put(os, x);
      mp::put(os, err.size()); for (auto x : err) mp::put(os, x);
    }
  });
  if (!mp::Clean(res, "stats")) return;
  Observe("stat_ranks"); Observe("mpi_events", res.events);
  mp::In in(res.out[0]);
  T bm = in.get<T>(); double be = in.get<double>(); T sm = in.get<T>(); double se = in.get<double>();
  // binned: bins of floor(sqrt(L)) per rank
  std::complex<long double> m; long double var, mx;
  std::vector<Z> bins; if (uneven) { L = 70; Observe("stat_uneven_ranks"); }
  for (int r = 0; r < n; ++r) for (size_t b = std::max<size_t>(1, (size_t) std::sqrt((double) Ls[r])), i = 0; Ls[r] && i < Ls[r] / b; ++i) { std::complex<long double> s = 0; for (size_t k = 0; k < b; ++k) s += up(d[r][i * b + k]); s /= (long double) b; bins.push_back(Z(s.real(), s.imag())); }
  oracle(bins, m, var, mx); long double mb = mx; for (auto &v : d) for (auto x : v) mb = std::max(mb, std::abs(up(x)));
  Check(near_(bm, m, mb, 4 * L * n), "binned-mean", "n=", n, " L=", L, " got ", bm, " want ", (double) m.real());
  long double we = bins.empty() ? 0 : bins.size() == 1 ? INFINITY : std::sqrt(var / (bins.size() - 1));
  Check(near_err(be, we, mb, 4 * L * n), "binned-error", "n=", n, " L=", L, " got ", be, " want ", (double) we);
  oracle(one, m, var, mx);
  Check(near_(sm, m, mx, n), "single-mean", "n=", n, " got ", sm, " want ", (double) m.real());
  we = n == 1 ? INFINITY : std::sqrt(var / (n - 1));
  Check(near_err(se, we, mx, n), "single-error", "n=", n, " got ", se, " want ", (double) we, " off ", off, " w ", w);
  Observe("stat_single");
  size_t na = in.get<size_t>(); std::vector<T> avg(na); for (auto &x : avg) x = in.get<T>();
  size_t ne = in.get<size_t>(); std::vector<double> err(ne); for (auto &x : err) x = in.get<double>();
  Check(na == K && (n == 1 ? true : ne == K), "list-size", "n=", n, " K=", K, " avg ", na, " err ", ne);
  for (size_t i = 0; i < std::min(na, K); ++i) {
    std::vector<T> c; for (int r = 0; r < n; ++r) c.push_back(lst[r][i]);
    oracle(c, m, var, mx);
    Check(near_(avg[i], m, mx, n), "list-mean", "i=", i, " got ", avg[i]);
    if (n > 1 && i < ne) Check(near_err(err[i], std::sqrt(var / (n - 1)), mx, n), "list-error", "i=", i, " got ", err[i], " want ", (double) std::sqrt(var / (n - 1)));
  }
}
SECTION("ranks", 4, 16) {
  for (uint64_t i = 0; i < N(120, 1500); ++i) { if (rng.coin()) ranks<double>(rng); else ranks<Z>(rng); }
}
SECTION("tensor_mean", 2, 8) {
  using Q = qlten::special_qn::U1QN; using Ten = qlten::QLTensor<Z, Q>; using Idx = qlten::Index<Q>; using Sct = qlten::QNSector<Q>;
  for (uint64_t it = 0; it < N(100, 1000); ++it) {
    int n = 1 + rng.below(5); size_t d1 = 1 + rng.below(3), d2 = 1 + rng.below(3);
    Idx a({Sct(Q(0), d1), Sct(Q(1), d2)}, qlten::OUT), b = qlten::InverseIndex(a);
    std::vector<Ten> t(n, Ten({a, b}));
    for (auto &x : t) { x.Random(Q(0)); x *= Z(rng.gauss(), rng.gauss()); }
    Ten want = t[0]; for (int r = 1; r < n; ++r) want += t[r]; want *= Z(1.0 / n);
    Case(mix(it * 7 + n) ^ hash_bytes(t[0].GetRawDataPtr(), 16 * t[0].size()));
    auto o = mp::Opt(rng, n); Doing(cat("tensor mean n=", n));
    auto res = vmpi::Run(o, [&](int r, std::ostream &os) {
      Ten m = qlpeps::MPIMeanTensor(t[r], MPI_COMM_WORLD);
      if (r == 0) { double e = (m + (-want)).Get2Norm() / (1e-300 + want.Get2Norm()); mp::put(os, e); }
    });
    if (!mp::Clean(res, "tensor-mean")) continue;
    mp::In in(res.out[0]); double e = in.get<double>();
    Check(e < 1e-12, "tensor-mean-value", "n=", n, " relative error ", e);
    Observe("stat_tensor_mean"); Observe("mpi_events", res.events);
  }
}
