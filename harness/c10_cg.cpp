// C10: conjugate gradient, serial and distributed.
#include "mpi.h"
#include "qlten/qlten.h"
#include "qlpeps/utility/conjugate_gradient_solver.h"
#include "vh.h"
#include "mp.h"
using namespace vh;
using Z = std::complex<double>;
static Z cj(Z a) { return std::conj(a); }
static double cj(double a) { return a; }
template<class E> struct V {
  std::vector<E> d; V() = default; explicit V(size_t n) : d(n) {}
  double NormSquare() const { double s = 0; for (auto &x : d) s += std::norm(x); return s; }
  E operator*(const V &o) const { E s = 0; for (size_t i = 0; i < d.size(); ++i) s += cj(d[i]) * o.d[i]; return s; }
  V operator+(const V &o) const { V r(*this); r += o; return r; }
  V operator-(const V &o) const { V r(*this); for (size_t i = 0; i < d.size(); ++i) r.d[i] -= o.d[i]; return r; }
  V &operator+=(const V &o) { if (d.size() != o.d.size()) throw std::logic_error("vector size"); for (size_t i = 0; i < d.size(); ++i) d[i] += o.d[i]; return *this; }
  double n() const { return std::sqrt(NormSquare()); }
};
template<class E, class S> V<E> operator*(const S s, const V<E> &v) { V<E> r(v); for (auto &x : r.d) x *= s; return r; }
template<class E> V<E> operator*(const E s, const V<E> &v) { V<E> r(v); for (auto &x : r.d) x *= s; return r; }
static uint64_t g_mul = 0;
template<class E> struct M {
  size_t n; std::vector<E> a; explicit M(size_t n = 0) : n(n), a(n * n) {}
  V<E> operator*(const V<E> &v) const { ++g_mul; if (v.d.size() != n) throw std::logic_error("dimension"); V<E> r(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r.d[i] += a[i * n + j] * v.d[j]; return r; }
  double fro() const { double s = 0; for (auto &x : a) s += std::norm(x); return std::sqrt(s); }
};
template<class E> void MPI_Bcast(V<E> &v, const MPI_Comm &c) { unsigned long n = v.d.size(); ::MPI_Bcast(&n, 1, MPI_UNSIGNED_LONG, 0, c); v.d.resize(n); ::MPI_Bcast(v.d.data(), n, qlten::hp_numeric::GetMPIDataType<E>(), 0, c); }
template<class E> void MPI_Send(const V<E> &v, int p, const MPI_Comm &c, int tag) { unsigned long n = v.d.size(); ::MPI_Send(&n, 1, MPI_UNSIGNED_LONG, p, tag, c); ::MPI_Send(v.d.data(), n, qlten::hp_numeric::GetMPIDataType<E>(), p, tag, c); }
template<class E> MPI_Status MPI_Recv(V<E> &v, int p, const MPI_Comm &c, int tag) { MPI_Status s; unsigned long n; ::MPI_Recv(&n, 1, MPI_UNSIGNED_LONG, p, tag, c, &s); v.d.resize(n); ::MPI_Recv(v.d.data(), n, qlten::hp_numeric::GetMPIDataType<E>(), s.MPI_SOURCE, tag, c, &s); return s; }
template<class E> E rnd(Rng &r) { if constexpr (std::is_same_v<E, double>) return r.gauss(); else return Z(r.gauss(), r.gauss()); }
template<class E> V<E> rv(Rng &r, size_t n) { V<E> v(n); for (auto &x : v.d) x = rnd<E>(r); return v; }
// Hermitian with prescribed spectrum
template<class E> M<E> herm(Rng &r, size_t n, const std::vector<double> &w) {
  std::vector<V<E>> q; while (q.size() < n) { V<E> v = rv<E>(r, n); for (int k = 0; k < 2; ++k) for (auto &u : q) { E c = u * v; for (size_t i = 0; i < n; ++i) v.d[i] -= c * u.d[i]; } double m = v.n(); if (m < 1e-8) continue; for (auto &x : v.d) x /= m; q.push_back(v); }
  M<E> a(n); for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a.a[i * n + j] += w[k] * q[k].d[i] * cj(q[k].d[j]);
  for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) a.a[i * n + j] = cj(a.a[j * n + i]); a.a[i * n + i] = E(std::real(a.a[i * n + i])); }
  return a;
}
using R = qlpeps::CGTerminationReason;
template<class E> struct Prob { M<E> a; V<E> b, x0; qlpeps::ConjugateGradientParams p; int kind; double kappa, scale; };
template<class E> Prob<E> gen(Rng &rng) {
  Prob<E> q; size_t n = 1 + rng.below(rng.coin(0.2) ? 3 : rng.coin(.9) ? 18 : 40);
  q.kind = rng.coin(0.75) ? 0 : rng.coin() ? 1 : 2;   // 0 positive, 1 negative definite, 2 indefinite
  q.kappa = std::pow(10.0, rng.uni(0, rng.coin(0.2) ? 7 : 2)); q.scale = rng.coin(0.3) ? std::pow(10.0, rng.uni(-12, 12)) : 1;
  std::vector<double> w(n); for (auto &x : w) x = q.scale * std::pow(q.kappa, -rng.u01()); if (n > 1) { w[0] = q.scale; w[1] = q.scale / q.kappa; }
  if (q.kind == 1) for (auto &x : w) x = -x; if (q.kind == 2) { w[rng.below(n)] *= -1; }
  q.a = herm<E>(rng, n, w); q.b = rv<E>(rng, n); for (auto &x : q.b.d) x *= q.scale;
  if (rng.coin(0.05)) for (auto &x : q.b.d) x = 0;
  q.x0 = V<E>(n); if (rng.coin()) q.x0 = rv<E>(rng, n);
  q.p.max_iter = rng.coin(0.15) ? rng.below(4) : 60 * n + 400; q.p.relative_tolerance = std::pow(10.0, rng.uni(-11.7, -2)); q.p.absolute_tolerance = rng.coin(0.2) ? 1e-6 * q.scale : 0;
  q.p.residual_recompute_interval = rng.coin(0.3) ? 0 : 1 + rng.below(30); if (rng.coin(0.3)) q.p.orthogonality_threshold = rng.uni(0.05, 2);
  return q;
}
template<class E> std::string show(const Prob<E> &q) { return cat("n=", q.a.n, " kind=", q.kind, " kappa=", q.kappa, " scale=", q.scale, " rtol=", q.p.relative_tolerance, " atol=", q.p.absolute_tolerance, " max=", q.p.max_iter, " rec=", q.p.residual_recompute_interval, " orth=", q.p.orthogonality_threshold); }
template<class E> void judge(const Prob<E> &q, const V<E> &x, double res, size_t it, R reason, const char *who) {
  std::string s = std::string(who) + " " + show(q);
  if (!Check(x.d.size() == q.a.n, "cg-size", s)) return;
  double tr = (q.b - q.a * x).n(), r0 = (q.b - q.a * q.x0).n(), tol = std::max(q.p.relative_tolerance * q.b.n(), q.p.absolute_tolerance);
  double slack = 1e-12 * (q.a.fro() * (x.n() + q.x0.n()) + q.b.n()) * std::sqrt(1.0 + it);
  Check(std::isfinite(tr), "cg-nonfinite", s);
  Check(it <= q.p.max_iter, "cg-iterations", s, " iterations ", it);
  Check(std::abs(res - tr) <= slack + 1e-6 * tr, "cg-reported-residual", s, " reported ", res, " true ", tr, " slack ", slack);
  Check(tr <= r0 + slack, "cg-worse-than-start", s, " true ", tr, " start ", r0);
  if (reason == R::kConverged) Check(tr <= tol * (1 + 1e-6) + slack, "cg-false-convergence", s, " true ", tr, " tol ", tol, " it ", it);
  else if (reason == R::kMaxIterations) Check(it == q.p.max_iter && !(tr < tol * (1 - 1e-6) - slack), "cg-false-maxiter", s, " true ", tr, " tol ", tol, " it ", it);
  if (q.kind == 0) {
    if (q.kappa <= 1e4) Check(reason != R::kIndefiniteMatrix || tr <= 100 * slack, "cg-false-indefinite", s, " true ", tr, " tol ", tol, " it ", it);
    Check(reason != R::kNumericalBreakdown || tr <= 100 * slack, "cg-false-breakdown", s);
    if (q.p.max_iter > 300 && q.kappa <= 100 && q.p.orthogonality_threshold >= 0.3 && tol > 3e-13 * (q.a.fro() * (x.n() + q.x0.n()) + q.b.n())) Check(reason == R::kConverged, "cg-no-convergence", s, " reason ", qlpeps::to_string(reason), " it ", it, " true ", tr, " tol ", tol);
    Observe("cg_positive");
  }
  if (q.kind == 1 && q.p.max_iter > 0 && r0 > tol) { Check(reason == R::kIndefiniteMatrix, "cg-negative-unreported", s, " reason ", qlpeps::to_string(reason)); Observe("cg_negative"); }
  Observe(cat("cg_reason_", qlpeps::to_string(reason)));
}
template<class E> void one(Rng &rng) {
  auto q = gen<E>(rng); Doing(show(q)); Case(hash_bytes(q.b.d.data(), q.b.d.size() * sizeof(E), q.p.max_iter + q.kind));
  auto a0 = q.a; auto b0 = q.b.d, x00 = q.x0.d;
  auto r = qlpeps::ConjugateGradientSolver(q.a, q.b, q.x0, q.p);
  judge(q, r.x, r.residual_norm, r.iterations, r.reason, "serial");
  Check(q.b.d == b0 && q.x0.d == x00, "cg-inputs-modified", show(q));
  Check(r.converged() == (r.reason == R::kConverged), "cg-converged-flag", "");
  // rescaling by a power of two changes nothing but the scale (same units for both sides)
  double c = std::ldexp(1.0, (int) rng.range(-40, 40)); auto q2 = q; for (auto &x : q2.a.a) x *= c; for (auto &x : q2.b.d) x *= c; q2.p.absolute_tolerance *= c; q2.scale *= c;
  auto r2 = qlpeps::ConjugateGradientSolver(q2.a, q2.b, q2.x0, q2.p);
  judge(q2, r2.x, r2.residual_norm, r2.iterations, r2.reason, "serial-rescaled");
  bool resolvable = std::max(q.p.relative_tolerance * q.b.n(), q.p.absolute_tolerance) > 1e-9 * (q.a.fro() * (r.x.n() + q.x0.n()) + q.b.n());
  if (!resolvable) return;
  Check(r2.reason == r.reason || q.kind != 0 || q.kappa > 1e4, "cg-scale-dependent", show(q), " factor ", c, " ", qlpeps::to_string(r.reason), " vs ", qlpeps::to_string(r2.reason));
  if (r.reason == R::kConverged && r2.reason == R::kConverged) Check((r.x - r2.x).n() <= 1e-9 * (r.x.n() + 1e-300) * q.kappa, "cg-scale-solution", show(q));
  Observe("cg_rescaled");
}
SECTION("serial", 4, 16) { for (uint64_t i = 0; i < N(1500, 15000); ++i) { if (rng.coin()) one<double>(rng); else one<Z>(rng); } }
template<class E> void poison(Rng &rng) {
  auto q = gen<E>(rng); q.kind = 3; if (!q.p.max_iter) q.p.max_iter = 5;
  double bad = rng.coin() ? NAN : INFINITY; size_t at = rng.below(q.a.a.size()); q.a.a[at] = bad; Doing("poison " + show(q)); Case(at * 131 + q.a.n * 7 + (std::isnan(bad) ? 1 : 0) + hash_bytes(q.b.d.data(), 8));
  q.x0 = V<E>(q.a.n); for (auto &x : q.b.d) if (x == E(0)) x = 1;
  auto r = qlpeps::ConjugateGradientSolver(q.a, q.b, q.x0, q.p);
  bool fin = true; for (auto &x : r.x.d) fin = fin && std::isfinite(std::abs(x));
  Check(!r.converged() && fin, "cg-nan-solution", show(q), " reason ", qlpeps::to_string(r.reason), " finite ", fin);
  Observe("cg_poison");
}
SECTION("poison", 1, 4) { for (uint64_t i = 0; i < N(800, 8000); ++i) { if (rng.coin()) poison<double>(rng); else poison<Z>(rng); } }
template<class E> void dist(Rng &rng) {
  int n = 1 + rng.below(5); auto q = gen<E>(rng); if (q.p.max_iter > 400) q.p.max_iter = 120;
  std::vector<M<E>> part(n, M<E>(q.a.n)); double amp = q.a.fro() / q.a.n;   // A = sum of per-rank parts
  for (size_t i = 0; i < q.a.a.size(); ++i) { E left = q.a.a[i]; for (int r = 1; r < n; ++r) { E t = rnd<E>(rng) * amp; part[r].a[i] = t; left -= t; } part[0].a[i] = left; }
  M<E> eff(q.a.n); for (int r = 0; r < n; ++r) for (size_t i = 0; i < eff.a.size(); ++i) eff.a[i] += part[r].a[i];
  auto o = mp::Opt(rng, n); Doing(cat("dist ranks=", n, " ", show(q))); Case(hash_bytes(q.b.d.data(), q.b.d.size() * sizeof(E), n * 77 + q.kind));
  int rounds = 1 + rng.below(2);
  auto res = vmpi::Run(o, [&](int r, std::ostream &os) {
    for (int k = 0; k < rounds; ++k) {
      auto s = qlpeps::ConjugateGradientSolver(part[r], r == 0 ? q.b : V<E>(q.a.n), r == 0 ? q.x0 : V<E>(q.a.n), q.p, MPI_COMM_WORLD);
      int me; MPI_Comm_rank(MPI_COMM_WORLD, &me); if (me != r) throw std::logic_error("rank");
      if (r == 0) { for (auto &x : s.x.d) mp::put(os, x); mp::put(os, s.residual_norm); mp::put(os, s.iterations); mp::put(os, s.reason); }
    }
    int one = 1, tot = 0; MPI_Allreduce(&one, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); mp::put(os, tot);
  });
  if (!mp::Clean(res, "cg")) return;
  Observe("mpi_events", res.events); Observe("cg_distributed");
  mp::In in(res.out[0]); auto q2 = q; q2.a = eff;
  for (int k = 0; k < rounds; ++k) { V<E> x(q.a.n); for (auto &y : x.d) y = in.get<E>(); double rn = in.get<double>(); size_t it = in.get<size_t>(); R re = in.get<R>(); judge(q2, x, rn, it, re, "distributed"); 
    auto s = qlpeps::ConjugateGradientSolver(eff, q.b, q.x0, q.p);
    if (s.converged() && re == R::kConverged && q.kind == 0) { double lim = 4 * (q.p.relative_tolerance * q.b.n() + q.p.absolute_tolerance + 1e-10 * q.b.n()) * q.kappa / q.scale + 1e-12 * (s.x.n() + x.n() + q.x0.n()) * (1 + eff.fro() / q.scale) * q.kappa; Check((s.x - x).n() <= lim + 1e-9 * s.x.n(), "cg-distributed-differs", show(q), " ranks ", n, " diff ", (s.x - x).n(), " limit ", lim); Observe("cg_dist_vs_serial"); } }
}
SECTION("distributed", 6, 24) { for (uint64_t i = 0; i < N(80, 800); ++i) { if (rng.coin()) dist<double>(rng); else dist<Z>(rng); } }
