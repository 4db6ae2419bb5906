// C17: TRG contraction of a periodic network equals the brute-force contraction whatever the history of trials, commits and reloads.
#include "tn.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/tensor_network_2d.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
using namespace vh; using namespace tn; using namespace qlpeps;
// random periodic network; every bond has dimension D with probability p, else 1
template<class E, class Q> struct Net {
  using T = qlten::QLTensor<E, Q>; size_t n; std::vector<Idx<Q>> h, v; std::vector<T> t; std::vector<Q> div;
  T fresh(Rng &r, size_t i) const { size_t a = i / n, c = i % n; T x({qlten::InverseIndex(h[i]), v[((a + 1) % n) * n + c], h[a * n + (c + 1) % n], qlten::InverseIndex(v[i])}); if constexpr (std::is_same_v<Q, Triv>) randomize(x, r); else randomize(x, r, div[i]); return x; }
  Net(Rng &r, size_t n_, double p, size_t D, bool uniform) : n(n_) {
    for (size_t i = 0; i < n * n; ++i) { auto b = [&] { size_t d = uniform ? D : r.coin(p) ? 2 + r.below(D - 1) : 1; if constexpr (std::is_same_v<Q, U1>) { qlten::QNSectorVec<Q> s{Sct<Q>(Q(0), 1)}; if (d == 2) s.push_back(r.coin() ? Sct<Q>(Q(1), 1) : Sct<Q>(Q(-1), 1)); if (d == 3) s = {Sct<Q>(Q(-1), 1), Sct<Q>(Q(0), r.coin() ? 2u : 1u)}; if (d == 3 && r.coin()) s.push_back(Sct<Q>(Q(1), 1)); return Idx<Q>(s, qlten::OUT); } else return bond<Q>(r, d); }; h.push_back(b()); v.push_back(b()); div.push_back(Q()); }
    for (size_t i = 0; i < n * n; ++i) t.push_back(fresh(r, i)); }
  E exact() const { return amplitude_dense<E, Q>(n, n, true, [&](size_t r, size_t c) -> const T & { return t[r * n + c]; }); }
};
template<class E, class Q> void run(Rng &rng, uint64_t cases, std::vector<size_t> sizes, double p, size_t D, bool uniform, size_t Dcut) {
  using T = qlten::QLTensor<E, Q>; using TN = TensorNetwork2D<E, Q>; using CT = TRGContractor<E, Q>;
  for (uint64_t k = 0; k < cases; ++k) {
    size_t n = sizes[rng.below(sizes.size())]; std::unique_ptr<Net<E, Q>> N; E z = 0; bool ok = false;
    for (int a = 0; a < 40 && !ok; ++a) { N = std::make_unique<Net<E, Q>>(rng, n, p, D, uniform); ok = true; for (auto &x : N->t) ok = ok && x.HasData_() && x.Get2Norm() > 0; if (ok) { z = N->exact(); ok = mag(z) > 0; } }
    if (!ok) { TrivialCase(); continue; }
    std::string sig = cat(n, "x", n, " ", qname<Q>(), std::is_same_v<E, Z> ? " z" : " d", uniform ? " uniform" : "", " D", D); Case(hash_str(sig) ^ rng()); Doing(sig);
    const double tol = 1e-9;
    TN tn_(n, n, BoundaryCondition::Periodic); auto put = [&] { for (size_t i = 0; i < n * n; ++i) tn_({i / n, i % n}) = N->t[i]; }; put();
    CT ct(n, n); auto tp = TRGTruncateParams<double>::SVD(1, Dcut, 0.0); ct.SetTruncateParams(tp); ct.Init(tn_); bool dead = false;
    auto scale = [&] { double s = 1; for (auto &x : N->t) s *= x.Get2Norm() / std::sqrt((double) x.size()); for (auto &b : N->h) s *= std::sqrt((double) b.dim()); for (auto &b : N->v) s *= std::sqrt((double) b.dim()); return s; };   // typical size of the contraction
    auto cmp = [&](E got, E want, const char *what, double t2 = 0) { Observe(cat("trg_", what)); double lim = tol * (mag(want) + scale()) + t2; if (!(mag(got - want) <= lim)) { Violation(cat("trg-", what), cat(sig, " got ", got, " want ", want, " limit ", lim)); dead = true; } };
    cmp(ct.Trace(tn_), z, "trace");
    for (int op = 0; op < 6 && !dead; ++op) {
      int o = (int) rng.below(6); sig += cat(" ", o); Doing(sig);
      auto pick = [&] { std::vector<std::pair<SiteIdx, T>> rep; size_t m = 1 + rng.below(3); std::vector<char> used(n * n, 0); for (size_t a = 0; a < m; ++a) { size_t i = rng.below(n * n); if (rng.coin() && a) i = (i / n) * n + (rep.back().first.col() + 1) % n; if (used[i]) continue; used[i] = 1; rep.push_back({SiteIdx{i / n, i % n}, N->fresh(rng, i)}); } return rep; };
      auto with = [&](const std::vector<std::pair<SiteIdx, T>> &rep) { auto c = N->t; for (auto &[s, x] : rep) N->t[s.row() * n + s.col()] = x; E w = N->exact(); auto after = N->t; N->t = c; return std::make_pair(w, after); };
      switch (o) {
        case 0: { auto rep = pick(); auto [w, aft] = with(rep); cmp(ct.EvaluateReplacement(rep), w, "evaluate"); if (!dead) cmp(ct.Trace(tn_), N->exact(), "unchanged"); break; }
        case 1: { auto rep = pick(); auto rep2 = pick(); auto [w, aft] = with(rep); auto [w2, aft2] = with(rep2); auto tr = ct.BeginTrialWithReplacement(rep); auto tr2 = ct.BeginTrialWithReplacement(rep2); cmp(tr.amplitude, w, "trial"); if (!dead) cmp(tr2.amplitude, w2, "trial"); if (!dead) cmp(ct.Trace(tn_), N->exact(), "unchanged");
          if (!dead && rng.coin(0.7)) { ct.CommitTrial(std::move(tr)); N->t = aft; put(); cmp(ct.Trace(tn_), w, "commit"); if (!dead) cmp(ct.EvaluateReplacement({}), w, "commit"); } break; }
        case 2: case 3: if (n >= 2) { TN holes = ct.PunchAllHoles(tn_); E w = N->exact();
          for (size_t i = 0; i < n * n && !dead; ++i) { const T &hl = holes({i / n, i % n}); const T &x = N->t[i]; if (!Check(hl.Rank() == 4 && hl.size() == x.size(), "hole-shape", sig)) { dead = true; break; } bool sh = true; for (int a = 0; a < 4; ++a) sh = sh && hl.GetShape()[a] == x.GetShape()[a]; if (!Check(sh, "hole-shape", sig)) { dead = true; break; }
            E v = 0; for (size_t j = 0; j < x.size(); ++j) v += hl.At_(j) * x.At_(j); cmp(v, w, "hole", 1e-8 * mag(w));
            if (!dead && rng.coin(n > 4 ? 0.05 : 0.3)) { auto keep = N->t[i]; T y = N->fresh(rng, i); N->t[i] = y; E w2 = N->exact(); double sc = scale(); N->t[i] = keep; (void) sc; E v2 = 0; for (size_t j = 0; j < y.size(); ++j) v2 += hl.At_(j) * y.At_(j); Observe("trg_hole_direction");
              if (n <= 3) cmp(v2, w2, "hole-any"); } } }
          break;
        case 4: { size_t i = rng.below(n * n); N->t[i] = N->fresh(rng, i); put(); if (rng.coin()) ct.ClearCache(); else ct.Init(tn_); cmp(ct.Trace(tn_), N->exact(), "reload"); break; }
        default: { CT copy = ct; cmp(copy.Trace(tn_), N->exact(), "copy"); auto rep = pick(); auto [w, aft] = with(rep); if (dead) break; copy.CommitTrial(copy.BeginTrialWithReplacement(rep)); cmp(copy.Trace(tn_), w, "commit"); if (!dead) cmp(ct.Trace(tn_), N->exact(), "unchanged"); break; }
      }
    }
    if (rng.coin(0.05)) Sample(sig); Observe("trg_history");
  }
}
SECTION("small_bd", 1, 4) { run<double, Triv>(rng, N(200, 2000), {1, 2, 3}, 0.8, 3, false, 1000); }
SECTION("small_bz", 1, 4) { run<Z, Triv>(rng, N(200, 2000), {1, 2, 3}, 0.8, 3, false, 1000); }
SECTION("small_ud", 1, 4) { run<double, U1>(rng, N(200, 2000), {1, 2, 3}, 0.8, 3, false, 1000); }
SECTION("small_uz", 1, 4) { run<Z, U1>(rng, N(200, 2000), {1, 2, 3}, 0.8, 3, false, 1000); }
SECTION("four_bd", 1, 8) { run<double, Triv>(rng, N(20, 300), {4}, 0.7, 2, false, 4); }
SECTION("four_bz", 1, 8) { run<Z, Triv>(rng, N(20, 300), {4}, 0.7, 2, true, 4); }
SECTION("four_ud", 1, 8) { run<double, U1>(rng, N(20, 300), {4}, 0.7, 2, false, 4); }
SECTION("four_uz", 1, 8) { run<Z, U1>(rng, N(20, 300), {4}, 0.7, 2, true, 4); }
SECTION("six_bd", 1, 8) { run<double, Triv>(rng, N(6, 100), {6}, 0.7, 2, true, 4); }
SECTION("six_bz", 1, 8) { run<Z, Triv>(rng, N(6, 100), {6}, 0.7, 2, true, 4); }
SECTION("sparse_bd", 1, 8) { run<double, Triv>(rng, N(20, 300), {6, 8, 12}, 0.1, 2, false, 1000); }
SECTION("sparse_uz", 1, 8) { run<Z, U1>(rng, N(20, 300), {6, 8, 12}, 0.1, 2, false, 1000); }
SECTION("refuse", 1, 2) {
  using TN = TensorNetwork2D<double, Triv>; using CT = TRGContractor<double, Triv>; auto thr = [&](auto &&f) { try { f(); } catch (const std::exception &) { return true; } return false; };
  for (size_t r = 1; r <= 14; ++r) for (size_t c = 1; c <= 14; ++c) for (int per = 0; per < 2; ++per) {
    Case(r * 1000 + c * 10 + per); TN t(r, c, per ? BoundaryCondition::Periodic : BoundaryCondition::Open); CT ct(r, c); auto p2 = [](size_t n) { return (n & (n - 1)) == 0; }; bool good = per && r == c && (p2(r) || (r % 3 == 0 && p2(r / 3)));
    bool got = !thr([&] { ct.Init(t); }); Observe("trg_refuse"); Check(got == good, "trg-geometry", r, "x", c, per ? " periodic " : " open ", got ? "accepted" : "refused");
  }
  TN t(2, 2, BoundaryCondition::Periodic); CT ct(2, 2); Check(thr([&] { ct.Trace(t); }), "trg-uninitialised", "Trace before Init"); ct.Init(t); Check(thr([&] { ct.Trace(t); }), "trg-no-params", "Trace without truncation parameters"); Check(thr([&] { ct.GetTruncateParams(); }), "trg-no-params", "GetTruncateParams");
  ct.SetTruncateParams(TRGTruncateParams<double>::SVD(1, 4, 0.0)); Check(thr([&] { ct.EvaluateReplacement({}); }), "trg-no-trace", "EvaluateReplacement before Trace"); Check(thr([&] { ct.BeginTrialWithReplacement({}); }), "trg-no-trace", "trial before Trace");
}
