// C14: every representation of a state and every conversion between them describes the same wave function.
#include "tn.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
#include "qlpeps/api/conversions.h"
using namespace vh; using namespace tn;
template<class E> using V = std::vector<E>;
template<class E, class Q> V<E> wf(const qlpeps::SplitIndexTPS<E, Q> &s, size_t d) { V<E> v; all_cfg(s.rows() * s.cols(), d, [&](const std::vector<size_t> &c) { v.push_back(amplitude(s, c)); }); return v; }
// reference straight from the rank-5 tensors
template<class E, class Q> V<E> wf5(const qlpeps::TPS<E, Q> &t, size_t d) {
  V<E> v; size_t C = t.cols();
  all_cfg(t.rows() * C, d, [&](const std::vector<size_t> &c) {
    auto site = [&](size_t r, size_t k) { const auto &x = t({r, k}); auto ix = x.GetIndexes(); std::vector<qlten::QLTensor<E, Q>> dummy; size_t st = x.GetIndex(4).dim();
      if constexpr (Q::IsFermionic()) ix[4] = Idx<Q>({Sct<Q>(ix[4].GetQNSctFromActualCoor(c[r * C + k]).GetQn(), 1)}, ix[4].GetDir()); else ix.pop_back();
      qlten::QLTensor<E, Q> y(ix); if (x.HasData_()) { if (y.size()) { if constexpr (Q::IsFermionic()) y.Alloc_(x.Div()); else { auto q = x.GetIndex(4).GetQNSctFromActualCoor(c[r * C + k]).GetQn(); y.Alloc_(x.GetIndex(4).GetDir() == qlten::OUT ? x.Div() - q : x.Div() + q); } for (size_t o = 0; o < y.size(); ++o) y.Data_()[o] = x.Data_()[o * st + c[r * C + k]]; } } return y; };
    if constexpr (Q::IsFermionic()) v.push_back(amplitude_graded<E, Q>(t.rows(), C, site)); else v.push_back(amplitude_dense<E, Q>(t.rows(), C, t.GetBoundaryCondition() == BoundaryCondition::Periodic, site));
  });
  return v;
}
template<class E> double top(const V<E> &v) { double m = 0; for (auto &x : v) m = std::max(m, mag(x)); return m; }
template<class E> bool eqv(const V<E> &a, const V<E> &b, double tol, std::string &why) { if (a.size() != b.size()) { why = "length"; return false; } double m = std::max(top(a), top(b)); for (size_t i = 0; i < a.size(); ++i) if (!(mag(a[i] - b[i]) <= tol * m)) { why = cat("configuration ", i, " got ", a[i], " want ", b[i], " largest ", m); return false; } return true; }
struct Sz { size_t R, C; BoundaryCondition bc; size_t D; };
template<class Q> Sz shape(Rng &r) {
  Sz s; s.bc = !Q::IsFermionic() && r.coin(0.4) ? BoundaryCondition::Periodic : BoundaryCondition::Open; bool per = s.bc == BoundaryCondition::Periodic;
  std::vector<std::pair<size_t, size_t>> o{{1, 1}, {1, 2}, {2, 1}, {1, 4}, {3, 1}, {2, 2}, {2, 3}, {3, 2}}; if (!per) { o.push_back({1, 5}); if (!Q::IsFermionic()) o.push_back({3, 3}); } auto [a, b] = o[r.below(o.size())]; s.R = a; s.C = b; s.D = 2; if (a * b <= 4 && r.coin()) s.D = 3; return s;
}
template<class E, class Q> void conv(Rng &rng) {
  using S = qlpeps::SplitIndexTPS<E, Q>; Sz z = shape<Q>(rng); size_t d = z.R * z.C <= 4 && rng.coin(0.3) ? 3 : 2; if (Q::IsFermionic()) d = 2; auto p = phys<Q>(rng, d); std::string sig = cat(z.R, "x", z.C, z.bc == BoundaryCondition::Periodic ? " pbc " : " obc ", qname<Q>(), " d", d); Doing(sig);
  Q tot; if constexpr (std::is_same_v<Q, U1>) if (z.bc == BoundaryCondition::Open) tot = Q((int) rng.range(-1, 2));
  auto t = random_tps<E, Q>(rng, z.R, z.C, z.bc, z.D, p, tot); V<E> ref = wf5(t, d); std::string w;
  Case(hash_str(sig) ^ mix((uint64_t) (top(ref) * 1e6))); if (top(ref) > 0) Observe("wf_nonzero");
  S s = S::FromTPS(t); Check(s.GetBoundaryCondition() == z.bc, "split-boundary", sig);
  Check(eqv(wf(s, d), ref, 1e-12, w), "split", sig, " ", w); Observe("wf_split");
  S s2 = qlpeps::SplitPhyIndex<E, Q>(t), s3 = qlpeps::ToSplitIndexTPS<E, Q>(t); Check(eqv(wf(s2, d), ref, 1e-12, w) && eqv(wf(s3, d), ref, 1e-12, w), "split-alias", sig, " ", w);
  auto g = s.GroupIndices(p); Check(g.GetBoundaryCondition() == z.bc, "group-boundary", sig);
  { bool ok = true; for (size_t r = 0; r < z.R; ++r) for (size_t c = 0; c < z.C; ++c) ok = ok && g({r, c}) == t({r, c}); if (!Q::IsFermionic()) Check(ok, "group-roundtrip", sig); else Check(eqv(wf5(g, d), ref, 1e-12, w), "group-wavefunction", sig, " ", w); } Observe("wf_group");
  // projection and single-site updates
  size_t n = z.R * z.C; std::vector<size_t> c(n); for (auto &x : c) x = rng.below(d); 
  { bool nodata = false; for (size_t i = 0; i < n; ++i) nodata = nodata || !s({i / z.C, i % z.C})[c[i]].HasData_();
    if (!nodata) { auto net = s.Project(config(z.R, z.C, c)); size_t k = rng.below(n), nv = rng.below(d); qlpeps::SiteIdx at({k / z.C, k % z.C});
      bool ok = net.GetBoundaryCondition() == z.bc; for (size_t i = 0; i < n; ++i) ok = ok && net({i / z.C, i % z.C}) == s({i / z.C, i % z.C})[c[i]]; Check(ok, "project", sig);
      net.UpdateSiteTensor(at, nv, s); ok = true; for (size_t i = 0; i < n; ++i) ok = ok && net({i / z.C, i % z.C}) == s({i / z.C, i % z.C})[i == k ? nv : c[i]]; Check(ok, "update-site", sig); 
      auto bad = c; bad[k] = d + rng.below(3); Check(Throws([&] { s.Project(config(z.R, z.C, bad)); }), "out-of-range-state-accepted", sig);
      S broken = s; broken(at)[c[k]] = qlten::QLTensor<E, Q>(); Check(Throws([&] { broken.Project(config(z.R, z.C, c)); }), "uninitialised-component-accepted", sig);
      S empty = s; empty(at).clear(); Check(Throws([&] { empty.Project(config(z.R, z.C, c)); }), "empty-site-accepted", sig);
      Observe("wf_project"); } }
}
template<class E, class Q> void sums(Rng &rng) {
  Sz z = shape<Q>(rng); size_t d = 2; auto p = phys<Q>(rng, d); std::string sig = cat("sum ", z.R, "x", z.C, z.bc == BoundaryCondition::Periodic ? " pbc " : " obc ", qname<Q>()), w; Doing(sig); if (z.bc == BoundaryCondition::Periodic && z.R * z.C > 4) z.D = 1;
  Q tot; if constexpr (std::is_same_v<Q, U1>) if (z.bc == BoundaryCondition::Open && z.R * z.C > 1) tot = Q((int) (z.R * z.C) % 2);
  size_t K = 2 + rng.below(2); if (z.R * z.C > 4) K = 2; std::vector<qlpeps::TPS<E, Q>> t; std::vector<V<E>> f; std::vector<E> co;
  for (size_t k = 0; k < K; ++k) { t.push_back(random_tps<E, Q>(rng, z.R, z.C, z.bc, z.D, p, tot)); f.push_back(wf5(t[k], d)); co.push_back(rng.coin(0.2) ? E(-1) : rnd<E>(rng)); }
  auto comb = [&](const std::vector<E> &c) { V<E> v(f[0].size()); for (size_t k = 0; k < c.size(); ++k) for (size_t i = 0; i < v.size(); ++i) v[i] += c[k] * f[k][i]; return v; };
  double scale = 0; for (auto &x : f) scale = std::max(scale, top(x)); Case(hash_str(sig) ^ mix((uint64_t) (scale * 1e6)));
  auto cmp = [&](const qlpeps::TPS<E, Q> &r, const V<E> &want, const char *k, auto... a) { V<E> got = wf5(r, d); double m = std::max({top(got), top(want), scale}); for (size_t i = 0; i < want.size(); ++i) if (mag(got[i] - want[i]) > 1e-11 * m) { Violation(k, cat(sig, " configuration ", i, " got ", got[i], " want ", want[i], a...)); return; } Check(r.GetBoundaryCondition() == z.bc, "sum-boundary", sig); Observe("wf_sum"); };
  cmp(qlpeps::WaveFunctionSum(t[0], t[1]), comb({E(1), E(1)}), "plain-sum");
  cmp(qlpeps::WaveFunctionSum(co[0], t[0], co[1], t[1]), comb({co[0], co[1]}), "weighted-sum", " coefficients ", co[0], " ", co[1]);
  cmp(qlpeps::WaveFunctionSum(t), comb(std::vector<E>(K, E(1))), "list-sum");
  cmp(qlpeps::WaveFunctionSum(t, co), comb(co), "weighted-list-sum", " coefficients ", vec2s(co));
  cmp(qlpeps::WaveFunctionSum(std::vector<qlpeps::TPS<E, Q>>{t[0]}, std::vector<E>{co[0]}), comb({co[0]}), "single-scaled", " coefficient ", co[0]);
}
// Gamma-lambda form
template<class E, class Q> struct Rev { std::vector<bool> v, h; };
template<class E, class Q> V<E> wfpeps(const qlpeps::SquareLatticePEPS<E, Q> &s, size_t d) {
  size_t R = s.Rows(), C = s.Cols(); bool per = s.GetBoundaryCondition() == BoundaryCondition::Periodic; V<E> v;
  auto ce = [](const auto &t) { qlten::QLTensor<E, Q> r(t.GetIndexes()); if (t.HasData_()) { r.Alloc_(t.Div()); for (size_t i = 0; i < t.size(); ++i) r.Data_()[i] = t.Data_()[i]; } return r; };
  // absorb whole lambdas into the right / lower tensors, then contract
  std::vector<qlten::QLTensor<E, Q>> site;
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
    auto x = s.Gamma({r, c}); auto lw = ce(s.lambda_horiz({r, c})), ln = ce(s.lambda_vert({r, c})); qlten::QLTensor<E, Q> y, y2;
    Contract(&lw, {1}, &x, {0}, &y);            // W S E N p
    Contract(&y, {3}, &ln, {1}, &y2); y2.Transpose({0, 1, 2, 4, 3});
    if (!per && r + 1 == R) { auto ls = ce(s.lambda_vert({R, c})); Contract(&y2, {1}, &ls, {0}, &y); y.Transpose({0, 4, 1, 2, 3}); y2 = y; }
    if (!per && c + 1 == C) { auto le = ce(s.lambda_horiz({r, C})); Contract(&y2, {2}, &le, {0}, &y); y.Transpose({0, 1, 4, 2, 3}); y2 = y; }
    site.push_back(y2);
  }
  qlpeps::TPS<E, Q> t(R, C, s.GetBoundaryCondition()); for (size_t i = 0; i < site.size(); ++i) t({i / C, i % C}) = site[i];
  return wf5(t, d);
}
template<class E, class Q> void peps(Rng &rng) {
  Sz z = shape<Q>(rng); size_t d = 2; auto p = phys<Q>(rng, d); bool per = z.bc == BoundaryCondition::Periodic; std::string sig = cat("peps ", z.R, "x", z.C, per ? " pbc " : " obc ", qname<Q>()), w; Doing(sig);
  using P = qlpeps::SquareLatticePEPS<E, Q>; P s(p, z.R, z.C, z.bc); using DT_ = qlten::QLTensor<double, Q>;
  bool rev = rng.coin(); auto I = [](const Idx<Q> &x) { return qlten::InverseIndex(x); };
  for (size_t r = 0; r < s.lambda_vert.rows(); ++r) for (size_t c = 0; c < z.C; ++c) { bool in = per || (r > 0 && r < z.R); auto b = in ? bond<Q>(rng, 1 + rng.below(z.D)) : unit(Q(), qlten::OUT); if (in && rev && rng.coin()) b.Inverse(); DT_ l({I(b), b}); for (size_t k = 0; k < b.dim(); ++k) l.SetElem({k, k}, in ? rng.uni(0.1, 1.5) : 1.0); s.lambda_vert({r, c}) = l; }
  for (size_t r = 0; r < z.R; ++r) for (size_t c = 0; c < s.lambda_horiz.cols(); ++c) { bool in = per || (c > 0 && c < z.C); auto b = in ? bond<Q>(rng, 1 + rng.below(z.D)) : unit(Q(), qlten::OUT); if (in && rev && rng.coin()) b.Inverse(); DT_ l({I(b), b}); for (size_t k = 0; k < b.dim(); ++k) l.SetElem({k, k}, in ? rng.uni(0.1, 1.5) : 1.0); s.lambda_horiz({r, c}) = l; }
  for (size_t r = 0; r < z.R; ++r) for (size_t c = 0; c < z.C; ++c) { qlten::QLTensor<E, Q> x({I(s.GetLambdaHorizWest(r, c).GetIndex(1)), I(s.GetLambdaVertSouth(r, c).GetIndex(0)), I(s.GetLambdaHorizEast(r, c).GetIndex(0)), I(s.GetLambdaVertNorth(r, c).GetIndex(1)), p}); randomize(x, rng); s.Gamma({r, c}) = x; }
  if (per) for (size_t r = 0; r < z.R; ++r) for (size_t c = 0; c < z.C; ++c) Check(&s.GetLambdaHorizEast(r, c) == &s.GetLambdaHorizWest(r, (c + 1) % z.C) && &s.GetLambdaVertSouth(r, c) == &s.GetLambdaVertNorth((r + 1) % z.R, c), "lambda-neighbours", sig);
  V<E> ref = wfpeps(s, d); Case(hash_str(sig) ^ mix((uint64_t) (top(ref) * 1e6)) ^ rev);
  auto before = s; V<E> got = wf5(qlpeps::ToTPS<E, Q>(s), d);
  Check(eqv(got, ref, 1e-11, w), rev ? "peps-to-tps-reversed" : "peps-to-tps", sig, " ", w); Check(s == before, "conversion-modified-source", sig);
  Check(eqv(wf(qlpeps::ToSplitIndexTPS<E, Q>(s), d), ref, 1e-11, w), "peps-to-split", sig, " ", w); Observe("wf_peps"); if (rev) Observe("wf_peps_reversed");
  size_t mx = 0, mn = 1000; for (auto &l : s.lambda_vert) { mx = std::max(mx, l.GetShape()[0]); mn = std::min(mn, l.GetShape()[0]); } for (auto &l : s.lambda_horiz) { mx = std::max(mx, l.GetShape()[0]); mn = std::min(mn, l.GetShape()[0]); }
  Check(s.GetMaxBondDim() == mx && s.GetMinMaxBondDim() == std::make_pair(mn, mx), "peps-bond-dims", sig);
  P moved(s), m2(std::move(moved)), m3(p, 1, 1, BoundaryCondition::Open); m3 = std::move(m2); Check(m3 == s && !(m3 != s) && m3.GetBoundaryCondition() == z.bc && m3.Rows() == z.R && m3.Cols() == z.C, "peps-copy-move", sig);
  { P ch(s); auto &g = ch.Gamma({rng.below(z.R), rng.below(z.C)}); if (g.HasData_() && g.Get2Norm() > 0) { g *= 1.5; Check(ch != s, "peps-equality-blind-gamma", sig); } P c2(s); auto &l = c2.lambda_horiz({rng.below(z.R), rng.below(z.C)}); l *= 1.5; Check(c2 != s, "peps-equality-blind-lambda", sig); }
  // normalisation changes only the overall factor it reports
  bool zero = false; for (auto &g : s.Gamma) zero = zero || !(g.Get2Norm() > 0);
  if (!zero) { double f = s.NormalizeAllTensor(); V<E> n = wfpeps(s, d); for (auto &x : n) x *= f; Check(eqv(n, ref, 1e-11, w), "normalise-factor", sig, " ", w); for (auto &g : s.Gamma) Check(vh::close(g.Get2Norm(), 1, 1e-10), "normalise-gamma", sig); Observe("wf_normalise"); }
}
template<class E, class Q> void product(Rng &rng) {
  Sz z = shape<Q>(rng); if (rng.coin(0.3) && !Q::IsFermionic()) z.bc = BoundaryCondition::Periodic; size_t d = 2; auto p = phys<Q>(rng, d); bool per = z.bc == BoundaryCondition::Periodic; std::string w;
  std::vector<size_t> c(z.R * z.C); for (auto &x : c) x = rng.below(d); auto act = std::vector<std::vector<size_t>>(z.R, std::vector<size_t>(z.C)); for (size_t i = 0; i < c.size(); ++i) act[i / z.C][i % z.C] = c[i];
  std::string sig = cat("product ", z.R, "x", z.C, per ? " pbc " : " obc ", qname<Q>(), " ", vec2s(c)); Doing(sig); Case(hash_str(sig));
  qlpeps::SquareLatticePEPS<E, Q> s(p, z.R, z.C, z.bc); s.Initial(act); size_t k = 0, pos = 0; for (auto x : c) pos = pos * d + x;
  auto t = qlpeps::ToTPS<E, Q>(s);
  for (const V<E> &v : {wfpeps(s, d), wf5(t, d), wf(qlpeps::ToSplitIndexTPS<E, Q>(t), d)}) for (size_t i = 0; i < v.size(); ++i) { bool ok = i == pos ? (Q::IsFermionic() ? std::abs(mag(v[i]) - 1) < 1e-12 : mag(v[i] - E(1)) < 1e-12) : v[i] == E(0); if (!Check(ok, "product-state", sig, " configuration ", i, " amplitude ", v[i])) return; }
  Check(s.GetMaxBondDim() == 1, "product-bond", sig); Observe("wf_product");
}
#define CONV(nm, E, Q) \
  SECTION("conv_" nm, 1, 4) { for (uint64_t i = 0; i < N(150, 2500); ++i) conv<E, Q>(rng); } \
  SECTION("sums_" nm, 1, 4) { for (uint64_t i = 0; i < N(60, 1200); ++i) sums<E, Q>(rng); } \
  SECTION("peps_" nm, 1, 4) { for (uint64_t i = 0; i < N(150, 2500); ++i) peps<E, Q>(rng); } \
  SECTION("product_" nm, 1, 4) { for (uint64_t i = 0; i < N(200, 3000); ++i) product<E, Q>(rng); }
CONV("td", double, Triv)
CONV("uz", Z, U1)
CONV("fd", double, fZ2)
CONV("fz", Z, fZ2)
