// C13: split-index states form a vector space over their components.
#include "tn.h"
using namespace vh; using namespace tn; using qlpeps::SiteIdx;
template<class E> struct Sh {   // shadow: default components are nullopt
  size_t R = 0, C = 0; bool per = false; size_t d = 0; std::vector<std::optional<std::vector<E>>> v;
};
template<class E, class Q> Sh<E> snap(const qlpeps::SplitIndexTPS<E, Q> &s, bool &ok) {
  Sh<E> r; r.R = s.rows(); r.C = s.cols(); r.per = s.GetBoundaryCondition() == BoundaryCondition::Periodic; r.d = s.PhysicalDim(); ok = true;
  for (size_t i = 0; i < r.R; ++i) for (size_t j = 0; j < r.C; ++j) { if (s({i, j}).size() != r.d) { ok = false; return r; } for (auto &t : s({i, j})) { if (t.IsDefault()) r.v.push_back(std::nullopt); else { std::vector<E> x(t.size()); for (size_t k = 0; k < x.size(); ++k) x[k] = t.At_(k); r.v.push_back(x); } } }
  return r;
}
template<class E> bool same(const Sh<E> &a, const Sh<E> &b, double tol, std::string &why) {
  if (a.R != b.R || a.C != b.C || a.d != b.d) { why = "shape"; return false; }
  if (a.per != b.per) { why = cat("boundary condition ", a.per, " want ", b.per); return false; }
  double sc = 0; for (auto &x : b.v) if (x) for (auto &y : *x) sc = std::max(sc, mag(y));
  for (size_t i = 0; i < a.v.size(); ++i) {
    if (a.v[i].has_value() != b.v[i].has_value()) { why = cat("component ", i, " default ", !a.v[i], " want ", !b.v[i]); return false; }
    if (a.v[i]) { if (a.v[i]->size() != b.v[i]->size()) { why = "component size"; return false; } for (size_t k = 0; k < a.v[i]->size(); ++k) if (!(mag((*a.v[i])[k] - (*b.v[i])[k]) <= tol * (sc + 1e-300) + tol * mag((*b.v[i])[k]))) { why = cat("component ", i, " element ", k, " got ", (*a.v[i])[k], " want ", (*b.v[i])[k]); return false; } }
  }
  return true;
}
template<class E, class F> Sh<E> mapv(Sh<E> a, F f) { for (auto &x : a.v) if (x) for (auto &y : *x) y = f(y); return a; }
template<class E> Sh<E> lin(const Sh<E> &a, E s, const Sh<E> &b) { Sh<E> r = a; for (size_t i = 0; i < r.v.size(); ++i) { if (!b.v[i]) continue; if (!r.v[i]) { r.v[i] = b.v[i]; for (auto &y : *r.v[i]) y *= s; } else for (size_t k = 0; k < r.v[i]->size(); ++k) (*r.v[i])[k] += s * (*b.v[i])[k]; } return r; }
template<class E> E dot(const Sh<E> &a, const Sh<E> &b) { E r = 0; for (size_t i = 0; i < a.v.size(); ++i) if (a.v[i] && b.v[i]) for (size_t k = 0; k < a.v[i]->size(); ++k) r += cj((*a.v[i])[k]) * (*b.v[i])[k]; return r; }
template<class E> double n2(const Sh<E> &a) { return std::abs(dot(a, a)); }

template<class E, class Q> void history(Rng &rng) {
  using S = qlpeps::SplitIndexTPS<E, Q>;
  size_t R = rng.coin(0.25) ? 1 : 1 + rng.below(3), C = rng.coin(0.25) ? 1 : 1 + rng.below(3), d = 2 + rng.below(2);
  auto bc = rng.coin() ? BoundaryCondition::Periodic : BoundaryCondition::Open; if (Q::IsFermionic() && false) bc = BoundaryCondition::Open;
  auto p = phys<Q>(rng, d); auto tps = random_tps<E, Q>(rng, R, C, bc, 3, p); S base = S::FromTPS(tps);
  const size_t K = 4; std::vector<S> s(K, base); std::vector<Sh<E>> m(K); bool ok;
  for (size_t k = 0; k < K; ++k) {
    for (auto &site : s[k]) for (auto &t : site) { double sc = rng.coin(0.2) ? std::pow(10.0, rng.uni(-6, 6)) : 1; if (t.HasData_()) for (auto &x : t.Data_()) if (x != E(0)) x = rnd<E>(rng) * sc; if (rng.coin(0.12)) t = qlten::QLTensor<E, Q>(); }
    m[k] = snap(s[k], ok);
  }
  std::string sig = cat(R, "x", C, " d", d, bc == BoundaryCondition::Periodic ? " pbc " : " obc ", qname<Q>(), " ");
  size_t ops = 3 + rng.below(14);
  for (size_t o = 0; o < ops; ++o) {
    size_t a = rng.below(K), b = rng.below(K), c = rng.below(K); E x = rnd<E>(rng); double tol = 1e-13 * (o + 2) * 10; int op = (int) rng.below(26); sig += cat(op, ":", a, b, c, " "); Doing(sig);
    Sh<E> want; bool scalar_ok = true; std::string sw; size_t dst = c; Sh<E> nb = m[b]; double nrm;
    switch (op) {
      case 0: s[c] = s[a] + s[b]; want = lin(m[a], E(1), m[b]); break;
      case 1: s[a] += s[b]; want = lin(m[a], E(1), m[b]); dst = a; break;
      case 2: s[c] = s[a] - s[b]; want = lin(m[a], E(-1), m[b]); break;
      case 3: s[a] -= s[b]; want = lin(m[a], E(-1), m[b]); dst = a; break;
      case 4: s[c] = -s[a]; want = mapv(m[a], [](E y) { return -y; }); break;
      case 5: s[c] = s[a] * x; want = mapv(m[a], [&](E y) { return y * x; }); break;
      case 6: s[c] = x * s[a]; want = mapv(m[a], [&](E y) { return y * x; }); break;
      case 7: { S r = (s[a] *= x); want = mapv(m[a], [&](E y) { return y * x; }); std::string w; bool k2; Check(same(snap(r, k2), want, tol, w), "scale-returns", sig, w); dst = a; break; }
      case 8: { E g = s[a] * s[b], w = dot(m[a], m[b]); scalar_ok = mag(g - w) <= 1e-12 * std::sqrt(n2(m[a]) * n2(m[b])) + 1e-300; sw = cat("inner product got ", g, " want ", w); want = m[a]; dst = a; break; }
      case 9: { double g = s[a].NormSquare(), w = n2(m[a]); scalar_ok = vh::close(g, w, 1e-12); sw = cat("norm square got ", g, " want ", w); want = m[a]; dst = a; break; }
      case 10: case 11: {
        size_t i = rng.below(R), j = rng.below(C), f = (i * C + j) * d; double nn = 0, mx = 0; for (size_t k = 0; k < d; ++k) if (m[a].v[f + k]) for (auto &y : *m[a].v[f + k]) { nn += std::norm(y); mx = std::max(mx, mag(y)); }
        want = m[a]; dst = a; if (nn == 0) break; double aim = rng.uni(0.1, 5), fac = op == 10 ? 1 / std::sqrt(nn) : aim / mx; double g = op == 10 ? s[a].NormalizeSite({i, j}) : s[a].ScaleMaxAbsForSite({i, j}, aim);
        for (size_t k = 0; k < d; ++k) if (want.v[f + k]) for (auto &y : *want.v[f + k]) y *= fac;
        scalar_ok = vh::close(g, 1 / fac, 1e-12); sw = cat("site factor got ", g, " want ", 1 / fac); break; }
      case 12: case 13: {
        want = m[a]; dst = a; double aim = rng.uni(0.1, 5); bool zero = false; 
        for (size_t q = 0; q < R * C; ++q) { double nn = 0, mx = 0; for (size_t k = 0; k < d; ++k) if (want.v[q * d + k]) for (auto &y : *want.v[q * d + k]) { nn += std::norm(y); mx = std::max(mx, mag(y)); } if (nn == 0) zero = true; double fac = op == 12 ? 1 / std::sqrt(nn) : aim / mx; for (size_t k = 0; k < d; ++k) if (want.v[q * d + k]) for (auto &y : *want.v[q * d + k]) y *= fac; }
        if (zero) { want = m[a]; break; } if (op == 12) s[a].NormalizeAllSite(); else s[a].ScaleMaxAbsForAllSite(aim); break; }
      case 14: s[c] = s[a].ElementWiseSquare(); want = mapv(m[a], [](E y) { return y * y; }); break;
      case 15: s[c] = s[a].ElementWiseSquaredNorm(); want = mapv(m[a], [](E y) { return E(std::norm(y)); }); break;
      case 16: { double lim = rng.uni(0.01, 2); s[a].ElementWiseClipTo(lim); want = mapv(m[a], [&](E y) { double q = mag(y); return q > lim ? y * (lim / q) : y; }); dst = a; break; }
      case 17: { nrm = std::sqrt(n2(m[a])); double lim = rng.coin() ? rng.uni(0.01, 2) * nrm : rng.uni(0.1, 10); s[a].ClipByGlobalNorm(lim); want = nrm > lim ? mapv(m[a], [&](E y) { return y * (lim / nrm); }) : m[a]; dst = a; break; }
      case 18: s[a].ElementWiseSquareInPlace(); want = mapv(m[a], [](E y) { return y * y; }); dst = a; break;
      case 19: s[a].ElementWiseSquaredNormInPlace(); want = mapv(m[a], [](E y) { return E(std::norm(y)); }); dst = a; break;
      case 20: { S t = ElementWiseSquaredNorm(s[a]); s[c] = ElementWiseSqrt(t); want = mapv(m[a], [](E y) { return E(mag(y)); }); if (rng.coin()) { t.ElementWiseSqrtInPlace(); s[c] = t; } break; }
      case 21: { double eps = rng.coin() ? 1e-8 : 0.3; s[c] = rng.coin() ? s[a].ElementWiseInverse(eps) : ElementWiseInverse(s[a], eps); want = mapv(m[a], [&](E y) { return mag(y) < eps || y == E(0) ? E(0) : E(1) / y; }); break; }
      case 22: { if (a == c) { want = m[a]; break; } S t(s[a]); s[c] = std::move(t); want = m[a]; break; }
      case 23: { S t = ElementWiseClipTo(s[a], 0.5), u = ClipByGlobalNorm(s[b], 1.0); bool k2; std::string w; Check(same(snap(s[b], k2), m[b], 1e-15, w), "argument-modified", sig, w); s[c] = t; want = mapv(m[a], [&](E y) { double q = mag(y); return q > 0.5 ? y * (0.5 / q) : y; }); break; }
      case 24: { if (a == b || a == c || b == c) { want = m[c]; break; } S t(std::move(s[a])); s[a] = s[b]; s[c] = t; want = m[a]; Sh<E> mb = m[b]; if (a == b) { s[a] = t; mb = m[a]; } if (c != a) { m[a] = mb; bool k2; std::string w; Check(same(snap(s[a], k2), m[a], 1e-15, w), "reassign-moved-from", sig, w); } break; }
      default: { if constexpr (!std::is_same_v<E, double>) { double y0 = rng.gauss(); s[c] = y0 * s[a]; want = mapv(m[a], [&](E y) { return y * y0; }); } else { if (a != c) s[c] = s[a]; want = m[a]; } }
    }
    if (!Check(scalar_ok, "scalar", sig, sw)) return;
    Sh<E> got = snap(s[dst], ok); std::string why; Observe("sitps_op"); Observe(cat("sitps_op_", op));
    if (!Check(ok && same(got, want, tol, why), cat("op-", op), sig, why)) return;
    for (size_t k = 0; k < K; ++k) if (k != dst) { bool k2; std::string w; if (!Check(same(snap(s[k], k2), m[k], 1e-15, w), "unrelated-object-changed", sig, "object ", k, " ", w)) return; }
    m[dst] = got;
    double mx = 0, mn = 1e300; for (auto &q : got.v) if (q) for (auto &y : *q) { mx = std::max(mx, mag(y)); }
    if (mx > 1e60 || !std::isfinite(mx) || (mx > 0 && mx < 1e-60)) break;
  }
  Case(hash_str(sig) ^ mix((uint64_t) (mag(m[0].v.empty() || !m[0].v[0] || m[0].v[0]->empty() ? E(0) : (*m[0].v[0])[0]) * 1e9)));
  if (rng.coin(0.02)) Sample(sig);
}
SECTION("history_bd", 2, 8) { for (uint64_t i = 0; i < N(1200, 12000); ++i) history<double, Triv>(rng); }
SECTION("history_ud", 2, 8) { for (uint64_t i = 0; i < N(1200, 12000); ++i) history<double, U1>(rng); }
SECTION("history_uz", 2, 8) { for (uint64_t i = 0; i < N(1200, 12000); ++i) history<Z, U1>(rng); }
SECTION("history_fz", 2, 8) { for (uint64_t i = 0; i < N(1200, 12000); ++i) history<Z, fZ2>(rng); }
// bond-dimension reports
SECTION("bonds", 2, 4) {
  for (uint64_t it = 0; it < N(800, 8000); ++it) {
    size_t R = rng.coin(0.3) ? 1 : 1 + rng.below(4), C = rng.coin(0.3) ? 1 : 1 + rng.below(4); auto bc = rng.coin() ? BoundaryCondition::Periodic : BoundaryCondition::Open; bool per = bc == BoundaryCondition::Periodic;
    size_t Dm = 1 + rng.below(3); bool even = rng.coin(0.4); auto p = phys<Triv>(rng, 2); Rng r2(it + 5); Doing(cat("bonds ", R, "x", C, per ? " pbc" : " obc"));
    auto t = random_tps<double, Triv>(rng, R, C, bc, even ? 1 : 3, p);
    if (even) { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { auto L = [&](bool inner) { return Idx<Triv>({Sct<Triv>(Triv(), inner ? Dm : 1)}, qlten::OUT); }; auto I = [](Idx<Triv> x) { return qlten::InverseIndex(x); };
      qlten::QLTensor<double, Triv> x({I(L(per || j > 0)), L(per || i + 1 < R), L(per || j + 1 < C), I(L(per || i > 0)), p}); randomize(x, rng); t({i, j}) = x; } }
    auto s = qlpeps::SplitIndexTPS<double, Triv>::FromTPS(t); std::multiset<size_t> want; size_t mx = 1; 
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { if (per || i + 1 < R) want.insert(t({i, j}).GetShape()[1]); if (per || j + 1 < C) want.insert(t({i, j}).GetShape()[2]); } for (auto x : want) mx = std::max(mx, x);
    Case(hash_str(cat(R, "x", C, per, even, Dm)) ^ mix(it)); std::string sig = cat(R, "x", C, per ? " pbc" : " obc");
    auto all = s.GetAllInnerBondDimensions(); Check(std::multiset<size_t>(all.begin(), all.end()) == want, "inner-bond-dimensions", sig, " got ", vec2s(all));
    Check(s.GetMaxBondDimension() == mx && t.GetMaxBondDimension() == mx, "max-bond-dimension", sig, " got ", s.GetMaxBondDimension(), ",", t.GetMaxBondDimension(), " want ", mx);
    if (!want.empty()) { auto mm = s.GetMinMaxBondDimension(); Check(s.GetMinBondDimension() == *want.begin() && mm.first == *want.begin() && mm.second == *want.rbegin(), "min-max-bond-dimension", sig);
      bool uni = *want.begin() == *want.rbegin(); Check(s.IsBondDimensionEven() == uni, "bond-dimension-even", sig, " got ", s.IsBondDimensionEven()); Check(t.IsBondDimensionUniform() == uni, "bond-dimension-uniform", sig, " got ", t.IsBondDimensionUniform()); }
    Observe("sitps_bonds");
  }
}
