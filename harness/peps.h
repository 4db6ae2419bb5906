// Random SquareLatticePEPS states and their full wave functions (independent of the code under test except for tensor algebra).
#pragma once
#include "models.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
namespace pp {
using namespace vh; using namespace tn;
template<class E> using F = std::vector<E>;
template<class E, class Q> F<E> wf5(const qlpeps::TPS<E, Q> &t, size_t d) {
  F<E> v; size_t C = t.cols();
  all_cfg(t.rows() * C, d, [&](const std::vector<size_t> &c) {
    auto site = [&](size_t r, size_t k) { const auto &x = t({r, k}); auto ix = x.GetIndexes(); std::vector<qlten::QLTensor<E, Q>> dummy; size_t st = x.GetIndex(4).dim();
      if constexpr (Q::IsFermionic()) ix[4] = Idx<Q>({Sct<Q>(ix[4].GetQNSctFromActualCoor(c[r * C + k]).GetQn(), 1)}, ix[4].GetDir()); else ix.pop_back();
      qlten::QLTensor<E, Q> y(ix); if (x.HasData_()) { if (y.size()) { if constexpr (Q::IsFermionic()) y.Alloc_(x.Div()); else { auto q = x.GetIndex(4).GetQNSctFromActualCoor(c[r * C + k]).GetQn(); y.Alloc_(x.GetIndex(4).GetDir() == qlten::OUT ? x.Div() - q : x.Div() + q); } for (size_t o = 0; o < y.size(); ++o) y.Data_()[o] = x.Data_()[o * st + c[r * C + k]]; } } return y; };
    if constexpr (Q::IsFermionic()) v.push_back(amplitude_graded<E, Q>(t.rows(), C, site)); else v.push_back(amplitude_dense<E, Q>(t.rows(), C, t.GetBoundaryCondition() == BoundaryCondition::Periodic, site));
  });
  return v;
}
template<class E> double top(const F<E> &v) { double m = 0; for (auto &x : v) m = std::max(m, mag(x)); return m; }
template<class E, class Q> F<E> wfpeps(const qlpeps::SquareLatticePEPS<E, Q> &s, size_t d) {
  size_t R = s.Rows(), C = s.Cols(); bool per = s.GetBoundaryCondition() == BoundaryCondition::Periodic; F<E> v;
  auto ce = [](const auto &t) { qlten::QLTensor<E, Q> r(t.GetIndexes()); if (t.HasData_()) { r.Alloc_(t.Div()); for (size_t i = 0; i < t.size(); ++i) r.Data_()[i] = t.Data_()[i]; } return r; };
  // absorb whole lambdas into the right / lower tensors, then contract
  std::vector<qlten::QLTensor<E, Q>> site;
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
    auto x = s.Gamma({r, c}); auto lw = ce(s.lambda_horiz({r, c})), ln = ce(s.lambda_vert({r, c})); qlten::QLTensor<E, Q> y, y2;
    Contract(&lw, {1}, &x, {0}, &y);            // W S E N p
    Contract(&y, {3}, &ln, {1}, &y2); y2.Transpose({0, 1, 2, 4, 3});
    if (!per && r + 1 == R) { auto ls = ce(s.lambda_vert({R, c})); Contract(&y2, {1}, &ls, {0}, &y); y.Transpose({0, 4, 1, 2, 3}); y2 = y; }
    if (!per && c + 1 == C) { auto le = ce(s.lambda_horiz({r, C})); Contract(&y2, {2}, &le, {0}, &y); y.Transpose({0, 1, 4, 2, 3}); y2 = y; }
    site.push_back(y2);
  }
  qlpeps::TPS<E, Q> t(R, C, s.GetBoundaryCondition()); for (size_t i = 0; i < site.size(); ++i) t({i / C, i % C}) = site[i];
  return wf5(t, d);
}
// random PEPS with positive weights on every bond; rev: some bonds point the other way
template<class E, class Q> qlpeps::SquareLatticePEPS<E, Q> random_peps(Rng &rng, size_t R, size_t C, bool per, size_t D, const Idx<Q> &p, bool rev = false, double lo = 0.2, long lone = -1) {   // lone: index of a site joined to the rest by trivial bonds only
  qlpeps::SquareLatticePEPS<E, Q> s(p, R, C, per ? BoundaryCondition::Periodic : BoundaryCondition::Open); using DTen = qlten::QLTensor<double, Q>; auto I = [](const Idx<Q> &x) { return qlten::InverseIndex(x); };
  auto lam = [&](bool in, size_t a, size_t b_) { bool thin = lone >= 0 && (a == (size_t) lone || b_ == (size_t) lone); size_t D_ = thin ? 1 : D; auto b = in ? (thin ? unit(Q(), qlten::OUT) : bond<Q>(rng, 1 + rng.below(D_))) : unit(Q(), qlten::OUT); if (in && rev && rng.coin()) b.Inverse(); DTen l({I(b), b}); for (size_t k = 0; k < b.dim(); ++k) l.SetElem({k, k}, in && !thin ? rng.uni(lo, 1.2) : 1.0); return l; };
  for (size_t r = 0; r < s.lambda_vert.rows(); ++r) for (size_t c = 0; c < C; ++c) s.lambda_vert({r, c}) = lam(per || (r > 0 && r < R), ((r + R - 1) % R) * C + c, (r % R) * C + c);
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < s.lambda_horiz.cols(); ++c) s.lambda_horiz({r, c}) = lam(per || (c > 0 && c < C), r * C + (c + C - 1) % C, r * C + c % C);
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { qlten::QLTensor<E, Q> x({I(s.GetLambdaHorizWest(r, c).GetIndex(1)), I(s.GetLambdaVertSouth(r, c).GetIndex(0)), I(s.GetLambdaHorizEast(r, c).GetIndex(0)), I(s.GetLambdaVertNorth(r, c).GetIndex(1)), p}); randomize(x, rng); s.Gamma({r, c}) = x; }
  return s;
}
template<class E, class Q> F<E> wfq(const qlpeps::SquareLatticePEPS<E, Q> &s, size_t d) {   // whole wave function; one contraction for bosons
  if constexpr (Q::IsFermionic()) return wfpeps(s, d); else {
    size_t R = s.Rows(), C = s.Cols(); bool per = s.GetBoundaryCondition() == BoundaryCondition::Periodic; DT<E> acc; bool first = true; int ph = 900000;
    auto lmul = [](DT<E> x, size_t leg, const qlten::QLTensor<double, Q> &l) { size_t st = 1; for (size_t k = leg + 1; k < x.dim.size(); ++k) st *= x.dim[k]; size_t n = x.dim[leg]; for (size_t i = 0; i < x.d.size(); ++i) { size_t k = (i / st) % n; x.d[i] *= l({k, k}); } return x; };
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { auto l = labels(R, C, r, c, per); l.push_back(ph++); DT<E> x = dense(s.Gamma({r, c}), l); x = lmul(x, 0, s.lambda_horiz({r, c})); x = lmul(x, 3, s.lambda_vert({r, c})); if (!per && r + 1 == R) x = lmul(x, 1, s.lambda_vert({R, c})); if (!per && c + 1 == C) x = lmul(x, 2, s.lambda_horiz({r, C})); x = self_trace(x); acc = first ? x : mul(acc, x); first = false; }
    // remaining labels: unit boundary legs and physical legs, the latter in site order
    std::vector<int> phl; for (size_t i = 0; i < acc.lab.size(); ++i) if (acc.lab[i] >= 900000) phl.push_back(acc.lab[i]); else if (acc.dim[i] != 1) throw std::logic_error("oracle: network not closed"); if (!std::is_sorted(phl.begin(), phl.end()) || phl.size() != R * C) throw std::logic_error("oracle: physical order"); return acc.d; } }
}  // namespace pp
