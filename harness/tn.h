// Random tensor-network states and brute-force reference contraction (independent of the code under test).
#pragma once
#include "mpi.h"
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/tps/tps.h"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
#include "vh.h"
namespace tn {
using Z = std::complex<double>;
using Triv = qlten::special_qn::TrivialRepQN;
using U1 = qlten::special_qn::U1QN;
using fZ2 = qlten::special_qn::fZ2QN;
using qlpeps::BoundaryCondition;
inline double cj(double x) { return x; }
inline Z cj(Z x) { return std::conj(x); }
template<class E> E rnd(vh::Rng &r) { if constexpr (std::is_same_v<E, double>) return r.gauss(); else return Z(r.gauss(), r.gauss()); }
template<class Q> using Idx = qlten::Index<Q>;
template<class Q> using Sct = qlten::QNSector<Q>;
template<class Q> const char *qname() { return std::is_same_v<Q, Triv> ? "trivial" : std::is_same_v<Q, U1> ? "U1" : "fZ2"; }
template<class Q> Idx<Q> phys(vh::Rng &r, size_t d = 2) {
  if constexpr (std::is_same_v<Q, Triv>) return Idx<Q>({Sct<Q>(Q(), d)}, qlten::OUT);
  else if constexpr (std::is_same_v<Q, U1>) { if (d == 2) return Idx<Q>({Sct<Q>(Q(1), 1), Sct<Q>(Q(-1), 1)}, qlten::OUT); return Idx<Q>({Sct<Q>(Q(1), 1), Sct<Q>(Q(0), 1), Sct<Q>(Q(-1), 1)}, qlten::OUT); }
  else { if (d == 2) return Idx<Q>({Sct<Q>(Q(1), 1), Sct<Q>(Q(0), 1)}, qlten::IN); return Idx<Q>({Sct<Q>(Q(1), d - 1), Sct<Q>(Q(0), 1)}, qlten::IN); }
}
template<class Q> Idx<Q> bond(vh::Rng &r, size_t D, qlten::TenIndexDirType dir = qlten::OUT) {
  if constexpr (std::is_same_v<Q, Triv>) return Idx<Q>({Sct<Q>(Q(), D)}, dir);
  else if constexpr (std::is_same_v<Q, U1>) {
    if (D == 1) return Idx<Q>({Sct<Q>(Q(r.range(-1, 1)), 1)}, dir);
    qlten::QNSectorVec<Q> s; int lo = (int) r.range(-1, 0); size_t left = D; int q = lo; while (left) { size_t k = std::min<size_t>(left, 1 + r.below(2)); s.push_back(Sct<Q>(Q(q++), k)); left -= k; } return Idx<Q>(s, dir);
  } else { if (D == 1) return Idx<Q>({Sct<Q>(Q(0), 1)}, dir); size_t a = 1 + r.below(D - 1); if (r.coin()) return Idx<Q>({Sct<Q>(Q(0), a), Sct<Q>(Q(1), D - a)}, dir); return Idx<Q>({Sct<Q>(Q(1), a), Sct<Q>(Q(0), D - a)}, dir); }
}
template<class Q> Idx<Q> unit(const Q &q, qlten::TenIndexDirType dir) { return Idx<Q>({Sct<Q>(q, 1)}, dir); }
// Fill with centred random numbers.
template<class E, class Q> void randomize(qlten::QLTensor<E, Q> &t, vh::Rng &r, const Q &div = Q()) {
  t.Random(div); if (!t.HasData_()) return;
  for (auto &x : t.Data_()) if (x != E(0)) x = rnd<E>(r);
}
// Random rank-5 TPS, virtual leg directions W in, S out, E out, N in. bias > 0 makes all amplitudes similar in size.
template<class E, class Q> qlpeps::TPS<E, Q> random_tps(vh::Rng &r, size_t R, size_t C, BoundaryCondition bc, size_t Dmax, const Idx<Q> &p, const Q &total = Q(), double bias = 0) {
  qlpeps::TPS<E, Q> t(R, C, bc); bool per = bc == BoundaryCondition::Periodic;
  std::vector<std::vector<Idx<Q>>> v(R + 1), h(R);   // v[r][c]: bond above row r; h[r][c]: bond left of column c (OUT form)
  for (size_t i = 0; i <= R; ++i) for (size_t c = 0; c < C; ++c) v[i].push_back((!per && (i == 0 || i == R)) ? unit(Q(), qlten::OUT) : (per && i == R) ? v[0][c] : bond<Q>(r, 1 + r.below(Dmax)));
  for (size_t i = 0; i < R; ++i) for (size_t c = 0; c <= C; ++c) h[i].push_back((!per && (c == 0 || c == C)) ? unit((c == C && i == R - 1) ? total : Q(), qlten::OUT) : (per && c == C) ? h[i][0] : bond<Q>(r, 1 + r.below(Dmax)));
  for (size_t i = 0; i < R; ++i) for (size_t c = 0; c < C; ++c) {
    qlten::QLTensor<E, Q> x({qlten::InverseIndex(h[i][c]), v[i + 1][c], h[i][c + 1], qlten::InverseIndex(v[i][c]), p});
    randomize(x, r); if (bias) for (auto &y : x.Data_()) if (y != E(0)) y = E(bias) + E(0.4) * y;
    t({i, c}) = x;
  }
  return t;
}
// ---- dense labelled tensors: the oracle for bosonic networks
template<class E> struct DT { std::vector<int> lab; std::vector<size_t> dim; std::vector<E> d; };
template<class E, class Q> DT<E> dense(const qlten::QLTensor<E, Q> &t, const std::vector<int> &lab) {
  DT<E> r; r.lab = lab; for (auto x : t.GetShape()) r.dim.push_back(x); r.d.resize(t.size()); for (size_t i = 0; i < r.d.size(); ++i) r.d[i] = t.At_(i); return r;
}
template<class E> DT<E> self_trace(const DT<E> &a) {   // sum over labels occurring twice within one tensor
  for (size_t i = 0; i < a.lab.size(); ++i) for (size_t j = i + 1; j < a.lab.size(); ++j) if (a.lab[i] == a.lab[j]) {
    DT<E> r; std::vector<size_t> keep; for (size_t k = 0; k < a.lab.size(); ++k) if (k != i && k != j) { keep.push_back(k); r.lab.push_back(a.lab[k]); r.dim.push_back(a.dim[k]); }
    size_t n = 1; for (auto x : r.dim) n *= x; r.d.assign(n, E(0));
    std::vector<size_t> st(a.dim.size(), 1); for (size_t k = a.dim.size(); k-- > 1;) st[k - 1] = st[k] * a.dim[k];
    for (size_t o = 0; o < n; ++o) { size_t rem = o, base = 0; for (size_t k = keep.size(); k-- > 0;) { base += (rem % r.dim[k]) * st[keep[k]]; rem /= r.dim[k]; } for (size_t x = 0; x < a.dim[i]; ++x) r.d[o] += a.d[base + x * (st[i] + st[j])]; }
    return self_trace(r);
  }
  return a;
}
template<class E> DT<E> mul(const DT<E> &a, const DT<E> &b) {
  std::vector<size_t> ka, kb, ca, cb;
  for (size_t i = 0; i < a.lab.size(); ++i) { auto p = std::find(b.lab.begin(), b.lab.end(), a.lab[i]); if (p == b.lab.end()) ka.push_back(i); else { ca.push_back(i); cb.push_back(p - b.lab.begin()); } }
  for (size_t i = 0; i < b.lab.size(); ++i) if (std::find(cb.begin(), cb.end(), i) == cb.end()) kb.push_back(i);
  auto strides = [](const std::vector<size_t> &d) { std::vector<size_t> s(d.size(), 1); for (size_t k = d.size(); k-- > 1;) s[k - 1] = s[k] * d[k]; return s; };
  auto sa = strides(a.dim), sb = strides(b.dim);
  auto offs = [](const std::vector<size_t> &k, const std::vector<size_t> &dim, const std::vector<size_t> &st) { size_t n = 1; for (auto x : k) n *= dim[x]; std::vector<size_t> o(n); for (size_t i = 0; i < n; ++i) { size_t rem = i, s = 0; for (size_t q = k.size(); q-- > 0;) { s += (rem % dim[k[q]]) * st[k[q]]; rem /= dim[k[q]]; } o[i] = s; } return o; };
  auto oka = offs(ka, a.dim, sa), oca = offs(ca, a.dim, sa), okb = offs(kb, b.dim, sb), ocb = offs(cb, b.dim, sb);
  for (size_t i = 0; i < ca.size(); ++i) if (a.dim[ca[i]] != b.dim[cb[i]]) throw std::logic_error("oracle: bond dimension mismatch");
  DT<E> r; for (auto x : ka) { r.lab.push_back(a.lab[x]); r.dim.push_back(a.dim[x]); } for (auto x : kb) { r.lab.push_back(b.lab[x]); r.dim.push_back(b.dim[x]); }
  r.d.assign(oka.size() * okb.size(), E(0));
  for (size_t i = 0; i < oka.size(); ++i) for (size_t k = 0; k < oca.size(); ++k) { E x = a.d[oka[i] + oca[k]]; if (x == E(0)) continue; for (size_t j = 0; j < okb.size(); ++j) r.d[i * okb.size() + j] += x * b.d[okb[j] + ocb[k]]; }
  return r;
}
// labels of the four virtual legs of site (r,c); boundary legs of open lattices get unique dangling labels
inline std::vector<int> labels(size_t R, size_t C, size_t r, size_t c, bool per) {
  auto H = [&](size_t i, size_t k) { return (int) (1000 + i * 100 + (per ? k % C : k)); };
  auto V = [&](size_t i, size_t k) { return (int) (50000 + (per ? i % R : i) * 100 + k); };
  return {H(r, c), V(r + 1, c), H(r, c + 1), V(r, c)};
}
// exact amplitude of a grid of 4-leg (or 4+unit-leg) bosonic tensors
template<class E, class Q, class F> E amplitude_dense(size_t R, size_t C, bool per, F &&site) {
  DT<E> acc; bool first = true; int dangling = 900000;
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
    const qlten::QLTensor<E, Q> &t = site(r, c); auto l = labels(R, C, r, c, per); while (l.size() < t.Rank()) l.push_back(dangling++);
    DT<E> x = self_trace(dense(t, l)); acc = first ? x : mul(acc, x); first = false;
  }
  if (acc.d.size() != 1) throw std::logic_error("oracle: network not closed");
  return acc.d[0];
}
// graded contraction of a whole open-boundary fermionic network; the unit physical legs end up in row-major order
template<class E, class Q> struct GT { std::vector<int> lab; qlten::QLTensor<E, Q> t; };
template<class E, class Q, class F> E amplitude_graded(size_t R, size_t C, F &&site) {
  GT<E, Q> acc; bool first = true; int dangling = 900000;
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
    GT<E, Q> x; x.t = site(r, c); x.lab = labels(R, C, r, c, false); if (x.t.Rank() == 5) x.lab.push_back(dangling++);
    if (first) { acc = x; first = false; continue; }
    std::vector<size_t> pa, pb; std::vector<int> lab;
    for (size_t i = 0; i < acc.lab.size(); ++i) for (size_t j = 0; j < x.lab.size(); ++j) if (acc.lab[i] == x.lab[j]) { pa.push_back(i); pb.push_back(j); }
    for (size_t i = 0; i < acc.lab.size(); ++i) if (std::find(pa.begin(), pa.end(), i) == pa.end()) lab.push_back(acc.lab[i]);
    for (size_t j = 0; j < x.lab.size(); ++j) if (std::find(pb.begin(), pb.end(), j) == pb.end()) lab.push_back(x.lab[j]);
    qlten::QLTensor<E, Q> o; Contract(&acc.t, pa, &x.t, pb, &o); acc.t = o; acc.lab = lab;
  }
  std::vector<size_t> p(acc.lab.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i;
  std::sort(p.begin(), p.end(), [&](size_t a, size_t b) { return acc.lab[a] < acc.lab[b]; }); acc.t.Transpose(p);
  if (acc.t.size() != 1) throw std::logic_error("oracle: network not closed");
  return acc.t.At_(0);
}
template<class E, class Q> E amplitude(const qlpeps::SplitIndexTPS<E, Q> &s, const std::vector<size_t> &cfg) {
  size_t C = s.cols(); auto site = [&](size_t r, size_t c) -> const qlten::QLTensor<E, Q> & { return s({r, c})[cfg[r * C + c]]; };
  if constexpr (Q::IsFermionic()) return amplitude_graded<E, Q>(s.rows(), C, site); else return amplitude_dense<E, Q>(s.rows(), C, s.GetBoundaryCondition() == BoundaryCondition::Periodic, site);
}
// all configurations of n sites with d states
template<class F> void all_cfg(size_t n, size_t d, F &&f) { std::vector<size_t> c(n, 0); while (true) { f(c); size_t k = n; while (k-- > 0) { if (++c[k] < d) break; c[k] = 0; if (k == 0) return; } if (k == (size_t) -1) return; } }
inline qlpeps::Configuration config(size_t R, size_t C, const std::vector<size_t> &v) { std::vector<std::vector<size_t>> g(R, std::vector<size_t>(C)); for (size_t i = 0; i < v.size(); ++i) g[i / C][i % C] = v[i]; return qlpeps::Configuration(g); }
inline double mag(double x) { return std::abs(x); }
inline double mag(Z x) { return std::abs(x); }
}  // namespace tn
