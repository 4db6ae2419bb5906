// Free tensor operations of the reference tensor.
#pragma once
#include "qlten/framework/linalg.h"
#include "qlten/framework/tensor.h"
namespace qlten {
template<class E1, class E2, class Q, class E3>
void ShimContract(const QLTensor<E1, Q> &A, const std::vector<size_t> &pa, const QLTensor<E2, Q> &B, const std::vector<size_t> &pb, size_t n, QLTensor<E3, Q> &out) {
  // pa: rest..., contracted(1..n); pb: contracted(1..n), rest...
  ++shim_counters().contract;
  size_t ra = pa.size() - n, rb = pb.size() - n;
  IndexVec<Q> oi; for (size_t i = 0; i < ra; ++i) oi.push_back(A.GetIndex(pa[i])); for (size_t i = n; i < pb.size(); ++i) oi.push_back(B.GetIndex(pb[i]));
  for (size_t k = 0; k < n; ++k) {
    auto &x = A.GetIndex(pa[ra + k]); auto &y = B.GetIndex(pb[k]);
    if (InverseIndex(x) != y) throw std::logic_error("shim tensor: contraction of non-matching indices");
  }
  // nested order for the graded signs
  std::vector<size_t> qb; for (size_t k = n; k-- > 0;) qb.push_back(pb[k]); for (size_t i = n; i < pb.size(); ++i) qb.push_back(pb[i]);
  QLTensor<E1, Q> a = A.Permuted_(pa, true); QLTensor<E2, Q> b = B.Permuted_(qb, true);
  { std::vector<size_t> back; for (size_t k = n; k-- > 0;) back.push_back(k); for (size_t i = n; i < pb.size(); ++i) back.push_back(i); b = b.Permuted_(back, false); }
  QLTensor<E3, Q> r(oi);
  if (a.HasData_() && b.HasData_()) {
    r.Alloc_(a.Div() + b.Div());
    size_t K = 1; for (size_t k = 0; k < n; ++k) K *= a.GetIndex(ra + k).dim();
    size_t M = 1; for (size_t i = 0; i < ra; ++i) M *= a.GetIndex(i).dim();
    size_t N = 1; for (size_t i = 0; i < rb; ++i) N *= b.GetIndex(n + i).dim();
    std::vector<char> sg(K, 0);
    if constexpr (Q::IsFermionic()) {
      for (size_t x = 0; x < K; ++x) { size_t y = x; bool s = false; for (size_t k = n; k-- > 0;) { size_t d = a.GetIndex(ra + k).dim(); size_t c = y % d; y /= d; if (a.GetIndex(ra + k).GetDir() == IN && a.Odd_(ra + k, c)) s = !s; } sg[x] = s; }
    }
    auto *pA = a.GetRawDataPtr(); auto *pB = b.GetRawDataPtr(); auto *pR = r.GetRawDataPtr();
    for (size_t i = 0; i < M; ++i) for (size_t k = 0; k < K; ++k) {
      E3 v = E3(pA[i * K + k]); if (v == E3(0)) continue; if (sg[k]) v = -v;
      const E2 *row = pB + k * N; E3 *o = pR + i * N;
      for (size_t j = 0; j < N; ++j) o[j] += v * E3(row[j]);
    }
  }
  out = std::move(r);
}
template<class E1, class E2, class Q, class E3>
void Contract(const QLTensor<E1, Q> *a, const std::vector<size_t> &ax, const QLTensor<E2, Q> *b, const std::vector<size_t> &bx, QLTensor<E3, Q> *c) {
  if (ax.size() != bx.size()) throw std::logic_error("shim tensor: Contract axes");
  std::vector<size_t> pa, pb(bx); std::vector<bool> ua(a->Rank()), ub(b->Rank());
  for (auto x : ax) { if (x >= a->Rank() || ua[x]) throw std::logic_error("shim tensor: Contract axes"); ua[x] = true; }
  for (auto x : bx) { if (x >= b->Rank() || ub[x]) throw std::logic_error("shim tensor: Contract axes"); ub[x] = true; }
  for (size_t i = 0; i < a->Rank(); ++i) if (!ua[i]) pa.push_back(i);
  for (auto x : ax) pa.push_back(x);
  for (size_t i = 0; i < b->Rank(); ++i) if (!ub[i]) pb.push_back(i);
  QLTensor<E3, Q> r; ShimContract(*a, pa, *b, pb, ax.size(), r); *c = std::move(r);
}
template<class E1, class E2, class Q, class E3>
void Contract(const QLTensor<E1, Q> *a, const QLTensor<E2, Q> *b, const std::vector<std::vector<size_t>> &axes, QLTensor<E3, Q> *c) { Contract(a, axes.at(0), b, axes.at(1), c); }
// cyclic form: n consecutive legs from a_start / b_start
template<class TenElemT, class QNT, bool at = true, bool bh = true>
void Contract(const QLTensor<TenElemT, QNT> &a, const QLTensor<TenElemT, QNT> &b, size_t as, size_t bs, size_t n, QLTensor<TenElemT, QNT> &c) {
  std::vector<size_t> pa, pb;
  for (size_t i = 0; i + n < a.Rank(); ++i) pa.push_back((as + n + i) % a.Rank());
  for (size_t k = 0; k < n; ++k) pa.push_back((as + k) % a.Rank());
  for (size_t k = 0; k < b.Rank(); ++k) pb.push_back((bs + k) % b.Rank());
  QLTensor<TenElemT, QNT> r; ShimContract(a, pa, b, pb, n, r); c = std::move(r);
}
template<class TenElemT, class QNT, bool at = true, bool bh = true, class E1, class E2, class = std::enable_if_t<!std::is_same_v<E1, E2>>>
void Contract(const QLTensor<E1, QNT> &a, const QLTensor<E2, QNT> &b, size_t as, size_t bs, size_t n, QLTensor<TenElemT, QNT> &c) {
  std::vector<size_t> pa, pb;
  for (size_t i = 0; i + n < a.Rank(); ++i) pa.push_back((as + n + i) % a.Rank());
  for (size_t k = 0; k < n; ++k) pa.push_back((as + k) % a.Rank());
  for (size_t k = 0; k < b.Rank(); ++k) pb.push_back((bs + k) % b.Rank());
  QLTensor<TenElemT, QNT> r; ShimContract(a, pa, b, pb, n, r); c = std::move(r);
}
template<class E, class Q> QLTensor<E, Q> ElementWiseMultiply(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) {
  if (a.GetIndexes() != b.GetIndexes()) throw std::logic_error("shim tensor: element-wise product of different indices");
  QLTensor<E, Q> r(a.GetIndexes());
  if (a.HasData_() && b.HasData_()) { r.Alloc_(b.Div()); for (size_t i = 0; i < a.size(); ++i) r.Data_()[i] = a.Data_()[i] * b.Data_()[i]; }
  return r;
}
template<class E, class Q, class R> QLTensor<E, Q> DiagMatInv(const QLTensor<E, Q> &t, R tol) {
  QLTensor<E, Q> r(t); size_t n = t.GetIndex(0).dim();
  for (size_t i = 0; i < n; ++i) { E x = t.GetElem({i, i}); r.SetElem({i, i}, std::abs(x) > tol ? E(1) / x : E(0)); }
  return r;
}
template<class E, class Q> QLTensor<E, Q> DiagMatInv(const QLTensor<E, Q> &t) { return DiagMatInv(t, 0.0); }
inline bool is_nan(double x) { return std::isnan(x); }
inline bool is_nan(const std::complex<double> &x) { return std::isnan(x.real()) || std::isnan(x.imag()); }
template<class E, class Q> QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.Dag(); return r; }
template<class E, class Q> Q Div(const QLTensor<E, Q> &t) { return t.Div(); }
template<class Q> QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<QLTEN_Double, Q> &t) {
  QLTensor<QLTEN_Complex, Q> r; if (t.IsDefault()) return r; r = QLTensor<QLTEN_Complex, Q>(t.GetIndexes());
  if (t.HasData_()) { r.Alloc_(t.Div()); for (size_t i = 0; i < t.size(); ++i) r.Data_()[i] = t.Data_()[i]; }
  return r;
}
template<class Q> QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<QLTEN_Complex, Q> &t) { return t; }
template<class E, class Q> QLTensor<E, Q> ElementWiseSqrt(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.ElementWiseSqrt(); return r; }
template<class E, class Q> QLTensor<E, Q> ElementWiseInv(const QLTensor<E, Q> &t, double eps = 0.) { QLTensor<E, Q> r(t); r.ElementWiseInv(eps); return r; }
template<class E, class Q = special_qn::TrivialRepQN> QLTensor<E, Q> Eye(const Index<Q> &i) {
  QLTensor<E, Q> r(IndexVec<Q>{i, InverseIndex(i)}); r.Alloc_(Q()); for (size_t k = 0; k < i.dim(); ++k) r.Data_()[k * i.dim() + k] = E(1); return r;
}
template<class E, class Q> E QuasiInnerProduct(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) {
  if (a.GetIndexes() != b.GetIndexes()) throw std::logic_error("shim tensor: inner product of different indices");
  E s(0); if (a.HasData_() && b.HasData_()) for (size_t i = 0; i < a.size(); ++i) s += shim_conj(a.Data_()[i]) * b.Data_()[i]; return s;
}
template<class E, class Q> void LinearCombine(const E a, const QLTensor<E, Q> &x, const E b, QLTensor<E, Q> *y) {
  if (y->IsDefault()) { *y = x * a; return; } *y *= b; *y += x * a;
}
template<class E, class Q> void LinearCombine(const size_t n, const E *co, const std::vector<QLTensor<E, Q> *> &ts, const E b, QLTensor<E, Q> *y) {
  QLTensor<E, Q> r; bool have = false;
  if (!y->IsDefault() && b != E(0)) { r = *y * b; have = true; }
  for (size_t i = 0; i < n; ++i) { if (have) r += *ts[i] * co[i]; else { r = *ts[i] * co[i]; have = true; } }
  *y = std::move(r);
}
template<class E, class Q> void LinearCombine(const std::vector<E> &co, const std::vector<QLTensor<E, Q> *> &ts, const E b, QLTensor<E, Q> *y) { LinearCombine(ts.size(), co.data(), ts, b, y); }
template<class E, class Q> void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *c) {
  size_t rk = a->Rank(); if (b->Rank() != rk) throw std::logic_error("shim tensor: Expand ranks");
  IndexVec<Q> ni; std::vector<std::vector<size_t>> ma(rk), mb(rk);
  for (size_t k = 0; k < rk; ++k) {
    auto &x = a->GetIndex(k); auto &y = b->GetIndex(k);
    if (std::find(axes.begin(), axes.end(), k) == axes.end()) {
      if (x != y) throw std::logic_error("shim tensor: Expand of tensors with different fixed indices");
      ni.push_back(x); for (size_t i = 0; i < x.dim(); ++i) { ma[k].push_back(i); mb[k].push_back(i); } continue;
    }
    if (x.GetDir() != y.GetDir()) throw std::logic_error("shim tensor: Expand directions");
    std::vector<Q> qs; for (auto &s : x.GetQNScts()) if (std::find(qs.begin(), qs.end(), s.GetQn()) == qs.end()) qs.push_back(s.GetQn());
    for (auto &s : y.GetQNScts()) if (std::find(qs.begin(), qs.end(), s.GetQn()) == qs.end()) qs.push_back(s.GetQn());
    QNSectorVec<Q> sv; size_t pos = 0; ma[k].resize(x.dim()); mb[k].resize(y.dim());
    for (auto &q : qs) { size_t d = 0; for (size_t i = 0; i < x.dim(); ++i) if (x.GetQNSctFromActualCoor(i).GetQn() == q) { ma[k][i] = pos++; ++d; } for (size_t i = 0; i < y.dim(); ++i) if (y.GetQNSctFromActualCoor(i).GetQn() == q) { mb[k][i] = pos++; ++d; } sv.push_back(QNSector<Q>(q, d)); }
    ni.push_back(Index<Q>(sv, x.GetDir()));
  }
  QLTensor<E, Q> r(ni);
  if (a->HasData_() || b->HasData_()) {
    if (a->HasData_() && b->HasData_() && a->Div() != b->Div()) throw std::logic_error("shim tensor: Expand divergences");
    r.Alloc_(a->HasData_() ? a->Div() : b->Div());
    auto put = [&](const QLTensor<E, Q> &t, std::vector<std::vector<size_t>> &m) { if (!t.HasData_()) return; t.ForAll_([&](const CoorsT &cc, size_t o) { CoorsT g(rk); for (size_t k = 0; k < rk; ++k) g[k] = m[k][cc[k]]; r.Data_()[r.Off_(g)] += t.Data_()[o]; }); };
    put(*a, ma); put(*b, mb);
  }
  *c = std::move(r);
}
// row/column groups by quantum number for a bipartition of the legs
template<class E, class Q> struct ShimBlock { Q qn; std::vector<size_t> rows, cols; shimla::Cols<E> a; };
template<class E, class Q> std::vector<ShimBlock<E, Q>> ShimBipart(const QLTensor<E, Q> &t, size_t ld, const Q &lqndiv) {
  // qn of the new OUT leg of the left factor: lqndiv - flow(left legs)
  size_t M = 1, N = 1; for (size_t i = 0; i < ld; ++i) M *= t.GetIndex(i).dim(); for (size_t i = ld; i < t.Rank(); ++i) N *= t.GetIndex(i).dim();
  auto flow = [&](size_t lo, size_t hi, size_t x) { Q q; for (size_t k = hi; k-- > lo;) { size_t d = t.GetIndex(k).dim(); auto s = t.GetIndex(k).GetQNSctFromActualCoor(x % d).GetQn(); x /= d; q += t.GetIndex(k).GetDir() == OUT ? s : -s; } return q; };
  std::vector<ShimBlock<E, Q>> bl;
  auto get = [&](const Q &q, bool make) -> ShimBlock<E, Q> * { for (auto &b : bl) if (b.qn == q) return &b; if (!make) return nullptr; bl.push_back({q, {}, {}, {}}); return &bl.back(); };
  for (size_t i = 0; i < M; ++i) get(lqndiv - flow(0, ld, i), true)->rows.push_back(i);
  // right: div(vt) = div - lqndiv = -mid + flow(right)  => mid = flow(right) - (div - lqndiv)
  for (size_t j = 0; j < N; ++j) if (auto *b = get(flow(ld, t.Rank(), j) - (t.Div() - lqndiv), false)) b->cols.push_back(j);
  std::vector<ShimBlock<E, Q>> out;
  for (auto &b : bl) if (!b.rows.empty() && !b.cols.empty()) {
    b.a.assign(b.cols.size(), std::vector<E>(b.rows.size()));
    for (size_t j = 0; j < b.cols.size(); ++j) for (size_t i = 0; i < b.rows.size(); ++i) b.a[j][i] = t.At_(b.rows[i] * N + b.cols[j]);
    out.push_back(std::move(b));
  }
  std::stable_sort(out.begin(), out.end(), [](auto &x, auto &y) { return x.qn < y.qn; });
  return out;
}
template<class E, class Q, class R>
void SVD(const QLTensor<E, Q> *t, size_t ld, const Q &lqndiv, const R trunc_err, size_t Dmin, size_t Dmax, QLTensor<E, Q> *pu, QLTensor<typename RealTypeTrait<E>::type, Q> *ps, QLTensor<E, Q> *pvt, typename RealTypeTrait<E>::type *perr, size_t *pD) {
  using RealT = typename RealTypeTrait<E>::type;
  ++shim_counters().svd;
  if (ld == 0 || ld >= t->Rank()) throw std::logic_error("shim tensor: SVD bipartition");
  if (!t->HasData_()) throw std::runtime_error("shim tensor: SVD of a tensor without blocks");
  if (t->HasNan()) throw std::runtime_error("shim tensor: SVD of a tensor with NaN");
  auto bl = ShimBipart(*t, ld, lqndiv);
  struct F { shimla::Cols<E> u, v; std::vector<double> s; size_t keep = 0; };
  std::vector<F> f(bl.size()); std::vector<std::pair<double, size_t>> all; long double tot = 0;
  for (size_t b = 0; b < bl.size(); ++b) { shimla::svd(bl[b].a, bl[b].rows.size(), bl[b].cols.size(), f[b].u, f[b].s, f[b].v); for (auto x : f[b].s) { all.push_back({x, b}); tot += (long double) x * x; } }
  std::stable_sort(all.begin(), all.end(), [](auto &x, auto &y) { return x.first > y.first; });
  size_t keep = all.size(); long double disc = 0;
  while (keep > 1) {
    long double w = (long double) all[keep - 1].first * all[keep - 1].first;
    if (keep > Dmax) { disc += w; --keep; continue; }
    if (keep <= Dmin) break;
    if (tot > 0 ? (disc + w) / tot <= (long double) trunc_err : true) { disc += w; --keep; } else break;
  }
  for (size_t i = 0; i < keep; ++i) f[all[i].second].keep++;
  QNSectorVec<Q> sec; size_t D = 0; for (size_t b = 0; b < bl.size(); ++b) if (f[b].keep) { sec.push_back(QNSector<Q>(bl[b].qn, f[b].keep)); D += f[b].keep; }
  Index<Q> mo(sec, OUT), mi(sec, IN);
  IndexVec<Q> iu(t->GetIndexes().begin(), t->GetIndexes().begin() + ld), iv{mi}; iu.push_back(mo); iv.insert(iv.end(), t->GetIndexes().begin() + ld, t->GetIndexes().end());
  QLTensor<E, Q> u(iu), v(iv); QLTensor<RealT, Q> s(IndexVec<Q>{mi, mo});
  size_t N = t->size(); for (size_t i = 0; i < ld; ++i) N /= std::max<size_t>(1, t->GetIndex(i).dim());
  u.Alloc_(lqndiv); v.Alloc_(t->Div() - lqndiv); s.Alloc_(Q());
  size_t off = 0;
  for (size_t b = 0; b < bl.size(); ++b) for (size_t k = 0; k < f[b].keep; ++k, ++off) {
    for (size_t i = 0; i < bl[b].rows.size(); ++i) u.Data_()[bl[b].rows[i] * D + off] = f[b].u[k][i];
    for (size_t j = 0; j < bl[b].cols.size(); ++j) v.Data_()[off * N + bl[b].cols[j]] = shim_conj(f[b].v[k][j]);
    s.Data_()[off * D + off] = (RealT) f[b].s[k];
  }
  *pu = std::move(u); *pvt = std::move(v); *ps = std::move(s);
  if (perr) *perr = tot > 0 ? (RealT) (disc / tot) : RealT(0); if (pD) *pD = D;
}
template<class E, class Q> void QR(const QLTensor<E, Q> *t, size_t ld, const Q &lqndiv, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  ++shim_counters().qr;
  if (!t->HasData_()) throw std::runtime_error("shim tensor: QR of a tensor without blocks");
  auto bl = ShimBipart(*t, ld, lqndiv);
  QNSectorVec<Q> sec; size_t D = 0; std::vector<shimla::Cols<E>> q(bl.size()), r(bl.size());
  for (size_t b = 0; b < bl.size(); ++b) { shimla::qr(bl[b].a, bl[b].rows.size(), bl[b].cols.size(), q[b], r[b]); sec.push_back(QNSector<Q>(bl[b].qn, q[b].size())); D += q[b].size(); }
  Index<Q> mo(sec, OUT), mi(sec, IN);
  IndexVec<Q> iq(t->GetIndexes().begin(), t->GetIndexes().begin() + ld), ir{mi}; iq.push_back(mo); ir.insert(ir.end(), t->GetIndexes().begin() + ld, t->GetIndexes().end());
  QLTensor<E, Q> tq(iq), tr(ir); tq.Alloc_(lqndiv); tr.Alloc_(t->Div() - lqndiv);
  size_t N = t->size(); for (size_t i = 0; i < ld; ++i) N /= std::max<size_t>(1, t->GetIndex(i).dim());
  size_t off = 0;
  for (size_t b = 0; b < bl.size(); ++b) for (size_t k = 0; k < q[b].size(); ++k, ++off) {
    for (size_t i = 0; i < bl[b].rows.size(); ++i) tq.Data_()[bl[b].rows[i] * D + off] = q[b][k][i];
    for (size_t j = 0; j < bl[b].cols.size(); ++j) tr.Data_()[off * N + bl[b].cols[j]] = r[b][j][k];
  }
  *pq = std::move(tq); *pr = std::move(tr);
}
// T = L Q, mid leg: L's last leg OUT, Q's first leg IN; div(L) = div(T) - rqndiv
template<class E, class Q> void LQ(const QLTensor<E, Q> *t, size_t rdims, const Q &rqndiv, QLTensor<E, Q> *pl, QLTensor<E, Q> *pq) {
  size_t ld = t->Rank() - rdims; QLTensor<E, Q> u, v; QLTensor<typename RealTypeTrait<E>::type, Q> s; typename RealTypeTrait<E>::type e; size_t D;
  SVD(t, ld, t->Div() - rqndiv, (typename RealTypeTrait<E>::type) 0, (size_t) -1, (size_t) -1, &u, &s, &v, &e, &D);
  Contract(&u, {ld}, &s, {0}, pl); *pq = std::move(v);
}
// Hermitian T with legs (a, inverse a): T = U D U^dag, all factors with T's legs
template<class E, class Q> void SymMatEVD(const QLTensor<E, Q> *t, QLTensor<E, Q> *pu, QLTensor<typename RealTypeTrait<E>::type, Q> *pd) {
  using RealT = typename RealTypeTrait<E>::type;
  if (t->Rank() != 2 || t->GetIndex(0).dim() != t->GetIndex(1).dim()) throw std::logic_error("shim tensor: SymMatEVD needs a square matrix");
  const Index<Q> &ia = t->GetIndex(0); size_t n = ia.dim();
  if (t->GetIndex(1) != InverseIndex(ia)) throw std::logic_error("shim tensor: SymMatEVD index mismatch");
  QLTensor<E, Q> u(t->GetIndexes()); QLTensor<RealT, Q> d(t->GetIndexes()); u.Alloc_(Q()); d.Alloc_(Q());
  size_t lo = 0;
  for (auto &x : ia.GetQNScts()) {
    size_t m = x.dim(); std::vector<E> a(m * m); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) a[i * m + j] = t->At_((lo + i) * n + lo + j);
    std::vector<double> w; shimla::Cols<E> z; shimla::heev(a, m, w, z);
    for (size_t k = 0; k < m; ++k) { d.Data_()[(lo + k) * n + lo + k] = (RealT) w[k]; for (size_t i = 0; i < m; ++i) u.Data_()[(lo + i) * n + lo + k] = z[k][i]; }
    lo += m;
  }
  *pu = std::move(u); *pd = std::move(d);
}
template<class E, class Q> void SymMatEVD(const QLTensor<E, Q> *t, QLTensor<E, Q> *pu, QLTensor<typename RealTypeTrait<E>::type, Q> *pd, double) { SymMatEVD(t, pu, pd); }
// combiner tensor with legs (inv(a), inv(b), fused with direction dir)
template<class E, class Q> QLTensor<E, Q> IndexCombine(const Index<Q> &a, const Index<Q> &b, TenIndexDirType dir) {
  size_t da = a.dim(), db = b.dim(); std::vector<std::pair<Q, std::vector<size_t>>> g;
  for (size_t x = 0; x < da * db; ++x) {
    Q q; auto qa = a.GetQNSctFromActualCoor(x / db).GetQn(), qb = b.GetQNSctFromActualCoor(x % db).GetQn(); q += a.GetDir() == dir ? -qa : qa; q += b.GetDir() == dir ? -qb : qb;
    auto it = std::find_if(g.begin(), g.end(), [&](auto &y) { return y.first == q; }); if (it == g.end()) { g.push_back({q, {}}); it = g.end() - 1; } it->second.push_back(x);
  }
  QNSectorVec<Q> s; for (auto &y : g) s.push_back(QNSector<Q>(y.first, y.second.size()));
  QLTensor<E, Q> r(IndexVec<Q>{a, b, Index<Q>(s, dir)}); r.Alloc_(Q()); size_t D = da * db, pos = 0;
  for (auto &y : g) for (auto x : y.second) r.Data_()[x * D + pos++] = E(1);
  return r;
}
}  // namespace qlten
