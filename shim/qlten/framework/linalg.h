// Small dense decompositions (Jacobi / shifted QR), accuracy over speed.
#pragma once
#include "qlten/framework/base.h"
namespace qlten { namespace shimla {
template<class E> inline E cj(const E &x) { if constexpr (is_shim_complex<E>::value) return std::conj(x); else return x; }
// column-major style container: a[c] is column c
template<class E> using Cols = std::vector<std::vector<E>>;
template<class E> inline double nrm2(const std::vector<E> &v) { long double s = 0; for (auto &x : v) s += std::norm(x); return (double) s; }
template<class E> inline E dotc(const std::vector<E> &a, const std::vector<E> &b) { E s(0); for (size_t i = 0; i < a.size(); ++i) s += cj(a[i]) * b[i]; return s; }
// complete the columns with index >= from (or flagged) to an orthonormal set
template<class E> inline void complete(Cols<E> &q, const std::vector<bool> &good) {
  if (q.empty()) return;
  size_t m = q[0].size(), e = 0; std::vector<bool> ok = good;
  for (size_t j = 0; j < q.size(); ++j) {
    if (ok[j]) continue;
    for (; e < m; ++e) {
      std::vector<E> v(m, E(0)); v[e] = E(1);
      for (int rep = 0; rep < 2; ++rep) for (size_t k = 0; k < q.size(); ++k) if (ok[k]) { E d = dotc(q[k], v); for (size_t i = 0; i < m; ++i) v[i] -= d * q[k][i]; }
      double n = std::sqrt(nrm2(v));
      if (n > 1e-3) { for (auto &x : v) x /= n; q[j] = v; ok[j] = true; ++e; break; }
    }
    if (!ok[j]) throw std::logic_error("shim linalg: cannot complete basis");
  }
}
// one-sided Jacobi: A (m x n, m >= n, columns) = U diag(s) V^H ; returns U columns, V columns
template<class E> inline void svd_tall(Cols<E> a, Cols<E> &u, std::vector<double> &s, Cols<E> &v) {
  size_t n = a.size(), m = n ? a[0].size() : 0;
  v.assign(n, std::vector<E>(n, E(0))); for (size_t i = 0; i < n; ++i) v[i][i] = E(1);
  for (int sweep = 0; sweep < 60; ++sweep) {
    bool rot = false;
    for (size_t p = 0; p + 1 < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      double al = nrm2(a[p]), be = nrm2(a[q]); E g = dotc(a[p], a[q]); double ag = std::abs(g);
      if (ag <= 1e-15 * std::sqrt(al * be) || ag == 0) continue;
      rot = true;
      double zeta = (be - al) / (2 * ag), t = (zeta >= 0 ? 1. : -1.) / (std::abs(zeta) + std::sqrt(1 + zeta * zeta)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
      E ph = g / E(ag);
      auto go = [&](Cols<E> &x) { for (size_t i = 0; i < x[p].size(); ++i) { E xp = x[p][i], xq = x[q][i] * cj(ph); x[p][i] = E(c) * xp - E(sn) * xq; x[q][i] = (E(sn) * xp + E(c) * xq); } };
      go(a); go(v);
    }
    if (!rot) break;
  }
  std::vector<double> sv(n); std::vector<size_t> ord(n);
  for (size_t i = 0; i < n; ++i) { sv[i] = std::sqrt(nrm2(a[i])); ord[i] = i; }
  std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return sv[x] > sv[y]; });
  double mx = n ? sv[ord[0]] : 0;
  Cols<E> v2(n); u.assign(n, {}); s.assign(n, 0); std::vector<bool> good(n);
  for (size_t k = 0; k < n; ++k) {
    size_t i = ord[k]; s[k] = sv[i]; v2[k] = v[i]; u[k] = a[i];
    good[k] = sv[i] > mx * 1e-300 && sv[i] > 0;
    if (good[k]) for (auto &x : u[k]) x /= sv[i]; else u[k].assign(m, E(0));
  }
  // re-orthogonalise directions of negligible weight
  for (size_t k = 0; k < n; ++k) if (good[k] && s[k] < 1e-12 * mx) {
    for (int rep = 0; rep < 2; ++rep) for (size_t j = 0; j < k; ++j) if (good[j]) { E d = dotc(u[j], u[k]); for (size_t i = 0; i < m; ++i) u[k][i] -= d * u[j][i]; }
    double nn = std::sqrt(nrm2(u[k])); if (nn < 0.5) good[k] = false; else for (auto &x : u[k]) x /= nn;
  }
  complete(u, good); v = v2;
}
// A given as columns (m x n any shape): A = U S V^H, k = min(m,n)
template<class E> inline void svd(const Cols<E> &a, size_t m, size_t n, Cols<E> &u, std::vector<double> &s, Cols<E> &v) {
  if (m >= n) { svd_tall(a, u, s, v); return; }
  Cols<E> h(m, std::vector<E>(n)); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) h[i][j] = cj(a[j][i]);
  svd_tall(h, v, s, u);
}
// thin QR by modified Gram-Schmidt with reorthogonalisation; q: m x k columns, r: k x n columns, k = min(m,n)
template<class E> inline void qr(const Cols<E> &a, size_t m, size_t n, Cols<E> &q, Cols<E> &r) {
  size_t k = std::min(m, n); q.assign(k, std::vector<E>(m, E(0))); std::vector<bool> good(k, false);
  for (size_t j = 0; j < k; ++j) {
    auto v = a[j]; double n0 = std::sqrt(nrm2(v));
    for (int rep = 0; rep < 3; ++rep) for (size_t i = 0; i < j; ++i) if (good[i]) { E d = dotc(q[i], v); for (size_t x = 0; x < m; ++x) v[x] -= d * q[i][x]; }
    double nn = std::sqrt(nrm2(v)); if (nn > 1e-13 * n0 && nn > 0) { for (auto &x : v) x /= nn; q[j] = v; good[j] = true; }
  }
  complete(q, good);
  r.assign(n, std::vector<E>(k)); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k; ++i) r[j][i] = dotc(q[i], a[j]);
}
// Hermitian eigenproblem by cyclic Jacobi; a row-major n*n is used; w ascending; z columns
template<class E> inline void heev(std::vector<E> a, size_t n, std::vector<double> &w, Cols<E> &z) {
  z.assign(n, std::vector<E>(n, E(0))); for (size_t i = 0; i < n; ++i) z[i][i] = E(1);
  auto A = [&](size_t i, size_t j) -> E & { return a[i * n + j]; };
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, dia = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) (i == j ? dia : off) += std::norm(A(i, j));
    if (off <= 1e-32 * (dia + off) || off == 0) break;
    for (size_t p = 0; p + 1 < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      double ag = std::abs(A(p, q)); if (ag * ag <= 1e-36 * (dia + off)) continue;
      double app = std::real(A(p, p)), aqq = std::real(A(q, q)), th = (aqq - app) / (2 * ag);
      double t = (th >= 0 ? 1. : -1.) / (std::abs(th) + std::sqrt(1 + th * th)), c = 1 / std::sqrt(1 + t * t), sn = t * c; E ph = A(p, q) / E(ag);
      for (size_t i = 0; i < n; ++i) { E x = A(i, p), y = A(i, q) * cj(ph); A(i, p) = E(c) * x - E(sn) * y; A(i, q) = E(sn) * x + E(c) * y; }
      for (size_t i = 0; i < n; ++i) { E x = A(p, i), y = A(q, i) * ph; A(p, i) = E(c) * x - E(sn) * y; A(q, i) = E(sn) * x + E(c) * y; }
      for (size_t i = 0; i < n; ++i) { E x = z[p][i], y = z[q][i] * cj(ph); z[p][i] = E(c) * x - E(sn) * y; z[q][i] = E(sn) * x + E(c) * y; }
    }
  }
  std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); std::vector<double> d(n); for (size_t i = 0; i < n; ++i) d[i] = std::real(A(i, i));
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return d[x] < d[y]; });
  Cols<E> z2; w.clear(); for (auto i : o) { w.push_back(d[i]); z2.push_back(z[i]); } z = z2;
}
// General complex eigenvalues by unshifted-safe shifted QR on a dense matrix, eigenvectors by inverse iteration.
using C = std::complex<double>;
inline bool solve(std::vector<C> a, std::vector<C> b, size_t n, std::vector<C> &x) {
  for (size_t k = 0; k < n; ++k) {
    size_t p = k; for (size_t i = k + 1; i < n; ++i) if (std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
    if (std::abs(a[p * n + k]) < 1e-300) a[p * n + k] = 1e-300;
    if (p != k) { for (size_t j = 0; j < n; ++j) std::swap(a[p * n + j], a[k * n + j]); std::swap(b[p], b[k]); }
    for (size_t i = k + 1; i < n; ++i) { C f = a[i * n + k] / a[k * n + k]; if (f == C(0)) continue; for (size_t j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j]; b[i] -= f * b[k]; }
  }
  x.assign(n, 0); for (size_t i = n; i-- > 0;) { C s = b[i]; for (size_t j = i + 1; j < n; ++j) s -= a[i * n + j] * x[j]; x[i] = s / a[i * n + i]; }
  return true;
}
inline std::vector<C> eigvals(std::vector<C> a, size_t n) {
  std::vector<C> w(n); size_t m = n; int it = 0;
  auto A = [&](size_t i, size_t j) -> C & { return a[i * n + j]; };
  while (m > 0) {
    if (m == 1) { w[0] = A(0, 0); break; }
    double row = 0, nr = 0; for (size_t j = 0; j + 1 < m; ++j) row += std::abs(A(m - 1, j)); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) nr = std::max(nr, std::abs(A(i, j)));
    if (row <= 1e-15 * nr || it > 2000) { w[m - 1] = A(m - 1, m - 1); --m; it = 0; continue; }
    C p = A(m - 2, m - 2), q = A(m - 2, m - 1), r = A(m - 1, m - 2), s = A(m - 1, m - 1), tr = p + s, de = p * s - q * r, di = std::sqrt(tr * tr / 4. - de), e1 = tr / 2. + di, e2 = tr / 2. - di;
    C mu = std::abs(e1 - s) < std::abs(e2 - s) ? e1 : e2; if (++it % 11 == 10) mu += C(nr * 0.1, nr * 0.05);
    Cols<C> c(m, std::vector<C>(m)), Q, R; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) c[j][i] = A(i, j) - (i == j ? mu : C(0));
    qr(c, m, m, Q, R);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { C t = i == j ? mu : C(0); for (size_t k = 0; k < m; ++k) t += R[k][i] * Q[j][k]; A(i, j) = t; }
  }
  return w;
}
inline Cols<C> eigvecs(const std::vector<C> &a, size_t n, const std::vector<C> &w) {
  Cols<C> z; double nr = 0; for (auto &x : a) nr = std::max(nr, std::abs(x)); if (nr == 0) nr = 1;
  for (size_t k = 0; k < n; ++k) {
    std::vector<C> b(n), x; for (size_t i = 0; i < n; ++i) b[i] = C(1.0 + 0.37 * (double) i, 0.11 * (double) (i * (k + 1) % 7));
    const std::vector<C> b0 = b; double sh = 1e-14 * nr * (double) (k + 1); bool ok = false;
    for (int attempt = 0; attempt < 40 && !ok; ++attempt, sh *= 1.37) {   // inverse iteration; another shift if the shifted matrix is exactly singular
      b = b0; std::vector<C> m = a; for (size_t i = 0; i < n; ++i) m[i * n + i] -= w[k] + C(sh);
      for (int r = 0; r < 4; ++r) { solve(m, b, n, x); double q = std::sqrt(nrm2(x)); for (auto &y : x) y /= q; b = x; }
      ok = std::isfinite(nrm2(b));
    }
    z.push_back(b);
  }
  return z;
}
}}  // namespace qlten::shimla

#ifndef LAPACK_ROW_MAJOR
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
typedef int lapack_int;
typedef std::complex<double> lapack_complex_double;
inline lapack_int LAPACKE_dsyev(int lay, char, char uplo, lapack_int n, double *a, lapack_int lda, double *w) {
  std::vector<double> m((size_t) n * n), ww; qlten::shimla::Cols<double> z;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool up = (uplo == 'U') == (i <= j); int r = up ? i : j, c = up ? j : i; m[(size_t) i * n + j] = lay == LAPACK_ROW_MAJOR ? a[(size_t) r * lda + c] : a[(size_t) c * lda + r]; }
  qlten::shimla::heev(m, (size_t) n, ww, z);
  for (int k = 0; k < n; ++k) { w[k] = ww[k]; for (int i = 0; i < n; ++i) (lay == LAPACK_ROW_MAJOR ? a[(size_t) i * lda + k] : a[(size_t) k * lda + i]) = z[k][i]; }
  return 0;
}
inline lapack_int LAPACKE_zheev(int lay, char, char uplo, lapack_int n, lapack_complex_double *a, lapack_int lda, double *w) {
  using C = std::complex<double>;
  std::vector<C> m((size_t) n * n); std::vector<double> ww; qlten::shimla::Cols<C> z;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool up = (uplo == 'U') == (i <= j) || i == j; int r = up ? i : j, c = up ? j : i; C v = lay == LAPACK_ROW_MAJOR ? a[(size_t) r * lda + c] : a[(size_t) c * lda + r]; m[(size_t) i * n + j] = i == j ? C(v.real()) : up ? v : std::conj(v); }
  qlten::shimla::heev(m, (size_t) n, ww, z);
  for (int k = 0; k < n; ++k) { w[k] = ww[k]; for (int i = 0; i < n; ++i) (lay == LAPACK_ROW_MAJOR ? a[(size_t) i * lda + k] : a[(size_t) k * lda + i]) = z[k][i]; }
  return 0;
}
inline lapack_int LAPACKE_zgeev(int lay, char jl, char jr, lapack_int n, lapack_complex_double *a, lapack_int lda, lapack_complex_double *w, lapack_complex_double *vl, lapack_int ldvl, lapack_complex_double *vr, lapack_int ldvr) {
  using C = std::complex<double>; size_t N = (size_t) n; std::vector<C> m(N * N), h(N * N);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m[i * N + j] = lay == LAPACK_ROW_MAJOR ? a[i * lda + j] : a[j * lda + i];
  auto ww = qlten::shimla::eigvals(m, N); auto zr = qlten::shimla::eigvecs(m, N, ww);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) h[i * N + j] = std::conj(m[j * N + i]);
  auto wc = ww; for (auto &x : wc) x = std::conj(x); auto zl = qlten::shimla::eigvecs(h, N, wc);
  for (size_t k = 0; k < N; ++k) { w[k] = ww[k]; for (size_t i = 0; i < N; ++i) { if (jr == 'V') (lay == LAPACK_ROW_MAJOR ? vr[i * ldvr + k] : vr[k * ldvr + i]) = zr[k][i]; if (jl == 'V') (lay == LAPACK_ROW_MAJOR ? vl[i * ldvl + k] : vl[k * ldvl + i]) = zl[k][i]; } }
  return 0;
}
inline lapack_int LAPACKE_dgeev(int lay, char jl, char jr, lapack_int n, double *a, lapack_int lda, double *wr, double *wi, double *vl, lapack_int ldvl, double *vr, lapack_int ldvr) {
  using C = std::complex<double>; size_t N = (size_t) n; std::vector<C> m(N * N), w(N), l(N * N), r(N * N);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) m[i * N + j] = lay == LAPACK_ROW_MAJOR ? a[i * lda + j] : a[j * lda + i];
  LAPACKE_zgeev(LAPACK_ROW_MAJOR, 'V', 'V', n, m.data(), n, w.data(), l.data(), n, r.data(), n);
  auto put = [&](double *v, int ld, const std::vector<C> &z, size_t k) {
    C ph = 1; double mx = 0; for (size_t i = 0; i < N; ++i) if (std::abs(z[i * N + k]) > mx * (1 + 1e-12)) { mx = std::abs(z[i * N + k]); ph = std::conj(z[i * N + k]) / mx; }
    for (size_t i = 0; i < N; ++i) { double x = std::real(z[i * N + k] * ph); (lay == LAPACK_ROW_MAJOR ? v[i * ld + k] : v[k * ld + i]) = x; } };
  for (size_t k = 0; k < N; ++k) { wr[k] = w[k].real(); wi[k] = std::abs(w[k].imag()) < 1e-12 * std::abs(w[k]) ? 0. : w[k].imag(); if (jr == 'V') put(vr, ldvr, r, k); if (jl == 'V') put(vl, ldvl, l, k); }
  return 0;
}
#endif
