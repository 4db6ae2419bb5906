// Reference Hamiltonians: matrix elements on occupation-number configurations (spin-1/2, fermions by Jordan-Wigner).
#pragma once
#include "tn.h"
#include <functional>
#include <map>
namespace md {
using namespace vh; using namespace tn;
using V = std::vector<size_t>;
using Terms = std::vector<std::pair<V, double>>;   // (c', <c'|O|c>)
// ---- spin-1/2 (1 = up)
inline void spin_bond(Terms &o, const V &c, size_t i, size_t j, double jz, double jxy) {
  o.push_back({c, (c[i] == c[j] ? 0.25 : -0.25) * jz}); if (c[i] != c[j]) { V d = c; std::swap(d[i], d[j]); o.push_back({d, 0.5 * jxy}); } }
// ---- fermions: Jordan-Wigner over modes 2*site+spin, sites row-major, up before down
enum Kind { SPINLESS, TJ, HUBBARD };
struct Fock { Kind k; size_t n;
  std::vector<char> bits(const V &c) const { std::vector<char> b(2 * n, 0); for (size_t i = 0; i < n; ++i) { size_t x = c[i]; if (k == SPINLESS) b[2 * i] = x == 0; else if (k == TJ) { b[2 * i] = x == 0; b[2 * i + 1] = x == 1; } else { b[2 * i] = x == 0 || x == 1; b[2 * i + 1] = x == 0 || x == 2; } } return b; }
  bool cfg(const std::vector<char> &b, V &c) const { c.assign(n, 0); for (size_t i = 0; i < n; ++i) { int u = b[2 * i], d = b[2 * i + 1]; if (k == SPINLESS) c[i] = u ? 0 : 1; else if (k == TJ) { if (u && d) return false; c[i] = u ? 0 : d ? 1 : 2; } else c[i] = u && d ? 0 : u ? 1 : d ? 2 : 3; } return true; }
  // apply operators right to left; (mode, true) creates
  void apply(Terms &o, const V &c, std::vector<std::pair<size_t, bool>> ops, double coef) const {
    auto b = bits(c); double s = coef; for (size_t a = ops.size(); a-- > 0;) { auto [m, cr] = ops[a]; if ((bool) b[m] == cr) return; int p = 0; for (size_t q = 0; q < m; ++q) p += b[q]; if (p % 2) s = -s; b[m] = cr; }
    V d; if (cfg(b, d)) o.push_back({d, s}); }
  void hop(Terms &o, const V &c, size_t i, size_t j, double t) const { for (int s = 0; s < (k == SPINLESS ? 1 : 2); ++s) { apply(o, c, {{2 * i + s, true}, {2 * j + s, false}}, -t); apply(o, c, {{2 * j + s, true}, {2 * i + s, false}}, -t); } }
  double dens(const V &c, size_t i) const { auto b = bits(c); return b[2 * i] + b[2 * i + 1]; }
  double sz(const V &c, size_t i) const { auto b = bits(c); return 0.5 * (b[2 * i] - b[2 * i + 1]); }
  void exch(Terms &o, const V &c, size_t i, size_t j, double J) const {   // J (S.S - n n / 4)
    o.push_back({c, J * (sz(c, i) * sz(c, j) - 0.25 * dens(c, i) * dens(c, j))});
    apply(o, c, {{2 * i, true}, {2 * i + 1, false}, {2 * j + 1, true}, {2 * j, false}}, 0.5 * J); apply(o, c, {{2 * i + 1, true}, {2 * i, false}, {2 * j, true}, {2 * j + 1, false}}, 0.5 * J); }
  void pair_dag(Terms &o, const V &c, size_t i, size_t j, double a) const { a /= std::sqrt(2.0); apply(o, c, {{2 * i, true}, {2 * j + 1, true}}, a); apply(o, c, {{2 * i + 1, true}, {2 * j, true}}, -a); }
  void pair(Terms &o, const V &c, size_t i, size_t j, double a) const { a /= std::sqrt(2.0); apply(o, c, {{2 * j + 1, false}, {2 * i, false}}, a); apply(o, c, {{2 * j, false}, {2 * i + 1, false}}, -a); }
};
enum Dir { H, VV, DR, UR, J2D, J2H, J2V, SITE };
// reference model: bonds(dir,i,j) in lattice order, local terms
struct Ref { std::function<void(Terms &, const V &, Dir, size_t, size_t)> bond; std::function<void(Terms &, const V &)> onsite; bool per = false, diag = false, tri2 = false; size_t maxd = 2; };
struct BondId { Dir d; size_t i, j, r, c; };
inline std::vector<BondId> bonds(const Ref &m, size_t R, size_t C) {
  std::vector<BondId> b; auto id = [&](size_t r, size_t c) { return (r % R) * C + c % C; };
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) {
    if (m.per || c + 1 < C) b.push_back({H, id(r, c), id(r, c + 1), r, c});
    if (m.per || r + 1 < R) b.push_back({VV, id(r, c), id(r + 1, c), r, c});
    if (m.diag && m.per) { b.push_back({DR, id(r, c), id(r + 1, c + 1), r, c}); b.push_back({UR, id(r, c), id(r + 1, c + C - 1), r, c}); }
    if (m.diag && !m.per && r + 1 < R && c + 1 < C) { b.push_back({DR, id(r, c), id(r + 1, c + 1), r, c}); b.push_back({UR, id(r + 1, c), id(r, c + 1), r, c}); }
    if (m.tri2) { if (r + 1 < R && c + 2 < C) b.push_back({J2H, id(r + 1, c), id(r, c + 2), r, c}); if (r + 2 < R && c + 1 < C) b.push_back({J2V, id(r + 2, c), id(r, c + 1), r, c}); }
  } return b; }
template<class E> struct Amp { std::function<E(const V &)> f; std::map<V, E> memo; E operator()(const V &c) { auto it = memo.find(c); if (it != memo.end()) return it->second; return memo[c] = f(c); } };
template<class E> E eval(Amp<E> &a, const V &c, const Terms &t, double &scale) { E s = 0, p = a(c); for (auto &[d, x] : t) { if (d == c) { s += x; scale += std::abs(x); } else if (x != 0) { E r = cj(a(d) / p) * x; s += r; scale += mag(r); } } return s; }
}  // namespace md
