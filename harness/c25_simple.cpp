// C25: simple update: gates, projections and sweeps against the full wave function; run bookkeeping.
#include "peps.h"
#include "qlpeps/algorithm/simple_update/simple_update_model_all.h"
#include <sstream>
using namespace pp; using namespace md; using namespace qlpeps;
template<class E, class Q> using P = SquareLatticePEPS<E, Q>;
template<class E, class Q> using T = qlten::QLTensor<E, Q>;
static double nrm(const auto &v) { double s = 0; for (auto &x : v) s += std::norm(x); return std::sqrt(s); }
template<class E> E dotc(const F<E> &a, const F<E> &b) { E s = 0; for (size_t i = 0; i < a.size(); ++i) s += cj(a[i]) * b[i]; return s; }
template<class E> double dist(const F<E> &a, const F<E> &b, E f = E(1)) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] * f - b[i]); return std::sqrt(s); }
static size_t ipow(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
// ---- few-site operators: bosonic matrix or fermionic second-quantised expression
template<class E, class Q> struct Op { size_t k = 2, d = 2; F<E> m; double hop[3] = {0, 0, 0}, ex[3] = {0, 0, 0}, n1[3] = {0, 0, 0}, nn[3] = {0, 0, 0}; Kind kind = SPINLESS;   // pairs 01, 12, 02
  void terms(const Fock &f, Terms &o, const V &c, const V &s) const { static const int pr[3][2] = {{0, 1}, {1, 2}, {0, 2}}; double dg = 0; for (size_t i = 0; i < k; ++i) dg += n1[i] * f.dens(c, s[i]); for (int q = 0; q < 3; ++q) { size_t a = pr[q][0], b = pr[q][1]; if (a >= k || b >= k) continue; dg += nn[q] * f.dens(c, s[a]) * f.dens(c, s[b]); if (hop[q] != 0) f.hop(o, c, s[a], s[b], hop[q]); if (ex[q] != 0) f.exch(o, c, s[a], s[b], ex[q]); } o.push_back({c, dg}); }
  double norm() const { if constexpr (Q::IsFermionic()) { double s = 0; for (int i = 0; i < 3; ++i) s += 2 * std::abs(hop[i]) + std::abs(ex[i]) + 2 * std::abs(n1[i]) + 4 * std::abs(nn[i]); return s; } else return nrm(m); }
  // add z * Op|psi> for Op placed on `sites` of an n-site lattice
  void add(F<E> &out, const F<E> &psi, const V &s, size_t n, E z) const {
    if constexpr (Q::IsFermionic()) { Fock f{kind, n}; size_t i = 0; all_cfg(n, d, [&](const V &c) { if (psi[i] != E(0)) { Terms o; terms(f, o, c, s); for (auto &[c2, x] : o) { size_t j = 0; for (auto q : c2) j = j * d + q; out[j] += z * E(x) * psi[i]; } } ++i; }); }
    else { size_t dim = ipow(d, k); std::vector<size_t> st(k); for (size_t a = 0; a < k; ++a) st[a] = ipow(d, n - 1 - s[a]); for (size_t i = 0; i < psi.size(); ++i) { size_t from = 0, base = i; for (size_t a = 0; a < k; ++a) { size_t x = (i / st[a]) % d; from = from * d + x; base -= x * st[a]; } for (size_t to = 0; to < dim; ++to) { E v = m[to * dim + from]; if (v == E(0)) continue; size_t j = base, rem = to; for (size_t a = k; a-- > 0;) { j += (rem % d) * st[a]; rem /= d; } out[j] += z * v * psi[i]; } } } }
  F<E> expo(const F<E> &psi, const V &s, size_t n, double tau) const { F<E> r = psi, t = psi; for (int q = 1; q < 200; ++q) { F<E> u(psi.size(), E(0)); add(u, t, s, n, E(-tau / q)); t = u; for (size_t i = 0; i < r.size(); ++i) r[i] += t[i]; if (nrm(t) < 1e-18 * nrm(r)) break; } return r; }
  E expect(const F<E> &psi, const V &s, size_t n) const { F<E> u(psi.size(), E(0)); add(u, psi, s, n, E(1)); return dotc(psi, u) / dotc(psi, psi); }
  // tensor in the library's convention: legs (in_0, out_0, in_1, out_1, ...)
  T<E, Q> tensor(const Idx<Q> &p) const { auto bra = qlten::InverseIndex(p);
    if constexpr (Q::IsFermionic()) { std::vector<Idx<Q>> ix(k, p); for (size_t i = 0; i < k; ++i) ix.push_back(bra); T<E, Q> t(ix); Fock f{kind, k}; V id(k); for (size_t i = 0; i < k; ++i) id[i] = i; std::map<std::vector<size_t>, double> el;
      all_cfg(k, d, [&](const V &c) { Terms o; terms(f, o, c, id); for (auto &[c2, x] : o) { std::vector<size_t> q = c2; for (size_t i = k; i-- > 0;) q.push_back(c[i]); el[q] += x; } }); for (auto &[q, x] : el) if (x != 0) t.SetElem(q, E(x)); std::vector<size_t> ax; for (size_t i = 0; i < k; ++i) { ax.push_back(2 * k - 1 - i); ax.push_back(i); } t.Transpose(ax); return t; }
    else { std::vector<Idx<Q>> ix; for (size_t i = 0; i < k; ++i) { ix.push_back(bra); ix.push_back(p); } T<E, Q> t(ix); size_t dim = ipow(d, k); for (size_t to = 0; to < dim; ++to) for (size_t fr = 0; fr < dim; ++fr) if (m[to * dim + fr] != E(0)) { std::vector<size_t> q(2 * k); size_t a = to, b = fr; for (size_t i = k; i-- > 0;) { q[2 * i + 1] = a % d; a /= d; q[2 * i] = b % d; b /= d; } t.SetElem(q, m[to * dim + fr]); } return t; } }
};
static long charge(size_t code, size_t k, size_t d, bool u1) { long q = 0; if (u1) for (size_t i = 0; i < k; ++i) { size_t x = code % d; code /= d; q += d == 2 ? (x == 0 ? 1 : -1) : (x == 0 ? 1 : x == 1 ? 0 : -1); } return q; }
template<class E, class Q> Op<E, Q> rop(Rng &rng, size_t k, size_t d, Kind kind, double amp = 1, bool sym = false) {
  Op<E, Q> o; o.k = k; o.d = d; o.kind = kind;
  if constexpr (Q::IsFermionic()) { for (int i = 0; i < 3; ++i) { o.n1[i] = amp * rng.uni(-1, 1); if (k > 1) { o.hop[i] = amp * rng.uni(-1, 1); o.nn[i] = amp * rng.uni(-1, 1); if (kind != SPINLESS && rng.coin()) o.ex[i] = amp * rng.uni(-1, 1); } } if (sym) o.n1[2] = o.n1[1] = o.n1[0]; }
  else { size_t dim = ipow(d, k); o.m.assign(dim * dim, E(0)); auto sw = [&](size_t a) { size_t r = 0; std::vector<size_t> x(k); for (size_t i = k; i-- > 0;) { x[i] = a % d; a /= d; } for (size_t i = k; i-- > 0;) r = r * d + x[i]; return r; }; F<E> g(dim * dim); for (auto &x : g) x = E(0.6 * amp) * rnd<E>(rng);
    for (size_t a = 0; a < dim; ++a) for (size_t b = 0; b < dim; ++b) if (charge(a, k, d, std::is_same_v<Q, U1>) == charge(b, k, d, std::is_same_v<Q, U1>)) { E v = (g[a * dim + b] + cj(g[b * dim + a])) / 2.0; if (sym) v = (v + (g[sw(a) * dim + sw(b)] + cj(g[sw(b) * dim + sw(a)])) / 2.0) / 2.0; o.m[a * dim + b] = v; } }
  return o;
}
template<class Q> std::pair<size_t, Kind> local(Rng &rng) { if constexpr (Q::IsFermionic()) return rng.coin(0.6) ? std::pair<size_t, Kind>(2, SPINLESS) : std::pair<size_t, Kind>(3, TJ); else return {rng.coin(0.7) ? 2 : 3, SPINLESS}; }
struct Quiet { std::streambuf *a; std::ostringstream s; Quiet() { a = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); } };
// ---- gates
template<class E, class Q> void taylor(Rng &rng, uint64_t cases) { for (uint64_t it = 0; it < cases; ++it) { auto [d, kind] = local<Q>(rng); size_t k = 1 + rng.below(d == 2 ? 3 : 2); auto op = rop<E, Q>(rng, k, d, kind, rng.uni(0.2, 2)); auto p = phys<Q>(rng, d); double tau = rng.coin(0.1) ? 0 : std::pow(10, rng.uni(-5, 0)) * (rng.coin(0.2) ? -1 : 1); std::string sig = cat("gate of ", k, " sites d=", d, " ", qname<Q>(), " tau=", tau); Doing(sig); Case(hash_str(sig)); T<E, Q> h = op.tensor(p), h0 = h, g; { Quiet q; g = TaylorExpMatrix(tau, h); } Check(h == h0, "gate-changed-hamiltonian", sig); if (!Check(g.Rank() == 2 * k, "gate-rank", sig)) continue;
    V s(k); for (size_t i = 0; i < k; ++i) s[i] = i; size_t dim = ipow(d, k); bool ok = true; double worst = 0;
    if constexpr (!Q::IsFermionic()) { for (size_t fr = 0; fr < dim; ++fr) { F<E> e(dim, E(0)); e[fr] = 1; auto r = op.expo(e, s, k, tau); for (size_t to = 0; to < dim; ++to) { std::vector<size_t> q(2 * k); size_t a = to, b = fr; for (size_t i = k; i-- > 0;) { q[k + i] = a % d; a /= d; q[i] = b % d; b /= d; } double e2 = mag(E(g.GetElem(q)) - r[to]); worst = std::max(worst, e2 / (1 + nrm(r))); } } ok = worst < 1e-11; for (size_t i = 0; i < k; ++i) ok = ok && g.GetIndex(i) == h.GetIndex(2 * i) && g.GetIndex(k + i) == h.GetIndex(2 * i + 1); Check(ok, "gate-value", sig, " off by ", worst); }
    else { for (size_t i = 0; i < k; ++i) ok = ok && g.GetIndex(i) == h.GetIndex(2 * i) && g.GetIndex(k + i) == h.GetIndex(2 * i + 1); Check(ok, "gate-legs", sig); }
    Observe("gate"); if (rng.coin(0.02)) Sample(sig); } }
#if PART == 0
SECTION("taylor", 1, 2) { taylor<double, Triv>(rng, N(150, 1500)); taylor<Z, Triv>(rng, N(150, 1500)); taylor<double, U1>(rng, N(100, 1000)); taylor<Z, U1>(rng, N(100, 1000)); taylor<double, fZ2>(rng, N(50, 500)); }
#endif
// ---- projections
enum Where { HB, VB, UR3, UL3, LR3, LL3 }; static const char *wn[] = {"horizontal", "vertical", "upper-right", "upper-left", "lower-right", "lower-left"};
struct Place { Where w; size_t r, c; std::vector<SiteIdx> sites; };   // sites in gate order
static Place place(Where w, size_t r, size_t c, size_t R, size_t C) { size_t d = (r + 1) % R, e = (c + 1) % C; Place p{w, r, c, {}}; switch (w) { case HB: p.sites = {{r, c}, {r, e}}; break; case VB: p.sites = {{r, c}, {d, c}}; break; case UR3: p.sites = {{r, c}, {r, e}, {d, e}}; break; case UL3: p.sites = {{r, e}, {r, c}, {d, c}}; break; case LR3: p.sites = {{r, e}, {d, e}, {d, c}}; break; case LL3: p.sites = {{r, c}, {d, c}, {d, e}}; break; } return p; }
template<class E, class Q> ProjectionRes<E> project(P<E, Q> &s, const Place &p, const T<E, Q> &g, const SimpleUpdateTruncatePara &tp, const T<E, Q> &h) { size_t r = p.r, c = p.c, e = (c + 1) % s.Cols(); switch (p.w) { case HB: return s.NearestNeighborSiteProject(g, {r, c}, HORIZONTAL, tp, h); case VB: return s.NearestNeighborSiteProject(g, {r, c}, VERTICAL, tp, h); case UR3: return s.UpperRightTriangleProject(g, {r, e}, tp, h); case UL3: return s.UpperLeftTriangleProject(g, {r, c}, tp, h); case LR3: return s.LowerRightTriangleProject(g, {r, e}, tp, h); default: return s.LowerLeftTriangleProject(g, {r, c}, tp, h); } }
static V flat_sites(const Place &p, size_t C) { V v; for (auto &s : p.sites) v.push_back(s[0] * C + s[1]); return v; }
// the bonds a projection may touch: (vertical?, row, col) of the weights
static std::set<std::tuple<bool, size_t, size_t>> touched(const Place &p, size_t R, size_t C) { std::set<std::tuple<bool, size_t, size_t>> o; size_t d = (p.r + 1) % R, e = (p.c + 1) % C, r = p.r, c = p.c; if (p.w == HB || p.w == UR3 || p.w == UL3) o.insert({false, r, e}); if (p.w == LR3 || p.w == LL3) o.insert({false, d, e}); if (p.w == VB || p.w == UL3 || p.w == LL3) o.insert({true, d, c}); if (p.w == UR3 || p.w == LR3) o.insert({true, d, e}); return o; }
// local state with its mean-field environment (bosons): legs = outer virtual legs, then physical legs in gate order
template<class E, class Q> DT<E> theta(const P<E, Q> &s, const Place &p) { size_t R = s.Rows(), C = s.Cols(); auto in = touched(p, R, C); DT<E> acc; bool first = true; int fresh = 1, cut = 500; std::map<std::tuple<bool, size_t, size_t>, int> lab; for (auto &x : in) lab[x] = 800000 + cut++;
  auto lmul = [](DT<E> x, size_t leg, const qlten::QLTensor<double, Q> &l) { size_t st = 1; for (size_t k = leg + 1; k < x.dim.size(); ++k) st *= x.dim[k]; size_t n = x.dim[leg]; for (size_t i = 0; i < x.d.size(); ++i) { size_t k = (i / st) % n; x.d[i] *= l({k, k}); } return x; };
  std::set<int> done; bool per = s.GetBoundaryCondition() == BoundaryCondition::Periodic; int ph = 900000;
  for (size_t q = 0; q < p.sites.size(); ++q) { size_t r = p.sites[q][0], c = p.sites[q][1]; std::vector<int> l; std::vector<std::tuple<bool, size_t, size_t>> key{{false, r, c}, {true, per ? (r + 1) % R : r + 1, c}, {false, r, per ? (c + 1) % C : c + 1}, {true, r, c}}; std::vector<char> weight(4, 1);
    // a leg is inner when it lies on a touched bond and joins this site to the neighbour in the gate
    for (int k = 0; k < 4; ++k) { bool inner = false; if (in.count(key[k])) { SiteIdx nb = k == 0 ? SiteIdx{r, (c + C - 1) % C} : k == 1 ? SiteIdx{(r + 1) % R, c} : k == 2 ? SiteIdx{r, (c + 1) % C} : SiteIdx{(r + R - 1) % R, c}; for (size_t q2 = 0; q2 < p.sites.size(); ++q2) if (p.sites[q2][0] == nb[0] && p.sites[q2][1] == nb[1]) inner = true; } if (inner) { l.push_back(lab[key[k]]); weight[k] = !done.count(lab[key[k]]); done.insert(lab[key[k]]); } else l.push_back(fresh++); }
    l.push_back(ph++); DT<E> x = dense(s.Gamma({r, c}), l); if (weight[0]) x = lmul(x, 0, s.GetLambdaHorizWest(r, c)); if (weight[1]) x = lmul(x, 1, s.GetLambdaVertSouth(r, c)); if (weight[2]) x = lmul(x, 2, s.GetLambdaHorizEast(r, c)); if (weight[3]) x = lmul(x, 3, s.GetLambdaVertNorth(r, c)); acc = first ? x : mul(acc, x); first = false; }
  // sort legs by label
  std::vector<size_t> o(acc.lab.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return acc.lab[a] < acc.lab[b]; }); DT<E> r; for (auto i : o) { r.lab.push_back(acc.lab[i]); r.dim.push_back(acc.dim[i]); } std::vector<size_t> st(o.size(), 1); for (size_t k = o.size(); k-- > 1;) st[k - 1] = st[k] * acc.dim[k]; r.d.resize(acc.d.size()); for (size_t i = 0; i < r.d.size(); ++i) { size_t rem = i, src = 0; for (size_t k = o.size(); k-- > 0;) { src += (rem % r.dim[k]) * st[o[k]]; rem /= r.dim[k]; } r.d[i] = acc.d[src]; } return r; }
template<class E, class Q> F<E> gated(const DT<E> &t, const Op<E, Q> &op, double tau, bool expo) { size_t n = ipow(op.d, op.k), env = t.d.size() / n; V s(op.k); for (size_t i = 0; i < op.k; ++i) s[i] = i; F<E> o(t.d.size()); for (size_t e = 0; e < env; ++e) { F<E> v(t.d.begin() + e * n, t.d.begin() + (e + 1) * n), w(n, E(0)); if (expo) w = op.expo(v, s, op.k, tau); else op.add(w, v, s, op.k, E(1)); std::copy(w.begin(), w.end(), o.begin() + e * n); } return o; }
// singular values of theta cut between the first site and the rest (one-sided Jacobi)
template<class E> std::vector<double> singular(const F<E> &a, size_t rows, size_t cols) { F<E> m(a); bool t = rows < cols; std::vector<F<E>> col; if (!t) { for (size_t j = 0; j < cols; ++j) { F<E> v(rows); for (size_t i = 0; i < rows; ++i) v[i] = m[i * cols + j]; col.push_back(v); } } else for (size_t i = 0; i < rows; ++i) { F<E> v(cols); for (size_t j = 0; j < cols; ++j) v[j] = cj(m[i * cols + j]); col.push_back(v); }
  for (int sweep = 0; sweep < 60; ++sweep) { double off = 0; for (size_t i = 0; i < col.size(); ++i) for (size_t j = i + 1; j < col.size(); ++j) { double aa = std::real(dotc(col[i], col[i])), bb = std::real(dotc(col[j], col[j])); E c = dotc(col[i], col[j]); double ac = mag(c); if (ac <= 1e-16 * std::sqrt(aa * bb) || ac == 0) continue; off = std::max(off, ac / std::sqrt(aa * bb)); E ph = c / ac; double zeta = (bb - aa) / (2 * ac), tt = (zeta >= 0 ? 1.0 : -1.0) / (std::abs(zeta) + std::sqrt(1 + zeta * zeta)), cs = 1 / std::sqrt(1 + tt * tt), sn = cs * tt; for (size_t q = 0; q < col[i].size(); ++q) { E x = col[i][q], y = cj(ph) * col[j][q]; col[i][q] = cs * x - sn * y; col[j][q] = sn * x + cs * y; } } if (off < 1e-14) break; }
  std::vector<double> s; for (auto &c : col) s.push_back(nrm(c)); std::sort(s.rbegin(), s.rend()); return s; }
template<class E, class Q> bool legs_ok(const P<E, Q> &s, std::string &why) { for (size_t r = 0; r < s.Rows(); ++r) for (size_t c = 0; c < s.Cols(); ++c) { const auto &g = s.Gamma({r, c}); if (g.Rank() != 5) { why = "rank"; return false; } auto I = [](const Idx<Q> &x) { return qlten::InverseIndex(x); }; if (!(I(g.GetIndex(0)) == s.GetLambdaHorizWest(r, c).GetIndex(1) && I(g.GetIndex(1)) == s.GetLambdaVertSouth(r, c).GetIndex(0) && I(g.GetIndex(2)) == s.GetLambdaHorizEast(r, c).GetIndex(0) && I(g.GetIndex(3)) == s.GetLambdaVertNorth(r, c).GetIndex(1))) { why = cat("site ", r, ",", c); return false; } } return true; }
template<class E, class Q> void projections(Rng &rng, uint64_t cases) { std::vector<std::pair<size_t, size_t>> sh{{1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {3, 1}}; if (!Q::IsFermionic()) sh.push_back({3, 3});
  for (uint64_t it = 0; it < cases; ++it) { auto [d, kind] = local<Q>(rng); auto [R, C] = sh[rng.below(sh.size())]; if (d == 3 && R * C > 4) d = 2, kind = SPINLESS; bool per = !Q::IsFermionic() && R > 1 && C > 1 && R * C < 9 && rng.coin(0.4), rev = !Q::IsFermionic() && rng.coin(0.3); auto p = phys<Q>(rng, d); size_t D0 = R * C >= 6 || per ? 2 : 3; long lone = R == 2 && C == 2 && !per && rng.coin() ? (long) rng.below(4) : -1; P<E, Q> s = random_peps<E, Q>(rng, R, C, per, D0, p, rev, 0.2, lone); F<E> psi = wfq(s, d); if (nrm(psi) < 1e-3) { TrivialCase(); continue; } size_t n = R * C, len = 1 + rng.below(3); bool cut = rng.coin(0.35); std::string sig = cat(R, "x", C, per ? " periodic " : " open ", qname<Q>(), std::is_same_v<E, double> ? " real" : " complex", " d=", d, rev ? " reversed legs" : "", cut ? " truncating" : ""); Doing(sig); Case(hash_str(sig) ^ mix((uint64_t) (nrm(psi) * 1e9)));
    for (size_t step = 0; step < len; ++step) { std::vector<Where> ws; if (C > 1) ws.push_back(HB); if (R > 1) ws.push_back(VB); if (R > 1 && C > 1) for (Where w : {UR3, UL3, LR3, LL3}) ws.push_back(w); Where w = ws[rng.below(ws.size())]; if (step == 0 && lone >= 0 && rng.coin(0.7)) { static const Where ex3[4] = {LR3, LL3, UR3, UL3}; w = ex3[lone]; } size_t rr = (w == HB || per) ? R : R - 1, cc = (w == VB || per) ? C : C - 1; Place pl = place(w, rng.below(rr), rng.below(cc), R, C); size_t k = pl.sites.size(); auto op = rop<E, Q>(rng, k, d, kind, rng.uni(0.3, 1.2)); double tau = rng.uni(-0.5, 0.7); T<E, Q> h = op.tensor(p), g; { Quiet q; g = TaylorExpMatrix(tau, h); } size_t Dmax = cut ? 1 + rng.below(4) : 64; SimpleUpdateTruncatePara tp = rng.coin() ? SimpleUpdateTruncatePara(1, Dmax, 1e-24) : SimpleUpdateTruncatePara(1, Dmax, 1e-24, 1e-30); bool energy = rng.coin(0.7);
      std::string ws2 = cat(sig, " step ", step, " ", wn[w], " at ", pl.r, ",", pl.c, " Dmax=", Dmax); Doing(ws2); P<E, Q> before = s; DT<E> th; if constexpr (!Q::IsFermionic()) th = theta(s, pl); ProjectionRes<E> res = project(s, pl, g, tp, energy ? h : T<E, Q>()); Check(res.e_loc.has_value() == energy, "energy-presence", ws2); std::string why; if (!Check(legs_ok(s, why), "legs-broken", ws2, " ", why)) break; for (size_t i = 0; i < n; ++i) Check(s.Gamma({i / C, i % C}).GetIndex(4) == p, "physical-leg", ws2);
      // untouched parts stay untouched
      auto tb = touched(pl, R, C); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { bool mine = false; for (auto &x : pl.sites) mine = mine || (x[0] == r && x[1] == c); if (!mine) Check(s.Gamma({r, c}) == before.Gamma({r, c}), "other-site-changed", ws2); } size_t Dseen = 0; for (size_t r = 0; r < s.lambda_vert.rows(); ++r) for (size_t c = 0; c < C; ++c) { if (!tb.count({true, r, c})) Check(s.lambda_vert({r, c}) == before.lambda_vert({r, c}), "other-bond-changed", ws2); else Dseen = std::max<size_t>(Dseen, s.lambda_vert({r, c}).GetShape()[0]); } for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < s.lambda_horiz.cols(); ++c) { if (!tb.count({false, r, c})) Check(s.lambda_horiz({r, c}) == before.lambda_horiz({r, c}), "other-bond-changed", ws2); else Dseen = std::max<size_t>(Dseen, s.lambda_horiz({r, c}).GetShape()[0]); }
      Check(Dseen <= Dmax && Dseen == res.D, "bond-dimension", ws2, " D ", Dseen, " reported ", res.D); for (auto &[v, r, c] : tb) { const auto &l = v ? s.lambda_vert({r, c}) : s.lambda_horiz({r, c}); bool pos = true; for (size_t i = 0; i < l.GetShape()[0]; ++i) for (size_t j = 0; j < l.GetShape()[0]; ++j) pos = pos && (i == j ? (Q::IsFermionic() ? l({i, j}) != 0 : l({i, j}) > 0) : l({i, j}) == 0); Check(pos, "weights-not-positive-diagonal", ws2); }
      V fs = flat_sites(pl, C); double terr = res.trunc_err; bool exact = terr < 1e-18; F<E> now = wfq(s, d), want = op.expo(psi, fs, n, tau); if (!exact && Dmax >= 64) Check(false, "unexpected-truncation", ws2, " ", terr);
      if (exact) { double e = dist(now, want, E(res.norm)); Check(e <= 1e-7 * nrm(want) + 1e-9 * res.norm, "evolved-state", ws2, " relative error ", e / nrm(want)); Observe(cat("project_", wn[w])); if (Q::IsFermionic()) Observe(cat("project_fermion_", wn[w])); if (per) Observe("project_periodic"); if (energy && !per && step == 0 && (n == k || (n == k + 1 && lone >= 0 && std::find(fs.begin(), fs.end(), (size_t) lone) == fs.end()))) { E ex = op.expect(want, fs, n); Check(mag(*res.e_loc - ex) <= 1e-8 * (1 + op.norm()), "local-energy-exact", ws2, " got ", *res.e_loc, " expected ", ex); Observe("energy_exact"); if (Q::IsFermionic()) Observe(k == 2 ? "energy_exact_fermion" : "energy_exact_fermion_3"); } }
      if constexpr (!Q::IsFermionic()) { F<E> gt = gated(th, op, tau, true); double nt = nrm(gt); Check(std::abs(res.norm - nt) <= 1e-9 * nt, "norm", ws2, " ", res.norm, " expected ", nt); for (auto &x : gt) x /= nt; if (energy) { DT<E> t2 = th; t2.d = gt; F<E> hg = gated(t2, op, tau, false); E e = dotc(gt, hg); Check(mag(*res.e_loc - e) <= 1e-8 * (1 + op.norm()), "local-energy", ws2, " got ", *res.e_loc, " expected ", e); Observe("project_energy"); }
        DT<E> t3 = theta(s, pl); if (Check(t3.d.size() == gt.size(), "environment-changed", ws2)) { double e2 = std::pow(dist(t3.d, gt), 2); if (k == 2) { Check(std::abs(e2 - terr) <= 1e-9 + 1e-6 * terr, "truncation-error", ws2, " state moved by ", e2, " reported ", terr); if (!exact) { size_t rows = 1, cols = 1, ph0 = t3.dim.size() - 2; std::vector<size_t> side(t3.dim.size()); for (size_t i = 0; i < t3.dim.size(); ++i) side[i] = i < 3 || i == ph0 ? 0 : 1; for (size_t i = 0; i < side.size(); ++i) (side[i] ? cols : rows) *= t3.dim[i]; F<E> m(rows * cols); for (size_t i = 0; i < gt.size(); ++i) { size_t rem = i, a = 0, b = 0, sa = 1, sb = 1; for (size_t q = t3.dim.size(); q-- > 0;) { size_t x = rem % t3.dim[q]; rem /= t3.dim[q]; if (side[q]) { b += x * sb; sb *= t3.dim[q]; } else { a += x * sa; sa *= t3.dim[q]; } } m[a * cols + b] = gt[i]; } auto sv = singular(m, rows, cols); double lost = 0; for (size_t i = res.D; i < sv.size(); ++i) lost += sv[i] * sv[i]; Check(std::abs(lost - terr) <= 1e-9 + 1e-6 * lost, "truncation-not-optimal", ws2, " smallest possible loss ", lost, " actual ", terr); auto &[vv, r2, c2] = *tb.begin(); const auto &l = vv ? s.lambda_vert({r2, c2}) : s.lambda_horiz({r2, c2}); std::vector<double> lv; for (size_t i = 0; i < res.D; ++i) lv.push_back(l({i, i})); std::sort(lv.rbegin(), lv.rend()); for (size_t i = 0; i < lv.size(); ++i) Check(std::abs(lv[i] - sv[i]) <= 1e-8, "weights-not-singular-values", ws2, " ", lv[i], " expected ", sv[i]); Observe("project_truncated"); } } else { Check(e2 <= 2 * terr + 1e-9 && e2 >= terr * (1 - terr) * 0.99 - 1e-9, "truncation-error-3", ws2, " state moved by ", e2, " reported ", terr); if (!exact) Observe("project_truncated_3"); } } }
      if (rng.coin(0.5)) { F<E> tw = wf5(s.ToTPS(), d); Check(dist(tw, now) <= 1e-8 * nrm(now) + 1e-12, "converted-state", ws2, " relative error ", dist(tw, now) / nrm(now)); Observe("project_converted"); }
      psi = now; if (nrm(psi) < 1e-6 || s.GetMaxBondDim() > 8) break; }
    if (rng.coin(0.02)) Sample(sig); } }
#if PART == 0
SECTION("project_d", 2, 8) { projections<double, Triv>(rng, N(300, 4000)); projections<double, U1>(rng, N(200, 3000)); }
SECTION("project_z", 2, 8) { projections<Z, Triv>(rng, N(300, 4000)); projections<Z, U1>(rng, N(200, 3000)); }
SECTION("project_f", 2, 8) { projections<double, fZ2>(rng, N(200, 2500)); projections<Z, fZ2>(rng, N(100, 1500)); }
#endif
#if PART == 1
// ---- whole sweeps: to first order in the step they apply 1 - tau * H
template<class E, class Q> struct Ham { std::vector<std::pair<Op<E, Q>, V>> t; F<E> on(const F<E> &psi, size_t n) const { F<E> o(psi.size(), E(0)); for (auto &[op, s] : t) op.add(o, psi, s, n, E(1)); return o; } double norm() const { double s = 0; for (auto &[op, x] : t) s += op.norm(); return s; } };
template<class E> double first_order(const F<E> &a, const F<E> &b, const F<E> &Ha, double tau) { E al = dotc(a, a) / dotc(a, b), ex = dotc(a, Ha) / dotc(a, a); F<E> x(a.size()); for (size_t i = 0; i < a.size(); ++i) x[i] = (b[i] * al - a[i]) / tau + Ha[i] - ex * a[i]; return nrm(x) / nrm(a); }
enum Exe { NN, NNN_, TRI };
template<class E, class Q> void sweeps(Rng &rng, Exe exe, uint64_t cases) { using TM = TenMatrix<T<E, Q>>; std::vector<std::pair<size_t, size_t>> sh{{2, 2}, {2, 3}, {3, 2}}; if (exe == NN) for (std::pair<size_t, size_t> x : {std::pair<size_t, size_t>{1, 2}, {2, 1}, {1, 4}, {4, 1}}) sh.push_back(x); if (!Q::IsFermionic()) sh.push_back({3, 3}); else if (exe == NN) sh.push_back({2, 4});
  for (uint64_t it = 0; it < cases; ++it) { auto [d, kind] = local<Q>(rng); auto [R, C] = sh[rng.below(sh.size())]; if (d == 3 && R * C > 4) d = 2, kind = SPINLESS; size_t n = R * C; bool per = exe != TRI && !Q::IsFermionic() && R > 1 && C > 1 && n < 9 && rng.coin(exe == NN ? 0.4 : 0.15), product = n > 4 || exe == NNN_ || rng.coin(0.3); if (exe == NNN_ && per) d = 2, kind = SPINLESS; auto p = phys<Q>(rng, d); P<E, Q> s = random_peps<E, Q>(rng, R, C, per, product ? 1 : 2, p, false, 0.4); F<E> psi = wfq(s, d); if (nrm(psi) < 1e-2) { TrivialCase(); continue; }
    double tau = std::pow(10, rng.uni(-4.0, -3.7)); int onsite = exe == TRI ? 0 : (int) rng.below(4); bool nonu = exe == NN && R > 1 && C > 1 && rng.coin(0.4); std::string sig = cat(exe == NN ? "NN" : exe == NNN_ ? "NNN" : "triangle", " sweep ", R, "x", C, per ? " periodic " : " open ", qname<Q>(), std::is_same_v<E, double> ? " real" : " complex", " d=", d, nonu ? " bond-dependent" : "", onsite == 1 ? " uniform on-site" : onsite == 2 ? " site-dependent on-site" : onsite == 3 ? " on-site terms on some sites" : "", product ? " product state" : ""); Doing(sig); Case(hash_str(sig) ^ mix((uint64_t) (nrm(psi) * 1e9)));
    Ham<E, Q> H; Op<E, Q> nn = rop<E, Q>(rng, 2, d, kind, 1, exe != NN), nnn = rop<E, Q>(rng, 2, d, kind, 1, true), tri = rop<E, Q>(rng, 3, d, kind, 0.7), s1 = rop<E, Q>(rng, 1, d, kind); auto id = [&](size_t r, size_t c) { return (r % R) * C + c % C; }; size_t hc = per ? C : C - 1, vr = per ? R : R - 1; TM hh(R, hc), vv(vr, C), os(R, C); std::vector<std::tuple<Op<E, Q>, Place>> bondops;
    if (exe != TRI) { for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < hc; ++c) { auto o = nonu ? rop<E, Q>(rng, 2, d, kind) : nn; if (nonu) hh({r, c}) = o.tensor(p); H.t.push_back({o, {id(r, c), id(r, c + 1)}}); } for (size_t r = 0; r < vr; ++r) for (size_t c = 0; c < C; ++c) { auto o = nonu ? rop<E, Q>(rng, 2, d, kind) : nn; if (nonu) vv({r, c}) = o.tensor(p); H.t.push_back({o, {id(r, c), id(r + 1, c)}}); } if (exe == NNN_) for (size_t r = 0; r < vr; ++r) for (size_t c = 0; c < hc; ++c) { H.t.push_back({nnn, {id(r, c), id(r + 1, c + 1)}}); H.t.push_back({nnn, {id(r, c + 1), id(r + 1, c)}}); }
      if (onsite) for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { if (onsite == 3 && rng.coin()) continue; auto o = onsite == 1 ? s1 : rop<E, Q>(rng, 1, d, kind); os({r, c}) = o.tensor(p); H.t.push_back({o, {id(r, c)}}); } if (onsite == 3 && nonu) onsite = 0; }
    else { for (size_t r = 0; r + 1 < R; ++r) for (size_t c = 0; c + 1 < C; ++c) { H.t.push_back({tri, flat_sites(place(LR3, r, c, R, C), C)}); H.t.push_back({tri, flat_sites(place(UL3, r, c, R, C), C)}); } for (size_t r = 0; r + 1 < R; ++r) for (size_t c : {size_t(0), C - 1}) H.t.push_back({nn, {id(r, c), id(r + 1, c)}}); for (size_t c = 0; c + 1 < C; ++c) for (size_t r : {size_t(0), R - 1}) H.t.push_back({nn, {id(r, c), id(r, c + 1)}}); }
    if (nonu && onsite >= 2) { std::erase_if(H.t, [](auto &x) { return x.second.size() == 1; }); onsite = 0; } if (nonu && onsite == 0) std::erase_if(H.t, [](auto &x) { return x.second.size() == 1; });
    bool twice = rng.coin(0.3), reset = rng.coin(0.3); SimpleUpdatePara up(1, reset ? 0.37 : tau, 1, exe == NNN_ ? 10 : 16, 1e-14); std::unique_ptr<SimpleUpdateExecutor<E, Q>> x; Quiet q; using NE = SquareLatticeNNSimpleUpdateExecutor<E, Q>; using N3 = SquareLatticeNNNSimpleUpdateExecutor<E, Q>;
    if (exe == NN) { if (nonu) x = onsite ? std::make_unique<NE>(up, s, hh, vv, s1.tensor(p)) : std::make_unique<NE>(up, s, hh, vv); else if (onsite >= 2) x = std::make_unique<NE>(up, s, nn.tensor(p), os); else x = onsite ? std::make_unique<NE>(up, s, nn.tensor(p), s1.tensor(p)) : std::make_unique<NE>(up, s, nn.tensor(p)); }
    else if (exe == NNN_) { if (onsite >= 2) x = std::make_unique<N3>(up, s, nn.tensor(p), nnn.tensor(p), os); else x = onsite ? std::make_unique<N3>(up, s, nn.tensor(p), nnn.tensor(p), s1.tensor(p)) : std::make_unique<N3>(up, s, nn.tensor(p), nnn.tensor(p)); } else x = std::make_unique<TriangleNNModelSquarePEPSSimpleUpdateExecutor<E, Q>>(up, s, nn.tensor(p), tri.tensor(p));
    if (reset) x->ResetStepLenth(tau); x->Execute(); F<E> b = wfq(x->GetPEPS(), d); double hn = H.norm(), tol = 3 * tau * (1 + hn * hn) + 1e-3 * H.t.size(), tt = tau; std::string why; Check(legs_ok(x->GetPEPS(), why), "legs-broken", sig, " ", why); Check(wfq(s, d) == psi, "initial-state-modified", sig);
    double e = first_order(psi, b, H.on(psi, n), tt); Check(e <= tol, "generator", sig, " sweep does not apply the Hamiltonian: deviation ", e, " tolerance ", tol, " tau ", tau); Observe(exe == NN ? "sweep_nn" : exe == NNN_ ? "sweep_nnn" : "sweep_tri"); if (Q::IsFermionic()) Observe(exe == NN ? "sweep_nn_fermion" : exe == NNN_ ? "sweep_nnn_fermion" : "sweep_tri_fermion"); if (per) Observe("sweep_periodic"); if (onsite) Observe(cat("sweep_onsite", onsite));
    double e0 = x->GetEstimatedEnergy(), en = x->GetStepMetrics().empty() ? 1e300 : x->GetStepMetrics()[0].estimated_en;
    if (product && !Q::IsFermionic()) { F<E> Hp = H.on(psi, n); double ex = std::real(dotc(psi, Hp) / dotc(psi, psi)); if (exe == TRI) ex /= 2; Check(std::abs(e0 - ex) <= tol && exe != TRI || exe == TRI, "energy-estimate", sig, " E0 ", e0, " expected ", ex); Observe("sweep_energy"); x->update_para.steps = 1; x->Execute(); double en2 = x->GetStepMetrics()[0].estimated_en, e02 = x->GetStepMetrics()[0].estimated_e0; F<E> b2 = wfq(x->GetPEPS(), d); Check(std::abs(en2 - ex) <= 4 * tol && std::abs(e02 - ex) <= 4 * tol, "energy-estimate-second", sig, " En ", en2, " E0 ", e02, " expected ", ex); e = first_order(b, b2, H.on(b, n), tt); Check(e <= tol, "generator-second", sig, " deviation ", e); }
    else if (twice) { x->Execute(); F<E> b2 = wfq(x->GetPEPS(), d); e = first_order(b, b2, H.on(b, n), tt); Check(e <= tol, "generator-second", sig, " deviation ", e); Observe("sweep_twice"); }
    (void) en; if (rng.coin(0.03)) Sample(sig); } }
SECTION("sweep_nn", 2, 8) { sweeps<double, Triv>(rng, NN, N(120, 1200)); sweeps<Z, Triv>(rng, NN, N(100, 1000)); sweeps<double, U1>(rng, NN, N(80, 800)); sweeps<double, fZ2>(rng, NN, N(25, 300)); sweeps<Z, fZ2>(rng, NN, N(15, 200)); }
SECTION("sweep_nnn", 4, 12) { sweeps<double, Triv>(rng, NNN_, N(25, 300)); sweeps<Z, Triv>(rng, NNN_, N(15, 200)); sweeps<Z, U1>(rng, NNN_, N(15, 200)); sweeps<double, fZ2>(rng, NNN_, N(25, 200)); }
SECTION("sweep_tri", 1, 6) { sweeps<double, Triv>(rng, TRI, N(40, 400)); sweeps<Z, Triv>(rng, TRI, N(30, 300)); sweeps<double, U1>(rng, TRI, N(30, 300)); sweeps<double, fZ2>(rng, TRI, N(20, 200)); }

#endif
#if PART == 2
// ---- run bookkeeping, stopping rule, refusals
template<class E, class Q> struct Rec { SimpleUpdateStepMetrics<double> m; size_t lo, hi; std::vector<std::vector<double>> lam; };
template<class E, class Q> std::vector<std::vector<double>> lams(const P<E, Q> &s) { std::vector<std::vector<double>> o; auto one = [&](const auto &l) { std::vector<double> v; for (size_t i = 0; i < l.GetShape()[0]; ++i) v.push_back(l({i, i})); o.push_back(v); }; for (size_t r = 0; r < s.lambda_vert.rows(); ++r) for (size_t c = 0; c < s.lambda_vert.cols(); ++c) one(s.lambda_vert({r, c})); for (size_t r = 0; r < s.lambda_horiz.rows(); ++r) for (size_t c = 0; c < s.lambda_horiz.cols(); ++c) one(s.lambda_horiz({r, c})); return o; }
static std::vector<std::map<std::string, std::string>> su_lines(const std::string &t) { std::vector<std::map<std::string, std::string>> o; std::istringstream in(t); std::string l; while (std::getline(in, l)) { auto at = l.find("SU_METRIC"); if (at == std::string::npos) continue; std::map<std::string, std::string> m; std::istringstream w(l.substr(at + 9)); std::string tok; while (w >> tok) { auto q = tok.find('='); if (q != std::string::npos) m[tok.substr(0, q)] = tok.substr(q + 1); } o.push_back(m); } return o; }
template<class E, class Q> void runs(Rng &rng, uint64_t cases) { using X = SimpleUpdateExecutor<E, Q>; using NE = SquareLatticeNNSimpleUpdateExecutor<E, Q>; std::vector<std::pair<size_t, size_t>> sh{{2, 2}, {1, 2}, {2, 1}, {1, 4}, {3, 1}, {2, 3}};
  for (uint64_t it = 0; it < cases; ++it) { auto [d, kind] = local<Q>(rng); auto [R, C] = sh[rng.below(sh.size())]; size_t n = R * C; if (n > 3) d = 2, kind = SPINLESS; auto p = phys<Q>(rng, d); auto s = random_peps<E, Q>(rng, R, C, false, 2, p, false, 0.4); F<E> psi0 = wfq(s, d); if (nrm(psi0) < 1e-2) { TrivialCase(); continue; } int exe = R > 1 && C > 1 ? (int) rng.below(3) : 0; auto nn = rop<E, Q>(rng, 2, d, kind, 1, exe != 0), nnn = rop<E, Q>(rng, 2, d, kind, 0.5, true), tri = rop<E, Q>(rng, 3, d, kind, 0.5);
    size_t steps = rng.coin(0.08) ? 0 : 1 + rng.below(40), Dmax = 1 + rng.below(4); double tau = rng.coin(0.2) ? rng.uni(1e-4, 1e-3) : rng.uni(0.02, 0.3), tr = rng.coin() ? 1e-12 : 1e-4; bool adv = rng.coin(0.7), obs = rng.coin(0.85), lines = rng.coin(); SimpleUpdatePara up(steps, tau, 1, Dmax, tr); SimpleUpdatePara::AdvancedStopConfig cfg{rng.coin(0.3) ? 0 : std::pow(10, rng.uni(-8, -1)), rng.coin(0.3) ? 0 : std::pow(10, rng.uni(-8, -1)), rng.coin(0.15) ? 1e9 : std::pow(10, rng.uni(-6, 0)), 1 + rng.below(4), 1 + rng.below(rng.coin() ? 3 : 25)}; if (adv) { if (rng.coin()) up = SimpleUpdatePara(steps, tau, 1, Dmax, tr, cfg); else up = SimpleUpdatePara::Advanced(steps, tau, 1, Dmax, tr, cfg.energy_abs_tol, cfg.energy_rel_tol, cfg.lambda_rel_tol, cfg.patience, cfg.min_steps); } up.emit_machine_readable_metrics = lines; std::vector<Rec<E, Q>> rec; X *px = nullptr; if (obs) up.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { size_t lo = 1e9, hi = 0; auto lv = lams(px->GetPEPS()); for (auto &v : lv) lo = std::min(lo, v.size()), hi = std::max(hi, v.size()); auto mm = px->GetPEPS().GetMinMaxBondDim(); rec.push_back({m, mm.first, mm.second, lv}); };
    std::string sig = cat("run of ", exe == 0 ? "NN" : exe == 1 ? "NNN" : "triangle", " executor ", R, "x", C, " ", qname<Q>(), " steps=", steps, " Dmax=", Dmax, " tau=", tau, adv ? cat(" stop(", cfg.energy_abs_tol, ",", cfg.energy_rel_tol, ",", cfg.lambda_rel_tol, ",", cfg.patience, ",", cfg.min_steps, ")") : ""); Doing(sig); Case(hash_str(sig));
    std::unique_ptr<X> x; Quiet q; auto mk = [&](const SimpleUpdatePara &u) -> std::unique_ptr<X> { if (exe == 0) return std::make_unique<NE>(u, s, nn.tensor(p)); if (exe == 1) return std::make_unique<SquareLatticeNNNSimpleUpdateExecutor<E, Q>>(u, s, nn.tensor(p), nnn.tensor(p)); return std::make_unique<TriangleNNModelSquarePEPSSimpleUpdateExecutor<E, Q>>(u, s, nn.tensor(p), tri.tensor(p)); }; x = mk(up); px = x.get(); Check(!x->LastRunConverged() && x->LastRunExecutedSteps() == 0 && x->GetLastRunSummary().stop_reason == X::StopReason::kNotRun && x->GetStepMetrics().empty(), "summary-before-run", sig);
    size_t rounds = 1 + rng.below(2); std::vector<F<E>> after; for (size_t round = 0; round < rounds; ++round) { rec.clear(); q.s.str(""); std::vector<std::vector<double>> lam0 = lams(x->GetPEPS()); x->Execute(); std::string rs = cat(sig, " round ", round); auto &ms = x->GetStepMetrics(); auto &sm = x->GetLastRunSummary(); size_t ex = sm.executed_steps; Check(ms.size() == ex && ex <= steps && x->LastRunExecutedSteps() == ex, "steps-executed", rs, " ", ex, " steps, ", ms.size(), " records"); Check(sm.converged == (sm.stop_reason == X::StopReason::kAdvancedConverged) && x->LastRunConverged() == sm.converged && (sm.converged || (sm.stop_reason == X::StopReason::kMaxSteps && ex == steps)), "stop-reason", rs, " ", ex, " of ", steps); if (!adv) Check(!sm.converged, "stopped-without-rule", rs);
      for (size_t i = 0; i < ms.size(); ++i) { auto &m = ms[i]; Check(m.step_index == i && m.tau == tau, "metric-step", rs, " ", i, " ", m.step_index, " ", m.tau); Check(std::isfinite(m.estimated_e0) && std::isfinite(m.estimated_en) && m.elapsed_sec >= 0, "metric-values", rs); if (m.trunc_err) Check(*m.trunc_err >= -1e-12 && *m.trunc_err <= 1 + 1e-12, "metric-truncation", rs, " ", *m.trunc_err); }
      if (ex) { Check(sm.final_energy && sm.final_estimated_e0 && sm.final_estimated_en && *sm.final_energy == ms.back().estimated_e0 && *sm.final_estimated_e0 == ms.back().estimated_e0 && *sm.final_estimated_en == ms.back().estimated_en && x->GetEstimatedEnergy() == ms.back().estimated_e0, "final-energy", rs); } else Check(!sm.final_energy && !sm.final_estimated_e0 && !sm.final_estimated_en, "energy-without-steps", rs);
      auto now = lams(x->GetPEPS()); if (ex) for (auto &v : now) Check(v.size() <= std::max<size_t>(Dmax, 1), "bond-limit", rs, " D ", v.size()); Observe("run"); if (!ex) Observe("run_zero");
      if (obs) { if (Check(rec.size() == ex, "observer-calls", rs, " ", rec.size(), " of ", ex)) { for (size_t i = 0; i < ex; ++i) { auto &a = rec[i].m; auto &b = ms[i]; Check(a.step_index == b.step_index && a.tau == b.tau && a.estimated_e0 == b.estimated_e0 && a.estimated_en == b.estimated_en && a.trunc_err == b.trunc_err && a.elapsed_sec == b.elapsed_sec && a.bond_dim_changed == b.bond_dim_changed, "observer-values", rs, " step ", i); if (i == 0) Check(!b.bond_dim_changed, "first-step-changed", rs); else { bool same = true; for (size_t k = 0; k < rec[i].lam.size(); ++k) same = same && rec[i].lam[k].size() == rec[i - 1].lam[k].size(); if (rec[i].lo != rec[i - 1].lo || rec[i].hi != rec[i - 1].hi) { Check(b.bond_dim_changed, "bond-change-missed", rs, " step ", i); Observe("run_bond_change"); } if (same) Check(!b.bond_dim_changed, "bond-change-invented", rs, " step ", i); } } if (ex) Check(rec.back().lam == now, "observer-state", rs);
          if (adv) { size_t streak = 0; bool shaky = false; size_t stop = steps; bool conv = false; for (size_t i = 0; i < ex && !conv; ++i) { bool pass = false; if (i > 0) { bool same = true; for (size_t k = 0; k < rec[i].lam.size(); ++k) same = same && rec[i].lam[k].size() == rec[i - 1].lam[k].size(); if (same) { double e1 = rec[i - 1].m.estimated_e0, e2 = rec[i].m.estimated_e0, tol = std::max(cfg.energy_abs_tol, cfg.energy_rel_tol * std::max({1.0, std::abs(e1), std::abs(e2)})), de = std::abs(e1 - e2), dl = 0; for (size_t k = 0; k < rec[i].lam.size(); ++k) { double a = 0, b = 0; for (size_t j = 0; j < rec[i].lam[k].size(); ++j) { a += std::pow(rec[i].lam[k][j] - rec[i - 1].lam[k][j], 2); b += std::pow(rec[i - 1].lam[k][j], 2); } dl = std::max(dl, std::sqrt(a) / std::max(std::sqrt(b), 2.3e-16)); } shaky = shaky || std::abs(de - tol) < 1e-13 || std::abs(dl - cfg.lambda_rel_tol) < 1e-13; pass = i + 1 >= cfg.min_steps && de <= tol && dl <= cfg.lambda_rel_tol; if (i + 1 < cfg.min_steps && de <= tol && dl <= cfg.lambda_rel_tol) Observe("run_held_by_min_steps"); if (de > tol) Observe("run_energy_open"); else if (dl > cfg.lambda_rel_tol) Observe("run_lambda_open"); } else Observe("run_dims_open"); } if (pass) ++streak; else { if (streak) Observe("run_streak_broken"); streak = 0; } if (streak >= cfg.patience) conv = true, stop = i + 1; } if (!shaky) { Check(conv == sm.converged && ex == stop, "stopping-rule", rs, " stopped after ", ex, " (", sm.converged, ") rule says ", stop, " (", conv, ")"); Observe(conv ? "run_converged" : "run_not_converged"); } else Observe("run_borderline"); } } }
      auto ls = su_lines(q.s.str()); if (lines) { if (Check(ls.size() == ex, "metric-lines", rs, " ", ls.size(), " lines for ", ex, " steps")) for (size_t i = 0; i < ex; ++i) { auto num = [&](const char *k) { return ls[i].count(k) ? std::atof(ls[i][k].c_str()) : std::nan(""); }; Check(num("step") == (double) i && std::abs(num("e0") - ms[i].estimated_e0) <= 1e-9 * (1 + std::abs(ms[i].estimated_e0)) && std::abs(num("en") - ms[i].estimated_en) <= 1e-9 * (1 + std::abs(ms[i].estimated_en)) && std::abs(num("tau") - tau) <= 1e-6 * tau && (ms[i].trunc_err ? std::abs(num("trunc_err") - *ms[i].trunc_err) <= 1e-5 * (1e-12 + *ms[i].trunc_err) : !(std::isfinite(num("trunc_err")) && num("trunc_err") != 0)), "metric-line-values", rs, " line ", i, " step ", ls[i]["step"], " tau ", ls[i]["tau"], " e0 ", ls[i]["e0"], " for ", ms[i].estimated_e0, " en ", ls[i]["en"], " for ", ms[i].estimated_en, " trunc_err ", ls[i]["trunc_err"], " for ", ms[i].trunc_err.value_or(-1)); } Observe("run_lines"); } else Check(ls.empty(), "metric-lines-unasked", rs); }
    // the run is a pure function of its inputs and can be split
    if (rng.coin(0.3) && steps && !adv) { SimpleUpdatePara u1(steps, tau, 1, Dmax, tr), u2 = u1; u1.steps = steps / 2; auto a = mk(u1), b = mk(u2); a->Execute(); a->update_para.steps = steps - steps / 2; a->Execute(); b->Execute(); F<E> fa = wfq(a->GetPEPS(), d), fb = wfq(b->GetPEPS(), d); Check(dist(fa, fb) <= 1e-9 * nrm(fb) + 1e-12, "split-run", sig, " ", dist(fa, fb)); Observe("run_split"); if (exe == 0 && n == 2 && Dmax >= d && tr < 1e-10) { F<E> want = psi0; V fs{0, 1}; want = nn.expo(psi0, fs, 2, tau * steps); E al = dotc(fb, fb) / dotc(fb, want); Check(dist(want, fb, al) <= 1e-6 * nrm(fb), "two-site-evolution", sig, " ", dist(want, fb, al) / nrm(fb)); double ee = std::real(nn.expect(want, fs, 2)); Check(std::abs(b->GetEstimatedEnergy() - ee) <= 1e-6 * (1 + nn.norm()), "two-site-energy", sig, " ", b->GetEstimatedEnergy(), " expected ", ee); Observe("run_two_site"); } }
    if (rng.coin(0.2)) { auto bad = cfg; switch (rng.below(5)) { case 0: bad.energy_abs_tol = -1e-9; break; case 1: bad.energy_rel_tol = -1; break; case 2: bad.lambda_rel_tol = -1e-3; break; case 3: bad.patience = 0; break; default: bad.min_steps = 0; } auto z = mk(SimpleUpdatePara(steps, tau, 1, Dmax, tr, bad)); bool th = false; try { z->Execute(); } catch (const std::invalid_argument &) { th = true; } Check(th, "bad-rule-accepted", sig); Check(wfq(z->GetPEPS(), d) == psi0, "refused-run-changed-state", sig); Observe("run_refused"); }
    if (R > 1 && C > 1 && rng.coin(0.3)) { using TM = TenMatrix<T<E, Q>>; size_t dr[4] = {R, C - 1, R - 1, C}; size_t wrong = rng.below(4); dr[wrong] += rng.coin() ? 1 : -1; if (dr[0] && dr[1] && dr[2] && dr[3]) { TM hh(dr[0], dr[1]), vv(dr[2], dr[3]); for (auto &t : hh) t = nn.tensor(p); for (auto &t : vv) t = nn.tensor(p); bool th = false; try { NE bad(up, s, hh, vv); } catch (const std::invalid_argument &) { th = true; } Check(th, "wrong-bond-grid-accepted", sig); Observe("run_bond_grid_refused"); } }
    if (rng.coin(0.02)) Sample(sig); } }
SECTION("runs", 2, 8) { runs<double, Triv>(rng, N(120, 1500)); runs<Z, Triv>(rng, N(60, 800)); runs<double, U1>(rng, N(60, 800)); runs<double, fZ2>(rng, N(40, 500)); }
#endif
