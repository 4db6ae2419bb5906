// C26: loop update: plaquette projections against the full wave function; sweeps, energy estimates and run bookkeeping.
#include <bits/stdc++.h>
// the library ends the process when it gives up on an ill-conditioned plaquette: turned into an exception here and counted
struct GaveUp { int code; };
#define exit(code) throw GaveUp{code}
extern "C" const char *__lsan_default_suppressions() { return "leak:ArnoldiSolver\n"; }   // its raw pointers are dropped where the process would have ended
#include "peps.h"
#include "qlpeps/algorithm/loop_update/loop_update.h"
#include <sstream>
#include <filesystem>
using namespace pp; using namespace qlpeps;
template<class E, class Q> using P = SquareLatticePEPS<E, Q>;
template<class E, class Q> using T = qlten::QLTensor<E, Q>;
template<class E, class Q> using G = LoopGates<T<E, Q>>;
static double nrm(const auto &v) { double s = 0; for (auto &x : v) s += std::norm(x); return std::sqrt(s); }
template<class E> E dotc(const F<E> &a, const F<E> &b) { E s = 0; for (size_t i = 0; i < a.size(); ++i) s += cj(a[i]) * b[i]; return s; }
template<class E> double dist(const F<E> &a, const F<E> &b, E f = E(1)) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] * f - b[i]); return std::sqrt(s); }
static size_t ipow(size_t b, size_t e) { size_t r = 1; while (e--) r *= b; return r; }
struct Quiet { std::streambuf *a, *b; std::ostringstream s; Quiet() { a = std::cout.rdbuf(s.rdbuf()); b = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// a ring of four gate tensors: identity on channel 0 plus a perturbation of size eps; bonds of dimension b
template<class E, class Q> G<E, Q> ring(Rng &rng, const Idx<Q> &p, size_t b, double eps) {
  std::vector<Idx<Q>> bd; for (int i = 0; i < 4; ++i) { if constexpr (std::is_same_v<Q, Triv>) bd.push_back(Idx<Q>({Sct<Q>(Q(), b)}, qlten::OUT)); else { qlten::QNSectorVec<Q> s{Sct<Q>(Q(0), 1)}; if (b > 1) s.push_back(Sct<Q>(Q(2), 1)); if (b > 2) s.push_back(Sct<Q>(Q(-2), b - 2)); bd.push_back(Idx<Q>(s, qlten::OUT)); } }
  G<E, Q> g; for (int i = 0; i < 4; ++i) { g[i] = T<E, Q>({qlten::InverseIndex(bd[(i + 3) % 4]), qlten::InverseIndex(p), p, bd[i]}); randomize(g[i], rng); g[i] *= E(eps); for (size_t k = 0; k < p.dim(); ++k) g[i].SetElem({0, k, k, 0}, g[i].GetElem({0, k, k, 0}) + E(1)); }
  return g;
}
// sites of a plaquette in ring order
static std::array<SiteIdx, 4> corners(size_t r, size_t c, size_t R, size_t C) { size_t d = (r + 1) % R, e = (c + 1) % C; return {SiteIdx{r, c}, SiteIdx{r, e}, SiteIdx{d, e}, SiteIdx{d, c}}; }
template<class E, class Q> bool legs_ok(const P<E, Q> &s, std::string &why) { for (size_t r = 0; r < s.Rows(); ++r) for (size_t c = 0; c < s.Cols(); ++c) { const auto &g = s.Gamma({r, c}); if (g.Rank() != 5) { why = "rank"; return false; } auto I = [](const Idx<Q> &x) { return qlten::InverseIndex(x); }; if (!(I(g.GetIndex(0)) == s.GetLambdaHorizWest(r, c).GetIndex(1) && I(g.GetIndex(1)) == s.GetLambdaVertSouth(r, c).GetIndex(0) && I(g.GetIndex(2)) == s.GetLambdaHorizEast(r, c).GetIndex(0) && I(g.GetIndex(3)) == s.GetLambdaVertNorth(r, c).GetIndex(1))) { why = cat("site ", r, ",", c); return false; } } return true; }
static LoopUpdateTruncatePara para(size_t Dmax, double tr = 1e-15, double inv = 1e-7) { ConjugateGradientParams cg{.max_iter = 400, .relative_tolerance = 1e-11, .residual_recompute_interval = 20}; return LoopUpdateTruncatePara(ArnoldiParams(1e-10, 100), inv, FullEnvironmentTruncateParams(1, Dmax, tr, 1e-12, 30, cg)); }

// dense operator of a ring, and its application to four sites of a state (sites given as places in the state's site order)
template<class E, class Q> F<E> ring_op(const G<E, Q> &g, size_t d) {
  size_t D4 = d * d * d * d; F<E> op(D4 * D4, E(0)); std::array<size_t, 4> b; for (int i = 0; i < 4; ++i) b[i] = g[i].GetIndex(3).dim();
  for (size_t fr = 0; fr < D4; ++fr) for (size_t to = 0; to < D4; ++to) { size_t x = fr, y = to; size_t in[4], out[4]; for (int i = 3; i >= 0; --i) { in[i] = x % d; x /= d; out[i] = y % d; y /= d; }
    E tot = 0; for (size_t a = 0; a < b[3]; ++a) { F<E> v(b[3], E(0)); v[a] = 1; for (int i = 0; i < 4; ++i) { F<E> w(b[i], E(0)); for (size_t l = 0; l < v.size(); ++l) if (v[l] != E(0)) for (size_t r = 0; r < b[i]; ++r) w[r] += v[l] * g[i].GetElem({l, in[i], out[i], r}); v = w; } tot += v[a]; } op[to * D4 + fr] = tot; }
  return op;
}
template<class E> F<E> act(const F<E> &op, const F<E> &psi, const std::array<size_t, 4> &st, size_t d) { size_t D4 = d * d * d * d; F<E> o(psi.size(), E(0));
  for (size_t k = 0; k < psi.size(); ++k) { if (psi[k] == E(0)) continue; size_t fr = 0, base = k; for (int i = 0; i < 4; ++i) { size_t x = (k / st[i]) % d; fr = fr * d + x; base -= x * st[i]; } for (size_t to = 0; to < D4; ++to) { E m = op[to * D4 + fr]; if (m == E(0)) continue; size_t y = to, idx = base; for (int i = 3; i >= 0; --i) { idx += (y % d) * st[i]; y /= d; } o[idx] += m * psi[k]; } }
  return o; }
static std::array<size_t, 4> strides(const std::array<SiteIdx, 4> &s, size_t n, size_t C, size_t d) { std::array<size_t, 4> st; for (int i = 0; i < 4; ++i) st[i] = ipow(d, n - 1 - (s[i][0] * C + s[i][1])); return st; }
// the plaquette with its mean-field surroundings: outer weights absorbed, inner weights once; physical legs last, in ring order
template<class E, class Q> DT<E> cluster(const P<E, Q> &s, const std::array<SiteIdx, 4> &cs) {
  static const int in[4][2] = {{1, 2}, {0, 1}, {3, 0}, {2, 3}};   // inner legs (to the previous, to the next corner)
  auto lmul = [](DT<E> x, size_t leg, const qlten::QLTensor<double, Q> &l) { size_t st = 1; for (size_t k = leg + 1; k < x.dim.size(); ++k) st *= x.dim[k]; size_t n = x.dim[leg]; for (size_t i = 0; i < x.d.size(); ++i) x.d[i] *= l({(i / st) % n, (i / st) % n}); return x; };
  DT<E> acc; int fresh = 100; for (int i = 0; i < 4; ++i) { size_t r = cs[i][0], c = cs[i][1]; std::vector<int> lab(5); for (int k = 0; k < 4; ++k) lab[k] = k == in[i][0] ? (i + 3) % 4 : k == in[i][1] ? i : fresh++; lab[4] = 1000 + i; DT<E> x = dense(s.Gamma({r, c}), lab); for (int k = 0; k < 4; ++k) { if (k == in[i][0]) continue; x = lmul(x, k, k == 0 ? s.GetLambdaHorizWest(r, c) : k == 1 ? s.GetLambdaVertSouth(r, c) : k == 2 ? s.GetLambdaHorizEast(r, c) : s.GetLambdaVertNorth(r, c)); } acc = i ? mul(acc, x) : x; }
  std::vector<size_t> o(acc.lab.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return acc.lab[a] < acc.lab[b]; }); DT<E> r; for (auto i : o) { r.lab.push_back(acc.lab[i]); r.dim.push_back(acc.dim[i]); } std::vector<size_t> st(o.size(), 1); for (size_t k = o.size(); k-- > 1;) st[k - 1] = st[k] * acc.dim[k]; r.d.resize(acc.d.size()); for (size_t i = 0; i < r.d.size(); ++i) { size_t rem = i, src = 0; for (size_t k = o.size(); k-- > 0;) { src += (rem % r.dim[k]) * st[o[k]]; rem /= r.dim[k]; } r.d[i] = acc.d[src]; } return r; }
template<class E> F<E> act_last(const F<E> &op, const DT<E> &t, size_t d) { return act(op, t.d, {d * d * d, d * d, d, 1}, d); }
template<class Q> static std::set<std::tuple<bool, size_t, size_t>> inner(size_t r, size_t c, size_t R, size_t C) { size_t d = (r + 1) % R, e = (c + 1) % C; (void) d; return {{false, r, e}, {false, d, e}, {true, d, c}, {true, d, e}}; }

static uint64_t tried = 0, lost = 0, tried_u1 = 0, lost_u1 = 0;   // plaquettes attempted, and given up on
static void few(const char *where) { Check(lost * 10 <= tried + 30, "gives-up-often", where, ": gave up on ", lost, " of ", tried, " plaquettes"); Check(lost_u1 * 6 <= tried_u1 + 20, "evolved-state-symmetric", where, ": ", lost_u1, " of ", tried_u1, " plaquettes not evolved by the gate"); }
#if PART == 0
template<class E, class Q> void projections(Rng &rng, uint64_t cases) { std::vector<std::pair<size_t, size_t>> sh{{2, 2}, {2, 2}, {2, 3}, {3, 2}, {3, 3}};
  for (uint64_t it = 0; it < cases; ++it) { auto [R, C] = sh[rng.below(sh.size())]; size_t d = R * C == 4 && rng.coin(0.15) ? 3 : 2; auto p = phys<Q>(rng, d); bool per = d == 2 && rng.coin(0.3) && R * C < 9; auto s = random_peps<E, Q>(rng, R, C, per, 2, p, false, 0.5); size_t b = 1 + rng.below(3); double eps = rng.coin() ? 0.1 : 0.3; auto g = ring<E, Q>(rng, p, b, eps); bool cut = rng.coin(0.25);
    size_t n = R * C, pr = rng.below(per ? R : R - 1), pc = rng.below(per ? C : C - 1), len = 1 + rng.below(2); std::string sig = cat("loop ", R, "x", C, per ? " periodic " : " open ", qname<Q>(), std::is_same_v<E, double> ? " real" : " complex", " d=", d, " ring bond ", b, " eps=", eps); Doing(sig); F<E> psi = wfq(s, d); if (nrm(psi) < 1e-3) { TrivialCase(); continue; } Case(hash_str(sig) ^ mix((uint64_t) (nrm(psi) * 1e9)));
    for (size_t step = 0; step < len; ++step) { if (step) { pr = rng.below(per ? R : R - 1); pc = rng.below(per ? C : C - 1); g = ring<E, Q>(rng, p, b = 1 + rng.below(2), eps); } auto cs = corners(pr, pc, R, C); size_t Dmax = cut ? 2 + rng.below(2) : 64; std::string ws = cat(sig, " step ", step, " at ", pr, ",", pc, " Dmax=", Dmax); Doing(ws);
      P<E, Q> before = s; DT<E> th = cluster(s, cs); F<E> op = ring_op<E, Q>(g, d); double nth = nrm(th.d); if (nth < 1e-3 || s.GetMaxBondDim() > 6) break; std::pair<double, double> res; std::string thrown; { Quiet q; try { res = s.LocalSquareLoopProject(g, {pr, pc}, para(Dmax), false); } catch (GaveUp &g) { thrown = cat("exit ", g.code); } catch (std::exception &e) { thrown = e.what(); } } ++tried; if (thrown.size()) { ++lost; Observe("loop_gave_up"); break; }
      std::string why; if (!Check(legs_ok(s, why), "legs-broken", ws, " ", why)) break; for (size_t i = 0; i < n; ++i) Check(s.Gamma({i / C, i % C}).GetIndex(4) == p, "physical-leg", ws); Check(res.first > 0 && std::isfinite(res.first), "norm", ws, " ", res.first);
      auto tb = inner<Q>(pr, pc, R, C); size_t D = 0; for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { bool mine = false; for (auto &x : cs) mine = mine || (x[0] == r && x[1] == c); if (!mine) Check(s.Gamma({r, c}) == before.Gamma({r, c}), "other-site-changed", ws); }
      auto bond_ok = [&](bool v, size_t r, size_t c, const auto &l, const auto &old) { if (!tb.count({v, r, c})) { Check(l == old, "other-bond-changed", ws, v ? " vertical " : " horizontal ", r, ",", c); return; } D = std::max<size_t>(D, l.GetShape()[0]); bool ok = true; for (size_t i = 0; i < l.GetShape()[0]; ++i) for (size_t j = 0; j < l.GetShape()[0]; ++j) ok = ok && (i == j ? l({i, j}) >= 0 && std::isfinite(l({i, j})) : l({i, j}) == 0); Check(ok, "weights-not-diagonal", ws); };
      for (size_t r = 0; r < s.lambda_vert.rows(); ++r) for (size_t c = 0; c < C; ++c) bond_ok(true, r, c, s.lambda_vert({r, c}), before.lambda_vert({r, c})); for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < s.lambda_horiz.cols(); ++c) bond_ok(false, r, c, s.lambda_horiz({r, c}), before.lambda_horiz({r, c})); Check(D <= Dmax, "bond-limit", ws, " D ", D);
      F<E> gth = act_last(op, th, d); double ov = std::real(dotc(th.d, gth)) / (nth * nth); Check(std::abs(res.second - ov) <= 1e-7 * (1 + std::abs(ov)), "overlap", ws, " got ", res.second, " expected ", ov); Observe("loop_overlap");
      F<E> now = wfq(s, d), want = act(op, psi, strides(cs, n, C, d), d);
      if (Dmax == 64) { double e = dist(now, want, E(res.first)) / nrm(want); if constexpr (std::is_same_v<Q, Triv>) Check(e <= 1e-4, "evolved-state", ws, " relative error ", e); else { ++tried_u1; if (!(e <= 1e-4)) { ++lost_u1; Observe("loop_reducible"); } } Observe(per ? "loop_periodic" : "loop_open"); if (e > 1e-8) Observe("loop_error_above_1e-8"); if (b > 1) Observe("loop_entangling"); if (n == 4 && !per && step == 0) Observe("loop_whole_lattice"); if (step) Observe("loop_second"); }
      else { DT<E> t2 = cluster(s, cs); if (Check(t2.d.size() == gth.size(), "surroundings-changed", ws)) { double f = std::norm(dotc(t2.d, gth)) / (std::pow(nrm(t2.d), 2) * std::pow(nrm(gth), 2)); Check(f >= 0.0, "truncation-quality", ws, " fidelity ", f); if (f < 1 - 1e-6) Observe("loop_truncated"); if (f < 0.5) Observe("loop_fid_below_half"); } }
      psi = now; if (nrm(psi) < 1e-6) break; }
    if (!per && rng.coin(0.2)) { SiteIdx bad = rng.coin() ? SiteIdx{R - 1, rng.below(C)} : SiteIdx{rng.below(R), C - 1}; P<E, Q> before = s; bool th = false; try { Quiet q; s.LocalSquareLoopProject(g, bad, para(8), false); } catch (const std::invalid_argument &) { th = true; } Check(th, "wrapping-plaquette-accepted", sig); Check(wfq(s, d) == wfq(before, d), "refused-call-changed-state", sig); Observe("loop_refused"); }
    if (rng.coin(0.03)) Sample(sig); } }
// one bond at a time: a gate acting across a single bond of a plaquette that is a chain (another bond has dimension one), where the best truncation is known
template<class E> double best_fidelity(const F<E> &v, const std::vector<size_t> &side, size_t n, size_t d, size_t keep) { size_t k = side.size(), rows = ipow(d, k), cols = v.size() / rows; std::vector<F<E>> m(rows, F<E>(cols)); for (size_t i = 0; i < v.size(); ++i) { size_t a = 0, b = 0; for (size_t q = 0; q < n; ++q) { size_t x = (i / ipow(d, n - 1 - q)) % d; if (std::find(side.begin(), side.end(), q) != side.end()) a = a * d + x; else b = b * d + x; } m[a][b] = v[i]; }
  for (int sweep = 0; sweep < 60; ++sweep) { double off = 0; for (size_t i = 0; i < rows; ++i) for (size_t j = i + 1; j < rows; ++j) { double aa = std::pow(nrm(m[i]), 2), bb = std::pow(nrm(m[j]), 2); E c = dotc(m[i], m[j]); double ac = std::abs(c); if (ac == 0 || ac <= 1e-16 * std::sqrt(aa * bb)) continue; off = std::max(off, ac / std::sqrt(aa * bb)); E ph = c / ac; double z = (bb - aa) / (2 * ac), t = (z >= 0 ? 1.0 : -1.0) / (std::abs(z) + std::sqrt(1 + z * z)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t; for (size_t q = 0; q < cols; ++q) { E x = m[i][q], y = cj(ph) * m[j][q]; m[i][q] = cs * x - sn * y; m[j][q] = sn * x + cs * y; } } if (off < 1e-14) break; }
  std::vector<double> w; double tot = 0, got = 0; for (auto &r : m) { w.push_back(std::pow(nrm(r), 2)); tot += w.back(); } std::sort(w.rbegin(), w.rend()); for (size_t i = 0; i < std::min(keep, w.size()); ++i) got += w[i]; return got / tot; }
template<class E> void single(Rng &rng, uint64_t cases) { using Q = Triv; for (uint64_t it = 0; it < cases; ++it) { size_t d = 2; auto p = phys<Q>(rng, d); auto s = random_peps<E, Q>(rng, 2, 2, false, 2, p, false, 0.5); std::array<SiteIdx, 4> cs = corners(0, 0, 2, 2); size_t D[4] = {s.lambda_horiz({0, 1}).GetShape()[0], s.lambda_vert({1, 1}).GetShape()[0], s.lambda_horiz({1, 1}).GetShape()[0], s.lambda_vert({1, 0}).GetShape()[0]}; F<E> psi = wfq(s, d); size_t act_on = rng.below(4), thin = 9; for (size_t i = 0; i < 4; ++i) if (i != act_on && D[i] == 1) thin = i; if (thin == 9 || nrm(psi) < 1e-2) { TrivialCase(); continue; }
    bool redundant = rng.coin(); size_t b = 2; G<E, Q> g; std::array<size_t, 4> bd{1, 1, 1, 1}; bd[act_on] = b; F<E> w(b); for (auto &x : w) x = E(rng.uni(0.4, 1.2)); for (int i = 0; i < 4; ++i) { auto ix = [&](size_t n) { return Idx<Q>({Sct<Q>(Q(), n)}, qlten::OUT); }; g[i] = T<E, Q>({qlten::InverseIndex(ix(bd[(i + 3) % 4])), qlten::InverseIndex(p), p, ix(bd[i])}); randomize(g[i], rng); g[i] *= E(0.3); F<E> o(4); for (size_t k = 0; k < 4; ++k) o[k] = E((k == 0 || k == 3) + 0.3 * rng.gauss()); for (size_t l = 0; l < bd[(i + 3) % 4]; ++l) for (size_t r = 0; r < bd[i]; ++r) for (size_t x = 0; x < d; ++x) for (size_t y = 0; y < d; ++y) { if (redundant) g[i].SetElem({l, x, y, r}, o[y * d + x] * (l ? E(0.7) : E(1)) * (r ? w[1] : E(1))); else if (l == 0 && r == 0) g[i].SetElem({l, x, y, r}, g[i].GetElem({l, x, y, r}) + E(x == y)); } }
    size_t Dm = std::max({D[0], D[1], D[2], D[3]}), Dmax = redundant ? 64 : Dm; std::string sig = cat(redundant ? "redundant bond " : "truncated bond ", act_on, " of a chain, D=", D[0], D[1], D[2], D[3], std::is_same_v<E, double> ? " real" : " complex"); Doing(sig); Case(hash_str(sig) ^ mix((uint64_t) (nrm(psi) * 1e9)));
    std::pair<double, double> res; bool gave = false; std::string thrown; { Quiet q; try { res = s.LocalSquareLoopProject(g, {0, 0}, para(Dmax), false); } catch (GaveUp &g) { gave = true; thrown = cat(g.code); } catch (std::exception &e) { thrown = e.what(); } } ++tried; if (gave || thrown.size()) { ++lost; Observe("loop_gave_up"); continue; }
    F<E> now = wfq(s, d), want = act(ring_op<E, Q>(g, d), psi, strides(cs, 4, 2, d), d); size_t D2[4] = {s.lambda_horiz({0, 1}).GetShape()[0], s.lambda_vert({1, 1}).GetShape()[0], s.lambda_horiz({1, 1}).GetShape()[0], s.lambda_vert({1, 0}).GetShape()[0]}; double f = std::norm(dotc(now, want)) / std::pow(nrm(now) * nrm(want), 2);
    if (redundant) { double e = dist(now, want, E(res.first)) / nrm(want); Check(e <= 1e-4, "redundant-state", sig, " relative error ", e); for (int i = 0; i < 4; ++i) Check(D2[i] <= D[i], "redundant-bond-kept", sig, " bond ", i, " D ", D2[i]); Observe("loop_redundant"); }
    else { static const size_t site[4] = {0, 1, 3, 2}; std::vector<size_t> side; for (size_t i = (thin + 1) % 4;; i = (i + 1) % 4) { side.push_back(site[i]); if (i == act_on) break; } std::sort(side.begin(), side.end()); double best = best_fidelity(want, side, 4, d, Dmax); Check(f >= best - 1e-3 && f <= best + 1e-7, "truncation-not-optimal", sig, " fidelity ", f, " best possible ", best); double sc = nrm(now) * res.first / nrm(want); Check(std::abs(sc * sc - f) <= 1e-3, "truncated-norm", sig, " ", sc * sc, " ", f); if (best < 1 - 1e-6) Observe("loop_truncated_bond"); }
    if (rng.coin(0.03)) Sample(sig); } }
SECTION("project_d", 2, 8) { projections<double, Triv>(rng, N(60, 4000)); projections<double, U1>(rng, N(60, 3000)); few("project_d"); }
SECTION("project_z", 2, 8) { projections<Z, Triv>(rng, N(60, 4000)); projections<Z, U1>(rng, N(60, 3000)); few("project_z"); }
SECTION("single", 1, 4) { single<double>(rng, N(150, 4000)); single<Z>(rng, N(100, 3000)); few("single"); }
#endif
#if PART == 1
// a gate 1 - tau * h in ring form: first order terms on channel 0, square roots of the step on the others; diag: diagonal in the physical basis, of size amp
template<class E, class Q> G<E, Q> step_gate(Rng &rng, const Idx<Q> &p, size_t b, double tau, bool diag, double amp) { G<E, Q> g = ring<E, Q>(rng, p, b, amp); for (auto &t : g) { auto sh = t.GetShape(); for (size_t l = 0; l < sh[0]; ++l) for (size_t x = 0; x < sh[1]; ++x) for (size_t y = 0; y < sh[2]; ++y) for (size_t r = 0; r < sh[3]; ++r) { E v = t.GetElem({l, x, y, r}); if (v == E(0)) continue; if (diag && x != y) v = 0; if (l == 0 && r == 0) { E one = x == y ? E(1) : E(0); v = one + (v - one) * tau; } else v *= std::sqrt(tau); t.SetElem({l, x, y, r}, v); } } return g; }
template<class E> double first_order(const F<E> &a, const F<E> &b, const F<E> &Ha, double tau) { E al = dotc(a, a) / dotc(a, b), ex = dotc(a, Ha) / dotc(a, a); F<E> x(a.size()); for (size_t i = 0; i < a.size(); ++i) x[i] = (b[i] * al - a[i]) / tau + Ha[i] - ex * a[i]; return nrm(x) / nrm(a); }
template<class E, class Q> void sweeps(Rng &rng, uint64_t cases) { using X = LoopUpdateExecutor<E, Q>; std::vector<std::tuple<size_t, size_t, bool>> sh{{2, 2, false}, {2, 3, false}, {3, 2, false}, {2, 2, true}, {3, 3, false}, {2, 4, false}, {4, 2, false}};
  for (uint64_t it = 0; it < cases; ++it) { auto [R, C, per] = sh[rng.below(sh.size())]; size_t d = 2, n = R * C; auto p = phys<Q>(rng, d); bool whole = n == 4 && !per, product = !whole || rng.coin(0.4), diag = std::is_same_v<Q, Triv> && rng.coin(0.4), expo = rng.coin(); auto s = random_peps<E, Q>(rng, R, C, per, product ? 1 : 2, p, false, 0.6); F<E> psi = wfq(s, d); if (nrm(psi) < 1e-2) { TrivialCase(); continue; } double tau = diag || whole ? rng.uni(0.05, 0.3) : rng.uni(2e-3, 6e-3); size_t b = 2, gr = per ? R : R - 1, gc = per ? C : C - 1, steps = whole && !diag ? 1 + rng.below(2) : 1;
    DuoMatrix<G<E, Q>> gates(gr, gc); std::vector<std::pair<F<E>, std::array<size_t, 4>>> ops; bool weak = rng.coin(0.2); for (size_t r = 0; r < gr; ++r) for (size_t c = 0; c < gc; ++c) { gates({r, c}) = step_gate<E, Q>(rng, p, b, tau, diag, weak ? 0.4 : 1); ops.push_back({ring_op<E, Q>(gates({r, c}), d), strides(corners(r, c, R, C), n, C, d)}); }
    std::string sig = cat("loop sweep ", R, "x", C, per ? " periodic " : " open ", qname<Q>(), std::is_same_v<E, double> ? " real" : " complex", diag ? " diagonal gates" : "", product ? " product state" : "", " steps=", steps, expo ? " exponential" : " first-order"); Doing(sig); Case(hash_str(sig) ^ mix((uint64_t) (nrm(psi) * 1e9)));
    LoopUpdatePara lp(para(64), steps, tau, expo ? LoopGateType::kExponential : LoopGateType::kFirstOrder); std::unique_ptr<X> x; std::string thrown; { Quiet q; x = std::make_unique<X>(lp, gates, s); try { x->Execute(); } catch (GaveUp &g) { thrown = cat("exit ", g.code); } catch (std::exception &e) { thrown = e.what(); } } ++tried; if (thrown.size()) { ++lost; Observe("sweep_gave_up"); continue; } Check(wfq(s, d) == psi, "initial-state-modified", sig); std::string why; if (!Check(legs_ok(x->GetPEPS(), why), "legs-broken", sig, " ", why)) continue;
    F<E> b1 = wfq(x->GetPEPS(), d), Hp(psi.size(), E(0)), ex = psi; double hn = 0; for (auto &[op, st] : ops) { F<E> g = act(op, psi, st, d); for (size_t i = 0; i < psi.size(); ++i) Hp[i] += (psi[i] - g[i]) / tau; F<E> h(op); for (size_t i = 0; i < 16; ++i) h[i * 17] -= E(1); hn += nrm(h) / tau; } for (size_t k = 0; k < steps; ++k) for (auto &[op, st] : ops) ex = act(op, ex, st, d); auto &ms = x->GetStepMetrics(); if (!Check(ms.size() == steps, "steps-recorded", sig, " ", ms.size())) continue; double en = 0; for (auto &m : ms) en += m.estimated_en; double ratio = std::exp(-tau * en);
    if (diag || whole) { double e = dist(b1, ex, E(ratio)) / nrm(ex); if constexpr (std::is_same_v<Q, Triv>) Check(e <= 1e-3, "sweep-state", sig, " relative error ", e); else { ++tried_u1; lost_u1 += !(e <= 1e-3); } Observe(diag ? "sweep_exact_diagonal" : "sweep_exact_whole"); }
    else { double e = first_order(psi, b1, Hp, tau), tol = 0.15 * tau * (1 + hn * hn); E al = dotc(psi, b1) / dotc(psi, psi); double nr = std::abs(1 / std::real(al) - ratio) / tau; if constexpr (std::is_same_v<Q, Triv>) Check(e <= tol, "generator", sig, " sweep does not apply the gates: deviation ", e, " tolerance ", tol, " tau ", tau, " |H| ", hn); else { ++tried_u1; lost_u1 += !(e <= tol); } (void) nr; Observe(per ? "sweep_periodic" : "sweep_generator"); E exh = dotc(psi, Hp) / dotc(psi, psi); double exr = std::real(exh), lead = std::real(dotc(psi, ex) / dotc(psi, psi)), mine = std::real(al) * ratio; if constexpr (std::is_same_v<Q, Triv>) Check(std::abs(lead - mine) / tau <= tol, "norm-estimate", sig, " En gives amplitude ", mine, " expected ", lead); if (product && std::is_same_v<Q, Triv>) { Check(std::abs(ms[0].estimated_e0 - exr) <= tol, "energy-estimate", sig, " E0 ", ms[0].estimated_e0, " expected ", exr, " tolerance ", tol); Observe("sweep_energy"); } }
    if (whole) { F<E> st = psi; for (size_t k = 0; k < steps; ++k) { F<E> g = act(ops[0].first, st, ops[0].second, d); double ov = std::real(dotc(st, g) / dotc(st, st)), e0 = expo ? -std::log(ov) / tau : (1 - ov) / tau; if (ov > 0.05 && std::is_same_v<Q, Triv>) { Check(std::abs(ms[k].estimated_e0 - e0) <= 1e-3 * (1 + std::abs(e0)) / tau, "energy-whole-lattice", sig, " step ", k, " E0 ", ms[k].estimated_e0, " expected ", e0); Observe(expo ? "sweep_energy_exponential" : "sweep_energy_first_order"); } st = g; } }
    if (rng.coin(0.2)) { std::string dir = "loopdump"; { Quiet q; Check(x->DumpResult(dir, false), "dump", sig); } P<E, Q> back(p, R, C, per ? BoundaryCondition::Periodic : BoundaryCondition::Open); Check(back.Load(dir) && dist(wfq(back, d), b1) <= 1e-12 * nrm(b1), "dumped-state", sig); std::filesystem::remove_all(dir); Observe("sweep_dumped"); }
    if (rng.coin(0.03)) Sample(sig); } }
SECTION("sweeps_d", 1, 8) { sweeps<double, Triv>(rng, N(60, 1200)); sweeps<double, U1>(rng, N(30, 500)); few("sweeps_d"); }
SECTION("sweeps_z", 1, 8) { sweeps<Z, Triv>(rng, N(50, 1000)); sweeps<Z, U1>(rng, N(25, 400)); few("sweeps_z"); }
// ---- bookkeeping of whole runs
template<class E, class Q> std::vector<std::vector<double>> lams(const P<E, Q> &s) { std::vector<std::vector<double>> o; auto one = [&](const auto &l) { std::vector<double> v; for (size_t i = 0; i < l.GetShape()[0]; ++i) v.push_back(l({i, i})); o.push_back(v); }; for (size_t r = 0; r < s.lambda_vert.rows(); ++r) for (size_t c = 0; c < s.lambda_vert.cols(); ++c) one(s.lambda_vert({r, c})); for (size_t r = 0; r < s.lambda_horiz.rows(); ++r) for (size_t c = 0; c < s.lambda_horiz.cols(); ++c) one(s.lambda_horiz({r, c})); return o; }
static std::vector<std::map<std::string, std::string>> lu_lines(const std::string &t) { std::vector<std::map<std::string, std::string>> o; std::istringstream in(t); std::string l; while (std::getline(in, l)) { auto at = l.find("LU_METRIC"); if (at == std::string::npos) continue; std::map<std::string, std::string> m; std::istringstream w(l.substr(at + 9)); std::string tok; while (w >> tok) { auto q = tok.find('='); if (q != std::string::npos) m[tok.substr(0, q)] = tok.substr(q + 1); } o.push_back(m); } return o; }
struct Rec { LoopUpdateStepMetrics<double> m; size_t lo, hi; std::vector<std::vector<double>> lam; };
template<class E, class Q> void runs(Rng &rng, uint64_t cases) { using X = LoopUpdateExecutor<E, Q>; std::vector<std::tuple<size_t, size_t, bool>> sh{{2, 2, false}, {2, 2, false}, {2, 3, false}, {3, 2, false}, {2, 2, true}};
  for (uint64_t it = 0; it < cases; ++it) { auto [R, C, per] = rng.coin(0.6) ? sh[0] : sh[rng.below(sh.size())]; size_t d = 2; auto p = phys<Q>(rng, d); size_t D0 = 1 + rng.below(2); auto s = random_peps<E, Q>(rng, R, C, per, D0, p, false, 0.5); F<E> psi0 = wfq(s, d); if (nrm(psi0) < 1e-2) { TrivialCase(); continue; } size_t steps = rng.coin(0.1) ? 0 : 1 + rng.below(per || R * C > 4 ? 5 : 12), Dmax = 1 + rng.below(3), gr = per ? R : R - 1, gc = per ? C : C - 1; double tau = rng.coin(0.3) ? rng.uni(1e-4, 1e-3) : rng.uni(0.01, 0.2); bool adv = rng.coin(0.7), obs = rng.coin(0.85), lines = rng.coin(), expo = rng.coin();
    DuoMatrix<G<E, Q>> gates(gr, gc); size_t b = 1 + rng.below(2); auto gu = step_gate<E, Q>(rng, p, b, tau, false, 0.7); for (auto &g : gates) g = rng.coin(0.3) ? step_gate<E, Q>(rng, p, b, tau, false, 0.7) : gu;
    LoopUpdatePara::AdvancedStopConfig cfg{rng.coin(0.3) ? 0 : std::pow(10, rng.uni(-6, 0)), rng.coin(0.3) ? 0 : std::pow(10, rng.uni(-6, 0)), rng.coin(0.2) ? 1e9 : std::pow(10, rng.uni(-5, 0)), 1 + rng.below(3), 1 + rng.below(rng.coin() ? 3 : 10)}; auto gt = expo ? LoopGateType::kExponential : LoopGateType::kFirstOrder; LoopUpdateTruncatePara tp = para(Dmax); tp.fet_params.cg_params.relative_tolerance = 1e-6; tp.fet_params.max_iter = 3; tp.power_method_max_iter = 20; // half of the stopping rules sit right at the changes the trajectory really makes
    if (adv && steps > 3 && rng.coin(0.6)) { LoopUpdatePara pre(tp, steps, tau, gt); std::vector<std::vector<std::vector<double>>> lam; std::vector<double> en, de, dl; X *pp_ = nullptr; pre.step_observer = [&](const LoopUpdateStepMetrics<double> &m) { en.push_back(m.estimated_e0); lam.push_back(lams(pp_->GetPEPS())); }; Quiet q; X a(pre, gates, s); pp_ = &a; try { a.Execute(); } catch (GaveUp &) {} catch (std::runtime_error &) {} for (size_t i = 1; i < en.size(); ++i) { double x = 0; for (size_t k = 0; k < lam[i].size(); ++k) { if (lam[i][k].size() != lam[i - 1][k].size()) { x = -1; break; } double u = 0, v = 0; for (size_t j = 0; j < lam[i][k].size(); ++j) { u += std::pow(lam[i][k][j] - lam[i - 1][k][j], 2); v += std::pow(lam[i - 1][k][j], 2); } x = std::max(x, std::sqrt(u) / std::max(std::sqrt(v), 2.3e-16)); } if (x >= 0 && std::isfinite(en[i]) && std::isfinite(en[i - 1])) { de.push_back(std::abs(en[i] - en[i - 1])); dl.push_back(x); } } if (de.size()) { cfg.energy_abs_tol = rng.coin(0.3) ? 1e9 : de[rng.below(de.size())] * 1.001 + 1e-12; cfg.energy_rel_tol = 0; cfg.lambda_rel_tol = rng.coin(0.4) ? 1e9 : dl[rng.below(dl.size())] * 1.001 + 1e-12; cfg.min_steps = 1 + rng.below(3); cfg.patience = 1 + rng.below(4); Observe("run_rule_at_trajectory"); } }
    LoopUpdatePara lp(tp, steps, tau, gt); if (adv) { if (rng.coin()) lp = LoopUpdatePara(tp, steps, tau, cfg, gt); else lp = LoopUpdatePara::Advanced(tp, steps, tau, cfg.energy_abs_tol, cfg.energy_rel_tol, cfg.lambda_rel_tol, cfg.patience, cfg.min_steps, gt); } lp.emit_machine_readable_metrics = lines; std::vector<Rec> rec; X *px = nullptr; if (obs) lp.step_observer = [&](const LoopUpdateStepMetrics<double> &m) { auto mm = px->GetPEPS().GetMinMaxBondDim(); rec.push_back({m, mm.first, mm.second, lams(px->GetPEPS())}); };
    std::string sig = cat("loop run ", R, "x", C, per ? " periodic " : " open ", qname<Q>(), std::is_same_v<E, double> ? " real" : " complex", " D0=", D0, " steps=", steps, " Dmax=", Dmax, " tau=", tau, expo ? " exponential" : " first-order", adv ? cat(" stop(", cfg.energy_abs_tol, ",", cfg.energy_rel_tol, ",", cfg.lambda_rel_tol, ",", cfg.patience, ",", cfg.min_steps, ")") : ""); Doing(sig); Case(hash_str(sig));
    Quiet q; auto x = std::make_unique<X>(lp, gates, s); px = x.get(); Check(!x->LastRunConverged() && x->LastRunExecutedSteps() == 0 && x->GetLastRunSummary().stop_reason == X::StopReason::kNotRun && x->GetStepMetrics().empty(), "summary-before-run", sig); size_t rounds = 1 + rng.below(2); bool whole = true;
    for (size_t round = 0; round < rounds; ++round) { rec.clear(); q.s.str(""); std::string thrown; try { x->Execute(); } catch (GaveUp &g) { thrown = cat("exit ", g.code); } catch (std::runtime_error &e) { thrown = e.what(); } ++tried; if (thrown.size()) { ++lost; whole = false; Observe("run_gave_up"); break; } std::string rs = cat(sig, " round ", round); auto &ms = x->GetStepMetrics(); auto &sm = x->GetLastRunSummary(); size_t ex = sm.executed_steps; Check(ms.size() == ex && ex <= steps && x->LastRunExecutedSteps() == ex, "steps-executed", rs, " ", ex, " steps, ", ms.size(), " records"); Check(sm.converged == (sm.stop_reason == X::StopReason::kAdvancedConverged) && x->LastRunConverged() == sm.converged && (sm.converged || (sm.stop_reason == X::StopReason::kMaxSteps && ex == steps)), "stop-reason", rs, " ", ex, " of ", steps); if (!adv) Check(!sm.converged, "stopped-without-rule", rs);
      bool fin = true; for (size_t i = 0; i < ms.size(); ++i) { auto &m = ms[i]; Check(m.step_index == i && m.tau == tau, "metric-step", rs, " ", i, " ", m.step_index, " ", m.tau); Check(std::isfinite(m.estimated_en) && m.elapsed_sec >= 0, "metric-values", rs); fin = fin && std::isfinite(m.estimated_e0); Check(!m.trunc_err, "metric-truncation", rs); } if (!fin) { Observe("run_energy_undefined"); break; }
      if (ex) Check(sm.final_energy && sm.final_estimated_e0 && sm.final_estimated_en && *sm.final_energy == ms.back().estimated_e0 && *sm.final_estimated_e0 == ms.back().estimated_e0 && *sm.final_estimated_en == ms.back().estimated_en && x->GetEstimatedEnergy() == ms.back().estimated_e0, "final-energy", rs); else Check(!sm.final_energy && !sm.final_estimated_e0 && !sm.final_estimated_en, "energy-without-steps", rs);
      auto now = lams(x->GetPEPS()); if (ex) for (auto &v : now) Check(v.size() <= Dmax, "bond-limit", rs, " D ", v.size()); Observe("run"); if (!ex) Observe("run_zero");
      if (obs && Check(rec.size() == ex, "observer-calls", rs, " ", rec.size(), " of ", ex)) { for (size_t i = 0; i < ex; ++i) { auto &a = rec[i].m; auto &m = ms[i]; Check(a.step_index == m.step_index && a.tau == m.tau && a.estimated_e0 == m.estimated_e0 && a.estimated_en == m.estimated_en && a.trunc_err == m.trunc_err && a.elapsed_sec == m.elapsed_sec && a.bond_dim_changed == m.bond_dim_changed, "observer-values", rs, " step ", i); if (i == 0) Check(!m.bond_dim_changed, "first-step-changed", rs); else { bool same = true; for (size_t k = 0; k < rec[i].lam.size(); ++k) same = same && rec[i].lam[k].size() == rec[i - 1].lam[k].size(); if (rec[i].lo != rec[i - 1].lo || rec[i].hi != rec[i - 1].hi) { Check(m.bond_dim_changed, "bond-change-missed", rs, " step ", i); Observe("run_bond_change"); } if (same) Check(!m.bond_dim_changed, "bond-change-invented", rs, " step ", i); } } if (ex) Check(rec.back().lam == now, "observer-state", rs);
        if (adv) { size_t streak = 0, stop = steps; bool shaky = false, conv = false; for (size_t i = 0; i < ex && !conv; ++i) { bool pass = false; if (i > 0) { bool same = true; for (size_t k = 0; k < rec[i].lam.size(); ++k) same = same && rec[i].lam[k].size() == rec[i - 1].lam[k].size(); if (same) { double e1 = rec[i - 1].m.estimated_e0, e2 = rec[i].m.estimated_e0, tol = std::max(cfg.energy_abs_tol, cfg.energy_rel_tol * std::max({1.0, std::abs(e1), std::abs(e2)})), de = std::abs(e1 - e2), dl = 0; for (size_t k = 0; k < rec[i].lam.size(); ++k) { double a = 0, bb = 0; for (size_t j = 0; j < rec[i].lam[k].size(); ++j) { a += std::pow(rec[i].lam[k][j] - rec[i - 1].lam[k][j], 2); bb += std::pow(rec[i - 1].lam[k][j], 2); } dl = std::max(dl, std::sqrt(a) / std::max(std::sqrt(bb), 2.3e-16)); } shaky = shaky || std::abs(de - tol) < 1e-13 || std::abs(dl - cfg.lambda_rel_tol) < 1e-13; pass = i + 1 >= cfg.min_steps && de <= tol && dl <= cfg.lambda_rel_tol; if (i + 1 < cfg.min_steps && de <= tol && dl <= cfg.lambda_rel_tol) Observe("run_held_by_min_steps"); if (de > tol) Observe("run_energy_open"); else if (dl > cfg.lambda_rel_tol) Observe("run_lambda_open"); } else Observe("run_dims_open"); } if (pass) ++streak; else { if (streak) Observe("run_streak_broken"); streak = 0; } if (streak >= cfg.patience) conv = true, stop = i + 1; } if (!shaky) { Check(conv == sm.converged && ex == stop, "stopping-rule", rs, " stopped after ", ex, " (", sm.converged, ") rule says ", stop, " (", conv, ")"); Observe(conv ? "run_converged" : "run_not_converged"); } else Observe("run_borderline"); } }
      auto ls = lu_lines(q.s.str()); if (lines) { if (Check(ls.size() == ex, "metric-lines", rs, " ", ls.size(), " lines for ", ex, " steps")) for (size_t i = 0; i < ex; ++i) { auto num = [&](const char *k) { return ls[i].count(k) ? std::atof(ls[i][k].c_str()) : std::nan(""); }; Check(num("step") == (double) i && std::abs(num("e0") - ms[i].estimated_e0) <= 1e-9 * (1 + std::abs(ms[i].estimated_e0)) && std::abs(num("en") - ms[i].estimated_en) <= 1e-9 * (1 + std::abs(ms[i].estimated_en)) && std::abs(num("tau") - tau) <= 1e-9 * tau, "metric-line-values", rs, " line ", i, " step ", ls[i]["step"], " tau ", ls[i]["tau"], " e0 ", ls[i]["e0"], " for ", ms[i].estimated_e0, " en ", ls[i]["en"], " for ", ms[i].estimated_en); } Observe("run_lines"); } else Check(ls.empty(), "metric-lines-unasked", rs); }
    // a run is a function of its inputs and continues where the last one stopped
    if (rng.coin(0.3) && steps > 1 && !adv && whole) { LoopUpdatePara h(tp, 1, tau, gt), f(tp, 2, tau, gt); X a(h, gates, s), c(f, gates, s); try { a.Execute(); a.Execute(); c.Execute(); F<E> fa = wfq(a.GetPEPS(), d), fc = wfq(c.GetPEPS(), d); Check(dist(fa, fc) <= 1e-9 * nrm(fc) + 1e-12, "split-run", sig, " ", dist(fa, fc)); Observe("run_split"); } catch (GaveUp &) {} catch (std::runtime_error &) {} }
    if (rng.coin(0.2)) { auto bad = cfg; switch (rng.below(5)) { case 0: bad.energy_abs_tol = -1e-9; break; case 1: bad.energy_rel_tol = -1; break; case 2: bad.lambda_rel_tol = -1e-3; break; case 3: bad.patience = 0; break; default: bad.min_steps = 0; } X z(LoopUpdatePara(tp, steps, tau, bad, gt), gates, s); bool th = false; try { z.Execute(); } catch (const std::invalid_argument &) { th = true; } Check(th, "bad-rule-accepted", sig); Check(wfq(z.GetPEPS(), d) == psi0, "refused-run-changed-state", sig); Observe("run_refused"); }
    if (rng.coin(0.2)) { size_t wr = gr, wc = gc; (rng.coin() ? wr : wc) += 1; DuoMatrix<G<E, Q>> wrong(wr, wc); for (auto &g : wrong) g = gu; bool th = false; try { X z(lp, wrong, s); } catch (const std::invalid_argument &) { th = true; } Check(th, "wrong-gate-grid-accepted", sig); Observe("run_grid_refused"); }
    if (rng.coin(0.1)) { size_t r2 = 2 + rng.below(2), c2 = r2 == 3 ? 2 + rng.below(2) : 3; auto odd = random_peps<E, Q>(rng, r2, c2, true, 1, p, false, 0.5); DuoMatrix<G<E, Q>> og(r2, c2); for (auto &g : og) g = gu; bool th = false; try { X z(lp, og, odd); } catch (const std::invalid_argument &) { th = true; } Check(th, "odd-periodic-accepted", sig); Observe("run_odd_refused"); }
    if (rng.coin(0.02)) Sample(sig); } }
SECTION("runs_d", 2, 8) { runs<double, Triv>(rng, N(60, 700)); runs<double, U1>(rng, N(20, 250)); few("runs_d"); }
SECTION("runs_z", 2, 8) { runs<Z, Triv>(rng, N(40, 450)); runs<Z, U1>(rng, N(14, 200)); few("runs_z"); }
#endif
