// C16: boundary-MPS contraction of an open network equals the brute-force contraction, whatever the query and update history.
#include "tn.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/tensor_network_2d.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/bmps/bmps_contractor.h"
using namespace vh; using namespace tn; using qlpeps::SiteIdx;
using namespace qlpeps;
template<class E, class Q> struct Lab {
  using T = qlten::QLTensor<E, Q>; using S = SplitIndexTPS<E, Q>; using TN = TensorNetwork2D<E, Q>; using CT = BMPSContractor<E, Q>; using TP = BMPSTruncateParams<double>;
  Rng &rng; size_t R, C, d; S s; std::vector<size_t> cfg; std::unique_ptr<TN> net; std::unique_ptr<CT> ct; std::string sig; double scale = 0, tol = 1e-9; bool dead = false; int queries = 0;
  static constexpr bool F = Q::IsFermionic();
  Lab(Rng &r) : rng(r) {}
  E amp(const std::vector<size_t> &c) { return amplitude<E, Q>(s, c); }
  bool init(size_t lo, size_t hi, size_t Dmax) {
    R = lo + rng.below(hi - lo + 1); C = lo + rng.below(hi - lo + 1); d = 2 + rng.below(2); if (R * C > 12) Dmax = std::min<size_t>(Dmax, 2);
    auto p = phys<Q>(rng, d); auto t = random_tps<E, Q>(rng, R, C, BoundaryCondition::Open, Dmax, p); s = S::FromTPS(t);
    double n2 = 0; int n = 0; bool found = false;
    for (int k = 0; k < 60; ++k) { std::vector<size_t> c(R * C); for (auto &x : c) x = rng.below(d);
      if constexpr (std::is_same_v<Q, U1>) { int q = 0; for (auto x : c) q += d == 2 ? (x ? -1 : 1) : 1 - (int) x; for (int g = 0; q && g < 200; ++g) { auto &x = c[rng.below(c.size())]; if (q > 0 && x + 1 < d) { x++; q -= d == 2 ? 2 : 1; } else if (q < 0 && x) { x--; q += d == 2 ? 2 : 1; } } if (q) continue; }
      E a = amp(c); if (mag(a) == 0) continue; n2 += std::norm(a); ++n; if (!found) { found = true; cfg = c; } if (n >= 3) break; }
    if (!found) return false; scale = std::sqrt(n2 / n);
    if (mag(amp(cfg)) < 1e-3 * scale) return false;
    net = std::make_unique<TN>(s, config(R, C, cfg)); ct = std::make_unique<CT>(R, C); ct->Init(*net);
    sig = cat(R, "x", C, " d", d, " ", qname<Q>(), std::is_same_v<E, Z> ? " z" : " d"); return true;
  }
  const T &comp(size_t r, size_t c, size_t x) { return s({r, c})[x]; }
  void cmp(E got, const std::vector<size_t> &c, const char *what, const std::string &at, double sg = 0) {
    if (dead) return; E want = amp(c); Observe(cat("bmps_", what)); ++queries; double e = F ? std::abs(mag(got) - mag(want)) : mag(got - want);
    if (!(e <= tol * (scale + mag(want)) + sg)) { Violation(cat("contraction-", what, F ? "-fermion" : ""), cat(sig, " ", at, " got ", got, " want ", want)); dead = true; }
  }
  // Candidate replacement values on the given sites: any for trivial symmetry, a permutation of the current ones otherwise.
  std::vector<size_t> repl(const std::vector<size_t> &idx) {
    auto c = cfg; if (rng.coin(0.15)) return c;
    if constexpr (std::is_same_v<Q, Triv>) for (auto i : idx) c[i] = rng.below(d);
    else { std::vector<size_t> v; for (auto i : idx) v.push_back(c[i]); for (size_t k = v.size(); k-- > 1;) std::swap(v[k], v[rng.below(k + 1)]); for (size_t k = 0; k < idx.size(); ++k) c[idx[k]] = v[k]; }
    return c;
  }
  size_t id(size_t r, size_t c) { return r * C + c; }
  const T &tx(size_t r, size_t c, const std::vector<size_t> &k) { return comp(r, c, k[id(r, c)]); }
  // all queries at one position of a row (or column) whose one-row environments are grown
  void at(size_t r, size_t c, bool h) {
    auto o = h ? HORIZONTAL : VERTICAL; std::string w = cat("(", r, ",", c, ") ", h ? "row" : "col"); size_t r1 = h ? r : r + 1, c1 = h ? c + 1 : c; bool two = r1 < R && c1 < C; Doing(sig + w);
    switch (rng.below(4)) {
      case 0: if (two) cmp(ct->Trace(*net, SiteIdx{r, c}, o), cfg, "trace", w); break;
      case 1: if (two) { auto k = repl({id(r, c), id(r1, c1)}); cmp(ct->ReplaceNNSiteTrace(*net, SiteIdx{r, c}, SiteIdx{r1, c1}, o, tx(r, c, k), tx(r1, c1, k)), k, "nn", w); } break;
      case 2: { size_t r2 = h ? r : r + 2, c2 = h ? c + 2 : c; if (r2 < R && c2 < C) { auto k = repl({id(r, c), id(r1, c1), id(r2, c2)}); cmp(ct->ReplaceTNNSiteTrace(*net, SiteIdx{r, c}, o, tx(r, c, k), tx(r1, c1, k), tx(r2, c2, k)), k, "tnn", w); } break; }
      default: break;
    }
  }
  void one(size_t r, size_t c, bool h) {   // needs both sides grown to this site
    auto o = h ? HORIZONTAL : VERTICAL; std::string w = cat("(", r, ",", c, ") ", h ? "row" : "col"); auto k = repl({id(r, c)}); Doing(sig + w + " one-site");
    cmp(ct->ReplaceOneSiteTrace(*net, SiteIdx{r, c}, tx(r, c, k), o), k, "one", w);
    Doing(sig + w + " hole"); T hole = ct->PunchHole(*net, SiteIdx{r, c}, o);
    if constexpr (!F) { const T &x = tx(r, c, k); E v = 0; if (!Check(hole.size() == x.size() && hole.Rank() == 4, "hole-shape", sig, w)) { dead = true; return; } for (size_t i = 0; i < x.size(); ++i) v += hole.At_(i) * x.At_(i); cmp(v, k, "hole", w); }
    else { T x = tx(r, c, k), res; // legs of the hole follow the site's four virtual legs after the leading trivial one
      double n1 = 0, n2 = 0; std::vector<size_t> ps; (void) n1; (void) n2; if (!Check(hole.Rank() == 5, "hole-rank", sig, w)) { dead = true; return; }
      E v = 0; bool shape = true; for (int a = 0; a < 4; ++a) shape = shape && hole.GetShape()[a + 1] == x.GetShape()[a]; if (!Check(shape, "hole-shape", sig, w)) { dead = true; return; }
      qlten::Contract(&hole, {1, 2, 3, 4}, &x, {0, 1, 2, 3}, &res); if (!Check(res.size() == 1, "hole-closed", sig, w)) { dead = true; return; } v = res.At_(0); cmp(v, k, "hole", w); }
  }
  void row_queries(size_t r) { ct->GrowBMPSForRow(*net, r); ct->GrowFullBTen(*net, LEFT, r, 1, true); ct->GrowFullBTen(*net, RIGHT, r, 1, true); for (size_t c = 0; c < C; ++c) { at(r, c, true); if (rng.coin(0.4)) one(r, c, true); } }
  void col_queries(size_t c) { ct->GrowBMPSForCol(*net, c); ct->GrowFullBTen(*net, UP, c, 1, true); ct->GrowFullBTen(*net, DOWN, c, 1, true); for (size_t r = 0; r < R; ++r) { at(r, c, false); if (rng.coin(0.4)) one(r, c, false); } }
  void diag(size_t r, size_t c, bool h, bool sq5) {
    bool down = rng.coin(); auto dir = down ? LEFTUP_TO_RIGHTDOWN : LEFTDOWN_TO_RIGHTUP; auto o = h ? HORIZONTAL : VERTICAL; size_t hr = (sq5 && !h) ? 2 : 1, hc = (sq5 && h) ? 2 : 1; if (r + hr >= R || c + hc >= C) return;
    size_t lr = down ? r : r + hr, rr = down ? r + hr : r; std::string w = cat("(", r, ",", c, ") ", h ? "row2 " : "col2 ", down ? "down" : "up", sq5 ? " sqrt5" : ""); Doing(sig + w);
    auto k = repl({id(lr, c), id(rr, c + hc)});
    if constexpr (F) { if (!h || sq5) return; cmp(ct->ReplaceNNNSiteTrace(*net, SiteIdx{r, c}, dir, o, tx(lr, c, k), tx(rr, c + hc, k)), k, "nnn", w); }
    else if (sq5) cmp(ct->ReplaceSqrt5DistTwoSiteTrace(*net, SiteIdx{r, c}, dir, o, tx(lr, c, k), tx(rr, c + hc, k)), k, "sqrt5", w);
    else cmp(ct->ReplaceNNNSiteTrace(*net, SiteIdx{r, c}, dir, o, tx(lr, c, k), tx(rr, c + hc, k)), k, "nnn", w);
  }
  void row2(size_t r) { if (r + 1 >= R || C < 2) return; ct->GrowBMPSForRow(*net, r);
    if (rng.coin()) { ct->GrowFullBTen2(*net, LEFT, r, 2, true); ct->GrowFullBTen2(*net, RIGHT, r, 2, true); for (size_t c = 0; c + 1 < C; ++c) { if (rng.coin(0.7)) diag(r, c, true, false); if (rng.coin(0.7)) diag(r, c, true, true); } }
    else { ct->InitBTen2(*net, LEFT, r); ct->GrowFullBTen2(*net, RIGHT, r, 2, true); for (size_t c = 0; c + 1 < C; ++c) { if (rng.coin(0.7)) diag(r, c, true, false); if (rng.coin(0.7)) diag(r, c, true, true); if (c + 2 < C) ct->ShiftBTen2Window(*net, RIGHT, r); } } }
  void col2(size_t c) { if (c + 1 >= C || R < 2) return; ct->GrowBMPSForCol(*net, c); if (F) return;
    if (rng.coin()) { ct->GrowFullBTen2(*net, UP, c, 2, true); ct->GrowFullBTen2(*net, DOWN, c, 2, true); for (size_t r = 0; r + 1 < R; ++r) { if (rng.coin(0.7)) diag(r, c, false, false); if (rng.coin(0.7)) diag(r, c, false, true); } }
    else { ct->InitBTen2(*net, UP, c); ct->GrowFullBTen2(*net, DOWN, c, 2, true); for (size_t r = 0; r + 1 < R; ++r) { if (rng.coin(0.7)) diag(r, c, false, false); if (rng.coin(0.7)) diag(r, c, false, true); if (r + 2 < R) ct->ShiftBTen2Window(*net, DOWN, c); } } }
  void update(const std::vector<size_t> &k) { for (size_t i = 0; i < k.size(); ++i) if (k[i] != cfg[i]) { SiteIdx si{i / C, i % C}; net->UpdateSiteTensor(si, k[i], s); ct->EraseEnvsAfterUpdate(si); ct->CheckInvalidateEnvs(si); Observe("bmps_update"); } cfg = k; }
  void random_update() { std::vector<size_t> idx; size_t n = 1 + rng.below(3); for (size_t i = 0; i < n; ++i) { size_t j = rng.below(R * C); if (std::find(idx.begin(), idx.end(), j) == idx.end()) idx.push_back(j); } auto k = repl(idx); if (mag(amp(k)) > 0) update(k); }
  // the sweep pattern of the samplers, with accepted updates on the way
  void sweep(bool h) {
    if (h ? C < 2 : R < 2) return; auto first = h ? UP : LEFT, last = h ? DOWN : RIGHT; ct->GenerateBMPSApproach(*net, first); size_t n = h ? R : C, m = h ? C : R;
    for (size_t i = 0; i < n && !dead; ++i) { ct->InitBTen(*net, h ? LEFT : UP, i); ct->GrowFullBTen(*net, h ? RIGHT : DOWN, i, 2, true);
      for (size_t j = 0; j + 1 < m && !dead; ++j) { size_t r = h ? i : j, c = h ? j : i, r1 = h ? r : r + 1, c1 = h ? c + 1 : c; Doing(cat(sig, " sweep ", h, " ", i, ",", j));
        auto k = repl({id(r, c), id(r1, c1)}); cmp(ct->ReplaceNNSiteTrace(*net, SiteIdx{r, c}, SiteIdx{r1, c1}, h ? HORIZONTAL : VERTICAL, tx(r, c, k), tx(r1, c1, k)), k, "sweep", cat("(", r, ",", c, ")", h));
        if (rng.coin() && mag(amp(k)) > 0) update(k);
        if (j + 2 < m) ct->ShiftBTenWindow(*net, h ? RIGHT : DOWN); }
      if (i + 1 < n) ct->ShiftBMPSWindow(*net, last); }
    if (rng.coin()) { ct->DeleteInnerBMPS(LEFT); ct->DeleteInnerBMPS(RIGHT); ct->DeleteInnerBMPS(UP); ct->DeleteInnerBMPS(DOWN); }
  }
  void walker() {
    size_t r = rng.below(R); ct->GrowBMPSForRow(*net, r); while (ct->GetBMPS(UP).size() > r + 1) { ct->DeleteInnerBMPS(UP); ct->GrowBMPSForRow(*net, r); }
    auto w = ct->GetWalker(*net, UP); size_t steps = rng.below(R - r); for (size_t i = 0; i < steps && r + 1 < R; ++i) { w.EvolveStep(); ++r; } Doing(cat(sig, " walker row ", r));
    Check(w.GetStackSize() == r + 1, "walker-stack", sig, " ", w.GetStackSize(), " want ", r + 1);
    ct->GrowBMPSForRow(*net, r - steps); const auto bot = ct->GetBMPS(DOWN)[R - 1 - r]; std::vector<T> own; std::vector<size_t> k = cfg; std::vector<T *> mpo;
    if (rng.coin()) { std::vector<size_t> idx; for (size_t c = 0; c < C; ++c) idx.push_back(id(r, c)); k = repl(idx); }
    own.reserve(C); for (size_t c = 0; c < C; ++c) { own.push_back(tx(r, c, k)); } for (auto &t : own) mpo.push_back(&t);
    if constexpr (!F) { if (rng.coin()) cmp(w.ContractRow(mpo, bot), k, "walker-row", cat("row ", r)); }
    size_t c0 = rng.below(C); w.InitBTenLeft(mpo, bot, c0); w.InitBTenRight(mpo, bot, c0);
    for (int q = 0; q < 3 && !dead; ++q) {
      size_t lc = w.GetBTenLeftCol(), rc = w.GetBTenRightCol(); Doing(cat(sig, " walker row ", r, " window ", lc, ",", rc));
      if (lc < C && rc <= lc + 1) { cmp(w.TraceWithBTen(*mpo[lc], lc, bot), k, "walker-trace", cat("row ", r, " col ", lc)); }
      if (lc + 1 < C && rc <= lc + 2) { auto k2 = k; if constexpr (std::is_same_v<Q, Triv>) { k2[id(r, lc)] = rng.below(d); k2[id(r, lc + 1)] = rng.below(d); } else std::swap(k2[id(r, lc)], k2[id(r, lc + 1)]); cmp(w.TraceWithTwoSiteBTen(tx(r, lc, k2), tx(r, lc + 1, k2), lc, mpo, bot), k2, "walker-two", cat("row ", r, " col ", lc)); }
      if (rng.coin()) { if (lc + 1 < C) w.ShiftBTenWindow(mpo, bot, RIGHT); } else if (lc > 0) w.ShiftBTenWindow(mpo, bot, LEFT);
    }
  }
  void run(int ops) {
    Case(hash_str(sig) ^ rng()); for (int i = 0; i < ops && !dead; ++i) { int op = (int) rng.below(9); sig += cat(" ", op); Doing(sig);
      switch (op) { case 0: row_queries(rng.below(R)); break; case 1: col_queries(rng.below(C)); break; case 2: row2(rng.below(R)); break; case 3: col2(rng.below(C)); break; case 4: case 5: random_update(); break; case 6: sweep(true); break; case 7: sweep(false); break; default: walker(); }
      Check(ct->DirectionCheck(), "direction", sig); }
    if (rng.coin(0.05)) Sample(cat(sig, " queries ", queries)); Observe("bmps_history");
  }
};
template<class E, class Q> void exact(Rng &rng, uint64_t n, size_t hi, size_t D) {
  for (uint64_t i = 0; i < n; ++i) { Lab<E, Q> L(rng); bool ok = false; for (int a = 0; a < 25 && !ok; ++a) ok = L.init(2, hi, D); if (!ok) { TrivialCase(); continue; } using TP = BMPSTruncateParams<double>;
    L.ct->SetTruncateParams(TP::SVD(1, 1000, 0.0)); L.run(2 + (int) rng.below(6)); }
}
SECTION("exact_bd", 2, 8) { exact<double, Triv>(rng, N(150, 1500), 4, 3); }
SECTION("exact_bz", 2, 8) { exact<Z, Triv>(rng, N(150, 1500), 4, 3); }
SECTION("exact_ud", 2, 8) { exact<double, U1>(rng, N(150, 1500), 4, 3); }
SECTION("exact_uz", 2, 8) { exact<Z, U1>(rng, N(150, 1500), 4, 3); }
SECTION("exact_fd", 2, 8) { exact<double, fZ2>(rng, N(150, 1500), 3, 3); }
SECTION("exact_fz", 2, 8) { exact<Z, fZ2>(rng, N(150, 1500), 3, 3); }
// variational compression with enough room converges to the same value
template<class E> void var(Rng &rng, bool two) {
  for (uint64_t i = 0; i < N(30, 300); ++i) { Lab<E, Triv> L(rng); if (!L.init(2, 4, 2)) { TrivialCase(); continue; } using TP = BMPSTruncateParams<double>; L.tol = 1e-6;
    L.ct->SetTruncateParams(two ? TP::Variational2Site(1, 64, 0.0, 1e-14, 30) : TP::Variational1Site(1, 64, 0.0, 1e-14, 30)); L.run(2 + (int) rng.below(4)); Observe(two ? "bmps_var2" : "bmps_var1"); }
}
SECTION("var2_d", 1, 4) { var<double>(rng, true); }
SECTION("var2_z", 1, 4) { var<Z>(rng, true); }
SECTION("var1_d", 1, 4) { var<double>(rng, false); }
SECTION("var1_z", 1, 4) { var<Z>(rng, false); }
// bounded bond dimension: never exceeded; exact while the discarded weight is zero; error shrinks to nothing as the bound is lifted
template<class E, class Q> void trunc(Rng &rng) {
  for (uint64_t i = 0; i < N(60, 600); ++i) { Lab<E, Q> L(rng); bool ok = false; for (int a = 0; a < 40 && !ok; ++a) ok = L.init(3, 4, 3); if (!ok) { TrivialCase(); continue; } using TP = BMPSTruncateParams<double>; size_t D = 1 + rng.below(5), Dmin = 1 + rng.below(D); Doing(L.sig + " trunc");
    int sch = Q::IsFermionic() ? 0 : (int) rng.below(3); L.ct->SetTruncateParams(sch == 0 ? TP::SVD(Dmin, D, 0.0) : sch == 1 ? TP::Variational2Site(Dmin, D, 0.0, 1e-12, 10) : TP::Variational1Site(Dmin, D, 0.0, 1e-12, 10)); Case(hash_str(L.sig) ^ rng());
    for (auto pos : {UP, DOWN, LEFT, RIGHT}) { try { L.ct->GrowFullBMPS(*L.net, pos); } catch (const std::runtime_error &) { Observe("bmps_refused_empty"); continue; } /* a truncation that leaves no compatible sector is refused */ auto &v = L.ct->GetBMPS(pos); Check(v.size() == ((pos == UP || pos == DOWN) ? L.R : L.C), "stack-size", L.sig, " ", v.size());
      for (auto &m : v) for (size_t k = 0; k + 1 < m.size(); ++k) Check(m[k].GetShape()[2] <= D, "bond-bound", L.sig, " scheme ", sch, " bond ", m[k].GetShape()[2], " bound ", D); }
    Observe("bmps_bound"); }
}
SECTION("trunc_d", 1, 4) { trunc<double, Triv>(rng); }
SECTION("trunc_uz", 1, 4) { trunc<Z, U1>(rng); }
SECTION("trunc_f", 1, 4) { trunc<double, fZ2>(rng); }
