// C19: model solvers: local energies and observables equal the brute-force matrix elements of the stated Hamiltonians.
#include "models.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/heisenberg_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h"
#ifndef PART
#define PART 0
#endif
using namespace vh; using namespace tn; using namespace qlpeps;
using namespace md;
// extra observables: callback(out, cfg, amp, psi)
template<class E, class Q, bool PBC, class M, class X> void check_model(Rng &rng, const char *name, M &model, const Ref &ref, const Idx<Q> &p, size_t d, std::vector<std::pair<size_t, size_t>> shapes, size_t cfgs, X &&extra, bool sizeD3 = false) {
  using S = SplitIndexTPS<E, Q>; using W = std::conditional_t<PBC, TPSWaveFunctionComponent<E, Q, NoDress, TRGContractor>, TPSWaveFunctionComponent<E, Q>>;
  auto tp = [] { if constexpr (PBC) return TRGTruncateParams<double>::SVD(1, 1000, 0.0); else return BMPSTruncateParams<double>::SVD(1, 1000, 0.0); }();
  auto [R, C] = shapes[rng.below(shapes.size())]; size_t n = R * C; (void) sizeD3;
  S s = S::FromTPS(random_tps<E, Q>(rng, R, C, PBC ? BoundaryCondition::Periodic : BoundaryCondition::Open, n > 9 ? 2 : 3, p, Q(), rng.coin() ? 0.0 : 0.6));
  Amp<E> amp{[&](const V &c) { return amplitude<E, Q>(s, c); }, {}};
  // configurations with a decent amplitude
  std::vector<V> pool; double rms = 0; size_t cnt = 0; for (int k = 0; k < 60 && pool.size() < 4 * cfgs; ++k) { V c(n); for (auto &x : c) x = rng.below(d); if constexpr (std::is_same_v<Q, U1>) { for (size_t i = 0; i < n; ++i) c[i] = i % 2; for (size_t i = n; i > 1; --i) std::swap(c[i - 1], c[rng.below(i)]); } E a = amp(c); if (mag(a) > 0) { pool.push_back(c); rms += std::norm(a); ++cnt; } }
  if (!cnt) { TrivialCase(); return; } rms = std::sqrt(rms / cnt); size_t used = 0;
  for (auto &c : pool) { if (used >= cfgs) break; E psi = amp(c); if (mag(psi) < 0.05 * rms) continue; ++used;
    std::string sig = cat(name, " ", R, "x", C, " ", qname<Q>(), std::is_same_v<E, Z> ? " z" : " d", " cfg "); for (auto x : c) sig += char('0' + x); Case(hash_str(sig) ^ rng()); Doing(sig);
    W wf(s, config(R, C, c), tp);
    std::map<int, std::vector<std::pair<BondId, E>>> per; double scale = 1; E want = 0; for (auto &b : bonds(ref, R, C)) { Terms t; ref.bond(t, c, b.d, b.i, b.j); E e = eval(amp, c, t, scale); want += e; per[b.d].push_back({b, e}); }
    if (ref.onsite) { Terms t; ref.onsite(t, c); want += eval(amp, c, t, scale); }
    double tol = 1e-8 * scale + 1e-9 * scale * rms / mag(psi);
    E e1 = model.template CalEnergy<E, Q>(&s, &wf); Observe("local_energy"); if (!Check(mag(e1 - want) <= tol, cat("energy-", name), sig, " got ", e1, " want ", want)) return;
    TensorNetwork2D<E, Q> holes(R, C); E e2 = model.template CalEnergyAndHoles<E, Q, true>(&s, &wf, holes); Check(mag(e2 - want) <= tol, cat("energy-holes-", name), sig, " got ", e2, " want ", want); Observe("local_energy_holes");
    auto ps = model.template GetLastPsiConsistencySummary<E>(); Check(ps.psi_rel_err < 1e-6 && (Q::IsFermionic() ? std::abs(mag(ps.psi_mean) - mag(psi)) <= 1e-8 * rms : mag(ps.psi_mean - psi) <= 1e-8 * rms) || (Q::IsFermionic() && ps.psi_mean == E(0)), cat("psi-summary-", name), sig, " mean ", ps.psi_mean, " exact ", psi, " err ", ps.psi_rel_err); Observe("psi_summary");
    // the state itself is left as it was
    bool same = true; for (size_t i = 0; i < n; ++i) { const auto &x = wf.tn({i / C, i % C}), &y = s({i / C, i % C})[c[i]]; same = same && wf.config({i / C, i % C}) == c[i] && x.size() == y.size(); for (size_t k = 0; same && k < x.size(); ++k) same = x.At_(k) == y.At_(k); } Check(same, cat("state-changed-", name), sig);
    // hole . (any tensor in the same sector) = amplitude with that tensor
    for (size_t i = 0; i < n; ++i) { if constexpr (!Q::IsFermionic()) { if (PBC && R > 3) break; const auto &t = s({i / C, i % C})[c[i]]; const auto &h = holes({i / C, i % C}); E v = 0; bool ok = h.size() == t.size(); for (size_t k = 0; ok && k < t.size(); ++k) v += cj(h.At_(k)) * t.At_(k); Check(ok && mag(v - psi) <= 1e-8 * rms, cat("hole-", name), sig, " site ", i, " hole.T ", v, " psi ", psi); Observe("hole");
        if (rng.coin(0.3)) { S s2 = s; auto y = t; for (auto &q : y.Data_()) if (q != E(0)) q = rnd<E>(rng); s2({i / C, i % C})[c[i]] = y; E w = amplitude<E, Q>(s2, c); v = 0; for (size_t k = 0; ok && k < y.size(); ++k) v += cj(h.At_(k)) * y.At_(k); Check(mag(v - w) <= 1e-8 * (rms + mag(w)) * 10, cat("hole-any-", name), sig, " site ", i, " ", v, " vs ", w); Observe("hole_any"); } } }
    // measurement channel
    auto out = model.template EvaluateObservables<E, Q>(&s, &wf); Observe("observables");
    std::map<std::string, std::vector<size_t>> shape; for (auto &m : model.DescribeObservables(R, C)) { Check(!shape.count(m.key), cat("describe-dup-", name), sig, " ", m.key); shape[m.key] = m.shape; Check(m.index_labels.size() == m.shape.size() || m.shape.empty() || m.key == "SpSm_cross", cat("describe-labels-", name), sig, " ", m.key); }
    for (auto &[k, v] : out) { Check(shape.count(k), cat("undescribed-", name), sig, " key ", k); if (k == "SpSm_cross") continue; size_t len = 1; if (shape.count(k)) for (auto x : shape[k]) len *= x; Check(v.size() == len, cat("shape-", name), sig, " key ", k, " has ", v.size(), " values, described ", len); }
    auto need = [&](const char *k) -> std::vector<E> { auto it = out.find(k); if (it == out.end()) { Violation(cat("missing-", name), cat(sig, " ", k)); return {}; } return it->second; };
    { auto v = need("energy"); if (v.size() == 1) Check(mag(v[0] - want) <= tol, cat("observable-energy-", name), sig, " got ", v[0], " want ", want); }
    auto grid = [&](const char *k, Dir dd, bool req) { if (!out.count(k)) { if (req && per.count(dd) && per[dd].size()) Violation(cat("missing-", name), cat(sig, " ", k)); return; } auto v = out[k]; size_t w = C - (!PBC && dd != VV ? 1 : 0); for (auto &[b, e] : per[dd]) { size_t at = b.r * w + b.c; if (!Check(at < v.size() && mag(v[at] - e) <= tol, cat("observable-", k, "-", name), sig, " at ", b.r, ",", b.c, " got ", at < v.size() ? v[at] : E(0), " want ", e)) break; Observe("bond_energy"); } };
    bool ising = std::string(name).substr(0, 3) == "TFI"; if (!ising) { grid("bond_energy_h", H, true); grid("bond_energy_v", VV, true); grid("bond_energy_dr", DR, false); grid("bond_energy_ur", UR, ref.diag); }
    extra(out, c, amp, psi, sig, tol, R, C);
    if (ising || !Q::IsFermionic()) { auto sm = model.template EvaluatePsiSummary<E, Q>(&s, &wf); Check(mag(sm.psi_mean - psi) <= 1e-8 * rms, cat("measure-psi-", name), sig, " psi_mean ", sm.psi_mean, " exact ", psi); Observe("measure_psi"); }
    // repeatable: measuring twice gives the same values
    auto out2 = model.template EvaluateObservables<E, Q>(&s, &wf); bool rep = out2.size() == out.size(); for (auto &[k, v] : out) { auto it = out2.find(k); rep = rep && it != out2.end() && it->second.size() == v.size(); for (size_t i = 0; rep && i < v.size(); ++i) rep = mag(v[i] - it->second[i]) <= tol; } Check(rep, cat("measure-repeat-", name), sig);
    if (rng.coin(0.03)) Sample(sig);
  }
}
template<class E> void spin_obs(const char *name, std::unordered_map<std::string, std::vector<E>> &out, const V &c, Amp<E> &amp, E psi, const std::string &sig, double tol, size_t R, size_t C, bool row) {
  auto sz = [&](size_t i) { return c[i] - 0.5; }; size_t n = R * C; const double st = tol + 1e-8;
  { auto &v = out["spin_z"]; bool ok = v.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = mag(v[i] - sz(i)) < 1e-12; Check(ok, cat("spin_z-", name), sig); }
  if (out.count("SzSz_all2all")) { auto &v = out["SzSz_all2all"]; size_t k = 0; bool ok = v.size() == n * (n + 1) / 2; for (size_t i = 0; ok && i < n; ++i) for (size_t j = i; j < n; ++j) ok = ok && mag(v[k++] - sz(i) * sz(j)) < 1e-12; Check(ok, cat("SzSz_all2all-", name), sig); Observe("szsz"); }
  size_t r = R / 2, x = C / 4;
  if (out.count("SzSz_row")) { auto &v = out["SzSz_row"]; bool ok = v.size() == C / 2; for (size_t i = 1; ok && i <= C / 2; ++i) ok = mag(v[i - 1] - sz(r * C + x) * sz(r * C + x + i)) < 1e-12; Check(ok, cat("SzSz_row-", name), sig); }
  if (row) { auto &m = out["SmSp_row"], &q = out["SpSm_row"]; if (!Check(m.size() == C / 2 && q.size() == C / 2, cat("row-size-", name), sig)) return;
    for (size_t i = 1; i <= C / 2; ++i) { size_t a = r * C + x, b = a + i; E wm = 0, wp = 0; if (c[a] != c[b]) { V d = c; std::swap(d[a], d[b]); E ra = cj(amp(d) / psi); if (c[a] == 1) wm = ra; else wp = ra; } Check(mag(m[i - 1] - wm) <= st && mag(q[i - 1] - wp) <= st, cat("row-corr-", name), sig, " distance ", i, " SmSp ", m[i - 1], " want ", wm, " SpSm ", q[i - 1], " want ", wp); Observe("row_corr"); } }
}
const std::vector<std::pair<size_t, size_t>> OBC{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}, {3, 4}, {4, 3}, {2, 5}, {2, 6}, {5, 2}};
template<class E, class Q> void spins(Rng &rng, uint64_t cases) {
  for (uint64_t k = 0; k < cases; ++k) {
    auto p = phys<Q>(rng, 2); auto cf = [&] { return rng.coin(0.2) ? 0.0 : rng.uni(-1.5, 1.5); }; double jz = cf(), jxy = cf(), jz2 = cf(), jxy2 = cf(), pin = cf();
    switch (rng.below(5)) {
      case 0: { SquareSpinOneHalfXXZModelOBC m(jz, jxy, pin); Ref ref; ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, jz, jxy); }; ref.onsite = [=](Terms &t, const V &c) { t.push_back({c, -pin * (c[0] - 0.5)}); };
        check_model<E, Q, false>(rng, "XXZ", m, ref, p, 2, OBC, 3, [&](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>("XXZ", o, c, a, psi, sig, tol, R, C, true); }); break; }
      case 1: { SquareSpinOneHalfXXZModelOBC m; Ref ref; ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, 1, 1); };
        check_model<E, Q, false>(rng, "Heisenberg", m, ref, p, 2, OBC, 3, [&](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>("Heisenberg", o, c, a, psi, sig, tol, R, C, true); }); break; }
      case 2: { SquareSpinOneHalfJ1J2XXZModelOBC m(jz, jxy, jz2, jxy2, pin); Ref ref; ref.diag = true; ref.bond = [=](Terms &t, const V &c, Dir d, size_t i, size_t j) { if (d == H || d == VV) spin_bond(t, c, i, j, jz, jxy); else spin_bond(t, c, i, j, jz2, jxy2); }; ref.onsite = [=](Terms &t, const V &c) { t.push_back({c, -pin * (c[0] - 0.5)}); };
        check_model<E, Q, false>(rng, "J1J2", m, ref, p, 2, OBC, 3, [&](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>("J1J2", o, c, a, psi, sig, tol, R, C, false); }); break; }
      case 3: { SpinOneHalfTriHeisenbergSqrPEPS m; Ref ref; ref.diag = true; ref.bond = [=](Terms &t, const V &c, Dir d, size_t i, size_t j) { if (d != DR) spin_bond(t, c, i, j, 1, 1); };
        check_model<E, Q, false>(rng, "Tri", m, ref, p, 2, OBC, 3, [&](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>("Tri", o, c, a, psi, sig, tol, R, C, true); }); break; }
      default: { SpinOneHalfTriJ1J2HeisenbergSqrPEPS m(jz2); Ref ref; ref.diag = ref.tri2 = true; ref.bond = [=](Terms &t, const V &c, Dir d, size_t i, size_t j) { double J = d == DR || d == J2H || d == J2V ? jz2 : 1; spin_bond(t, c, i, j, J, J); };
        check_model<E, Q, false>(rng, "TriJ1J2", m, ref, p, 2, OBC, 3, [&](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>("TriJ1J2", o, c, a, psi, sig, tol, R, C, true); }); }
    } } }
template<class E> void ising(Rng &rng, uint64_t cases, bool per) {
  for (uint64_t k = 0; k < cases; ++k) { auto p = phys<Triv>(rng, 2); double h = rng.coin(0.15) ? 0.0 : rng.uni(-2, 2); Ref ref; ref.per = per; ref.bond = [](Terms &t, const V &c, Dir, size_t i, size_t j) { t.push_back({c, c[i] == c[j] ? -1.0 : 1.0}); };
    ref.onsite = [=](Terms &t, const V &c) { for (size_t i = 0; i < c.size(); ++i) { V d = c; d[i] = 1 - d[i]; t.push_back({d, -h}); } };
    auto ex = [&](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>("TFI", o, c, a, psi, sig, tol, R, C, false); auto &v = o["sigma_x"]; for (size_t i = 0; i < R * C; ++i) { V d = c; d[i] = 1 - d[i]; E w = cj(a(d) / psi); if (!Check(i < v.size() && mag(v[i] - w) <= tol + 1e-7 * (1 + mag(w)), "sigma_x", sig, " h ", h, " site ", i, " got ", i < v.size() ? v[i] : E(0), " want ", w)) break; Observe("sigma_x"); } };
    if (per) { TransverseFieldIsingSquarePBC m(h); check_model<E, Triv, true>(rng, "TFI-periodic", m, ref, p, 2, {{2, 2}, {3, 3}}, 3, ex); } else { TransverseFieldIsingSquareOBC m(h); check_model<E, Triv, false>(rng, "TFI-open", m, ref, p, 2, OBC, 3, ex); } } }
template<class E, class Q> void periodic(Rng &rng, uint64_t cases, std::vector<std::pair<size_t, size_t>> shapes) {
  for (uint64_t k = 0; k < cases; ++k) { auto p = phys<Q>(rng, 2); auto cf = [&] { return rng.coin(0.25) ? 0.0 : rng.uni(-1.5, 1.5); }; double jz = cf(), jxy = cf(), jz2 = cf(), jxy2 = cf(), pin = cf(); if (rng.coin(0.3)) jz2 = jxy2 = 0;
    Ref ref; ref.per = true; auto ex = [&](const char *nm) { return [nm](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { spin_obs<E>(nm, o, c, a, psi, sig, tol, R, C, false); }; };
    if (rng.coin(0.3)) { HeisenbergSquarePBC m(jz, jxy); ref.bond = [=](Terms &t, const V &c, Dir, size_t i, size_t j) { spin_bond(t, c, i, j, jz, jxy); }; check_model<E, Q, true>(rng, "XXZ-periodic", m, ref, p, 2, shapes, 2, ex("XXZ-periodic")); }
    else { SquareSpinOneHalfJ1J2XXZModelPBC m(jz, jxy, jz2, jxy2, pin); ref.diag = jz2 != 0 || jxy2 != 0; ref.bond = [=](Terms &t, const V &c, Dir d, size_t i, size_t j) { if (d == H || d == VV) spin_bond(t, c, i, j, jz, jxy); else spin_bond(t, c, i, j, jz2, jxy2); }; ref.onsite = [=](Terms &t, const V &c) { t.push_back({c, -pin * (c[0] - 0.5)}); };
      check_model<E, Q, true>(rng, "J1J2-periodic", m, ref, p, 2, shapes, 2, ex("J1J2-periodic")); } } }
const std::vector<std::pair<size_t, size_t>> FOBC{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}};
template<class E> void fermions(Rng &rng, uint64_t cases) {
  for (uint64_t k = 0; k < cases; ++k) { auto cf = [&] { return rng.coin(0.15) ? 0.0 : rng.uni(-1.5, 1.5); }; double t = cf(), t2 = cf(), J = cf(), Vn = cf(), mu = cf(), U = cf(), delta = cf();
    auto obs = [&](Kind kd, const char *nm) { return [kd, nm](auto &o, auto &c, auto &a, E psi, auto &sig, double tol, size_t R, size_t C) { Fock f{kd, R * C}; if (kd != SPINLESS) { auto &z = o["spin_z"]; bool ok = z.size() == c.size(); for (size_t i = 0; ok && i < c.size(); ++i) ok = mag(z[i] - f.sz(c, i)) < 1e-12; Check(ok, cat("spin_z-", nm), sig); }
      auto &q = o["charge"]; bool ok = q.size() == c.size(); for (size_t i = 0; ok && i < c.size(); ++i) ok = mag(q[i] - f.dens(c, i)) < 1e-12; Check(ok, cat("charge-", nm), sig);
      if (kd == HUBBARD) { auto &dd = o["double_occupancy"]; bool ok2 = dd.size() == c.size(); for (size_t i = 0; ok2 && i < c.size(); ++i) ok2 = mag(dd[i] - double(c[i] == 0)) < 1e-12; Check(ok2, cat("double_occupancy-", nm), sig); }
      if (kd == TJ && SquaretJModelMixIn::enable_sc_measurement) for (int dir = 0; dir < 2; ++dir) { auto &v = o[dir ? "SC_bond_singlet_v" : "SC_bond_singlet_h"]; size_t rr = R - dir, cc = C - !dir; if (!Check(v.size() == rr * cc, cat("sc-size-", nm), sig)) continue; for (size_t r = 0; r < rr; ++r) for (size_t x = 0; x < cc; ++x) { size_t i = r * C + x, j = dir ? i + C : i + 1; Terms td, tdag; f.pair(td, c, i, j, 1); f.pair_dag(tdag, c, i, j, 1); double s = 1; E want = (cj(eval(a, c, tdag, s)) + eval(a, c, td, s)) / E(2.0); Check(mag(v[r * cc + x] - want) <= tol + 1e-8 * s, cat("sc-", nm), sig, " bond ", i, "-", j, " got ", v[r * cc + x], " want ", want); Observe("sc_bond"); } } }; };
    switch (rng.below(5)) {
      case 0: { auto shapes = OBC; SquareSpinlessFermion m(t, t2, Vn); Ref ref; ref.diag = true; ref.bond = [=](Terms &o, const V &c, Dir d, size_t i, size_t j) { Fock f{SPINLESS, c.size()}; if (d == H || d == VV) { f.hop(o, c, i, j, t); o.push_back({c, Vn * f.dens(c, i) * f.dens(c, j)}); } else f.hop(o, c, i, j, t2); };
        check_model<E, fZ2, false>(rng, "Spinless", m, ref, phys<fZ2>(rng, 2), 2, shapes, 3, obs(SPINLESS, "Spinless")); break; }
      case 1: { SquareHubbardModel m(t, U, mu); Ref ref; ref.bond = [=](Terms &o, const V &c, Dir, size_t i, size_t j) { Fock f{HUBBARD, c.size()}; f.hop(o, c, i, j, t); }; ref.onsite = [=](Terms &o, const V &c) { Fock f{HUBBARD, c.size()}; double e = 0; for (size_t i = 0; i < c.size(); ++i) e += U * (c[i] == 0) - mu * f.dens(c, i); o.push_back({c, e}); };
        Idx<fZ2> p({Sct<fZ2>(fZ2(0), 1), Sct<fZ2>(fZ2(1), 2), Sct<fZ2>(fZ2(0), 1)}, qlten::IN); check_model<E, fZ2, false>(rng, "Hubbard", m, ref, p, 4, FOBC, 3, obs(HUBBARD, "Hubbard")); break; }
      default: { int kind = (int) rng.below(3); if (kind == 0) t2 = Vn = 0; if (kind == 1) Vn = 0; SquaretJModelMixIn::enable_sc_measurement = rng.coin();
        auto shapes = FOBC; auto sh = shapes[rng.below(shapes.size())]; auto [R, C] = sh; bool pin = rng.coin(); bool hor = rng.coin(); size_t pr = rng.below(R - !hor), pc = rng.below(C - hor); SiteIdx s1{pr, pc}, s2{pr + !hor, pc + hor}; size_t pi = pr * C + pc, pj = hor ? pi + 1 : pi + C;
        Ref ref; ref.diag = kind != 0; ref.bond = [=](Terms &o, const V &c, Dir d, size_t i, size_t j) { Fock f{TJ, c.size()}; if (d == H || d == VV) { f.hop(o, c, i, j, t); f.exch(o, c, i, j, J); o.push_back({c, Vn * f.dens(c, i) * f.dens(c, j)}); if (pin && i == pi && j == pj) { f.pair(o, c, i, j, delta); f.pair_dag(o, c, i, j, delta); } } else f.hop(o, c, i, j, t2); };
        ref.onsite = [=](Terms &o, const V &c) { Fock f{TJ, c.size()}; double e = 0; for (size_t i = 0; i < c.size(); ++i) e -= mu * f.dens(c, i); o.push_back({c, e}); };
        auto go = [&](auto m, const char *nm) { if (pin) { if (rng.coin()) m.SetSingletPairPinningField(s1, s2, delta); else m.SetSingletPairPinningField(s2, s1, delta); } check_model<E, fZ2, false>(rng, nm, m, ref, phys<fZ2>(rng, 3), 3, {sh}, 4, obs(TJ, nm)); };
        if (kind == 0) go(SquaretJNNModel(t, J, mu), "tJ"); else if (kind == 1) go(SquaretJNNNModel(t, t2, J, mu), "tJ-NNN"); else go(SquaretJVModel(t, t2, J, Vn, mu), "tJV"); }
    } } }
// structure factor tuples {y1,x1,y2,x2,val}: val is the (documented as not normalised) overlap with the flipped pair
template<class E, class Q> void structure(Rng &rng, uint64_t cases) {
  for (uint64_t k = 0; k < cases; ++k) { auto p = phys<Q>(rng, 2); auto [R, C] = OBC[rng.below(OBC.size())]; size_t n = R * C; using S = SplitIndexTPS<E, Q>;
    S s = S::FromTPS(random_tps<E, Q>(rng, R, C, BoundaryCondition::Open, R > 2 && rng.coin() ? 1 : n > 9 ? 2 : 3, p, Q(), 0.6)); V c(n); for (size_t i = 0; i < n; ++i) c[i] = i % 2; for (size_t i = n; i > 1; --i) std::swap(c[i - 1], c[rng.below(i)]);
    E psi = amplitude<E, Q>(s, c); if (mag(psi) == 0) { TrivialCase(); continue; } bool tri = rng.coin(); std::string sig = cat(tri ? "Tri" : "XXZ", " structure factor ", R, "x", C, " ", qname<Q>(), " cfg "); for (auto x : c) sig += char('0' + x); Case(hash_str(sig) ^ rng()); Doing(sig);
    TPSWaveFunctionComponent<E, Q> wf(s, config(R, C, c), BMPSTruncateParams<double>::SVD(1, 1000, 0.0)); std::vector<E> v; bool has = false;
    auto go = [&](auto m) { m.SetEnableStructureFactor(true); auto o = m.template EvaluateObservables<E, Q>(&s, &wf); has = o.count("SpSm_cross"); if (has) v = o["SpSm_cross"]; m.SetEnableStructureFactor(false); auto o2 = m.template EvaluateObservables<E, Q>(&s, &wf); Check(!o2.count("SpSm_cross") || o2["SpSm_cross"].empty(), "structure-factor-off", sig); };
    try { if (tri) go(SpinOneHalfTriHeisenbergSqrPEPS()); else go(SquareSpinOneHalfXXZModelOBC(1.0, 0.7, 0.0)); }
    catch (const std::exception &e) { Violation(R > 2 ? "structure-factor-inner-rows" : "structure-factor-throw", cat(sig, " threw: ", e.what())); continue; }
    size_t pairs = 0; for (size_t y = 0; y + 1 < R; ++y) pairs += C * C * (R - 1 - y); if (!Check(has && v.size() == 5 * pairs, "structure-factor-size", sig, " size ", v.size(), " want ", 5 * pairs)) continue;
    size_t at = 0; double sc = mag(psi); std::vector<std::array<size_t, 4>> miss; E missw = 0; for (size_t y1 = 0; y1 + 1 < R; ++y1) for (size_t x1 = 0; x1 < C; ++x1) for (size_t y2 = y1 + 1; y2 < R; ++y2) for (size_t x2 = 0; x2 < C; ++x2, at += 5) {
      Check(mag(v[at] - E(y1)) + mag(v[at + 1] - E(x1)) + mag(v[at + 2] - E(y2)) + mag(v[at + 3] - E(x2)) < 1e-9, "structure-factor-labels", sig, " tuple ", at / 5);
      size_t a = y1 * C + x1, b = y2 * C + x2; E raw = 0; if (c[a] == 0 && c[b] == 1) { V d = c; std::swap(d[a], d[b]); raw = amplitude<E, Q>(s, d); } E rat = cj(raw / psi); sc = std::max(sc, mag(raw)); E got = v[at + 4]; Observe("structure_factor");
      if (mag(got - raw) <= 1e-7 * sc || mag(got - rat) <= 1e-7 * (1 + mag(rat))) continue;
      if (R > 2 && !(y1 + 2 == R)) { miss.push_back({y1, x1, y2, x2}); missw = raw; continue; }
      Violation("structure-factor-value", cat(sig, " (", y1, ",", x1, ")-(", y2, ",", x2, ") got ", got, " want ", raw, " or ratio ", rat)); }
    if (!miss.empty()) Violation("structure-factor-inner-rows", cat(sig, " ", miss.size(), " pairs other than last-but-one row to last row reported wrongly; e.g. (", miss.back()[0], ",", miss.back()[1], ")-(", miss.back()[2], ",", miss.back()[3], ") should be ", missw)); } }
#if PART == 0
SECTION("structure", 1, 4) { structure<double, Triv>(rng, N(40, 400)); structure<Z, Triv>(rng, N(30, 300)); structure<double, U1>(rng, N(30, 300)); }
SECTION("spin_bd", 2, 8) { spins<double, Triv>(rng, N(60, 600)); }
SECTION("spin_bz", 2, 8) { spins<Z, Triv>(rng, N(60, 600)); }
SECTION("spin_ud", 1, 4) { spins<double, U1>(rng, N(60, 600)); }
SECTION("spin_uz", 1, 4) { spins<Z, U1>(rng, N(60, 600)); }
SECTION("ising_open", 1, 4) { ising<double>(rng, N(30, 300), false); ising<Z>(rng, N(30, 300), false); }
SECTION("ising_periodic", 1, 4) { ising<double>(rng, N(15, 150), true); ising<Z>(rng, N(15, 150), true); }
SECTION("periodic_b", 1, 4) { periodic<double, Triv>(rng, N(15, 150), {{2, 2}, {3, 3}}); periodic<Z, Triv>(rng, N(15, 150), {{2, 2}, {3, 3}}); }
SECTION("periodic_u", 1, 4) { periodic<double, U1>(rng, N(15, 150), {{2, 2}}); periodic<Z, U1>(rng, N(15, 150), {{2, 2}}); }
#else
SECTION("pinning", 1, 1) { // pinning fields are validated and removable
  for (uint64_t k = 0; k < N(2000, 20000); ++k) { size_t a = rng.below(4), b = rng.below(4), x = rng.below(4), y = rng.below(4); double d = rng.coin(0.1) ? INFINITY : rng.coin(0.1) ? NAN : rng.uni(-1, 1); bool ok = std::isfinite(d) && (a > x ? a - x : x - a) + (b > y ? b - y : y - b) == 1; Case(hash_str(cat(a, b, x, y, d))); SquaretJNNModel m(1, 0.3, 0.1); bool had = rng.coin(); if (had) m.SetSingletPairPinningField({0, 0}, {0, 1}, 0.2);
    bool th = false; try { m.SetSingletPairPinningField({a, b}, {x, y}, d); } catch (const std::invalid_argument &) { th = true; } Check(th == !ok, "pinning-refusal", a, ",", b, " ", x, ",", y, " delta ", d, th ? " refused" : " accepted"); Check(m.HasSingletPairPinningField() == (ok || had), "pinning-state", "field present = ", m.HasSingletPairPinningField()); m.ClearSingletPairPinningField(); Check(!m.HasSingletPairPinningField(), "pinning-clear", ""); Observe("pinning"); } }
SECTION("fermion_d", 3, 12) { fermions<double>(rng, N(40, 400)); }
SECTION("fermion_z", 3, 12) { fermions<Z>(rng, N(40, 400)); }
#endif
