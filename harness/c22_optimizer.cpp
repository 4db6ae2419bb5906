// C22: optimizer trajectories against an independent flat-vector model of the documented algorithms.
#include "scripted.h"
#include "qlpeps/optimizer/optimizer.h"
#include <filesystem>
using namespace sc; using namespace vh; namespace fs = std::filesystem;
template<class E> using F = std::vector<E>;
template<class E> F<E> axpy(const F<E> &a, double k, const F<E> &b) { F<E> r(a); for (size_t i = 0; i < r.size(); ++i) r[i] += k * b[i]; return r; }
template<class E> F<E> mulk(double k, const F<E> &b) { F<E> r(b); for (auto &x : r) x *= k; return r; }
template<class E> double rdot(const F<E> &a, const F<E> &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::real(cj(a[i]) * b[i]); return s; }
template<class E, class Q> SI<E, Q> shaped(const SI<E, Q> &like, const F<E> &v) { SI<E, Q> s = like; size_t k = 0; for (size_t r = 0; r < s.rows(); ++r) for (size_t c = 0; c < s.cols(); ++c) for (auto &t : s({r, c})) for (auto &x : t.Data_()) x = v[k++]; return s; }
// dense Hermitian solve (A + shift) x = b by Gaussian elimination with pivoting
template<class E> F<E> solve(std::vector<F<E>> A, F<E> b) { size_t n = b.size(); for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t k = i; k < n; ++k) if (mag(A[k][i]) > mag(A[p][i])) p = k; std::swap(A[i], A[p]); std::swap(b[i], b[p]); for (size_t k = i + 1; k < n; ++k) { E f = A[k][i] / A[i][i]; if (f == E(0)) continue; for (size_t j = i; j < n; ++j) A[k][j] -= f * A[i][j]; b[k] -= f * b[i]; } } for (size_t i = n; i-- > 0;) { for (size_t j = i + 1; j < n; ++j) b[i] -= A[i][j] * b[j]; b[i] /= A[i][i]; } return b; }
// pseudo-inverse of a Hermitian matrix applied to b; `odd` is set when an eigenvalue is neither clearly zero nor clearly not
template<class E> F<E> pinv(const std::vector<F<E>> &T, const F<E> &b, bool &odd, double rc, double ac, bool soft) {
  size_t n = b.size(), m = std::is_same_v<E, double> ? n : 2 * n; std::vector<std::vector<double>> A(m, std::vector<double>(m)), V(m, std::vector<double>(m, 0)); std::vector<double> r(m); for (size_t i = 0; i < n; ++i) { r[i] = std::real(b[i]); if (m > n) r[n + i] = std::imag(b[i]); for (size_t k = 0; k < n; ++k) { A[i][k] = std::real(T[i][k]); if (m > n) { A[n + i][n + k] = std::real(T[i][k]); A[n + i][k] = std::imag(T[i][k]); A[i][n + k] = -std::imag(T[i][k]); } } } for (size_t i = 0; i < m; ++i) V[i][i] = 1;
  for (int sweep = 0; sweep < 60; ++sweep) { double off = 0, dg = 0; for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < m; ++k) (i == k ? dg : off) += A[i][k] * A[i][k]; if (off <= 1e-30 * dg) break; for (size_t p = 0; p < m; ++p) for (size_t q = p + 1; q < m; ++q) { if (A[p][q] == 0) continue; double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c; for (size_t k = 0; k < m; ++k) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; } for (size_t k = 0; k < m; ++k) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; x = V[k][p]; y = V[k][q]; V[k][p] = c * x - s * y; V[k][q] = s * x + c * y; } } }
  double top = 0; for (size_t i = 0; i < m; ++i) top = std::max(top, std::abs(A[i][i])); std::vector<double> z(m, 0); for (size_t k = 0; k < m; ++k) { double l = A[k][k] / top, w = 1 / A[k][k], cut = rc + ac / top; if (std::abs(l) < 1e-13) continue; if (cut < 1e-9) { if (l < 1e-5) { odd = true; continue; } } else if (soft) { double q = std::pow(cut / l, 6); w /= 1 + q; } else { if (std::abs(l / cut - 1) < 1e-6) odd = true; if (l <= cut) continue; } double d = 0; for (size_t i = 0; i < m; ++i) d += V[i][k] * r[i]; for (size_t i = 0; i < m; ++i) z[i] += V[i][k] * d * w; } F<E> y(n); for (size_t i = 0; i < n; ++i) { if constexpr (std::is_same_v<E, double>) y[i] = z[i]; else y[i] = E(z[i], z[n + i]); } return y; }
enum Algo { SGD, ADAGRAD, ADAM, LBFGS_F, LBFGS_W, SR, MINSR };
static const char *an[] = {"SGD", "AdaGrad", "Adam", "LBFGS-fixed", "LBFGS-Wolfe", "SR", "MinSR"};
struct Pert { double err = 1, grad = 1, shift = 0, oscale = 1; };
// What the evaluator returns, as a function of the state and of (iteration, call within the iteration).
template<class E> struct Problem {
  F<E> t, mask; std::vector<double> a; uint64_t seed = 0; double err = 0.1, c0 = 0; std::map<std::pair<size_t, size_t>, Pert> pert; int ranks = 1; size_t ns = 0; bool natural = false;
  Pert at(size_t it, size_t j) const { auto p = pert.find({it, j}); return p == pert.end() ? Pert() : p->second; }
  double grid = 0; mutable bool edge = false; double energy(const F<E> &x) const { double s = c0; for (size_t i = 0; i < x.size(); ++i) s += a[i] * std::norm(x[i] - t[i]); if (grid > 0) { double f = s / grid, r = f - std::floor(f); if (r < 1e-5 || r > 1 - 1e-5 || std::abs(f) > 1e9) edge = true; return std::floor(f) * grid; } return s; }
  double trial_error(const F<E> &x) const { return err * (1 + 0.9 * std::sin(7 * std::real(x[0]) + 5 * std::real(x.back()))); }
  double energy_at(const F<E> &x, size_t it, size_t j) const { return energy(x) + at(it, j).shift; }
  double error_at(const F<E> &x, size_t it, size_t j) const { (void) x; return err * at(it, j).err; }
  F<E> ostar(size_t it, size_t j, size_t s) const { Rng r(seed ^ (0x9e37 * (it + 1) + 0x517c * (j + 1) * 31 + 0x27d4 * (s + 1))); F<E> v(t.size()); for (size_t i = 0; i < v.size(); ++i) { v[i] = rnd<E>(r) * mask[i] * at(it, j).oscale; } return v; }
  E eloc(size_t it, size_t j, size_t s) const { Rng r(seed ^ (0xabcd * (it + 1) + 0x1234567 * (j + 1) + 77 * (s + 1))); return rnd<E>(r) * at(it, j).grad; }
  F<E> omean(size_t it, size_t j) const { F<E> m(t.size(), E(0)); for (size_t s = 0; s < ns * ranks; ++s) m = axpy(m, 1.0 / (ns * ranks), ostar(it, j, s)); return m; }
  E emean(size_t it, size_t j) const { E m(0); for (size_t s = 0; s < ns * ranks; ++s) m += eloc(it, j, s) / double(ns * ranks); return m; }
  F<E> grad(const F<E> &x, size_t it, size_t j) const {
    F<E> g(x.size(), E(0)); if (natural) { E em = emean(it, j); for (size_t s = 0; s < ns * ranks; ++s) { auto o = ostar(it, j, s); E w = cj(eloc(it, j, s) - em) / double(ns * ranks); for (size_t i = 0; i < g.size(); ++i) g[i] += w * o[i]; } return g; }
    for (size_t i = 0; i < x.size(); ++i) g[i] = a[i] * (x[i] - t[i]) * mask[i] * at(it, j).grad; return g; }
  std::vector<F<E>> smat(size_t it, size_t j, double shift) const { auto om = omean(it, j); std::vector<F<E>> S(t.size(), F<E>(t.size(), E(0))); for (size_t s = 0; s < ns * ranks; ++s) { auto o = axpy(ostar(it, j, s), -1, om); for (size_t i = 0; i < o.size(); ++i) for (size_t k = 0; k < o.size(); ++k) S[i][k] += o[i] * cj(o[k]) / double(ns * ranks); } for (size_t i = 0; i < t.size(); ++i) S[i][i] += shift; return S; }
  F<E> direction(const F<E> &x, size_t it, size_t j, bool minsr, double shift) const {
    auto g = grad(x, it, j); if (!minsr) return solve(smat(it, j, shift), g);
    // minimum-norm solution in the space spanned by the centred samples, from an eigendecomposition of their Gram matrix
    size_t n = ns * ranks; auto om = omean(it, j); E em = emean(it, j); std::vector<F<E>> o; for (size_t s = 0; s < n; ++s) o.push_back(axpy(ostar(it, j, s), -1, om)); std::vector<F<E>> T(n, F<E>(n)); F<E> eps(n); for (size_t i = 0; i < n; ++i) { for (size_t k = 0; k < n; ++k) { E z(0); for (size_t p = 0; p < t.size(); ++p) z += cj(o[i][p]) * o[k][p]; T[i][k] = z / double(n); } eps[i] = cj(eloc(it, j, i) - em) / double(n); } auto y = pinv(T, eps, singular, rc, ac, soft); F<E> d(t.size(), E(0)); for (size_t i = 0; i < n; ++i) for (size_t p = 0; p < d.size(); ++p) d[p] += y[i] * o[i][p]; return d; }
  mutable bool singular = false; double rc = 1e-11, ac = 0; bool soft = true;
};
struct Cfg {
  Algo algo; size_t max_it, patience; double etol, gtol, lr; double clip_v = 0, clip_n = 0; int sched = 0; SGDParams sgd; AdamParams adam; AdaGradParams ada{1e-8, 0.1}; LBFGSParams lb; double shift = 0.01; bool norm = false; bool soft = true; SpikeRecoveryParams sp; size_t ck = 0; bool init_sel = false, per_sel = false, det = false, eo = false; size_t init_n = 3, per_n = 2; double phase = 0.3; size_t user_stop = size_t(-1); bool jsonl = false; std::vector<double> rates;
  std::unique_ptr<LearningRateScheduler> scheduler() const { switch (sched) { case 1: return std::make_unique<ConstantLR>(lr * 0.7); case 2: return std::make_unique<ExponentialDecayLR>(lr, 0.8, 2); case 3: return std::make_unique<StepLR>(lr, 3, 0.5); case 4: return std::make_unique<PlateauLR>(lr, 0.5, 1, 1e-6); } return nullptr; }
};
template<class E> struct Ema { double al; bool init = false; double m = 0, v = 0; void up(double x) { if (!init) { m = x; v = 0; init = true; return; } double d = x - m; m += al * d; v = (1 - al) * (v + al * d * d); } };
template<class E> struct Out { std::vector<F<E>> main; std::vector<F<E>> states; F<E> fin, low; double fe = 0, me = 0; std::vector<double> en, er, gn, lr, ng; std::vector<char> sel; size_t iters = 0; bool conv = false; size_t resam = 0, roll = 0, forced = 0; std::vector<std::tuple<size_t, size_t, int, int>> ev; std::map<size_t, F<E>> ck; std::vector<size_t> lows; std::vector<size_t> onit; bool amb = false; bool refused = false; bool thrown = false; size_t fallback = 0, wolfe = 0, skipped = 0, ties = 0, late = 0, even = 0; std::string bad; };
// The reference: documented semantics on flat vectors. `alpha` supplies the step lengths the run reported (used for strong-Wolfe only, whose conditions are then checked).
template<class E> Out<E> reference(const Cfg &c, const Problem<E> &p, const F<E> &x0, const std::vector<double> &alpha) {
  Out<E> o; F<E> x = x0, low = x0; double lowE = INFINITY, prevE = 0; size_t since = 0; double base = c.lr; auto sched = c.scheduler(); double al = 2.0 / (c.sp.ema_window + 1.0); Ema<E> ee{al}, er{al}, eg{al}, en{al}; F<E> vel(x0.size(), E(0)), m1(vel), m2(vel), acc(vel), prev; bool has = false; size_t tadam = 0; for (size_t i = 0; i < acc.size(); ++i) acc[i] = c.ada.initial_accumulator_value;
  struct Pair { F<E> s, y; double rho; }; std::deque<Pair> H, Hs; F<E> ax, ag, axs, ags; bool anc = false, ancs = false, snap = false;
  auto over = [&](double v, double thr) { if (p.grid > 0 && v == thr) { ++o.ties; return false; } if (std::abs(v - thr) <= 1e-8 * std::max(std::abs(v), std::abs(thr))) o.amb = true; return v > thr; };
  bool nat = c.algo == SR || c.algo == MINSR, lb = c.algo == LBFGS_F || c.algo == LBFGS_W; bool anysel = c.init_sel || c.per_sel;
  for (size_t it = 0; it < c.max_it; ++it) {
    size_t attempts = 0, j = 0; auto H0 = H; auto ax0 = ax, ag0 = ag; bool anc0 = anc, hist_done = false;
    while (true) {
      if (j > 40) { o.bad = "model does not terminate"; return o; }
      size_t call = j++; o.main.push_back(x); double Ecur = p.energy_at(x, it, call), err = p.error_at(x, it, call); auto g = p.grad(x, it, call); double gn = std::sqrt(norm2(g));
      if (lb && !hist_done) { hist_done = true; if (anc) { auto s = axpy(x, -1, ax), y = axpy(g, -1, ag); double cur = rdot(s, y); auto low_ = [&](double v) { if (std::abs(v - c.lb.min_curvature) <= 1e-9 * (std::abs(v) + 1e-16) || (std::abs(v) > 0 && std::abs(v) < 1e-11)) o.amb = true; return v <= c.lb.min_curvature; }; bool lo = low_(cur); if (lo && c.lb.use_damping) { double yy = rdot(y, y); if (yy > 2.3e-16) { y = axpy(y, (c.lb.min_curvature - cur + 1e-15) / yy, s); cur = rdot(s, y); lo = low_(cur); } } if (!lo) { H.push_back({s, y, 1 / cur}); while (H.size() > c.lb.history_size) H.pop_front(); } else ++o.skipped; } }
      auto decide = [&](int sig) { int act = attempts < c.sp.redo_mc_max_retries ? 1 : (c.sp.enable_rollback && has) ? 2 : 3; o.ev.push_back({it, attempts, sig, act}); if (act == 1) ++o.resam; else if (act == 2) ++o.roll; else ++o.forced; return act; };
      auto apply = [&](int act) { if (act == 2) { x = prev; has = false; if (lb) { if (snap) { H = Hs; ax = axs; ag = ags; anc = ancs; } else { H.clear(); anc = false; } hist_done = false; } attempts = 0; } else { H = H0; ax = ax0; ag = ag0; anc = anc0; hist_done = false; ++attempts; } };
      if (c.sp.enable_auto_recover && it > 0) { int sig = 0; if (er.init && er.m > 0 && over(err, c.sp.factor_err * er.m)) sig = 1; else if (eg.init && eg.m > 0 && over(gn, c.sp.factor_grad * eg.m)) sig = 2; if (sig) { int act = decide(sig); if (act < 3) { apply(act); continue; } } }
      double lr = anysel ? base : sched ? sched->GetLearningRate(it, it == 0 ? Ecur : prevE) : c.lr; auto pg = g; if (c.algo <= ADAM) { if (c.clip_v > 0) for (auto &z : pg) if (mag(z) > c.clip_v) z *= c.clip_v / mag(z); if (c.clip_n > 0) { double n = std::sqrt(norm2(pg)); if (n > c.clip_n) pg = mulk(c.clip_n / n, pg); } }
      F<E> dir; double ngn = 0; if (nat) { dir = p.direction(x, it, call, c.algo == MINSR, c.shift); ngn = std::sqrt(norm2(dir)); if (p.singular) o.amb = true; }
      auto sgd_step = [&](const F<E> &v, double eta) { F<E> nx = x; if (c.sgd.weight_decay > 0) nx = mulk(1 - eta * c.sgd.weight_decay, nx); if (c.sgd.momentum > 0) { auto v2 = axpy(pg, c.sgd.momentum, v); return c.sgd.nesterov ? axpy(nx, -eta, axpy(pg, c.sgd.momentum, v2)) : axpy(nx, -eta, v2); } return axpy(nx, -eta, pg); };
      auto nat_step = [&](double eta) { return axpy(x, -(c.algo == SR && c.norm && ngn > 0 ? eta / ngn : eta), dir); };
      bool isel = c.init_sel && it == 0, psel = c.per_sel && it > 0 && it % c.per_n == 0; if (isel || psel) {
        std::vector<double> cand; if (isel) for (size_t k = 1; k <= c.init_n; ++k) cand.push_back(base * k); else cand = {base, base * 0.5}; std::vector<double> ce, te; for (double eta : cand) { auto tx = c.algo == SGD ? sgd_step(vel, eta) : nat_step(eta); ce.push_back(p.energy(tx)); te.push_back(p.trial_error(tx)); } double pick = cand[0]; if (isel) { double best = ce[0]; for (size_t k = 1; k < ce.size(); ++k) if (over(best, ce[k])) { best = ce[k]; pick = cand[k]; } } else if (double(it) < c.phase * c.max_it) { if (over(ce[0], ce[1])) pick = cand[1]; } else { ++o.late; if (double(it) == c.phase * c.max_it) ++o.even; if (over(ce[0] - ce[1], std::max(te[0], te[1]))) pick = cand[1]; } base = pick; lr = base; }
      F<E> nx; double used = lr;
      if (c.algo == SGD) { nx = sgd_step(vel, lr); if (c.sgd.momentum > 0) vel = axpy(pg, c.sgd.momentum, vel); }
      else if (c.algo == ADAGRAD) { nx = x; for (size_t i = 0; i < x.size(); ++i) { acc[i] += std::norm(pg[i]); double s = std::sqrt(std::real(acc[i])); if (mag(pg[i]) > 0) nx[i] -= lr * pg[i] / s; } }
      else if (c.algo == ADAM) { ++tadam; nx = c.adam.weight_decay > 0 ? mulk(1 - lr * c.adam.weight_decay, x) : x; for (size_t i = 0; i < x.size(); ++i) { m1[i] = c.adam.beta1 * m1[i] + (1 - c.adam.beta1) * pg[i]; m2[i] = c.adam.beta2 * m2[i] + (1 - c.adam.beta2) * std::norm(pg[i]); E mh = m1[i] / (1 - std::pow(c.adam.beta1, tadam)); double vh_ = std::sqrt(std::real(m2[i]) / (1 - std::pow(c.adam.beta2, tadam))); if (vh_ > 0) { if (vh_ < 1e3 * c.adam.epsilon) o.amb = true; nx[i] -= lr * mh / vh_; } } }
      else if (nat) nx = nat_step(lr);
      else { F<E> q = g; std::vector<double> av(H.size()); for (size_t i = H.size(); i-- > 0;) { av[i] = H[i].rho * rdot(H[i].s, q); q = axpy(q, -av[i], H[i].y); } if (!H.empty()) { double yy = rdot(H.back().y, H.back().y), sy = rdot(H.back().s, H.back().y); q = mulk(yy > 2.3e-16 && sy > c.lb.min_curvature ? sy / yy : 1.0, q); for (size_t i = 0; i < H.size(); ++i) q = axpy(q, av[i] - H[i].rho * rdot(H[i].y, q), H[i].s); } F<E> d = mulk(-1, q); if (c.lb.max_direction_norm > 0) { double n = std::sqrt(norm2(d)); if (n > c.lb.max_direction_norm) d = mulk(c.lb.max_direction_norm / n, d); } double d0 = rdot(g, d); if (std::abs(d0) < 1e-12) { o.amb = true; return o; } if (d0 >= 0) { H.clear(); anc = false; snap = false; d = mulk(-1, g); d0 = rdot(g, d); }
        if (c.algo == LBFGS_F) { used = std::max(0.0, lr); nx = axpy(x, used, d); }
        else { if (o.en.size() >= alpha.size()) { o.bad = "strong-Wolfe iteration missing from the reported step sizes"; return o; } used = alpha[o.en.size()]; nx = axpy(x, used, d); double fb = std::max(c.lb.min_step, lr * c.lb.fallback_fixed_step_scale); double ph = p.energy(nx), dp = 0; { F<E> g2(x.size()); for (size_t i = 0; i < x.size(); ++i) g2[i] = p.a[i] * (nx[i] - p.t[i]) * p.mask[i]; dp = rdot(g2, d); } double ph0 = p.energy(x), slack = 1e-9 * (1 + std::abs(ph0)); bool arm = ph <= ph0 + c.lb.wolfe_c1 * used * d0 + slack, cur = std::abs(dp) <= std::max(-c.lb.wolfe_c2 * d0, c.lb.tolerance_grad) * (1 + 1e-7) + slack; if (arm && cur && used > 0 && used <= c.lb.max_step * (1 + 1e-12)) ++o.wolfe; else if (c.lb.allow_fallback_to_fixed_step && std::abs(used - fb) <= 1e-12 * fb) ++o.fallback; else { o.bad = cat("iteration ", it, ": step ", used, " is neither a strong-Wolfe step (E0 ", ph0, " E ", ph, " slope0 ", d0, " slope ", dp, ") nor the fallback ", fb); return o; } } }
      if (nat && c.sp.enable_auto_recover && it > 0) { if (en.init && en.m > 0 && over(ngn, c.sp.factor_ngrad * en.m)) { int act = decide(3); if (act < 3) { apply(act); continue; } } }
      if (c.sp.enable_rollback && it > 0 && ee.init) { double d = Ecur - ee.m, sd = std::sqrt(ee.v); if (d > 0 && sd > 0 && over(d, c.sp.sigma_k * sd)) { if (has) { o.ev.push_back({it, attempts, 4, 2}); ++o.roll; apply(2); continue; } o.ev.push_back({it, attempts, 4, 3}); ++o.forced; } }
      ee.up(Ecur); er.up(err); eg.up(gn); if (nat) en.up(ngn);
      o.en.push_back(Ecur); o.er.push_back(err); o.gn.push_back(gn); o.lr.push_back(used); o.ng.push_back(ngn); o.sel.push_back(isel || psel); o.states.push_back(x); o.iters = it + 1; o.fe = Ecur; bool better = it == 0 || over(lowE, Ecur); if (better) { lowE = Ecur; low = x; since = 0; o.lows.push_back(it); } else ++since;
      bool stop = false; if (it > 0) { if (over(c.gtol, gn)) stop = true; if (over(c.etol, std::abs(Ecur - prevE))) stop = true; if (since >= c.patience) stop = true; } prevE = Ecur; if (stop) { o.onit.push_back(it); o.conv = true; o.fin = x; o.low = low; o.me = lowE; return o; }
      if (c.sp.enable_rollback) { prev = x; has = true; if (lb) { snap = true; Hs = H; axs = ax; ags = ag; ancs = anc; } } if (lb) { ax = x; ag = g; anc = true; } x = nx; o.onit.push_back(it); if (it == c.user_stop) { o.fin = x; o.low = low; o.me = lowE; return o; } if (c.ck && it > 0 && it % c.ck == 0) o.ck[it] = x; break; }
  }
  o.fin = x; o.low = low; o.me = lowE; return o; }
static double field(const std::string &line, const std::string &key, bool &ok) { auto p = line.find("\"" + key + "\":"); if (p == std::string::npos) { ok = false; return 0; } const char *b = line.c_str() + p + key.size() + 3; char *e; double v = std::strtod(b, &e); if (e == b) { if (!std::strncmp(b, "true", 4)) return 1; if (!std::strncmp(b, "false", 5)) return 0; ok = false; } return v; }
template<class E, class Q> void one(Rng &rng, Algo algo) {
  size_t R = 1 + rng.below(2), C = 1 + rng.below(2); SI<E, Q> s0 = SI<E, Q>::FromTPS(random_tps<E, Q>(rng, R, C, BoundaryCondition::Open, 2, phys<Q>(rng, 2), Q(), 0.5)); F<E> x0 = flat(s0, s0); size_t n = x0.size(); Problem<E> p; p.seed = rng(); p.mask.resize(n); bool convex = rng.coin(0.7); double condition = std::pow(10, rng.uni(0, 1.5)); for (size_t i = 0; i < n; ++i) { p.mask[i] = x0[i] == E(0) ? E(0) : E(1); p.t.push_back(rnd<E>(rng) * p.mask[i]); p.a.push_back(std::pow(condition, rng.u01() - 0.5) * (convex || rng.coin(0.7) ? 1 : -1)); } p.err = rng.uni(0.01, 0.2); p.c0 = rng.uni(-5, 5); if (algo >= SR) { p.natural = true; p.ns = 1 + rng.below(4); p.c0 = 0; }
  Cfg c; c.algo = algo; c.max_it = rng.coin(0.05) ? 0 : 1 + rng.below(14); c.patience = rng.coin(0.3) ? 1 + rng.below(4) : 1000; c.etol = rng.coin(0.2) ? rng.uni(0, 0.5) : 0; c.gtol = rng.coin(0.2) ? rng.uni(0, 1.5) : 0; c.lr = std::pow(10, rng.uni(-2.5, -0.3)); p.ranks = rng.coin(0.4) ? 1 : 2 + (int) rng.below(3); if (p.natural && (size_t) p.ns * p.ranks < 2) p.ns = 2;
  if (algo <= ADAM) { if (rng.coin(0.3)) c.clip_v = rng.uni(0.1, 1.5); if (rng.coin(0.3)) c.clip_n = rng.uni(0.3, 3); } else { if (rng.coin(0.2)) c.clip_v = rng.uni(0.01, 0.5); if (rng.coin(0.2)) c.clip_n = rng.uni(0.05, 0.5); }
  c.sgd = SGDParams(rng.coin(0.6) ? rng.uni(0.1, 0.95) : 0, rng.coin(), rng.coin(0.4) ? rng.uni(0.01, 0.5) : 0); c.adam = AdamParams(rng.uni(0.3, 0.95), rng.uni(0.5, 0.9999), 1e-12, rng.coin(0.4) ? rng.uni(0.01, 0.5) : 0); c.ada = AdaGradParams(1e-10, rng.coin() ? 0.0 : rng.uni(0.01, 1)); c.shift = rng.uni(0.05, 0.5); c.norm = rng.coin(0.3); c.soft = rng.coin(); p.soft = c.soft; if (rng.coin(0.4)) { p.rc = rng.coin() ? rng.uni(0.01, 0.6) : 0; p.ac = rng.coin() || p.rc == 0 ? rng.uni(0.05, 1) : 0; }
  c.lb = LBFGSParams(1 + rng.below(6), rng.coin() ? 0 : 1e-5, 1e-12, rng.coin(0.75) ? 200 : 1 + rng.below(4), algo == LBFGS_W ? LBFGSStepMode::kStrongWolfe : LBFGSStepMode::kFixed, rng.coin() ? 1e-4 : rng.uni(0.01, 0.3), rng.coin() ? 0.9 : rng.uni(0.35, 0.8), 1e-8, rng.coin(0.7) ? 100.0 : rng.uni(0.5, 2), 1e-12, rng.coin(), rng.coin(0.7) ? 1e3 : rng.uni(0.2, 2), rng.coin(0.7), rng.uni(0.05, 0.5));
  if (rng.coin(0.3)) c.lb.min_curvature = rng.uni(1e-3, 0.5); if (rng.coin(0.3)) c.lb.min_step = rng.uni(1e-3, 0.3); if (rng.coin(0.15)) c.lb.max_step = c.lb.min_step + rng.uni(0.001, 0.1); if (algo != LBFGS_W && rng.coin(0.25)) p.grid = rng.coin() ? 0.25 : 1; bool spikes = rng.coin(0.5); c.sp.enable_auto_recover = spikes && rng.coin(0.8); c.sp.enable_rollback = spikes && rng.coin(0.5); c.sp.redo_mc_max_retries = rng.below(4); c.sp.factor_err = rng.uni(1.5, 20); c.sp.factor_grad = rng.uni(1.5, 20); c.sp.factor_ngrad = rng.uni(1.5, 10); c.sp.sr_min_iters_suspicious = 0; c.sp.ema_window = 1 + rng.below(60); c.sp.sigma_k = rng.uni(0.5, 10); if (spikes && algo != LBFGS_W) for (size_t k = rng.below(6); k-- > 0;) { size_t it = rng.below(c.max_it + 1), len = 1 + rng.below(6); Pert q; auto draw = [&] { q = Pert(); int kind = (int) rng.below(5); double f = std::pow(10, rng.uni(0, 3)); if (kind == 0) q.err = f; else if (kind == 1) q.grad = f; else if (kind == 2) q.shift = f; else if (kind == 3) q.oscale = 1 / f; else q.err = 0; }; draw(); bool mixed = rng.coin(); for (size_t j = 0; j < len; ++j) { if (mixed && rng.coin()) draw(); p.pert[{it, j}] = q; } }
  if (algo == LBFGS_W) c.sp.enable_auto_recover = c.sp.enable_rollback = false;
  if (rng.coin(0.5)) c.sched = (int) rng.below(spikes ? 4 : 5); bool selok = algo == SGD || algo >= SR; if (selok && rng.coin(0.5)) { c.init_sel = rng.coin(0.6); c.per_sel = !c.init_sel || rng.coin(); c.init_n = 1 + rng.below(4); c.per_n = 1 + rng.below(3); c.phase = rng.u01(); if (rng.coin(0.5)) { c.max_it = rng.coin() ? 4 : 8; c.phase = double(rng.below(c.max_it + 1)) / c.max_it; } for (auto &[k, q] : p.pert) if (q.err == 0) q.err = 1; c.sched = 0; if (c.per_sel && rng.coin(0.7)) { c.lr = rng.uni(0.3, 2.5); p.err = std::pow(10, rng.uni(-2, 1)); c.per_n = 1 + rng.below(2); if (rng.coin(0.7)) { c.patience = 1000; c.etol = c.gtol = 0; p.grid = 0; } if (rng.coin(0.6)) { c.max_it = 8; c.phase = double(2 + rng.below(5)) / 8; } } c.det = rng.coin(); c.eo = rng.coin(0.6); if (!c.eo) { p.pert.clear(); c.sp.enable_auto_recover = c.sp.enable_rollback = false; } }
  if (rng.coin(0.15)) c.user_stop = rng.below(8); c.ck = rng.coin(0.3) ? 1 + rng.below(4) : 0; c.jsonl = rng.coin(0.4); if (rng.coin()) c.rates = {rng.u01(), rng.u01()}; bool stale = rng.coin(0.5); bool twice = c.sched != 4 && rng.coin(0.15);
  std::string sig = cat(an[algo], " ", R, "x", C, " ", qname<Q>(), std::is_same_v<E, double> ? " real" : " complex", " ranks=", p.ranks, " iterations=", c.max_it, spikes ? " spikes" : "", c.init_sel ? " initial-selector" : "", c.per_sel ? " periodic-selector" : "", c.sched ? cat(" sched", c.sched) : "", twice ? " reused" : ""); Case(hash_str(sig) ^ p.seed); Doing(sig);
  OptimizerParams::BaseParams bp(c.max_it, c.etol, c.gtol, c.patience, c.lr, c.scheduler()); if (c.clip_v > 0) bp.clip_value = c.clip_v; if (c.clip_n > 0) bp.clip_norm = c.clip_n; bp.initial_step_selector = {c.init_sel, c.init_n, c.det}; bp.periodic_step_selector = {c.per_sel, c.per_n, c.phase, c.det}; if (c.jsonl) bp.jsonl_log_path = "log/run.jsonl"; StochasticReconfigurationParams srp; srp.cg_params = ConjugateGradientParams{2000, 1e-13, 0.0, 20, 0.5}; srp.diag_shift = c.shift; srp.normalize_update = c.norm; AlgorithmParams ap = algo == SGD ? AlgorithmParams(c.sgd) : algo == ADAGRAD ? AlgorithmParams(c.ada) : algo == ADAM ? AlgorithmParams(c.adam) : algo == SR ? AlgorithmParams(srp) : algo == MINSR ? AlgorithmParams(MinSRParams(p.rc, p.ac, c.soft, rng.coin() ? MinSRSolverMode::kAuto : MinSRSolverMode::kReplicated)) : AlgorithmParams(c.lb); c.sp.log_trigger_csv_path = rng.coin(0.3) ? "spikes.csv" : ""; CheckpointParams cp; cp.every_n_steps = c.ck; if (c.ck) cp.base_path = "ck/a"; OptimizerParams params(bp, ap, cp, c.sp);
  for (auto d : {"log", "ck", "spikes.csv"}) fs::remove_all(d);
  auto body = [&](int rank, std::ostream &os) { Optimizer<E, Q> opt(params, MPI_COMM_WORLD, rank, p.ranks);
    for (int pass = 0; pass < (twice ? 2 : 1); ++pass) { size_t it = 0, calls = 0, total = 0; std::vector<F<E>> seen; std::vector<size_t> onit; std::vector<double> cbE; std::vector<double> lows; F<E> lastlow; std::vector<SI<E, Q>> os_samples; SI<E, Q> os_mean; std::vector<E> es; std::string trouble;
      auto sync = [&](const SI<E, Q> &st) { F<E> v(n, E(0)); if (rank == 0) v = flat(st, s0); ::MPI_Bcast(v.data(), (int) (n * sizeof(E) / sizeof(double)), MPI_DOUBLE, 0, MPI_COMM_WORLD); return v; };
      auto ev = [&](const SI<E, Q> &st) -> std::tuple<E, SI<E, Q>, double> { if (++total > 4000) { std::cerr << "runaway evaluator calls\n"; throw std::logic_error("runaway"); } auto v = sync(st); size_t j = calls++; bool trial = (!c.eo && (c.init_sel || c.per_sel) && j > 0) || (algo == LBFGS_W && j > 0); size_t jj = trial ? (algo == LBFGS_W ? 0 : 1000 + j) : j; if (!trial) seen.push_back(v); double e = trial ? p.energy(v) : p.energy_at(v, it, jj); auto g = p.grad(v, it, jj); opt.SetCurrentAcceptRates(c.rates); if (p.natural) { os_samples.clear(); es.clear(); for (size_t k = 0; k < p.ns; ++k) { os_samples.push_back(shaped(s0, p.ostar(it, jj, rank * p.ns + k))); es.push_back(p.eloc(it, jj, rank * p.ns + k)); } os_mean = rank == 0 ? shaped(s0, p.omean(it, jj)) : SI<E, Q>(); }
        SI<E, Q> gr; if (rank == 0) gr = shaped(s0, g); else gr = stale ? shaped(s0, F<E>(n, E(7))) : SI<E, Q>(R, C, size_t(2)); return {E(e), gr, rank == 0 ? (trial ? p.trial_error(v) : p.error_at(v, it, jj)) : (stale ? 1e9 : 0.0)}; };
      // the MinSR direction is centred by the mean energy it is given
      auto ev2 = [&](const SI<E, Q> &st) -> std::tuple<E, SI<E, Q>, double> { return ev(st); };
      std::function<std::pair<double, double>(const SI<E, Q> &)> eo; if (c.eo) eo = [&](const SI<E, Q> &st) { auto v = sync(st); return std::pair<double, double>(p.energy(v), rank == 0 ? p.trial_error(v) : 0.0); };
      typename Optimizer<E, Q>::OptimizationCallback cb; cb.on_iteration = [&](size_t i, double e, double, double) { onit.push_back(i); cbE.push_back(e); ++it; calls = 0; }; cb.on_lowest_state_found = [&](const SI<E, Q> &st, double e) { lows.push_back(e); if (rank == 0) lastlow = flat(st, s0); }; if (c.user_stop != size_t(-1)) cb.should_stop = [&](size_t i, double, double) { return i == c.user_stop; };
      SI<E, Q> init = rank == 0 || !stale ? s0 : shaped(s0, F<E>(n, E(3))); int code = 0; typename Optimizer<E, Q>::OptimizationResult res; std::string what;
      try { res = opt.IterativeOptimize(init, ev2, cb, p.natural ? &os_samples : nullptr, p.natural ? &os_mean : nullptr, p.natural ? &es : nullptr, eo); } catch (const std::invalid_argument &e) { code = 1; what = e.what(); } catch (const std::runtime_error &e) { code = 2; what = e.what(); }
      mp::put(os, code); mp::put(os, what); mp::put(os, seen.size()); for (auto &v : seen) putv(os, v); putv(os, onit); putv(os, cbE); putv(os, lows); putv(os, lastlow); if (code) continue;
      putv(os, rank == 0 ? flat(res.optimized_state, s0) : F<E>()); putv(os, rank == 0 ? flat(res.lowest_state, s0) : F<E>()); mp::put(os, res.final_energy); mp::put(os, res.min_energy); putv(os, res.energy_trajectory); putv(os, res.energy_error_trajectory); putv(os, res.gradient_norms); putv(os, res.learning_rate_trajectory); mp::put(os, res.total_iterations); mp::put(os, (int) res.converged); mp::put(os, res.spike_stats.total_resamples); mp::put(os, res.spike_stats.total_rollbacks); mp::put(os, res.spike_stats.total_forced_accepts); mp::put(os, res.spike_stats.event_log.size()); for (auto &e : res.spike_stats.event_log) { mp::put(os, e.step); mp::put(os, e.attempt); mp::put(os, (int) e.signal); mp::put(os, (int) e.action); } mp::put(os, opt.GetSpikeStats().event_log.size()); } };
  auto r = vmpi::Run(mp::Opt(rng, p.ranks), body); Observe("mpi_events", r.events);
  // step sizes reported by the run (needed for the strong-Wolfe reference only)
  auto parse = [&](const std::string &s, int pass, auto &&f) { mp::In in(s); for (int k = 0; k <= pass; ++k) { int code = in.get<int>(); std::string what = in.str(); size_t m = in.get<size_t>(); std::vector<F<E>> seen; for (size_t i = 0; i < m && !in.bad; ++i) seen.push_back(getv<E>(in)); auto onit = getv<size_t>(in); auto cbE = getv<double>(in); auto lows = getv<double>(in); auto ll = getv<E>(in); F<E> fin, low; double fe = 0, me = 0; std::vector<E> en; std::vector<double> er, gn, lr; size_t iters = 0, a = 0, b = 0, d = 0, ne = 0, left = 0; int conv = 0; std::vector<std::tuple<size_t, size_t, int, int>> evs; if (!code) { fin = getv<E>(in); low = getv<E>(in); fe = in.get<double>(); me = in.get<double>(); en = getv<E>(in); er = getv<double>(in); gn = getv<double>(in); lr = getv<double>(in); iters = in.get<size_t>(); conv = in.get<int>(); a = in.get<size_t>(); b = in.get<size_t>(); d = in.get<size_t>(); ne = in.get<size_t>(); for (size_t i = 0; i < ne && !in.bad; ++i) { size_t p1 = in.get<size_t>(), p2 = in.get<size_t>(); int p3 = in.get<int>(), p4 = in.get<int>(); evs.push_back({p1, p2, p3, p4}); } left = in.get<size_t>(); } if (k == pass) f(in.bad, code, what, seen, onit, cbE, lows, ll, fin, low, fe, me, en, er, gn, lr, iters, conv, a, b, d, evs, left); } };
  if (!mp::Clean(r, sig)) return; std::vector<double> alpha; if (algo == LBFGS_W && !r.out.empty()) parse(r.out[0], 0, [&](bool, int, const std::string &, auto &, auto &, auto &, auto &, auto &, auto &, auto &, double, double, auto &, auto &, auto &, std::vector<double> &lr, auto...) { alpha = lr; });
  int code0 = 0; std::string what0; parse(r.out[0], 0, [&](bool, int code, const std::string &w, auto &&...) { code0 = code; what0 = w; });
  if (algo == LBFGS_W && code0 == 2) { Check(!c.lb.allow_fallback_to_fixed_step, "line-search-refused", sig, " threw although the fixed-step fallback is allowed: ", what0); bool must = convex && c.lb.min_curvature < 1e-6 && c.lb.max_eval > 100 && c.lb.max_step > 50 && c.lb.max_direction_norm > 100 && c.lb.tolerance_grad >= 0; if (must) { bool tiny = false; double gnow = 0; size_t nseen = 0; /* near a stationary point rounding may defeat the search */ parse(r.out[0], 0, [&](bool, int, const std::string &, std::vector<F<E>> &seen, auto &&...) { if (!seen.empty()) { auto g = p.grad(seen.back(), 0, 0); gnow = std::sqrt(norm2(g)); nseen = seen.size(); tiny = gnow < 1e-5; } }); if (!tiny) Check(false, "line-search-failed", sig, " no strong-Wolfe step found on a convex quadratic with ", c.lb.max_eval, " evaluations", ", gradient ", gnow, " iteration ", nseen, " c1 ", c.lb.wolfe_c1, " c2 ", c.lb.wolfe_c2, " min_step ", c.lb.min_step, " energy ", p.energy(x0)); } Observe("opt_wolfe_throw"); return; }
  if (!Check(code0 == 0, "unexpected-exception", sig, " ", what0)) return;
  Out<E> o = reference<E>(c, p, x0, alpha); if (o.amb || p.edge) { Observe("opt_ambiguous"); return; } if (o.ties) Observe("opt_energy_ties", o.ties); if (o.late) Observe("opt_late_selector", o.late); if (o.even) Observe("opt_phase_boundary", o.even); if (!Check(o.bad.empty(), "step-length", sig, " ", o.bad)) return; Observe(cat("opt_", an[algo])); Observe("opt_iterations", o.iters); if (o.wolfe) Observe("opt_wolfe", o.wolfe); if (o.fallback) Observe("opt_fallback", o.fallback); for (auto &e : o.ev) Observe(cat("spike_S", std::get<2>(e), "_", std::get<3>(e))); if (o.conv) Observe("opt_converged"); for (auto x : o.sel) if (x) Observe("opt_selector");
  auto close = [](double a, double b) { return std::abs(a - b) <= 1e-6 * (1 + std::abs(a) + std::abs(b)) || a == b; }; double big = 1; for (auto &v : o.main) for (auto &z : v) big = std::max(big, mag(z)); for (auto &z : o.fin) big = std::max(big, mag(z)); if (!(big < 1e8)) { Observe("opt_diverged"); return; } double tol = (algo >= SR ? 1e-5 : 1e-7) * big;
  for (int pass = 0; pass < (twice ? 2 : 1); ++pass) for (int k = 0; k < p.ranks; ++k) parse(r.out[k], pass, [&](bool bad, int code, const std::string &what, std::vector<F<E>> &seen, std::vector<size_t> &onit, std::vector<double> &cbE, std::vector<double> &lows, F<E> &ll, F<E> &fin, F<E> &low, double fe, double me, std::vector<E> &en, std::vector<double> &er, std::vector<double> &gn, std::vector<double> &lr, size_t iters, int conv, size_t ra, size_t rb, size_t rf, auto &evs, size_t left) {
    std::string w = cat(sig, " rank ", k, pass ? " second run" : ""); if (!Check(!bad && code == 0, "unexpected-exception", w, " ", what)) return;
    if (!Check(seen.size() == o.main.size(), "evaluations", w, ": ", seen.size(), " evaluations of the current state, expected ", o.main.size())) return; for (size_t i = 0; i < seen.size(); ++i) if (!Check(linf(seen[i], o.main[i]) <= tol, "trajectory", w, " evaluation ", i, " off by ", linf(seen[i], o.main[i]))) return; Observe("opt_states", seen.size());
    Check(iters == o.iters, "iteration-count", w, " ", iters, " expected ", o.iters); bool eok = en.size() == o.en.size(); for (size_t i = 0; eok && i < en.size(); ++i) eok = close(std::real(en[i]), o.en[i]); Check(eok, "energy-trajectory", w); bool lok = lr.size() == o.lr.size(); for (size_t i = 0; lok && i < lr.size(); ++i) lok = std::abs(lr[i] - o.lr[i]) <= 1e-9 * (1e-30 + std::abs(o.lr[i])); Check(lok, "learning-rates", w, " got ", vec2s(lr), " expected ", vec2s(o.lr)); Check(onit == o.onit, "iteration-callbacks", w); for (size_t i = 0; i < cbE.size() && i < o.en.size(); ++i) Check(close(cbE[i], o.en[i]), "callback-energy", w); Check(lows.size() == o.lows.size(), "lowest-callbacks", w, " ", lows.size(), " expected ", o.lows.size()); if (o.iters) { Check(close(fe, o.fe) && close(me, o.me), "final-energies", w, " final ", fe, " min ", me, " expected ", o.fe, " ", o.me); }
    if (k) return; Check(linf(fin, o.fin) <= tol, "final-state", w, " off by ", linf(fin, o.fin)); Check(linf(low, o.low) <= tol && (lows.empty() || linf(ll, o.low) <= tol), "lowest-state", w, " off by ", linf(low, o.low)); bool sok = er.size() == o.er.size() && gn.size() == o.gn.size(); for (size_t i = 0; sok && i < er.size(); ++i) sok = close(er[i], o.er[i]) && close(gn[i], o.gn[i]); Check(sok, "error-and-gradient-trajectory", w); Check(conv == (int) o.conv, "converged-flag", w); Check(ra == o.resam && rb == o.roll && rf == o.forced && evs == o.ev && left == 0, "spike-statistics", w, " resamples ", ra, "/", o.resam, " rollbacks ", rb, "/", o.roll, " forced ", rf, "/", o.forced, " left over ", left); });
  if (c.jsonl) { std::ifstream f("log/run.jsonl"); std::vector<std::string> ls; for (std::string l; std::getline(f, l);) ls.push_back(l); size_t passes = twice ? 2 : 1; if (Check(ls.size() == o.iters * passes, "log-lines", sig, " ", ls.size(), " log records for ", o.iters * passes, " iterations")) for (size_t i = 0; i < ls.size(); ++i) { size_t q = i % o.iters; bool ok = true; double it = field(ls[i], "iter", ok), e = field(ls[i], "energy", ok), er = field(ls[i], "energy_error", ok), g = field(ls[i], "grad_norm", ok), l = field(ls[i], "lr", ok), st = field(ls[i], "selector_triggered", ok), se = field(ls[i], "selected_eta", ok), ng = field(ls[i], "sr_ngrad_norm", ok); auto c6 = [](double a, double b) { return std::abs(a - b) <= 2e-5 * std::abs(b) + 1e-12; }; Check(ok && ls[i].front() == '{' && ls[i].back() == '}' && it == q && close(e, o.en[q]) && c6(er, o.er[q]) && c6(g, o.gn[q]) && c6(l, o.lr[q]) && st == o.sel[q] && c6(se, o.sel[q] ? o.lr[q] : 0) && c6(ng, o.ng[q]), "log-record", sig, " ", ls[i]); } Observe("opt_log", ls.size()); }
  if (c.ck) { std::set<std::string> want, got; for (auto &[k, v] : o.ck) want.insert(cat("step_", k)); if (fs::exists("ck/a")) for (auto &e : fs::directory_iterator("ck/a")) if (e.is_directory()) got.insert(e.path().filename()); if (Check(got == want, "checkpoints", sig, " ", got.size(), " checkpoints, expected ", want.size())) for (auto &[k, v] : o.ck) { SI<E, Q> l(R, C); std::string d = cat("ck/a/step_", k); bool ok = l.Load(d); Check(ok && linf(flat(l, s0), v) <= tol, "checkpoint-state", sig, " step ", k); std::ifstream f(d + "/trajectory_snapshot.csv"); std::string line; std::getline(f, line); size_t row = 0; bool cok = true; for (; std::getline(f, line); ++row) { double a, b, e; cok = cok && std::sscanf(line.c_str(), "%lf,%lf,%lf", &a, &b, &e) == 3 && a == row && row < o.en.size() && close(b, o.en[row]) && close(e, o.er[row]); } Check(cok && row == k + 1, "checkpoint-trajectory", sig, " step ", k, " has ", row, " rows"); Observe("opt_checkpoint"); } }
  if (!c.sp.log_trigger_csv_path.empty()) { std::ifstream f("spikes.csv"); size_t rows = 0; for (std::string l; std::getline(f, l);) ++rows; Check(rows == (o.ev.empty() ? 0 : o.ev.size() + 1), "spike-log", sig, " ", rows, " lines for ", o.ev.size(), " events"); Observe("opt_spike_csv"); }
  if (rng.coin(0.01)) Sample(sig);
}
template<class E, class Q> void many(Rng &rng, std::vector<Algo> al, uint64_t cases) { for (uint64_t i = 0; i < cases; ++i) one<E, Q>(rng, al[i % al.size()]); }
SECTION("first", 3, 16) { many<double, Triv>(rng, {SGD, ADAGRAD, ADAM}, N(200, 1500)); many<Z, Triv>(rng, {SGD, ADAGRAD, ADAM}, N(150, 1000)); many<Z, U1>(rng, {SGD, ADAGRAD, ADAM}, N(60, 400)); }
SECTION("lbfgs", 2, 8) { many<double, Triv>(rng, {LBFGS_F, LBFGS_W}, N(150, 1000)); many<Z, U1>(rng, {LBFGS_F, LBFGS_W}, N(100, 700)); }
SECTION("natural", 3, 16) { many<double, Triv>(rng, {SR, MINSR}, N(60, 400)); many<Z, Triv>(rng, {SR, MINSR}, N(60, 300)); }
// configurations the optimizer must refuse, identically on every rank and before touching anything
SECTION("refuse", 1, 2) {
  for (uint64_t i = 0; i < N(150, 1000); ++i) { int kind = (int) rng.below(8); int ranks = 1 + (int) rng.below(3); auto s0 = SI<double, Triv>::FromTPS(random_tps<double, Triv>(rng, 1, 2, BoundaryCondition::Open, 2, phys<Triv>(rng, 2), Triv(), 0.5)); OptimizerParams::BaseParams bp(4, 0, 0, 100, 0.1, kind == 1 ? std::make_unique<ConstantLR>(0.1) : nullptr); AlgorithmParams ap = SGDParams(); bool eval_ok = false; double err = 0.1; bool initial = rng.coin();
    if (initial) bp.initial_step_selector = {true, 3, false}; else bp.periodic_step_selector = {true, 1, 0.3, false}; std::string why;
    switch (kind) { case 0: ap = rng.coin() ? AlgorithmParams(AdamParams()) : rng.coin() ? AlgorithmParams(AdaGradParams(1e-8, 0.1)) : AlgorithmParams(LBFGSParams()); why = "selector with unsupported algorithm"; break; case 1: why = "selector with scheduler"; break; case 2: bp.initial_step_selector = {true, 0, true}; why = "zero line-search steps"; break; case 3: bp.periodic_step_selector = {true, 0, 0.3, true}; why = "zero period"; break; case 4: bp.periodic_step_selector = {true, 2, rng.coin() ? -0.1 : 1.1, true}; why = "phase ratio outside [0,1]"; break; case 5: bp.learning_rate = rng.coin() ? 0.0 : -0.1; why = "non-positive learning rate"; break; case 6: err = 0; eval_ok = true; why = "selector without error bars"; break; case 7: bp.initial_step_selector = {}; bp.periodic_step_selector = {}; ap = rng.coin() ? AlgorithmParams(StochasticReconfigurationParams{}) : AlgorithmParams(MinSRParams()); eval_ok = true; why = "natural gradient without samples"; break; }
    OptimizerParams params(bp, ap); params.spike_recovery_params.enable_auto_recover = false; std::string sig = cat(why, initial ? " (initial)" : " (periodic)", " ranks=", ranks); Case(hash_str(sig)); Doing(sig);
    auto r = vmpi::Run(mp::Opt(rng, ranks), [&](int rank, std::ostream &os) { Optimizer<double, Triv> opt(params, MPI_COMM_WORLD, rank, ranks); size_t calls = 0; int code = 0; try { opt.IterativeOptimize(s0, [&](const SI<double, Triv> &s) -> std::tuple<double, SI<double, Triv>, double> { ++calls; return {1.0, s, rank == 0 ? err : 0.0}; }); } catch (const std::invalid_argument &) { code = 1; } catch (const std::exception &) { code = 2; } mp::put(os, code); mp::put(os, calls); });
    if (!mp::Clean(r, sig)) continue; for (int k = 0; k < ranks; ++k) { mp::In in(r.out[k]); int code = in.get<int>(); size_t calls = in.get<size_t>(); Check(code == 1 && (eval_ok || calls == 0), "bad-parameters-accepted", sig, " rank ", k, code == 0 ? " accepted" : code == 2 ? " other exception" : "", " after ", calls, " evaluations"); Observe("opt_refusal"); } } }
