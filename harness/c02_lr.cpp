// Learning-rate schedulers: documented formula for every (parameters, iteration, history); clones continue the history.
#include "vh.h"
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;
using LRS = LearningRateScheduler;

struct PlateauRef {
  double lr, factor; size_t patience; double thr, best = std::numeric_limits<double>::max(); size_t bad = 0;
  double step(double e) {
    if (e < best - thr) { best = e; bad = 0; }
    else if (++bad >= patience) { lr *= factor; bad = 0; best = e; }
    return lr;
  }
};
static double rlr(vh::Rng &r) { return std::pow(10.0, r.uni(-6, 1)); }
static size_t riter(vh::Rng &r) {
  switch (r.below(6)) { case 5: return r.coin() ? (size_t) 2147483640 + r.below(16) : (size_t) 4294967290ULL + r.below(1ULL << (1 + r.below(40))); case 0: return r.below(4); case 1: return r.below(50); case 2: return r.below(5000); case 3: return 1000000 + r.below(1000000); default: return r.below(500); }
}
static bool num_in(const std::string &text, double want) {  // Describe() must carry the parameter at full precision
  for (size_t i = 0; i < text.size();) {
    const char *b = text.c_str() + i; char *e;
    double v = std::strtod(b, &e);
    if (e != b && (v == want)) return true;
    i += (e != b) ? (e - b) : 1;
  }
  return false;
}
// exact integer power, by repeated multiplication in long double
static long double ipow(long double b, size_t k) { long double r = 1; while (k) { if (k & 1) r *= b; b *= b; k >>= 1; } return r; }

struct Gen { std::unique_ptr<LRS> s; std::function<long double(size_t)> ref; std::string desc; std::vector<double> params; std::string name; std::vector<size_t> hot; };
static Gen make(vh::Rng &r) {
  Gen g;
  switch (r.below(6)) {
    case 0: { double lr = rlr(r); g.s = std::make_unique<ConstantLR>(lr); g.ref = [=](size_t) { return (long double) lr; }; g.desc = vh::cat("Constant ", lr); g.params = {lr}; g.name = "ConstantLR"; break; }
    case 1: { double lr = rlr(r), d = r.uni(.01, 1.0); size_t k = 1 + r.below(r.coin() ? 5 : 300); g.s = std::make_unique<ExponentialDecayLR>(lr, d, k);
      g.ref = [=](size_t i) { return (long double) lr * std::exp(std::log((long double) d) * (long double) i / (long double) k); };
      g.desc = vh::cat("ExpDecay ", lr, " ", d, " ", k); g.params = {lr, d, (double) k}; g.name = "ExponentialDecayLR"; g.hot = {k - 1, k, k + 1, 2 * k}; break; }
    case 2: { double lr = rlr(r), ga = r.coin(.3) ? .1 : r.uni(.05, 1.0); size_t k = 1 + r.below(r.coin() ? 5 : 300); g.s = r.coin(.2) ? std::make_unique<StepLR>(lr, k) : std::make_unique<StepLR>(lr, k, ga); if (g.s->Describe() == StepLR(lr, k, .1).Describe()) ga = .1;
      g.ref = [=](size_t i) { return (long double) lr * ipow(ga, i / k); }; g.desc = vh::cat("Step ", lr, " ", k, " ", ga); g.params = {lr, (double) k, ga}; g.name = "StepLR"; g.hot = {k - 1, k, k + 1, 2 * k - 1, 2 * k, 7 * k}; break; }
    case 3: { double mx = rlr(r), mn = r.coin() ? 0. : mx * (r.coin(.15) ? r.uni(1, 4) : r.u01()); size_t T = r.below(r.coin() ? 4 : 400); g.s = std::make_unique<CosineAnnealingLR>(mx, T, mn);
      g.ref = [=](size_t i) { if (T == 0) return (long double) mn; long double t = std::min(i, T); return mn + 0.5L * ((long double) mx - mn) * (1 + std::cos(3.141592653589793238462643L * t / T)); };
      g.desc = vh::cat("Cosine ", mx, " ", T, " ", mn); g.params = {mx, (double) T, mn}; g.name = "CosineAnnealingLR"; g.hot = {0, T / 2, T ? T - 1 : 0, T, T + 1, 2 * T}; break; }
    case 4: { double lr = rlr(r), s0 = r.coin() ? 0. : lr * (r.coin(.3) ? r.uni(1, 8) : r.u01()); size_t W = r.below(r.coin() ? 4 : 300); g.s = std::make_unique<WarmupLR>(lr, W, s0);
      g.ref = [=](size_t i) { if (i >= W) return (long double) lr; return s0 + ((long double) lr - s0) * (long double) (i + 1) / (long double) W; };
      g.desc = vh::cat("Warmup ", lr, " ", W, " ", s0); g.params = {lr, (double) W, s0}; g.name = "WarmupLR"; g.hot = {0, W ? W - 1 : 0, W, W + 1}; break; }
    default: { double lr = rlr(r), ga = r.uni(.05, 1.0); std::vector<size_t> ms; size_t n = r.below(6); for (size_t i = 0; i < n; ++i) ms.push_back(r.below(r.coin() ? 10 : 500)); if (n > 1 && r.coin(.3)) ms[1] = ms[0];
      g.s = std::make_unique<MultiStepLR>(lr, ms, ga); g.ref = [=](size_t i) { size_t k = 0; for (auto m : ms) k += m <= i; return (long double) lr * ipow(ga, k); };
      g.desc = vh::cat("MultiStep ", lr, " ", vh::vec2s(ms), " ", ga); g.params = {lr, ga}; for (auto m : ms) g.params.push_back((double) m); g.name = "MultiStepLR"; for (auto m : ms) { g.hot.push_back(m); g.hot.push_back(m + 1); if (m) g.hot.push_back(m - 1); } }
  }
  return g;
}
SECTION("closed-form", 2, 8) {
  for (uint64_t n = 0; n < vh::N(6000, 100000); ++n) {
    Gen g = make(rng);
    vh::Doing(g.desc);
    std::string d = g.s->Describe();
    vh::Check(g.s->Name() == g.name, "lr:name", g.desc, " ", g.s->Name());
    for (double p : g.params) vh::Check(num_in(d, p), "lr:describe", g.desc, " description '", d, "' lost ", p);
    auto cl = g.s->Clone();
    vh::Check(cl && cl->Describe() == d && cl->Name() == g.s->Name(), "lr:clone-describe", g.desc);
    std::vector<size_t> its = g.hot;
    for (int k = 0; k < 8; ++k) its.push_back(riter(rng));
    std::shuffle(its.begin(), its.end(), rng);
    bool midclone = false;
    std::unique_ptr<LRS> mc;
    for (size_t i : its) {
      double e = rng.uni(-10, 10);
      if (rng.coin(.3)) { g.s->Step(); cl->Step(); }
      double a = g.s->GetLearningRate(i, e), b = cl->GetLearningRate(i, rng.uni(-10, 10));
      double want = (double) g.ref(i);
      vh::Check(vh::close(a, want, 1e-9, 1e-300), "lr:formula:" + g.name, g.desc, " it=", i, " got ", a, " want ", want);
      vh::Check(vh::close(b, want, 1e-9, 1e-300), "lr:clone-formula:" + g.name, g.desc, " it=", i, " got ", b, " want ", want);
      vh::Observe("lr_value");
      if (!midclone && rng.coin(.3)) { mc = g.s->Clone(); midclone = true; }
      if (mc) vh::Check(vh::close(mc->GetLearningRate(i, e), want, 1e-9, 1e-300), "lr:midclone:" + g.name, g.desc, " it=", i);
      vh::Check(std::isfinite(a) && a >= 0, "lr:negative", g.desc, " it=", i, " ", a);
    }
    vh::Check(g.s->Describe() == d, "lr:describe-changed", g.desc);
    vh::Case(vh::hash_str(g.desc));
    if (n < 3) vh::Sample(g.desc + " iterations " + vh::vec2s(its));
  }
}
SECTION("plateau-history", 2, 8) {
  for (uint64_t n = 0; n < vh::N(3000, 60000); ++n) {
    double lr = rlr(rng), f = rng.uni(.05, .95), thr = rng.coin(.3) ? 0. : std::pow(10., rng.uni(-8, 0)); size_t pat = 1 + rng.below(12);
    bool dflt = rng.coin(.1); if (dflt) { f = .5; pat = 10; thr = 1e-4; }
    auto s = dflt ? std::make_unique<PlateauLR>(lr) : std::make_unique<PlateauLR>(lr, f, pat, thr);
    std::string desc = vh::cat("Plateau lr=", lr, " f=", f, " pat=", pat, " thr=", thr);
    for (double p : {lr, f, (double) pat, thr}) vh::Check(num_in(s->Describe(), p), "lr:describe", desc, " '", s->Describe(), "' lost ", p);
    struct Lane { std::unique_ptr<LRS> s; PlateauRef r; };
    std::vector<Lane> lanes;
    lanes.push_back({std::move(s), PlateauRef{lr, f, pat, thr}});
    size_t len = 5 + rng.below(80);
    double e = rng.uni(-5, 5); uint64_t sig = vh::hash_str(desc);
    int mode = rng.below(4);
    size_t drops = 0;
    for (size_t i = 0; i < len; ++i) {
      if (lanes.size() < 4 && rng.coin(.1)) { size_t k = rng.below(lanes.size()); auto c = lanes[k].s->Clone(); auto r = lanes[k].r; lanes.push_back({std::move(c), r}); vh::Observe("plateau_midrun_clone"); }
      for (auto &L : lanes) {
        switch (mode) { case 0: e += rng.uni(-.5, .2); break; case 1: e = rng.uni(-5, 5); break; case 2: e -= rng.coin(.3) ? thr * rng.uni(0, 2.5) : 0; break; default: e = std::ldexp(std::round(std::ldexp(e + rng.uni(-1, 1), 2)), -2); }
        double before = L.r.lr, want = L.r.step(e);
        drops += want != before;
        double got = L.s->GetLearningRate(i, e);
        vh::Check(vh::close(got, want, 1e-12), "lr:plateau", desc, " step ", i, " e=", e, " got ", got, " want ", want);
        L.s->Step();
        vh::Observe("plateau_step");
        sig = vh::mix(sig ^ (uint64_t) (want != before) * 77 ^ i);
      }
    }
    vh::Observe("plateau_lr_drops", drops);
    vh::Case(sig);
    if (n < 2) vh::Sample(vh::cat(desc, " length ", len, " drops ", drops, " lanes ", lanes.size()));
  }
}
