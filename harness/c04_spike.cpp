// EMA tracker used by spike detection: closed form, invariances, never NaN / negative variance; names are distinct.
#include "vh.h"
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;
struct Ref {  // long double recursion straight from the documented algorithm
  long double a, m = 0, v = 0; bool init = false;
  explicit Ref(size_t w) : a(2.0L / ((long double) w + 1.0L)) {}
  void up(double x) { if (!init) { m = x; v = 0; init = true; return; } long double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); }
};
static double sample(vh::Rng &r, int kind, double scale, double off, size_t t) {
  switch (kind) { case 0: return off + scale * r.gauss(); case 1: return off; case 2: return (r.coin(.05) ? 1e8 : 1.) * scale * r.u01();
    case 3: return off + scale * (double) t; case 4: return scale * std::pow(10., r.uni(-6, 6)) * (r.coin() ? 1 : -1); default: return (t % 2 ? 1 : -1) * scale + off; }
}
SECTION("ema", 4, 8) {
  for (uint64_t c = 0; c < vh::N(4000, 60000); ++c) {
    size_t w; switch (rng.below(4)) { case 0: w = rng.below(3); break; case 1: w = 50; break; case 2: w = 1 + rng.below(20); break; default: w = 1 + rng.below(5000); }
    double scale = std::pow(10., rng.uni(-9, 9)), off = rng.coin() ? 0 : rng.uni(-100, 100) * scale; int kind = (int) rng.below(6);
    EMATracker t = (w == 50 && rng.coin()) ? EMATracker() : EMATracker(w); Ref r(w);
    vh::Doing(vh::cat("window ", w, " kind ", kind, " scale ", scale));
    vh::Check(!t.IsInitialized(), "ema:initialized-early", "window ", w);
    size_t L = 1 + rng.below(120); std::vector<double> xs;
    double lo = 1e300, hi = -1e300, amax = 0; bool used_copy = false; EMATracker copy = t; size_t copied_at = ~0ull;
    for (size_t i = 0; i < L; ++i) {
      if (rng.coin(.01) && i) { t.Reset(); r = Ref(w); lo = 1e300; hi = -1e300; amax = 0; used_copy = false; vh::Check(!t.IsInitialized(), "ema:reset", "still initialized"); { EMATracker fresh(w); vh::Check(t.Mean() == fresh.Mean() && t.Var() == fresh.Var() && t.Std() == fresh.Std(), "ema:reset", "values differ from a new tracker: mean ", t.Mean(), " var ", t.Var()); } vh::Observe("ema_reset"); }
      if (!used_copy && rng.coin(.1)) { copy = t; used_copy = true; copied_at = i; }
      double x = sample(rng, kind, scale, off, i); xs.push_back(x); lo = std::min(lo, x); hi = std::max(hi, x); amax = std::max(amax, std::abs(x));
      t.Update(x); r.up(x); if (used_copy) copy.Update(x);
      double m = t.Mean(), v = t.Var(), s = t.Std();
      vh::Check(t.IsInitialized(), "ema:not-initialized", "after update");
      vh::Check(vh::close(m, (double) r.m, 1e-9, 1e-9 * amax), "ema:mean", "window ", w, " step ", i, " got ", m, " want ", (double) r.m);
      vh::Check(vh::close(v, (double) r.v, 1e-7, 1e-9 * amax * amax + 1e-300), "ema:var", "window ", w, " step ", i, " got ", v, " want ", (double) r.v);
      vh::Check(vh::close(s, std::sqrt(v), 1e-12), "ema:std", s, " vs sqrt ", v);
      if (w >= 1) { vh::Check(v >= 0 && std::isfinite(v) && std::isfinite(s), "ema:var-negative-or-nan", "window ", w, " v=", v);
        vh::Check(m >= lo - 1e-9 * amax && m <= hi + 1e-9 * amax, "ema:mean-out-of-hull", m, " not in [", lo, ",", hi, "]"); }
      if (used_copy) vh::Check(copy.Mean() == m && copy.Var() == v, "ema:copy-diverges", "copied at ", copied_at);
      vh::Observe("ema_update");
    }
    vh::Case(vh::hash_bytes(xs.data(), xs.size() * 8, w));
  }
}
SECTION("names", 1, 1) {
  std::set<std::string> n;
  for (auto s : {SpikeSignal::kNone, SpikeSignal::kS1_ErrorbarSpike, SpikeSignal::kS2_GradientNormSpike, SpikeSignal::kS3_NaturalGradientAnomaly, SpikeSignal::kS4_EMAEnergySpikeUpward}) { std::string x = SignalName(s); vh::Check(!x.empty() && x != "UNKNOWN" && n.insert(x).second, "spike:signal-name", "duplicate or unknown name ", x); vh::Case(vh::hash_str(x)); }
  vh::Check(std::string(SignalName(SpikeSignal::kS1_ErrorbarSpike)).find("S1") == 0 && std::string(SignalName(SpikeSignal::kS2_GradientNormSpike)).find("S2") == 0 && std::string(SignalName(SpikeSignal::kS3_NaturalGradientAnomaly)).find("S3") == 0 && std::string(SignalName(SpikeSignal::kS4_EMAEnergySpikeUpward)).find("S4") == 0, "spike:signal-name", "names do not identify their signal");
  n.clear();
  for (auto a : {SpikeAction::kAccept, SpikeAction::kResample, SpikeAction::kRollback, SpikeAction::kAcceptWithWarning}) { std::string x = ActionName(a); vh::Check(!x.empty() && x != "UNKNOWN" && n.insert(x).second, "spike:action-name", "duplicate or unknown name ", x); }
  vh::Check(std::string(ActionName(SpikeAction::kResample)) == "RESAMPLE" && std::string(ActionName(SpikeAction::kRollback)) == "ROLLBACK" && std::string(ActionName(SpikeAction::kAccept)) == "ACCEPT", "spike:action-name", "names do not identify their action");
  SpikeStatistics s; vh::Check(s.total_resamples == 0 && s.total_rollbacks == 0 && s.total_forced_accepts == 0 && s.event_log.empty(), "spike:stats-init", "nonzero");
}
