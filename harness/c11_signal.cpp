// C11: emergency stop agreement. Ranks poll together; signals arrive at arbitrary points on arbitrary ranks.
#include "mpi.h"
#include "qlten/qlten.h"
#include "qlpeps/base/mpi_signal_guard.h"
#include <csignal>
#include <sys/time.h>
#include "vh.h"
#include "mp.h"
using namespace vh;
using G = qlpeps::MPISignalGuard;
SECTION("agreement", 4, 16) {
  for (uint64_t it = 0; it < N(150, 2000); ++it) {
    int n = 1 + rng.below(5), rounds = 1 + rng.below(6); bool reset = rng.coin(0.3);
    // before[r][k]: signal to raise on rank r just before poll k (0 none)
    std::vector<std::vector<int>> sig(n, std::vector<int>(rounds, 0)); std::string plan;
    for (auto &v : sig) for (auto &x : v) if (rng.coin(0.08)) x = rng.coin() ? SIGINT : SIGTERM;
    int reset_at = reset ? (int) rng.below(rounds) : -1;
    for (auto &v : sig) plan += vec2s(v);
    Case(hash_str(plan) ^ n ^ (reset_at << 8)); Doing(cat("signals ", plan, " reset ", reset_at)); Sample(plan);
    auto o = mp::Opt(rng, n);
    auto res = vmpi::Run(o, [&](int r, std::ostream &os) {
      G::Register(); G::Reset();
      for (int k = 0; k < rounds; ++k) {
        if (k == reset_at) G::Reset();
        if (sig[r][k]) ::raise(sig[r][k]);
        bool l = G::LocalStopRequested(), g = G::EmergencyStopRequested(MPI_COMM_WORLD), l2 = G::LocalStopRequested();
        os << l << g << l2 << " ";
      }
    });
    if (!mp::Clean(res, "signal")) continue;
    Observe("mpi_events", res.events);
    std::vector<bool> f(n, false); std::vector<std::string> want(n);
    for (int k = 0; k < rounds; ++k) { bool any = false; for (int r = 0; r < n; ++r) { if (k == reset_at) f[r] = false; if (sig[r][k]) f[r] = true; any = any || f[r]; } for (int r = 0; r < n; ++r) want[r] += cat(f[r], any, f[r], " "); if (any) Observe("stop_polls_true"); else Observe("stop_polls_false"); }
    for (int r = 0; r < n; ++r) Check(res.out[r] == want[r], "stop-disagreement", "rank ", r, " of ", n, " saw ", res.out[r], " expected ", want[r], " plan ", plan);
    Observe("stop_schedules");
  }
}
// Asynchronous delivery: a timer fires while ranks are polling; from some poll on everyone says stop, never before, never back.
SECTION("async", 4, 16) {
  for (uint64_t it = 0; it < N(30, 400); ++it) {
    int n = 1 + rng.below(4), victim = rng.below(n); int us = 50 + rng.below(3000); int s = rng.coin() ? SIGINT : SIGTERM; Case(mix(it) ^ us);
    Doing(cat("async n=", n, " victim ", victim, " after ", us, "us"));
    static int g_sig; g_sig = s;
    auto res = vmpi::Run(mp::Opt(rng, n), [&](int r, std::ostream &os) {
      G::Register(); G::Reset();
      if (r == victim) { std::signal(SIGALRM, [](int) { ::raise(g_sig); }); itimerval tv{{0, 0}, {0, us}}; setitimer(ITIMER_REAL, &tv, nullptr); }
      size_t k = 0; for (; k < 2000000; ++k) if (G::EmergencyStopRequested(MPI_COMM_WORLD)) break;
      bool stay = true; for (int j = 0; j < 3; ++j) stay = stay && G::EmergencyStopRequested(MPI_COMM_WORLD);
      os << k << " " << stay << " " << (G::LocalStopRequested() == (r == victim));
    });
    if (!mp::Clean(res, "signal-async")) continue;
    std::istringstream a(res.out[0]); size_t k0; a >> k0; Check(k0 < 2000000, "stop-lost", "");
    for (int r = 0; r < n; ++r) Check(res.out[r] == cat(k0, " 1 1"), "stop-async-disagreement", "rank ", r, " saw ", res.out[r], " rank 0 saw ", res.out[0]);
    Observe("stop_async"); Observe("mpi_events", res.events);
  }
}
