// Helpers for multi-rank sections.
#pragma once
#include "mpi.h"
#include "vh.h"
namespace mp {
inline vmpi::Options Opt(vh::Rng &rng, int n) {
  vmpi::Options o; o.n = n; o.seed = rng(); o.rendezvous = rng.coin(); o.yield_p = rng.coin(0.2) ? 0.0 : rng.u01(); o.arena_mb = 64; return o;
}
// Binary-safe values in the per-rank output stream.
template<class T> void put(std::ostream &os, const T &v) { os.write((const char *) &v, sizeof v); }
inline void put(std::ostream &os, const std::string &s) { size_t n = s.size(); os.write((const char *) &n, sizeof n); os << s; }
struct In {
  const std::string &s; size_t p = 0; bool bad = false;
  explicit In(const std::string &x) : s(x) {}
  template<class T> T get() { T v{}; if (p + sizeof v > s.size()) { bad = true; return v; } std::memcpy(&v, s.data() + p, sizeof v); p += sizeof v; return v; }
  std::string str() { size_t n = get<size_t>(); if (bad || p + n > s.size()) { bad = true; return {}; } std::string r = s.substr(p, n); p += n; return r; }
};
// Verdict on the communication itself; false if the outputs are not usable.
inline bool Clean(const vmpi::RunResult &r, const std::string &what) {
  if (!r.clean()) { 
    std::string ex; for (size_t i = 0; i < r.out.size(); ++i) { auto p = r.out[i].find("EXCEPTION "); if (p != std::string::npos) ex += vh::cat(" rank", i, " threw ", r.out[i].substr(p + 10, 200)); }
    vh::Violation("mpi:" + what, r.describe() + ex + " while " + vh::st().current); return false; }
  vh::Check(r.unreceived == 0, "mpi-unreceived:" + what, r.unreceived, " messages never received; ", vh::st().current);
  return true;
}
}  // namespace mp
