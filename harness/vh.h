// Shared harness runtime: sections, seeded RNG, observation counters, violation records.
// Each binary is driven by run.py:  BIN --list           -> "section<TAB>shards" lines
//                                   BIN --section S --shard K --seed N --tier quick|thorough --out FILE
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0;
  int nshards = 1;
  std::string section;
  std::string scratch;
};
inline Ctx &ctx() { static Ctx c; return c; }

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  return hash_bytes(s.data(), s.size(), h);
}

// splitmix64 generator usable as a URBG
struct Rng {
  uint64_t s;
  using result_type = uint64_t;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ULL; }
  uint64_t operator()() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t) (b - a + 1)); }
  double u01() { return ((*this)() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  bool coin(double p = 0.5) { return u01() < p; }
  double gauss() {
    double u = u01(); if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * u01());
  }
  double logscale(double lo_exp, double hi_exp) { return std::pow(10.0, uni(lo_exp, hi_exp)) * (coin() ? 1 : -1); }
  template<class V> auto &pick(V &v) { return v[below(v.size())]; }
};

struct State {
  std::map<std::string, uint64_t> obs;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> viol_keys;
  std::vector<std::pair<std::string, std::string>> viols;
  std::vector<std::string> notes;
  uint64_t evals = 0;
  std::string current;
  std::string out;
};
inline State &st() { static State s; return s; }

inline std::string clean(std::string s) {
  for (auto &c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' ';
  if (s.size() > 1500) s.resize(1500);
  return s;
}
// one oracle evaluation on one generated case
inline void Observe(const std::string &monitor, uint64_t n = 1) { st().obs[monitor] += n; }
inline void Case(uint64_t h) { st().evals++; st().distinct.insert(h); }
inline void TrivialCase() { st().evals++; }
inline void Sample(const std::string &s) { if (st().samples.size() < 4) st().samples.push_back(clean(s)); }
inline void Note(const std::string &s) { if (st().notes.size() < 50) st().notes.push_back(clean(s)); }
inline void Flush();
inline void Violation(const std::string &key, const std::string &detail) {
  int &n = st().viol_keys[key];
  if (n++ < 3) { st().viols.emplace_back(clean(key), clean(detail)); Flush(); }
}
template<class... A> std::string cat(A &&...a) {
  std::ostringstream os; os.precision(17);
  ((os << a), ...);
  return os.str();
}
template<class T> std::string vec2s(const std::vector<T> &v) {
  std::ostringstream os; os.precision(17); os << "[";
  for (size_t i = 0; i < v.size() && i < 64; ++i) os << (i ? "," : "") << v[i];
  os << "]"; return os.str();
}
// What the harness is about to do: lands in the report if the process dies.
inline void Doing(const std::string &s) { st().current = s; }
template<class... A> bool Check(bool ok, const std::string &key, A &&...a) {
  if (!ok) Violation(key, cat(std::forward<A>(a)...));
  return ok;
}
inline bool close(double a, double b, double rel, double abs = 0) {
  if (a == b) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return std::isnan(a) && std::isnan(b);
  return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}
inline bool close(std::complex<double> a, std::complex<double> b, double rel, double abs = 0) {
  if (a == b) return true;
  return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}

inline void Flush() {
  if (st().out.empty()) return;
  std::ofstream f(st().out + ".part");
  f << "EVALS\t" << st().evals << "\n";
  for (auto &[k, v] : st().obs) f << "OBS\t" << k << "\t" << v << "\n";
  for (auto h : st().distinct) f << "DIST\t" << std::hex << h << std::dec << "\n";
  for (auto &s : st().samples) f << "SAMPLE\t" << s << "\n";
  for (auto &s : st().notes) f << "NOTE\t" << s << "\n";
  for (auto &[k, d] : st().viols) f << "VIOL\t" << k << "\t" << d << "\n";
  f.close();
  std::rename((st().out + ".part").c_str(), st().out.c_str());
}

struct Sec { std::string name; int qshards, tshards; std::function<void(Rng &)> fn; };
inline std::vector<Sec> &secs() { static std::vector<Sec> v; return v; }
struct Reg { Reg(const char *n, int q, int t, std::function<void(Rng &)> f) { secs().push_back({n, q, t, std::move(f)}); } };
// number of cases: quick q, thorough t
inline uint64_t N(uint64_t q, uint64_t t) { return ctx().thorough ? t : q; }

inline int Main(int argc, char **argv) {
  std::map<std::string, std::string> a;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k == "--list") { list = true; continue; }
    if (i + 1 < argc) a[k] = argv[++i];
  }
  bool th = a["--tier"] == "thorough";
  if (list) {
    for (auto &s : secs()) std::cout << s.name << "\t" << (th ? s.tshards : s.qshards) << "\n";
    return 0;
  }
  for (auto &s : secs()) {
    if (s.name != a["--section"]) continue;
    auto &c = ctx();
    c.seed = std::stoull(a["--seed"]);
    c.thorough = th;
    c.shard = a.count("--shard") ? std::stoi(a["--shard"]) : 0;
    c.nshards = th ? s.tshards : s.qshards;
    c.section = s.name;
    c.scratch = a["--scratch"];
    if (!c.scratch.empty() && chdir(c.scratch.c_str()) != 0) { std::perror("chdir scratch"); return 3; }
    st().out = a["--out"];
    uint64_t h = hash_str(s.name, mix(c.seed) ^ (uint64_t) c.shard * 0x51ed2701ULL);
    Rng rng(h);
    try {
      s.fn(rng);
    } catch (const std::exception &e) {
      Violation("uncaught-exception:" + s.name, cat("what=", e.what(), " while: ", st().current));
    }
    Flush();
    std::ofstream(st().out, std::ios::app) << "DONE\n";
    return 0;
  }
  std::cerr << "no such section\n";
  return 3;
}

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define SECTION(name, q, t) VH_SECTION_I(name, q, t, __COUNTER__)
#define VH_SECTION_I(name, q, t, id) VH_SECTION_II(name, q, t, id)
#define VH_SECTION_II(name, q, t, id)                                   \
  static void VH_CAT(vh_sec_, id)(vh::Rng & rng);                       \
  static vh::Reg VH_CAT(vh_reg_, id)(name, q, t, VH_CAT(vh_sec_, id));  \
  static void VH_CAT(vh_sec_, id)([[maybe_unused]] vh::Rng & rng)

template<class F> bool Throws(F &&f, std::string *what = nullptr) {
  try { f(); } catch (const std::exception &e) { if (what) *what = e.what(); return true; } catch (...) { return true; }
  return false;
}
}  // namespace vh

// Die handler: on abnormal termination tell run.py what was being done.
extern "C" inline void vh_dump_current() {
  if (!vh::st().current.empty()) std::fprintf(stderr, "VH-DOING: %s\n", vh::st().current.c_str());
}
#ifndef VH_NO_MAIN
#include <csignal>
static void vh_sig(int s) {
  vh_dump_current();
  std::signal(s, SIG_DFL);
  std::raise(s);
}
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
int main(int argc, char **argv) {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(vh_dump_current);
#endif
  std::signal(SIGABRT, vh_sig);
  return vh::Main(argc, argv);
}
#endif
