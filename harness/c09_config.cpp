// C09: lattice configurations: occupancy conservation, persistence, transport between ranks.
#include "mpi.h"
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/configuration.h"
#include <filesystem>
#include "vh.h"
#include "mp.h"
using namespace vh;
using qlpeps::Configuration;
namespace fs = std::filesystem;
using Grid = std::vector<std::vector<size_t>>;
static Grid grid(const Configuration &c) { Grid g(c.rows(), std::vector<size_t>(c.cols())); for (size_t r = 0; r < c.rows(); ++r) for (size_t k = 0; k < c.cols(); ++k) g[r][k] = c({r, k}); return g; }
static std::string gs(const Grid &g) { std::string s; for (auto &r : g) { s += "["; for (auto x : r) s += cat(x, " "); s += "]"; } return s; }
static uint64_t gh(const Grid &g) { return hash_str(gs(g)); }
static Grid rgrid(Rng &r, size_t R, size_t C, size_t d) { Grid g(R, std::vector<size_t>(C)); for (auto &x : g) for (auto &y : x) y = r.below(d); return g; }
static size_t dimr(Rng &r) { return r.coin(0.3) ? 1 : 1 + r.below(6); }

SECTION("occupancy", 2, 8) {
  std::map<std::string, std::set<uint64_t>> seen;
  for (uint64_t it = 0; it < N(1500, 20000); ++it) {
    size_t R = dimr(rng), C = dimr(rng), n = R * C;
    size_t d = 1 + rng.below(5);
    // dense occupancy with zero entries
    qlpeps::OccupancyNum occ(d, 0); for (size_t i = 0; i < n; ++i) occ[rng.below(d)]++;
    std::map<size_t, size_t> m; size_t left = n; while (left) { size_t t = 1 + rng.below(left); m[rng.coin(.9) ? rng.below(40) : rng.below(3000)] += t; left -= t; } if (rng.coin(0.3)) m.insert({50 + rng.below(5), 0});
    Case(hash_str(cat(R, "x", C, vec2s(occ))));
    Doing(cat("occupancy ", R, "x", C, " ", vec2s(occ)));
    auto count = [](const Grid &g) { std::map<size_t, size_t> c; for (auto &r : g) for (auto x : r) c[x]++; return c; };
    auto check = [&](const Configuration &c, std::map<size_t, size_t> want, const char *what) {
      for (auto i = want.begin(); i != want.end();) i = i->second ? std::next(i) : want.erase(i);
      Check(c.rows() == R && c.cols() == C, "shape", what);
      auto g = grid(c); auto got = count(g);
      Check(got == want, cat("occupancy-", what), R, "x", C, " got ", gs(g));
      auto co = c.CountOccupancy(); size_t mx = got.rbegin()->first;
      bool ok = co.size() == mx + 1; for (size_t s = 0; ok && s <= mx; ++s) ok = co[s] == (got.count(s) ? got[s] : 0);
      Check(ok, "count-occupancy", gs(g), " -> ", vec2s(co));
      size_t sum = 0; for (auto [s, k] : got) sum += s * k;
      Check(c.Sum() == sum && c.IsValid() && c.size() == n, "sum", gs(g), " -> ", c.Sum());
      Observe("cfg_occupancy");
    };
    std::map<size_t, size_t> om; for (size_t i = 0; i < d; ++i) om[i] = occ[i];
    Configuration a(R, C, occ); check(a, om, "ctor-list");
    if (R * C <= 6 && R > 1) seen[cat(R, "x", C, vec2s(occ))].insert(gh(grid(a)));
    Configuration b(R, C); b.Random(m); check(b, m, "map");
    b.Random(occ); check(b, om, "list");
    Configuration e(R, C, m); check(e, m, "ctor-map");
    Configuration f(R, C, d); for (auto x : grid(f)) for (auto y : x) Check(y < d, "random-range", "state ", y, " of ", d);
    // wrong totals are refused
    auto bad = occ; if (rng.coin()) bad[rng.below(d)] += 1 + rng.below(3); else { size_t k = rng.below(d); if (!bad[k]) bad[k] = 1; else bad[k]--; }
    Check(Throws([&] { Configuration x(R, C, bad); }), "bad-occupancy-accepted", R, "x", C, " ", vec2s(bad));
    auto bm = m; bm.begin()->second += 1;
    Check(Throws([&] { Configuration x(R, C, bm); }), "bad-map-accepted", "");
    auto before = grid(b); Throws([&] { b.Random(bad); });
    Check(grid(b) == before, "rejected-call-changed-config", "");
    // value semantics
    Configuration c2(b); c2({rng.below(R), rng.below(C)}) += 1; Check(grid(b) == before && !(c2 == b), "copy-aliases", "");
    Configuration c3; c3 = b; Check(c3 == b, "assign-differs", "");
    Grid g = rgrid(rng, R, C, 9); Configuration c4(g); Check(grid(c4) == g, "from-grid", gs(g));
    Observe("cfg_values");
  }
  // the shuffle reaches more than one arrangement
  for (auto &[k, s] : seen) Observe("cfg_arrangements", s.size());
  size_t distinct = 0; { std::set<uint64_t> s; for (int i = 0; i < 200; ++i) s.insert(gh(grid(Configuration(2, 2, qlpeps::OccupancyNum{2, 2})))); distinct = s.size(); }
  { std::set<uint64_t> s, u; for (int i = 0; i < 300; ++i) { s.insert(gh(grid(Configuration(1, 4, std::map<size_t, size_t>{{0, 1}, {3, 3}})))); Configuration q(2, 2, 3); q.Random(qlpeps::OccupancyNum{1, 2, 1}); u.insert(gh(grid(q))); } Check(s.size() == 4 && u.size() == 12, "shuffle-support", "300 random configurations gave ", s.size(), " of 4 and ", u.size(), " of 12 arrangements"); }
  for (size_t d = 1; d <= 12; ++d) { std::vector<std::set<size_t>> at(6); for (int i = 0; i < 600; ++i) { Configuration q(2, 3); q.Random(d); auto g = grid(q); for (size_t k = 0; k < 6; ++k) at[k].insert(g[k / 3][k % 3]); } for (size_t k = 0; k < 6; ++k) Check(at[k].size() == d && *at[k].rbegin() == d - 1, "random-support", "site ", k, " takes ", at[k].size(), " of ", d, " states in 600 draws"); Observe("cfg_state_support"); }
  Check(distinct == 6, "shuffle-support", "200 random 2x2 half-filled configurations gave ", distinct, " of 6 arrangements");
}
SECTION("persist", 2, 8) {
  for (uint64_t it = 0; it < N(250, 3000); ++it) {
    size_t R = dimr(rng), C = dimr(rng), d = rng.coin(0.3) ? 1000 : 1 + rng.below(9);
    Grid g = rgrid(rng, R, C, d); Configuration c(g);
    std::string dir = cat("p", rng.below(4), rng.coin() ? "/sub" : "", rng.coin(0.2) ? "/" : ""); size_t lab = rng.below(20);
    Case(gh(g) ^ hash_str(dir)); Doing(cat("persist ", dir, " ", gs(g)));
    c.Dump(dir, lab);
    Check(grid(c) == g, "dump-changed", "");
    Configuration l(rgrid(rng, R, C, 5));
    Check(l.Load(dir, lab) && grid(l) == g, "roundtrip", dir, " ", gs(g), " -> ", gs(grid(l)));
    Observe("cfg_roundtrip");
    // another label is another file
    size_t lab2 = lab + 1 + rng.below(5); Grid g2 = rgrid(rng, R, C, 7); Configuration c2(g2); c2.Dump(dir, lab2);
    Configuration l1(R, C, (size_t) 2), l2(R, C, (size_t) 2);
    Check(l1.Load(dir, lab) && l2.Load(dir, lab2) && grid(l1) == g && grid(l2) == g2, "labels-collide", lab, " ", lab2);
    // overwritten by a newer dump
    Grid g3 = rgrid(rng, R, C, 3); Configuration(g3).Dump(dir, lab);
    Check(l1.Load(dir, lab) && grid(l1) == g3, "overwrite", "");
    // other shapes are refused
    Configuration w(R + 1, C, (size_t) 2), w2(R, C + 1, (size_t) 2);
    Check(!w.Load(dir, lab) && !w2.Load(dir, lab), "wrong-shape-accepted", R, "x", C);
    if (R != C) { Configuration t(C, R, (size_t) 2); Check(!t.Load(dir, lab), "transposed-shape-accepted", R, "x", C); }
    Configuration miss(R, C, (size_t) 2); bool r = true; Check(!Throws([&] { r = miss.Load(dir, 777); }) && !r, "missing-accepted", "");
    Check(!Throws([&] { r = miss.Load("absent/dir", 0); }) && !r, "missing-dir-accepted", "");
    Observe("cfg_refused");
    // torn and damaged files (single-digit states so every cut is visible)
    Grid g5 = rgrid(rng, R, C, 9); Configuration(g5).Dump(dir, lab);
    std::string f = dir + "/configuration" + std::to_string(lab), body;
    { std::ifstream i(f, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); body = ss.str(); }
    for (int k = 0; k < 4; ++k) {
      size_t cut = rng.below(body.size() + 1); { std::ofstream o(f, std::ios::binary); o << body.substr(0, cut); }
      Configuration t(R, C, (size_t) 2); bool ok = false;
      Check(!Throws([&] { ok = t.Load(dir, lab); }), "torn-throws", "cut ", cut);
      Check(!ok || grid(t) == g5, "torn-accepted", "cut ", cut, " of ", body.size(), " ", gs(grid(t)), " vs ", gs(g5));
      Observe("cfg_torn");
    }
    { std::string x = body; size_t p = rng.below(x.size()); while (!isdigit(x[p])) p = (p + 1) % x.size(); x[p] = 'q'; std::ofstream(f, std::ios::binary) << x; }
    Configuration t(R, C, (size_t) 2); Check(!Throws([&] { r = t.Load(dir, lab); }) && !r, "garbage-accepted", "");
    { std::ofstream(f, std::ios::binary) << body; std::ofstream(f + ".shape") << "nonsense"; }
    Check(!Throws([&] { r = t.Load(dir, lab); }) && !r, "garbage-shape-accepted", "");
    fs::remove(f + ".shape"); Check(t.Load(dir, lab) && grid(t) == g5, "no-sidecar-refused", "");
    // a failed write is reported
    fs::remove(f); fs::create_symlink("/dev/full", f);
    Check(Throws([&] { Configuration(g5).Dump(dir, lab); }), "full-device-silent", "");
    fs::remove(f); fs::create_directory(f); Check(Throws([&] { Configuration(g5).Dump(dir, lab); }), "unwritable-silent", ""); fs::remove(f);
    Observe("cfg_fault");
    std::stringstream ss; ss << c; Configuration s(R, C, (size_t) 2); ss >> s; Check(grid(s) == g, "stream", "");
    { std::stringstream cut(ss.str().substr(0, rng.below(2))); Check(R * C == 1 || Throws([&] { cut >> s; }), "stream-short-silent", ""); }
  }
}
SECTION("ranks", 4, 12) {
  for (uint64_t it = 0; it < N(120, 1500); ++it) {
    int n = 2 + rng.below(4); size_t R = dimr(rng), C = dimr(rng), root = rng.below(n);
    std::vector<Grid> g(n); for (auto &x : g) x = rgrid(rng, R, C, 1000);
    Case(gh(g[0]) ^ n); auto o = mp::Opt(rng, n); Doing(cat("ranks n=", n, " ", R, "x", C, " root ", root));
    int shift = 1 + rng.below(n - 1);
    auto res = vmpi::Run(o, [&](int r, std::ostream &os) {
      Configuration c(g[r]);
      qlpeps::MPI_BCast(c, root, MPI_COMM_WORLD);
      os << gs(grid(c)) << "|";
      Configuration mine(g[r]), got(R, C, (size_t) 3);
      qlpeps::MPI_Sendrecv(mine, (r + shift) % n, 4, got, (r + n - shift) % n, 4, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
      os << gs(grid(got)) << "|" << gs(grid(mine)) << "|";
      // ordered point to point: two messages, two tags
      if (r == (int) root) { for (int p = 0; p < n; ++p) if (p != r) { Configuration a(g[p]); qlpeps::MPI_Send(a, p, 11, MPI_COMM_WORLD); qlpeps::MPI_Send(mine, p, 12, MPI_COMM_WORLD); } os << "|"; }
      else { Configuration a(R, C, (size_t) 2), b(R, C, (size_t) 2); qlpeps::MPI_Recv(a, root, 11, MPI_COMM_WORLD, MPI_STATUS_IGNORE); qlpeps::MPI_Recv(b, root, 12, MPI_COMM_WORLD, MPI_STATUS_IGNORE); os << gs(grid(a)) << "|" << gs(grid(b)); }
    });
    if (!mp::Clean(res, "config")) continue;
    Observe("mpi_events", res.events);
    for (int r = 0; r < n; ++r) {
      std::string want = gs(g[root]) + "|" + gs(g[(r + n - shift) % n]) + "|" + gs(g[r]) + "|" + (r == (int) root ? "|" : gs(g[r]) + "|" + gs(g[root]));
      Check(res.out[r] == want, "transport", "rank ", r, " of ", n, " got ", res.out[r], " want ", want);
      Observe("cfg_transport");
    }
  }
}
