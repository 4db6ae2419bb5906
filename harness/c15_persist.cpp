// C15: a state that was dumped, loaded, sent or broadcast is the same state; failures are reported, never silent.
#include "tn.h"
#include "mp.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
#include <filesystem>
using namespace vh; using namespace tn; namespace fs = std::filesystem;
template<class E, class Q> bool eqt(const qlten::QLTensor<E, Q> &a, const qlten::QLTensor<E, Q> &b) { if (a.IsDefault() || b.IsDefault()) return a.IsDefault() == b.IsDefault(); return a == b; }
template<class E, class Q> bool same(const qlpeps::SplitIndexTPS<E, Q> &a, const qlpeps::SplitIndexTPS<E, Q> &b, bool bc = true) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || (bc && a.GetBoundaryCondition() != b.GetBoundaryCondition())) return false;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) { auto &x = a({r, c}), &y = b({r, c}); if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (!eqt(x[i], y[i])) return false; }
  return true;
}
template<class E, class Q> bool same(const qlpeps::TPS<E, Q> &a, const qlpeps::TPS<E, Q> &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || a.GetBoundaryCondition() != b.GetBoundaryCondition()) return false;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) if (!eqt(a({r, c}), b({r, c}))) return false;
  return true;
}
struct Shape { size_t R, C; BoundaryCondition bc; };
static Shape shp(Rng &r) { return {r.coin(0.3) ? 1 : 1 + r.below(4), r.coin(0.3) ? 1 : 1 + r.below(4), r.coin() ? BoundaryCondition::Periodic : BoundaryCondition::Open}; }
template<class E, class Q> qlpeps::TPS<E, Q> gen(Rng &r, const Shape &z, const Idx<Q> &p, size_t D = 2) { return random_tps<E, Q>(r, z.R, z.C, z.bc, D, p); }
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string &f, const std::string &b) { std::ofstream(f, std::ios::binary) << b; }
static std::string anyfile(Rng &r, const std::string &dir, const std::string &ext) { std::vector<std::string> v; for (auto &e : fs::directory_iterator(dir)) if (e.is_regular_file() && e.path().extension() == ext) v.push_back(e.path().string()); std::sort(v.begin(), v.end()); return v.empty() ? "" : r.pick(v); }
static std::string dirname(Rng &r) { return cat("d", r.below(3), r.coin() ? "/sub" : "", r.coin(0.3) ? "/" : ""); }
static uint64_t cnt(const std::string &dir) { uint64_t n = 0; for (auto &e : fs::directory_iterator(dir)) { (void) e; ++n; } return n; }

template<class E, class Q> void split(Rng &rng) {
  using S = qlpeps::SplitIndexTPS<E, Q>; Shape z = shp(rng); size_t d = 2 + rng.below(2); auto p = phys<Q>(rng, d); S s = S::FromTPS(gen<E, Q>(rng, z, p, 3)); const S ref = s;
  std::string dir = dirname(rng), sig = cat("split ", z.R, "x", z.C, " bc", (int) z.bc, " d", d, " ", qname<Q>(), " ", dir); Doing(sig); Case(hash_str(sig) ^ rng());
  fs::remove_all(dir);
  bool rel = rng.coin(0.3); s.Dump(dir, rel); if (!rel) Check(same(s, ref), "dump-changed", sig);
  Shape o = shp(rng); S l = rng.coin(0.3) ? ref : rng.coin() ? S(o.R, o.C, o.bc) : S::FromTPS(gen<E, Q>(rng, o, p)); 
  Check(l.Load(dir) && same(l, ref), "roundtrip", sig); Observe("persist_roundtrip");
  // a newer dump replaces it; a smaller state leaves nothing that changes the result
  Shape z2 = shp(rng); S n = S::FromTPS(gen<E, Q>(rng, z2, p)); n.Dump(dir); S l2; l2 = ref; Check(l2.Load(dir) && same(l2, n), "overwrite", sig, " then ", z2.R, "x", z2.C, " bc", (int) z2.bc); Observe("persist_overwrite");
  // state dumped before the lattice was recorded in the metadata
  S old = S::FromTPS(gen<E, Q>(rng, z, p)); fs::remove_all(dir); old.Dump(dir); fs::remove(dir + "/tps_meta.txt"); spit(dir + "/phys_dim", cat(d)); S lo(z.R, z.C, z.bc); Check(lo.Load(dir) && same(lo, old), "legacy-format", sig);
  spit(dir + "/tps_meta.txt", cat(z.R, " ", z.C, " ", d)); { S l3; if (z.bc == BoundaryCondition::Open) Check(l3.Load(dir) && same(l3, old), "meta-without-boundary", sig); } Observe("persist_legacy");
  // damage
  fs::remove_all(dir); ref.rows(); { S t = ref; t.Dump(dir); } bool r;
  { S t; Check(!Throws([&] { r = t.Load("nowhere/at/all"); }) && !r, "missing-dir-accepted", sig); fs::create_directories("emptydir"); Check(!Throws([&] { r = t.Load("emptydir"); }) && !r, "empty-dir-accepted", sig); }
  std::string good = slurp(dir + "/tps_meta.txt"); 
  { std::vector<std::string> bad{"", "x", cat(z.R), cat(z.R, " ", z.C), cat(z.R, " ", z.C, " q"), cat(z.R, " qq ", d, " 0"), cat(z.R, " ", z.C, " ", d, " 7"), cat(z.R, " ", z.C, " ", d, " zz"), cat(z.R, " ", z.C, " 0 0"), cat(z.R + 1, " ", z.C, " ", d, " 0"), cat(z.R, " ", z.C + 1, " ", d, " 0"), cat(z.R, " ", z.C, " ", d + 1, " 0")};
    for (auto &b : bad) { spit(dir + "/tps_meta.txt", b); S t = rng.coin() ? ref : S(); Check(!Throws([&] { r = t.Load(dir); }) && !r, "damaged-meta-accepted", sig, " meta '", b, "'"); Observe("persist_damage"); } spit(dir + "/tps_meta.txt", good); }
  for (int k = 0; k < 3; ++k) { std::string f = anyfile(rng, dir, ".qlten"), b = slurp(f); size_t cut = rng.below(b.size() - 1); spit(f, b.substr(0, cut)); S t; r = true; bool thr = Throws([&] { r = t.Load(dir); }); Check(thr || !r, "torn-tensor-accepted", sig, " ", f, " cut ", cut, " of ", b.size()); spit(f, b); Observe("persist_torn"); }
  { std::string f = anyfile(rng, dir, ".qlten"), b = slurp(f); fs::remove(f); S t; Check(!Throws([&] { r = t.Load(dir); }) && !r, "missing-tensor-accepted", sig, " ", f); spit(f, b); S u; Check(u.Load(dir) && same(u, ref), "restored-refused", sig); }
  // failing writes
  { std::string f = rng.coin(0.25) ? dir + "/tps_meta.txt" : anyfile(rng, dir, ".qlten"); fs::remove(f); fs::create_symlink("/dev/full", f); S t = ref; bool rm = rng.coin(); Check(Throws([&] { t.Dump(dir, rm); }), "full-device-silent", sig, " ", f); 
    // with release the state on disk plus the state in memory still cover every component
    if (rm && f.find("meta") == std::string::npos) { bool lost = false; for (size_t i = 0; i < z.R; ++i) for (size_t c = 0; c < z.C; ++c) for (size_t q = 0; q < d; ++q) if (qlpeps::GenSplitIndexTPSTenName(dir, i, c, q) == f) { auto *site = t(i, c); lost = site == nullptr || site->size() != d || !eqt((*site)[q], ref({i, c})[q]); } Check(!lost, "only-copy-released", sig, " ", f); }
    fs::remove(f); fs::create_directory(f); S t2 = ref; Check(Throws([&] { t2.Dump(dir); }), "unwritable-silent", sig, " ", f); fs::remove(f);
    { size_t i = rng.below(z.R), c = rng.below(z.C), q = rng.below(d); Check(!ref.DumpTen(i, c, q, "/dev/full") && !ref.DumpTen(i, c, q, "no/such/dir/x"), "dumpten-silent", sig); S t3 = ref; Check(!t3.LoadTen(i, c, q, "no/such/file"), "loadten-silent", sig); Check(ref.DumpTen(i, c, q, "one") && t3.LoadTen(z.R - 1 - i, z.C - 1 - c, d - 1 - q, "one") && eqt(t3({z.R - 1 - i, z.C - 1 - c})[d - 1 - q], ref({i, c})[q]), "ten-roundtrip", sig); }
    spit("plainfile", "x"); S t4 = ref; Check(Throws([&] { t4.Dump("plainfile"); }), "dump-into-file-silent", sig); Observe("persist_fault"); }
}
template<class E, class Q> void tps(Rng &rng) {
  using T = qlpeps::TPS<E, Q>; Shape z = shp(rng); auto p = phys<Q>(rng, 2); T s = gen<E, Q>(rng, z, p, 3); const T ref = s; std::string dir = dirname(rng), sig = cat("tps ", z.R, "x", z.C, " bc", (int) z.bc, " ", qname<Q>(), " ", dir); Doing(sig); Case(hash_str(sig) ^ rng()); fs::remove_all(dir); bool r;
  bool rel = rng.coin(0.3); s.Dump(dir, rel); if (!rel) Check(same(s, ref), "tps-dump-changed", sig); Shape o = shp(rng); T l = rng.coin(0.4) ? gen<E, Q>(rng, o, p) : rng.coin() ? T(z.R, z.C, o.bc) : T(o.R, o.C, o.bc);
  Check(l.Load(dir) && same(l, ref), "tps-roundtrip", sig, " into ", o.R, "x", o.C); Observe("persist_tps");
  fs::remove(dir + "/tps_meta.txt"); { T t(z.R, z.C, z.bc); Check(t.Load(dir) && same(t, ref), "tps-legacy", sig); }
  for (std::string b : {std::string(""), std::string("x"), cat(z.R), cat(z.R, " ", z.C), cat(z.R, " ", z.C, " 9"), cat(z.R, " q ", "0"), cat(z.R + 1, " ", z.C, " 0"), cat(z.R, " ", z.C + 2, " 1")}) { spit(dir + "/tps_meta.txt", b); T t(z.R, z.C, z.bc); Check(!Throws([&] { r = t.Load(dir); }) && !r, "tps-damaged-meta-accepted", sig, " meta '", b, "'"); Observe("persist_damage"); }
  spit(dir + "/tps_meta.txt", cat(z.R, " ", z.C, " ", (int) z.bc)); { std::string f = anyfile(rng, dir, ".qlten"), b = slurp(f); spit(f, b.substr(0, rng.below(b.size() - 1))); T t(z.R, z.C, z.bc); r = true; bool thr = Throws([&] { r = t.Load(dir); }); Check(thr || !r, "tps-torn-accepted", sig, " ", f); fs::remove(f); T t2(z.R, z.C, z.bc); Check(!Throws([&] { r = t2.Load(dir); }) && !r, "tps-missing-accepted", sig); spit(f, b); Observe("persist_torn"); }
  { std::string f = rng.coin(0.3) ? dir + "/tps_meta.txt" : anyfile(rng, dir, ".qlten"); fs::remove(f); fs::create_symlink("/dev/full", f); T t = ref; bool rm = rng.coin(); Check(Throws([&] { t.Dump(dir, rm); }), "tps-full-device-silent", sig, " ", f);
    if (rm) for (size_t i = 0; i < z.R; ++i) for (size_t c = 0; c < z.C; ++c) if (qlpeps::GenTPSTenName(dir, i, c) == f) Check(t(i, c) != nullptr && eqt(t({i, c}), ref({i, c})), "tps-only-copy-released", sig, " ", f);
    fs::remove(f); fs::create_directory(f); T t2 = ref; Check(Throws([&] { t2.Dump(dir); }), "tps-unwritable-silent", sig, " ", f); fs::remove(f); Observe("persist_fault"); }
}
template<class E, class Q> void peps(Rng &rng) {
  using P = qlpeps::SquareLatticePEPS<E, Q>; Shape z = shp(rng); auto p = phys<Q>(rng, 2); P s(p, z.R, z.C, z.bc); auto act = std::vector<std::vector<size_t>>(z.R, std::vector<size_t>(z.C)); for (auto &a : act) for (auto &x : a) x = rng.below(2); s.Initial(act);
  for (auto &g : s.Gamma) if (g.HasData_()) for (auto &x : g.Data_()) if (x != E(0)) x = rnd<E>(rng); for (auto *m : {&s.lambda_vert, &s.lambda_horiz}) for (auto &l : *m) l *= rng.uni(0.1, 3);
  std::string dir = dirname(rng), sig = cat("peps ", z.R, "x", z.C, " bc", (int) z.bc, " ", qname<Q>(), " ", dir); Doing(sig); Case(hash_str(sig) ^ rng()); fs::remove_all(dir); const P ref(s); bool r = false; int how = (int) rng.below(3); 
  uint64_t outside = 0; fs::create_directories(fs::path(dir)); outside = cnt(".");
  if (how == 0) r = ref.Dump(dir); else if (how == 1) r = s.Dump(dir); else r = s.Dump(dir, true);
  Check(r, "peps-dump-refused", sig); if (how < 2) Check(s == ref, "peps-dump-changed", sig); Check(cnt(".") == outside, "peps-dump-outside", sig, " overload ", how, ": files beside the directory");
  P l(p, z.R, z.C, z.bc); Check(l.Load(dir) && l == ref, "peps-roundtrip", sig, " overload ", how); Observe("persist_peps");
  { P bigger(p, z.R + 1, z.C, z.bc); Check(!Throws([&] { r = bigger.Load(dir); }) && !r, "peps-larger-accepted", sig); }
  std::string f = anyfile(rng, dir, ".qlten"), b = slurp(f); if (f.empty()) { Violation("peps-no-files", sig); return; }
  spit(f, b.substr(0, rng.below(b.size() - 1))); { P t(p, z.R, z.C, z.bc); r = true; bool thr = Throws([&] { r = t.Load(dir); }); Check(thr || !r, "peps-torn-accepted", sig, " ", f); } fs::remove(f); { P t(p, z.R, z.C, z.bc); Check(!Throws([&] { r = t.Load(dir); }) && !r, "peps-missing-accepted", sig); } Observe("persist_torn");
  fs::create_symlink("/dev/full", f); { P t(ref); bool thr = Throws([&] { r = rng.coin() ? ref.Dump(dir) : t.Dump(dir, rng.coin()); }); Check(thr || !r, "peps-full-device-silent", sig, " ", f); } fs::remove(f); Observe("persist_fault");
}
template<class E, class Q> std::string enc(const qlpeps::SplitIndexTPS<E, Q> &s) { std::ostringstream os; os << s.rows() << " " << s.cols() << " " << (int) s.GetBoundaryCondition() << ";"; for (auto &site : s) { os << site.size() << ":"; for (auto &t : site) { if (t.IsDefault()) { os << "-"; continue; } os << t; } } return vh::cat(vh::hash_str(os.str()), "/", os.str().size()); }
template<class E, class Q> void ranks(Rng &rng) {
  using S = qlpeps::SplitIndexTPS<E, Q>; int n = 1 + (int) rng.below(5), root = (int) rng.below(n); Shape z = shp(rng); size_t d = 2 + rng.below(2); auto p = phys<Q>(rng, d); std::vector<S> st; 
  for (int r = 0; r < n; ++r) { Shape w = shp(rng); st.push_back(S::FromTPS(gen<E, Q>(rng, r == root ? z : w, p))); } if (rng.coin(0.4)) for (auto &site : st[root]) for (auto &t : site) if (rng.coin(0.2)) t = qlten::QLTensor<E, Q>();
  bool has_default = false; for (auto &site : st[root]) for (auto &t : site) has_default = has_default || t.IsDefault();
  std::vector<std::string> code; for (auto &s : st) code.push_back(enc(s)); std::string sig = cat("ranks n", n, " root ", root, " ", z.R, "x", z.C, " bc", (int) z.bc, " ", qname<Q>()); Doing(sig); Case(hash_str(sig + code[root])); auto o = mp::Opt(rng, n);
  int recv_mode = (int) rng.below(3);
  auto res = vmpi::Run(o, [&](int r, std::ostream &os) {
    S mine = st[r]; if (recv_mode == 0 && r != root) mine = S(); qlpeps::MPI_Bcast(mine, MPI_COMM_WORLD, root); os << enc(mine) << "|";
    // ring: every rank sends its own state to the next one
    if (n > 1 && !has_default) { S in; int to = (r + 1) % n, from = (r + n - 1) % n, tag = 5; if (r == 0) { qlpeps::MPI_Send(st[r], to, MPI_COMM_WORLD, tag); qlpeps::MPI_Recv(in, from, MPI_COMM_WORLD, tag); } else { qlpeps::MPI_Recv(in, from, MPI_COMM_WORLD, tag); qlpeps::MPI_Send(st[r], to, MPI_COMM_WORLD, tag); } os << enc(in) << "|";
      // everyone to root, from any source: each message arrives whole
      if (r == root) { std::vector<std::string> got; for (int k = 1; k < n; ++k) { S x; MPI_Status s = qlpeps::MPI_Recv(x, MPI_ANY_SOURCE, MPI_COMM_WORLD, 9); got.push_back(cat(s.MPI_SOURCE, "=", enc(x))); } std::sort(got.begin(), got.end()); for (auto &g : got) os << g << ","; } else qlpeps::MPI_Send(st[r], root, MPI_COMM_WORLD, 9); }
  });
  if (!mp::Clean(res, "state")) return; Observe("mpi_events", res.events);
  for (int r = 0; r < n; ++r) { std::string want = code[root] + "|"; if (n > 1 && !has_default) { want += code[(r + n - 1) % n] + "|"; if (r == root) { std::vector<std::string> g; for (int k = 0; k < n; ++k) if (k != root) g.push_back(cat(k, "=", code[k])); std::sort(g.begin(), g.end()); for (auto &x : g) want += x + ","; } } Check(res.out[r] == want, "transport", sig, " rank ", r, " got ", res.out[r], " want ", want); Observe("persist_transport"); if (has_default) Observe("persist_bcast_default"); }
}
#define PERS(nm, E, Q) \
  SECTION("split_" nm, 1, 4) { for (uint64_t i = 0; i < N(100, 1500); ++i) split<E, Q>(rng); } \
  SECTION("tps_" nm, 1, 4) { for (uint64_t i = 0; i < N(100, 1500); ++i) tps<E, Q>(rng); } \
  SECTION("peps_" nm, 1, 4) { for (uint64_t i = 0; i < N(100, 1500); ++i) peps<E, Q>(rng); } \
  SECTION("ranks_" nm, 1, 4) { for (uint64_t i = 0; i < N(60, 800); ++i) ranks<E, Q>(rng); }
PERS("td", double, Triv)
PERS("uz", Z, U1)
PERS("fz", Z, fZ2)
