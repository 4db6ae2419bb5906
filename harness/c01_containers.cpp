// Lattice containers: value semantics, ownership and memory safety against a reference model.
#include "vh.h"
#include <cassert>
#include <optional>
#include <memory>
#include <csignal>
#include <sys/resource.h>
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
#include "qlpeps/utility/observable_matrix.h"
using namespace qlpeps;

struct Elem {                       // instrumented element: every live instance is counted
  static inline long live = 0;
  int v = 0; int *heap;             // heap byte so ASan sees use-after-free/double free of an element
  Elem() : heap(new int(0)) { ++live; }
  explicit Elem(int x) : v(x), heap(new int(x)) { ++live; }
  Elem(const Elem &o) : v(o.v), heap(new int(*o.heap)) { ++live; }
  Elem(Elem &&o) noexcept : v(o.v), heap(new int(*o.heap)) { ++live; }
  Elem &operator=(const Elem &o) { v = o.v; *heap = *o.heap; return *this; }
  ~Elem() { --live; delete heap; heap = nullptr; }
  void set(int x) { v = x; *heap = x; }
  int get() const { return *heap == v ? v : -999999; }
  bool operator==(const Elem &o) const { return get() == o.get(); }
  bool operator!=(const Elem &o) const { return !(*this == o); }
};
inline std::ostream &operator<<(std::ostream &os, const Elem &e) {
  int buf[3] = {0x51, e.v, ~e.v}; os.write((const char *) buf, sizeof buf); return os;
}
inline std::istream &operator>>(std::istream &is, Elem &e) {
  int buf[3]; is.read((char *) buf, sizeof buf);
  if (is && (buf[0] != 0x51 || buf[1] != ~buf[2])) is.setstate(std::ios::failbit);
  if (is) e.set(buf[1]);
  return is;
}

using Model = std::vector<std::vector<std::optional<int>>>;
template<class MatT> struct Slot { std::unique_ptr<MatT> m; Model ref; bool moved = false; };

template<class MatT>
static void compare(const MatT &m, const Model &ref, const std::string &what, std::map<const void *, int> &owners) {
  size_t R = ref.size(), C = R ? ref[0].size() : 0;
  vh::Observe("container_state_compare");
  if (!vh::Check(m.rows() == R && m.cols() == C && m.size() == R * C, "container:dims", what, " got ", m.rows(), "x", m.cols(), " want ", R, "x", C)) return;
  vh::Check(m.length(HORIZONTAL) == C && m.length(VERTICAL) == R, "container:length", what);
  bool any = false;
  auto cd = m.cdata();
  for (size_t r = 0; r < R; ++r)
    for (size_t c = 0; c < C; ++c) {
      const Elem *p = m(r, c);
      any |= (bool) ref[r][c];
      if (!vh::Check((p != nullptr) == (bool) ref[r][c], "container:alloc-state", what, " (", r, ",", c, ") allocated=", p != nullptr, " want ", (bool) ref[r][c])) continue;
      vh::Check(cd[r][c] == p, "container:cdata", what);
      if (!p) continue;
      vh::Check(m({r, c}).get() == *ref[r][c], "container:value", what, " (", r, ",", c, ")=", m({r, c}).get(), " want ", *ref[r][c]);
      vh::Check(++owners[p] == 1, "container:aliasing", what, ": one element owned twice");
    }
  vh::Check(m.empty() == !any, "container:empty", what);
  for (size_t r = 0; r < R; ++r) {
    auto row = m.get_slice(r, HORIZONTAL); auto row2 = m.get_row(r);
    if (!vh::Check(row.size() == C && row2.size() == C, "container:row-slice", what)) continue;
    for (size_t c = 0; c < C; ++c) vh::Check(row[c] == m(r, c) && row2[c] == m(r, c), "container:row-slice", what, " row ", r, " col ", c);
  }
  for (size_t c = 0; c < C; ++c) {
    auto col = m.get_slice(c, VERTICAL); auto col2 = m.get_col(c);
    if (!vh::Check(col.size() == R && col2.size() == R, "container:col-slice", what)) continue;
    for (size_t r = 0; r < R; ++r) vh::Check(col[r] == m(r, c) && col2[r] == m(r, c), "container:col-slice", what, " row ", r, " col ", c);
  }
  bool full = R * C > 0;
  for (auto &row : ref) for (auto &e : row) full &= (bool) e;
  if (full) {  // const traversal visits each element once, row-major
    std::vector<int> seen, want;
    size_t guard = 0;
    for (auto it = m.cbegin(); it != m.cend() && guard++ <= R * C; ++it) seen.push_back((*it).get());
    for (auto &row : ref) for (auto &e : row) want.push_back(*e);
    vh::Check(seen == want, "container:const-iteration", what, " visited ", vh::vec2s(seen), " want ", vh::vec2s(want));
    std::vector<int> seen2; guard = 0;
    for (const Elem &e : m) { if (guard++ > R * C) break; seen2.push_back(e.get()); }
    vh::Check(seen2 == want, "container:const-iteration", what);
    auto it = m.cbegin(); if (R * C > 1) { auto old = it++; vh::Check((*old).get() == want[0] && (*it).get() == want[1], "container:post-increment", what); }
    vh::Observe("container_iteration");
  }
}

template<class MatT> static void run_model(vh::Rng &rng, uint64_t histories, const char *tag) {
  for (uint64_t h = 0; h < histories; ++h) {
    long base = Elem::live;
    uint64_t sig = 7;
    std::string trace;
    {
      std::vector<Slot<MatT>> s(4);
      auto newdims = [&](size_t &R, size_t &C) { R = 1 + rng.below(5); C = 1 + rng.below(5); if (rng.coin(.1)) R = 1; if (rng.coin(.1)) C = 1; if (rng.coin(.01)) R = 40; if (rng.coin(.01)) C = 70; };
      auto blank = [](size_t R, size_t C) { return Model(R, std::vector<std::optional<int>>(C)); };
      int len = 6 + rng.below(30), stamp = 1;
      for (int i = 0; i < len; ++i) {
        size_t a = rng.below(4), b = rng.below(4);
        int op = rng.below(16);
        std::ostringstream os;
        auto &A = s[a]; auto &B = s[b];
        if (!A.m) { size_t R, C; newdims(R, C); if (rng.coin(.1)) { A.m = std::make_unique<MatT>(); A.ref = blank(0, 0); } else { A.m = std::make_unique<MatT>(R, C); A.ref = blank(R, C); } os << a << "=new" << R << "x" << C; }
        else {
          size_t R = A.ref.size(), C = R ? A.ref[0].size() : 0, r = rng.below(R), c = rng.below(C);
          if (R * C == 0 && op < 7) op = 8;
          switch (op) {
            case 0: case 1: case 2: (*A.m)({r, c}).set(stamp); A.ref[r][c] = stamp++; os << a << "(" << r << "," << c << ")set"; break;
            case 3: (*A.m).alloc(r, c); A.ref[r][c] = 0; os << a << "alloc" << r << c; break;
            case 4: (*A.m).dealloc(r, c); A.ref[r][c].reset(); os << a << "dealloc" << r << c; break;
            case 5: { Elem *&p = (*A.m)(r, c); if (!p) { p = new Elem(stamp); A.ref[r][c] = stamp++; os << a << "ptrset"; } else { p->set(stamp); A.ref[r][c] = stamp++; os << a << "ptrmod"; } break; }
            case 6: { bool lazy = rng.coin(.3); if (!lazy) for (size_t x = 0; x < R; ++x) for (size_t y = 0; y < C; ++y) if (!A.ref[x][y]) { (*A.m)({x, y}).set(stamp); A.ref[x][y] = stamp++; }
                      size_t guard = 0; for (auto &e : *A.m) { if (guard >= R * C) { vh::Violation("container:iteration-overrun", trace); break; } e.set(stamp); A.ref[guard / C][guard % C] = stamp++; ++guard; }
                      vh::Check(guard == R * C, "container:iteration-count", trace, " visited ", guard, " of ", R * C); os << a << "fill"; break; }
            case 7: A.m->clear(); for (auto &row : A.ref) for (auto &e : row) e.reset(); os << a << "clear"; break;
            case 8: { size_t R2, C2; newdims(R2, C2); A.m = std::make_unique<MatT>(R2, C2); A.ref = blank(R2, C2); os << a << "renew"; break; }
            case 9: case 10: if (B.m && a != b) { *A.m = *B.m; A.ref = B.ref; os << a << "=copy " << b; } break;
            case 11: if (B.m && a != b) { A.m = std::make_unique<MatT>(*B.m); A.ref = B.ref; os << a << "=copyctor " << b; } break;
            case 12: if (B.m && a != b) { *A.m = std::move(*B.m); A.ref = B.ref; B.m.reset(); os << a << "=move " << b; } break;
            case 13: if (B.m && a != b) { A.m = std::make_unique<MatT>(std::move(*B.m)); A.ref = B.ref; os << a << "=movector " << b;
                       size_t R2, C2; newdims(R2, C2); if (rng.coin(.4)) { *B.m = *A.m; B.ref = A.ref; os << " recopy"; } else if (rng.coin(.3)) { B.m.reset(); os << " drop"; } else { *B.m = MatT(R2, C2); B.ref = blank(R2, C2); os << " reuse"; } } break;
            case 14: if (B.m) { bool want = A.ref == B.ref; bool full = true; for (auto &row : A.ref) for (auto &e : row) full &= (bool) e;
                       if (full && R * C) { bool got = *A.m == *B.m; vh::Check(got == want, "container:equality", trace, " got ", got, " want ", want); vh::Observe("container_equality"); } } break;
            case 15: A.m.reset(); os << a << "destroy"; break;
          }
        }
        if (!os.str().empty()) trace += os.str() + ";";
        vh::Doing(std::string(tag) + " " + trace);
        sig = vh::hash_str(os.str(), sig);
        std::map<const void *, int> owners;
        long expect = 0;
        for (size_t k = 0; k < s.size(); ++k) if (s[k].m) {
          compare(*s[k].m, s[k].ref, std::string(tag) + " #" + std::to_string(k) + " after " + trace, owners);
          for (auto &row : s[k].ref) for (auto &e : row) expect += (bool) e;
        }
        vh::Check(Elem::live - base == expect, "container:live-elements", trace, " live ", Elem::live - base, " want ", expect);
        vh::Observe("ownership_ledger");
        if (!vh::st().viols.empty()) return;
      }
    }
    vh::Check(Elem::live == base, "container:leak", trace);
    vh::Case(sig);
    if (h < 2) vh::Sample(trace);
  }
}

SECTION("duomatrix-model", 2, 8) { run_model<DuoMatrix<Elem>>(rng, vh::N(1500, 20000), "DuoMatrix"); }
SECTION("tenmatrix-model", 2, 8) { run_model<TenMatrix<Elem>>(rng, vh::N(1500, 20000), "TenMatrix"); }

#if 1
SECTION("nothing-to-visit", 1, 1) {
  for (size_t R = 0; R < 6; ++R) for (size_t C = 0; C < 6; ++C) if (R * C == 0) {
    std::string sig = vh::cat("matrix of ", R, " rows and ", C, " columns"); vh::Doing(sig); vh::Case(vh::hash_str(sig));
    DuoMatrix<Elem> m(R, C), k(m), z; z = m; DuoMatrix<Elem> mv(std::move(k)); size_t seen = 0;
    for (DuoMatrix<Elem> *q : {&m, &z, &mv}) { const DuoMatrix<Elem> &cq = *q; vh::Check(q->rows() == R && q->size() == 0 && q->empty(), "container:dims", sig); seen += q->begin() != q->end(); seen += cq.begin() != cq.end(); seen += q->cbegin() != q->cend(); q->clear(); }
    vh::Check(seen == 0, "container:iteration-overrun", sig, " iteration does not end at once"); vh::Observe("container_empty_iteration");
  }
}
SECTION("has-alloc", 1, 1) {
  for (size_t R = 1; R < 5; ++R) for (size_t C = 1; C < 5; ++C) {
    DuoMatrix<Elem> m(R, C);
    for (size_t k = 0; k < R * C; ++k) {
      size_t r = k / C, c = k % C;
      vh::Check(m.has_alloc(r, c) == false, "container:has_alloc", R, "x", C);
      m({r, c}).set(3);
      vh::Check(m.has_alloc(r, c) == true, "container:has_alloc", R, "x", C);
      vh::Case(R * 1000 + C * 100 + k); vh::Observe("has_alloc");
    }
  }
}
#endif

// Elements larger than any stream buffer, through a file-size limit: a partial write must be reported and must not cost the only copy.
struct Fat { std::vector<char> d; Fat() = default; bool operator==(const Fat &o) const { return d == o.d; } bool operator!=(const Fat &o) const { return !(*this == o); } };
inline std::ostream &operator<<(std::ostream &os, const Fat &e) { uint64_t n = e.d.size(); os.write((const char *) &n, 8); os.write(e.d.data(), n); return os; }
inline std::istream &operator>>(std::istream &is, Fat &e) { uint64_t n = 0; is.read((char *) &n, 8); if (!is || n > (1u << 24)) { is.setstate(std::ios::failbit); return is; } e.d.resize(n); is.read(e.d.data(), n); return is; }
SECTION("partial-writes", 1, 2) {
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
  for (uint64_t h = 0; h < vh::N(250, 3000); ++h) {
    TenMatrix<Fat> m(2, 2); size_t n = rng.below(rng.coin() ? 300 : 60000); Fat f; f.d.resize(n); for (auto &c : f.d) c = (char) rng();
    m({1, 0}) = f; m({0, 1}) = f; size_t need = n + 8; bool rel = rng.coin(), cst = rng.coin(.3);
    size_t lim = rng.coin(.3) ? need : rng.coin(.3) ? need - 1 : rng.coin(.2) ? need + rng.below(500) : rng.below(need);
    std::string file = "fat.bin"; unlink(file.c_str()); if (rng.coin(.3)) { std::ofstream(file, std::ios::binary) << std::string(1 + rng.below(200), 'o'); }
    struct rlimit rl = old; rl.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &rl);
    bool ok = cst ? (rel = false, std::as_const(m).DumpTen(1, 0, file)) : m.DumpTen(1, 0, file, rel);
    setrlimit(RLIMIT_FSIZE, &old);
    std::string got; { std::ifstream i(file, std::ios::binary); std::stringstream ss; ss << i.rdbuf(); got = ss.str(); }
    std::string want; { std::ostringstream o; o << f; want = o.str(); }
    std::string sig = vh::cat(n, " bytes, limit ", lim, " release ", rel, " const ", cst); vh::Doing(sig);
    vh::Check(ok == (got == want), "files:dump-answer-wrong", sig, ": DumpTen returned ", ok, " with ", got.size(), " of ", want.size(), " bytes in the file");
    vh::Check(ok == (lim >= need), "files:dump-answer-wrong", sig, " returned ", ok);
    vh::Check((std::as_const(m)(1, 0) == nullptr) == (ok && rel), "files:failed-dump-lost-data", sig, " returned ", ok);
    if (std::as_const(m)(1, 0)) vh::Check(std::as_const(m)({1, 0}).d == f.d, "files:dump-changes-element", sig);
    vh::Check(std::as_const(m)(0, 1) && std::as_const(m)({0, 1}).d == f.d && !std::as_const(m)(0, 0) && !std::as_const(m)(1, 1), "files:dump-touches-other-cells", sig);
    TenMatrix<Fat> q(1, 1); bool lo = q.LoadTen(0, 0, file);
    vh::Check(lo == ok || (!ok && lo && n == 0), "files:load-answer-wrong", sig, " dump ", ok, " load ", lo); if (lo && ok) vh::Check(q({0, 0}).d == f.d, "files:roundtrip", sig);
    vh::Observe(ok ? "fat_dump_ok" : "partial_write_fault"); vh::Case(vh::hash_str(sig, h)); vh::Sample(sig);
  }
}
SECTION("load-over-existing", 1, 2) {
  for (uint64_t h = 0; h < vh::N(400, 4000); ++h) {
    long base = Elem::live;
    { TenMatrix<Elem> m(2, 3); Model ref(2, std::vector<std::optional<int>>(3)); std::string tr;
      for (int k = 0; k < 12; ++k) {
        size_t r = rng.below(2), c = rng.below(3); int v = rng.range(-1000, 1000);
        switch (rng.below(4)) {
          case 0: m({r, c}).set(v); ref[r][c] = v; tr += "s"; break;
          case 1: { TenMatrix<Elem> t(1, 1); t({0, 0}).set(v); vh::Check(t.DumpTen(0, 0, "e.bin", rng.coin()), "files:dump-failed", tr); vh::Check(m.LoadTen(r, c, "e.bin"), "files:load-failed", tr); ref[r][c] = v; tr += "l"; break; }
          case 2: m.dealloc(r, c); ref[r][c].reset(); tr += "d"; break;
          default: if (ref[r][c]) { bool rel = rng.coin(); vh::Check(m.DumpTen(r, c, "o.bin", rel), "files:dump-failed", tr); if (rel) { int v0 = *ref[r][c]; ref[r][c].reset(); vh::Check(!m.has_alloc(r, c), "files:release", tr); if (rng.coin()) { vh::Check(m.LoadTen(r, c, "o.bin"), "files:load-failed", tr); ref[r][c] = v0; } } tr += "o"; }
        }
        std::map<const void *, int> own; compare(m, ref, "load-over " + tr, own); long e = 0; for (auto &x : ref) for (auto &y : x) e += (bool) y;
        vh::Check(Elem::live - base == e, "container:live-elements", tr, " live ", Elem::live - base, " want ", e);
      }
      { std::unique_ptr<DuoMatrix<Elem>> poly = std::make_unique<TenMatrix<Elem>>(m); poly.reset(); }
      vh::Observe("load_over_history"); vh::Case(vh::hash_str(tr, h)); }
    vh::Check(Elem::live == base, "container:leak", "load-over-existing");
  }
}
SECTION("tenmatrix-files", 1, 2) {
  for (uint64_t h = 0; h < vh::N(200, 2000); ++h) {
    size_t R = 1 + rng.below(3), C = 1 + rng.below(3);
    TenMatrix<Elem> m(R, C);
    std::vector<int> val(R * C);
    for (size_t k = 0; k < R * C; ++k) { val[k] = rng.range(-100000, 100000); m({k / C, k % C}).set(val[k]); }
    for (size_t k = 0; k < R * C; ++k) {
      std::string f = vh::cat("t", k, ".bin");
      bool rel = rng.coin();
      const auto &cm = m;
      bool ok = rng.coin() ? (rel = false, cm.DumpTen(k / C, k % C, f)) : m.DumpTen(k / C, k % C, f, rel);
      vh::Check(ok, "files:dump-failed", f);
      vh::Check((cm(k / C, k % C) == nullptr) == rel, "files:release", "release_mem=", rel);
    }
    TenMatrix<Elem> n(R, C);
    for (size_t k = 0; k < R * C; ++k) {
      vh::Check(n.LoadTen(k / C, k % C, vh::cat("t", k, ".bin")), "files:load-failed", k);
      vh::Check(n({k / C, k % C}).get() == val[k], "files:roundtrip", k);
      vh::Observe("file_roundtrip");
    }
    // failures must be reported, and a failed dump must not cost the caller the only copy
    TenMatrix<Elem> w(1, 1); w({0, 0}).set(42);
    vh::Check(!w.DumpTen(0, 0, "no_such_dir/x.bin", true), "files:dump-missing-dir-reported-ok", "");
    vh::Check(w(0, 0) && w({0, 0}).get() == 42, "files:failed-dump-lost-data", "");
    TenMatrix<Elem> z(1, 1);
    vh::Check(!z.LoadTen(0, 0, "absent.bin"), "files:load-absent-reported-ok", "");
    { std::ofstream t("trunc.bin", std::ios::binary); t.write("\x51\0\0\0\1\0", rng.below(7)); }
    vh::Check(!z.LoadTen(0, 0, "trunc.bin"), "files:load-truncated-reported-ok", "");
    if (access("/dev/full", W_OK) == 0) {
      TenMatrix<Elem> d(1, 1); d({0, 0}).set(7);
      bool rel = rng.coin();
      bool ok = d.DumpTen(0, 0, "/dev/full", rel);
      vh::Check(!ok, "files:disk-full-reported-ok", "DumpTen to a full device returned true");
      if (!ok) vh::Check(d(0, 0) && d({0, 0}).get() == 7, "files:failed-dump-lost-data", "full device");
      const TenMatrix<Elem> e(d.empty() ? w : d);
      vh::Check(!e.DumpTen(0, 0, "/dev/full"), "files:disk-full-reported-ok", "const DumpTen to a full device returned true");
      vh::Observe("disk_full_fault");
    }
    vh::Case(vh::hash_bytes(val.data(), val.size() * 4));
    if (h < 2) vh::Sample(vh::cat(R, "x", C, " values ", vh::vec2s(val)));
  }
}

template<class T> static void obs_model(vh::Rng &rng, uint64_t n) {
  for (uint64_t h = 0; h < n; ++h) {
    size_t R = rng.below(6), C = rng.below(6);
    T init = (T) rng.range(-5, 5);
    ObservableMatrix<T> m;
    vh::Check(m.rows() == 0 && m.cols() == 0 && m.size() == 0 && m.Flatten().empty(), "obs:default-nonempty", "");
    if (rng.coin()) m = ObservableMatrix<T>(R, C, init); else m.Resize(R, C, init);
    std::vector<T> ref(R * C, init);
    uint64_t sig = R * 31 + C;
    std::string tr = vh::cat(R, "x", C, ":");
    int len = rng.below(40);
    for (int i = 0; i < len; ++i) {
      size_t r = rng.below(R + 2), c = rng.below(C + 2);
      if (rng.coin(.02)) r = ~0ULL;
      bool in = r < R && c < C;
      SiteIdx s; s[0] = r; s[1] = c;
      T d = (T) rng.range(-100, 100);
      int op = rng.below(7);
      sig = vh::mix(sig ^ (op * 1000003 + r * 101 + c));
      tr += vh::cat(op, "(", r, ",", c, ")");
      vh::Doing(tr);
      bool thrown = false, oor = false;
      T got{};
      try {
        switch (op) {
          case 0: m(r, c) = d; break;
          case 1: m(s) = d; break;
          case 2: m.Add(r, c, d); break;
          case 3: m.Add(s, d); break;
          case 4: got = std::as_const(m)(r, c); break;
          case 5: got = std::as_const(m)(s); break;
          case 6: { size_t nr = rng.below(6), nc = rng.below(6); m.Resize(nr, nc, d); R = nr; C = nc; ref.assign(R * C, d); } break;
        }
      } catch (const std::out_of_range &) { thrown = oor = true; } catch (...) { thrown = true; }
      if (op != 6) {
        vh::Check(thrown == !in && (!thrown || oor), "obs:range-check", tr, " in-range=", in, " thrown=", thrown);
        vh::Observe(in ? "obs_access_in_range" : "obs_access_out_of_range");
        if (in) {
          if (op < 2) ref[r * C + c] = d; else if (op < 4) ref[r * C + c] += d; else vh::Check(got == ref[r * C + c], "obs:read", tr);
        }
      }
      vh::Check(m.rows() == R && m.cols() == C && m.size() == R * C, "obs:dims", tr);
      vh::Check(m.Flatten() == ref, "obs:flatten", tr, " got ", m.Flatten().size());
    }
    auto copy = m; { auto other = m; ObservableMatrix<T> as(1 + rng.below(3), 2, T(9)); as = m; for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) { other(r, c) = T(77); as.Add(r, c, T(5)); } if (rng.coin()) other.Resize(1, 1); vh::Check(m.Flatten() == ref, "obs:copy-independent", tr); ObservableMatrix<T> mv(std::move(as)); vh::Check(mv.rows() == R && mv.cols() == C && mv.size() == R * C, "obs:dims", tr, " moved"); as = m; vh::Check(as.Flatten() == ref, "obs:moved-from-reassign", tr); }
    auto out = m.Extract();
    vh::Check(out == ref, "obs:extract", tr);
    vh::Check(copy.Flatten() == ref, "obs:copy-independent", tr);
    { size_t nr = rng.below(4), nc = rng.below(4); m.Resize(nr, nc, T(3)); vh::Check(m.rows() == nr && m.cols() == nc && m.Flatten() == std::vector<T>(nr * nc, T(3)), "obs:reuse-after-extract", tr); }
    vh::Case(sig);
    if (h < 2) vh::Sample(tr);
  }
}
SECTION("observable-matrix", 1, 4) {
  obs_model<double>(rng, vh::N(3000, 30000));
  obs_model<std::complex<double>>(rng, vh::N(1000, 10000));
  obs_model<int>(rng, vh::N(1000, 10000));
}

SECTION("orientation-algebra", 1, 1) {
  for (int p = 0; p < 4; ++p) {
    auto post = (BMPSPOSITION) p;
    vh::Check(Opposite(Opposite(post)) == post && Opposite(post) != post, "orient:opposite-involution", p);
    vh::Check(Orientation(Opposite(post)) == Orientation(post), "orient:opposite-axis", p);
    vh::Check((Orientation(post) == HORIZONTAL) == (post == LEFT || post == RIGHT), "orient:axis", p);
    vh::Check(MPOIndex(post) == (size_t) p, "orient:mpo-index", p);
    vh::Case(p); vh::Observe("orientation");
  }
  vh::Check(Opposite(LEFT) == RIGHT && Opposite(UP) == DOWN, "orient:opposite", "");
  vh::Check(Rotate(HORIZONTAL) == VERTICAL && Rotate(VERTICAL) == HORIZONTAL, "orient:rotate", "");
  for (size_t r = 0; r < 4; ++r) for (size_t c = 0; c < 4; ++c) { SiteIdx s{r, c}; vh::Check(s.row() == r && s.col() == c, "orient:site", ""); s.row() = c; s.col() = r; vh::Check(s[0] == c && s[1] == r, "orient:site", ""); vh::Case(100 + r * 4 + c); }
  vh::Sample("4 boundary positions, 2 bond orientations, 16 sites");
}
