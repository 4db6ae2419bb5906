// Directory helpers: success iff the directory exists afterwards, for every path kind and under creation races.
#include "vh.h"
#include <filesystem>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sched.h>
#include <atomic>
#include "qlpeps/utility/filesystem_utils.h"
using namespace qlpeps;
namespace fs = std::filesystem;
static std::string name(vh::Rng &r) { static const char *w[] = {"a", "tps", "dir with space", ".hidden", "ünï", "step_10", "x.y", "-", "0"}; std::string s = w[r.below(9)]; return s + std::to_string(r.below(3)); }
static bool isdir(const std::string &p) { std::error_code e; return fs::is_directory(p, e); }
static bool exists(const std::string &p) { std::error_code e; return fs::exists(p, e); }
struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// Everything already on disk below root: type, mode, size, link target.
static std::map<std::string, std::string> tree(const std::string &root) {
  std::map<std::string, std::string> t; std::error_code e;
  for (auto it = fs::recursive_directory_iterator(root, e); !e && it != fs::recursive_directory_iterator(); it.increment(e)) {
    struct stat st; std::string q = it->path().string(); if (lstat(q.c_str(), &st)) continue;
    t[q] = vh::cat((unsigned) st.st_mode, ":", S_ISDIR(st.st_mode) ? 0L : (long) st.st_size, ":", S_ISLNK(st.st_mode) ? fs::read_symlink(q).string() : "", ":", (unsigned long) st.st_ino);
  }
  return t;
}
SECTION("paths", 2, 4) {
  Quiet q;
  for (uint64_t c = 0; c < vh::N(2500, 30000); ++c) {
    std::string root = vh::cat("w", c); fs::create_directory(root);
    std::string p = root; size_t d = rng.below(5); for (size_t i = 0; i < d; ++i) p += (rng.coin(.1) ? "//" : "/") + name(rng);
    int kind = (int) rng.below(14); std::string what;
    bool expect_dir; 
    switch (kind) {
      case 0: what = "fresh"; expect_dir = true; break;
      case 1: what = "already"; fs::create_directories(p); std::ofstream(p + "/keep") << "x"; expect_dir = true; break;
      case 2: what = "file"; if (d == 0) p += "/f"; fs::create_directories(fs::path(p).parent_path()); { std::ofstream(p) << "data"; } expect_dir = false; break;
      case 3: what = "below-file"; { std::ofstream(root + "/blk") << "data"; } p = root + "/blk/" + name(rng); expect_dir = false; break;
      case 4: what = "link-to-dir"; fs::create_directories(root + "/tgt"); fs::create_symlink("tgt", root + "/lnk"); p = root + "/lnk"; if (rng.coin()) p += "/" + name(rng); expect_dir = true; break;
      case 5: what = "dangling"; fs::create_symlink("nowhere", root + "/dl"); p = root + "/dl"; expect_dir = false; break;
      case 6: what = "trailing-slash"; p += "/"; expect_dir = true; break;
      case 7: what = "loop"; fs::create_symlink("lp", root + "/lp"); p = root + "/lp"; expect_dir = false; break;
      case 8: what = "fifo"; mkfifo((root + "/ff").c_str(), 0600); p = root + "/ff"; if (rng.coin(.3)) p += "/" + name(rng); expect_dir = false; break;
      case 9: what = "dotdot"; fs::create_directories(root + "/q"); p = root + "/q/../" + name(rng) + "/./" + name(rng); expect_dir = true; break;
      case 10: what = "deep"; for (int k = 0; k < 40; ++k) p += "/" + name(rng); expect_dir = true; break;
      case 11: what = "chain-of-links"; fs::create_directories(root + "/tgt"); fs::create_symlink("tgt", root + "/l1"); fs::create_symlink("l1", root + "/l2"); p = root + "/l2/" + name(rng) + "/" + name(rng); expect_dir = true; break;
      case 12: what = "link-to-file"; { std::ofstream(root + "/tf") << "data"; } fs::create_symlink("tf", root + "/lf"); p = root + "/lf"; expect_dir = false; break;
      default: what = "name-too-long"; p += "/" + std::string(400, 'n'); expect_dir = false;
    }
    vh::Doing(what + " " + p);
    if (rng.coin(.3)) { fs::create_directories(root + "/side/n"); std::ofstream(root + "/side/f") << "side"; chmod((root + "/side").c_str(), 0750); }
    bool was = exists(p), wasdir = isdir(p); auto t0 = tree(root); mode_t um = umask(022); umask(um); std::string cwd = fs::current_path().string();
    bool r0 = false, r1 = false; bool threw = false; int f = (int) rng.below(2);
    try { r0 = IsPathExist(p); vh::Check(isdir(p) == wasdir && exists(p) == was, "fs:query-changes-state", what, " ", p); r1 = f ? EnsureDirectoryExists(p) : CreatePath(p); } catch (...) { threw = true; }
    vh::Check(!threw, "fs:throws", what, " ", p);
    vh::Check(r0 == was, "fs:exists-wrong", what, " ", p, " got ", r0);
    vh::Check(r1 == isdir(p), "fs:answer-not-truth", what, " ", p, " returned ", r1, " but directory exists=", isdir(p));
    vh::Check(isdir(p) == expect_dir, "fs:not-created", what, " ", p);
    vh::Check(IsPathExist(p) == exists(p), "fs:exists-wrong", what, " after ", p);
    if (kind == 1) { std::ifstream k(p + "/keep"); std::string t; k >> t; vh::Check(t == "x", "fs:clobbers", p); }
    if (kind == 2) { std::ifstream k(p); std::string t; k >> t; vh::Check(t == "data", "fs:clobbers", p); }
    auto t1 = tree(root); for (auto &kv : t0) vh::Check(t1.count(kv.first) && t1[kv.first] == kv.second, "fs:existing-entry-changed", what, " ", p, ": ", kv.first, " ", kv.second, " -> ", t1.count(kv.first) ? t1[kv.first] : "gone");
    for (auto &kv : t1) if (!t0.count(kv.first)) vh::Check(fs::is_directory(fs::symlink_status(kv.first)), "fs:stray-entry", what, " ", p, " left ", kv.first);
    if (was) vh::Check(t1.size() == t0.size(), "fs:stray-entry", what, " ", p, " ", t0.size(), " -> ", t1.size(), " entries");
    { mode_t u2 = umask(022); umask(u2); vh::Check(u2 == um && fs::current_path().string() == cwd, "fs:process-state-changed", p); } vh::Observe("fs_tree_compare");
    bool r2 = EnsureDirectoryExists(p); vh::Check(r2 == isdir(p), "fs:not-idempotent", what, " ", p);
    vh::Observe("fs_" + what); vh::Observe("fs_call", 3); vh::Case(vh::hash_str(p, kind * 7 + f)); vh::Sample(what + " " + p);
    fs::remove_all(root);
  }
  vh::Check(!IsPathExist("") && !CreatePath("") && !EnsureDirectoryExists(""), "fs:empty", "empty path accepted");
}
// Several processes create the same nested directory at the same instant: every one must report success.
SECTION("race", 2, 6) {
  Quiet q;
  const int P = 6;
  struct Sh { std::atomic<int> ready, go; int res[16]; };
  Sh *sh = (Sh *) mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (uint64_t c = 0; c < vh::N(150, 1500); ++c) {
    new (sh) Sh(); sh->ready = 0; sh->go = 0;
    std::string root = vh::cat("r", c); fs::create_directory(root);
    std::string p = root; size_t d = 1 + rng.below(4); for (size_t i = 0; i < d; ++i) p += "/" + name(rng);
    std::vector<pid_t> kids; int f = (int) rng.below(2); bool leaves = rng.coin(.3); auto mine = [&](int i) { return leaves ? vh::cat(p, "/rank", i / 2, "/x") : p; };
    for (int i = 0; i < P; ++i) {
      pid_t k = fork();
      if (k == 0) { sh->ready++; while (!sh->go) sched_yield(); bool r; try { r = f ? EnsureDirectoryExists(mine(i)) : CreatePath(mine(i)); sh->res[i] = r ? 1 : 2; } catch (...) { sh->res[i] = 3; } _exit(0); }
      kids.push_back(k);
    }
    while (sh->ready < P) sched_yield();
    sh->go = 1;
    int st; for (auto k : kids) waitpid(k, &st, 0);
    int bad = 0; for (int i = 0; i < P; ++i) bad += sh->res[i] != 1;
    for (int i = 0; i < P; ++i) vh::Check(isdir(mine(i)), "fs:race-not-created", mine(i));
    vh::Check(bad == 0, "fs:race-false-failure", bad, " of ", P, " processes reported failure although ", p, " exists");
    vh::Observe("fs_race_calls", P); vh::Case(vh::hash_str(p, c)); fs::remove_all(root);
  }
}
