// Monitoring stand-in for MPI. Ranks are forked processes that share one arena; a seeded scheduler
// lets exactly one rank run between MPI calls, so every interleaving is reproducible, a deadlock is
// detected (not timed out), and every call is recorded and matched against its peers:
//   - collectives: same order, kind, root, reduction, element count on every rank of a communicator
//   - point to point: truncation, type mismatch, messages never received
//   - two completion modes: eager (sends/contributions leave at once) and rendezvous (they wait)
// Outside vmpi::Run the process is a single-rank world.
#pragma once
#ifndef VERIF_SHIM_MPI_H
#define VERIF_SHIM_MPI_H
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define VERIF_MPI_SHIM 1
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef int MPI_Fint;
struct MPI_Status { int MPI_SOURCE = -1, MPI_TAG = -1, MPI_ERROR = 0; size_t bytes_ = 0; };
struct MPI_Request_ { int kind = 0; void *buf = nullptr; int count = 0; MPI_Datatype type = 0; int peer = 0, tag = 0; MPI_Comm comm = 0; bool done = false; MPI_Status st; };
typedef MPI_Request_ *MPI_Request;

#define MPI_COMM_NULL (-1)
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_ROOT (-3)
#define MPI_STATUS_IGNORE ((MPI_Status *) nullptr)
#define MPI_STATUSES_IGNORE ((MPI_Status *) nullptr)
#define MPI_IN_PLACE ((void *) 1)
#define MPI_REQUEST_NULL ((MPI_Request) nullptr)
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1
enum {
  MPI_DATATYPE_NULL = 0, MPI_CHAR = 1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED,
  MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE,
  MPI_CXX_BOOL, MPI_CXX_FLOAT_COMPLEX, MPI_CXX_DOUBLE_COMPLEX, MPI_DOUBLE_INT, MPI_2INT,
  MPI_LONG_LONG_INT = MPI_LONG_LONG, MPI_C_BOOL = MPI_CXX_BOOL, MPI_C_FLOAT_COMPLEX = MPI_CXX_FLOAT_COMPLEX, MPI_C_DOUBLE_COMPLEX = MPI_CXX_DOUBLE_COMPLEX,
  MPI_C_COMPLEX = MPI_CXX_FLOAT_COMPLEX, MPI_DOUBLE_COMPLEX = MPI_CXX_DOUBLE_COMPLEX,
  MPI_INT8_T = MPI_SIGNED_CHAR, MPI_UINT8_T = MPI_UNSIGNED_CHAR, MPI_INT16_T = MPI_SHORT, MPI_UINT16_T = MPI_UNSIGNED_SHORT, MPI_INT32_T = MPI_INT,
  MPI_UINT32_T = MPI_UNSIGNED, MPI_INT64_T = MPI_LONG, MPI_UINT64_T = MPI_UNSIGNED_LONG
};
enum { MPI_OP_NULL = 0, MPI_SUM = 1, MPI_PROD, MPI_MAX, MPI_MIN, MPI_LOR, MPI_LAND, MPI_BOR, MPI_BAND, MPI_BXOR, MPI_LXOR, MPI_MAXLOC, MPI_MINLOC };

namespace vmpi {

inline size_t tsize(MPI_Datatype t) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT: case MPI_UNSIGNED: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: return 8;
    case MPI_FLOAT: return 4; case MPI_DOUBLE: return 8; case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_CXX_BOOL: return 1; case MPI_CXX_FLOAT_COMPLEX: return 8; case MPI_CXX_DOUBLE_COMPLEX: return 16;
    case MPI_DOUBLE_INT: return 16; case MPI_2INT: return 8;
  }
  return 0;
}
template<class T, class F> inline void fold(void *a, const void *b, size_t n, F f) {
  T *x = (T *) a; const T *y = (const T *) b;
  for (size_t i = 0; i < n; ++i) { T u, v; std::memcpy(&u, x + i, sizeof(T)); std::memcpy(&v, y + i, sizeof(T)); u = f(u, v); std::memcpy(x + i, &u, sizeof(T)); }
}
template<class T> inline bool red_num(void *a, const void *b, size_t n, MPI_Op op) {
  switch (op) {
    case MPI_SUM: fold<T>(a, b, n, [](T x, T y) { return (T) (x + y); }); return true;
    case MPI_PROD: fold<T>(a, b, n, [](T x, T y) { return (T) (x * y); }); return true;
    case MPI_MAX: fold<T>(a, b, n, [](T x, T y) { return x < y ? y : x; }); return true;
    case MPI_MIN: fold<T>(a, b, n, [](T x, T y) { return y < x ? y : x; }); return true;
    case MPI_LOR: fold<T>(a, b, n, [](T x, T y) { return (T) (x || y); }); return true;
    case MPI_LAND: fold<T>(a, b, n, [](T x, T y) { return (T) (x && y); }); return true;
    case MPI_LXOR: fold<T>(a, b, n, [](T x, T y) { return (T) (!x != !y); }); return true;
  }
  return false;
}
template<class T> inline bool red_int(void *a, const void *b, size_t n, MPI_Op op) {
  switch (op) {
    case MPI_BOR: fold<T>(a, b, n, [](T x, T y) { return (T) (x | y); }); return true;
    case MPI_BAND: fold<T>(a, b, n, [](T x, T y) { return (T) (x & y); }); return true;
    case MPI_BXOR: fold<T>(a, b, n, [](T x, T y) { return (T) (x ^ y); }); return true;
  }
  return red_num<T>(a, b, n, op);
}
template<class T> inline bool red_cplx(void *a, const void *b, size_t n, MPI_Op op) {
  if (op == MPI_SUM) { fold<T>(a, b, n, [](T x, T y) { return x + y; }); return true; }
  if (op == MPI_PROD) { fold<T>(a, b, n, [](T x, T y) { return x * y; }); return true; }
  return false;
}
inline bool reduce(void *a, const void *b, size_t n, MPI_Datatype t, MPI_Op op) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: return red_int<signed char>(a, b, n, op);
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: return red_int<unsigned char>(a, b, n, op);
    case MPI_SHORT: return red_int<short>(a, b, n, op);
    case MPI_UNSIGNED_SHORT: return red_int<unsigned short>(a, b, n, op);
    case MPI_INT: return red_int<int>(a, b, n, op);
    case MPI_UNSIGNED: return red_int<unsigned>(a, b, n, op);
    case MPI_LONG: case MPI_LONG_LONG: return red_int<long>(a, b, n, op);
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: return red_int<unsigned long>(a, b, n, op);
    case MPI_FLOAT: return red_num<float>(a, b, n, op);
    case MPI_DOUBLE: return red_num<double>(a, b, n, op);
    case MPI_LONG_DOUBLE: return red_num<long double>(a, b, n, op);
    case MPI_CXX_BOOL: return red_int<unsigned char>(a, b, n, op);
    case MPI_CXX_FLOAT_COMPLEX: return red_cplx<std::complex<float>>(a, b, n, op);
    case MPI_CXX_DOUBLE_COMPLEX: return red_cplx<std::complex<double>>(a, b, n, op);
    case MPI_DOUBLE_INT: {
      struct DI { double v; int i; };
      bool mx = op == MPI_MAXLOC;
      fold<DI>(a, b, n, [mx](DI x, DI y) { if (x.v == y.v) return x.i <= y.i ? x : y; return ((x.v < y.v) == mx) ? y : x; });
      return true;
    }
  }
  return false;
}

constexpr int kMaxRanks = 16;
constexpr int kMaxComms = 512;
enum RState { R_READY = 0, R_BLOCKED, R_DONE, R_DEAD };
enum Fate { F_FINE = 0, F_DEADLOCK = 1, F_MISMATCH = 2, F_ABORT = 3, F_INTERNAL = 4, F_TRUNC = 5 };

struct Msg { size_t next; int src, dst, tag, comm; MPI_Datatype type; size_t bytes, data; int taken; };
struct Coll {
  size_t next; int comm; uint64_t seq; int kind, root, op; MPI_Datatype type; long count; int arrived, left, first_rank;
  size_t data[kMaxRanks]; long cnt[kMaxRanks]; int in[kMaxRanks];
};
struct Comm { int used, n; int member[kMaxRanks]; uint64_t seq[kMaxRanks]; };
struct Shared {
  pthread_mutex_t mu; pthread_cond_t cv[kMaxRanks];
  int n, current, fate; int rendezvous; double yield_p;
  uint64_t rng, progress, trace, events, sends, recvs, colls, switches, anysrc_choices;
  int state[kMaxRanks]; uint64_t blocked_at[kMaxRanks]; char doing[kMaxRanks][160];
  char problem[2048]; int abort_code, abort_rank;
  size_t arena_size, arena_top;
  size_t msg_head[kMaxRanks], msg_tail[kMaxRanks]; size_t coll_head;
  Comm comm[kMaxComms];
  uint64_t progress_marks[kMaxRanks];
};
struct Local { Shared *sh = nullptr; char *base = nullptr; int rank = 0; bool initialized = true, finalized = false; uint64_t calls = 0; };
inline Local &L() { static Local l; return l; }
inline bool active() { return L().sh != nullptr; }
inline int world_size() { return active() ? L().sh->n : 1; }
inline int world_rank() { return active() ? L().rank : 0; }

inline uint64_t smix(uint64_t &s) { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline void lock() { int e = pthread_mutex_lock(&L().sh->mu); if (e == EOWNERDEAD) pthread_mutex_consistent(&L().sh->mu); }
inline void unlock() { pthread_mutex_unlock(&L().sh->mu); }
[[noreturn]] inline void leave(int code) { std::fflush(nullptr); ::_exit(code); }
inline void fail(int fate, const char *fmt, ...) {
  Shared *s = L().sh;
  if (s->fate == F_FINE) {
    s->fate = fate;
    va_list ap; va_start(ap, fmt); std::vsnprintf(s->problem, sizeof s->problem, fmt, ap); va_end(ap);
  }
  for (int i = 0; i < s->n; ++i) pthread_cond_broadcast(&s->cv[i]);
}
inline size_t alloc(size_t n) {
  Shared *s = L().sh;
  size_t p = (s->arena_top + 15) & ~size_t(15);
  if (p + n > s->arena_size) { fail(F_INTERNAL, "shim arena exhausted"); unlock(); leave(96); }
  s->arena_top = p + n;
  return p;
}
template<class T> inline T *at(size_t off) { return (T *) (L().base + off); }
inline void event(uint64_t a, uint64_t b, uint64_t c) { Shared *s = L().sh; s->events++; uint64_t h = s->trace ^ (a * 0x100000001b3ULL + b * 1000003 + c); s->trace = smix(h); }

// pick the next rank to run; called with the lock held
inline void pick() {
  Shared *s = L().sh;
  int cand[kMaxRanks], k = 0, alive = 0;
  for (int i = 0; i < s->n; ++i) {
    if (s->state[i] == R_READY) { cand[k++] = i; alive++; }
    else if (s->state[i] == R_BLOCKED) { alive++; if (s->blocked_at[i] < s->progress) cand[k++] = i; }
  }
  if (k == 0) {
    if (alive) {
      std::string d;
      for (int i = 0; i < s->n; ++i) { d += " rank" + std::to_string(i) + ":"; d += s->state[i] == R_BLOCKED ? s->doing[i] : s->state[i] == R_DONE ? "finished" : "died"; }
      fail(F_DEADLOCK, "deadlock:%s", d.c_str());
    }
    s->current = -1;
    return;
  }
  int nx = cand[smix(s->rng) % k];
  if (nx != s->current) s->switches++;
  s->current = nx;
  pthread_cond_broadcast(&s->cv[nx]);
}
inline void wait_turn() {
  Shared *s = L().sh;
  while (s->current != L().rank && s->fate == F_FINE) {
    int e = pthread_cond_wait(&s->cv[L().rank], &s->mu);
    if (e == EOWNERDEAD) pthread_mutex_consistent(&s->mu);
  }
  if (s->fate != F_FINE) { unlock(); leave(90 + s->fate); }
}
// run `attempt` (lock held, our turn) until it says done; yields around it
template<class F> inline void call(const char *what, F &&attempt) {
  Shared *s = L().sh;
  lock();
  wait_turn();
  L().calls++;
  s->state[L().rank] = R_READY;
  if ((smix(s->rng) >> 11) * (1.0 / 9007199254740992.0) < s->yield_p) { pick(); wait_turn(); }
  std::snprintf(s->doing[L().rank], sizeof s->doing[0], "%s", what);
  while (true) {
    if (attempt()) { if (s->fate != F_FINE) { unlock(); leave(90 + s->fate); } break; }
    if (s->fate != F_FINE) { unlock(); leave(90 + s->fate); }
    s->state[L().rank] = R_BLOCKED;
    s->blocked_at[L().rank] = s->progress;
    pick();
    wait_turn();
  }
  s->state[L().rank] = R_READY;
  unlock();
}

struct Options { int n = 2; uint64_t seed = 1; bool rendezvous = false; double yield_p = 0.5; size_t arena_mb = 512; };
struct RunResult {
  int fate = F_FINE; std::string problem; std::vector<std::string> out; std::vector<int> status; // status: raw waitpid status
  uint64_t trace = 0, events = 0, switches = 0, sends = 0, recvs = 0, colls = 0, unreceived = 0; int abort_code = 0, abort_rank = -1;
  bool clean() const { if (fate != F_FINE) return false; for (int s : status) if (s != 0) return false; return true; }
  std::string describe() const {
    std::ostringstream os;
    if (fate != F_FINE) os << problem << "; ";
    for (size_t i = 0; i < status.size(); ++i) if (status[i]) { os << "rank" << i << (WIFSIGNALED(status[i]) ? " signal " : " exit "); os << (WIFSIGNALED(status[i]) ? WTERMSIG(status[i]) : WEXITSTATUS(status[i])) << "; "; }
    return os.str();
  }
};

// Run fn(rank, out) on n forked ranks. Text written to `out` comes back per rank.
inline RunResult Run(const Options &o, const std::function<void(int, std::ostream &)> &fn) {
  RunResult res;
  size_t arena = o.arena_mb << 20, total = sizeof(Shared) + 4096 + arena;
  char *mem = (char *) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) { std::perror("mmap"); ::_exit(3); }
  Shared *s = (Shared *) mem;   // zero-filled
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST);
  pthread_mutex_init(&s->mu, &ma);
  pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
  for (auto &c : s->cv) pthread_cond_init(&c, &ca);
  s->n = o.n; s->rng = o.seed * 0x2545F4914F6CDD1DULL + 77; s->rendezvous = o.rendezvous; s->yield_p = o.yield_p; s->abort_rank = -1;
  s->arena_size = arena; s->arena_top = 64;
  s->comm[MPI_COMM_WORLD].used = 1; s->comm[MPI_COMM_WORLD].n = o.n; for (int i = 0; i < o.n; ++i) s->comm[MPI_COMM_WORLD].member[i] = i;
  s->comm[MPI_COMM_SELF].used = 1; s->comm[MPI_COMM_SELF].n = 1;
  { uint64_t r = s->rng; s->current = smix(r) % o.n; }
  std::fflush(nullptr);
  std::vector<pid_t> pid(o.n);
  std::vector<int> fds(o.n);
  char *arena_base = mem + ((sizeof(Shared) + 4095) & ~size_t(4095)) - 0;
  s->arena_size = total - (arena_base - mem);
  for (int r = 0; r < o.n; ++r) {
    int fd = memfd_create("vmpi", 0);
    fds[r] = fd;
    pid[r] = fork();
    if (pid[r] < 0) { std::perror("fork"); ::_exit(3); }
    if (pid[r] == 0) {
      L().sh = s; L().base = arena_base; L().rank = r;
      lock(); wait_turn(); unlock();
      std::ostringstream os; os.precision(17);
      int code = 0;
      try { fn(r, os); } catch (const std::exception &e) { os << "\nEXCEPTION " << e.what() << "\n"; code = 55; }
      std::string t = os.str();
      for (size_t off = 0; off < t.size();) { ssize_t w = ::write(fd, t.data() + off, t.size() - off); if (w <= 0) break; off += w; }
      std::fflush(nullptr);
      ::_exit(code);
    }
  }
  // reap: a rank that ends (normally or not) gives up its turn
  L().sh = s; L().base = arena_base; L().rank = -1;
  res.status.assign(o.n, 0);
  for (int left = o.n; left > 0;) {
    int stt; pid_t p = waitpid(-1, &stt, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (int r = 0; r < o.n; ++r) if (pid[r] == p) {
      left--;
      res.status[r] = stt;
      lock();
      s->state[r] = (stt == 0) ? R_DONE : R_DEAD;
      if (s->current == r || s->current == -1) pick();
      unlock();
    }
  }
  for (int r = 0; r < o.n; ++r) {
    off_t sz = lseek(fds[r], 0, SEEK_END); std::string t(sz > 0 ? sz : 0, 0);
    if (sz > 0) { ssize_t got = pread(fds[r], t.data(), sz, 0); (void) got; }
    ::close(fds[r]);
    res.out.push_back(t);
    for (size_t m = s->msg_head[r]; m; m = at<Msg>(m)->next) res.unreceived += !at<Msg>(m)->taken;
  }
  res.fate = s->fate; res.problem = s->problem; res.trace = s->trace; res.events = s->events; res.switches = s->switches; res.sends = s->sends; res.recvs = s->recvs; res.colls = s->colls;
  res.abort_code = s->abort_code; res.abort_rank = s->abort_rank;
  if (res.fate != F_FINE) for (auto &x : res.status) if (WIFEXITED(x) && WEXITSTATUS(x) == 90 + res.fate) x = 0;
  L() = Local{};
  munmap(mem, total);
  return res;
}

inline int crank(MPI_Comm c) { if (c == MPI_COMM_SELF || !active()) return 0; Comm &cm = L().sh->comm[c]; for (int i = 0; i < cm.n; ++i) if (cm.member[i] == L().rank) return i; return -1; }
inline int csize(MPI_Comm c) { if (c == MPI_COMM_SELF || !active()) return 1; return L().sh->comm[c].n; }
inline bool solo(MPI_Comm c) { return !active() || c == MPI_COMM_SELF || csize(c) == 1; }

enum Kind { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_GATHER, K_GATHERV, K_ALLGATHER, K_ALLGATHERV, K_SCATTER, K_SCATTERV, K_DUP, K_SPLIT, K_ALLTOALL };
inline const char *kname(int k) { static const char *n[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv", "Comm_dup", "Comm_split", "Alltoall"}; return n[k]; }

// Enter a collective: deposit `bytes` of data, then wait for whoever we depend on. Returns the instance.
inline Coll *coll(MPI_Comm comm, int kind, int root, int op, MPI_Datatype type, long count, const void *data, size_t bytes) {
  Shared *s = L().sh;
  int me = crank(comm), n = csize(comm);
  size_t inst = 0; bool entered = false;
  char what[160]; std::snprintf(what, sizeof what, "%s(root=%d,count=%ld,comm=%d)", kname(kind), root, count, comm);
  if (root >= n || root < -1) { lock(); fail(F_MISMATCH, "collective root out of range: %s", what); unlock(); leave(90 + F_MISMATCH); }
  call(what, [&]() -> bool {
    Comm &cm = s->comm[comm];
    if (!entered) {
      if (me < 0 || !cm.used) { fail(F_MISMATCH, "rank %d uses a freed/foreign communicator in %s", L().rank, what); return true; }
      uint64_t seq = cm.seq[me]++;
      for (size_t c = s->coll_head; c; c = at<Coll>(c)->next) if (at<Coll>(c)->comm == comm && at<Coll>(c)->seq == seq) { inst = c; break; }
      if (!inst) {
        inst = alloc(sizeof(Coll)); Coll *c = at<Coll>(inst); std::memset(c, 0, sizeof *c);
        c->comm = comm; c->seq = seq; c->kind = kind; c->root = root; c->op = op; c->type = type; c->count = count; c->first_rank = me;
        c->next = s->coll_head; s->coll_head = inst;
      }
      Coll *c = at<Coll>(inst);
      bool cnt_matters = kind == K_BCAST || kind == K_REDUCE || kind == K_ALLREDUCE || kind == K_GATHER || kind == K_ALLGATHER || kind == K_SCATTER || kind == K_ALLTOALL;
      if (c->kind != kind || c->root != root || c->op != op || (cnt_matters && (c->count != count || tsize(c->type) != tsize(type)))) {
        fail(F_MISMATCH, "collective #%llu on comm %d: rank %d calls %s(root=%d,op=%d,count=%ld,type=%d) but rank %d called %s(root=%d,op=%d,count=%ld,type=%d)",
             (unsigned long long) seq, comm, me, kname(kind), root, op, count, type, c->first_rank, kname(c->kind), c->root, c->op, c->count, c->type);
        return true;
      }
      if (data && bytes) { c->data[me] = alloc(bytes); std::memcpy(at<char>(c->data[me]), data, bytes); }
      c->cnt[me] = (long) bytes; c->in[me] = 1; c->arrived++;
      s->progress++; s->colls++; event(kind, comm * 131 + root, seq * 17 + me);
      entered = true;
    }
    Coll *c = at<Coll>(inst);
    bool all = c->arrived == n;
    if (s->rendezvous) return all;
    switch (kind) {
      case K_BCAST: case K_SCATTER: case K_SCATTERV: return me == root || c->in[root];
      case K_REDUCE: case K_GATHER: case K_GATHERV: return me != root || all;
      default: return all;
    }
  });
  return at<Coll>(inst);
}
inline void coll_leave(Coll *c) {
  // drop fully consumed instances from the list so lookups stay short
  Shared *s = L().sh; lock();
  c->left++;
  if (c->left == s->comm[c->comm].n) {
    size_t *pp = &s->coll_head;
    while (*pp && at<Coll>(*pp) != c) pp = &at<Coll>(*pp)->next;
    if (*pp) *pp = c->next;
  }
  unlock();
}
inline int new_comm(const std::vector<int> &members) {
  Shared *s = L().sh;
  for (int i = 2; i < kMaxComms; ++i) if (!s->comm[i].used) { Comm &c = s->comm[i]; std::memset(&c, 0, sizeof c); c.used = 1; c.n = (int) members.size(); for (size_t k = 0; k < members.size(); ++k) c.member[k] = members[k]; return i; }
  fail(F_INTERNAL, "too many communicators"); return -1;
}
struct SelfMsg { int tag; MPI_Datatype type; std::vector<char> data; };
inline std::vector<SelfMsg> &selfq() { static std::vector<SelfMsg> q; return q; }
}  // namespace vmpi

inline int MPI_Init(int *, char ***) { vmpi::L().initialized = true; return 0; }
inline int MPI_Init_thread(int *, char ***, int req, int *prov) { if (prov) *prov = req; return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Finalized(int *f) { *f = vmpi::L().finalized; return 0; }
inline int MPI_Finalize() { vmpi::L().finalized = true; return 0; }
inline double MPI_Wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { *r = vmpi::crank(c); return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *n) { *n = vmpi::csize(c); return 0; }
inline int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int) vmpi::tsize(t); return 0; }
inline int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
inline int MPI_Error_string(int e, char *s, int *l) { *l = std::snprintf(s, MPI_MAX_ERROR_STRING, "MPI error %d", e); return 0; }
inline int MPI_Get_processor_name(char *s, int *l) { *l = std::snprintf(s, MPI_MAX_PROCESSOR_NAME, "vmpi"); return 0; }
inline int MPI_Abort(MPI_Comm, int code) {
  if (!vmpi::active()) { std::fprintf(stderr, "MPI_Abort(%d)\n", code); std::fflush(nullptr); ::_exit(code ? code : 1); }
  vmpi::lock(); vmpi::L().sh->abort_code = code; vmpi::L().sh->abort_rank = vmpi::L().rank;
  vmpi::fail(vmpi::F_ABORT, "MPI_Abort(%d) by rank %d", code, vmpi::L().rank); vmpi::unlock(); vmpi::leave(90 + vmpi::F_ABORT);
}
inline int MPI_Barrier(MPI_Comm c) { if (vmpi::solo(c)) return 0; auto *k = vmpi::coll(c, vmpi::K_BARRIER, -1, 0, 0, 0, nullptr, 0); vmpi::coll_leave(k); return 0; }
inline int MPI_Bcast(void *buf, int count, MPI_Datatype t, int root, MPI_Comm c) {
  if (vmpi::solo(c)) return 0;
  size_t b = (size_t) count * vmpi::tsize(t); int me = vmpi::crank(c);
  auto *k = vmpi::coll(c, vmpi::K_BCAST, root, 0, t, count, me == root ? buf : nullptr, me == root ? b : 0);
  if (me != root && b) std::memcpy(buf, vmpi::at<char>(k->data[root]), b);
  vmpi::coll_leave(k);
  return 0;
}
namespace vmpi {
inline int reduce_any(int kind, const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  size_t b = (size_t) count * tsize(t); int me = crank(c), n = csize(c);
  if (sb == MPI_IN_PLACE) sb = rb;
  if (solo(c)) { if (sb != rb && b) std::memcpy(rb, sb, b); return 0; }
  Coll *k = coll(c, kind, root, op, t, count, sb, b);
  if ((kind == K_ALLREDUCE || me == root) && b) {
    std::vector<char> acc(b);
    std::memcpy(acc.data(), at<char>(k->data[0]), b);
    for (int r = 1; r < n; ++r) if (!reduce(acc.data(), at<char>(k->data[r]), count, t, op)) { lock(); fail(F_MISMATCH, "reduction op %d not defined for type %d", op, t); unlock(); leave(90 + F_MISMATCH); }
    std::memcpy(rb, acc.data(), b);
  }
  coll_leave(k);
  return 0;
}
}
inline int MPI_Reduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return vmpi::reduce_any(vmpi::K_REDUCE, sb, rb, count, t, op, root, c); }
inline int MPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return vmpi::reduce_any(vmpi::K_ALLREDUCE, sb, rb, count, t, op, -1, c); }
inline int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  size_t b = (size_t) sc * vmpi::tsize(st); int me = vmpi::crank(c), n = vmpi::csize(c);
  bool inplace = sb == MPI_IN_PLACE;
  if (inplace) { b = (size_t) rc * vmpi::tsize(rt); sb = (char *) rb + me * b; sc = rc; st = rt; }
  if (vmpi::solo(c)) { if (b && !inplace) std::memcpy(rb, sb, b); return 0; }
  auto *k = vmpi::coll(c, vmpi::K_GATHER, root, 0, st, sc, sb, b);
  if (me == root) for (int r = 0; r < n; ++r) if (b && !(inplace && r == me)) std::memcpy((char *) rb + (size_t) r * rc * vmpi::tsize(rt), vmpi::at<char>(k->data[r]), b);
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Gatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, const int *dis, MPI_Datatype rt, int root, MPI_Comm c) {
  size_t b = (size_t) sc * vmpi::tsize(st); int me = vmpi::crank(c), n = vmpi::csize(c);
  if (vmpi::solo(c)) { if (b) std::memcpy((char *) rb + dis[0] * vmpi::tsize(rt), sb, b); return 0; }
  auto *k = vmpi::coll(c, vmpi::K_GATHERV, root, 0, st, sc, sb, b);
  if (me == root) for (int r = 0; r < n; ++r) {
    if ((size_t) k->cnt[r] != (size_t) rcs[r] * vmpi::tsize(rt)) { vmpi::lock(); vmpi::fail(vmpi::F_TRUNC, "Gatherv: rank %d sent %ld bytes, root expects %d items", r, k->cnt[r], rcs[r]); vmpi::unlock(); vmpi::leave(95); }
    if (k->cnt[r]) std::memcpy((char *) rb + dis[r] * vmpi::tsize(rt), vmpi::at<char>(k->data[r]), k->cnt[r]);
  }
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c) {
  size_t b = (size_t) sc * vmpi::tsize(st); int me = vmpi::crank(c), n = vmpi::csize(c);
  bool inplace = sb == MPI_IN_PLACE;
  if (inplace) { b = (size_t) rc * vmpi::tsize(rt); sb = (char *) rb + me * b; sc = rc; st = rt; }
  if (vmpi::solo(c)) { if (b && !inplace) std::memcpy(rb, sb, b); return 0; }
  auto *k = vmpi::coll(c, vmpi::K_ALLGATHER, -1, 0, st, sc, sb, b);
  for (int r = 0; r < n; ++r) if (b && !(inplace && r == me)) std::memcpy((char *) rb + (size_t) r * rc * vmpi::tsize(rt), vmpi::at<char>(k->data[r]), b);
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, const int *dis, MPI_Datatype rt, MPI_Comm c) {
  size_t b = (size_t) sc * vmpi::tsize(st); int n = vmpi::csize(c);
  if (vmpi::solo(c)) { if (b) std::memcpy((char *) rb + dis[0] * vmpi::tsize(rt), sb, b); return 0; }
  auto *k = vmpi::coll(c, vmpi::K_ALLGATHERV, -1, 0, st, sc, sb, b);
  for (int r = 0; r < n; ++r) if (k->cnt[r]) {
    if ((size_t) k->cnt[r] != (size_t) rcs[r] * vmpi::tsize(rt)) { vmpi::lock(); vmpi::fail(vmpi::F_TRUNC, "Allgatherv size mismatch"); vmpi::unlock(); vmpi::leave(95); }
    std::memcpy((char *) rb + dis[r] * vmpi::tsize(rt), vmpi::at<char>(k->data[r]), k->cnt[r]);
  }
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Scatter(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  size_t b = (size_t) rc * vmpi::tsize(rt); int me = vmpi::crank(c), n = vmpi::csize(c);
  if (vmpi::solo(c)) { if (b && rb != MPI_IN_PLACE) std::memcpy(rb, sb, b); return 0; }
  auto *k = vmpi::coll(c, vmpi::K_SCATTER, root, 0, rt, rc, me == root ? sb : nullptr, me == root ? b * n : 0);
  if (b && rb != MPI_IN_PLACE) std::memcpy(rb, vmpi::at<char>(k->data[root]) + me * b, b);
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Scatterv(const void *sb, const int *scs, const int *dis, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  int me = vmpi::crank(c), n = vmpi::csize(c); size_t ts = vmpi::tsize(st);
  if (vmpi::solo(c)) { if (rc) std::memcpy(rb, (const char *) sb + dis[0] * ts, (size_t) rc * ts); return 0; }
  std::vector<char> pk; std::vector<size_t> hd;
  if (me == root) { size_t off = sizeof(size_t) * 2 * n; for (int r = 0; r < n; ++r) { hd.push_back(off); hd.push_back(scs[r] * ts); off += scs[r] * ts; } pk.resize(off); std::memcpy(pk.data(), hd.data(), hd.size() * sizeof(size_t)); for (int r = 0; r < n; ++r) std::memcpy(pk.data() + hd[2 * r], (const char *) sb + dis[r] * ts, scs[r] * ts); }
  auto *k = vmpi::coll(c, vmpi::K_SCATTERV, root, 0, rt, 0, pk.data(), pk.size());
  const char *d = vmpi::at<char>(k->data[root]); size_t h[2]; std::memcpy(h, d + sizeof(size_t) * 2 * me, sizeof h);
  if (h[1] > (size_t) rc * vmpi::tsize(rt)) { vmpi::lock(); vmpi::fail(vmpi::F_TRUNC, "Scatterv truncation"); vmpi::unlock(); vmpi::leave(95); }
  if (h[1]) std::memcpy(rb, d + h[0], h[1]);
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c) {
  size_t b = (size_t) sc * vmpi::tsize(st); int me = vmpi::crank(c), n = vmpi::csize(c);
  if (vmpi::solo(c)) { if (b) std::memcpy(rb, sb, b); return 0; }
  auto *k = vmpi::coll(c, vmpi::K_ALLTOALL, -1, 0, st, sc, sb, b * n);
  for (int r = 0; r < n; ++r) if (b) std::memcpy((char *) rb + r * b, vmpi::at<char>(k->data[r]) + me * b, b);
  vmpi::coll_leave(k);
  return 0;
}
namespace vmpi {
inline int send_any(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool may_block) {
  if (dst == MPI_PROC_NULL) return 0;
  size_t b = (size_t) count * tsize(t);
  if (!active() || c == MPI_COMM_SELF) { selfq().push_back({tag, t, std::vector<char>((const char *) buf, (const char *) buf + b)}); return 0; }
  Shared *s = L().sh; size_t m = 0;
  char what[160]; std::snprintf(what, sizeof what, "Send(to=%d,tag=%d,bytes=%zu,comm=%d)", dst, tag, b, c);
  int me = crank(c);
  call(what, [&]() -> bool {
    if (!m) {
      if (dst < 0 || dst >= s->comm[c].n) { fail(F_MISMATCH, "send to rank %d out of range", dst); return true; }
      int w = s->comm[c].member[dst];
      m = alloc(sizeof(Msg)); Msg *p = at<Msg>(m); std::memset(p, 0, sizeof *p);
      p->src = me; p->dst = dst; p->tag = tag; p->comm = c; p->type = t; p->bytes = b;
      if (b) { p->data = alloc(b); std::memcpy(at<char>(p->data), buf, b); }
      if (s->msg_tail[w]) at<Msg>(s->msg_tail[w])->next = m; else s->msg_head[w] = m;
      s->msg_tail[w] = m;
      s->progress++; s->sends++; event(100, me * 16 + dst, tag);
    }
    return !may_block || !s->rendezvous || at<Msg>(m)->taken;
  });
  return 0;
}
inline int recv_any(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st, bool probe, int *flag) {
  size_t cap = (size_t) count * tsize(t);
  if (src == MPI_PROC_NULL) { if (st) { st->MPI_SOURCE = MPI_PROC_NULL; st->bytes_ = 0; } return 0; }
  if (!active() || c == MPI_COMM_SELF) {
    auto &q = selfq();
    for (size_t i = 0; i < q.size(); ++i) if (tag == MPI_ANY_TAG || q[i].tag == tag) {
      if (st) { st->MPI_SOURCE = 0; st->MPI_TAG = q[i].tag; st->bytes_ = q[i].data.size(); }
      if (flag) *flag = 1;
      if (probe) return 0;
      if (q[i].data.size() > cap) return MPI_ERR_TRUNCATE;
      std::memcpy(buf, q[i].data.data(), q[i].data.size()); q.erase(q.begin() + i); return 0;
    }
    if (flag) { *flag = 0; return 0; }
    std::fprintf(stderr, "single-rank MPI_Recv with no message: deadlock\n"); std::abort();
  }
  Shared *s = L().sh; size_t got = 0;
  char what[160]; std::snprintf(what, sizeof what, "%s(from=%d,tag=%d,cap=%zu,comm=%d)", probe ? "Probe" : "Recv", src, tag, cap, c);
  int me = crank(c);
  call(what, [&]() -> bool {
    // earliest pending message per source; with ANY_SOURCE the schedule chooses among sources
    size_t cand[kMaxRanks]; int k = 0; bool seen[kMaxRanks] = {};
    for (size_t m = s->msg_head[L().rank]; m; m = at<Msg>(m)->next) {
      Msg *p = at<Msg>(m);
      if (p->taken || p->comm != c || (src != MPI_ANY_SOURCE && p->src != src) || (tag != MPI_ANY_TAG && p->tag != tag)) continue;
      if (!seen[p->src]) { seen[p->src] = true; cand[k++] = m; }
    }
    if (!k) { if (flag) { *flag = 0; return true; } return false; }
    if (k > 1) s->anysrc_choices++;
    got = cand[k > 1 ? smix(s->rng) % k : 0];
    Msg *p = at<Msg>(got);
    if (flag) *flag = 1;
    if (st) { st->MPI_SOURCE = p->src; st->MPI_TAG = p->tag; st->bytes_ = p->bytes; }
    if (probe) return true;
    if (p->bytes > cap) { fail(F_TRUNC, "message truncation: rank %d receives %zu bytes into a buffer of %zu (from %d tag %d)", me, p->bytes, cap, p->src, p->tag); return true; }
    p->taken = 1; s->progress++; s->recvs++; event(200, me * 16 + p->src, p->tag);
    // unlink consumed head entries
    size_t &h = s->msg_head[L().rank];
    while (h && at<Msg>(h)->taken) { if (h == s->msg_tail[L().rank]) s->msg_tail[L().rank] = 0; h = at<Msg>(h)->next; }
    return true;
  });
  if (!probe && got && (!flag || *flag)) { Msg *p = at<Msg>(got); if (p->bytes) std::memcpy(buf, at<char>(p->data), p->bytes); }
  return 0;
}
}
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return vmpi::send_any(b, n, t, d, tag, c, true); }
inline int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return vmpi::send_any(b, n, t, d, tag, c, true); }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { return vmpi::recv_any(b, n, t, s, tag, c, st, false, nullptr); }
inline int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { return vmpi::recv_any(nullptr, 0, MPI_BYTE, s, tag, c, st, true, nullptr); }
inline int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) { return vmpi::recv_any(nullptr, 0, MPI_BYTE, s, tag, c, st, true, flag); }
inline int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = (int) (st->bytes_ / vmpi::tsize(t)); return 0; }
inline int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stt) {
  vmpi::send_any(sb, sn, st, d, stag, c, false);
  return vmpi::recv_any(rb, rn, rt, s, rtag, c, stt, false, nullptr);
}
inline int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = new MPI_Request_(); (*r)->kind = 1; vmpi::send_any(b, n, t, d, tag, c, false); (*r)->done = true; return 0; }
inline int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { *r = new MPI_Request_(); auto *q = *r; q->kind = 2; q->buf = b; q->count = n; q->type = t; q->peer = s; q->tag = tag; q->comm = c; return 0; }
inline int MPI_Wait(MPI_Request *r, MPI_Status *st) { if (!*r) return 0; auto *q = *r; if (q->kind == 2) vmpi::recv_any(q->buf, q->count, q->type, q->peer, q->tag, q->comm, &q->st, false, nullptr); if (st) *st = q->st; delete q; *r = nullptr; return 0; }
inline int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { for (int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : nullptr); return 0; }
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
  if (!vmpi::active() || c == MPI_COMM_SELF) { *out = c; return 0; }
  int n = vmpi::csize(c), me = vmpi::crank(c);
  int id = 0;
  if (me == 0) { vmpi::lock(); std::vector<int> m(vmpi::L().sh->comm[c].member, vmpi::L().sh->comm[c].member + n); id = vmpi::new_comm(m); vmpi::unlock(); }
  if (n > 1) { auto *k = vmpi::coll(c, vmpi::K_DUP, 0, 0, MPI_INT, 1, me == 0 ? &id : nullptr, me == 0 ? 4 : 0); bool wait_all = true; (void) wait_all; std::memcpy(&id, vmpi::at<char>(k->data[0]), 4); vmpi::coll_leave(k); }
  *out = id;
  return 0;
}
inline int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  if (!vmpi::active() || c == MPI_COMM_SELF) { *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : MPI_COMM_SELF; return 0; }
  int n = vmpi::csize(c), me = vmpi::crank(c), mine[2] = {color, key};
  auto *k = vmpi::coll(c, vmpi::K_SPLIT, -1, 0, MPI_INT, 2, mine, 8);
  std::vector<std::array<int, 3>> v;
  for (int r = 0; r < n; ++r) { int x[2]; std::memcpy(x, vmpi::at<char>(k->data[r]), 8); if (x[0] == color) v.push_back({x[1], r, vmpi::L().sh->comm[c].member[r]}); }
  if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; vmpi::coll_leave(k); return 0; }
  std::stable_sort(v.begin(), v.end());
  std::vector<int> mem; for (auto &x : v) mem.push_back(x[2]);
  // the lowest parent rank of each colour creates, others find it by member list + parent instance
  vmpi::lock();
  int id = -1; auto *s = vmpi::L().sh; int lead = vmpi::kMaxRanks; for (auto &x : v) lead = std::min(lead, x[1]);
  if (k->cnt[lead] >= 1000) id = (int) k->cnt[lead] - 1000; else { id = vmpi::new_comm(mem); k->cnt[lead] = 1000 + id; }
  (void) s; (void) me;
  vmpi::unlock();
  *out = id;
  vmpi::coll_leave(k);
  return 0;
}
inline int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
inline int MPI_Dims_create(int n, int nd, int *d) {
  if (nd == 1) { d[0] = n; return 0; }
  if (nd == 2) {
    if (d[0] && d[1]) return 0; if (d[0]) { d[1] = n / d[0]; return 0; } if (d[1]) { d[0] = n / d[1]; return 0; }
    int b = 1; for (int i = 1; i * i <= n; ++i) if (n % i == 0) b = i; d[0] = n / b; d[1] = b; return 0;
  }
  return MPI_ERR_OTHER;
}
#endif
