// Reference stand-in for the tensor library: plain dense algebra, no tuning, checked access.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "mpi.h"
namespace qlten {
using QLTEN_Double = double;
using QLTEN_Float = float;
using QLTEN_Complex = std::complex<double>;
using QLTEN_ComplexFloat = std::complex<float>;
template<typename T> struct RealTypeTrait { using type = T; };
template<typename T> struct RealTypeTrait<std::complex<T>> { using type = T; };
template<typename T> struct is_shim_complex : std::false_type {};
template<typename T> struct is_shim_complex<std::complex<T>> : std::true_type {};
using CoorsT = std::vector<size_t>;
using ShapeT = std::vector<size_t>;
const std::string kQLTenFileSuffix = "qlten";
const double kDoubleEpsilon = 1.0E-15;
const float kFloatEpsilon = 1.0E-5f;
inline std::vector<CoorsT> GenAllCoors(const ShapeT &shape) {
  size_t n = 1; for (auto d : shape) n *= d;
  std::vector<CoorsT> r; CoorsT c(shape.size(), 0);
  for (size_t i = 0; i < n; ++i) { r.push_back(c); for (size_t k = shape.size(); k-- > 0;) { if (++c[k] < shape[k]) break; c[k] = 0; } }
  return r;
}
enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };
class Showable {
 public:
  virtual ~Showable() = default;
  virtual void Show(const size_t indent_level = 0) const = 0;
};
class Streamable {
 public:
  virtual ~Streamable() = default;
  virtual void StreamRead(std::istream &) = 0;
  virtual void StreamWrite(std::ostream &) const = 0;
};
inline std::ostream &operator<<(std::ostream &os, const Streamable &s) { s.StreamWrite(os); return os; }
inline std::istream &operator>>(std::istream &is, Streamable &s) { s.StreamRead(is); return is; }
inline std::string IndentPrinter(const size_t indent_level) { return std::string(indent_level * 2, ' '); }
enum ExecutorStatus { INITING, INITED, EXEING, PAUSING, PAUSED, RESUMING, FINISH };
class Executor {
 public:
  Executor() = default;
  virtual ~Executor() = default;
  ExecutorStatus GetStatus() const { return status_; }
  void SetStatus(const ExecutorStatus s) { status_ = s; }
  virtual void Execute() = 0;
 private:
  ExecutorStatus status_ = INITING;
};
class Timer {
 public:
  explicit Timer(const std::string &n = "") : name_(n) { Restart(); }
  void Restart() { t_ = std::chrono::steady_clock::now(); past_ = 0; on_ = true; }
  void ClearAndRestart() { Restart(); }
  void Suspend() { past_ = Elapsed(); on_ = false; }
  void Continue() { t_ = std::chrono::steady_clock::now(); on_ = true; }
  double Elapsed() const { return past_ + (on_ ? std::chrono::duration<double>(std::chrono::steady_clock::now() - t_).count() : 0.); }
  double PrintElapsed(size_t p = 5) const { double e = Elapsed(); std::cout << "[timing] " << name_ << "\t" << std::setprecision((int) p) << e << std::endl; return e; }
 private:
  std::string name_;
  std::chrono::steady_clock::time_point t_;
  double past_ = 0;
  bool on_ = true;
};
namespace hp_numeric {
const int kMPIMasterRank = 0;
template<typename T> inline MPI_Datatype GetMPIDataType() {
  if constexpr (std::is_same_v<T, double>) return MPI_DOUBLE;
  else if constexpr (std::is_same_v<T, float>) return MPI_FLOAT;
  else if constexpr (std::is_same_v<T, std::complex<double>>) return MPI_CXX_DOUBLE_COMPLEX;
  else if constexpr (std::is_same_v<T, std::complex<float>>) return MPI_CXX_FLOAT_COMPLEX;
  else if constexpr (std::is_same_v<T, int>) return MPI_INT;
  else if constexpr (std::is_same_v<T, unsigned>) return MPI_UNSIGNED;
  else if constexpr (std::is_same_v<T, long>) return MPI_LONG;
  else if constexpr (std::is_same_v<T, unsigned long>) return MPI_UNSIGNED_LONG;
  else if constexpr (std::is_same_v<T, unsigned long long>) return MPI_UNSIGNED_LONG_LONG;
  else if constexpr (std::is_same_v<T, char>) return MPI_CHAR;
  else if constexpr (std::is_same_v<T, unsigned char>) return MPI_UNSIGNED_CHAR;
  else if constexpr (std::is_same_v<T, bool>) return MPI_CXX_BOOL;
  else return MPI_DATATYPE_NULL;
}
inline unsigned &threads_() { static unsigned n = 1; return n; }
inline void SetTensorManipulationThreads(unsigned n) { threads_() = n; }
inline unsigned GetTensorManipulationThreads() { return threads_(); }
template<typename T> inline void VectorCopy(const T *src, size_t n, T *dst) { std::copy(src, src + n, dst); }
template<typename T> inline void MPI_Bcast(T *d, size_t n, int root, const MPI_Comm &c) { ::MPI_Bcast((void *) d, (int) n, GetMPIDataType<T>(), root, c); }
template<typename T> inline void MPI_Send(const T *d, size_t n, int dest, int tag, const MPI_Comm &c) { ::MPI_Send((const void *) d, (int) n, GetMPIDataType<T>(), dest, tag, c); }
template<typename T> inline MPI_Status MPI_Recv(T *d, size_t n, int src, int tag, const MPI_Comm &c) { MPI_Status s; ::MPI_Recv((void *) d, (int) n, GetMPIDataType<T>(), src, tag, c, &s); return s; }
inline void MPI_Send(const size_t n, int dest, int tag, const MPI_Comm &c) { ::MPI_Send((const void *) &n, 1, MPI_UNSIGNED_LONG, dest, tag, c); }
inline MPI_Status MPI_Recv(size_t &n, int src, int tag, const MPI_Comm &c) { MPI_Status s; ::MPI_Recv((void *) &n, 1, MPI_UNSIGNED_LONG, src, tag, c, &s); return s; }
inline void GatherAndPrintErrorMessages(const std::string &msg, const MPI_Comm &c) { int r; MPI_Comm_rank(c, &r); if (!msg.empty()) std::cerr << "[rank " << r << "] " << msg << std::endl; }
}  // namespace hp_numeric
}  // namespace qlten
#ifndef HANDLE_MPI_ERROR
#define HANDLE_MPI_ERROR(x) do { int shim_err_ = (x); if (shim_err_ != MPI_SUCCESS) { std::cerr << "MPI error " << shim_err_ << " at " << __FILE__ << ":" << __LINE__ << std::endl; std::abort(); } } while (0)
#endif
