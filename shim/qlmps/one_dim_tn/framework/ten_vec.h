#pragma once
#include "qlmps/utilities.h"
namespace qlmps {
template<class T> class DuoVector {
 public:
  DuoVector() = default;
  explicit DuoVector(size_t n) : v_(n, nullptr) {}
  DuoVector(const DuoVector &o) : v_(o.size(), nullptr) { for (size_t i = 0; i < v_.size(); ++i) if (o.v_[i]) v_[i] = new T(*o.v_[i]); }
  DuoVector(DuoVector &&o) noexcept : v_(std::move(o.v_)) { o.v_ = std::vector<T *>(v_.size(), nullptr); }
  DuoVector &operator=(const DuoVector &o) { if (this != &o) { clear(); v_.assign(o.size(), nullptr); for (size_t i = 0; i < v_.size(); ++i) if (o.v_[i]) v_[i] = new T(*o.v_[i]); } return *this; }
  DuoVector &operator=(DuoVector &&o) noexcept { if (this != &o) { clear(); v_ = std::move(o.v_); o.v_ = std::vector<T *>(v_.size(), nullptr); } return *this; }
  virtual ~DuoVector() { clear(); }
  T &operator[](size_t i) { if (!v_.at(i)) v_[i] = new T; return *v_[i]; }
  const T &operator[](size_t i) const { return *v_.at(i); }
  T *&operator()(size_t i) { return v_.at(i); }
  const T *operator()(size_t i) const { return v_.at(i); }
  void alloc(size_t i) { if (v_.at(i)) delete v_[i]; v_[i] = new T; }
  void dealloc(size_t i) { if (v_.at(i)) { delete v_[i]; v_[i] = nullptr; } }
  void clear() { for (auto &p : v_) { delete p; p = nullptr; } }
  std::vector<const T *> cdata() const { std::vector<const T *> r; for (auto p : v_) r.push_back(p); return r; }
  size_t size() const { return v_.size(); }
  bool empty() const { for (auto p : v_) if (p) return false; return true; }
  T &front() { return (*this)[0]; }
  const T &front() const { return (*this)[0]; }
  T &back() { return (*this)[size() - 1]; }
  const T &back() const { return (*this)[size() - 1]; }
 private:
  std::vector<T *> v_;
};
template<class TenT> class TenVec : public DuoVector<TenT> {
 public:
  TenVec() = default;
  explicit TenVec(size_t n) : DuoVector<TenT>(n) {}
  void LoadTen(size_t i, const std::string &f) { this->alloc(i); std::ifstream ifs(f, std::ifstream::binary); ifs >> (*this)[i]; }
  void DumpTen(size_t i, const std::string &f) const { std::ofstream o(f, std::ofstream::binary); o << (*this)[i]; }
  void DumpTen(size_t i, const std::string &f, bool rel) { { std::ofstream o(f, std::ofstream::binary); o << (*this)[i]; } if (rel) this->dealloc(i); }
};
enum MPSTenCanoType { NONE, LEFT, RIGHT };
const int kUncentralizedCenterIdx = -1;
}  // namespace qlmps
