// Quantum numbers, sectors and indices.
#pragma once
#include "qlten/framework/base.h"
namespace qlten {
// A cyclic (mod > 0) or additive (mod == 0) charge, bosonic or fermionic.
template<int MOD, bool FERMI, int TAG> class ChargeQN {
 public:
  ChargeQN() = default;
  ChargeQN(int v) : v_(norm(v)) {}
  // legacy constructor: {QNCard("name", U1QNVal(v))}
  template<class Card, class = decltype(std::declval<Card>().shim_val_)> ChargeQN(std::initializer_list<Card> c) : v_(c.size() ? norm(c.begin()->shim_val_) : 0) {}
  template<class Card, class = decltype(std::declval<Card>().shim_val_)> explicit ChargeQN(const std::vector<Card> &c) : v_(c.size() ? norm(c[0].shim_val_) : 0) {}
  ChargeQN operator-() const { return ChargeQN(-v_); }
  ChargeQN operator+(const ChargeQN &o) const { return ChargeQN(v_ + o.v_); }
  ChargeQN operator-(const ChargeQN &o) const { return ChargeQN(v_ - o.v_); }
  ChargeQN &operator+=(const ChargeQN &o) { v_ = norm(v_ + o.v_); return *this; }
  ChargeQN &operator-=(const ChargeQN &o) { v_ = norm(v_ - o.v_); return *this; }
  bool operator==(const ChargeQN &o) const { return v_ == o.v_; }
  bool operator!=(const ChargeQN &o) const { return v_ != o.v_; }
  bool operator<(const ChargeQN &o) const { return v_ < o.v_; }
  int GetVal() const { return v_; }
  size_t dim() const { return 1; }
  size_t Hash() const { return std::hash<int>()(v_); }
  static constexpr bool IsFermionic() { return FERMI; }
  static ChargeQN Zero() { return ChargeQN(); }
  bool IsFermionParityOdd() const { return FERMI && (v_ % 2 != 0); }
  bool IsFermionParityEven() const { return !IsFermionParityOdd(); }
  void StreamRead(std::istream &is) { size_t h; is >> v_ >> h; }
  void StreamWrite(std::ostream &os) const { os << v_ << "\n" << Hash() << "\n"; }
  void Show(const size_t l = 0) const { std::cout << IndentPrinter(l) << "QN " << v_ << "\n"; }
 private:
  static int norm(int v) { return MOD > 0 ? ((v % MOD) + MOD) % MOD : v; }
  int v_ = 0;
};
template<int TAG> class TrivialQNT {
 public:
  TrivialQNT() = default;
  template<class Card, class = decltype(std::declval<Card>().shim_val_)> TrivialQNT(std::initializer_list<Card>) {}
  TrivialQNT operator-() const { return {}; }
  TrivialQNT operator+(const TrivialQNT &) const { return {}; }
  TrivialQNT operator-(const TrivialQNT &) const { return {}; }
  TrivialQNT &operator+=(const TrivialQNT &) { return *this; }
  bool operator==(const TrivialQNT &) const { return true; }
  bool operator!=(const TrivialQNT &) const { return false; }
  bool operator<(const TrivialQNT &) const { return false; }
  size_t dim() const { return 1; }
  size_t Hash() const { return 0; }
  static constexpr bool IsFermionic() { return false; }
  static TrivialQNT Zero() { return {}; }
  bool IsFermionParityOdd() const { return false; }
  bool IsFermionParityEven() const { return true; }
  void StreamRead(std::istream &) {}
  void StreamWrite(std::ostream &) const {}
  void Show(const size_t = 0) const {}
};
// two additive charges; FERMI: 0 bosonic, 1 first charge is a fermion number, 2 their sum is
template<int M1, int M2, int FERMI> class TwoChargeQN {
 public:
  TwoChargeQN() = default;
  TwoChargeQN(int a, int b) : a_(norm(a, M1)), b_(norm(b, M2)) {}
  TwoChargeQN operator-() const { return TwoChargeQN(-a_, -b_); }
  TwoChargeQN operator+(const TwoChargeQN &o) const { return TwoChargeQN(a_ + o.a_, b_ + o.b_); }
  TwoChargeQN operator-(const TwoChargeQN &o) const { return TwoChargeQN(a_ - o.a_, b_ - o.b_); }
  TwoChargeQN &operator+=(const TwoChargeQN &o) { return *this = *this + o; }
  bool operator==(const TwoChargeQN &o) const { return a_ == o.a_ && b_ == o.b_; }
  bool operator!=(const TwoChargeQN &o) const { return !(*this == o); }
  bool operator<(const TwoChargeQN &o) const { return a_ != o.a_ ? a_ < o.a_ : b_ < o.b_; }
  size_t dim() const { return 1; }
  size_t Hash() const { return std::hash<int>()(a_ * 131 + b_); }
  static constexpr bool IsFermionic() { return FERMI != 0; }
  static TwoChargeQN Zero() { return {}; }
  bool IsFermionParityOdd() const { return FERMI == 1 ? a_ % 2 != 0 : FERMI == 2 ? (a_ + b_) % 2 != 0 : false; }
  bool IsFermionParityEven() const { return !IsFermionParityOdd(); }
  void StreamRead(std::istream &is) { size_t h; is >> a_ >> b_ >> h; }
  void StreamWrite(std::ostream &os) const { os << a_ << "\n" << b_ << "\n" << Hash() << "\n"; }
  void Show(const size_t = 0) const {}
 private:
  static int norm(int v, int m) { return m > 0 ? ((v % m) + m) % m : v; }
  int a_ = 0, b_ = 0;
};
class U1QNVal { public: U1QNVal(int v = 0) : v_(v) {} int v_; };
class QNCard { public: QNCard(const std::string &, const U1QNVal &v) : shim_val_(v.v_) {} int shim_val_; };
namespace special_qn {
using TrivialRepQN = TrivialQNT<0>;
using U1QN = ChargeQN<0, false, 0>;
using Z2QN = ChargeQN<2, false, 0>;
template<size_t N> using ZnQN = ChargeQN<(int) N, false, 1>;
using fZ2QN = ChargeQN<2, true, 0>;
using fU1QN = ChargeQN<0, true, 0>;
using U1U1QN = TwoChargeQN<0, 0, 0>;
using fU1U1QN = TwoChargeQN<0, 0, 1>;
using fZ2U1QN = TwoChargeQN<2, 0, 1>;
}  // namespace special_qn
template<typename... V> using QN = special_qn::U1QN;

template<typename QNT> class QNSector {
 public:
  QNSector() = default;
  QNSector(const QNT &qn, size_t d) : qn_(qn), d_(d) {}
  const QNT &GetQn() const { return qn_; }
  size_t GetDegeneracy() const { return d_; }
  size_t dim() const { return d_; }
  bool operator==(const QNSector &o) const { return qn_ == o.qn_ && d_ == o.d_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
  bool IsFermionParityOdd() const { return qn_.IsFermionParityOdd(); }
  bool IsFermionParityEven() const { return qn_.IsFermionParityEven(); }
  size_t Hash() const { return qn_.Hash() * 31 + d_; }
  void StreamRead(std::istream &is) { size_t h; qn_.StreamRead(is); is >> d_ >> h; }
  void StreamWrite(std::ostream &os) const { qn_.StreamWrite(os); os << d_ << "\n" << Hash() << "\n"; }
 private:
  QNT qn_;
  size_t d_ = 0;
};
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;

template<typename QNT> class Index {
 public:
  Index() = default;
  Index(const QNSectorVec<QNT> &s, TenIndexDirType d) : s_(s), dir_(d) { for (auto &x : s_) dim_ += x.dim(); }
  static constexpr bool IsFermionic() { return QNT::IsFermionic(); }
  size_t dim() const { return dim_; }
  size_t GetQNSctNum() const { return s_.size(); }
  const QNSector<QNT> &GetQNSct(size_t i) const { return s_.at(i); }
  const QNSectorVec<QNT> &GetQNScts() const { return s_; }
  TenIndexDirType GetDir() const { return dir_; }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const {
    for (size_t i = 0; i < s_.size(); ++i) { if (c < s_[i].dim()) return {i, c}; c -= s_[i].dim(); }
    throw std::out_of_range("shim Index: coordinate outside the index");
  }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t c) const { return s_[CoorToBlkCoorDataCoor(c).first]; }
  Index &Inverse() { dir_ = dir_ == IN ? OUT : dir_ == OUT ? IN : NDIR; return *this; }
  bool operator==(const Index &o) const { return dir_ == o.dir_ && s_ == o.s_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const { size_t h = (size_t) dir_; for (auto &x : s_) h = h * 1000003 + x.Hash(); return h; }
  void StreamRead(std::istream &is) {
    size_t n = 0, h; is >> n;
    if (!is || n > 100000) { is.setstate(std::ios::failbit); return; }
    s_.assign(n, {}); for (auto &x : s_) x.StreamRead(is);
    int d = 0; is >> d >> dim_ >> h; dir_ = (TenIndexDirType) d;
    size_t t = 0; for (auto &x : s_) t += x.dim();
    if (t != dim_) is.setstate(std::ios::failbit);
  }
  void StreamWrite(std::ostream &os) const { os << s_.size() << "\n"; for (auto &x : s_) x.StreamWrite(os); os << (int) dir_ << "\n" << dim_ << "\n" << Hash() << "\n"; }
  void Show(const size_t l = 0) const { std::cout << IndentPrinter(l) << "Index dim " << dim_ << " dir " << (int) dir_ << "\n"; }
 private:
  QNSectorVec<QNT> s_;
  TenIndexDirType dir_ = NDIR;
  size_t dim_ = 0;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT> inline Index<QNT> InverseIndex(const Index<QNT> &i) { Index<QNT> r(i); r.Inverse(); return r; }
template<typename QNT> inline std::ostream &operator<<(std::ostream &os, const Index<QNT> &i) { i.StreamWrite(os); return os; }
template<typename QNT> inline std::istream &operator>>(std::istream &is, Index<QNT> &i) { i.StreamRead(is); return is; }
}  // namespace qlten
