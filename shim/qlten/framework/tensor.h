// Dense reference tensor with symmetry bookkeeping and graded (fermionic) signs.
// Legs are factors of a graded tensor product in storage order: IN = ket, OUT = bra. Moving two odd factors past
// each other costs a sign; contracting bra-ket is plain, ket-bra costs (-1)^parity; multi-leg contraction is nested.
#pragma once
#include "qlten/framework/qn.h"
namespace qlten {
struct ShimCounters { uint64_t contract = 0, svd = 0, qr = 0, transpose = 0, dag = 0; };
inline ShimCounters &shim_counters() { static ShimCounters c; return c; }
inline std::mt19937_64 &shim_rand() { static std::mt19937_64 g(20240229); return g; }
inline void SetRandomSeed(uint64_t s) { shim_rand().seed(s); }
template<class E> inline E shim_rand_elem() {
  std::uniform_real_distribution<double> u(0., 1.);
  if constexpr (is_shim_complex<E>::value) { double a = u(shim_rand()), b = u(shim_rand()); return E(a, b); } else return E(u(shim_rand()));
}
template<class E> inline E shim_conj(const E &x) { if constexpr (is_shim_complex<E>::value) return std::conj(x); else return x; }

template<typename ElemT, typename QNT> class QLTensor {
 public:
  using RealT = typename RealTypeTrait<ElemT>::type;
  using IndexT = Index<QNT>;
  QLTensor() = default;
  explicit QLTensor(const IndexVec<QNT> &idx) : default_(false), idx_(idx) { Init_(); }
  explicit QLTensor(IndexVec<QNT> &&idx) : default_(false), idx_(std::move(idx)) { Init_(); }
  QLTensor(std::initializer_list<IndexT> l) : default_(false), idx_(l) { Init_(); }
  QLTensor(const QLTensor &) = default;
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept { Swap_(o); }
  QLTensor &operator=(QLTensor &&o) noexcept { if (this != &o) { QLTensor t; t.Swap_(o); Swap_(t); } return *this; }

  static constexpr bool IsFermionic() { return QNT::IsFermionic(); }
  bool IsDefault() const { return default_; }
  bool IsScalar() const { return !default_ && idx_.empty(); }
  size_t Rank() const { return idx_.size(); }
  size_t size() const { return n_; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const IndexT &GetIndex(size_t i) const { return idx_.at(i); }
  ShapeT GetShape() const { ShapeT s; for (auto &i : idx_) s.push_back(i.dim()); return s; }
  size_t GetActualDataSize() const { return has_data_ ? n_ : 0; }
  size_t GetQNBlkNum() const { if (!has_data_) return 0; size_t c = 0; ForBlocks_([&](const CoorsT &, const CoorsT &, const CoorsT &) { ++c; }); return c; }
  const ElemT *GetRawDataPtr() const { return d_.data(); }
  ElemT *GetRawDataPtr() { return d_.data(); }
  QNT Div() const { return has_data_ ? div_ : QNT(); }
  bool HasNan() const { for (auto &x : d_) if (!(std::abs(x) == std::abs(x))) return true; return false; }

  // --- element access
  class Ref {
   public:
    Ref(QLTensor &t, const CoorsT &c) : t_(t), c_(c) {}
    operator ElemT() const { return static_cast<const QLTensor &>(t_).GetElem(c_); }
    Ref &operator=(const ElemT &v) { t_.SetElem(c_, v); return *this; }
    Ref &operator=(const Ref &o) { return *this = (ElemT) o; }
    template<class U> Ref &operator+=(const U &v) { t_.SetElem(c_, (ElemT) *this + ElemT(v)); return *this; }
    template<class U> Ref &operator-=(const U &v) { t_.SetElem(c_, (ElemT) *this - ElemT(v)); return *this; }
    template<class U> Ref &operator*=(const U &v) { t_.SetElem(c_, (ElemT) *this * v); return *this; }
    template<class U> Ref &operator/=(const U &v) { t_.SetElem(c_, (ElemT) *this / v); return *this; }
    friend ElemT operator+(const Ref &a, const Ref &b) { return (ElemT) a + (ElemT) b; }
    friend ElemT operator-(const Ref &a, const Ref &b) { return (ElemT) a - (ElemT) b; }
    friend ElemT operator*(const Ref &a, const Ref &b) { return (ElemT) a * (ElemT) b; }
    friend ElemT operator/(const Ref &a, const Ref &b) { return (ElemT) a / (ElemT) b; }
    friend ElemT operator+(const Ref &a, const ElemT &b) { return (ElemT) a + b; }
    friend ElemT operator-(const Ref &a, const ElemT &b) { return (ElemT) a - b; }
    friend ElemT operator*(const Ref &a, const ElemT &b) { return (ElemT) a * b; }
    friend ElemT operator/(const Ref &a, const ElemT &b) { return (ElemT) a / b; }
    friend ElemT operator*(const ElemT &a, const Ref &b) { return a * (ElemT) b; }
    friend ElemT operator/(const ElemT &a, const Ref &b) { return a / (ElemT) b; }
    friend ElemT operator-(const ElemT &a, const Ref &b) { return a - (ElemT) b; }
    friend ElemT operator+(const ElemT &a, const Ref &b) { return a + (ElemT) b; }
    ElemT operator-() const { return -(ElemT) *this; }
    friend std::ostream &operator<<(std::ostream &os, const Ref &r) { return os << (ElemT) r; }
    friend RealT abs(const Ref &r) { return std::abs((ElemT) r); }
   private:
    QLTensor &t_; CoorsT c_;
  };
  ElemT GetElem(const CoorsT &c) const { return has_data_ ? d_[Off_(c)] : (Off_(c), ElemT(0)); }
  void SetElem(const CoorsT &c, const ElemT v) {
    size_t o = Off_(c);
    QNT q = QnAt_(c);
    if (!has_data_) { if (v == ElemT(0)) return; Alloc_(q); }
    if (q != div_) { if (v == ElemT(0)) return; throw std::logic_error("shim tensor: element violates the divergence of the tensor"); }
    d_[o] = v;
  }
  Ref operator()(const CoorsT &c) { return Ref(*this, c); }
  ElemT operator()(const CoorsT &c) const { return GetElem(c); }
  template<class... I, class = std::enable_if_t<(std::is_integral_v<std::decay_t<I>> && ...)>> Ref operator()(I... i) { return Ref(*this, CoorsT{(size_t) i...}); }
  template<class... I, class = std::enable_if_t<(std::is_integral_v<std::decay_t<I>> && ...)>> ElemT operator()(I... i) const { return GetElem(CoorsT{(size_t) i...}); }

  // --- initialisation
  void Random(const QNT &div) { Alloc_(div); ForAll_([&](const CoorsT &c, size_t o) { if (QnAt_(c) == div_) d_[o] = shim_rand_elem<ElemT>(); }); }
  void Random() { Random(QNT()); }
  void Fill(const QNT &div, const ElemT &v) { Alloc_(div); ForAll_([&](const CoorsT &c, size_t o) { if (QnAt_(c) == div_) d_[o] = v; }); }

  // --- algebra
  bool operator==(const QLTensor &o) const {
    if (default_ != o.default_ || idx_ != o.idx_) return false;
    RealT m = 0, s = 0;
    for (size_t i = 0; i < n_; ++i) { m = std::max(m, (RealT) std::abs(At_(i) - o.At_(i))); s = std::max(s, (RealT) std::abs(At_(i))); }
    return m <= RealT(1e-14) * std::max(RealT(1), s) * 10;
  }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.d_) x = -x; return r; }
  QLTensor &operator+=(const QLTensor &o) { Axpy_(ElemT(1), o); return *this; }
  QLTensor &operator-=(const QLTensor &o) { Axpy_(ElemT(-1), o); return *this; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor operator-(const QLTensor &o) const { QLTensor r(*this); r -= o; return r; }
  QLTensor &operator*=(const ElemT s) { for (auto &x : d_) x *= s; return *this; }
  QLTensor operator*(const ElemT s) const { QLTensor r(*this); r *= s; return r; }
  friend QLTensor operator*(const ElemT s, const QLTensor &t) { return t * s; }
  template<class R, class = std::enable_if_t<std::is_arithmetic_v<R> && !std::is_same_v<R, ElemT>>> friend QLTensor operator*(const R s, const QLTensor &t) { return t * ElemT(s); }
  template<class R, class = std::enable_if_t<std::is_arithmetic_v<R> && !std::is_same_v<R, ElemT>>> QLTensor operator*(const R s) const { return *this * ElemT(s); }
  template<class R, class = std::enable_if_t<std::is_arithmetic_v<R> && !std::is_same_v<R, ElemT>>> QLTensor &operator*=(const R s) { return *this *= ElemT(s); }
  void Axpy_(ElemT a, const QLTensor &o) {
    if (default_ || o.default_) throw std::logic_error("shim tensor: sum with a default tensor");
    if (idx_ != o.idx_) throw std::logic_error("shim tensor: sum of tensors with different indices");
    if (!o.has_data_) return;
    if (!has_data_) Alloc_(o.div_);
    if (div_ != o.div_) throw std::logic_error("shim tensor: sum of tensors with different divergence");
    for (size_t i = 0; i < n_; ++i) d_[i] += a * o.d_[i];
  }
  RealT SqNorm_() const { long double s = 0; for (auto &x : d_) s += std::norm(x); return (RealT) s; }
  RealT Get2Norm() const { return std::sqrt(SqNorm_()); }
  RealT GetQuasi2Norm() const { return std::sqrt(SqNorm_()); }
  RealT Normalize() { RealT n = Get2Norm(); for (auto &x : d_) x /= n; return n; }
  RealT QuasiNormalize() { return Normalize(); }
  RealT GetMaxAbs() const { RealT m = 0; for (auto &x : d_) m = std::max(m, (RealT) std::abs(x)); return m; }
  void ElementWiseSquare() { for (auto &x : d_) x = x * x; }
  void ElementWiseSquaredNorm() { for (auto &x : d_) x = ElemT(std::norm(x)); }
  void ElementWiseSqrt() { for (auto &x : d_) x = std::sqrt(x); }
  void ElementWiseInv(double eps = 0.) { if (!has_data_) return; ForAll_([&](const CoorsT &c, size_t o) { if (QnAt_(c) == div_) d_[o] = std::abs(d_[o]) < eps ? ElemT(0) : ElemT(1) / d_[o]; }); }
  void ElementWiseClipTo(double lim) {
    for (auto &x : d_) {
      if constexpr (is_shim_complex<ElemT>::value) { double m = std::abs(x); if (m > lim) x *= RealT(lim / m); }
      else x = x > lim ? ElemT(lim) : x < -lim ? ElemT(-lim) : x;
    }
  }
  template<class F> void ElementWiseMultiply_(F f) { for (auto &x : d_) x = f(x); }

  QLTensor &Dag() {
    ++shim_counters().dag;
    for (auto &i : idx_) i.Inverse();
    if constexpr (QNT::IsFermionic()) {
      if (has_data_) ForAll_([&](const CoorsT &c, size_t o) { size_t p = 0; for (size_t k = 0; k < c.size(); ++k) p += Odd_(k, c[k]); if ((p * (p - (p > 0)) / 2) % 2) d_[o] = -d_[o]; });
    }
    for (auto &x : d_) x = shim_conj(x);
    if (has_data_) div_ = -div_;
    return *this;
  }
  QLTensor &ActFermionPOps() {
    if constexpr (QNT::IsFermionic()) {
      if (has_data_) ForAll_([&](const CoorsT &c, size_t o) { bool odd = false; for (size_t k = 0; k < c.size(); ++k) if (idx_[k].GetDir() == OUT) odd ^= Odd_(k, c[k]); if (odd) d_[o] = -d_[o]; });
    }
    return *this;
  }
  QLTensor &Transpose(const std::vector<size_t> &p) { ++shim_counters().transpose; *this = Permuted_(p, true); return *this; }
  QLTensor Permuted_(const std::vector<size_t> &p, bool sign) const {
    if (p.size() != Rank()) throw std::logic_error("shim tensor: transpose order has wrong length");
    std::vector<bool> seen(p.size(), false);
    for (auto x : p) { if (x >= p.size() || seen[x]) throw std::logic_error("shim tensor: transpose order is not a permutation"); seen[x] = true; }
    IndexVec<QNT> ni; for (auto x : p) ni.push_back(idx_[x]);
    QLTensor r(ni);
    if (!has_data_) return r;
    r.Alloc_(div_);
    std::vector<size_t> st = Strides_();
    size_t rk = p.size();
    CoorsT c(rk, 0); size_t o = 0;
    for (size_t k = 0; k < n_; ++k) {
      ElemT v = d_[o];
      if constexpr (QNT::IsFermionic()) {
        if (sign && v != ElemT(0)) { bool s = false; for (size_t a = 0; a < rk; ++a) if (Odd_(p[a], c[a])) for (size_t b = a + 1; b < rk; ++b) if (p[a] > p[b] && Odd_(p[b], c[b])) s = !s; if (s) v = -v; }
      }
      r.d_[k] = v;
      for (size_t a = rk; a-- > 0;) { o += st[p[a]]; if (++c[a] < r.idx_[a].dim()) break; o -= st[p[a]] * c[a]; c[a] = 0; }
    }
    return r;
  }
  // Combine legs i and j into one leg put first.
  void FuseIndex(size_t i, size_t j) {
    if (i == j || i >= Rank() || j >= Rank()) throw std::logic_error("shim tensor: FuseIndex axes");
    if (idx_[i].GetDir() != idx_[j].GetDir()) throw std::logic_error("shim tensor: FuseIndex of different directions");
    std::vector<size_t> p{i, j}; for (size_t k = 0; k < Rank(); ++k) if (k != i && k != j) p.push_back(k);
    QLTensor t = Permuted_(p, true);
    size_t da = t.idx_[0].dim(), db = t.idx_[1].dim();
    std::vector<std::pair<QNT, std::vector<size_t>>> g;
    for (size_t x = 0; x < da * db; ++x) {
      QNT q = t.idx_[0].GetQNSctFromActualCoor(x / db).GetQn() + t.idx_[1].GetQNSctFromActualCoor(x % db).GetQn();
      auto it = std::find_if(g.begin(), g.end(), [&](auto &y) { return y.first == q; });
      if (it == g.end()) { g.push_back({q, {}}); it = g.end() - 1; }
      it->second.push_back(x);
    }
    QNSectorVec<QNT> s; std::vector<size_t> order; for (auto &y : g) { s.push_back(QNSector<QNT>(y.first, y.second.size())); for (auto x : y.second) order.push_back(x); }
    IndexVec<QNT> ni{IndexT(s, t.idx_[0].GetDir())}; for (size_t k = 2; k < t.Rank(); ++k) ni.push_back(t.idx_[k]);
    QLTensor r(ni);
    if (t.has_data_) { r.Alloc_(t.div_); size_t rest = order.empty() ? 0 : n_ / order.size(); for (size_t x = 0; x < order.size(); ++x) std::copy(t.d_.begin() + order[x] * rest, t.d_.begin() + (order[x] + 1) * rest, r.d_.begin() + x * rest); }
    *this = std::move(r);
  }

  // --- file format
  void StreamRead(std::istream &is) {
    *this = QLTensor();
    size_t rk = 0; if (!(is >> rk) || rk > 64) { is.setstate(std::ios::failbit); return; }
    IndexVec<QNT> v(rk); for (auto &i : v) { i.StreamRead(is); if (!is) return; }
    QLTensor t(v);
    size_t nb = 0; if (!(is >> nb)) return;
    std::vector<CoorsT> bc(nb, CoorsT(rk));
    for (auto &b : bc) for (size_t k = 0; k < rk; ++k) { if (!(is >> b[k])) return; if (b[k] >= v[k].GetQNSctNum()) { is.setstate(std::ios::failbit); return; } }
    is.get();
    for (auto &b : bc) {
      CoorsT lo(rk), dim(rk); QNT q; size_t vol = 1;
      for (size_t k = 0; k < rk; ++k) { for (size_t s = 0; s < b[k]; ++s) lo[k] += v[k].GetQNSct(s).dim(); dim[k] = v[k].GetQNSct(b[k]).dim(); vol *= dim[k]; auto qn = v[k].GetQNSct(b[k]).GetQn(); q += v[k].GetDir() == OUT ? qn : -qn; }
      if (!t.has_data_) t.Alloc_(q);
      std::vector<ElemT> buf(vol);
      if (!is.read((char *) buf.data(), (std::streamsize) (vol * sizeof(ElemT)))) return;
      CoorsT c(rk, 0);
      for (size_t x = 0; x < vol; ++x) { CoorsT g(rk); for (size_t k = 0; k < rk; ++k) g[k] = lo[k] + c[k]; t.d_[t.Off_(g)] = buf[x]; for (size_t k = rk; k-- > 0;) { if (++c[k] < dim[k]) break; c[k] = 0; } }
    }
    *this = std::move(t);
  }
  void StreamWrite(std::ostream &os) const {
    os << Rank() << "\n";
    for (auto &i : idx_) i.StreamWrite(os);
    std::vector<std::array<CoorsT, 3>> bl;
    if (has_data_) ForBlocks_([&](const CoorsT &b, const CoorsT &lo, const CoorsT &dim) { bl.push_back({b, lo, dim}); });
    os << bl.size() << "\n";
    for (auto &b : bl) for (auto x : b[0]) os << x << "\n";
    for (auto &b : bl) {
      size_t vol = 1; for (auto x : b[2]) vol *= x;
      std::vector<ElemT> buf(vol); CoorsT c(Rank(), 0);
      for (size_t x = 0; x < vol; ++x) { CoorsT g(Rank()); for (size_t k = 0; k < Rank(); ++k) g[k] = b[1][k] + c[k]; buf[x] = d_[Off_(g)]; for (size_t k = Rank(); k-- > 0;) { if (++c[k] < b[2][k]) break; c[k] = 0; } }
      os.write((const char *) buf.data(), (std::streamsize) (vol * sizeof(ElemT)));
    }
    os << std::endl;
  }
  void Show(const size_t l = 0) const { std::cout << IndentPrinter(l) << "QLTensor rank " << Rank() << " size " << n_ << "\n"; ForAll_([&](const CoorsT &c, size_t o) { if (std::abs(At_(o)) != 0) { for (auto x : c) std::cout << x << " "; std::cout << At_(o) << "\n"; } }); }
  void ConciseShow(const size_t l = 0) const { std::cout << IndentPrinter(l) << "QLTensor rank " << Rank() << " size " << n_ << "\n"; }

  // --- message passing
  void MPI_Send(int dest, int tag, const MPI_Comm &comm) const {
    std::string s; PackShell_(s); unsigned long n = s.size();
    ::MPI_Send((const void *) &n, 1, MPI_UNSIGNED_LONG, dest, tag, comm);
    ::MPI_Send((const void *) s.data(), (int) n, MPI_CHAR, dest, tag, comm);
    if (has_data_) ::MPI_Send((const void *) d_.data(), (int) n_, hp_numeric::GetMPIDataType<ElemT>(), dest, tag, comm);
  }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &comm) {
    MPI_Status st; unsigned long n = 0;
    ::MPI_Recv((void *) &n, 1, MPI_UNSIGNED_LONG, src, tag, comm, &st);
    src = st.MPI_SOURCE; tag = st.MPI_TAG;
    std::string s(n, '\0'); ::MPI_Recv((void *) s.data(), (int) n, MPI_CHAR, src, tag, comm, &st);
    const char *c = s.data(); UnpackShell_(c, s.data() + n);
    if (has_data_) ::MPI_Recv((void *) d_.data(), (int) n_, hp_numeric::GetMPIDataType<ElemT>(), src, tag, comm, &st);
    return st;
  }
  template<class Buf> void PackShellForMPI(Buf &b) const { std::string s; PackShell_(s); uint64_t n = s.size(); const char *p = (const char *) &n; for (size_t i = 0; i < 8; ++i) b.push_back((typename Buf::value_type) p[i]); for (char ch : s) b.push_back((typename Buf::value_type) ch); }
  template<class P, class Q> void UnpackShellForMPI(P &cur, Q end) {
    if ((size_t) (end - cur) < 8) throw std::runtime_error("shim tensor: shell buffer too short");
    uint64_t n; std::memcpy(&n, &*cur, 8); cur += 8;
    if ((size_t) (end - cur) < n) throw std::runtime_error("shim tensor: shell buffer too short");
    std::string s((const char *) &*cur, n); cur += n;
    const char *c = s.data(); UnpackShell_(c, c + n);
  }
  struct BSDT { QLTensor *t; void RawDataMPIBcast(const MPI_Comm &comm, int root) { if (t->has_data_) ::MPI_Bcast((void *) t->d_.data(), (int) t->n_, hp_numeric::GetMPIDataType<ElemT>(), root, comm); } size_t GetActualRawDataSize() const { return t->GetActualDataSize(); } };
  BSDT GetBlkSparDataTen() { return BSDT{this}; }
  BSDT GetBlkSparDataTen() const { return BSDT{const_cast<QLTensor *>(this)}; }
  void MPI_Bcast(int root, const MPI_Comm &comm) {
    std::string s; int r; MPI_Comm_rank(comm, &r); if (r == root) PackShell_(s); unsigned long n = s.size();
    ::MPI_Bcast((void *) &n, 1, MPI_UNSIGNED_LONG, root, comm); s.resize(n); ::MPI_Bcast((void *) s.data(), (int) n, MPI_CHAR, root, comm);
    if (r != root) { const char *c = s.data(); UnpackShell_(c, c + n); }
    GetBlkSparDataTen().RawDataMPIBcast(comm, root);
  }

  // --- internals (used by the free functions below)
  void Alloc_(const QNT &div) { if (default_) throw std::logic_error("shim tensor: data for a default tensor"); has_data_ = true; div_ = div; d_.assign(n_, ElemT(0)); }
  bool HasData_() const { return has_data_; }
  const std::vector<ElemT> &Data_() const { return d_; }
  std::vector<ElemT> &Data_() { return d_; }
  ElemT At_(size_t o) const { return has_data_ ? d_[o] : ElemT(0); }
  bool Odd_(size_t leg, size_t c) const { return (bool) odd_[leg][c]; }
  std::vector<size_t> Strides_() const { std::vector<size_t> s(Rank(), 1); for (size_t k = Rank(); k-- > 1;) s[k - 1] = s[k] * idx_[k].dim(); return s; }
  size_t Off_(const CoorsT &c) const {
    if (default_ || c.size() != Rank()) throw std::logic_error("shim tensor: element access with wrong number of coordinates");
    size_t o = 0; for (size_t k = 0; k < c.size(); ++k) { if (c[k] >= idx_[k].dim()) throw std::out_of_range("shim tensor: coordinate out of range"); o = o * idx_[k].dim() + c[k]; }
    return o;
  }
  QNT QnAt_(const CoorsT &c) const { QNT q; for (size_t k = 0; k < c.size(); ++k) { auto x = idx_[k].GetQNSctFromActualCoor(c[k]).GetQn(); q += idx_[k].GetDir() == OUT ? x : -x; } return q; }
  template<class F> void ForAll_(F f) const { CoorsT c(Rank(), 0); for (size_t o = 0; o < n_; ++o) { f(c, o); for (size_t k = Rank(); k-- > 0;) { if (++c[k] < idx_[k].dim()) break; c[k] = 0; } } }
  template<class F> void ForBlocks_(F f) const {
    CoorsT b(Rank(), 0); bool done = n_ == 0;
    while (!done) {
      CoorsT lo(Rank()), dim(Rank()); QNT q;
      for (size_t k = 0; k < Rank(); ++k) { for (size_t s = 0; s < b[k]; ++s) lo[k] += idx_[k].GetQNSct(s).dim(); dim[k] = idx_[k].GetQNSct(b[k]).dim(); auto x = idx_[k].GetQNSct(b[k]).GetQn(); q += idx_[k].GetDir() == OUT ? x : -x; }
      if (q == div_) f(b, lo, dim);
      done = true; for (size_t k = Rank(); k-- > 0;) { if (++b[k] < idx_[k].GetQNSctNum()) { done = false; break; } b[k] = 0; }
    }
  }
 private:
  void Init_() {
    n_ = 1; for (auto &i : idx_) n_ *= i.dim();
    if constexpr (QNT::IsFermionic()) { odd_.clear(); for (auto &i : idx_) { std::vector<char> o; for (auto &s : i.GetQNScts()) o.insert(o.end(), s.dim(), (char) s.IsFermionParityOdd()); odd_.push_back(std::move(o)); } }
  }
  void Swap_(QLTensor &o) { std::swap(default_, o.default_); std::swap(idx_, o.idx_); std::swap(n_, o.n_); std::swap(has_data_, o.has_data_); std::swap(div_, o.div_); std::swap(d_, o.d_); std::swap(odd_, o.odd_); }
  void PackShell_(std::string &s) const { std::ostringstream os; os << (int) default_ << " " << Rank() << "\n"; for (auto &i : idx_) i.StreamWrite(os); os << (int) has_data_ << "\n"; div_.StreamWrite(os); s = os.str(); }
  void UnpackShell_(const char *&c, const char *e) {
    std::istringstream is(std::string(c, e)); int df = 1, hd = 0; size_t rk = 0; is >> df >> rk; IndexVec<QNT> v(rk); for (auto &i : v) i.StreamRead(is); is >> hd; QNT q; q.StreamRead(is);
    *this = QLTensor(); if (!df) { *this = QLTensor(v); if (hd) Alloc_(q); } c = e;
  }
  bool default_ = true;
  IndexVec<QNT> idx_;
  size_t n_ = 0;
  bool has_data_ = false;
  QNT div_{};
  std::vector<ElemT> d_;
  std::vector<std::vector<char>> odd_;
};
template<typename E, typename Q> inline std::ostream &operator<<(std::ostream &os, const QLTensor<E, Q> &t) { t.StreamWrite(os); return os; }
template<typename E, typename Q> inline std::istream &operator>>(std::istream &is, QLTensor<E, Q> &t) { t.StreamRead(is); return is; }
}  // namespace qlten
