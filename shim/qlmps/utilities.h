#pragma once
#include <filesystem>
#include "qlten/qlten.h"
namespace qlmps {
using namespace qlten;
using qlten::IN; using qlten::OUT;
inline bool IsPathExist(const std::string &p) { std::error_code e; return std::filesystem::exists(p, e); }
inline void CreatPath(const std::string &p) { std::error_code e; std::filesystem::create_directories(p, e); }
template<class T> inline double Real(const T &x) { return (double) std::real(x); }
namespace mock_qlten {
template<class E, class Q> void SVD(const QLTensor<E, Q> *t, const size_t ld, const Q &lq, QLTensor<E, Q> *u, QLTensor<typename RealTypeTrait<E>::type, Q> *s, QLTensor<E, Q> *vt) {
  typename RealTypeTrait<E>::type err; size_t D;
  qlten::SVD(t, ld, lq, (typename RealTypeTrait<E>::type) 0, (size_t) 1, t->size(), u, s, vt, &err, &D);
}
}  // namespace mock_qlten
}  // namespace qlmps
