// A sweep updater that visits a given sequence of configurations, so that every sample of a run is known to the oracle.
#pragma once
#include "mp.h"
#include "models.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/bmps/bmps_contractor.h"
#include <functional>
#include "qlpeps/vmc_basic/wave_function_component.h"
namespace sc {
using namespace md; using namespace qlpeps;
template<class E, class Q> using SI = SplitIndexTPS<E, Q>;
inline std::vector<std::vector<V>> g_script; inline size_t g_at = 0, g_step = 0; inline int g_rank = 0; inline std::vector<std::vector<double>> g_rates; inline std::function<void(size_t)> g_hook; inline std::vector<V> g_seen; inline bool g_record = false;
inline V cfgv(const Configuration &c) { V v; for (size_t r = 0; r < c.rows(); ++r) for (size_t x = 0; x < c.cols(); ++x) v.push_back(c({r, x})); return v; }
template<class E, class Q, template<class, class> class CT> struct Scripted {
  void operator()(const SI<E, Q> &s, TPSWaveFunctionComponent<E, Q, NoDress, CT> &w, std::vector<double> &acc) {
    auto &sc = g_script[g_rank]; const V &c = sc[g_at % sc.size()]; acc = g_rates.empty() ? std::vector<double>() : g_rates[g_at % g_rates.size()]; if (g_record) g_seen.push_back(cfgv(w.config)); if (g_hook) g_hook(g_at); ++g_at;
    w = TPSWaveFunctionComponent<E, Q, NoDress, CT>(s, config(s.rows(), s.cols(), c), w.trun_para); } };
template<class E, class Q> std::vector<E> flat(const SI<E, Q> &s, const SI<E, Q> &shape) {
  std::vector<E> v; for (size_t r = 0; r < shape.rows(); ++r) for (size_t c = 0; c < shape.cols(); ++c) for (size_t k = 0; k < shape({r, c}).size(); ++k) { size_t n = shape({r, c})[k].size(); bool has = r < s.rows() && c < s.cols() && k < s({r, c}).size() && !s({r, c})[k].IsDefault() && s({r, c})[k].size() == n; for (size_t i = 0; i < n; ++i) v.push_back(has ? s({r, c})[k].At_(i) : E(0)); } return v; }
template<class E> double linf(const std::vector<E> &a, const std::vector<E> &b) { if (a.size() != b.size()) return INFINITY; double m = 0; for (size_t i = 0; i < a.size(); ++i) { double x = mag(a[i] - b[i]); if (!(x <= m)) m = x; } return m; }
template<class E> double norm2(const std::vector<E> &a) { double s = 0; for (auto &x : a) s += std::norm(x); return s; }
template<class T> void putv(std::ostream &os, const std::vector<T> &v) { mp::put(os, v.size()); for (auto &x : v) mp::put(os, x); }
template<class T> std::vector<T> getv(mp::In &in) { size_t n = in.get<size_t>(); std::vector<T> v; if (n > 10000000) { in.bad = true; return v; } for (size_t i = 0; i < n && !in.bad; ++i) v.push_back(in.get<T>()); return v; }
template<bool PBC> auto trunc() { if constexpr (PBC) return TRGTruncateParams<double>::SVD(1, 1000, 0.0); else return BMPSTruncateParams<double>::SVD(1, 1000, 0.0); }
}  // namespace sc
