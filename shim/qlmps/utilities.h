#ifndef SHIM_QLMPS_UTILITIES_H
#define SHIM_QLMPS_UTILITIES_H
#include <filesystem>
#include "qlten/qlten.h"
namespace qlmps {
using namespace qlten;
inline double Real(double x) { return x; } inline double Real(const std::complex<double> &x) { return x.real(); }
inline bool IsPathExist(const std::string &p) { return std::filesystem::exists(p); } inline void CreatPath(const std::string &p) { std::filesystem::create_directories(p); }
namespace mock_qlten { template<class E, class Q> void SVD(const QLTensor<E, Q> *t, size_t l, const Q &q, QLTensor<E, Q> *u, QLTensor<typename RealTypeTrait<E>::type, Q> *s, QLTensor<E, Q> *v) { typename RealTypeTrait<E>::type e; size_t D; qlten::SVD(t, l, q, typename RealTypeTrait<E>::type(0), (size_t) 1, std::numeric_limits<size_t>::max(), u, s, v, &e, &D); } using qlten::SVD; }
const int kUncentralizedCenterIdx = -1; enum MPSTenCanoType { NONE, LEFT, RIGHT };
}
#endif
