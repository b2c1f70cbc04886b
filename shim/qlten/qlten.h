// Dense, bosonic stand-in for TensorToolkit (qlten): just enough for PEPS headers to compile and compute correctly with
// one trivial symmetry sector. Contractions are exact; SVD/QR use Eigen. Written from the call sites in PEPS only.
#ifndef SHIM_QLTEN_H
#define SHIM_QLTEN_H
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <Eigen/Dense>
#include "qlten/framework/hp_numeric/mpi_fun.h"
namespace qlten {
const std::string kQLTenFileSuffix = "qlten";
using CoorsT = std::vector<size_t>; using ShapeT = std::vector<size_t>;
enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };
inline TenIndexDirType InverseDir(TenIndexDirType d) { return d == IN ? OUT : d == OUT ? IN : NDIR; }

class Showable { public: virtual ~Showable() = default; virtual void Show(const size_t) const {} };
class Streamable { public: virtual ~Streamable() = default; virtual void StreamRead(std::istream &) {} virtual void StreamWrite(std::ostream &) const {} };
inline std::ostream &operator<<(std::ostream &o, const Streamable &x) { x.StreamWrite(o); return o; } inline std::istream &operator>>(std::istream &i, Streamable &x) { x.StreamRead(i); return i; }
inline bool is_nan(double x) { return std::isnan(x); } inline bool is_nan(const std::complex<double> &x) { return std::isnan(x.real()) || std::isnan(x.imag()); }
inline std::string IndentPrinter(const size_t l) { return std::string(2 * l, ' '); }

enum ExecutorStatus { INITING, INITED, EXEING, FINISH };
class Executor { public: Executor() = default; virtual ~Executor() = default; virtual void Execute() = 0; ExecutorStatus GetStatus() const { return status_; }
  void SetStatus(const ExecutorStatus s) { status_ = s; } protected: ExecutorStatus status_ = INITING; };

class Timer { public: Timer() : Timer("") {} Timer(const std::string &n) : n_(n), t_(std::chrono::steady_clock::now()) {} void Restart() { t_ = std::chrono::steady_clock::now(); } void Suspend() {}
  double Elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_).count(); }
  double PrintElapsed(std::size_t = 5) { return Elapsed(); } private: std::string n_; std::chrono::steady_clock::time_point t_; };

namespace special_qn {
class TrivialRepQN { public: TrivialRepQN() = default; static TrivialRepQN Zero() { return {}; } int dim() const { return 1; } TrivialRepQN operator-() const { return {}; } TrivialRepQN operator+(const TrivialRepQN &) const { return {}; }
  TrivialRepQN operator-(const TrivialRepQN &) const { return {}; } TrivialRepQN &operator+=(const TrivialRepQN &) { return *this; } bool operator==(const TrivialRepQN &) const { return true; } bool operator!=(const TrivialRepQN &) const { return false; }
  bool IsFermionParityOdd() const { return false; } bool IsFermionParityEven() const { return true; } size_t Hash() const { return 0; } static constexpr bool IsFermionic() { return false; } };
inline std::ostream &operator<<(std::ostream &o, const TrivialRepQN &) { return o; } inline std::istream &operator>>(std::istream &i, TrivialRepQN &) { return i; }
}
template<typename QNT> struct Fermionicity { static constexpr bool IsFermionic() { return false; } };

template<typename QNT> class QNSector { public: QNSector() = default; QNSector(const QNT &q, size_t d) : qn_(q), dgnc_(d) {} size_t dim() const { return dgnc_; } size_t GetDegeneracy() const { return dgnc_; } const QNT &GetQn() const { return qn_; }
  bool operator==(const QNSector &o) const { return dgnc_ == o.dgnc_; } bool operator!=(const QNSector &o) const { return !(*this == o); } bool IsFermionParityEven() const { return true; } bool IsFermionParityOdd() const { return false; } private: QNT qn_; size_t dgnc_ = 0; };
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;

template<typename QNT> class Index { public:
  static constexpr bool IsFermionic() { return false; } Index() = default; Index(const QNSectorVec<QNT> &s, const TenIndexDirType d) : s_(s), dir_(d) { for (auto &x : s_) dim_ += x.dim(); }
  size_t dim() const { return dim_; } TenIndexDirType GetDir() const { return dir_; } void SetDir(TenIndexDirType d) { dir_ = d; } size_t GetQNSctNum() const { return s_.size(); } const QNSector<QNT> &GetQNSct(size_t i) const { return s_.at(i); }
  QNSector<QNT> GetQNSctFromActualCoor(size_t) const { return s_.at(0); } std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const { size_t b = 0; while (c >= s_[b].dim()) c -= s_[b++].dim(); return {b, c}; }
  void Inverse() { dir_ = InverseDir(dir_); } bool operator==(const Index &o) const { return dim_ == o.dim_ && dir_ == o.dir_; } bool operator!=(const Index &o) const { return !(*this == o); } size_t Hash() const { return dim_; }
  private: QNSectorVec<QNT> s_; TenIndexDirType dir_ = NDIR; size_t dim_ = 0; };
template<typename QNT> Index<QNT> InverseIndex(const Index<QNT> &i) { auto r = i; r.Inverse(); return r; }
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;

template<class T> struct ShimRng { static std::mt19937_64 &g() { static std::mt19937_64 r(20240607); return r; } };
inline void SetRandomSeed(unsigned s) { ShimRng<int>::g().seed(s); }
template<class E> inline E ShimRand(std::mt19937_64 &g) { return std::uniform_real_distribution<double>(0, 1)(g); }
template<> inline std::complex<double> ShimRand<std::complex<double>>(std::mt19937_64 &g) { std::uniform_real_distribution<double> u(0, 1); double a = u(g), b = u(g); return {a, b}; }
template<class E> inline E ShimConj(const E &x) { return x; } template<class T> inline std::complex<T> ShimConj(const std::complex<T> &x) { return std::conj(x); }

template<typename ElemT, typename QNT> class QLTensor;
template<typename ElemT, typename QNT> struct ShimBSDT {
  QLTensor<ElemT, QNT> *t; void RawDataMPIBcast(const MPI_Comm &c, int root); size_t GetActualRawDataSize() const { return t->size(); } };

template<typename ElemT, typename QNT> class QLTensor : public Showable, public Streamable { public:
  using RealT = typename RealTypeTrait<ElemT>::type; using ElemType = ElemT;
  QLTensor() = default;
  QLTensor(const IndexVec<QNT> &ix) : ix_(ix), dflt_(false) { shape(); }
  QLTensor(const std::initializer_list<Index<QNT>> &ix) : QLTensor(IndexVec<QNT>(ix)) {}
  QLTensor(IndexVec<QNT> &&ix) : ix_(std::move(ix)), dflt_(false) { shape(); }
  QLTensor(const QLTensor &) = default; QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept : ix_(std::move(o.ix_)), sh_(std::move(o.sh_)), d_(std::move(o.d_)), dflt_(o.dflt_), blk_(o.blk_) { o.reset(); }
  QLTensor &operator=(QLTensor &&o) noexcept { if (this != &o) { ix_ = std::move(o.ix_); sh_ = std::move(o.sh_); d_ = std::move(o.d_); dflt_ = o.dflt_; blk_ = o.blk_; o.reset(); } return *this; }
  static constexpr bool IsFermionic() { return false; }
  size_t Rank() const { return ix_.size(); } size_t size() const { return n_elem(); } const Index<QNT> &GetIndex(size_t i) const { return ix_.at(i); } const IndexVec<QNT> &GetIndexes() const { return ix_; } const ShapeT &GetShape() const { return sh_; }
  bool IsDefault() const { return dflt_; } bool IsScalar() const { return !dflt_ && ix_.empty(); } size_t GetQNBlkNum() const { return blk_ ? 1 : 0; } size_t GetActualDataSize() const { return blk_ ? n_elem() : 0; }
  QNT Div(bool = false) const { return QNT::Zero(); } bool HasNan() const { for (auto &x : d_) if (std::isnan(std::abs(x))) return true; return false; }
  ElemT GetElem(const CoorsT &c) const { return blk_ ? d_[off(c)] : ElemT(0); } void SetElem(const CoorsT &c, const ElemT e) { alloc(); d_[off(c)] = e; }
  struct Acc { QLTensor *t; CoorsT c; operator ElemT() const { return t->GetElem(c); } Acc &operator=(const ElemT &e) { t->SetElem(c, e); return *this; } Acc &operator=(const Acc &o) { t->SetElem(c, (ElemT) o); return *this; } Acc &operator+=(const ElemT &e) { t->SetElem(c, t->GetElem(c) + e); return *this; } Acc &operator*=(const ElemT &e) { t->SetElem(c, t->GetElem(c) * e); return *this; } };
  template<class... I> ElemT operator()(I... i) const { return GetElem(CoorsT{(size_t) i...}); } template<class... I> Acc operator()(I... i) { return Acc{this, CoorsT{(size_t) i...}}; }
  ElemT operator()(const CoorsT &c) const { return GetElem(c); } Acc operator()(const CoorsT &c) { return Acc{this, c}; }
  ElemT GetScalar() const { return blk_ ? d_[0] : ElemT(0); }
  void Random(const QNT &) { alloc(); for (auto &x : d_) x = ShimRand<ElemT>(ShimRng<int>::g()); }
  void Random(const QNT &, std::mt19937_64 &g) { alloc(); for (auto &x : d_) x = ShimRand<ElemT>(g); }
  void Fill(const QNT &, const ElemT v) { alloc(); for (auto &x : d_) x = v; } void Fill(const ElemT v) { alloc(); for (auto &x : d_) x = v; }
  void Dag() { for (auto &i : ix_) i.Inverse(); for (auto &x : d_) x = ShimConj(x); } void ActFermionPOps() {}
  void Transpose(const std::vector<size_t> &ax) {
    if (dflt_) return; assert(ax.size() == Rank()); IndexVec<QNT> ni; for (auto a : ax) ni.push_back(ix_[a]); if (!blk_) { ix_ = ni; shape(); return; }
    ShapeT ns; for (auto a : ax) ns.push_back(sh_[a]); std::vector<size_t> st = strides(sh_); std::vector<ElemT> nd(d_.size()); CoorsT c(ax.size(), 0);
    for (size_t k = 0; k < nd.size(); ++k) { size_t o = 0; for (size_t j = 0; j < ax.size(); ++j) o += c[j] * st[ax[j]]; nd[k] = d_[o]; for (size_t j = ax.size(); j-- > 0;) { if (++c[j] < ns[j]) break; c[j] = 0; } }
    ix_ = ni; d_ = std::move(nd); shape(); }
  void FuseIndex(const size_t a, const size_t b) { // fused index becomes index 0, a runs slower
    std::vector<size_t> ax{a, b}; for (size_t i = 0; i < Rank(); ++i) if (i != a && i != b) ax.push_back(i); Transpose(ax);
    IndexVec<QNT> ni{Index<QNT>({QNSector<QNT>(QNT::Zero(), sh_[0] * sh_[1])}, ix_[0].GetDir())}; for (size_t i = 2; i < ix_.size(); ++i) ni.push_back(ix_[i]); ix_ = ni; shape(); }
  RealT Get2Norm() const { RealT s = 0; for (auto &x : d_) s += std::norm(x); return std::sqrt(s); } RealT GetQuasi2Norm() const { return Get2Norm(); }
  RealT Normalize() { RealT n = Get2Norm(); for (auto &x : d_) x /= n; return n; } RealT QuasiNormalize() { return Normalize(); }
  RealT GetMaxAbs() const { RealT m = 0; for (auto &x : d_) m = std::max(m, (RealT) std::abs(x)); return m; }
  void ElementWiseInv(RealT tol = 0) { for (auto &x : d_) x = std::abs(x) > tol ? ElemT(1) / x : ElemT(0); }
  void ElementWiseSqrt() { for (auto &x : d_) x = std::sqrt(x); } void ElementWiseSquare() { for (auto &x : d_) x = x * x; } void ElementWiseSquaredNorm() { for (auto &x : d_) x = ElemT(std::norm(x)); }
  void ElementWiseClipTo(double lim) { for (auto &x : d_) { RealT a = std::abs(x); if (a > lim) x *= RealT(lim / a); } }
  void ElementWiseBoundTo(double lim) { ElementWiseClipTo(lim); }
  template<class G> void ElementWiseRandomizeMagnitudePreservePhase(G &u, std::mt19937_64 &g) { for (auto &x : d_) { RealT a = std::abs(x); RealT m = u(g); x = a > 0 ? x / a * m : ElemT(m); } }
  QLTensor operator-() const { auto r = *this; for (auto &x : r.d_) x = -x; return r; }
  QLTensor operator+(const QLTensor &o) const { auto r = *this; r += o; return r; } QLTensor operator-(const QLTensor &o) const { auto r = *this; r += -o; return r; }
  QLTensor &operator+=(const QLTensor &o) { if (dflt_) { *this = o; return *this; } if (o.dflt_) throw std::runtime_error("shim: adding a default tensor"); if (sh_ != o.sh_) throw std::runtime_error("shim: shape mismatch in addition"); if (!o.blk_) return *this; alloc(); for (size_t i = 0; i < d_.size(); ++i) d_[i] += o.d_[i]; return *this; }
  QLTensor operator*(const ElemT s) const { auto r = *this; r *= s; return r; } QLTensor &operator*=(const ElemT s) { for (auto &x : d_) x *= s; return *this; }
  template<class S, class = std::enable_if_t<!std::is_same_v<S, ElemT> && std::is_arithmetic_v<S>>> QLTensor &operator*=(const S s) { for (auto &x : d_) x *= RealT(s); return *this; }
  friend QLTensor operator*(const ElemT s, const QLTensor &t) { return t * s; }
  bool operator==(const QLTensor &o) const { if (dflt_ || o.dflt_) return dflt_ == o.dflt_; return sh_ == o.sh_ && dense() == o.dense(); } bool operator!=(const QLTensor &o) const { return !(*this == o); }
  void StreamWrite(std::ostream &os) const override { os << "QLT " << dflt_ << " " << blk_ << " " << ix_.size() << " "; for (auto &i : ix_) os << i.dim() << " " << (int) i.GetDir() << " "; os.write((const char *) d_.data(), d_.size() * sizeof(ElemT)); os << " E\n"; }
  void StreamRead(std::istream &is) override { std::string m; size_t r; QLTensor t; is >> m >> t.dflt_ >> t.blk_ >> r; if (!is || m != "QLT" || r > 64) { is.setstate(std::ios::failbit); return; } for (size_t i = 0; i < r; ++i) { size_t n; int d; is >> n >> d; t.ix_.push_back(Index<QNT>({QNSector<QNT>(QNT::Zero(), n)}, (TenIndexDirType) d)); } is.get(); t.shape(); if (t.n_elem() > (1u << 26)) { is.setstate(std::ios::failbit); return; } if (t.blk_) { t.d_.resize(t.n_elem()); is.read((char *) t.d_.data(), t.d_.size() * sizeof(ElemT)); } std::string e; is >> e; if (!is || e != "E") { is.setstate(std::ios::failbit); return; } *this = std::move(t); }
  friend std::ostream &operator<<(std::ostream &o, const QLTensor &t) { t.StreamWrite(o); return o; } friend std::istream &operator>>(std::istream &i, QLTensor &t) { t.StreamRead(i); return i; }
  // MPI
  void MPI_Send(int dst, int tag, const MPI_Comm &c) const { std::ostringstream o; StreamWrite(o); std::string s = o.str(); unsigned long n = s.size(); ::MPI_Send(&n, 1, MPI_UNSIGNED_LONG, dst, tag, c); ::MPI_Send(s.data(), (int) n, MPI_CHAR, dst, tag, c); }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &c) { unsigned long n; MPI_Status s; ::MPI_Recv(&n, 1, MPI_UNSIGNED_LONG, src, tag, c, &s); std::string b(n, ' '); ::MPI_Recv(b.data(), (int) n, MPI_CHAR, s.MPI_SOURCE, s.MPI_TAG, c, &s); std::istringstream i(b); StreamRead(i); return s; }
  void PackShellForMPI(std::vector<char> &b) const { auto put = [&](uint64_t v) { b.insert(b.end(), (char *) &v, (char *) &v + 8); }; put(dflt_); put(blk_); put(ix_.size()); for (auto &i : ix_) { put(i.dim()); put((uint64_t) (int64_t) i.GetDir()); } }
  template<class B> size_t PackShellSize(B &) const { return 0; }
  void UnpackShellForMPI(const char *&p, const char *end) { auto get = [&]() { uint64_t v; if (end - p < 8) throw std::runtime_error("shim: shell too short"); std::memcpy(&v, p, 8); p += 8; return v; }; reset(); dflt_ = get(); blk_ = get(); size_t r = get(); for (size_t i = 0; i < r; ++i) { size_t d = get(); int64_t k = (int64_t) get(); ix_.push_back(Index<QNT>({QNSector<QNT>(QNT::Zero(), d)}, (TenIndexDirType) k)); } shape(); if (blk_) d_.assign(n_elem(), ElemT(0)); }
  ShimBSDT<ElemT, QNT> GetBlkSparDataTen() { return {this}; } const ShimBSDT<ElemT, QNT> GetBlkSparDataTen() const { return {const_cast<QLTensor *>(this)}; }
  const ElemT *GetRawDataPtr() const { return d_.data(); } ElemT *GetRawDataPtr() { return d_.data(); }
  void Show(const size_t = 0) const override {} void ConciseShow(size_t = 0) const {}
  // shim internals
  std::vector<ElemT> dense() const { return blk_ ? d_ : std::vector<ElemT>(n_elem(), ElemT(0)); } std::vector<ElemT> &raw() { return d_; } bool has_blk() const { return blk_; } void alloc() { if (!blk_) { d_.assign(n_elem(), ElemT(0)); blk_ = true; dflt_ = false; } }
  void set_raw(std::vector<ElemT> v) { d_ = std::move(v); blk_ = true; dflt_ = false; }
  static std::vector<size_t> strides(const ShapeT &s) { std::vector<size_t> st(s.size(), 1); for (size_t i = s.size(); i-- > 1;) st[i - 1] = st[i] * s[i]; return st; }
  private: void reset() { ix_.clear(); sh_.clear(); d_.clear(); dflt_ = true; blk_ = false; } void shape() { sh_.clear(); for (auto &i : ix_) sh_.push_back(i.dim()); }
  size_t n_elem() const { if (dflt_) return 0; size_t n = 1; for (auto s : sh_) n *= s; return n; } size_t off(const CoorsT &c) const { assert(c.size() == sh_.size()); size_t o = 0; for (size_t i = 0; i < c.size(); ++i) { assert(c[i] < sh_[i]); o = o * sh_[i] + c[i]; } return o; }
  IndexVec<QNT> ix_; ShapeT sh_; std::vector<ElemT> d_; bool dflt_ = true, blk_ = false; };
template<typename E, typename Q> void ShimBSDT<E, Q>::RawDataMPIBcast(const MPI_Comm &c, int root) { if (t->has_blk()) ::MPI_Bcast(t->raw().data(), (int) t->raw().size(), hp_numeric::GetMPIDataType<E>(), root, c); }

template<class E, class Q> QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { auto r = t; r.Dag(); return r; }
template<class E, class Q> Q Div(const QLTensor<E, Q> &t) { return t.Div(); }
template<class Q> QLTensor<std::complex<double>, Q> ToComplex(const QLTensor<double, Q> &t) { QLTensor<std::complex<double>, Q> r(t.GetIndexes()); if (t.has_blk()) { std::vector<std::complex<double>> v; for (auto x : t.dense()) v.push_back(x); r.set_raw(v); } return r; }
template<class E, class Q> E QuasiInnerProduct(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { E s = 0; if (a.IsDefault() || b.IsDefault()) return s; auto x = a.dense(), y = b.dense(); for (size_t i = 0; i < x.size(); ++i) s += ShimConj(x[i]) * y[i]; return s; }
template<class E, class Q> QLTensor<E, Q> ElementWiseSqrt(const QLTensor<E, Q> &t) { auto r = t; r.ElementWiseSqrt(); return r; }
template<class E, class Q> QLTensor<E, Q> ElementWiseMultiply(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { if (a.GetShape() != b.GetShape()) throw std::runtime_error("shim: shape mismatch in element-wise product"); auto r = a; auto x = a.dense(), y = b.dense(); for (size_t i = 0; i < x.size(); ++i) x[i] *= y[i]; r.set_raw(x); return r; }
template<class E, class Q> QLTensor<E, Q> Eye(const Index<Q> &i) { QLTensor<E, Q> r(IndexVec<Q>{i, InverseIndex(i)}); r.alloc(); for (size_t k = 0; k < i.dim(); ++k) r({k, k}) = E(1); return r; }
template<class E, class Q> void LinearCombine(const std::vector<E> &c, const std::vector<QLTensor<E, Q> *> &t, const E beta, QLTensor<E, Q> *r) { QLTensor<E, Q> s; if (beta != E(0) && !r->IsDefault()) s = *r * beta; for (size_t i = 0; i < c.size(); ++i) { auto x = *t[i] * c[i]; if (s.IsDefault()) s = x; else s += x; } *r = s; }
template<class E, class Q> void LinearCombine(const size_t k, const E *c, const std::vector<QLTensor<E, Q> *> &t, const E beta, QLTensor<E, Q> *r) { LinearCombine(std::vector<E>(c, c + k), std::vector<QLTensor<E, Q> *>(t.begin(), t.begin() + k), beta, r); }

// core contraction: result legs = remaining legs of a (in the given order), then of b
template<class E, class Q> void ShimContract(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b, const std::vector<size_t> &ca, const std::vector<size_t> &cb, const std::vector<size_t> &ra, const std::vector<size_t> &rb, QLTensor<E, Q> &res) {
  if (a.IsDefault() || b.IsDefault()) throw std::runtime_error("shim: contracting a default tensor");
  for (size_t i = 0; i < ca.size(); ++i) if (a.GetIndex(ca[i]).dim() != b.GetIndex(cb[i]).dim()) throw std::runtime_error("shim: contracted legs differ in dimension");
  IndexVec<Q> ix; for (auto i : ra) ix.push_back(a.GetIndex(i)); for (auto i : rb) ix.push_back(b.GetIndex(i));
  QLTensor<E, Q> out(ix);
  if (a.has_blk() && b.has_blk()) { auto ta = a, tb = b; std::vector<size_t> pa = ra; pa.insert(pa.end(), ca.begin(), ca.end()); std::vector<size_t> pb = cb; pb.insert(pb.end(), rb.begin(), rb.end()); ta.Transpose(pa); tb.Transpose(pb);
    size_t k = 1; for (auto i : ca) k *= a.GetShape()[i]; size_t m = ta.raw().size() / k, n = tb.raw().size() / k; using M = Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
    M c = Eigen::Map<const M>(ta.raw().data(), m, k) * Eigen::Map<const M>(tb.raw().data(), k, n); out.set_raw(std::vector<E>(c.data(), c.data() + m * n)); }
  res = std::move(out); }
inline std::vector<size_t> ShimRest(size_t r, const std::vector<size_t> &c) { std::vector<size_t> o; for (size_t i = 0; i < r; ++i) if (std::find(c.begin(), c.end(), i) == c.end()) o.push_back(i); return o; }
template<class E, class Q> void Contract(const QLTensor<E, Q> *a, const std::vector<size_t> &ca, const QLTensor<E, Q> *b, const std::vector<size_t> &cb, QLTensor<E, Q> *r) { ShimContract(*a, *b, ca, cb, ShimRest(a->Rank(), ca), ShimRest(b->Rank(), cb), *r); }
template<class E, class Q> void Contract(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<E, Q> *r) { Contract(a, ax[0], b, ax[1], r); }
template<class Q> void Contract(const QLTensor<std::complex<double>, Q> *a, const std::vector<size_t> &ca, const QLTensor<double, Q> *b, const std::vector<size_t> &cb, QLTensor<std::complex<double>, Q> *r) { auto t = ToComplex(*b); Contract(a, ca, &t, cb, r); }
template<class Q> void Contract(const QLTensor<double, Q> *a, const std::vector<size_t> &ca, const QLTensor<std::complex<double>, Q> *b, const std::vector<size_t> &cb, QLTensor<std::complex<double>, Q> *r) { auto t = ToComplex(*a); Contract(&t, ca, b, cb, r); }
template<class Q> void Contract(const QLTensor<std::complex<double>, Q> *a, const QLTensor<double, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<std::complex<double>, Q> *r) { auto t = ToComplex(*b); Contract(a, ax[0], &t, ax[1], r); }
template<class Q> void Contract(const QLTensor<double, Q> *a, const QLTensor<std::complex<double>, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<std::complex<double>, Q> *r) { auto t = ToComplex(*a); Contract(&t, ax[0], b, ax[1], r); }
// cyclic contraction: `num` consecutive legs from a_start / b_start (cyclically); remaining legs keep cyclic order
template<class E, class Q, bool AH = true, bool BH = true, class TA, class TB> void Contract(const TA &a0, const TB &b0, const size_t as, const size_t bs, const size_t num, QLTensor<E, Q> &r) {
  auto conv = [](const auto &t) -> QLTensor<E, Q> { if constexpr (std::is_same_v<std::decay_t<decltype(t)>, QLTensor<E, Q>>) return t; else return ToComplex(t); };
  QLTensor<E, Q> a = conv(a0), b = conv(b0); std::vector<size_t> ca, cb, ra, rb; size_t na = a.Rank(), nb = b.Rank();
  for (size_t i = 0; i < num; ++i) { ca.push_back((as + i) % na); cb.push_back((bs + i) % nb); } for (size_t i = num; i < na; ++i) ra.push_back((as + i) % na); for (size_t i = num; i < nb; ++i) rb.push_back((bs + i) % nb);
  ShimContract(a, b, ca, cb, ra, rb, r); }

template<class E> using ShimMat = Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
template<class E, class Q> ShimMat<E> ShimToMat(const QLTensor<E, Q> &t, size_t l) { size_t m = 1, n = 1; for (size_t i = 0; i < t.Rank(); ++i) (i < l ? m : n) *= t.GetShape()[i]; auto d = t.dense(); return Eigen::Map<ShimMat<E>>(d.data(), m, n); }
template<class E, class Q> QLTensor<E, Q> ShimFromMat(const ShimMat<E> &m, const IndexVec<Q> &ix) { QLTensor<E, Q> t(ix); t.set_raw(std::vector<E>(m.data(), m.data() + m.size())); return t; }
template<class Q> Index<Q> ShimIdx(size_t d, TenIndexDirType dir) { return Index<Q>({QNSector<Q>(Q::Zero(), d)}, dir); }
template<class E, class Q> void SVD(const QLTensor<E, Q> *pt, const size_t ld, const Q &, const typename RealTypeTrait<E>::type te, const size_t Dmin, const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<typename RealTypeTrait<E>::type, Q> *ps, QLTensor<E, Q> *pvt, typename RealTypeTrait<E>::type *pte, size_t *pD) {
  using R = typename RealTypeTrait<E>::type; if (pt->IsDefault() || !pt->has_blk()) throw std::runtime_error("Empty tensor"); ShimMat<E> M = ShimToMat(*pt, ld); Eigen::JacobiSVD<Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic>> s(M, Eigen::ComputeThinU | Eigen::ComputeThinV); auto sv = s.singularValues(); size_t n = sv.size(), D = n;
  R tot = 0; for (size_t i = 0; i < n; ++i) tot += sv[i] * sv[i]; R cut = 0; while (D > std::max<size_t>(1, std::min(Dmin, n))) { R c = cut + sv[D - 1] * sv[D - 1]; if (D > Dmax || (tot > 0 && c / tot <= te)) { cut = c; --D; } else break; } while (D > Dmax && D > 1) { cut += sv[D - 1] * sv[D - 1]; --D; }
  if (pte) *pte = tot > 0 ? cut / tot : R(0); if (pD) *pD = D; IndexVec<Q> u, v; for (size_t i = 0; i < ld; ++i) u.push_back(pt->GetIndex(i)); u.push_back(ShimIdx<Q>(D, OUT)); v.push_back(ShimIdx<Q>(D, IN)); for (size_t i = ld; i < pt->Rank(); ++i) v.push_back(pt->GetIndex(i));
  ShimMat<E> U = s.matrixU().leftCols(D), V = s.matrixV().leftCols(D).adjoint(); ShimMat<R> S = ShimMat<R>::Zero(D, D); for (size_t i = 0; i < D; ++i) S(i, i) = sv[i];
  *pu = ShimFromMat<E, Q>(U, u); *ps = ShimFromMat<R, Q>(S, {ShimIdx<Q>(D, IN), ShimIdx<Q>(D, OUT)}); *pvt = ShimFromMat<E, Q>(V, v); }
template<class E, class Q> void QR(const QLTensor<E, Q> *pt, const size_t ld, const Q &, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  ShimMat<E> M = ShimToMat(*pt, ld); Eigen::HouseholderQR<Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic>> h(M); size_t k = std::min(M.rows(), M.cols()); ShimMat<E> q = h.householderQ() * Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic>::Identity(M.rows(), k); ShimMat<E> r = q.adjoint() * M;
  IndexVec<Q> a, b; for (size_t i = 0; i < ld; ++i) a.push_back(pt->GetIndex(i)); a.push_back(ShimIdx<Q>(k, OUT)); b.push_back(ShimIdx<Q>(k, IN)); for (size_t i = ld; i < pt->Rank(); ++i) b.push_back(pt->GetIndex(i)); *pq = ShimFromMat<E, Q>(q, a); *pr = ShimFromMat<E, Q>(r, b); }
template<class E, class Q> void LQ(const QLTensor<E, Q> *pt, const size_t rd, const Q &, QLTensor<E, Q> *pl, QLTensor<E, Q> *pq) {
  size_t ld = pt->Rank() - rd; ShimMat<E> M = ShimToMat(*pt, ld); Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic> A = M.adjoint(); Eigen::HouseholderQR<Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic>> h(A); size_t k = std::min(A.rows(), A.cols()); Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic> q = h.householderQ() * Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic>::Identity(A.rows(), k); ShimMat<E> Q2 = q.adjoint(); ShimMat<E> L = M * q;
  IndexVec<Q> a, b; for (size_t i = 0; i < ld; ++i) a.push_back(pt->GetIndex(i)); a.push_back(ShimIdx<Q>(k, OUT)); b.push_back(ShimIdx<Q>(k, IN)); for (size_t i = ld; i < pt->Rank(); ++i) b.push_back(pt->GetIndex(i)); *pl = ShimFromMat<E, Q>(L, a); *pq = ShimFromMat<E, Q>(Q2, b); }
template<class E, class Q> void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &ax, QLTensor<E, Q> *r) {
  IndexVec<Q> ix; for (size_t i = 0; i < a->Rank(); ++i) { bool e = std::find(ax.begin(), ax.end(), i) != ax.end(); ix.push_back(e ? ShimIdx<Q>(a->GetShape()[i] + b->GetShape()[i], a->GetIndex(i).GetDir()) : a->GetIndex(i)); }
  QLTensor<E, Q> t(ix); t.alloc(); auto put = [&](const QLTensor<E, Q> &s, bool shift) { CoorsT c(s.Rank(), 0); auto d = s.dense(); for (size_t k = 0; k < d.size(); ++k) { CoorsT g = c; if (shift) for (auto x : ax) g[x] += a->GetShape()[x]; t.SetElem(g, d[k]); for (size_t j = c.size(); j-- > 0;) { if (++c[j] < s.GetShape()[j]) break; c[j] = 0; } } }; put(*a, false); put(*b, true); *r = t; }
template<class E, class Q> QLTensor<E, Q> IndexCombine(const Index<Q> &a, const Index<Q> &b, const TenIndexDirType dir) { QLTensor<E, Q> t(IndexVec<Q>{a, b, ShimIdx<Q>(a.dim() * b.dim(), dir)}); t.alloc(); for (size_t i = 0; i < a.dim(); ++i) for (size_t j = 0; j < b.dim(); ++j) t.SetElem({i, j, i * b.dim() + j}, E(1)); return t; }
const double kDoubleEpsilon = 1e-15; const float kFloatEpsilon = 1e-6f;
inline std::vector<CoorsT> GenAllCoors(const ShapeT &s) { std::vector<CoorsT> r; CoorsT c(s.size(), 0); size_t n = 1; for (auto k : s) n *= k; for (size_t i = 0; i < n; ++i) { r.push_back(c); for (size_t j = c.size(); j-- > 0;) { if (++c[j] < s[j]) break; c[j] = 0; } } return r; }
template<class E, class Q> QLTensor<E, Q> DiagMatInv(const QLTensor<E, Q> &m, const typename RealTypeTrait<E>::type tol) { auto r = m; auto d = m.dense(); size_t n = m.GetShape()[0]; for (size_t i = 0; i < n; ++i) { E x = d[i * n + i]; d[i * n + i] = std::abs(x) < tol ? E(0) : E(1) / x; } r.set_raw(d); return r; }
template<class E, class Q> void GenDiag(const std::vector<E> &, QLTensor<E, Q> *) {}
} // namespace qlten
#endif
