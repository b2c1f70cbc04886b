#ifndef SHIM_QLMPS_TEN_VEC_H
#define SHIM_QLMPS_TEN_VEC_H
#include "qlmps/utilities.h"
namespace qlmps {
template<class ElemT> class DuoVector { public: DuoVector() = default; DuoVector(size_t n) : d_(n, nullptr) {} DuoVector(const DuoVector &o) : d_(o.size(), nullptr) { for (size_t i = 0; i < size(); ++i) if (o.d_[i]) d_[i] = new ElemT(*o.d_[i]); }
  DuoVector &operator=(const DuoVector &o) { if (this != &o) { DuoVector t(o); std::swap(d_, t.d_); } return *this; } DuoVector(DuoVector &&o) noexcept : d_(std::move(o.d_)) { o.d_.clear(); } DuoVector &operator=(DuoVector &&o) noexcept { std::swap(d_, o.d_); return *this; } virtual ~DuoVector() { for (auto p : d_) delete p; }
  ElemT &operator[](size_t i) { if (!d_[i]) d_[i] = new ElemT; return *d_[i]; } const ElemT &operator[](size_t i) const { return *d_[i]; } ElemT *&operator()(size_t i) { return d_[i]; } const ElemT *operator()(size_t i) const { return d_[i]; }
  void alloc(size_t i) { delete d_[i]; d_[i] = new ElemT; } void dealloc(size_t i) { delete d_[i]; d_[i] = nullptr; } size_t size() const { return d_.size(); } bool empty() const { for (auto p : d_) if (p) return false; return true; } ElemT &front() { return (*this)[0]; } ElemT &back() { return (*this)[size() - 1]; } const ElemT &front() const { return *d_.front(); } const ElemT &back() const { return *d_.back(); }
  protected: std::vector<ElemT *> d_; };
template<class TenT> class TenVec : public DuoVector<TenT> { public: using DuoVector<TenT>::DuoVector; };
}
#endif
