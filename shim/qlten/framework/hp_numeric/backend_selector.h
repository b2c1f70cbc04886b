#ifndef SHIM_QLTEN_BACKEND_SELECTOR_H
#define SHIM_QLTEN_BACKEND_SELECTOR_H
#include "qlten/qlten.h"
// LAPACKE entry points used by the MinSR eigensolve, on Eigen; column-major, upper triangle read, eigenvectors in columns.
using lapack_int = int; using lapack_complex_double = std::complex<double>;
#define LAPACK_COL_MAJOR 102
#define LAPACK_ROW_MAJOR 101
template<class E> inline lapack_int shim_eig(char uplo, lapack_int n, E *a, lapack_int lda, double *w) {
  using M = Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic>; M m(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool up = i <= j; E x = (uplo == 'U') == up || i == j ? a[i + j * lda] : qlten::ShimConj(a[j + i * lda]); m(i, j) = i == j ? E(std::real(x)) : x; }
  Eigen::SelfAdjointEigenSolver<M> es(m); if (es.info() != Eigen::Success) return 1;
  for (int k = 0; k < n; ++k) { w[k] = es.eigenvalues()[k]; for (int i = 0; i < n; ++i) a[i + k * lda] = es.eigenvectors()(i, k); } return 0; }
inline lapack_int LAPACKE_dsyev(int layout, char, char uplo, lapack_int n, double *a, lapack_int lda, double *w) { return shim_eig<double>(layout == LAPACK_COL_MAJOR ? uplo : uplo == 'U' ? 'L' : 'U', n, a, lda, w); }
inline lapack_int LAPACKE_zheev(int layout, char, char uplo, lapack_int n, lapack_complex_double *a, lapack_int lda, double *w) { if (layout != LAPACK_COL_MAJOR) return -1; return shim_eig<std::complex<double>>(uplo, n, a, lda, w); }
// General eigenproblem, row-major; right eigenvectors in columns of vr, left (u^H a = w u^H) in columns of vl. Complex pairs of a real matrix: real part then imaginary part.
#include <Eigen/Eigenvalues>
template<class E> inline lapack_int shim_geev(lapack_int n, E *a, std::vector<std::complex<double>> &w, Eigen::MatrixXcd &vl, Eigen::MatrixXcd &vr) {
  Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic> m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = a[i * n + j];
  Eigen::ComplexEigenSolver<Eigen::MatrixXcd> r(m.template cast<std::complex<double>>()), l(m.adjoint().template cast<std::complex<double>>()); if (r.info() != Eigen::Success || l.info() != Eigen::Success) return 1;
  vr = r.eigenvectors(); vl = Eigen::MatrixXcd(n, n); w.clear(); std::vector<bool> used(n, false);
  for (int k = 0; k < n; ++k) { w.push_back(r.eigenvalues()[k]); int b = -1; for (int j = 0; j < n; ++j) if (!used[j] && (b < 0 || std::abs(std::conj(l.eigenvalues()[j]) - w[k]) < std::abs(std::conj(l.eigenvalues()[b]) - w[k]))) b = j; used[b] = true; vl.col(k) = l.eigenvectors().col(b); } return 0; }
inline lapack_int LAPACKE_zgeev(int, char, char, lapack_int n, lapack_complex_double *a, lapack_int, lapack_complex_double *w, lapack_complex_double *vl, lapack_int, lapack_complex_double *vr, lapack_int) { std::vector<std::complex<double>> ww; Eigen::MatrixXcd l, r; if (shim_geev(n, a, ww, l, r)) return 1; for (int k = 0; k < n; ++k) { w[k] = ww[k]; for (int i = 0; i < n; ++i) { vl[i * n + k] = l(i, k); vr[i * n + k] = r(i, k); } } return 0; }
inline lapack_int LAPACKE_dgeev(int, char, char, lapack_int n, double *a, lapack_int, double *wr, double *wi, double *vl, lapack_int, double *vr, lapack_int) { std::vector<std::complex<double>> ww; Eigen::MatrixXcd l, r; if (shim_geev(n, a, ww, l, r)) return 1; auto re = [&](Eigen::MatrixXcd &m, int k) { int b = 0; for (int i = 1; i < n; ++i) if (std::abs(m(i, k)) > std::abs(m(b, k)) + 1e-12) b = i; m.col(k) *= std::abs(m(b, k)) / m(b, k); };
  for (int k = 0; k < n; ++k) { wr[k] = ww[k].real(); wi[k] = std::abs(ww[k].imag()) < 1e-13 * (1 + std::abs(ww[k])) ? 0 : ww[k].imag(); if (wi[k] == 0) { re(l, k); re(r, k); } for (int i = 0; i < n; ++i) { vl[i * n + k] = l(i, k).real(); vr[i * n + k] = r(i, k).real(); } } return 0; }
#endif
