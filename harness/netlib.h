// Small integer tensor networks shared by the harnesses that judge amplitudes: geometry, random states, printing.
#pragma once
#include "hc.h"
#include <array>
#include <functional>
#include <random>
#include "qlten/qlten.h"
#include <Eigen/Dense>
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
namespace net {
using namespace qlpeps; using hc::Ev; using QN = qlten::special_qn::TrivialRepQN; using Idx = qlten::Index<QN>; using BC = BoundaryCondition;
inline Idx ix(int n, TenIndexDirType d) { return Idx({QNSector<QN>(QN::Zero(), n)}, d); }
template<class E> struct Num; template<> struct Num<double> { static double mk(double a, double) { return a; } }; template<> struct Num<std::complex<double>> { static std::complex<double> mk(double a, double b) { return {a, b}; } };
inline bool exact = true;
inline long long rnd(double x, double scale = 1) { double y = std::round(x); if (!(std::fabs(x - y) < 1e-5 + 1e-9 * scale) || std::fabs(y) > 2e9) { exact = false; return 0; } return (long long) y; }
struct Geo { int r = 0, c = 0, bc = 0; std::vector<std::array<int, 4>> d; int n() const { return r * c; }
  std::string dims() const { std::string s = "["; for (auto &x : d) { s += s.size() > 1 ? ",[" : "["; for (int k = 0; k < 4; ++k) s += (k ? "," : "") + std::to_string(x[k]); s += "]"; } return s + "]"; } };
inline Geo mkgeo(int r, int c, int bc, int D, bool uniform, std::mt19937 &g) { Geo q; q.r = r; q.c = c; q.bc = bc; q.d.resize(r * c); auto dim = [&]() { return uniform ? D : 1 + (int) (g() % D); };
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { int h = (j == c - 1 && !bc) ? 1 : dim(), v = (i == r - 1 && !bc) ? 1 : dim(); q.d[i * c + j][2] = h; if (j < c - 1 || bc) q.d[i * c + (j + 1) % c][0] = h; q.d[i * c + j][1] = v; if (i < r - 1 || bc) q.d[((i + 1) % r) * c + j][3] = v; }
  if (!bc) { for (int i = 0; i < r; ++i) q.d[i * c][0] = 1; for (int j = 0; j < c; ++j) q.d[j][3] = 1; } return q; }
using Flat = std::vector<long long>; // re, im, re, im ...
// contraction of absolute values (an upper bound on every partial sum): sites fastest along the row; wrapping bonds are enumerated
inline double bound(const Geo &q, const std::vector<std::vector<double>> &A) { double tot = 0; std::vector<int> cd; if (q.bc) { for (int i = 0; i < q.r; ++i) cd.push_back(q.d[i * q.c][0]); for (int j = 0; j < q.c; ++j) cd.push_back(q.d[j][3]); } std::vector<int> x(cd.size(), 0);
  while (true) { std::vector<double> V{1}; std::vector<int> hd(q.c, 1); // V[north_0..north_{c-1}] then west
    for (int i = 0; i < q.r; ++i) { int W = 1; for (int j = 0; j < q.c; ++j) { auto &d = q.d[i * q.c + j]; int fw = (q.bc && j == 0) ? x[i] : -1, fe = (q.bc && j == q.c - 1) ? x[i] : -1, fn = (q.bc && i == 0) ? x[q.r + j] : -1, fs = (q.bc && i == q.r - 1) ? x[q.r + j] : -1; int w1 = fw < 0 ? d[0] : 1, s1 = fs < 0 ? d[1] : 1, e1 = fe < 0 ? d[2] : 1, n1 = fn < 0 ? d[3] : 1; int a = 1, b = 1; for (int k = 0; k < j; ++k) a *= hd[k]; for (int k = j + 1; k < q.c; ++k) b *= hd[k]; std::vector<double> U(a * s1 * b * e1, 0);
        for (int ia = 0; ia < a; ++ia) for (int n = 0; n < n1; ++n) for (int ib = 0; ib < b; ++ib) for (int w = 0; w < w1; ++w) { double v = V[((ia * n1 + n) * b + ib) * w1 + w]; if (v == 0) continue; for (int s = 0; s < s1; ++s) for (int e = 0; e < e1; ++e) U[((ia * s1 + s) * b + ib) * e1 + e] += v * A[i * q.c + j][((((fw < 0 ? w : fw)) * d[1] + (fs < 0 ? s : fs)) * d[2] + (fe < 0 ? e : fe)) * d[3] + (fn < 0 ? n : fn)]; }
        V = U; hd[j] = s1; W = e1; } }
    tot += V[0]; size_t k = 0; for (; k < cd.size(); ++k) { if (++x[k] < cd[k]) break; x[k] = 0; } if (k == cd.size()) break; }
  return tot; }
struct State { Geo q; int P = 1; bool cplx = false; std::vector<Flat> X; // X[site * P + comp]
  size_t entries(int s) const { size_t n = 1; for (int k : q.d[s]) n *= k; return n; }
  void fill(std::mt19937 &g, int density, int top) { X.assign(q.n() * P, {}); for (int s = 0; s < q.n(); ++s) for (int p = 0; p < P; ++p) { Flat v(2 * entries(s), 0); for (size_t k = 0; k < v.size(); ++k) { if (!cplx && k % 2) continue; if ((int) (g() % 100) < density) v[k] = (g() % 2 ? 1 : -1) * (1 + (int) (g() % top)); } X[s * P + p] = v; } }
  double size() const { std::vector<std::vector<double>> A; for (int s = 0; s < q.n(); ++s) { std::vector<double> a(entries(s), 0); for (int p = 0; p < P; ++p) for (size_t k = 0; k < a.size(); ++k) a[k] = std::max(a[k], (double) std::llabs(X[s * P + p][2 * k]) + std::llabs(X[s * P + p][2 * k + 1])); A.push_back(a); } return bound(q, A); }
  std::string xs() const { std::string s = "["; for (auto &v : X) { s += s.size() > 1 ? ",[" : "["; for (size_t k = 0; k < v.size(); ++k) s += (k ? "," : "") + std::to_string(v[k]); s += "]"; } return s + "]"; }
  void out(Ev &e) const { e.i("r", q.r).i("c", q.c).i("bc", q.bc).i("p", P).raw("d", q.dims()).raw("X", xs()); }
  template<class E> QLTensor<E, QN> ten(int s, int p) const { auto &d = q.d[s]; auto &v = X[s * P + p]; QLTensor<E, QN> t({ix(d[0], IN), ix(d[1], OUT), ix(d[2], OUT), ix(d[3], IN)}); t.alloc(); auto &raw = t.raw(); for (size_t k = 0; k < raw.size(); ++k) raw[k] = Num<E>::mk(v[2 * k], v[2 * k + 1]); return t; }
  template<class E> SplitIndexTPS<E, QN> tps() const { SplitIndexTPS<E, QN> s(q.r, q.c, (size_t) P, (BC) q.bc); for (int i = 0; i < q.n(); ++i) for (int p = 0; p < P; ++p) s({(size_t) (i / q.c), (size_t) (i % q.c)})[p] = ten<E>(i, p); return s; } };
// every tensor, read as a matrix in either of the two ways a coarse-graining step splits it, has full rank
inline bool fullrank(const std::array<int, 4> &d, const Flat &v) { using M = Eigen::MatrixXcd; for (int k = 0; k < 2; ++k) { M m = M::Zero(d[0] * (k ? d[1] : d[3]), d[2] * (k ? d[3] : d[1])); size_t i = 0; for (int w = 0; w < d[0]; ++w) for (int s = 0; s < d[1]; ++s) for (int e = 0; e < d[2]; ++e) for (int n = 0; n < d[3]; ++n, ++i) { std::complex<double> z(v[2 * i], v[2 * i + 1]); if (k) m(w * d[1] + s, e * d[3] + n) = z; else m(w * d[3] + n, e * d[1] + s) = z; } Eigen::JacobiSVD<M> q(m); auto sv = q.singularValues(); if (sv[sv.size() - 1] < 0.2) return false; } return true; }
inline State fullstate(int L, int D, int P, bool cplx, std::mt19937 &g, double cap) { State s; s.q = mkgeo(L, L, 1, D, true, g); s.P = P; s.cplx = cplx; for (int dens = 60;; dens -= 3) { s.X.assign(L * L * P, {}); for (auto &x : s.X) { int i = &x - s.X.data(); do { x.assign(2 * s.entries(i / P), 0); for (size_t k = 0; k < x.size(); ++k) if ((cplx || k % 2 == 0) && (int) (g() % 100) < std::max(dens, 30) / (cplx ? 2 : 1)) x[k] = g() % 2 ? 1 : -1; } while (!fullrank(s.q.d[i / P], x)); } if (s.size() < cap || dens < 0) return s; } }
inline State mkstate(int r, int c, int bc, int D, bool uniform, int P, bool cplx, std::mt19937 &g, double cap = 1e9, int dens0 = 90, int top0 = 3) { State s; s.q = mkgeo(r, c, bc, D, uniform, g); s.P = P; s.cplx = cplx; for (int dens = dens0, top = top0;; dens -= 7, top = 2) { if (dens < 55) top = 1; s.fill(g, std::max(dens, 8), top); if (s.size() < cap || dens < -100) return s; } }
template<class T> inline std::vector<double> entries(const T &t, bool cplx = true) { std::vector<double> v; auto sh = t.GetShape(); size_t n = 1; for (auto k : sh) n *= k; std::vector<size_t> c(sh.size(), 0); for (size_t i = 0; i < n; ++i) { auto z = std::complex<double>(t.GetElem(c)); v.push_back(z.real()); v.push_back(z.imag()); for (size_t j = c.size(); j-- > 0;) { if (++c[j] < sh[j]) break; c[j] = 0; } } return v; }
inline SiteIdx site(const Geo &q, int s) { return {(size_t) (s / q.c), (size_t) (s % q.c)}; }
}
