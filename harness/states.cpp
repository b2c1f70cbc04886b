// Wave functions as a whole: sums, conversions between representations, and gates applied to a PEPS.
// Every state is reported as the vector of its amplitudes over all configurations (site 1 the slowest digit).
#include "netlib.h"
#include <filesystem>
#include <unistd.h>
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
#include "qlpeps/two_dim_tn/tps/tps.h"
#include "qlpeps/api/conversions.h"
using namespace net;
#if KIND == 0
using E = double;
#else
using E = std::complex<double>;
#endif
using Z = std::complex<double>; using Ten = QLTensor<E, QN>; using DTen = QLTensor<double, QN>; using T5 = TPS<E, QN>; using SIT = SplitIndexTPS<E, QN>; using Peps = SquareLatticePEPS<E, QN>;
static std::mt19937 g;
static int R, C, BCN, P;
static int ri(int n) { return (int) (g() % n); }
static int small(int top) { return (g() % 2 ? 1 : -1) * (1 + ri(top)); }
// exact contraction of any values (rows absorbed one after the other; closing bonds enumerated)
static Z contract(const Geo &q, const std::vector<std::vector<Z>> &A) { Z tot = 0; std::vector<int> cd; if (q.bc) { for (int i = 0; i < q.r; ++i) cd.push_back(q.d[i * q.c][0]); for (int j = 0; j < q.c; ++j) cd.push_back(q.d[j][3]); } std::vector<int> x(cd.size(), 0);
  while (true) { std::vector<Z> V{1.0}; std::vector<int> hd(q.c, 1);
    for (int i = 0; i < q.r; ++i) for (int j = 0; j < q.c; ++j) { auto &d = q.d[i * q.c + j]; int fw = (q.bc && j == 0) ? x[i] : -1, fe = (q.bc && j == q.c - 1) ? x[i] : -1, fn = (q.bc && i == 0) ? x[q.r + j] : -1, fs = (q.bc && i == q.r - 1) ? x[q.r + j] : -1; int w1 = fw < 0 ? d[0] : 1, s1 = fs < 0 ? d[1] : 1, e1 = fe < 0 ? d[2] : 1, n1 = fn < 0 ? d[3] : 1; int a = 1, b = 1; for (int k = 0; k < j; ++k) a *= hd[k]; for (int k = j + 1; k < q.c; ++k) b *= hd[k]; std::vector<Z> U(a * s1 * b * e1, 0.0);
      for (int ia = 0; ia < a; ++ia) for (int n = 0; n < n1; ++n) for (int ib = 0; ib < b; ++ib) for (int w = 0; w < w1; ++w) { Z v = V[((ia * n1 + n) * b + ib) * w1 + w]; if (v == 0.0) continue; for (int s = 0; s < s1; ++s) for (int e = 0; e < e1; ++e) U[((ia * s1 + s) * b + ib) * e1 + e] += v * A[i * q.c + j][((((fw < 0 ? w : fw)) * d[1] + (fs < 0 ? s : fs)) * d[2] + (fe < 0 ? e : fe)) * d[3] + (fn < 0 ? n : fn)]; }
      V = U; hd[j] = s1; }
    tot += V[0]; size_t k = 0; for (; k < cd.size(); ++k) { if (++x[k] < cd[k]) break; x[k] = 0; } if (k == cd.size()) break; }
  return tot; }
static std::vector<Z> flat(const Ten &t) { std::vector<Z> v; auto w = entries(t); for (size_t i = 0; i < w.size(); i += 2) v.push_back({w[i], w[i + 1]}); return v; }
static SiteIdx at(int s) { return {(size_t) (s / C), (size_t) (s % C)}; }
static Geo geo_of(const std::function<const Ten &(int)> &f) { Geo q; q.r = R; q.c = C; q.bc = BCN; for (int s = 0; s < R * C; ++s) { auto &sh = f(s).GetShape(); q.d.push_back({(int) sh[0], (int) sh[1], (int) sh[2], (int) sh[3]}); } return q; }
static bool fits(const Geo &q) { for (int s = 0; s < R * C; ++s) { int i = s / C, j = s % C; if (j + 1 < C || BCN) { if (q.d[s][2] != q.d[i * C + (j + 1) % C][0]) return false; } else if (q.d[s][2] != 1) return false; if (i + 1 < R || BCN) { if (q.d[s][1] != q.d[((i + 1) % R) * C + j][3]) return false; } else if (q.d[s][1] != 1) return false; if (!BCN && ((j == 0 && q.d[s][0] != 1) || (i == 0 && q.d[s][3] != 1))) return false; } return true; }
static std::vector<int> digits(int k) { std::vector<int> c(R * C); for (int s = R * C; s-- > 0; k /= P) c[s] = k % P; return c; }
static int nconf() { int n = 1; for (int s = 0; s < R * C; ++s) n *= P; return n; }
static std::vector<Z> amps(const T5 &t) { std::vector<Z> r; Geo q = geo_of([&](int s) -> const Ten & { return t(at(s)); }); if ((int) t.rows() != R || (int) t.cols() != C || (int) t.GetBoundaryCondition() != BCN || !fits(q)) { exact = false; return std::vector<Z>(nconf(), 0.0); } std::vector<std::vector<Z>> f; for (int s = 0; s < R * C; ++s) { auto &x = t(at(s)); if ((int) x.GetShape()[4] != P) exact = false; f.push_back(flat(x)); }
  for (int k = 0; k < nconf(); ++k) { auto c = digits(k); std::vector<std::vector<Z>> A(R * C); for (int s = 0; s < R * C; ++s) { A[s].resize(f[s].size() / P); for (size_t i = 0; i < A[s].size(); ++i) A[s][i] = f[s][i * P + c[s]]; } r.push_back(contract(q, A)); } return r; }
static std::vector<Z> amps(const SIT &t) { std::vector<Z> r; if ((int) t.rows() != R || (int) t.cols() != C || (int) t.GetBoundaryCondition() != BCN) { exact = false; return std::vector<Z>(nconf(), 0.0); } for (int s = 0; s < R * C; ++s) if ((int) t.PhysicalDim(at(s)) != P || (int) t(at(s)).size() != P) { exact = false; return std::vector<Z>(nconf(), 0.0); } Geo q = geo_of([&](int s) -> const Ten & { return t(at(s))[0]; }); if (!fits(q)) { exact = false; return std::vector<Z>(nconf(), 0.0); }
  for (int k = 0; k < nconf(); ++k) { auto c = digits(k); std::vector<std::vector<Z>> A(R * C); for (int s = 0; s < R * C; ++s) A[s] = flat(t(at(s))[c[s]]); r.push_back(contract(q, A)); } return r; }
static std::vector<long long> ints(const std::vector<Z> &v, double f = 1) { double m = 0; for (auto &z : v) m = std::max(m, std::abs(z) * f); std::vector<long long> o; for (auto &z : v) { o.push_back(rnd(z.real() * f, m)); o.push_back(rnd(z.imag() * f, m)); } return o; }
static double weight(const std::vector<Z> &v) { double m = 0; for (auto &z : v) m += std::norm(z); return m; }
static double peak(const std::vector<Z> &v) { double m = 0; for (auto &z : v) m = std::max(m, std::abs(z)); return m; }
static Ev begin(const char *op) { exact = true; Ev e(op); return e; }
static void fin(Ev &e, const std::vector<Z> &a, double f = 1) { auto v = ints(a, f); e.iv("amp", v).b("exact", exact); e.out(); }
// ---------- representations
static T5 to5(const State &s) { T5 t(R, C, (BC) BCN); for (int i = 0; i < R * C; ++i) { auto &d = s.q.d[i]; Ten x({ix(d[0], IN), ix(d[1], OUT), ix(d[2], OUT), ix(d[3], IN), ix(P, OUT)}); x.alloc(); auto &raw = x.raw(); for (size_t k = 0; k < raw.size(); ++k) raw[k] = Num<E>::mk(s.X[i * P + k % P][2 * (k / P)], s.X[i * P + k % P][2 * (k / P) + 1]); t(at(i)) = x; } return t; }
struct PState { State s; std::vector<std::vector<int>> qw, qn; }; // qw[s]: square roots of the weights on the bond west of s, qn: north of s
// no amplitude, nor any intermediate of its computation, exceeds this
static double reach(const PState &p) { auto &q = p.s.q; std::vector<std::vector<Z>> A(R * C); for (int s = 0; s < R * C; ++s) { auto &d = q.d[s]; int i = s / C, j = s % C, e = i * C + (j + 1) % C, w = ((i + 1) % R) * C + j; A[s].assign(d[0] * d[1] * d[2] * d[3], 0.0); for (size_t k = 0; k < A[s].size(); ++k) { double f = p.qn[s][k % d[3]] * p.qw[s][k / (d[3] * d[2] * d[1])]; if (j + 1 < C || BCN) f *= p.qw[e][(k / d[3]) % d[2]]; if (i + 1 < R || BCN) f *= p.qn[w][(k / (d[3] * d[2])) % d[1]]; for (int o = 0; o < P; ++o) A[s][k] = std::max(A[s][k].real(), f * (std::abs(p.s.X[s * P + o][2 * k]) + std::abs(p.s.X[s * P + o][2 * k + 1]))); } } return contract(q, A).real(); }
static PState mkpeps(int D, std::function<int(int, int)> dim = nullptr, bool ones = false, int dens = 70, int top0 = 2) { PState p; int tries = 0; do { p.s = mkstate(R, C, BCN, D, ri(2), P, KIND == 1, g, 3e4, 70, 2); if (dim) { auto &q = p.s.q; for (int s = 0; s < R * C; ++s) { int i = s / C, j = s % C, e = i * C + (j + 1) % C, d = ((i + 1) % R) * C + j; if (j + 1 < C || BCN) q.d[s][2] = q.d[e][0] = dim(s, e); if (i + 1 < R || BCN) q.d[s][1] = q.d[d][3] = dim(s, d); } p.s.fill(g, dens, top0); }
    p.qw.assign(R * C, {}); p.qn.assign(R * C, {}); int top = ones || tries > 20 ? 1 : tries > 10 ? 2 : 3; for (int s = 0; s < R * C; ++s) { bool w = s % C > 0 || BCN, n = s / C > 0 || BCN; for (int k = 0; k < p.s.q.d[s][0]; ++k) p.qw[s].push_back(w && p.s.q.d[s][0] > 1 ? 1 + ri(top) : 1); for (int k = 0; k < p.s.q.d[s][3]; ++k) p.qn[s].push_back(n && p.s.q.d[s][3] > 1 ? 1 + ri(top) : 1); } } while (reach(p) > 1e8 && ++tries < 50); return p; }
static Peps topeps(const PState &p) { Peps r(ix(P, OUT), R, C, (BC) BCN); auto t = to5(p.s); for (int s = 0; s < R * C; ++s) r.Gamma(at(s)) = t(at(s)); auto lam = [](const std::vector<int> &q) { DTen l({ix(q.size(), IN), ix(q.size(), OUT)}); l.alloc(); for (size_t k = 0; k < q.size(); ++k) l({k, k}) = (double) q[k] * q[k]; return l; };
  for (int s = 0; s < R * C; ++s) { r.lambda_horiz(at(s)) = lam(p.qw[s]); r.lambda_vert(at(s)) = lam(p.qn[s]); } return r; }
static std::string lists(const std::vector<std::vector<int>> &v) { std::string o = "["; for (auto &x : v) { o += o.size() > 1 ? ",[" : "["; for (size_t k = 0; k < x.size(); ++k) o += (k ? "," : "") + std::to_string(x[k]); o += "]"; } return o + "]"; }
static std::vector<Z> amps(const Peps &p) { return amps(ToTPS<E, QN>(p)); }
// ---------- P38: sums and conversions
static int maxdim(const T5 &t) { int m = 1; for (int s = 0; s < R * C; ++s) for (int k = 0; k < 4; ++k) m = std::max(m, (int) t(at(s)).GetShape()[k]); return m; }
static void sums(int D, const std::string &ops) { std::vector<T5> S; int cap = BCN ? (R * C > 4 ? 5 : 7) : 9; auto pick = [&]() { return ri((int) S.size()); };
  auto coef = [&]() { static const int re[] = {0, 1, -1, 2, -2, 3, -3}; double a = re[ri(7)]; return Num<E>::mk(a, KIND ? re[ri(7)] : 0); };
  auto cz = [](const std::vector<E> &v) { std::vector<long long> o; for (auto &x : v) { Z z(x); o.push_back(std::llround(z.real())); o.push_back(std::llround(z.imag())); } return o; };
  auto keep = [&](const T5 &t) { S.push_back(t); };
  for (char o : ops) { if (S.empty() && !strchr("nqi", o)) o = 'n';
    if (o == 'n') { State s = mkstate(R, C, BCN, D, ri(2), P, KIND == 1, g, 2e5); T5 t = to5(s); Ev e = begin("net"); s.out(e); fin(e, amps(t)); keep(t); }
    else if (o == 'q') { PState p = mkpeps(D); Peps x = topeps(p); Ev e = begin("peps"); p.s.out(e); e.raw("qw", lists(p.qw)).raw("qn", lists(p.qn)); T5 t = ToTPS<E, QN>(x); auto a = amps(t), b = amps(ToSplitIndexTPS<E, QN>(x)); exact = exact && a == b; fin(e, a); keep(t); }
    else if (o == 'i') { Peps x(ix(P, OUT), R, C, (BC) BCN); std::vector<std::vector<size_t>> act(R, std::vector<size_t>(C)); std::vector<long long> f; for (auto &r : act) for (auto &v : r) { v = ri(P); f.push_back(v); } x.Initial(act); Ev e = begin("product"); e.i("r", R).i("c", C).i("bc", BCN).i("p", P).iv("cfg", f); T5 t = x.ToTPS(); exact = exact && x.GetMaxBondDim() == 1; fin(e, amps(t)); keep(t); }
    else if (o == '+' || o == 'a') { int a = pick(), b = pick(); if (maxdim(S[a]) + maxdim(S[b]) > cap) continue; std::vector<E> c; if (o == 'a') c = {coef(), coef()}; T5 t = o == '+' ? WaveFunctionSum(S[a], S[b]) : WaveFunctionSum(c[0], S[a], c[1], S[b]); Ev e = begin("sum"); e.iv("of", {a + 1, b + 1}).iv("coef", cz(c)); fin(e, amps(t)); keep(t); }
    else if (o == 'l' || o == 'L') { int n = 1 + ri(4), m = 0; std::vector<long long> of; std::vector<T5> v; for (int k = 0; k < n; ++k) { int a = pick(); if (m + maxdim(S[a]) > cap && k) break; m += maxdim(S[a]); of.push_back(a + 1); v.push_back(S[a]); } std::vector<E> c; if (o == 'L') for (size_t k = 0; k < v.size(); ++k) c.push_back(coef()); T5 t = WaveFunctionSum(v, c); Ev e = begin("sum"); e.iv("of", of).iv("coef", cz(c)); fin(e, amps(t)); keep(t); }
    else if (o == 'g') { int a = pick(); SIT s = ToSplitIndexTPS<E, QN>(S[a]); T5 t = s.GroupIndices(ix(P, OUT)); Ev e = begin("same"); e.i("of", a + 1); auto x = amps(s), y = amps(t), z = amps(S[a]); exact = exact && x == z && y == z; fin(e, x); keep(t); }
    else if (o == 's') { int a = pick(); SIT s = SplitPhyIndex<E, QN>(S[a]); Ev e = begin("same"); e.i("of", a + 1); auto x = amps(s); exact = exact && x == amps(SIT::FromTPS(S[a])); fin(e, x); keep(S[a]); }
    else if (o == 'p') { int a = pick(); SIT s = SIT::FromTPS(S[a]); Ev e = begin("project"); int k = ri(nconf()); auto c = digits(k); Configuration cf(R, C); for (int i = 0; i < R * C; ++i) cf(at(i)) = c[i]; auto tn = s.Project(cf); Geo q = geo_of([&](int i) -> const Ten & { return tn(at(i)); }); exact = exact && (int) tn.GetBoundaryCondition() == BCN && fits(q); std::vector<std::vector<Z>> A; for (int i = 0; i < R * C; ++i) A.push_back(flat(tn(at(i)))); std::vector<long long> f(c.begin(), c.end()); e.i("of", a + 1).iv("cfg", f); fin(e, {exact ? contract(q, A) : Z(0)}); }
    else if (o == 'w') { int a = pick(); std::string dir = "/tmp/st" + std::to_string(getpid()) + "_t"; std::filesystem::remove_all(dir); T5 c = S[a]; c.Dump(dir); T5 t(R, C, (BC) BCN); bool ok = t.Load(dir); std::filesystem::remove_all(dir); Ev e = begin("same"); exact = ok; e.i("of", a + 1); fin(e, ok ? amps(t) : amps(S[a])); keep(t); } } }
// ---------- P39: gates on a PEPS
struct Gate { std::vector<std::vector<Z>> m; }; // m[in][out]
static Ten gate_ten(const std::vector<std::vector<Z>> &m, int k) { IndexVec<QN> v; for (int i = 0; i < k; ++i) v.push_back(ix(P, IN)); for (int i = 0; i < k; ++i) v.push_back(ix(P, OUT)); Ten t(v); t.alloc(); size_t n = m.size(); for (size_t i = 0; i < n; ++i) for (size_t o = 0; o < n; ++o) t.raw()[i * n + o] = Num<E>::mk(m[i][o].real(), m[i][o].imag()); return t; }
static Ten ham_ten(const std::vector<std::vector<Z>> &m, int k) { Ten t = gate_ten(m, k); std::vector<size_t> ax; for (int i = 0; i < k; ++i) { ax.push_back(i); ax.push_back(k + i); } t.Transpose(ax); return t; }
static std::vector<std::vector<Z>> rgate(int n, int dens) { while (true) { std::vector<std::vector<Z>> m(n, std::vector<Z>(n, 0.0)); Eigen::MatrixXcd M(n, n); for (int i = 0; i < n; ++i) for (int o = 0; o < n; ++o) { if (ri(100) < dens || i == o) m[i][o] = Z(small(2), 0); if (KIND && ri(100) < dens) m[i][o] += Z(0, small(1)); M(i, o) = m[i][o]; } Eigen::JacobiSVD<Eigen::MatrixXcd> s(M); if (s.singularValues()[n - 1] > 0.2) return m; } }
static std::vector<std::vector<Z>> rherm(int n) { std::vector<std::vector<Z>> m(n, std::vector<Z>(n, 0.0)); for (int i = 0; i < n; ++i) for (int o = i; o < n; ++o) { if (ri(100) < 60) m[i][o] = Z(small(2), KIND && o > i ? ri(5) - 2 : 0); m[o][i] = std::conj(m[i][o]); } return m; }
static std::vector<long long> flatm(const std::vector<std::vector<Z>> &m) { std::vector<long long> v; for (auto &r : m) for (auto &z : r) { v.push_back(std::llround(z.real())); v.push_back(std::llround(z.imag())); } return v; }
static int id(int i, int j) { return ((i + R) % R) * C + (j + C) % C; }
// where a gate of this kind may sit, and the sites it acts on in the documented order of its legs; b: bonds it may rewrite (+s: west of s, -s: north of s; s from 1)
static bool place(char o, int i, int j, std::vector<int> &sites, std::vector<long long> &bonds, SiteIdx &arg) { bool right = BCN || j + 1 < C, down = BCN || i + 1 < R, left = BCN || j > 0; sites.clear(); bonds.clear(); auto H = [&](int a, int b) { bonds.push_back(id(a, b) + 1); }; auto V = [&](int a, int b) { bonds.push_back(-(id(a, b) + 1)); }; arg = {(size_t) i, (size_t) j};
  if (o == 'h') { if (!right) return false; sites = {id(i, j), id(i, j + 1)}; H(i, j + 1); }
  if (o == 'v') { if (!down) return false; sites = {id(i, j), id(i + 1, j)}; V(i + 1, j); }
  if (o == 'A') { if (!left || !down) return false; sites = {id(i, j - 1), id(i, j), id(i + 1, j)}; H(i, j); V(i + 1, j); }
  if (o == 'B') { if (!right || !down) return false; sites = {id(i, j + 1), id(i, j), id(i + 1, j)}; H(i, j + 1); V(i + 1, j); }
  if (o == 'C') { if (!left || !down) return false; sites = {id(i, j), id(i + 1, j), id(i + 1, j - 1)}; V(i + 1, j); H(i + 1, j); }
  if (o == 'D') { if (!right || !down) return false; sites = {id(i, j), id(i + 1, j), id(i + 1, j + 1)}; V(i + 1, j); H(i + 1, j + 1); }
  return true; }
static ProjectionRes<E> project(Peps &x, char o, const SiteIdx &a, const Ten &gt, const SimpleUpdateTruncatePara &tp, const Ten &h) { switch (o) { case 'h': return x.NearestNeighborSiteProject(gt, a, HORIZONTAL, tp, h); case 'v': return x.NearestNeighborSiteProject(gt, a, VERTICAL, tp, h); case 'A': return x.UpperRightTriangleProject(gt, a, tp, h); case 'B': return x.UpperLeftTriangleProject(gt, a, tp, h); case 'C': return x.LowerRightTriangleProject(gt, a, tp, h); default: return x.LowerLeftTriangleProject(gt, a, tp, h); } }
static bool where(char o, std::vector<int> &sites, std::vector<long long> &bonds, SiteIdx &arg) { for (int t = 0; t < 60; ++t) if (bool wrap = BCN && ri(2); place(o, wrap && ri(3) ? R - 1 : ri(R), wrap && ri(3) ? (o == 'A' || o == 'C' ? 0 : C - 1) : ri(C), sites, bonds, arg)) return true; return false; }
static int bond_dim(const Peps &x, long long b) { auto &l = b > 0 ? x.lambda_horiz(at(b - 1)) : x.lambda_vert(at(-b - 1)); return l.GetShape()[0]; }
static long long total(const std::vector<Z> &a, double f) { double n = 0; for (auto &z : a) n += std::norm(z) * f * f; return rnd(n, n); }
static void begin_peps(const PState &p, const Peps &x) { { Ev e("scenario"); e.out(); } Ev e = begin("peps"); p.s.out(e); e.raw("qw", lists(p.qw)).raw("qn", lists(p.qn)); fin(e, amps(x)); }
static void gates(int D, const std::string &ops) { PState p; Peps x(ix(P, OUT), R, C, (BC) BCN); do { p = mkpeps(D); x = topeps(p); } while (peak(amps(x)) < 0.5); begin_peps(p, x); double f = 1; int slot = 1;
  for (char o : ops) { std::vector<Z> before = amps(x); std::vector<int> sites; std::vector<long long> bonds; SiteIdx arg{0, 0};
    if (strchr("hvABCD", o)) { if (!where(o, sites, bonds, arg)) continue; int k = sites.size(), n = 1; for (int i = 0; i < k; ++i) n *= P; auto m = rgate(n, k == 2 ? 45 : P == 2 ? 25 : 6); double row = 0; for (int b = 0; b < n; ++b) { double r = 0; for (int a = 0; a < n; ++a) r += std::abs(m[a][b]); row = std::max(row, r); } if (peak(before) * f * row > 2e7) return;
      Peps y = x; int Dmax = 64; auto res = project(x, o, arg, gate_ten(m, k), SimpleUpdateTruncatePara(1, Dmax, 1e-20, 1e-14), Ten()); f *= res.norm; Ev e = begin("gate"); std::vector<long long> ss, cg, cb; for (int s : sites) ss.push_back(s + 1); for (int s = 0; s < R * C; ++s) { if (x.Gamma(at(s)) != y.Gamma(at(s))) cg.push_back(s + 1); } for (size_t i = 0; i < x.lambda_horiz.rows(); ++i) for (size_t j = 0; j < x.lambda_horiz.cols(); ++j) if (x.lambda_horiz({i, j}) != y.lambda_horiz({i, j})) cb.push_back((int) j < C ? id(i, j) + 1 : 1000); for (size_t i = 0; i < x.lambda_vert.rows(); ++i) for (size_t j = 0; j < x.lambda_vert.cols(); ++j) if (x.lambda_vert({i, j}) != y.lambda_vert({i, j})) cb.push_back((int) i < R ? -(id(i, j) + 1) : 1000);
      std::vector<long long> dims; for (auto b : bonds) dims.push_back(bond_dim(x, b)); e.s("kind", std::string(1, o)).i("of", slot).iv("at", {(long long) arg[0], (long long) arg[1]}).iv("sites", ss).iv("m", flatm(m)).iv("bonds", bonds).iv("cg", cg).iv("cb", cb).iv("dims", dims).i("D", res.D).fx("te", res.trunc_err, 1e9).b("eloc", res.e_loc.has_value()); auto a = amps(x); fin(e, a, f); ++slot; }
    else { Ev e = begin("same"); e.i("of", slot).s("how", std::string(1, o)); if (o == 'R') x.RegularizeIndexDir(); else if (o == 'N') f *= x.NormalizeAllTensor(); else if (o == 'w') { std::string dir = "/tmp/st" + std::to_string(getpid()) + "_p"; std::filesystem::remove_all(dir); Peps y = x; bool ok = y.Dump(dir, (bool) ri(2)); Peps z(ix(P, OUT), R, C, (BC) BCN); ok = ok && z.Load(dir); std::filesystem::remove_all(dir); exact = ok && z == x; x = z; } else if (o == 'c') { Peps y(x), z(ix(P, OUT), R, C, (BC) BCN); z = std::move(y); Peps u(std::move(z)), w(ix(P, OUT), R, C, (BC) BCN); w = u; exact = w == x && !(w != x); x = w; } else continue; fin(e, amps(x), f); ++slot; } } }
// local energies where the cluster is cut off from the rest by bonds of dimension one: they are exact expectation values
static void energies(int D, const std::string &ops) { for (char o : ops) { std::vector<int> sites; std::vector<long long> bonds; SiteIdx arg{0, 0}; if (!where(o, sites, bonds, arg)) continue; auto inside = [&](int s) { return std::find(sites.begin(), sites.end(), s) != sites.end(); };
    if (BCN && (R == 2 || C == 2)) continue; // a bond's other copy would close a loop
    PState p; Peps x(ix(P, OUT), R, C, (BC) BCN); auto linked = [&](int a, int b) { for (auto q : bonds) { int t = std::abs(q) - 1, i = t / C, j = t % C, u = q > 0 ? id(i, j - 1) : id(i - 1, j); if ((a == u && b == t)) return true; } return false; }; int t = 0; do { p = mkpeps(D, [&](int a, int b) { return linked(a, b) ? D : inside(a) || inside(b) ? 1 : 1 + (ri(3) == 0); }, t > 3, std::max(35, 75 - 4 * t), t > 3 ? 1 : 2); ++t; x = topeps(p); } while (peak(amps(x)) < 0.5 || weight(amps(x)) > 4e5);
    begin_peps(p, x); int k = sites.size(), n = 1; for (int i = 0; i < k; ++i) n *= P; auto m = rgate(n, k == 2 ? 30 : 10), h = rherm(n); bool cut = ri(3) == 0; auto before = amps(x); int Dmax = cut ? 1 + ri(2) : 64; auto res = project(x, o, arg, gate_ten(m, k), SimpleUpdateTruncatePara(1, Dmax, 1e-20, 1e-14), ham_ten(h, k)); auto a = amps(x); Ev e = begin(cut ? "cut" : "energy"); std::vector<long long> ss; for (int s : sites) ss.push_back(s + 1); e.s("kind", std::string(1, o)).i("of", 1).iv("sites", ss).iv("m", flatm(m)).iv("h", flatm(h)).i("D", res.D).i("Dmax", Dmax); std::vector<long long> dims; for (auto b : bonds) dims.push_back(bond_dim(x, b)); e.iv("dims", dims).b("eloc", res.e_loc.has_value());
    // the weight of the full result follows from what was kept and the reported loss
    double kept = 0; for (auto &z : a) kept += std::norm(z) * res.norm * res.norm; double all = kept / (1 - res.trunc_err); if (cut && k == 3) { all = 0; for (int q = 0; q < nconf(); ++q) { auto c = digits(q); int o2 = 0; for (int t : sites) o2 = o2 * P + c[t]; Z v = 0; for (int i = 0; i < n; ++i) { auto b = c; for (int u = k, w = i; u-- > 0; w /= P) b[sites[u]] = w % P; int z = 0; for (int t : b) z = z * P + t; v += m[i][o2] * before[z]; } all += std::norm(v); } } Z v = res.e_loc.value_or(E(0)); e.i("all", rnd(all, all * 10)).iv("e", {rnd(v.real() * all, all * 100), rnd(v.imag() * all, all * 100)}); if (cut) { e.b("exact", exact); e.out(); } else fin(e, a, res.norm); } }
#ifndef STATES_LIB
int main() { std::cout.rdbuf(nullptr); std::string line; while (std::getline(std::cin, line)) { std::istringstream is(line); unsigned sd; char mode; int D; std::string ops; is >> sd >> mode >> R >> C >> BCN >> D >> P >> ops; g.seed(sd); exact = true; { Ev e("scenario"); e.s("line", line); e.out(); } if (mode == 'S') sums(D, ops); else if (mode == 'G') gates(D, ops); else energies(D, ops); } std::fflush(stdout); return 0; }
#endif
