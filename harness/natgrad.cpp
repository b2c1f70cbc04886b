// Natural-gradient machinery (S matrix, T matrix, pseudo-inverse, SR and MinSR steps) on simulated ranks.  KIND & 1: complex.
// stdin lines:
//   seed T rows cols D ranks mode nl                 T matrix of nl samples per rank
//   seed E size ranks mode soft r4 a4 solver         pseudo-inverse of a matrix with known eigenvectors (cutoffs in quarters; solver 0 auto 1 replicated 2 distributed)
//   seed D size ranks mode soft r4 a4 lr4            MinSR step on samples built from a Hadamard matrix
//   seed G rows cols D ranks mode nl lr4             MinSR step on any samples
//   seed S rows cols D ranks mode nl shift4 lr4 norm SR product and step
#include "netlib.h"
#include <mpi.h>
#include <algorithm>
#include "qlpeps/optimizer/optimizer.h"
using namespace net; using E = std::conditional_t<KIND & 1, std::complex<double>, double>; using Z = std::complex<double>; using Tps = SplitIndexTPS<E, QN>; using Ll = std::vector<long long>; using Vz = std::vector<Z>;
static E el(Z z) { return Num<E>::mk(z.real(), z.imag()); }
static std::string arr(const Ll &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }
static void say(const std::string &s) { simmpi::emit("@" + std::to_string(simmpi::g_rank) + " " + s); }
struct Said { std::vector<std::string> by; std::string verdict; };
static Said together(int n, int mode, uint64_t seed, const std::function<void(int)> &f) { auto q = simmpi::run(n, [&](int r) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); simmpi::g_rank = r; f(r); }, {.seed = seed, .mode = mode}); Said s; s.by.assign(n, "{}"); s.verdict = q.verdict; if (q.left_over && s.verdict == "ok") s.verdict = "left over"; for (auto &x : q.log) if (x.size() > 2 && x[0] == '@') { size_t k = x.find(' '); s.by[std::stoi(x.substr(1, k - 1))] = x.substr(k + 1); } return s; }
// parameters of a state as one vector
static Geo geo; static int P = 2;
static int count() { int n = 0; for (auto &d : geo.d) n += P * d[0] * d[1] * d[2] * d[3]; return n; }
static Tps tps(const Vz &v, std::mt19937 *g = nullptr) { State s; s.q = geo; s.P = P; s.cplx = true; size_t at = 0; Tps t(geo.r, geo.c, (size_t) P, (BC) geo.bc); for (int i = 0; i < geo.n(); ++i) for (int p = 0; p < P; ++p) { s.X.assign(geo.n() * P, {}); size_t n = s.entries(i); s.X[i * P + p].assign(2 * n, 0); bool zero = true; for (size_t k = 0; k < n; ++k) zero = zero && v[at + k] == Z(0); if (zero && g && (*g)() % 4) { at += n; continue; } auto x = s.ten<E>(i, p); for (size_t k = 0; k < n; ++k) x.raw()[k] = el(v[at + k]); at += n; t({(size_t) (i / geo.c), (size_t) (i % geo.c)})[p] = x; } return t; }
static Vz vec(const Tps &t) { Vz v; if (t.rows() != (size_t) geo.r || t.cols() != (size_t) geo.c) return Vz(count(), Z(NAN)); for (int i = 0; i < geo.n(); ++i) for (int p = 0; p < P; ++p) { auto &x = t({(size_t) (i / geo.c), (size_t) (i % geo.c)})[p]; auto &d = geo.d[i]; size_t n = d[0] * d[1] * d[2] * d[3]; if (x.IsDefault()) { v.insert(v.end(), n, Z(0)); continue; } auto y = entries(x); for (size_t k = 0; k < y.size(); k += 2) v.push_back({y[k], y[k + 1]}); } return v; }
static Ll ints(const Vz &v, double s, double big = 1) { Ll r; for (auto z : v) { r.push_back(rnd(z.real() * s, big)); r.push_back(rnd(z.imag() * s, big)); } return r; }
static bool fine; static Ll fixed(const Vz &v, double s) { Ll r; for (auto z : v) for (double x : {z.real() * s, z.imag() * s}) { if (!(std::fabs(x) < 2e9)) { fine = false; x = 0; } r.push_back(llround(x)); } return r; }
static Z some(std::mt19937 &g, int top, int density) { auto one = [&]() { return (int) (g() % 100) < density ? (double) ((int) (g() % (2 * top + 1)) - top) : 0.0; }; return {one(), KIND & 1 ? one() : 0.0}; }
static Vz somev(std::mt19937 &g, int n, int top, int density) { Vz v; for (int i = 0; i < n; ++i) v.push_back(some(g, top, density)); return v; }
static std::string list(const std::vector<Vz> &o) { std::vector<std::string> s; for (auto &v : o) s.push_back(arr(ints(v, 1))); return join(s); }
static Vz mean(const std::vector<Vz> &o) { Vz m(o[0].size(), 0); for (auto &v : o) for (size_t k = 0; k < v.size(); ++k) m[k] += v[k] / (double) o.size(); return m; }
static std::vector<E> slice(const Vz &v, int from, int n) { std::vector<E> r; for (int i = 0; i < n; ++i) r.push_back(el(v[from + i])); return r; }
static std::vector<Tps> mine(const std::vector<Vz> &o, int from, int n, std::mt19937 &g) { std::vector<Tps> r; for (int i = 0; i < n; ++i) r.push_back(tps(o[from + i], &g)); return r; }
static double norm2(const Vz &v) { double s = 0; for (auto z : v) s += std::norm(z); return std::sqrt(s); }
static void shape(int r, int c, int D, std::mt19937 &g) { geo = mkgeo(r, c, 0, D, false, g); }
static Vz rot(Vz v) { for (auto &z : v) z = z * 3.0 + Z(1, 0); return v; }

static void tmatrix(std::istringstream &is, int seed) { int r, c, D, n, mode, nl; is >> r >> c >> D >> n >> mode >> nl; std::mt19937 g(seed); shape(r, c, D, g); std::vector<Vz> o; int N = n * nl, m = count(); for (int i = 0; i < N; ++i) o.push_back(somev(g, m, 2, 60)); double n3 = (double) N * N * N;
  auto q = together(n, mode, seed, [&](int k) { std::mt19937 h(seed + k); exact = true; MinSRTMatrix<E, QN> t; if (seed % 3 == 0) t.Construct(mine(o, (n - 1 - k) * nl, nl, h), MPI_COMM_WORLD); t.Construct(mine(o, k * nl, nl, h), MPI_COMM_WORLD); Ev e; std::vector<std::string> rows; for (int i = 0; i < (int) t.LocalRows(); ++i) { Vz v; for (size_t j = 0; j < t.GlobalSize(); ++j) v.push_back(Z(t.RowBlockData()[i * t.GlobalSize() + j])); rows.push_back(arr(ints(v, n3, 1e4))); } auto zs = [&](const std::vector<E> &x) { Vz v(x.begin(), x.end()); return arr(ints(v, N, 1e4)); }; e.raw("rows", join(rows)).raw("all", zs(t.AllCenteringDots())).raw("loc", zs(t.LocalCenteringDots())).raw("c", arr(ints({Z(t.CenteringNormSq())}, (double) N * N, 1e4))).i("nl", t.LocalRows()).i("ng", t.GlobalSize()).b("exact", exact); say(e.o.str() + "}"); });
  Ev e("tmat"); e.i("nl", nl).i("ranks", n).raw("o", list(o)).s("verdict", q.verdict).raw("rk", join(q.by)); e.out(); }
static int had(int i, int k) { return __builtin_popcount(i & k) % 2 ? -1 : 1; }
static void eigen(std::istringstream &is, int seed) { int N, n, mode, soft, r4, a4, solver; is >> N >> n >> mode >> soft >> r4 >> a4 >> solver; std::mt19937 g(seed); Ll lam, u; int top = 0; for (int k = 0; k < N; ++k) { int v; do v = (int) (g() % 10) - 4; while (r4 == 0 && a4 == 0 && v == 0); lam.push_back(v); u.push_back(KIND & 1 ? g() % 4 : 2 * (g() % 2)); } for (auto v : lam) top = std::max<int>(top, std::llabs(v)); int h = r4 * top + a4; for (auto v : lam) if (!soft && 4 * std::llabs(v) == h) return; if (h == 0 && top == 0) return; if (h > 14) return;
  const Z un[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; std::vector<E> T(N * N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { Z s = 0; for (int k = 0; k < N; ++k) s += (double) lam[k] * (double) (had(i, k) * had(j, k)); T[i * N + j] = el(s * un[u[i]] * std::conj(un[u[j]]) / (double) N); } Vz rhs = somev(g, N, 3, 80); int nl = N / n;
  auto q = together(n, mode, seed, [&](int k) { fine = true; Ev e; try { auto y = MinSREigenSolveDispatch<E>(T.data() + k * nl * N, nl, N, slice(rhs, 0, N), MPI_COMM_WORLD, r4 / 4.0, a4 / 4.0, soft, solver == 0 ? MinSRSolverMode::kAuto : solver == 1 ? MinSRSolverMode::kReplicated : MinSRSolverMode::kDistributed); e.raw("y", arr(fixed(Vz(y.begin(), y.end()), 1e6))).b("thrown", false).b("fine", fine); } catch (const std::exception &x) { e.raw("y", "[]").b("thrown", true).b("fine", false); } say(e.o.str() + "}"); });
  Ev e("eig"); e.raw("lam", arr(lam)).raw("u", arr(u)).raw("rhs", arr(ints(rhs, 1))).i("r4", r4).i("a4", a4).b("soft", soft).i("solver", solver).s("verdict", q.verdict).raw("rk", join(q.by)); e.out(); }
// one MinSR step; rank 0 says what it got
static Optimizer<E, QN> opt(const AlgorithmParams &ap, int r, int n) { OptimizerParams::BaseParams b(3, 1e-9, 1e-9, 5, 0.5); return Optimizer<E, QN>(OptimizerParams(b, ap, CheckpointParams(), SpikeRecoveryParams()), MPI_COMM_WORLD, r, n); }
struct Step { std::string verdict; Vz d; double norm = 0; bool others = true; };
static Step step(int n, int mode, int seed, const std::vector<Vz> &o, const Vz &en, Z energy, const Vz &x, double lr, const MinSRParams &mp) { int nl = o.size() / n; Step s; auto q = together(n, mode, seed, [&](int k) { std::mt19937 h(seed + k); auto op = opt(mp, k, n); Vz mo = mean(o); auto [u, nn] = op.MinSRUpdate(tps(x), k ? tps(x) : tps(rot(x)), mine(o, k * nl, nl, h), k ? tps(rot(mo)) : tps(mo), slice(en, k * nl, nl), el(energy), lr, mp); Vz v = vec(u); std::ostringstream w; w.precision(17); w << "\"" << nn; for (auto z : v) w << " " << z.real() << " " << z.imag(); say(w.str() + "\""); }); s.verdict = q.verdict; if (q.verdict != "ok") { s.d.assign(x.size(), 0); return s; }
  for (int k = 0; k < n; ++k) { std::istringstream w(q.by[k].substr(1)); std::string a, b; auto num = [&]() { w >> a; return a == "nan" || a == "-nan" ? NAN : std::stod(a); }; double nn = num(); Vz v; for (size_t i = 0; i < x.size(); ++i) { double re = num(), im = num(); v.push_back({re, im}); } if (k == 0) { s.norm = nn; for (size_t i = 0; i < x.size(); ++i) s.d.push_back(x[i] - v[i]); } else for (size_t i = 0; i < x.size(); ++i) s.others = s.others && v[i] == x[i]; } return s; }
static void designed(std::istringstream &is, int seed) { int N, n, mode, soft, r4, a4, lr4; is >> N >> n >> mode >> soft >> r4 >> a4 >> lr4; std::mt19937 g(seed); if (N < 4) return; if (N == 4) { geo = mkgeo(1, 1, 0, 1, true, g); } else geo = mkgeo(1, 2 + (int) (g() % 2), 0, 1, true, g); int m = count(); if (m > N - 1) return; Vz a, b; double top = 0; for (int k = 0; k < m; ++k) { Z z; do z = some(g, 2, 80); while (std::norm(z) > 5); a.push_back(z); b.push_back(some(g, 2, 60)); top = std::max(top, std::norm(z)); } int h = r4 * (int) top + a4; if (h < 1 || h > 14 || (!soft && std::any_of(a.begin(), a.end(), [&](Z z) { return (int) std::norm(z) * 4 == h; }))) return;
  std::vector<Vz> o(N, Vz(m)); for (int i = 0; i < N; ++i) for (int k = 0; k < m; ++k) o[i][k] = a[k] * (double) had(i, k + 1) + b[k]; Vz en = somev(g, N, 3, 90), x = somev(g, m, 2, 80); Z e0 = mean({en})[0]; e0 = 0; for (auto z : en) e0 += z / (double) N; if (seed % 2) e0 = some(g, 3, 90);
  auto s = step(n, mode, seed, o, en, e0, x, lr4 / 4.0, MinSRParams(r4 / 4.0, a4 / 4.0, soft, seed % 3 ? MinSRSolverMode::kAuto : MinSRSolverMode::kReplicated)); fine = true; Ev e("had"); e.raw("o", list(o)).raw("a", arr(ints(a, 1))).raw("b", arr(ints(b, 1))).raw("en", arr(ints(en, 1))).i("r4", r4).i("a4", a4).b("soft", soft).i("lr4", lr4).raw("v", arr(fixed(s.d, 1e6))).b("norm", std::fabs(norm2(s.d) - lr4 / 4.0 * s.norm) < 1e-6).b("others", s.others).s("verdict", s.verdict).b("fine", fine); e.out(); }
static Eigen::MatrixXcd centered(const std::vector<Vz> &o) { int N = o.size(), m = o[0].size(); Eigen::MatrixXcd B(m, N); Vz t(m, 0); for (auto &v : o) for (int k = 0; k < m; ++k) t[k] += v[k]; for (int i = 0; i < N; ++i) for (int k = 0; k < m; ++k) B(k, i) = (double) N * o[i][k] - t[k]; return B; }
static double spread(const Eigen::MatrixXcd &B) { double s = 0; for (int i = 0; i < B.cols(); ++i) { double r = 0; for (int k = 0; k < B.rows(); ++k) r += std::fabs(B(k, i).real()) + std::fabs(B(k, i).imag()); s += r * r; } return s; }
static void general(std::istringstream &is, int seed) { int r, c, D, n, mode, nl, lr4; is >> r >> c >> D >> n >> mode >> nl >> lr4; std::mt19937 g(seed); shape(r, c, D, g); int N = n * nl, m = count(); std::vector<Vz> o; for (int i = 0; i < N; ++i) o.push_back(i && g() % 6 == 0 ? o[g() % i] : somev(g, m, 1, 50)); Vz en = somev(g, N, 3, 90), x = somev(g, m, 2, 80); Z e0 = 0; for (auto z : en) e0 += z / (double) N; if (seed % 2) e0 = some(g, 3, 90);
  auto s = step(n, mode, seed, o, en, e0, x, lr4 / 4.0, seed % 3 ? MinSRParams() : MinSRParams(1e-9, 0, false)); auto B = centered(o); double top = 1; for (auto z : s.d) top = std::max({top, std::fabs(z.real()), std::fabs(z.imag())}); double cap = 1.5e9 / (4 * spread(B) * top + 4.0 * N * N * N * 300), sc = 1; while (sc * 10 <= std::min(cap, 1e5)) sc *= 10; if (sc < 10 || !(top < 1e4)) { if (std::isfinite(top) && s.verdict == "ok" && top < 1e3) return; sc = 10; }
  Eigen::VectorXcd d(m); for (int k = 0; k < m; ++k) d(k) = s.d[k]; Eigen::VectorXcd y = B.completeOrthogonalDecomposition().solve(d); fine = true; Vz yz; for (int i = 0; i < N; ++i) yz.push_back(y(i)); Ev e("min"); e.raw("o", list(o)).raw("en", arr(ints(en, 1))).i("lr4", lr4).i("sc", sc).raw("v", arr(fixed(s.d, sc))).raw("y", arr(fixed(yz, 100 * sc))).b("norm", std::fabs(norm2(s.d) - lr4 / 4.0 * s.norm) < 1e-6 * (1 + s.norm)).b("others", s.others).s("verdict", s.verdict).b("fine", fine); e.out(); }
static void sr(std::istringstream &is, int seed) { int r, c, D, n, mode, nl, sh4, lr4, nm; is >> r >> c >> D >> n >> mode >> nl >> sh4 >> lr4 >> nm; std::mt19937 g(seed); shape(r, c, D, g); int N = n * nl, m = count(); std::vector<Vz> o; for (int i = 0; i < N; ++i) o.push_back(i && g() % 6 == 0 ? o[g() % i] : somev(g, m, 1, 50)); Vz mo = mean(o), v = somev(g, m, 2, 80), gr = g() % 2 ? somev(g, m, 1, 20) : somev(g, m, 2, 80), x0 = g() % 2 ? Vz(m, 0) : somev(g, m, 1, 50), x = somev(g, m, 2, 80); double n3 = 4.0 * N * N * N; if (norm2(gr) == 0) x0.assign(m, 0); // (rounding noise has no direction to normalise)
  auto q = together(n, mode, seed, [&](int k) { std::mt19937 h(seed + k); exact = true; auto s = mine(o, k * nl, nl, h); Tps me = tps(mo); SRSMatrix<E, QN> S(&s, k ? nullptr : &me, n, MPI_COMM_WORLD); S.diag_shift = sh4 / 4.0; Vz w = vec(S * tps(v)); std::ostringstream a; a.precision(17); for (auto z : w) a << z.real() << " " << z.imag() << " "; say("\"" + a.str() + "\""); });
  Vz tot(m, 0); if (q.verdict == "ok") for (auto &t : q.by) { std::istringstream w(t.substr(1)); for (auto &z : tot) { double a, b; w >> a >> b; z += Z(a, b); } } exact = true; { Ev e("prod"); e.raw("o", list(o)).raw("v", arr(ints(v, 1))).i("shift4", sh4).raw("res", arr(ints(tot, n3, 1e4))).b("exact", exact).s("verdict", q.verdict); e.out(); }
  StochasticReconfigurationParams sp; sp.cg_params.max_iter = 200; sp.cg_params.relative_tolerance = 1e-13; sp.diag_shift = sh4 / 4.0; Vz got, u; double nn = 0; bool others = true;
  auto p = together(n, mode, seed + 1, [&](int k) { std::mt19937 h(seed + k); auto op = opt(sp, k, n); auto s = mine(o, k * nl, nl, h); Tps me = k ? tps(rot(mo)) : tps(mo), gg = k ? tps(rot(gr)) : tps(gr), ig = k ? tps(rot(x0)) : tps(x0); auto [y, it, res] = op.CalculateNaturalGradient(gg, s, me, ig); auto [st, norm, it2, res2] = op.StochasticReconfigurationUpdate(tps(x), gg, s, me, lr4 / 4.0, ig, nm); std::ostringstream a; a.precision(17); if (k == 0) { a << norm << " "; for (auto z : vec(y)) a << z.real() << " " << z.imag() << " "; for (auto z : vec(st)) a << z.real() << " " << z.imag() << " "; } else { Vz w = vec(st); bool same = true; for (int i = 0; i < m; ++i) same = same && w[i] == x[i]; a << same; } say("\"" + a.str() + "\""); });
  got.assign(m, 0); u.assign(m, 0); if (p.verdict == "ok") { std::istringstream w(p.by[0].substr(1)); w >> nn; for (auto *t : {&got, &u}) for (auto &z : *t) { double a = NAN, b = NAN; w >> a >> b; z = Z(a, b); } for (int k = 1; k < n; ++k) others = others && p.by[k] == "\"1\""; }
  auto B = centered(o); double top = 1; for (auto z : got) top = std::max({top, std::fabs(z.real()), std::fabs(z.imag())}); double cap = 1.5e9 / ((4 * spread(B) + sh4 * n3 / 4) * top + n3 * 3), sc = 1; while (sc * 10 <= std::min(cap, 1e5)) sc *= 10; if (sc < 10) return; double nr = norm2(got), f = lr4 / 4.0 * (nm && nr > 0 ? 1 / nr : 1), err = 0; for (int i = 0; i < m; ++i) err = std::max(err, std::abs(u[i] - (x[i] - f * got[i]))); fine = true;
  Ev e("sr"); e.raw("o", list(o)).raw("g", arr(ints(gr, 1))).i("shift4", sh4).i("sc", sc).raw("x", arr(fixed(got, sc))).b("norm", std::fabs(nr - nn) < 1e-6 * (1 + nr)).b("step", err < 1e-6).b("others", others).s("verdict", p.verdict).b("fine", fine); e.out(); }
int main() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); if (l.empty()) continue; int seed; char m; is >> seed >> m; if (m == 'T') tmatrix(is, seed); if (m == 'E') eigen(is, seed); if (m == 'D') designed(is, seed); if (m == 'G') general(is, seed); if (m == 'S') sr(is, seed); std::fflush(stdout); } }
