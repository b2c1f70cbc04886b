// The real conjugate-gradient solver (serial and master/worker) on small integer systems.
// line: begin | cg elem n(ranks) max rel abs interval ortho tn td spd std dim A... b... x0... (re im pairs)  | nan ...
#include "hc.h"
#include <mpi.h>
#include <sstream>
#include "qlten/qlten.h"
namespace h { template<class T> struct Vec { std::vector<T> v; double NormSquare() const { double s = 0; for (auto &x : v) s += std::norm(x); return s; } Vec operator+(const Vec &o) const { Vec r = *this; for (size_t i = 0; i < v.size(); ++i) r.v[i] += o.v[i]; return r; } Vec operator-(const Vec &o) const { Vec r = *this; for (size_t i = 0; i < v.size(); ++i) r.v[i] -= o.v[i]; return r; } Vec &operator+=(const Vec &o) { for (size_t i = 0; i < v.size(); ++i) v[i] += o.v[i]; return *this; }
  T operator*(const Vec &o) const { T s = 0; for (size_t i = 0; i < v.size(); ++i) { if constexpr (std::is_same_v<T, double>) s += v[i] * o.v[i]; else s += std::conj(v[i]) * o.v[i]; } return s; } };
template<class T> Vec<T> operator*(double a, const Vec<T> &x) { Vec<T> r = x; for (auto &y : r.v) y *= a; return r; }
template<class T> requires (!std::is_same_v<T, double>) Vec<T> operator*(T a, const Vec<T> &x) { Vec<T> r = x; for (auto &y : r.v) y *= a; return r; }
inline std::vector<std::string> *mul_log = nullptr;
template<class T> struct Mat { std::vector<std::vector<T>> a; Vec<T> operator*(const Vec<T> &x) const { if (mul_log) { std::ostringstream o; for (auto &y : x.v) o << y << ";"; mul_log->push_back(o.str()); } Vec<T> r; r.v.assign(x.v.size(), T(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) r.v[i] += a[i][j] * x.v[j]; return r; } };
// the vector travels as two messages (length, data), as composite vectors do
template<class T> void MPI_Bcast(Vec<T> &v, const MPI_Comm &c) { long n = v.v.size(); ::MPI_Bcast(&n, 1, MPI_LONG, 0, c); v.v.resize(n); ::MPI_Bcast(v.v.data(), n * sizeof(T) / 8, MPI_DOUBLE, 0, c); }
template<class T> void MPI_Send(const Vec<T> &v, int d, const MPI_Comm &c, int tag) { long n = v.v.size(); ::MPI_Send(&n, 1, MPI_LONG, d, tag, c); ::MPI_Send(v.v.data(), n * sizeof(T) / 8, MPI_DOUBLE, d, tag, c); }
template<class T> MPI_Status MPI_Recv(Vec<T> &v, int s, const MPI_Comm &c, int tag) { long n; MPI_Status st; ::MPI_Recv(&n, 1, MPI_LONG, s, tag, c, &st); v.v.resize(n); ::MPI_Recv(v.v.data(), n * sizeof(T) / 8, MPI_DOUBLE, st.MPI_SOURCE, tag, c, &st); return st; }
}
#include "qlpeps/utility/conjugate_gradient_solver.h"
using hc::Ev;
template<class T> T mk(double r, double i) { if constexpr (std::is_same_v<T, double>) return r; else return T(r, i); }
template<class T> std::string pr(const std::vector<T> &v, double s, bool *ok) { std::string o = "["; for (auto &x : v) { double a = std::real(x) * s, b = std::imag(x) * s; bool g = std::isfinite(a) && std::isfinite(b) && std::fabs(a) < 2e9 && std::fabs(b) < 2e9; if (ok) *ok = *ok && g; o += (o.size() > 1 ? ",[" : "[") + std::to_string(g ? std::llround(a) : 0) + "," + std::to_string(g ? std::llround(b) : 0) + "]"; } return o + "]"; }
template<class T> void go(const std::string &op, std::istringstream &is, int id) {
  int n, max, interval, tn, td, spd, sd, dim; double rel, abs_, ortho; is >> n >> max >> rel >> abs_ >> interval >> ortho >> tn >> td >> spd >> sd >> dim; h::Mat<T> A; h::Vec<T> b, x0; double r, i; A.a.assign(dim, std::vector<T>(dim)); for (auto &row : A.a) for (auto &y : row) { is >> r >> i; y = mk<T>(r, i); } for (auto *v : {&b, &x0}) for (int k = 0; k < dim; ++k) { is >> r >> i; v->v.push_back(mk<T>(r, i)); }
  if (op == "nan") A.a[0][0] = std::nan("");
  qlpeps::ConjugateGradientParams P; P.max_iter = max; P.relative_tolerance = rel; P.absolute_tolerance = abs_; P.residual_recompute_interval = interval; P.orthogonality_threshold = ortho;
  Ev e(op.c_str()); std::string as = "["; for (auto &row : A.a) as += (as.size() > 1 ? "," : "") + pr(row, 1, nullptr); e.raw("A", as + "]").raw("b", pr(b.v, 1, nullptr)).raw("x0", pr(x0.v, 1, nullptr)).raw("x0k", pr(x0.v, 10000, nullptr)).i("n", n).i("max", max).i("tn", tn).i("td", td).b("spd", spd).b("std", sd);
  auto put = [&](Ev &z, const qlpeps::CGResult<h::Vec<T>> &g) { bool ok = true; z.raw("x", pr(g.x.v, 10000, &ok)); z.b("x_ok", ok && (int) g.x.v.size() == dim).fx("res", g.residual_norm, 100).i("it", g.iterations).s("why", qlpeps::to_string(g.reason)).b("conv", g.converged()); };
  // the same system in other units (powers of two): matrix times al, right-hand side times be; same history, scaled solution
  auto twin = [&](auto &&solve, const h::Mat<T> &M, const qlpeps::CGResult<h::Vec<T>> &g, double al, double be, double eps) { h::Mat<T> A2 = M; h::Vec<T> b2 = b, x2 = x0; auto P2 = P; for (auto &row : A2.a) for (auto &y : row) y *= al; for (auto &y : b2.v) y *= be; for (auto &y : x2.v) y *= be / al; P2.absolute_tolerance *= be; auto q = solve(A2, b2, x2, P2); double top = g.residual_norm; for (auto &y : g.x.v) top = std::max(top, (double) std::abs(y)); if (!std::isfinite(top) || top > 1e12) return true; if (eps > 1e-8 && !g.converged()) return true;
    bool ok = q.reason == g.reason && (eps > 1e-8 || q.iterations == g.iterations) && q.x.v.size() == g.x.v.size() && std::fabs(q.residual_norm / be - g.residual_norm) <= eps * (1 + top); for (size_t k = 0; k < g.x.v.size() && ok; ++k) ok = std::abs(q.x.v[k] * (al / be) - g.x.v[k]) <= eps * (1 + top); return ok; };
  if (n == 0) { auto g = qlpeps::ConjugateGradientSolver(A, b, x0, P); put(e, g); auto sv = [](auto &M, auto &q, auto &x, auto &p) { return qlpeps::ConjugateGradientSolver(M, q, x, p); }; e.b("units", op == "nan" || (twin(sv, A, g, std::ldexp(1, 30), std::ldexp(1, 20), 1e-9) && twin(sv, A, g, std::ldexp(1, -30), std::ldexp(1, -40), 1e-9))).s("verdict", "ok").i("left", 0).i("done", 0).raw("muls", "[]"); e.out(); return; }
  auto R = simmpi::run(n, [&](int me) { h::Mat<T> mine = A; for (int a = 0; a < dim; ++a) for (int c = 0; c < dim; ++c) { T x = A.a[a][c]; T part = T((double) ((a + 2 * c + me) % 3)); // distributed as a sum over ranks
        T rest = x; for (int q = 1; q < n; ++q) rest -= T((double) ((a + 2 * c + q) % 3)); mine.a[a][c] = me ? part : rest; }
      std::vector<std::string> log; h::mul_log = &log; auto g = qlpeps::ConjugateGradientSolver(mine, b, x0, P, MPI_COMM_WORLD); h::mul_log = nullptr; auto sv = [](auto &M, auto &q, auto &x, auto &p) { return qlpeps::ConjugateGradientSolver(M, q, x, p, MPI_COMM_WORLD); }; bool un = op == "nan" || !spd || id % 3 || twin(sv, mine, g, std::ldexp(1, 30), std::ldexp(1, 20), 1e-5); std::string o; for (auto &x : log) o += x + "|"; Ev z; put(z, g); z.b("units", me || un); simmpi::emit(std::string(me ? "w" : "m") + std::to_string(std::hash<std::string>{}(o) % 1000000007) + " " + std::to_string(log.size()) + " " + z.o.str()); }, {.seed = (uint64_t) id + 1, .mode = id % 3});
  std::string m; std::vector<std::string> mu; for (auto &x : R.log) { std::istringstream q(x.substr(1)); std::string hsh, cnt, rest; q >> hsh >> cnt; std::getline(q, rest); if (x[0] == 'm') m = rest; mu.push_back("\"" + hsh + "/" + cnt + "\""); }
  std::string ms; for (auto &x : mu) ms += (ms.empty() ? "" : ",") + x; e.s("verdict", R.verdict).i("left", R.left_over).i("done", mu.size()).raw("muls", "[" + ms + "]"); std::string body = m.empty() ? "\"x\":[],\"x_ok\":false,\"res\":0,\"res_ok\":false,\"it\":0,\"why\":\"none\"" : m.substr(m.find('{') + 1); std::printf("%s,%s}\n", e.o.str().c_str(), body.c_str()); std::fflush(stdout); }
int main() { std::string line; int id = 0; std::cout.setstate(std::ios::failbit); while (std::getline(std::cin, line)) { std::istringstream is(line); std::string op, el; is >> op; if (op == "begin") { std::puts("{\"op\":\"begin\"}"); continue; } is >> el; if (el == "c") go<std::complex<double>>(op, is, id++); else go<double>(op, is, id++); } }
