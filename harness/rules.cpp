// Runs the real Optimizer on a several-parameter state with scripted gradients; records state and gradient of every evaluation.
// line: alg elem n iters lr4 cv cn mu4 wd4 b1n b1d b2n b2d ini hist damp cap sel quad rows cols phy seed x0... then iters gradients
#include "hc.h"
#include <functional>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlten; using namespace qlpeps; using QNT = special_qn::TrivialRepQN; using Cx = std::complex<double>;
template<class T> using ST = SplitIndexTPS<T, QNT>;
template<class T> T mkT(Cx z) { if constexpr (std::is_same_v<T, double>) return z.real(); else return z; }
struct Case { std::string alg, el; int n, iters, lr4, cv, cn, mu4, wd4, b1n, b1d, b2n, b2d, ini, hist, damp, cap, sel, quad, R, C, P; uint64_t seed; std::vector<Cx> x0; std::vector<std::vector<Cx>> gs; std::vector<double> es; };
template<class T> ST<T> mk(const Case &c, const std::vector<Cx> &v) { ST<T> s(c.R, c.C, c.P); Index<QNT> o({QNSector<QNT>(QNT(), 1)}, OUT), o2({QNSector<QNT>(QNT(), 2)}, OUT); size_t k = 0;
  for (int r = 0; r < c.R; ++r) for (int q = 0; q < c.C; ++q) for (int i = 0; i < c.P; ++i) { bool two = (r + q + i) % 2; auto &t = s({(size_t) r, (size_t) q})[i]; auto ii = InverseIndex(o); t = QLTensor<T, QNT>({ii, two ? o2 : o, o, ii}); for (size_t e = 0; e < (two ? 2u : 1u); ++e) t.SetElem({0, e, 0, 0}, mkT<T>(v[k++])); } return s; }
template<class T> std::vector<double> flat(const Case &c, const ST<T> &s) { std::vector<double> o; for (int r = 0; r < c.R; ++r) for (int q = 0; q < c.C; ++q) for (int i = 0; i < c.P; ++i) { bool two = (r + q + i) % 2; auto &t = s({(size_t) r, (size_t) q})[i]; for (size_t e = 0; e < (two ? 2u : 1u); ++e) { Cx z = t.IsDefault() ? Cx(NAN, NAN) : Cx(t.GetElem({0, e, 0, 0})); o.push_back(z.real()); o.push_back(z.imag()); } } return o; }
static std::string pairs(const std::vector<double> &v, bool &ok) { std::string o = "["; for (size_t i = 0; i < v.size(); i += 2) { long long q[2]; for (int k = 0; k < 2; ++k) { double y = v[i + k] * 1000; bool f = std::isfinite(y) && std::fabs(y) < 2e9; ok = ok && f; q[k] = f ? std::llround(y) : 0; } o += (i ? "," : "") + ("[" + std::to_string(q[0]) + "," + std::to_string(q[1]) + "]"); } return o + "]"; }
template<class T> void go(const Case &c, int rank, int size, MPI_Comm comm, std::function<void(const std::string &)> sink) {
  OptimizerParams::BaseParams b(c.iters, 0, 0, 1000, c.lr4 / 4.0); if (c.cv) b.clip_value = c.cv; if (c.cn) b.clip_norm = c.cn;
  if (c.sel) { b.initial_step_selector.enabled = true; b.initial_step_selector.max_line_search_steps = c.sel; b.initial_step_selector.enable_in_deterministic = true; }
  AlgorithmParams ap = SGDParams(0, false, c.wd4 / 4.0); if (c.alg == "mom") ap = SGDParams(c.mu4 / 4.0, false, c.wd4 / 4.0); if (c.alg == "nag") ap = SGDParams(c.mu4 / 4.0, true, c.wd4 / 4.0);
  if (c.alg == "ada") ap = AdaGradParams(1e-8, c.ini); if (c.alg == "adam") ap = AdamParams(double(c.b1n) / c.b1d, double(c.b2n) / c.b2d, 1e-8, c.wd4 / 4.0);
  if (c.alg == "lbfgs") { LBFGSParams l(c.hist); l.use_damping = c.damp; l.max_direction_norm = c.cap; l.min_curvature = 1e-12; ap = l; }
  OptimizerParams P(b, ap); Optimizer<T, QNT> opt(P, comm, rank, size); size_t k = 0; int tr = 0; size_t it = 0;
  auto rec = [&](const char *op, const ST<T> &s, const std::vector<double> *g, int mul) { if (rank) return; bool ok = true, gok = true; hc::Ev e(op); e.raw("x", pairs(flat(c, s), ok)).b("x_ok", ok); if (g) e.raw("g", pairs(*g, gok)).b("g_ok", gok); if (mul) e.i("mul", mul); sink(e.o.str() + "}"); };
  auto eval = [&](const ST<T> &st) -> std::tuple<T, ST<T>, double> {
    bool trial = c.sel && k >= 1 && tr < c.sel; if (trial) { ++tr; rec("try", st, nullptr, tr); double e = c.es[tr % c.es.size()]; if (!rank && tr == c.sel) { int best = 1; for (int q = 2; q <= c.sel; ++q) if (c.es[q % c.es.size()] < c.es[best % c.es.size()]) best = q; hc::Ev z("pick"); z.i("mul", best); sink(z.o.str() + "}"); } return {T(e), rank ? ST<T>(c.R, c.C, c.P) : mk<T>(c, c.gs[0]), 1.0}; }
    std::vector<Cx> g = c.gs[std::min(k, c.gs.size() - 1)]; if (c.quad) { auto f = flat(c, st); for (size_t i = 0; i < g.size(); ++i) g[i] = Cx(f[2 * i], f[2 * i + 1]) * double(1 + i % 3) - c.gs[0][i]; if (c.el == "d") for (auto &z : g) z = z.real(); }
    std::vector<double> gf; for (auto z : g) { gf.push_back(z.real()); gf.push_back(c.el == "d" ? 0 : z.imag()); } rec("ev", st, &gf, 0); double e = -double(k++); return {T(e), rank ? ST<T>(c.R, c.C, c.P) : mk<T>(c, g), 1.0}; };
  std::string exc; size_t n = 0; typename Optimizer<T, QNT>::OptimizationCallback cb;
  try { auto r = opt.IterativeOptimize(mk<T>(c, c.x0), eval, cb); n = r.total_iterations; rec("ev", r.optimized_state, [&] { static std::vector<double> z; z.assign(2 * c.x0.size(), 0); return &z; }(), 0); } catch (const std::exception &x) { exc = x.what(); }
  if (!rank) { hc::Ev e("fin"); e.s("exc", exc).i("n", n); sink(e.o.str() + "}"); } }
int main() { std::string line; std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) { std::istringstream is(line); Case c; is >> c.alg >> c.el >> c.n >> c.iters >> c.lr4 >> c.cv >> c.cn >> c.mu4 >> c.wd4 >> c.b1n >> c.b1d >> c.b2n >> c.b2d >> c.ini >> c.hist >> c.damp >> c.cap >> c.sel >> c.quad >> c.R >> c.C >> c.P >> c.seed;
    size_t N = 0; for (int r = 0; r < c.R; ++r) for (int q = 0; q < c.C; ++q) for (int i = 0; i < c.P; ++i) N += 1 + (r + q + i) % 2; auto vec = [&] { std::vector<Cx> v(N); for (auto &z : v) { double a, b; is >> a >> b; z = Cx(a, c.el == "d" ? 0 : b); } return v; };
    c.x0 = vec(); for (int i = 0; i < c.iters; ++i) c.gs.push_back(vec()); for (int i = 0; i < 5; ++i) { double e; if (is >> e) c.es.push_back(e); } if (!is && c.es.size() < 5) hc::setup_error("short line");
    hc::Ev b("begin"); b.s("alg", c.alg).i("iters", c.iters).i("lr4", c.lr4).i("cv", c.cv).i("cn", c.cn).i("mu4", c.mu4).i("wd4", c.wd4).iv("b1", {c.b1n, c.b1d}).iv("b2", {c.b2n, c.b2d}).i("ini", c.ini).i("hist", c.hist).b("damp", c.damp).i("cap", c.cap); b.out();
    std::string fin = "{\"op\":\"end\",\"exc\":\"master did not finish\",\"n\":-1"; std::string verdict = "ok"; auto sink = [&](const std::string &s) { if (s.rfind("{\"op\":\"fin\"", 0) == 0) { fin = "{\"op\":\"end\"" + s.substr(11); fin.pop_back(); } else { std::fputs((s + "\n").c_str(), stdout); } };
    auto work = [&](int r, MPI_Comm cm, std::function<void(const std::string &)> f) { if (c.el == "c") go<Cx>(c, r, c.n, cm, f); else go<double>(c, r, c.n, cm, f); };
    if (c.n == 1) work(0, MPI_COMM_SELF, sink); else { auto R = simmpi::run(c.n, [&](int r) { work(r, MPI_COMM_WORLD, [](const std::string &s) { simmpi::emit(s); }); }, {.seed = c.seed, .mode = 2}); verdict = R.verdict; for (auto &s : R.log) sink(s); }
    std::printf("%s,\"verdict\":\"%s\"}\n", fin.c_str(), verdict.c_str()); } }
