// L-BFGS with strong-Wolfe line search on a one-parameter state; energies and slopes scripted.
// line: elem n iters c1 c2 min max lr tc tg16 cap fb fbs x0 seed  e:g e:g ...      (steps in 1/1024)
#include "hc.h"
#include <functional>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlten; using namespace qlpeps; using QNT = special_qn::TrivialRepQN; using Cx = std::complex<double>;
template<class T> using ST = SplitIndexTPS<T, QNT>;
struct Case { std::string el; int n, iters, c1, c2, mn, mx, lr, tc, tg, cap, fb, fbs, x0; uint64_t seed; std::vector<std::pair<int, int>> s; };
template<class T> ST<T> mk(double v) { ST<T> s(1, 1, 1); Index<QNT> o({QNSector<QNT>(QNT(), 1)}, OUT); auto in = InverseIndex(o); s({0, 0})[0] = QLTensor<T, QNT>({in, o, o, in}); s({0, 0})[0].Fill(QNT(), T(v)); return s; }
template<class T> double val(const ST<T> &s) { if (s.rows() != 1 || s({0, 0}).empty() || s({0, 0})[0].IsDefault()) return NAN; return std::real(Cx(s({0, 0})[0].GetElem({0, 0, 0, 0}))); }
template<class T> void go(const Case &c, int rank, int size, MPI_Comm comm, std::function<void(const std::string &)> sink) {
  OptimizerParams::BaseParams b(c.iters, 0, 0, 1000, c.lr / 1024.0); LBFGSParams l(5); l.step_mode = LBFGSStepMode::kStrongWolfe; l.wolfe_c1 = c.c1 / 16.0; l.wolfe_c2 = c.c2 / 16.0; l.min_step = c.mn / 1024.0; l.max_step = c.mx / 1024.0; l.tolerance_change = c.tc / 1024.0; l.tolerance_grad = c.tg / 16.0; l.max_eval = c.cap; l.use_damping = false; l.max_direction_norm = 0; l.allow_fallback_to_fixed_step = c.fb; l.fallback_fixed_step_scale = c.fbs / 4.0;
  OptimizerParams P(b, l); Optimizer<T, QNT> opt(P, comm, rank, size); size_t k = 0;
  auto eval = [&](const ST<T> &st) -> std::tuple<T, ST<T>, double> { auto [e, g] = c.s[std::min(k, c.s.size() - 1)]; ++k; if (!rank) { hc::Ev v("ev"); v.fx("x", val(st), 1024).i("e", e).i("g", g); sink(v.o.str() + "}"); }
    return {T(e), rank ? mk<T>(-333) : mk<T>(g), 0.0}; };
  std::string exc; typename Optimizer<T, QNT>::OptimizationCallback cb; typename Optimizer<T, QNT>::OptimizationResult r{};
  try { r = opt.IterativeOptimize(mk<T>(c.x0), eval, cb); } catch (const std::exception &x) { exc = x.what(); }
  hc::Ev e(rank ? "rend" : "fin"); e.s("exc", exc).fxv("lrt", r.learning_rate_trajectory, 1024).i("k", k); if (!rank) e.fx("x", val(r.optimized_state), 1024); sink(e.o.str() + "}"); }
int main() { std::string line; std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) { std::istringstream is(line); Case c; is >> c.el >> c.n >> c.iters >> c.c1 >> c.c2 >> c.mn >> c.mx >> c.lr >> c.tc >> c.tg >> c.cap >> c.fb >> c.fbs >> c.x0 >> c.seed; std::string t; while (is >> t) { auto q = t.find(':'); c.s.push_back({std::stoi(t.substr(0, q)), std::stoi(t.substr(q + 1))}); }
    hc::Ev b("begin"); b.i("iters", c.iters).i("c1", c.c1).i("c2", c.c2).i("min", c.mn).i("max", c.mx).i("lr", c.lr).i("tc", c.tc).i("tg16", c.tg).i("cap", c.cap).b("fb", c.fb).i("fbs", c.fbs).i("x0", c.x0 * 1024); b.out();
    std::string fin = "{\"op\":\"end\",\"exc\":\"master did not finish\",\"x\":0,\"x_ok\":false,\"lrt\":[]", verdict = "ok"; std::vector<std::string> rends; std::string mk0;
    auto sink = [&](const std::string &s) { if (s.rfind("{\"op\":\"fin\"", 0) == 0) { fin = "{\"op\":\"end\"" + s.substr(11); fin.pop_back(); auto a = s.find("\"lrt\""); mk0 = s.substr(a, s.find("\"x\"", a) - a - 1); } else if (s.rfind("{\"op\":\"rend\"", 0) == 0) { auto a = s.find("\"lrt\""); rends.push_back(s.substr(a, s.size() - a - 1)); } else std::fputs((s + "\n").c_str(), stdout); };
    auto work = [&](int r, MPI_Comm cm, std::function<void(const std::string &)> f) { if (c.el == "c") go<Cx>(c, r, c.n, cm, f); else go<double>(c, r, c.n, cm, f); };
    if (c.n == 1) work(0, MPI_COMM_SELF, sink); else { auto R = simmpi::run(c.n, [&](int r) { work(r, MPI_COMM_WORLD, [](const std::string &s) { simmpi::emit(s); }); }, {.seed = c.seed, .mode = 2}); verdict = R.verdict; for (auto &s : R.log) sink(s); }
    bool same = (int) rends.size() == c.n - 1; for (auto &s : rends) same = same && s == mk0;
    std::printf("%s,\"same\":%s,\"verdict\":\"%s\"}\n", fin.c_str(), same ? "true" : "false", verdict.c_str()); } }
