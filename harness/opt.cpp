// Drives the real Optimizer with a scripted evaluator on a one-parameter state and records every evaluation and callback.
#include "hc.h"
#include <map>
#include <set>
#include <fstream>
#include <filesystem>
#include <algorithm>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlten; using namespace qlpeps; using QNT = special_qn::TrivialRepQN;
template<class T> using ST = SplitIndexTPS<T, QNT>;
struct Out { double e, err, g, var; };
struct Scn { std::map<std::string, std::string> kv; std::vector<Out> script; long i(const std::string &k, long d = 0) const { auto f = kv.find(k); return f == kv.end() ? d : std::stol(f->second); } std::string s(const std::string &k) const { auto f = kv.find(k); return f == kv.end() ? "" : f->second; } };
struct Ema { double a, m = 0, v = 0; bool in = false; explicit Ema(double w) : a(2 / (w + 1)) {} void up(double x) { if (!in) { m = x; in = true; return; } double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); } };
template<class T> ST<T> mk(double v) { ST<T> s(1, 1, 1); Index<QNT> o({QNSector<QNT>(QNT(), 1)}, OUT); auto in = InverseIndex(o); s({0, 0})[0] = QLTensor<T, QNT>({in, o, o, in}); s({0, 0})[0].Fill(QNT(), T(v)); return s; }
template<class T> double val(const ST<T> &s) { if (s.rows() != 1 || s.cols() != 1 || s({0, 0}).empty() || s({0, 0})[0].IsDefault()) return std::nan(""); return std::real(s({0, 0})[0].GetElem({0, 0, 0, 0})); }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string esc(const std::string &v) { std::string r = "\""; char b[8]; for (unsigned char c : v) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { std::snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
struct EvalCap {};
struct Lr : LearningRateScheduler { std::vector<double> t; explicit Lr(std::vector<double> t) : t(std::move(t)) {} double GetLearningRate(size_t i, double) const override { return t[std::min(i, t.size() - 1)]; } std::unique_ptr<LearningRateScheduler> Clone() const override { return std::make_unique<Lr>(t); } std::string Name() const override { return "table"; } std::string Describe() const override { return ""; } };
static std::vector<double> nums(const std::string &s) { std::vector<double> v; std::istringstream is(s); std::string t; while (std::getline(is, t, ',')) v.push_back(std::stod(t)); return v; }
template<class T> struct Runner {
  const Scn &c; int rank, size; MPI_Comm comm; std::string dir; std::unique_ptr<Optimizer<T, QNT>> opt; OptimizerParams P; std::vector<ST<T>> os; ST<T> om; std::vector<T> es; double shift = 7; std::string alg;
  std::function<void(hc::Ev &)> sink;
  Runner(const Scn &c, int rank, int size, MPI_Comm comm, std::string dir) : c(c), rank(rank), size(size), comm(comm), dir(dir) {
    alg = c.s("alg"); auto lrs = nums(c.s("lrs")); for (auto &x : lrs) x /= 16; std::unique_ptr<LearningRateScheduler> sch; if (lrs.size() > 1) sch = std::make_unique<Lr>(lrs);
    OptimizerParams::BaseParams b(c.i("maxIter"), c.i("etol"), c.i("gtol"), c.i("pat"), lrs[0], std::move(sch));
    if (c.i("selI")) { b.initial_step_selector.enabled = true; b.initial_step_selector.max_line_search_steps = c.i("selI"); b.initial_step_selector.enable_in_deterministic = c.i("det"); }
    if (c.i("selN")) { b.periodic_step_selector.enabled = true; b.periodic_step_selector.every_n_steps = c.i("selN"); b.periodic_step_selector.phase_switch_ratio = c.i("phase") / 4.0; b.periodic_step_selector.enable_in_deterministic = c.i("det"); }
    if (c.i("jsonl")) b.jsonl_log_path = dir + "/log/run.jsonl";
    CheckpointParams ck; if (c.i("ck")) { ck.every_n_steps = c.i("ck"); ck.base_path = dir + "/ck"; }
    SpikeRecoveryParams sp; sp.enable_auto_recover = c.i("auto"); sp.redo_mc_max_retries = c.i("retries"); sp.factor_err = 4; sp.factor_grad = 4; sp.factor_ngrad = 2.9; sp.sr_min_iters_suspicious = 0; sp.enable_rollback = c.i("rollb"); sp.ema_window = c.i("win", 3); sp.sigma_k = c.i("sk10", 23) / 10.0; if (c.i("csv")) sp.log_trigger_csv_path = dir + "/spikes.csv";
    AlgorithmParams ap = SGDParams();
    if (alg == "mom") ap = SGDParams(0.5, false); if (alg == "nag") ap = SGDParams(0.5, true);
    if (alg == "sr") { StochasticReconfigurationParams sr; sr.cg_params.max_iter = 10; sr.cg_params.relative_tolerance = 1e-12; sr.diag_shift = shift; ap = sr; }
    P = OptimizerParams(b, ap, ck, sp); opt = std::make_unique<Optimizer<T, QNT>>(P, comm, rank, size); }
  // one run; returns the end event's fields in `end`
  void go(double x0, hc::Ev &end) {
    size_t k = 0; Ema ee(c.i("win", 3)), er(c.i("win", 3)), eg(c.i("win", 3)), en(c.i("win", 3)); double sk = c.i("sk10", 23) / 10.0; Out last{}; double lastn = 0; bool first = true;
    std::vector<Out> script = c.script; size_t cap = script.size() + 200;
    auto sh = [&](const Out &o) { return alg == "sr" ? o.g / (shift + o.var * o.var) : o.g; };
    auto ev = [&](const ST<T> &st, bool eonly) { if (k >= cap) throw EvalCap{}; Out o = k < script.size() ? script[k] : Out{-1000.0 - (double) k, 1, 8, 5}; ++k;
      if (rank == 0) { hc::Ev e("ev"); double n = std::fabs(sh(o)); e.fx("x", val(st), 1024).i("e", (long) o.e).i("err", (long) o.err).i("g", (long) std::fabs(o.g)).fx("d", sh(o), 64).b("eonly", eonly);
        e.b("s1", er.in && er.m > 0 && o.err > 4 * er.m).b("s2", eg.in && eg.m > 0 && std::fabs(o.g) > 4 * eg.m).b("s3", en.in && en.m > 0 && n > 2.9 * en.m).b("s4", ee.in && ee.v > 0 && o.e - ee.m > sk * std::sqrt(ee.v)); sink(e); }
      return o; };
    bool cx = !std::is_same_v<T, double>;
    auto eval = [&](const ST<T> &st) -> std::tuple<T, ST<T>, double> { Out o = ev(st, false); last = o; lastn = std::fabs(sh(o));
      if (alg == "sr") { double d = o.var; os.clear(); os.push_back(mk<T>(20 + d)); os.push_back(mk<T>(20 - d)); om = mk<T>(20); }
      T e = o.e; if constexpr (!std::is_same_v<T, double>) e = T(o.e, 3.5); // a residual imaginary part must not matter
      if (rank) return {e, c.i("junk") ? mk<T>(777) : ST<T>(1, 1, 1), -5.0}; return {e, mk<T>(o.g), o.err}; };
    std::function<std::pair<double, double>(const ST<T> &)> eo; if (c.i("eonly")) eo = [&](const ST<T> &st) { Out o = ev(st, true); return std::make_pair(o.e, rank ? std::nan("") : o.err); };
    typename Optimizer<T, QNT>::OptimizationCallback cb; long stop = c.i("stop", 99);
    cb.on_iteration = [&](size_t i, double e, double err, double g) { if (rank) return; ee.up(last.e); er.up(last.err); eg.up(std::fabs(last.g)); en.up(lastn); hc::Ev v("it"); v.i("i", i).fx("e", e, 1).fx("err", err, 1).fx("g", g, 1); sink(v); };
    cb.on_lowest_state_found = [&](const ST<T> &st, double e) { if (rank) return; hc::Ev v("low"); v.fx("x", val(st), 1024).fx("e", e, 1); sink(v); };
    cb.should_stop = [&](size_t i, double e, double) { bool a = (long) i == stop; if (!rank) { hc::Ev v("ask"); v.i("i", i).b("ans", a); sink(v); } return a; };
    std::string exc; typename Optimizer<T, QNT>::OptimizationResult r{}; bool done = false;
    try { r = opt->IterativeOptimize(rank == 0 ? mk<T>(x0) : mk<T>(x0), eval, cb, alg == "sr" ? &os : nullptr, alg == "sr" ? &om : nullptr, nullptr, eo); done = true; }
    catch (const EvalCap &) { exc = "does not terminate: evaluation cap reached"; } catch (const std::exception &x) { exc = x.what(); }
    std::vector<double> tr; for (auto &t : r.energy_trajectory) tr.push_back(std::real(t));
    end.s("exc", exc).i("k", k).fxv("traj", tr, 1).fxv("errs", r.energy_error_trajectory, 1).fxv("gns", r.gradient_norms, 1).fxv("lrt", r.learning_rate_trajectory, 16).i("n", r.total_iterations).b("conv", r.converged);
    if (done && rank == 0) { end.fx("fe", tr.empty() ? 0 : r.final_energy, 1).fx("me", tr.empty() ? 0 : r.min_energy, 1).fx("x", val(r.optimized_state), 1024).fx("lowx", val(r.lowest_state), 1024); end.i("nres", r.spike_stats.total_resamples).i("nroll", r.spike_stats.total_rollbacks).i("nforced", r.spike_stats.total_forced_accepts);
      std::string lg = "["; for (auto &q : r.spike_stats.event_log) { if (lg.size() > 1) lg += ","; std::string sg = SignalName(q.signal); lg += "{\"step\":" + std::to_string(q.step) + ",\"att\":" + std::to_string(q.attempt) + ",\"sig\":\"" + sg.substr(0, 2) + "\",\"act\":\"" + ActionName(q.action) + "\"}"; } end.raw("log", lg + "]");
      auto &gs = opt->GetSpikeStats(); end.i("gres", gs.total_resamples).i("groll", gs.total_rollbacks).i("gforced", gs.total_forced_accepts); }
    if (rank == 0) { end.raw("jtext", esc(slurp(dir + "/log/run.jsonl"))).raw("ctext", esc(slurp(dir + "/spikes.csv"))); std::string cs = "["; namespace fs = std::filesystem; if (c.i("ck")) { std::vector<std::string> d; if (fs::exists(dir + "/ck")) for (auto &f : fs::directory_iterator(dir + "/ck")) if (f.is_directory()) d.push_back(f.path().filename()); std::sort(d.begin(), d.end());
        for (auto &f : d) { std::string q = dir + "/ck/" + f; ST<T> t(1, 1); bool ok = false; try { ok = t.Load(q); } catch (...) {} double v = ok ? val(t) : std::nan(""); hc::Ev z; z.s("dir", f).fx("x", v, 1024).raw("meta", esc(slurp(q + "/checkpoint_meta.txt"))).raw("snap", esc(slurp(q + "/trajectory_snapshot.csv"))); if (cs.size() > 1) cs += ","; cs += z.o.str() + "}"; } }
      end.raw("cks", cs + "]").raw("top", esc(slurp(dir + "/ck/energy_trajectory.csv"))); } }
};
template<class T> void scenario(const Scn &c, const std::string &line, const std::string &root, int id) {
  int n = c.i("n", 1), runs = c.i("runs", 1); std::string dir = root + "/s" + std::to_string(id); std::filesystem::create_directories(dir);
  auto begin = [&](double x0) { hc::Ev b("begin"); for (auto &q : c.kv) { if (q.first == "alg") b.s("alg", q.second); else if (q.first == "chk") { std::string r = "["; std::istringstream is(q.second); std::string t; while (std::getline(is, t, ',')) r += (r.size() > 1 ? "," : "") + ("\"" + t + "\""); b.raw("chk", r + "]"); } else if (q.first == "lrs") b.raw("lrs", "[" + q.second + "]"); else if (q.first == "auto" || q.first == "rollb" || q.first == "eonly") b.b(q.first.c_str(), q.second == "1"); else if (q.first == "x0") b.fx("x0", x0, 1024); else if (q.first != "elem") b.i(q.first.c_str(), std::stol(q.second)); } b.s("line", line); return b; };
  double x0 = c.i("x0");
  if (n == 1) { Runner<T> R(c, 0, 1, MPI_COMM_SELF, dir); R.sink = [](hc::Ev &e) { e.out(); };
    for (int q = 0; q < runs; ++q) { std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); auto b = begin(x0); b.out(); hc::Ev end("end"); R.go(x0, end); end.raw("rtext", "[]").s("verdict", "ok"); end.out(); } }
  else { auto b = begin(x0); b.out(); auto R = simmpi::run(n, [&](int r) { Runner<T> X(c, r, n, MPI_COMM_WORLD, dir); X.sink = [](hc::Ev &e) { simmpi::emit(e.o.str() + "}"); }; hc::Ev end(r ? "rend" : "end"); X.go(x0, end); simmpi::emit(end.o.str() + "}"); }, {.seed = (uint64_t) id + 1, .mode = 2});
    std::string ends, rends; for (auto &l : R.log) { if (l.rfind("{\"op\":\"end\"", 0) == 0) ends = l; else if (l.rfind("{\"op\":\"rend\"", 0) == 0) rends += (rends.empty() ? "" : ",") + l; else std::puts(l.c_str()); }
    if (ends.empty()) ends = "{\"op\":\"end\",\"exc\":\"master did not finish\"}"; ends.pop_back(); std::printf("%s,\"verdict\":\"%s\",\"rtext\":[%s]}\n", ends.c_str(), R.verdict.c_str(), rends.c_str()); std::fflush(stdout); }
  std::filesystem::remove_all(dir);
}
int main(int argc, char **argv) { std::string root = argv[1], line; int id = 0; std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) { Scn c; std::istringstream is(line); std::string t; while (is >> t) { auto q = t.find('='); if (q != std::string::npos) c.kv[t.substr(0, q)] = t.substr(q + 1); else { auto v = nums(t); c.script.push_back({v[0], v[1], v[2], v[3]}); } }
    if (c.s("elem") == "c") scenario<std::complex<double>>(c, line, root, id++); else scenario<double>(c, line, root, id++); } }
