// Sampling engine and the estimators built on it, on one to five simulated ranks.  KIND & 1: complex, KIND & 2: periodic (coarse-graining contractor).
// stdin lines:
//   seed X rows cols D model ranks mode pick p1..p5          exact summation: pick = n particles in state 1, -1 every configuration, -2 some of them in any order
//   seed M rows cols D model ranks mode total sweeps warmups sr ops p1..p5     sampling: ops v evaluate, n energy only, w warm up, r refresh
//   seed I rows cols D ranks mode enabled lo hi warmups      initial configurations: amplitudes outside (lo / 4, hi / 4) are illegal
//   seed V rows cols bc trg                                  boundary conditions and contraction parameters
#include "netlib.h"
#include <map>
#include <numeric>
#include <algorithm>
#include <mpi.h>
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_measurer.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_engine.h"
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
using namespace net;
using E = std::conditional_t<KIND & 1, std::complex<double>, double>; using Z = std::complex<double>; using Cf = std::vector<int>; using Ll = std::vector<long long>;
#if KIND & 2
static auto trunc() { return TRGTruncateParams<double>::SVD(1, 200, 0); }
#define CON TRGContractor
#else
static auto trunc() { return BMPSTruncateParams<double>::SVD(1, 200, 0); }
#define CON BMPSContractor
#endif
using W = TPSWaveFunctionComponent<E, QN, NoDress, CON>; using Tps = SplitIndexTPS<E, QN>;
static int R, C, P; static std::vector<double> p; static const int BCV = (KIND & 2) ? 1 : 0;
static SiteIdx si(int i) { return {(size_t) (i / C), (size_t) (i % C)}; }
static Configuration conf(const Cf &c) { Configuration x(R, C); for (int i = 0; i < R * C; ++i) x(si(i)) = c[i]; return x; }
static Cf cells(const Configuration &x) { Cf c; for (int i = 0; i < R * C; ++i) c.push_back(x(si(i))); return c; }
template<class V> static std::string arr(const V &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }
static std::string cfs(const std::vector<Cf> &v) { std::vector<std::string> s; for (auto &c : v) s.push_back(arr(c)); return join(s); }
static double big; // size of the numbers compared, for the rounding test
static void put(Ll &v, Z z, double s) { v.push_back(rnd(z.real() * s, big)); v.push_back(rnd(z.imag() * s, big)); }
static std::string ten(const QLTensor<E, QN> &t, double s) { Ll v; if (!t.IsDefault()) { auto x = entries(t); for (size_t k = 0; k < x.size(); k += 2) put(v, Z(x[k], x[k + 1]), s); } return arr(v); }
static std::string state(const Tps &t, double s) { std::vector<std::string> v; if (t.rows() != (size_t) R || t.cols() != (size_t) C) return "[]"; for (int i = 0; i < R * C; ++i) for (auto &x : t(si(i))) v.push_back(ten(x, s)); return join(v); }
static Z amp(const Tps &t, const Cf &c) { W w(t, conf(c), trunc()); return Z(w.amplitude); }
static long long n2(Z a) { return llround(std::norm(a)); }
static std::vector<Cf> every(int sector) { std::vector<Cf> v; int N = R * C; for (int x = 0; x < 1 << N; ++x) { Cf c; int k = 0; for (int i = 0; i < N; ++i) { c.push_back(x >> i & 1); k += x >> i & 1; } if (sector < 0 || k == sector) v.push_back(c); } return v; }
template<class F> void model(const std::string &n, F f) {
#if KIND & 2
  if (n == "xxz") f(HeisenbergSquarePBC(p[0], p[1])); else if (n == "j1j2") f(SquareSpinOneHalfJ1J2XXZModelPBC(p[0], p[1], p[2], p[3], p[4])); else f(TransverseFieldIsingSquarePBC(p[0]));
#else
  if (n == "xxz") f(SquareSpinOneHalfXXZModelOBC(p[0], p[1], p[4])); else if (n == "j1j2") f(SquareSpinOneHalfJ1J2XXZModelOBC(p[0], p[1], p[2], p[3], p[4])); else f(TransverseFieldIsingSquareOBC(p[0]));
#endif
}
// what the ranks said, in the order of the ranks
static void say(const std::string &s) { simmpi::emit("@" + std::to_string(simmpi::g_rank) + " " + s); }
struct Said { std::vector<std::vector<std::string>> by; std::string verdict; std::string nth(size_t k) const { std::vector<std::string> v; for (auto &x : by) v.push_back(k < x.size() ? x[k] : "[]"); return join(v); } };
static Said together(int n, int mode, uint64_t seed, const std::function<void(int)> &f) { auto q = simmpi::run(n, [&](int r) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); simmpi::g_rank = r; f(r); }, {.seed = seed, .mode = mode}); Said s; s.by.resize(n); s.verdict = q.verdict; if (q.left_over && q.verdict == "ok") s.verdict = "left"; for (auto &l : q.log) { if (l[0] == '@') { auto sp = l.find(' '); s.by[std::stoi(l.substr(1, sp - 1))].push_back(l.substr(sp + 1)); } else if (s.verdict == "ok") s.verdict = "threw"; } return s; }
static State mk(int D, std::mt19937 &g, double cap) { if (BCV && R >= 4) return fullstate(R, D, P, KIND & 1, g, 1e6); return mkstate(R, C, BCV, D, false, P, KIND & 1, g, cap, 90, 2); }
static void modelout(Ev &e, const std::string &m) { e.s("model", m); std::string s = "["; for (double x : p) s += (s.size() > 1 ? "," : "") + std::to_string((long long) x); e.raw("par", s + "]"); }
static double pmax() { double m = 1; for (double x : p) m = std::max(m, std::fabs(x)); return m; }

static void exactsum(std::istringstream &is, int seed) { int D, n, mode, pick; std::string m; is >> R >> C >> D >> m >> n >> mode >> pick; p.assign(5, 0); for (auto &x : p) is >> x; P = 2; std::mt19937 g(seed); std::vector<Cf> all = every(pick >= 0 ? pick : -1), use; State S; Tps t; long long w2 = 0; int K = all.size();
  // the enumerations offered by the library
  { Ev e("configs"); e.i("r", R).i("c", C).i("pick", pick); std::vector<Cf> v; if (pick >= 0) for (auto &x : GenerateAllPermutationConfigs({(size_t) (R * C - pick), (size_t) pick}, C, R)) v.push_back(cells(x)); else for (auto &x : GenerateAllBinaryConfigs(C, R)) v.push_back(cells(x)); e.raw("all", cfs(v)); e.out(); }
  double cap = std::pow(1.2e9 / (8 * 2.0 * R * C * pmax() * K * K), 0.25); for (int k = 0;; ++k) { S = mk(D, g, std::max(cap, 3.0)); t = S.tps<E>(); use.clear(); w2 = 0; for (auto &c : all) { auto a = amp(t, c); if (n2(a) > 0) { use.push_back(c); w2 += n2(a); } } if (pick == -2) { std::shuffle(use.begin(), use.end(), g); if (use.size() > 1) use.resize(1 + g() % std::min<size_t>(use.size(), 5)); w2 = 0; for (auto &c : use) w2 += n2(amp(t, c)); } if (use.size() && w2 * (double) w2 < 2e8 && S.size() * w2 * 8 * pmax() * R * C < 1e9) break; if (k > 3000) return; }
  std::vector<Configuration> cf; for (auto &c : use) cf.push_back(conf(c)); Tps junk = S.tps<E>(); junk *= E(3.0);
  { Ev e("begin"); S.out(e); modelout(e, m); e.raw("use", cfs(use)).i("ranks", n); e.out(); } big = (double) w2 * w2 * S.size();
  model(m, [&](auto mod) { auto q = together(n, mode, seed, [&](int r) { exact = true; auto [en, gr, err] = ExactSumEnergyEvaluatorMPI<decltype(mod), E, QN, CON>(r == 0 ? t : junk, cf, trunc(), mod, R, C, MPI_COMM_WORLD, r, n); Ev e; Ll v; put(v, std::conj(Z(en)), 4.0 * w2); e.iv("e", v).raw("g", state(gr, 4.0 * w2 * w2)).b("err", err == 0); e.b("exact", r ? true : exact); say(e.o.str() + "}"); }); Ev e("exact"); e.i("w", w2).s("verdict", q.verdict).raw("rk", q.nth(0)); e.out();
    auto z = together(n, mode, seed + 1, [&](int r) { exact = true; auto o = ExactSumMeasurerMPI<decltype(mod), E, QN, CON>(r == 0 ? t : junk, cf, trunc(), mod, R, C, MPI_COMM_WORLD, r, n); std::string s = "{"; if (r == 0) for (auto &[k, v] : std::map<std::string, std::vector<E>>(o.begin(), o.end())) { if (k == "SpSm_cross") continue; Ll y; for (auto &x : v) put(y, std::conj(Z(x)), 4.0 * w2); s += (s.size() > 1 ? ",\"" : "\"") + k + "\":" + arr(y); } Ev e; e.raw("obs", s + "}").b("exact", r ? true : exact); say(e.o.str() + "}"); }); Ev f("measure"); f.i("w", w2).s("verdict", z.verdict).raw("rk", z.nth(0)); f.out(); }); }

// the scripted sampler: every call moves on to the next configuration of the rank
struct Script { static inline std::vector<Cf> *todo; static inline size_t at = 0; static inline std::vector<std::string> seen; void operator()(const Tps &s, W &w, std::vector<double> &acc) const { auto &c = (*todo)[at++ % todo->size()]; seen.push_back(arr(c)); w = W(s, conf(c), w.trun_para); acc = {(double) (at % 5) / 4, (double) (at % 3) / 4}; } };
using Eng = MonteCarloEngine<E, QN, Script, CON>;
// amplitude and state of a normalised engine, in units in which they are the integers they came from
static std::string normal(Eng &en, long long m2) { double M = std::sqrt((double) m2), f = std::pow(M, 1.0 / (R * C)); Ev e; Ll v; exact = true; put(v, Z(en.WavefuncComp().amplitude), M); e.iv("amp", v).raw("state", state(en.State(), f)).raw("cfg", arr(cells(en.WavefuncComp().config))).i("bc", (int) en.State().GetBoundaryCondition()); bool tn = true; for (int i = 0; i < R * C; ++i) tn = tn && entries(en.WavefuncComp().tn(si(i))) == entries(en.State()(si(i))[en.WavefuncComp().config(si(i))]); e.b("tn", tn).b("exact", exact); return e.o.str() + "}"; }

static void initial(std::istringstream &is, int seed) { int D, n, mode, on, lo, hi, wu; is >> R >> C >> D >> n >> mode >> on >> lo >> hi >> wu; P = 2; std::mt19937 g(seed); auto all = every(-1); State S; Tps t; std::vector<Cf> c0; std::vector<bool> warm; std::vector<std::vector<Cf>> todo(n); std::vector<Cf> legal; auto ok = [&](Z a) { return n2(a) * 16 > (long long) lo * lo && n2(a) * 16 < (long long) hi * hi; };
  for (int k = 0; k < 3000; ++k) { S = mk(D, g, 60); t = S.tps<E>(); legal.clear(); std::vector<Cf> ill; for (auto &c : all) (ok(amp(t, c)) ? legal : ill).push_back(c); if (legal.size() > 1 && ill.size() > 1) { c0.clear(); warm.clear(); int bad = (int) (g() % 5); for (int r = 0; r < n; ++r) { bool b = bad == 0 ? true : bad == 1 ? false : g() % 2; auto &from = b ? ill : legal; c0.push_back(from[g() % from.size()]); warm.push_back(g() % 2); todo[r].clear(); for (int i = 0; i < 7; ++i) todo[r].push_back(legal[g() % legal.size()]); } break; } }
  if (c0.empty()) return; long long m2 = 1; { bool any = false; Z first; for (auto &c : c0) if (ok(amp(t, c))) { if (!any) first = amp(t, c); any = true; } if (any) { m2 = 0; for (auto &c : c0) m2 = std::max(m2, n2(ok(amp(t, c)) ? amp(t, c) : first)); } } std::vector<long long> last(n, 0); big = 1e4;
  { Ev e("start"); S.out(e); e.raw("c0", cfs(c0)).i("lo", lo).i("hi", hi).b("on", on).i("wu", wu); std::vector<std::string> w, td; for (int r = 0; r < n; ++r) { w.push_back(warm[r] ? "true" : "false"); td.push_back(cfs(todo[r])); } e.raw("warm", join(w)).raw("todo", join(td)); e.out(); }
  int total = 1 + (int) (g() % 9); auto q = together(n, mode, seed, [&](int r) { Script::todo = &todo[r]; Script::at = 0; ConfigurationRescueParams rp; rp.enabled = on; rp.amplitude_min_threshold = lo ? lo / 4.0 : 1e-9; rp.amplitude_max_threshold = hi / 4.0; MonteCarloParams mp(total, wu, 1, conf(c0[r]), warm[r]); MPI_Comm comm = MPI_COMM_WORLD; Eng en(t, mp, PEPSParams(trunc()), comm, Script(), rp); { Ev e; e.raw("n", normal(en, m2)).i("spr", en.SamplesPerRank()).i("calls", Script::seen.size()); say(e.o.str() + "}"); }
    for (int k = 0; k < 2; ++k) { Script::seen.clear(); en.WarmUp(); Ev e; e.raw("seen", join(Script::seen)); Z a(amp(t, cells(en.WavefuncComp().config))); long long a2 = n2(a), b2 = 0; std::vector<long long> al(n); ::MPI_Allgather(&a2, 1, MPI_UNSIGNED_LONG, al.data(), 1, MPI_UNSIGNED_LONG, comm); for (auto x : al) b2 = std::max(b2, x); e.i("m2", b2).raw("n", normal(en, b2)); say(e.o.str() + "}"); } });
  Ev e("engine"); e.i("m2", m2).i("total", total).s("verdict", q.verdict); std::vector<std::string> w; for (auto &x : q.by) w.push_back(join(x)); e.raw("rk", join(w)); e.out(); }

static void sampling(std::istringstream &is, int seed) { int D, n, mode, total, sweeps, wu, sr; std::string m, ops; is >> R >> C >> D >> m >> n >> mode >> total >> sweeps >> wu >> sr >> ops; p.assign(5, 0); for (auto &x : p) is >> x; P = 2; std::mt19937 g(seed); auto all = every(-1); int spr = (total + n - 1) / n, N = n * spr, bin = (int) std::sqrt((double) spr), K = n * (spr / bin * bin);
  struct Job { State S; Tps t; long long q; std::vector<std::vector<Cf>> todo; }; std::vector<Job> J; for (size_t k = 0; k < ops.size(); ++k) { Job j; for (int tr = 0; tr < 5000; ++tr) { if (k && g() % 4 == 0 && tr == 0) j.S = J[k - 1].S; else if (tr % 25 == 0) { j.S = k == 0 ? mk(D, g, 14) : J[0].S; if (k) { j.S.fill(g, std::max(20, 80 - tr / 30), tr > 700 ? 1 : 2); if (BCV && R >= 4) continue; } } j.t = j.S.tps<E>(); std::vector<std::pair<Cf, long long>> ok; for (auto &c : all) { auto a = amp(j.t, c); if (n2(a) > 0 && n2(a) <= 36) ok.push_back({c, n2(a)}); } if (ok.size() < 2) continue; j.q = 1; j.todo.assign(n, {}); for (int r = 0; r < n; ++r) for (int i = 0; i < spr * sweeps; ++i) { auto &x = ok[g() % ok.size()]; j.todo[r].push_back(x.first); if (i % sweeps == sweeps - 1) j.q = std::lcm(j.q, x.second); if (j.q > 1000) break; } if (j.q <= 40 && (double) N * N * j.q * j.q * 8 * R * C * pmax() * 4 < 1e8 && j.S.size() < 40) break; j.q = 0; } if (!j.q) return; J.push_back(j); }
  { Ev e("mc"); J[0].S.out(e); modelout(e, m); e.i("total", total).i("ranks", n).i("sweeps", sweeps).i("wu", wu).b("sr", sr); e.out(); } 
  model(m, [&](auto mod) { auto q = together(n, mode, seed, [&](int r) { Script::todo = &J[0].todo[r]; Script::at = 0; MonteCarloParams mp(total, wu, sweeps, conf(J[0].todo[r][0]), true); MPI_Comm comm = MPI_COMM_WORLD; Eng en(J[0].t, mp, PEPSParams(trunc()), comm, Script()); MCEnergyGradEvaluator<E, QN, Script, decltype(mod), CON> ev(en, mod, comm, sr); if (seed % 2) ev.ReserveBuffers(R, C, seed % 5);
      for (size_t k = 0; k < ops.size(); ++k) { auto &j = J[k]; Script::todo = &j.todo[r]; Script::at = 0; Script::seen.clear(); exact = true; big = 1e6; Tps mine = j.t; if (r) mine *= E(2.0); Ev e; auto rates = [&](const std::vector<double> &a) { Ll v; for (double x : a) v.push_back(rnd(x * 4 * spr, 1)); e.iv("acc", v); }; double qq = j.q; std::vector<E> es;
        if (ops[k] == 'v') { auto x = ev.Evaluate(mine); es = x.energy_samples; Ll v, s; put(v, std::conj(Z(x.energy)), 4.0 * K * qq); for (size_t i = 0; i < es.size(); ++i) put(s, std::conj(Z(es[i])), 4 * qq); e.iv("e", v).iv("es", s).raw("g", r ? "[]" : state(x.gradient, 4.0 * N * K * qq * qq)); rates(x.accept_rates_avg); std::vector<std::string> os; for (auto &o : x.Ostar_samples) os.push_back(state(o, qq)); e.raw("os", join(os)).raw("om", r || !x.Ostar_mean ? "[]" : state(*x.Ostar_mean, N * qq)).b("has", x.Ostar_mean.has_value()); double gn = r ? 0 : std::sqrt(x.gradient.NormSquare()); e.b("norm", std::fabs(x.gradient_norm - gn) <= 1e-9 * (1 + gn)); auto [mn, er] = MeanAndBinnedErrorSqrtNUniformBin(es, comm); e.b("err", r ? x.energy_error == 0 : (x.energy_error == er || (std::isinf(er) && std::isinf(x.energy_error)) || (std::isnan(er) && std::isnan(x.energy_error)))); }
        else { auto x = ev.EvaluateEnergyOnly(mine); Ll v; put(v, std::conj(Z(x.energy)), 4.0 * K * qq); e.iv("e", v); rates(x.accept_rates_avg); e.b("err", r ? x.energy_error == 0 : x.energy_error >= 0); }
        e.raw("seen", join(Script::seen)).raw("cfg", arr(cells(en.WavefuncComp().config))).raw("state", state(en.State(), 1)).b("exact", exact); say(e.o.str() + "}"); } });
    for (size_t k = 0; k < ops.size(); ++k) { auto &j = J[k]; Ev e(ops[k] == 'v' ? "eval" : "energy"); e.raw("X", j.S.xs()).i("q", j.q).i("N", N).i("K", K).i("spr", spr); std::vector<std::string> td; for (auto &x : j.todo) td.push_back(cfs(x)); e.raw("todo", join(td)).s("verdict", q.verdict).raw("rk", q.nth(k)); e.out(); } }); }

static void valid(std::istringstream &is, int seed) { int bc, trg; is >> R >> C >> bc >> trg; P = 2; std::mt19937 g(seed); State S; S.q = mkgeo(R, C, bc, 1, true, g); S.P = 2; S.cplx = KIND & 1; S.X.assign(R * C * 2, {1, 0}); for (auto &x : S.X) if (g() % 2) x[0] = -1; std::string what = "ok"; std::vector<Cf> td{Cf(R * C, 0)}; Script::todo = &td; try { MPI_Comm comm = MPI_COMM_SELF; auto t = S.tps<E>(); MonteCarloParams mp(1, 0, 1, conf(td[0]), true); PEPSParams pp = trg ? PEPSParams(TRGTruncateParams<double>::SVD(1, 4, 0)) : PEPSParams(BMPSTruncateParams<double>::SVD(1, 4, 0)); Eng en(t, mp, pp, comm, Script()); } catch (const std::invalid_argument &) { what = "refused"; } catch (const std::exception &x) { what = x.what(); } Ev e("valid"); e.i("r", R).i("c", C).i("bc", bc).i("trg", trg).i("con", BCV).s("what", what); e.out(); }
int main() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); if (l.empty()) continue; int seed; char m; is >> seed >> m; if (m == 'X') exactsum(is, seed); if (m == 'M') sampling(is, seed); if (m == 'I') initial(is, seed); if (m == 'V') valid(is, seed); std::fflush(stdout); } }
