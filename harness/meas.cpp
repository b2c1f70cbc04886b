// The Monte-Carlo measurement program on simulated ranks with a scripted sampler and a scripted model.  KIND & 1: complex.
// stdin lines: seed rows cols levels ranks mode total sweeps warmups warm pn load path ops sigrank sigat
//   ops: x run the program, d write the results again elsewhere, r replica test;   sigrank/sigat: SIGINT at that rank during its sigat-th sweep (0: before the first), -1 none
#include "netlib.h"
#include <map>
#include <fstream>
#include <algorithm>
#include <csignal>
#include <filesystem>
#include <mpi.h>
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/algorithm/vmc_update/model_measurement_solver.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h"
using namespace net; namespace fs = std::filesystem;
using E = std::conditional_t<KIND & 1, std::complex<double>, double>; using Z = std::complex<double>; using Cf = std::vector<int>; using Ll = std::vector<long long>;
using W = TPSWaveFunctionComponent<E, QN, NoDress, BMPSContractor>; using Tps = SplitIndexTPS<E, QN>;
static auto trunc() { return BMPSTruncateParams<double>::SVD(1, 200, 0); }
static int R, C, P, me; static const double K = 1000;
static SiteIdx si(int i) { return {(size_t) (i / C), (size_t) (i % C)}; }
static Configuration conf(const Cf &c) { Configuration x(R, C); for (int i = 0; i < R * C; ++i) x(si(i)) = c[i]; return x; }
static Cf cells(const Configuration &x) { Cf c; for (int i = 0; i < R * C; ++i) c.push_back(x(si(i))); return c; }
template<class V> static std::string arr(const V &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }
static std::string cfs(const std::vector<Cf> &v) { std::vector<std::string> s; for (auto &c : v) s.push_back(arr(c)); return join(s); }
static long long fx(double x, double s) { x *= s; return std::isfinite(x) && std::fabs(x) < 1e9 ? llround(x) : 1999999999; }
struct Key { std::string name; int n, rows, cols; bool meta, tri, coord; }; static std::vector<Key> keys;
static std::vector<Cf> *todo; static size_t at; static long sigat; static std::vector<std::string> entry, samples;
struct Script { void operator()(const Tps &s, W &w, std::vector<double> &acc) const { entry.push_back(arr(cells(w.config))); auto &c = (*todo)[at++ % todo->size()]; if ((long) at == sigat) raise(SIGINT); w = W(s, conf(c), w.trun_para); acc = {0.5, 0.25}; } };
struct Scripted : ModelMeasurementSolver<Scripted> { mutable std::mt19937 g; mutable std::vector<Z> psi; static Z num(int a, int b) { return Z(a, (KIND & 1) ? b : 0); }
  template<class T, class Q, class Comp> ObservableMap<T> EvaluateObservables(const SplitIndexTPS<T, Q> *, Comp *w) { ObservableMap<T> o; std::vector<std::string> said(keys.size()); std::vector<size_t> ord(keys.size()); for (size_t k = 0; k < ord.size(); ++k) ord[k] = k; std::shuffle(ord.begin(), ord.end(), g); if (g() % 2) o.reserve(1 + g() % 60);
    for (size_t k : ord) { std::vector<T> v; Ll l; for (int i = 0; i < keys[k].n; ++i) { Z z = num((int) (g() % 11) - 5, (int) (g() % 11) - 5); if constexpr (std::is_same_v<T, double>) v.push_back(z.real()); else v.push_back(z); l.push_back((long long) z.real()); l.push_back((long long) z.imag()); } o[keys[k].name] = v; said[k] = arr(l); }
    int a = 3 + (int) (g() % 9), d = (int) (g() % 3); Z u = num((int) (g() % 3) == 0 ? 0 : 1, 1); if (u == Z(0)) u = 1; psi.clear(); Z m = u * (double) a; double err = d / (double) a; if (g() % 2) { if constexpr (std::is_same_v<T, double>) this->template SetLastPsiSummary<T>(m.real(), err); else this->template SetLastPsiSummary<T>(m, err); } else psi = {u * (double) (a + d), u * (double) (a - d)};
    Ev e; e.raw("cfg", arr(cells(w->config))).raw("vals", join(said)).iv("psi", Ll{(long long) m.real(), (long long) m.imag()}).i("a", a).i("d", d); samples.push_back(e.o.str() + "}"); return o; }
  template<class T, class Q, class Comp> std::vector<T> BuildPsiList(const SplitIndexTPS<T, Q> *, Comp *) const { std::vector<T> v; for (auto z : psi) if constexpr (std::is_same_v<T, double>) v.push_back(z.real()); else v.push_back(z); return v; }
  std::vector<ObservableMeta> DescribeObservables(size_t ly, size_t lx) const { (void) ly; (void) lx; std::vector<ObservableMeta> v; for (auto &k : keys) if (k.meta) { ObservableMeta m{k.name, "an observable", {}, {}, {}}; if (k.rows) m.shape = {(size_t) k.rows, (size_t) k.cols}; else if (k.n > 1) m.shape = {(size_t) k.n}; if (k.tri) m.index_labels = {"pair_packed_upper_tri"}; if (k.coord) m.coord_generator = [](size_t a, size_t b) { return std::to_string(a) + " " + std::to_string(b) + "\n"; }; v.push_back(m); } return v; } };
// cells of one line of a results file: numbers, complex numbers in parentheses
static bool line(const std::string &s, std::vector<Z> &v) { const char *p = s.c_str(); auto num = [&](double &x) { char *q; x = std::strtod(p, &q); if (q == p) return false; p = q; return true; }; while (true) { double a, b = 0; if (*p == '(') { ++p; if (!num(a) || *p++ != ',' || !num(b) || *p++ != ')') return false; } else if (!num(a)) return false; v.push_back({a, b}); if (!*p) return true; if (*p++ != ',') return false; } }
static bool table(const std::string &f, bool head, std::vector<std::vector<Z>> &t, std::string &h) { std::ifstream i(f); if (!i) return false; std::string l; if (head && !std::getline(i, h)) return false; while (std::getline(i, l)) { std::vector<Z> v; if (!line(l, v)) return false; t.push_back(v); } return true; }
static std::string text(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string stat(const std::vector<Z> &m, const std::vector<double> &se) { Ll a, b; for (auto z : m) { a.push_back(fx(z.real(), K)); a.push_back(fx(z.imag(), K)); } for (double x : se) b.push_back(fx(x * x, K)); return "{\"m\":" + arr(a) + ",\"se2\":" + arr(b) + "}"; }
static std::string rows(const std::vector<std::vector<Z>> &t, const std::vector<size_t> &col, double s) { std::vector<std::string> v; for (auto &x : t) { Ll l; for (size_t c : col) l.push_back(c < x.size() ? fx(x[c].real(), s) : -999); v.push_back(arr(l)); } return join(v); }
template<class M> static std::string results(M &q, const std::string &base, bool pn) { // the registry and the files of this rank
  Ev e; std::string b = base.empty() ? "./" : base + "/"; auto &reg = q.ObservableRegistry(); std::vector<std::string> out; std::vector<Key> ks = keys; if (pn) ks.push_back({"particle_number_distribution", 0, 0, 0, true, false, false}); e.i("nkeys", (long long) reg.size());
  for (auto &k : ks) { Ev o; auto it = reg.find(k.name); bool has = it != reg.end(); std::vector<Z> m; std::vector<double> se; if (has) { for (auto z : it->second.first) m.push_back(Z(z)); se = it->second.second; } o.b("has", has).raw("reg", stat(m, se)); std::vector<Z> fm; std::vector<double> fe; bool file = false, shape = true; std::string h, s = b + "stats/" + k.name;
    if (k.rows) { std::vector<std::vector<Z>> t, u; file = table(s + "_mean.csv", false, t, h) && table(s + "_stderr.csv", false, u, h); shape = (int) t.size() == k.rows && t.size() == u.size(); for (auto &x : t) { shape &= (int) x.size() == k.cols; fm.insert(fm.end(), x.begin(), x.end()); } for (auto &x : u) { shape &= (int) x.size() == k.cols; for (auto z : x) fe.push_back(z.real()); } }
    else { std::vector<std::vector<Z>> t; file = table(s + ".csv", true, t, h); shape = h == "index,mean,stderr"; for (size_t i = 0; i < t.size(); ++i) { shape &= t[i].size() == 3 && t[i][0] == Z((double) i); if (t[i].size() == 3) { fm.push_back(t[i][1]); fe.push_back(t[i][2].real()); } } }
    bool same = fm == m && fe.size() == m.size(); for (size_t i = 0; i < fe.size() && same; ++i) same = fe[i] == (se.empty() ? 0.0 : se[i]); o.b("file", file).b("shape", shape).b("same", same); std::string im = text(s + "_index_map.txt"); auto ps = im.find("length="); o.i("map", ps == std::string::npos ? -1 : std::atoi(im.c_str() + ps + 7)); std::istringstream co(text(s + "_coords.txt")); Ll cc; long long x; while (co >> x) cc.push_back(x); o.iv("coords", cc); out.push_back(o.o.str() + "}"); }
  e.raw("keys", join(out)); { Ll md; std::map<std::string, long long> kv; std::istringstream is(text(b + "metadata.txt")); std::string l; while (std::getline(is, l)) { std::istringstream ls(l); std::string k; long long v; if (ls >> k >> v) kv[k] = v; } for (auto k : {"total_samples_requested", "samples_per_rank", "samples_scheduled_total", "samples_collected_master", "samples_collected_total", "mpi_size", "warmup_sweeps", "sweeps_between_samples", "ly", "lx", "registered_observables"}) md.push_back(kv.count(k) ? kv[k] : -1); e.iv("md", md); }
  { std::vector<std::vector<Z>> t; std::string h; bool ok = table(b + "samples/psi.csv", true, t, h); e.b("psifile", ok && h == "sample_id,psi_mean_re,psi_mean_im,psi_rel_err").raw("psi", rows(t, {0, 1, 2, 3}, 100)); }
  { std::vector<std::vector<Z>> t; std::string h; bool ok = table(b + "samples/particle_number_rank" + std::to_string(me) + ".csv", true, t, h); e.b("pnfile", ok).raw("pn", rows(t, {0, 1}, 1)); }
  return e.o.str() + "}"; }
// stdin line: seed F kind ranks   programs that must be refused: 1 no such state, 2 too short or 3 empty particle table (0: sound), 4 wrong or 5 empty shape of an observable (one rank, seen when writing)
static void refuse(std::istringstream &is, int seed) { int kind, n; is >> kind >> n; R = 2; C = 2; P = 2; keys = {{"energy", 1, 0, 0, true, false, false}, {"odd", kind == 4 ? 5 : 6, 2, kind == 5 ? 0 : 3, true, false, false}}; std::mt19937 g(seed); State S; S.q = mkgeo(R, C, 0, 1, true, g); S.P = P; S.cplx = KIND & 1; S.X.assign(R * C * P, {1, 0}); Tps t = S.tps<E>(); std::vector<Cf> td{{0, 1, 1, 0}}; char dir[] = "/tmp/measXXXXXX"; if (!mkdtemp(dir)) hc::setup_error("scratch"); std::string cwd = fs::current_path(); fs::current_path(dir); 
  auto q = simmpi::run(n, [&](int r) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); me = r; todo = &td; at = 0; sigat = -1; int how = 0; try { MonteCarloParams mp(3, 1, 1, conf(td[0]), true); MCMeasurementParams par(mp, PEPSParams(trunc()), "out"); par.particle_number_distribution.enabled = true; par.particle_number_distribution.particles_per_state = kind == 2 ? std::vector<size_t>{1} : kind == 3 ? std::vector<size_t>{} : std::vector<size_t>{1, 2}; Scripted sol; using M = MCPEPSMeasurer<E, QN, Script, Scripted>; MPI_Comm comm = MPI_COMM_WORLD; std::unique_ptr<M> m = kind == 1 ? M::CreateByLoadingTPS("nosuch", par, comm, sol) : std::make_unique<M>(t, par, comm, sol); how = 1; m->Execute(); how = 2; } catch (const std::exception &) {} simmpi::emit("@" + std::to_string(how)); }, {.seed = (uint64_t) seed});
  fs::current_path(cwd); fs::remove_all(dir); Ll v; for (auto &l : q.log) v.push_back(l[0] == '@' ? std::atoi(l.c_str() + 1) : -1); Ev e("refuse"); e.i("kind", kind).i("ranks", n).s("verdict", q.verdict).iv("how", v); e.out(); }
static void scenario(std::istringstream &is, int seed) { int n, mode, total, sweeps, wu, warm, pn, load, sr; long sa; std::string path, ops; is >> R >> C >> P >> n >> mode >> total >> sweeps >> wu >> warm >> pn >> load >> path >> ops >> sr >> sa; if (path == ".") path = ""; std::mt19937 g(seed); int N = R * C;
  keys.clear(); keys.push_back({"energy", 1, 0, 0, true, false, false}); if (g() % 4) keys.push_back({"spin_z", N, R, C, true, false, g() % 2 == 0}); if (g() % 2) keys.push_back({"corr", N * (N + 1) / 2, 0, 0, true, true, false}); if (g() % 2) keys.push_back({"wide", 6, 2, 3, true, false, false}); if (g() % 2) keys.push_back({"tall", 6, 3, 2, true, false, true}); if (g() % 2) keys.push_back({"extra", 3, 0, 0, false, false, false}); if (g() % 3 == 0) keys.push_back({"psi_rel_err", 1, 0, 0, true, false, false}); if (KIND & 1) keys.erase(std::remove_if(keys.begin(), keys.end(), [](auto &k) { return k.name == "psi_rel_err"; }), keys.end());
  std::vector<std::vector<Cf>> td(n); for (auto &t : td) for (int k = 0, len = 3 + (int) (g() % 6); k < len; ++k) { Cf c; for (int i = 0; i < N; ++i) c.push_back(g() % P); t.push_back(c); } std::vector<Cf> c0; for (int r = 0; r < n; ++r) { Cf c; for (int i = 0; i < N; ++i) c.push_back(g() % P); c0.push_back(c); }
  State S; S.q = mkgeo(R, C, 0, 1, true, g); S.P = P; S.cplx = KIND & 1; S.X.assign(N * P, {1, 0}); Tps t = S.tps<E>(); std::vector<size_t> pps; if (pn) for (int k = 0; k < P + (int) (g() % 2); ++k) pps.push_back(g() % 4);
  { Ev e("begin"); e.i("r", R).i("c", C).i("ranks", n).i("total", total).i("sweeps", sweeps).i("wu", wu).b("warm", warm).raw("pps", arr(pps)).i("sr", sr + 1).i("sa", sa); std::vector<std::string> ks; for (auto &k : keys) { Ev o; o.i("n", k.n).b("meta", k.meta).b("tri", k.tri).b("coord", k.coord); ks.push_back(o.o.str() + "}"); } e.raw("keys", join(ks)); std::vector<std::string> v; for (auto &x : td) v.push_back(cfs(x)); e.raw("todo", join(v)).raw("c0", cfs(c0)); e.out(); }
  char dir[] = "/tmp/measXXXXXX"; if (!mkdtemp(dir)) hc::setup_error("scratch"); std::string cwd = fs::current_path(); fs::current_path(dir); if (load) t.Dump("tpsin", false); 
  auto q = simmpi::run(n, [&](int r) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); me = r; auto say = [&](const std::string &s) { simmpi::emit("@" + std::to_string(r) + " " + s); }; todo = &td[r]; at = 0; sigat = sr == r && sa > 0 ? sa : -1; MonteCarloParams mp(total, wu, sweeps, conf(c0[r]), warm, "cfg/end"); MCMeasurementParams par(mp, PEPSParams(trunc()), path); if (pn) { par.particle_number_distribution.enabled = true; par.particle_number_distribution.particles_per_state = pps; } Scripted sol; sol.g.seed(seed * 31 + r); using M = MCPEPSMeasurer<E, QN, Script, Scripted>; MPI_Comm comm = MPI_COMM_WORLD;
    std::unique_ptr<M> m = load ? M::CreateByLoadingTPS("tpsin", par, comm, sol) : std::make_unique<M>(t, par, comm, sol); if (sr == r && sa == 0) raise(SIGINT);
    for (char op : ops) { entry.clear(); samples.clear(); Ev e; auto est = [&](const char *k) { auto x = m->GetEnergyEstimate(); Ll v; if (x) { v.push_back(fx(Z(x->energy).real(), K)); v.push_back(fx(Z(x->energy).imag(), K)); v.push_back(fx(x->stderr * x->stderr, K)); } e.iv(k, v); };
      if (op == 'x') { est("before"); m->Execute(); est("est"); auto oe = m->OutputEnergy(); e.iv("oe", Ll{fx(Z(oe.first).real(), K), fx(Z(oe.first).imag(), K), fx(oe.second * oe.second, K)}); Configuration c(R, C); e.b("saved", c.Load("cfg/end", (size_t) r) && c == m->GetCurrentConfiguration()).raw("cfg", arr(cells(m->GetCurrentConfiguration()))).raw("samples", join(samples)).raw("res", results(*m, path, pn)); }
      else if (op == 'd') { m->DumpData("again/here"); e.raw("res", results(*m, "again/here", pn)); }
      else { m->ReplicaTest([](const Configuration &a, const Configuration &b) { double s = 0; auto x = cells(a), y = cells(b); for (size_t i = 0; i < x.size(); ++i) s += (i + 1) * (x[i] + 50 * y[i]); return s; }); std::ifstream f("replica_overlap/replica_overlap" + std::to_string(r)); Ll v; double x; while (f >> x) v.push_back(fx(x, 1)); e.iv("ov", v).raw("cfg", arr(cells(m->GetCurrentConfiguration()))); }
      e.raw("entry", join(entry)); say(e.o.str() + "}"); } }, {.seed = (uint64_t) seed, .mode = mode});
  fs::current_path(cwd); fs::remove_all(dir); std::vector<std::vector<std::string>> by(n); std::string verdict = q.verdict; if (q.left_over && verdict == "ok") verdict = "left"; for (auto &l : q.log) if (l[0] == '@') { auto sp = l.find(' '); by[std::stoi(l.substr(1, sp - 1))].push_back(l.substr(sp + 1)); } else if (verdict == "ok") verdict = "threw";
  for (size_t k = 0; k < ops.size(); ++k) { bool all = verdict == "ok"; std::vector<std::string> v; for (auto &x : by) { if (k < x.size()) v.push_back(x[k]); else all = false; } Ev e(ops[k] == 'x' ? "run" : ops[k] == 'd' ? "write" : "replica"); e.s("verdict", all ? "ok" : verdict == "ok" ? "short" : verdict); e.raw("rk", all ? join(v) : "[]"); e.out(); if (!all) break; } }
int main() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); std::string l; while (std::getline(std::cin, l)) { if (l.empty()) continue; std::istringstream is(l); int seed; is >> seed; if (l.find('F') != std::string::npos) { char f; is >> f; refuse(is, seed); } else scenario(is, seed); } }
