// Sweeps of the real configuration updaters on small integer states.  KIND & 1: complex tensors, KIND & 2: periodic lattices.
// stdin lines: seed kind rows cols D P flat mode n      mode: chain | pi | kern | visit | same
#include "netlib.h"
#include <map>
#include <mpi.h>
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
using namespace net;
using E = std::conditional_t<KIND & 1, std::complex<double>, double>;
#if KIND & 2
template<class A, class B> using CT = TRGContractor<A, B>;
using W = TPSWaveFunctionComponent<E, QN, NoDress, TRGContractor>;
static auto trunc() { return TRGTruncateParams<double>::SVD(1, 200, 0); }
#else
using W = TPSWaveFunctionComponent<E, QN>;
static auto trunc() { return BMPSTruncateParams<double>::SVD(1, 200, 0); }
#endif
using Cfg = std::vector<int>; using Tab = std::map<Cfg, long long>;
static int R, C, P; static State S; static SplitIndexTPS<E, QN> tps; static std::string kind; static double sc;
static Configuration conf(const Cfg &c) { Configuration x(R, C); for (int i = 0; i < R * C; ++i) x({(size_t) (i / C), (size_t) (i % C)}) = c[i]; return x; }
static Cfg get(const W &w) { Cfg c; for (int i = 0; i < R * C; ++i) c.push_back(w.config({(size_t) (i / C), (size_t) (i % C)})); return c; }
static std::string js(const Cfg &c) { std::string s = "["; for (int x : c) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string js(const Tab &t) { std::string s = "["; for (auto &[c, n] : t) s += (s.size() > 1 ? ",[" : "[") + js(c) + "," + std::to_string(n) + "]"; return s + "]"; }
using Sweep = std::function<void(W &, std::vector<double> &)>;
template<class U> Sweep mkU(unsigned s) { auto u = [&] { if constexpr (std::is_constructible_v<U, unsigned>) return std::make_shared<U>(s); else return std::make_shared<U>(); }(); return [u](W &w, std::vector<double> &a) { (*u)(tps, w, a); }; }
static Sweep upd(unsigned s) {
#if KIND & 2
  return kind == "exp" ? mkU<MCUpdateSquareNNExchangePBC>(s) : mkU<MCUpdateSquareNNFullSpaceUpdatePBC>(s);
#else
  return kind == "ex" ? mkU<MCUpdateSquareNNExchange>(s) : kind == "full" ? mkU<MCUpdateSquareNNFullSpaceUpdate>(s) : kind == "hub" ? mkU<MCUpdateSquareNNHubbardU1U1>(s) : mkU<MCUpdateSquareTNN3SiteExchange>(s);
#endif
}
static bool kept(const Cfg &a, const Cfg &b) { if (kind == "full" || kind == "fullp") return true; std::vector<int> x(8), y(8); if (kind == "hub") { for (int s : a) { x[0] += s < 2; x[1] += s % 2 == 0; } for (int s : b) { y[0] += s < 2; y[1] += s % 2 == 0; } } else { for (int s : a) x[s]++; for (int s : b) y[s]++; } return x == y; }
static long long weight(const Cfg &c) { W w(tps, conf(c), trunc()); return llround(std::norm(std::complex<double>(w.amplitude))); }
static void val(Ev &e, const char *k, std::complex<double> z) { long long a = rnd(z.real(), sc), b = rnd(z.imag(), sc); e.iv(k, {a, b}); }
static void one(std::istringstream &is) { int seed, D, flat, n; std::string mode; is >> seed >> kind >> R >> C >> D >> P >> flat >> mode >> n; std::mt19937 g(seed); int N = R * C; bool table = mode == "pi" || mode == "kern" || mode == "visit"; Cfg c0(N); std::vector<Cfg> sec; Tab wt;
  while (true) { // a state with a usable weight table
    S = mkstate(R, C, (KIND & 2) ? 1 : 0, flat ? 1 : D, true, P, KIND & 1, g, table ? 200 : 1e7, 90, 2);
    if (flat) for (auto &x : S.X) for (size_t k = 0; k < x.size(); k += 2) { x[k] = g() % 2 ? 1 : -1; x[k + 1] = 0; if ((KIND & 1) && g() % 2) { x[k + 1] = x[k]; x[k] = 0; } }
    sc = S.size(); tps = S.tps<E>(); for (int i = 0; i < N; ++i) c0[i] = g() % P; if (kind == "tnn" && P == 5) { for (int i = 0; i < N; ++i) c0[i] = (i % 5); std::shuffle(c0.begin(), c0.end(), g); }
    if (!table) { if (weight(c0) > 0) break; continue; }
    sec.clear(); wt.clear(); Cfg c(N, 0); long long tot = 0, pos = 0, mx = 0; while (true) { if (kept(c0, c)) { long long w = weight(c); if (w) { wt[c] = w; ++pos; } tot += w; mx = std::max(mx, w); sec.push_back(c); } int i = 0; while (i < N && ++c[i] == P) c[i++] = 0; if (i == N) break; }
    if (sec.size() < 3 || sec.size() > 81 || !wt.count(c0) || mx > 40000 || tot > 190000 || pos * 4 < 3 * (long long) sec.size()) continue; // a few zero weights are welcome
    if (mode == "visit") { bool all = pos == (long long) sec.size(); long long mn = mx; for (auto &[k, v] : wt) mn = std::min(mn, v); std::map<long long, int> dif; for (auto &[k, v] : wt) dif[v]++; if (!all || mn * 12 < mx || dif.size() * (KIND & 2 ? 5 : 2) < sec.size()) continue; } break; }
  { Ev e("begin"); S.out(e); e.raw("cfg", js(c0)).s("kind", kind).b("table", table); e.out(); }
  std::vector<double> a; exact = true;
  if (mode == "chain") { W w(tps, conf(c0), trunc()); auto u = upd(seed); int hl = R * (C - 1) + C * (R - 1); if (kind == "tnn") hl = R * (C - 2) + C * (R - 2); if (KIND & 2) hl = 2 * R * C; for (int k = 0; k < n; ++k) { Cfg b = get(w); a.clear(); u(w, a); exact = true; Ev e("sweep"); val(e, "v", w.GetAmplitude()); Cfg af = get(w); if (g() % 2) { W f = w; val(e, "again", f.EvaluateAmplitude()); } else { W f(tps, w.config, trunc()); val(e, "again", f.GetAmplitude()); } double q = a.empty() ? -1 : a[0] * hl; e.raw("after", js(af)).i("nrates", a.size()).i("k", llround(q)).i("tries", hl).b("whole", std::fabs(q - std::round(q)) < 1e-6).b("must", flat && (kind == "full" || (kind == "tnn" && P == 5 && N <= 10))).b("exact", exact); e.out(); } }
  if (mode == "same") { for (int k = 0; k < n; ++k) { W x(tps, conf(c0), trunc()), y(tps, conf(c0), trunc()); auto u = upd(seed + k), v = upd(seed + k); bool same = true; for (int i = 0; i < 3; ++i) { u(x, a); auto b = a; v(y, a); same = same && get(x) == get(y) && x.amplitude == y.amplitude && a == b; } Ev e("same"); e.b("same", same); e.out(); } }
  if (mode == "pi") { long long tot = 0, left = n; for (auto &[c, w] : wt) tot += w; Tab st, cnt; for (auto &[c, w] : wt) { long long k = llround(double(n) * w / tot); st[c] = k; } long long m = 0; for (auto &[c, k] : st) m += k; unsigned s = seed * 7919u; for (auto &[c, k] : st) { if (!k) continue; W base(tps, conf(c), trunc()); for (int i = 0; i < k; ++i) { W w = base; upd(++s)(w, a); cnt[get(w)]++; } } Ev e("pi"); e.i("n", m).i("ask", n).raw("starts", js(st)).raw("cnt", js(cnt)); e.out(); }
  if (mode == "kern") { Tab cnt; unsigned s = seed * 7919u; W base(tps, conf(c0), trunc()); for (int i = 0; i < n; ++i) { W w = base; upd(++s)(w, a); cnt[get(w)]++; } Ev e("kern"); e.i("n", n).raw("from", js(c0)).raw("cnt", js(cnt)); e.out(); }
  if (mode == "visit") { Tab cnt; W w(tps, conf(c0), trunc()); auto u = upd(seed); for (int i = 0; i < n; ++i) { u(w, a); cnt[get(w)]++; } Ev e("visit"); e.i("n", n).raw("cnt", js(cnt)); e.out(); } }
int main() { std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); if (l.empty()) continue; try { one(is); } catch (const std::exception &x) { Ev e("threw"); e.s("what", x.what()); e.out(); } } }
