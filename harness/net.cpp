// Amplitudes, replacement traces and holes from the real contractors on small integer networks.
// stdin lines: seed rows cols bc D uniform P cplx steps scheme
#include "netlib.h"
#include <mpi.h>
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
using namespace net;
template<class E, template<class, class> class CT> struct Run {
  using W = TPSWaveFunctionComponent<E, QN, NoDress, CT>; using T = QLTensor<E, QN>; State S; SplitIndexTPS<E, QN> tps; std::unique_ptr<W> w; std::mt19937 g; double sc = 1; bool full = false; using Rep = std::vector<std::pair<int, int>>;
  int R, C, N, P; int at(int r, int c) { return r * C + c; } int rc() { return g() % P; } bool coin(int k = 2) { return g() % k == 0; } SiteIdx si(int s) { return site(S.q, s); }
  std::string reps(const Rep &r) { std::string s = "["; for (auto &x : r) s += (s.size() > 1 ? ",[" : "[") + std::to_string(x.first + 1) + "," + std::to_string(x.second) + "]"; return s + "]"; }
  void val(Ev &e, std::complex<double> z) { exact = true; long long a = rnd(z.real(), sc), b = rnd(z.imag(), sc); e.iv("v", {a, b}).b("exact", exact); }
  void amp(const char *how, const Rep &r, E v) { Ev e("amp"); e.s("how", how).raw("rep", reps(r)); val(e, v); e.out(); }
  void set(const Rep &r, const char *how) { Ev e("set"); e.s("how", how).raw("rep", reps(r)); val(e, w->GetAmplitude()); std::vector<long long> c; for (int i = 0; i < N; ++i) c.push_back(w->GetConfiguration(si(i))); e.iv("cfg", c); e.out(); }
  void hole(const char *how, int s, const T &t) { Ev e("hole"); exact = true; std::vector<long long> v; auto sh = t.GetShape(); bool shape = sh.size() == 4; for (int k = 0; shape && k < 4; ++k) shape = (int) sh[k] == S.q.d[s][k]; if (shape) for (double x : entries(t)) v.push_back(rnd(x, sc)); e.s("how", how).i("s", s + 1).iv("v", v).b("exact", exact && shape); e.out(); }
  T ten(int s, int k) { return tps(si(s))[k]; }
  Configuration conf() { Configuration c(R, C); for (int i = 0; i < N; ++i) c(si(i)) = rc(); return c; }
  void begin(int seed, int steps, int r, int c, int bc, int D, int uni, int p, bool cplx, typename W::TruncateParams tp, double cap) { g.seed(seed); R = r; C = c; P = p; N = r * c; full = uni == 2; S = full ? fullstate(r, D, p, cplx, g, cap) : mkstate(r, c, bc, D, uni, p, cplx, g, cap); sc = S.size(); tps = S.tps<E>(); Ev e("begin"); S.out(e); auto cf = conf(); std::vector<long long> cv; for (int i = 0; i < N; ++i) cv.push_back(cf(si(i))); e.iv("cfg", cv); e.out(); w = std::make_unique<W>(tps, cf, tp); set({}, "init"); for (int i = 0; i < steps; ++i) step(); }
  void upd(Rep r, E a) { if (r.size() == 1) w->UpdateLocal(tps, a, std::make_pair(si(r[0].first), (size_t) r[0].second)); else if (r.size() == 2) w->UpdateLocal(tps, a, std::make_pair(si(r[0].first), (size_t) r[0].second), std::make_pair(si(r[1].first), (size_t) r[1].second)); else w->UpdateLocal(tps, a, std::make_pair(si(r[0].first), (size_t) r[0].second), std::make_pair(si(r[1].first), (size_t) r[1].second), std::make_pair(si(r[2].first), (size_t) r[2].second)); set(r, "upd"); }
  void nn(int a, int b, BondOrientation o, bool may) { auto &k = w->contractor; Rep r{{a, rc()}, {b, rc()}}; if (coin(3)) amp("trace", {}, k.Trace(w->tn, si(a), o)); E v = k.ReplaceNNSiteTrace(w->tn, si(a), si(b), o, ten(a, r[0].second), ten(b, r[1].second)); amp("nn", r, v); if (may && coin()) upd(r, v); }
  void one(int s, BondOrientation o) { auto &k = w->contractor; Rep r{{s, rc()}}; amp("one", r, k.ReplaceOneSiteTrace(w->tn, si(s), ten(s, r[0].second), o)); if (coin(3)) hole("punch", s, k.PunchHole(w->tn, si(s), o)); }
  void walker() { auto &k = w->contractor; auto &tn = w->tn; k.GenerateBMPSApproach(tn, UP); int start = g() % R; for (int i = 0; i < start; ++i) k.ShiftBMPSWindow(tn, DOWN); auto wk = k.GetWalker(tn, UP); // UP boundary above row `start`
    if (wk.GetPosition() != UP || (int) wk.GetStackSize() != start + 1) { Ev e("amp"); e.s("how", "walker").raw("rep", "[]").iv("v", {0, 0}).b("exact", false); e.out(); }
    k.GenerateBMPSApproach(tn, UP); Rep base; int row = start; while (row < R - 1 && coin()) { if (coin()) wk.EvolveStep(); else { int c = g() % C; Rep r{{at(row, c), rc()}}; T x = ten(r[0].first, r[0].second); auto mpo = tn.get_row(row); auto m2 = mpo; m2[c] = &x; wk.Evolve(m2); base.push_back(r[0]); } ++row; if (wk.GetStackSize() > (size_t) row + 1) break; if (!base.empty()) break; }
    for (; row < R; ++row) { // from here every further row is absorbed explicitly, so the row counter of the walker does not matter
      auto mpo = tn.get_row(row); auto &down = k.GetBMPS(DOWN).at(R - 1 - row);
      amp("crow", base, wk.ContractRow(mpo, down)); { int c = g() % C; Rep r = base; r.push_back({at(row, c), rc()}); T x = ten(r.back().first, r.back().second); auto m2 = mpo; m2[c] = &x; amp("crowm", r, wk.ContractRow(m2, down)); }
      if (coin()) { wk.InitBTenLeft(mpo, down, 0); bool two = coin() && C > 1; wk.InitBTenRight(mpo, down, two ? 1 : 0); for (int c = 0; c + (two ? 1 : 0) < C; ++c) { Rep r = base; r.push_back({at(row, c), rc()}); if (two) { r.push_back({at(row, c + 1), rc()}); T x = ten(r[r.size() - 2].first, r[r.size() - 2].second), y = ten(r.back().first, r.back().second); amp("wtwo", r, wk.TraceWithTwoSiteBTen(x, y, c, mpo, down)); } else { T x = ten(r.back().first, r.back().second); amp("wone", r, wk.TraceWithBTen(x, c, down)); } if (c + (two ? 1 : 0) < C - 1) wk.ShiftBTenWindow(mpo, down, RIGHT); } }
      else { wk.InitBTenLeft(mpo, down, C); wk.InitBTenRight(mpo, down, C - 1); for (int c = C - 1; c >= 0; --c) { Rep r = base; r.push_back({at(row, c), rc()}); T x = ten(r.back().first, r.back().second); amp("wscan", r, wk.TraceWithBTen(x, c, down)); if (c > 0) wk.GrowBTenRightStep(mpo, down); } }
      wk.ClearBTen(); wk.Evolve(mpo); } }
  void holes() { if constexpr (requires { w->contractor.ClearCache(); }) { auto &k = w->contractor; auto &tn = w->tn;  auto h = k.PunchAllHoles(tn); int s = g() % N; if (R < 4 || (full && S.q.d[0][0] == 1)) hole("all", s, h(si(s))); std::complex<double> z = 0; auto a = entries(h(si(s))), b = entries(tn(si(s))); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i += 2) z += std::complex<double>(a[i], a[i + 1]) * std::complex<double>(b[i], b[i + 1]); Ev e("amp"); e.s("how", "hole.t").raw("rep", "[]"); val(e, z); e.out(); } }
  void step() { auto &k = w->contractor; auto &tn = w->tn;
    if constexpr (requires { k.ClearCache(); }) { // coarse-graining contractor
      int n = 1 + g() % 3; Rep r; std::vector<std::pair<SiteIdx, T>> q; std::vector<std::pair<SiteIdx, size_t>> nc; std::vector<int> used; for (int i = 0; i < n; ++i) { int s = g() % N; if (std::count(used.begin(), used.end(), s)) continue; used.push_back(s); r.push_back({s, rc()}); q.push_back({si(s), ten(s, r.back().second)}); nc.push_back({si(s), (size_t) r.back().second}); }
      switch (g() % 6) { case 0: amp("eval", r, k.EvaluateReplacement(q)); break; case 1: { auto t = w->BeginTrial(q, nc); amp("trial", r, t.amplitude); w->RejectTrial(std::move(t)); set({}, "rej"); break; } case 2: case 3: { auto t = w->BeginTrial(q, nc); if (coin()) amp("eval", r, k.EvaluateReplacement(q)); w->AcceptTrial(std::move(t), tps); set(r, "acc"); if (coin()) holes(); break; } case 4: amp("trace", {}, k.Trace(tn)); if (coin()) { k.ClearCache(); amp("trace", {}, k.Trace(tn)); } break;
        case 5: if (coin()) { auto c = conf(); w->ReplaceGlobalConfig(tps, c); all(c); } else holes(); break; } }
    else { switch (g() % 11) {
      case 0: { bool may = coin(); int rem = may ? 2 : 1; k.GenerateBMPSApproach(tn, UP); for (int r = 0; r < R; ++r) { k.InitBTen(tn, LEFT, r); k.GrowFullBTen(tn, RIGHT, r, rem, true); for (int c = 0; c < C; ++c) { if (rem == 1 && coin()) one(at(r, c), HORIZONTAL); if (c + 1 < C) { nn(at(r, c), at(r, c + 1), HORIZONTAL, may); if (rem == 1 ? c + 1 < C : c + 2 < C) k.ShiftBTenWindow(tn, RIGHT); } } if (r + 1 < R) k.ShiftBMPSWindow(tn, DOWN); } break; }
      case 1: { bool may = coin(); int rem = may ? 2 : 1; if (R < 2) break; k.GenerateBMPSApproach(tn, LEFT); for (int c = 0; c < C; ++c) { k.InitBTen(tn, UP, c); k.GrowFullBTen(tn, DOWN, c, rem, true); for (int r = 0; r < R; ++r) { if (rem == 1 && coin()) one(at(r, c), VERTICAL); if (r + 1 < R) { nn(at(r, c), at(r + 1, c), VERTICAL, may); if (rem == 1 ? r + 1 < R : r + 2 < R) k.ShiftBTenWindow(tn, DOWN); } } if (c + 1 < C) k.ShiftBMPSWindow(tn, RIGHT); } break; }
      case 2: { if (R < 2) break; int rem = C > 2 && coin() ? 3 : 2; k.GenerateBMPSApproach(tn, UP); for (int r = 0; r < R; ++r) { if (r + 1 < R) { k.InitBTen2(tn, LEFT, r); k.GrowFullBTen2(tn, RIGHT, r, rem, true); for (int c = 0; c + rem - 1 < C; ++c) { auto d = coin() ? LEFTUP_TO_RIGHTDOWN : LEFTDOWN_TO_RIGHTUP; int e = c + rem - 1; int a = d == LEFTUP_TO_RIGHTDOWN ? at(r, c) : at(r + 1, c), b = d == LEFTUP_TO_RIGHTDOWN ? at(r + 1, e) : at(r, e); Rep q{{a, rc()}, {b, rc()}}; T x = ten(a, q[0].second), y = ten(b, q[1].second); if (rem == 2) amp("nnn", q, k.ReplaceNNNSiteTrace(tn, si(at(r, c)), d, HORIZONTAL, x, y)); else amp("knight", q, k.ReplaceSqrt5DistTwoSiteTrace(tn, si(at(r, c)), d, HORIZONTAL, x, y)); if (c + rem < C) k.ShiftBTen2Window(tn, RIGHT, r); } } if (r + 1 < R) k.ShiftBMPSWindow(tn, DOWN); } break; }
      case 3: { if (R < 2 || C < 2) break; int rem = R > 2 && coin() ? 3 : 2; k.GenerateBMPSApproach(tn, LEFT); for (int c = 0; c < C; ++c) { if (c + 1 < C) { k.InitBTen2(tn, UP, c); k.GrowFullBTen2(tn, DOWN, c, rem, true); for (int r = 0; r + rem - 1 < R; ++r) { auto d = coin() ? LEFTUP_TO_RIGHTDOWN : LEFTDOWN_TO_RIGHTUP; int e = r + rem - 1; int a = d == LEFTUP_TO_RIGHTDOWN ? at(r, c) : at(e, c), b = d == LEFTUP_TO_RIGHTDOWN ? at(e, c + 1) : at(r, c + 1); Rep q{{a, rc()}, {b, rc()}}; T x = ten(a, q[0].second), y = ten(b, q[1].second); if (rem == 2) amp("nnn", q, k.ReplaceNNNSiteTrace(tn, si(at(r, c)), d, VERTICAL, x, y)); else amp("knight", q, k.ReplaceSqrt5DistTwoSiteTrace(tn, si(at(r, c)), d, VERTICAL, x, y)); if (r + rem < R) k.ShiftBTen2Window(tn, DOWN, c); } } if (c + 1 < C) k.ShiftBMPSWindow(tn, RIGHT); } break; }
      case 4: { bool hz = R == 1 || coin(); int L = hz ? C : R; if (L < 3) break; int sl = g() % (hz ? R : C), p = g() % (L - 2); if (hz) k.GrowBMPSForRow(tn, sl); else k.GrowBMPSForCol(tn, sl); k.GrowFullBTen(tn, hz ? LEFT : UP, sl, L - p, true); k.GrowFullBTen(tn, hz ? RIGHT : DOWN, sl, p + 3, true); Rep q; for (int i = 0; i < 3; ++i) q.push_back({hz ? at(sl, p + i) : at(p + i, sl), rc()}); amp("tnn", q, k.ReplaceTNNSiteTrace(tn, si(q[0].first), hz ? HORIZONTAL : VERTICAL, ten(q[0].first, q[0].second), ten(q[1].first, q[1].second), ten(q[2].first, q[2].second))); break; }
      case 5: { bool hz = R == 1 || coin(); int s = g() % N, r = s / C, c = s % C; if (hz) k.GrowBMPSForRow(tn, r); else k.GrowBMPSForCol(tn, c); if (hz) { k.GrowFullBTen(tn, LEFT, r, C - c, true); k.GrowFullBTen(tn, RIGHT, r, c + 1, true); } else { k.GrowFullBTen(tn, UP, c, R - r, true); k.GrowFullBTen(tn, DOWN, c, r + 1, true); } one(s, hz ? HORIZONTAL : VERTICAL); break; }
      case 6: { Rep r; int n = 1 + g() % 3; for (int i = 0; i < n; ++i) { int s = g() % N; bool dup = false; for (auto &x : r) dup = dup || x.first == s; if (!dup) r.push_back({s, rc()}); } E keep = w->amplitude; upd_(r); break; }
      case 7: if (coin(3)) { auto c = conf(); w->ReplaceGlobalConfig(tps, c); all(c); } else { w->EvaluateAmplitude(); set({}, "again"); } break;
      case 8: if (C > 1) walker(); break;
      case 9: case 10: for (int n = 0; n < 3; ++n) { bool hz = R == 1 || coin(); int s = g() % N, r = s / C, c = s % C, t = coin() ? s : g() % N; if (hz) k.GrowBMPSForRow(tn, r); else k.GrowBMPSForCol(tn, c); Rep q{{t, rc()}}; w->UpdateLocal(tps, w->amplitude, std::make_pair(si(t), (size_t) q[0].second)); // boundaries grown before the change
        if (R > 1 && coin()) hz = !hz; s = g() % N; r = s / C; c = s % C; if (hz) k.GrowBMPSForRow(tn, r); else k.GrowBMPSForCol(tn, c); if (hz) { k.GrowFullBTen(tn, LEFT, r, C - c, true); k.GrowFullBTen(tn, RIGHT, r, c + 1, true); } else { k.GrowFullBTen(tn, UP, c, R - r, true); k.GrowFullBTen(tn, DOWN, c, r + 1, true); }
        E v = k.ReplaceOneSiteTrace(tn, si(s), tn(si(s)), hz ? HORIZONTAL : VERTICAL); w->amplitude = v; set(q, "late"); one(s, hz ? HORIZONTAL : VERTICAL); } break; } } }
  void upd_(Rep r) { if constexpr (!requires { w->contractor.ClearCache(); }) { auto f = [&](auto... p) { w->UpdateLocal(tps, E(0), p...); }; auto p = [&](int i) { return std::make_pair(si(r[i].first), (size_t) r[i].second); }; if (r.size() == 1) f(p(0)); else if (r.size() == 2) f(p(0), p(1)); else f(p(0), p(1), p(2)); w->EvaluateAmplitude(); set(r, "upd+eval"); } }
  void all(const Configuration &c) { Rep r; for (int i = 0; i < N; ++i) r.push_back({i, (int) c(si(i))}); set(r, "all"); }
};
// built four times: KIND & 1 = complex, KIND & 2 = periodic lattices (coarse graining)
#ifndef KIND
#define KIND 0
#endif
using Elem = std::conditional_t<KIND & 1, std::complex<double>, double>;
#if KIND & 2
static void go(int seed, int r, int c, int D, int uni, int P, int steps, int scheme) { Run<Elem, TRGContractor> x; x.begin(seed, steps, r, c, 1, D, uni, P, KIND & 1, TRGTruncateParams<double>::SVD(1, 200, 0), 1e7); }
#else
static void go(int seed, int r, int c, int D, int uni, int P, int steps, int scheme) { using TP = BMPSTruncateParams<double>; TP tp = scheme == 0 ? TP::SVD(1, 200, 0) : scheme == 1 ? TP::Variational2Site(1, 200, 0, 1e-14, 20) : TP::Variational1Site(1, 200, 0, 1e-14, 20); Run<Elem, BMPSContractor> x; x.begin(seed, steps, r, c, 0, D, uni, P, KIND & 1, tp, 1e8); }
template<class E> void lin(int, int, int, int) {}
#endif
#if KIND & 2
// generic tensors: the reported environment, contracted with any other tensor, is the amplitude with that tensor put in
template<class E> void lin(int seed, int L, int D, int rounds) { using T = QLTensor<E, QN>; std::mt19937 g(seed); std::normal_distribution<double> nd; auto mk = [&] { T t({ix(D, IN), ix(D, OUT), ix(D, OUT), ix(D, IN)}); t.alloc(); for (auto &x : t.raw()) x = Num<E>::mk(nd(g), nd(g)); return t; };
  SplitIndexTPS<E, QN> s(L, L, (size_t) 1, BC::Periodic); Configuration cf(L, L); for (int i = 0; i < L * L; ++i) { s({(size_t) (i / L), (size_t) (i % L)})[0] = mk(); cf({(size_t) (i / L), (size_t) (i % L)}) = 0; }
  TPSWaveFunctionComponent<E, QN, NoDress, TRGContractor> w(s, cf, TRGTruncateParams<double>::SVD(1, 400, 0)); auto h = w.contractor.PunchAllHoles(w.tn); for (int k = 0; k < 3; ++k) if (g() % 2) { SiteIdx q{g() % L, g() % L}; T x = mk(); auto t = w.contractor.BeginTrialWithReplacement({{q, x}}); w.contractor.CommitTrial(std::move(t)); w.tn(q) = x; h = w.contractor.PunchAllHoles(w.tn); } 
  for (int k = 0; k < rounds; ++k) { SiteIdx q{g() % L, g() % L}; T x = mk(); std::complex<double> v = w.contractor.EvaluateReplacement({{q, x}}), z = 0; auto a = entries(h(q)), b = entries(x); double sc = 1e-300; for (size_t i = 0; i < a.size(); i += 2) { auto t = std::complex<double>(a[i], a[i + 1]) * std::complex<double>(b[i], b[i + 1]); z += t; sc += std::abs(t); } Ev e("lin"); e.iv("h", {llround(z.real() / sc * 1e8), llround(z.imag() / sc * 1e8)}).iv("v", {llround(v.real() / sc * 1e8), llround(v.imag() / sc * 1e8)}).b("exact", std::isfinite(sc) && std::isfinite(std::abs(v)) && std::abs(v) / sc < 10 && std::abs(z) / sc < 10); e.out(); } }
#endif
int main() { std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); int seed, r, c, bc, D, uni, P, cplx, steps, scheme; if (!(is >> seed >> r >> c >> bc >> D >> uni >> P >> cplx >> steps >> scheme)) continue; try { if (scheme == 9) { Ev b("begin"); b.s("what", "lin").i("r", r).i("c", c).i("bc", 1).i("p", 1).raw("d", "[]").raw("X", "[]").raw("cfg", "[]"); b.out(); lin<Elem>(seed, r, D, steps); } else go(seed, r, c, D, uni, P, steps, scheme); } catch (const std::exception &x) { Ev e("threw"); e.s("what", x.what()); e.out(); } } }
