// Local energies, environments and observables of the real model solvers on small integer states.  KIND & 1: complex, KIND & 2: periodic.
// stdin lines: seed model rows cols D ops p1 p2 p3 p4 p5
// ops: e energy, h energy and environments, o observables, s observables with structure factor, a amplitude, m exchange two sites, n new component
#include "netlib.h"
#include <map>
#include <mpi.h>
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/build_in_model_solvers_all.h"
using namespace net;
using E = std::conditional_t<KIND & 1, std::complex<double>, double>; using Z = std::complex<double>;
#if KIND & 2
using W = TPSWaveFunctionComponent<E, QN, NoDress, TRGContractor>;
static auto trunc() { return TRGTruncateParams<double>::SVD(1, 200, 0); }
#else
using W = TPSWaveFunctionComponent<E, QN>;
static auto trunc() { return BMPSTruncateParams<double>::SVD(1, 200, 0); }
#endif
using Tn = TensorNetwork2D<E, QN>; using Obs = ObservableMap<E>;
static int R, C, P; static State S; static SplitIndexTPS<E, QN> tps; static double sc; static std::vector<int> cfg; static std::vector<double> p; static std::unique_ptr<W> w;
static SiteIdx si(int i) { return {(size_t) (i / C), (size_t) (i % C)}; }
static Configuration conf() { Configuration x(R, C); for (int i = 0; i < R * C; ++i) x(si(i)) = cfg[i]; return x; }
static std::string js(const std::vector<int> &c) { std::string s = "["; for (int x : c) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static Z psi; // reference amplitude: of a component made for the purpose
static void fresh() { W f(tps, conf(), trunc()); psi = Z(f.amplitude); }
static void put(std::vector<long long> &v, Z z, double s = 4) { Z q = s * std::conj(z) * psi; v.push_back(rnd(q.real(), 100 * sc)); v.push_back(rnd(q.imag(), 100 * sc)); }
static std::string arr(const std::vector<long long> &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static void same(Ev &e) { std::vector<int> c; for (int i = 0; i < R * C; ++i) c.push_back(w->config(si(i))); bool tn = true; for (int i = 0; i < R * C; ++i) tn = tn && entries(w->tn(si(i))) == entries(tps(si(i))[cfg[i]]); e.raw("cfg", js(c)).b("tn", tn); Z a(w->GetAmplitude()); e.iv("amp", {rnd(a.real(), sc), rnd(a.imag(), sc)}); }
static void obs(const Obs &o, const std::vector<ObservableMeta> &d, const char *op, Z mean, double err) { Ev e(op); std::string s = "{", cr = "["; for (auto &[k, v] : std::map<std::string, std::vector<E>>(o.begin(), o.end())) { if (k == "SpSm_cross") { for (size_t i = 0; i + 4 < v.size(); i += 5) { cr += (cr.size() > 1 ? ",[" : "["); for (int j = 0; j < 4; ++j) cr += std::to_string(llround(Z(v[i + j]).real())) + ","; cr += std::to_string(rnd(Z(v[i + 4]).real(), sc)) + "," + std::to_string(rnd(Z(v[i + 4]).imag(), sc)) + "]"; } continue; } std::vector<long long> x; for (auto &z : v) put(x, Z(z)); s += (s.size() > 1 ? ",\"" : "\"") + k + "\":" + arr(x); }
  std::string m = "{"; for (auto &q : d) { if (q.key == "SpSm_cross") continue; size_t n = 1; for (auto k : q.shape) n *= k; m += (m.size() > 1 ? ",\"" : "\"") + q.key + "\":" + std::to_string(n); }
  e.raw("obs", s + "}").raw("meta", m + "}").raw("cross", cr + "]").iv("mean", {rnd(mean.real(), sc), rnd(mean.imag(), sc)}).b("close", err < 1e-8); same(e); e.b("exact", exact); e.out(); }
// a solver with the full interface
template<class M> void solver(M m, const std::string &ops, std::mt19937 &g) { for (char c : ops) { exact = true;
    if (c == 'e' || c == 'h') { E v; Tn h(R, C); if (c == 'h') v = m.template CalEnergyAndHoles<E, QN, true>(&tps, w.get(), h); else v = m.template CalEnergy<E, QN>(&tps, w.get()); Ev e("energy"); std::vector<long long> x; put(x, Z(v)); e.iv("v", x); auto q = m.template GetLastPsiConsistencySummary<E>(); Z mean(q.psi_mean); e.iv("mean", {rnd(mean.real(), sc), rnd(mean.imag(), sc)}).b("close", q.psi_rel_err < 1e-8);
      std::string hs = "["; if (c == 'h') for (int i = 0; i < R * C; ++i) { std::vector<long long> y; for (double t : entries(h(si(i)))) y.push_back(rnd(t, sc)); if (y.size() == 2 * S.entries(i)) for (size_t k = 1; k < y.size(); k += 2) y[k] = -y[k]; hs += (hs.size() > 1 ? "," : "") + arr(y); } e.raw("holes", hs + "]"); same(e); e.b("exact", exact); e.out(); }
    else if (c == 'o' || c == 's') { if constexpr (requires { m.SetEnableStructureFactor(true); }) m.SetEnableStructureFactor(c == 's'); auto o = m.template EvaluateObservables<E, QN>(&tps, w.get()); auto d = m.DescribeObservables(R, C); Z mean = psi; double err = 0; if constexpr (!std::is_same_v<M, SpinOneHalfTriJ1J2HeisenbergSqrPEPS> && !std::is_same_v<M, TransverseFieldIsingSquareOBC>) { auto q = m.template EvaluatePsiSummary<E, QN>(&tps, w.get()); mean = Z(q.psi_mean); err = q.psi_rel_err; } obs(o, d, c == 's' && requires { m.SetEnableStructureFactor(true); } ? "sf" : "obs", mean, err); }
    else if (c == 'a') { Ev e("amp"); Z a(w->EvaluateAmplitude()); e.iv("v", {rnd(a.real(), sc), rnd(a.imag(), sc)}); same(e); e.b("exact", exact); e.out(); }
    else { for (int k = 0; k < 100; ++k) { int a = g() % (R * C), b = g() % (R * C); auto old = cfg; if (c == 'n' || g() % 2) cfg[a] = g() % P; else std::swap(cfg[a], cfg[b]); if (cfg == old) continue; fresh(); if (std::abs(psi) < 0.5) { cfg = old; fresh(); continue; }
        if (c == 'n') w = std::make_unique<W>(tps, conf(), trunc()); else {
#if KIND & 2
          std::vector<std::pair<SiteIdx, size_t>> nc{{si(a), (size_t) cfg[a]}}; std::vector<std::pair<SiteIdx, QLTensor<E, QN>>> rp{{si(a), tps(si(a))[cfg[a]]}}; if (old[b] != cfg[b]) { nc.push_back({si(b), (size_t) cfg[b]}); rp.push_back({si(b), tps(si(b))[cfg[b]]}); } auto t = w->BeginTrial(rp, nc); w->AcceptTrial(std::move(t), tps);
#else
          E am; if constexpr (KIND & 1) am = psi; else am = psi.real(); if (old[b] != cfg[b]) w->UpdateLocal(tps, am, std::make_pair(si(a), (size_t) cfg[a]), std::make_pair(si(b), (size_t) cfg[b])); else w->UpdateLocal(tps, am, std::make_pair(si(a), (size_t) cfg[a]));
#endif
        } break; } Ev e("move"); same(e); e.b("exact", exact); e.out(); } } }
#if !(KIND & 2)
// formulas of the fermionic models, on states all of whose parities are even (no sign), bond by bond
template<class M> void ferm(M m, const std::string &ops, bool nnn, const JastrowFactor *jf, const std::vector<std::vector<int>> &jv) { for (char c : ops) { (void) c; exact = true; Obs o; auto &ct = w->contractor; auto &cf = w->config; std::vector<E> h(R * (C - 1)), v((R - 1) * C), dr((R - 1) * (C - 1)), ur((R - 1) * (C - 1)), psis; E tot(0); std::unique_ptr<JastrowDress> jd; if (jf) { jd = std::make_unique<JastrowDress>(*jf); jd->density_config = cf; for (int i = 0; i < R * C; ++i) jd->density_config(si(i)) = cfg[i] != 2; }
    bool okpsi = true; auto chk = [&](const std::optional<E> &q) { if (q && std::abs(Z(*q) - psi) > 1e-6 * (1 + sc)) okpsi = false; };
    auto bf = [&](const SiteIdx a, const SiteIdx b, const BondOrientation ori, const E) { std::optional<E> q; E x; if constexpr (requires { m.EvaluateBondEnergy(a, b, 0, 0, ori, w->tn, ct, tps(a), tps(b), q, *jd); }) { if (jd) x = m.EvaluateBondEnergy(a, b, cf(a), cf(b), ori, w->tn, ct, tps(a), tps(b), q, *jd); else x = m.EvaluateBondEnergy(a, b, cf(a), cf(b), ori, w->tn, ct, tps(a), tps(b), q); } else x = m.EvaluateBondEnergy(a, b, cf(a), cf(b), ori, w->tn, ct, tps(a), tps(b), q); chk(q); tot += x; if (ori == HORIZONTAL) h[a.row() * (C - 1) + a.col()] = x; else v[a.row() * C + a.col()] = x; };
    auto nf = [&](const SiteIdx a, const SiteIdx b, const DIAGONAL_DIR dir, const E, std::optional<E> &q) { if constexpr (requires { m.EvaluateNNNEnergy(a, b, 0, 0, dir, w->tn, ct, tps(a), tps(b), q); }) { E x; if constexpr (requires { m.EvaluateNNNEnergy(a, b, 0, 0, dir, w->tn, ct, tps(a), tps(b), q, *jd); }) { if (jd) x = m.EvaluateNNNEnergy(a, b, cf(a), cf(b), dir, w->tn, ct, tps(a), tps(b), q, *jd); else x = m.EvaluateNNNEnergy(a, b, cf(a), cf(b), dir, w->tn, ct, tps(a), tps(b), q); } else x = m.EvaluateNNNEnergy(a, b, cf(a), cf(b), dir, w->tn, ct, tps(a), tps(b), q); chk(q); tot += x; if (dir == LEFTUP_TO_RIGHTDOWN) dr[a.row() * (C - 1) + a.col()] = x; else ur[(a.row() - 1) * (C - 1) + a.col()] = x; } };
    if (nnn) BondTraversalMixin::TraverseAllBonds(w->tn, ct, bf, nf, nullptr, psis); else BondTraversalMixin::TraverseAllBonds(w->tn, ct, bf, nullptr, nullptr, psis);
    for (auto &q : psis) chk(q); tot += m.EvaluateTotalOnsiteEnergy(cf); o["energy"] = {tot}; o["bond_energy_h"] = h; o["bond_energy_v"] = v; if (nnn) { o["bond_energy_dr"] = dr; o["bond_energy_ur"] = ur; }
    std::vector<E> ch, sz; for (int i = 0; i < R * C; ++i) { if constexpr (M::requires_density_measurement) ch.push_back(m.CalDensityImpl(cfg[i])); if constexpr (M::requires_spin_sz_measurement) sz.push_back(m.CalSpinSzImpl(cfg[i])); } if (ch.size()) o["charge"] = ch; if (sz.size()) o["spin_z"] = sz;
    Ev e("ferm"); std::string s = "{"; for (auto &[k, x] : std::map<std::string, std::vector<E>>(o.begin(), o.end())) { std::vector<long long> y; for (auto &z : x) put(y, Z(z), jf ? 256 : 4); s += (s.size() > 1 ? ",\"" : "\"") + k + "\":" + arr(y); } e.raw("obs", s + "}").b("psi", okpsi).i("npsi", psis.size()); std::string j = "["; for (auto &x : jv) j += (j.size() > 1 ? "," : "") + js(x); e.raw("jas", j + "]"); same(e); e.b("exact", exact); e.out(); } }
#endif
static void one(std::istringstream &is) { int seed, D; std::string model, ops; is >> seed >> model >> R >> C >> D >> ops; p.assign(5, 0); for (auto &x : p) is >> x; std::mt19937 g(seed); P = model == "hub" ? 4 : model[0] == 't' && model[1] == 'J' ? 3 : 2; int N = R * C; cfg.assign(N, 0);
  for (int k = 0;; ++k) { if ((KIND & 2) && R >= 4) S = fullstate(R, D, P, KIND & 1, g, 1e6); else S = mkstate(R, C, (KIND & 2) ? 1 : 0, D, false, P, KIND & 1, g, model == "tJj" ? 2e4 : 5e5, 90, 2); sc = S.size(); tps = S.tps<E>(); for (int i = 0; i < N; ++i) cfg[i] = g() % P; fresh(); if (std::abs(psi) > 0.5) break; }
  w = std::make_unique<W>(tps, conf(), trunc()); { Ev e("begin"); S.out(e); e.s("model", model); std::string s = "["; for (double x : p) s += (s.size() > 1 ? "," : "") + std::to_string((long long) x); e.raw("par", s + "]").raw("cfg", js(cfg)); e.out(); }
#if KIND & 2
  if (model == "xxz") { solver(HeisenbergSquarePBC(p[0], p[1]), ops, g); } else if (model == "j1j2") solver(SquareSpinOneHalfJ1J2XXZModelPBC(p[0], p[1], p[2], p[3], p[4]), ops, g); else if (model == "tfim") solver(TransverseFieldIsingSquarePBC(p[0]), ops, g);
#else
  if (model == "xxz") solver(SquareSpinOneHalfXXZModelOBC(p[0], p[1], p[4]), ops, g); else if (model == "j1j2") solver(SquareSpinOneHalfJ1J2XXZModelOBC(p[0], p[1], p[2], p[3], p[4]), ops, g); else if (model == "tfim") solver(TransverseFieldIsingSquareOBC(p[0]), ops, g); else if (model == "tri") solver(SpinOneHalfTriHeisenbergSqrPEPS(), ops, g); else if (model == "trij2") solver(SpinOneHalfTriJ1J2HeisenbergSqrPEPS(p[0]), ops, g);
  else if (model == "sf") ferm(SquareSpinlessFermion(p[0], p[1], p[2]), "f", true, nullptr, {}); else if (model == "hub") ferm(SquareHubbardModel(p[0], p[1], p[2]), "f", false, nullptr, {}); else if (model == "tJ") ferm(SquaretJVModel(p[0], p[1], p[2], p[3], p[4]), "f", true, nullptr, {}); else if (model == "tJn") ferm(SquaretJNNModel(p[0], p[2], p[4]), "f", false, nullptr, {});
  else if (model == "tJj") { std::vector<std::vector<int>> v(N, std::vector<int>(N, 0)); JastrowFactor jf(R, C); for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) v[i][j] = v[j][i] = (int) (g() % 3) - 1;
    auto field = [&](int i) { int f = 0; for (int k = 0; k < N; ++k) f += v[i][k] * (cfg[k] != 2); return f; }; // quotients of Jastrow factors stay within 2^-6 .. 2^6
    for (bool more = true; more;) { more = false; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (cfg[i] == 2 && cfg[j] != 2 && std::abs(field(i) - field(j) - v[i][j]) > 6) { int k = g() % N; v[i][k] = v[k][i] = 0; more = true; } }
    for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) jf.Set(i, j, v[i][j] * std::log(2.0)); ferm(SquaretJVModel(p[0], p[1], p[2], p[3], p[4]), "f", true, &jf, v); }
#endif
}
int main() { std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); if (l.empty()) continue; try { one(is); } catch (const std::exception &x) { Ev e("threw"); e.s("what", x.what()); e.out(); } } }
