// Simple update: the stopping rule and metrics of the executor (mode M), its sweeps on the state (modes N, X, T) and its gates (mode K).
#define STATES_LIB
#include "states.cpp"
#include "qlpeps/algorithm/simple_update/simple_update_model_all.h"
using Su = SimpleUpdateExecutor<E, QN>;
struct Sweep { double e0, en; bool te; double err; int dmin, dmax; std::vector<std::vector<int>> lam; }; // eighths
// An executor whose sweeps follow a script: energies, truncation errors, bond dimensions and bond weights.
class Scripted : public Su { public: std::vector<Sweep> script; size_t at = 0; int gates = 0; double gate_tau = 0; using Su::Su;
 private: void SetEvolveGate_() override { ++gates; gate_tau = this->update_para.tau; }
  Su::SweepResult SimpleUpdateSweep_() override { const Sweep &s = script.at(at++); size_t k = 0; auto put = [&](DTen &l) { if (k >= s.lam.size()) return; auto &q = s.lam[k++]; DTen t({ix(q.size(), IN), ix(q.size(), OUT)}); t.alloc(); for (size_t i = 0; i < q.size(); ++i) t({i, i}) = q[i] / 8.0; l = t; };
    for (size_t i = 0; i < peps_.lambda_vert.rows(); ++i) for (size_t j = 0; j < peps_.lambda_vert.cols(); ++j) put(peps_.lambda_vert({i, j})); for (size_t i = 0; i < peps_.lambda_horiz.rows(); ++i) for (size_t j = 0; j < peps_.lambda_horiz.cols(); ++j) put(peps_.lambda_horiz({i, j}));
    return {s.e0, s.en, s.te ? std::optional<double>(s.err) : std::nullopt, 0.0, (size_t) s.dmin, (size_t) s.dmax}; } };
static std::string metrics(const std::vector<SimpleUpdateStepMetrics<double>> &v) { std::string o = "["; for (auto &m : v) { if (o.size() > 1) o += ","; char b[200]; std::snprintf(b, sizeof b, "{\"i\":%zu,\"tau\":%lld,\"e0\":%lld,\"en\":%lld,\"te\":%lld,\"ch\":%s}", m.step_index, rnd(m.tau * 8), rnd(m.estimated_e0 * 8), rnd(m.estimated_en * 8), m.trunc_err ? rnd(*m.trunc_err * 8) : -1, m.bond_dim_changed ? "true" : "false"); o += b; } return o + "]"; }
// a line printed for machines: the same values again
static std::vector<SimpleUpdateStepMetrics<double>> printed(const std::string &text, const std::vector<SimpleUpdateStepMetrics<double>> &ref) { std::vector<SimpleUpdateStepMetrics<double>> v; std::istringstream is(text); std::string l; while (std::getline(is, l)) { auto p = l.find("SU_METRIC"); if (p == std::string::npos) continue; SimpleUpdateStepMetrics<double> m{}; m.step_index = 999; std::istringstream f(l.substr(p)); std::string w; while (f >> w) { auto e = w.find('='); if (e == std::string::npos) continue; std::string k = w.substr(0, e), x = w.substr(e + 1); if (k == "step") m.step_index = std::stoul(x); if (k == "tau") m.tau = std::stod(x); if (k == "e0") m.estimated_e0 = std::stod(x); if (k == "en") m.estimated_en = std::stod(x); if (k == "trunc_err" && x != "N/A") m.trunc_err = std::stod(x); } if (v.size() < ref.size()) m.bond_dim_changed = ref[v.size()].bond_dim_changed; v.push_back(m); } return v; }
static void machine(const std::string &ops) { BCN = 0; R = 1 + ri(2); C = 1 + ri(2); P = 2; if (R * C == 1) C = 2; Peps x(ix(P, OUT), R, C, BC::Open); std::vector<std::vector<size_t>> act(R, std::vector<size_t>(C, 0)); x.Initial(act); size_t nl = x.lambda_vert.rows() * x.lambda_vert.cols() + x.lambda_horiz.rows() * x.lambda_horiz.cols(); SimpleUpdatePara para(1, 0.125, 1, 4, 1e-10); Scripted ex(para, x);
  { Ev e("su"); e.i("gates", ex.gates); e.out(); }
  for (char o : ops) { int steps = ri(12); double tau = (1 + ri(4)) / 8.0; ex.update_para.steps = steps;
    if (o == 'r') { ex.ResetStepLenth(tau); Ev e("tau"); e.i("tau", rnd(tau * 8)).i("now", rnd(ex.update_para.tau * 8)).i("gates", ex.gates).i("gtau", rnd(ex.gate_tau * 8)); e.out(); continue; }
    bool adv = o != 'p'; std::vector<long long> cfg; if (adv) { int a = ri(4), b = ri(3), c = ri(3) ? 1 + ri(4) : 0; long long pat = 1 + ri(3), mn = 1 + ri(5); if (o == 'b') { switch (ri(5)) { case 0: a = -1; break; case 1: b = -1; break; case 2: c = -1; break; case 3: pat = 0; break; default: mn = 0; } } cfg = {a, b, c, pat, mn}; ex.update_para.advanced_stop = SimpleUpdatePara::Advanced(steps, 1, 1, 1, 1, a / 8.0, b / 8.0, c / 8.0, pat, mn).advanced_stop; } else ex.update_para.advanced_stop.reset();
    // the sweeps to come: energies and weights that move, rest and return
    ex.script.clear(); ex.at = 0; double E0 = (ri(40) - 20) / 8.0; std::vector<std::vector<int>> lam(nl); for (auto &l : lam) { l.resize(1 + ri(2)); for (auto &q : l) q = 1 + ri(8); } int dmin = 1, dmax = 2; std::string sc = "[";
    for (int k = 0; k < steps; ++k) { int calm = ri(4); if (calm == 0) E0 += (ri(33) - 16) / 8.0; else if (calm == 1) E0 += (ri(5) - 2) / 8.0; if (ri(4) == 0) { auto &l = lam[ri((int) nl)]; if (ri(4) == 0) l.assign(1 + ri(3), 1 + ri(4)); else if (ri(6) == 0) l.assign(l.size(), 0); else l[ri((int) l.size())] += ri(5) - 2; } if (ri(5) == 0) { dmin = 1 + ri(2); dmax = 2 + ri(2); } Sweep s{E0, (ri(40) - 20) / 8.0, ri(3) > 0, ri(8) / 8.0, dmin, dmax, lam}; ex.script.push_back(s);
      if (k) sc += ","; sc += "{\"e0\":" + std::to_string(rnd(s.e0 * 8)) + ",\"en\":" + std::to_string(rnd(s.en * 8)) + ",\"te\":" + std::to_string(s.te ? rnd(s.err * 8) : -1) + ",\"d\":[" + std::to_string(dmin) + "," + std::to_string(dmax) + "],\"lam\":" + lists(lam) + "}"; }
    sc += "]"; std::vector<SimpleUpdateStepMetrics<double>> seen; bool watch = ri(2), emit = ri(2); if (watch) ex.update_para.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { seen.push_back(m); }; else ex.update_para.step_observer.reset(); ex.update_para.emit_machine_readable_metrics = emit;
    std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); std::cout.flags(std::ios_base::fmtflags()); exact = true; std::string res = "ok"; try { ex.Execute(); } catch (const std::invalid_argument &) { res = "invalid"; } catch (const std::exception &) { res = "other"; } std::cout.rdbuf(old);
    std::vector<SimpleUpdateStepMetrics<double>> m; for (auto &q : ex.GetStepMetrics()) m.push_back(q); auto &u = ex.GetLastRunSummary(); Ev e("execute"); e.i("steps", steps).iv("cfg", cfg).raw("script", sc).s("res", res).i("gates", ex.gates).i("gtau", rnd(ex.gate_tau * 8)).i("tau", rnd(ex.update_para.tau * 8)).b("watch", watch).b("emit", emit); if (res == "ok") { e.i("swept", ex.at).b("conv", u.converged && ex.LastRunConverged()).b("conv2", u.converged || ex.LastRunConverged()).i("why", (int) u.stop_reason).i("done", u.executed_steps).i("done2", ex.LastRunExecutedSteps()).b("has", u.final_energy.has_value() && u.final_estimated_e0.has_value() && u.final_estimated_en.has_value()).b("has2", u.final_energy.has_value() || u.final_estimated_e0.has_value() || u.final_estimated_en.has_value()); if (u.final_energy) e.iv("fin", {rnd(*u.final_energy * 8), rnd(u.final_estimated_e0.value_or(-1e3) * 8), rnd(u.final_estimated_en.value_or(-1e3) * 8), rnd(ex.GetEstimatedEnergy() * 8)}); else e.iv("fin", {}); e.raw("m", metrics(m)).raw("seen", metrics(seen)).raw("out", metrics(printed(os.str(), m))); } e.b("exact", exact); e.out(); } }
// ---------- sweeps: diagonal Hamiltonians with entries (integer) ln 2 act on amplitudes by powers of two
static const double LN2 = std::log(2.0);
static std::vector<int> table(int n, int dens) { std::vector<int> t(n, 0); for (auto &x : t) if (ri(100) < dens) x = -1; return t; }
static Ten diag_ham(const std::vector<int> &t, int k) { int n = t.size(); std::vector<std::vector<Z>> m(n, std::vector<Z>(n, 0.0)); for (int i = 0; i < n; ++i) m[i][i] = t[i] * LN2; return ham_ten(m, k); }
static std::vector<long long> L(const std::vector<int> &t) { return {t.begin(), t.end()}; }
static std::string LL(const std::vector<std::vector<int>> &v) { return lists(v); }
static int lowest(const std::vector<std::vector<int>> &tabs) { int s = 0; for (auto &t : tabs) s += t.empty() ? 0 : *std::min_element(t.begin(), t.end()); return s; }
static void sweeps(char mode, int D, const std::string &ops) { bool basis = ri(3) == 0; PState p; Peps x(ix(P, OUT), R, C, (BC) BCN); { Ev e("scenario"); e.out(); } int nh = (BCN ? R * C : R * (C - 1)), nv = (BCN ? R * C : (R - 1) * C), nd = BCN ? 2 * R * C : 2 * (R - 1) * (C - 1);
  if (basis) { std::vector<std::vector<size_t>> act(R, std::vector<size_t>(C)); std::vector<long long> f; for (auto &r : act) for (auto &v : r) { v = ri(P); f.push_back(v); } x.Initial(act); Ev e = begin("product"); e.i("r", R).i("c", C).i("bc", BCN).i("p", P).iv("cfg", f); fin(e, amps(x)); }
  else { int t = 0; do { p = mkpeps(D, nullptr, t > 3, std::max(40, 70 - 3 * t), t > 3 ? 1 : 2); x = topeps(p); ++t; } while (peak(amps(x)) < 0.5 || peak(amps(x)) > 3000); Ev e = begin("peps"); p.s.out(e); e.raw("qw", lists(p.qw)).raw("qn", lists(p.qn)); fin(e, amps(x)); }
  int room = 14; // powers of two available
  int PP = P * P; std::vector<int> nn, nnn, tri; std::vector<std::vector<int>> hh, vv, on; bool uniform = true;
  auto strength = [&]() { int s = 0; if (mode == 'T') s = 2 * (lowest({nn}) * 2 * (R + C) + lowest({tri}) * (R - 1) * (C - 1)); else { s = mode == 'N' && !uniform ? lowest(hh) + lowest(vv) : lowest({nn}) * (nh + nv); if (mode == 'X') s += lowest({nnn}) * nd; s += lowest(on); } return -s; };
  int dens = 60; do { uniform = mode != 'N' || ri(2); nn = table(PP, ri(3) ? dens : 0); nnn = table(PP, dens); tri = table(PP * P, ri(2) ? dens : 0); if (mode == 'X') for (int a = 0; a < P; ++a) for (int b = 0; b < a; ++b) { nn[a * P + b] = nn[b * P + a]; nnn[a * P + b] = nnn[b * P + a]; } /* a bond of unlike ends has no direction there */ hh.clear(); vv.clear(); on.clear(); if (!uniform) { for (int k = 0; k < nh; ++k) hh.push_back(table(PP, dens)); for (int k = 0; k < nv; ++k) vv.push_back(table(PP, dens)); } if (mode != 'T' && ri(2)) { bool same = !uniform || ri(2); auto t = table(P, dens + 10); for (int s = 0; s < R * C; ++s) on.push_back(same ? t : table(P, dens)); } dens = std::max(dens - 2, 3); } while (strength() > room * 3 || strength() == 0);
  SimpleUpdatePara para(1, 1.0, 1, 64, 1e-20); std::unique_ptr<Su> ex; auto mats = [&](const std::vector<std::vector<int>> &v, int r, int c) { TenMatrix<Ten> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m({(size_t) i, (size_t) j}) = diag_ham(v[i * c + j], 2); return m; }; auto ons = [&]() { TenMatrix<Ten> m(R, C); for (int s = 0; s < R * C; ++s) m(at(s)) = diag_ham(on[s], 1); return m; };
  bool same = !on.empty() && std::all_of(on.begin(), on.end(), [&](auto &t) { return t == on[0]; });
  if (mode == 'N') { if (!uniform) { int hc = BCN ? C : C - 1, vr = BCN ? R : R - 1; auto H = mats(hh, R, hc), V = mats(vv, vr, C); ex.reset(on.empty() ? new SquareLatticeNNSimpleUpdateExecutor<E, QN>(para, x, H, V) : new SquareLatticeNNSimpleUpdateExecutor<E, QN>(para, x, H, V, diag_ham(on[0], 1))); } else if (on.empty()) ex.reset(new SquareLatticeNNSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2))); else if (same) ex.reset(new SquareLatticeNNSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2), diag_ham(on[0], 1))); else ex.reset(new SquareLatticeNNSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2), ons())); }
  else if (mode == 'X') { if (on.empty()) ex.reset(new SquareLatticeNNNSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2), diag_ham(nnn, 2))); else if (same) ex.reset(new SquareLatticeNNNSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2), diag_ham(nnn, 2), diag_ham(on[0], 1))); else ex.reset(new SquareLatticeNNNSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2), diag_ham(nnn, 2), ons())); }
  else ex.reset(new TriangleNNModelSquarePEPSSimpleUpdateExecutor<E, QN>(para, x, diag_ham(nn, 2), diag_ham(tri, 3)));
  double f = 1; int slot = 1, tau = 1, used = 0; bool set = false;
  for (char o : ops) { if (o == 't') { tau = 1 + ri(2); if (ri(2)) ex->ResetStepLenth(tau); else ex->update_para.tau = tau; set = true; continue; } int n = 1 + ri(2); if (peak(amps(x)) * std::pow(2, used + n * tau * strength()) > 4e8) { n = 1; tau = 1; ex->update_para.tau = 1; } if (peak(amps(x)) * std::pow(2.0, used + tau * strength()) > 1e9) break; used += n * tau * strength(); ex->update_para.steps = n; ex->Execute(); const Peps &y = ex->GetPEPS(); double e1 = 0; std::vector<long long> e0; Ev e = begin("evolve"); double tot = 0; bool te = true; for (auto &m : ex->GetStepMetrics()) { tot += m.estimated_en * (mode == 'T' ? 2 : 1); e0.push_back(basis ? rnd(m.estimated_e0 / LN2 * 2) : 0); if (m.trunc_err && !(*m.trunc_err < 1e-9)) te = false; if (mode == 'T' && m.trunc_err) te = false; } f *= std::exp(-tot * tau); (void) e1; (void) set;
    e.s("kind", std::string(1, mode)).i("of", slot).i("tau", tau).i("n", n).iv("nn", uniform ? L(nn) : std::vector<long long>{}).raw("hh", LL(hh)).raw("vv", LL(vv)).iv("nnn", L(nnn)).iv("tri", L(tri)).raw("on", LL(on)).b("basis", basis).iv("e0", e0).b("te", te); fin(e, amps(y), f); ++slot; } }
// ---------- the evolution gate: H = -N with N^3 = 0, so 2 exp(-tau H) = 2 + 2 tau N + tau^2 N^2 has integer entries
static void expo(int k) { int n = 1; for (int i = 0; i < k; ++i) n *= P; std::vector<int> grp(n); for (auto &q : grp) q = ri(3); std::vector<std::vector<Z>> m(n, std::vector<Z>(n, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (grp[i] < grp[j] && ri(3) == 0) m[i][j] = Z(small(2), KIND ? ri(3) - 1 : 0); auto neg = m; for (auto &r : neg) for (auto &z : r) z = -z; int tau = 1 + ri(2); Ten h = ham_ten(neg, k), t = TaylorExpMatrix<E, QN>(tau, h); Ev e = begin("exp"); e.i("q", n).i("tau", tau).iv("m", flatm(m)); std::vector<long long> o; bool legs = (int) t.Rank() == 2 * k; for (int i = 0; legs && i < k; ++i) legs = t.GetIndex(i) == h.GetIndex(2 * i) && t.GetIndex(k + i) == h.GetIndex(2 * i + 1); for (auto &z : t.raw()) { Z w(z); o.push_back(rnd(2 * w.real(), 10)); o.push_back(rnd(2 * w.imag(), 10)); } e.iv("g", o).b("legs", legs).b("exact", exact); e.out(); }
int main() { std::cout.rdbuf(nullptr); std::string line; while (std::getline(std::cin, line)) { std::istringstream is(line); unsigned sd; char mode; int D; std::string ops; is >> sd >> mode >> R >> C >> BCN >> D >> P >> ops; g.seed(sd); exact = true; { Ev e("scenario"); e.s("line", line); e.out(); } if (mode == 'M') machine(ops); else if (mode == 'K') { for (char o : ops) expo(o - '0'); } else sweeps(mode, D, ops); } std::fflush(stdout); return 0; }
