// Executes configuration-building commands on the real builder/factory/copy code; dumps every live configuration
// (all fields, as strings) after each command.  Tokens are separated by blanks; "-" ends an argument list.
#include "hc.h"
#include <map>
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlpeps;
using V = std::vector<std::string>;
static std::string D(double x) { char b[64]; std::snprintf(b, 64, "%.12g", x); return b; }
static std::string Bo(bool x) { return x ? "true" : "false"; }
static double d(const std::string &s) { return std::stod(s); }
static size_t u(const std::string &s) { return std::stoull(s); }
static bool bo(const std::string &s) { return s == "true"; }
static std::string J(const V &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? ",\"" : "\"") + v[i] + "\""; return r + "]"; }
static std::unique_ptr<LearningRateScheduler> Sch() { return std::make_unique<PlateauLR>(1.0, 0.5, 1, 0.0); }
static StochasticReconfigurationParams SR(const V &a) {
  StochasticReconfigurationParams p; size_t n = a.size();
  if (n > 0) p.cg_params.max_iter = u(a[0]); if (n > 1) p.cg_params.relative_tolerance = d(a[1]);
  if (n > 2) p.cg_params.absolute_tolerance = d(a[2]); if (n > 3) p.cg_params.residual_recompute_interval = (int) d(a[3]);
  if (n > 4) p.cg_params.orthogonality_threshold = d(a[4]); if (n > 5) p.diag_shift = d(a[5]);
  if (n > 6) p.normalize_update = bo(a[6]); if (n > 7) p.adaptive_diagonal_shift = d(a[7]); return p;
}
static LBFGSParams LB(const V &a) {
  auto sm = [&](const std::string &s) { return s == "wolfe" ? LBFGSStepMode::kStrongWolfe : LBFGSStepMode::kFixed; };
  switch (a.size()) {
    case 0: return LBFGSParams();
    case 1: return LBFGSParams(u(a[0]));
    case 5: return LBFGSParams(u(a[0]), d(a[1]), d(a[2]), u(a[3]), sm(a[4]));
    case 9: return LBFGSParams(u(a[0]), d(a[1]), d(a[2]), u(a[3]), sm(a[4]), d(a[5]), d(a[6]), d(a[7]), d(a[8]));
    case 14: return LBFGSParams(u(a[0]), d(a[1]), d(a[2]), u(a[3]), sm(a[4]), d(a[5]), d(a[6]), d(a[7]), d(a[8]), d(a[9]), bo(a[10]), d(a[11]), bo(a[12]), d(a[13]));
  }
  hc::setup_error("lbfgs arity"); return LBFGSParams();
}
static MinSRSolverMode mm(const std::string &s) { return s == "auto" ? MinSRSolverMode::kAuto : s == "rep" ? MinSRSolverMode::kReplicated : MinSRSolverMode::kDistributed; }
static MinSRParams MS(const V &a) {
  switch (a.size()) {
    case 0: return MinSRParams();
    case 1: return MinSRParams(d(a[0]));
    case 2: return MinSRParams(d(a[0]), d(a[1]));
    case 3: return MinSRParams(d(a[0]), d(a[1]), bo(a[2]));
    default: return MinSRParams(d(a[0]), d(a[1]), bo(a[2]), mm(a[3]));
  }
}
static SpikeRecoveryParams SP(const V &a) {
  SpikeRecoveryParams p; p.enable_auto_recover = bo(a[0]); p.redo_mc_max_retries = u(a[1]); p.factor_err = d(a[2]); p.factor_grad = d(a[3]);
  p.factor_ngrad = d(a[4]); p.sr_min_iters_suspicious = u(a[5]); p.enable_rollback = bo(a[6]); p.ema_window = u(a[7]); p.sigma_k = d(a[8]); p.log_trigger_csv_path = a[9] == "none" ? "" : a[9]; return p;
}
static std::string Dump(const OptimizerParams &p) {
  const auto &b = p.base_params; std::string name; V a; bool getok = false;
  if (p.IsAlgorithm<SGDParams>()) { auto &q = p.GetAlgorithmParams<SGDParams>(); name = "sgd"; a = {D(q.momentum), Bo(q.nesterov), D(q.weight_decay)}; }
  else if (p.IsAlgorithm<AdamParams>()) { auto &q = p.GetAlgorithmParams<AdamParams>(); name = "adam"; a = {D(q.beta1), D(q.beta2), D(q.epsilon), D(q.weight_decay)}; }
  else if (p.IsAlgorithm<StochasticReconfigurationParams>()) { auto &q = p.GetAlgorithmParams<StochasticReconfigurationParams>(); auto &c = q.cg_params; name = "sr";
    a = {D(c.max_iter), D(c.relative_tolerance), D(c.absolute_tolerance), D(c.residual_recompute_interval), D(c.orthogonality_threshold), D(q.diag_shift), Bo(q.normalize_update), D(q.adaptive_diagonal_shift)}; }
  else if (p.IsAlgorithm<LBFGSParams>()) { auto &q = p.GetAlgorithmParams<LBFGSParams>(); name = "lbfgs";
    a = {D(q.history_size), D(q.tolerance_grad), D(q.tolerance_change), D(q.max_eval), q.step_mode == LBFGSStepMode::kStrongWolfe ? "wolfe" : "fixed", D(q.wolfe_c1), D(q.wolfe_c2), D(q.min_step), D(q.max_step), D(q.min_curvature), Bo(q.use_damping), D(q.max_direction_norm), Bo(q.allow_fallback_to_fixed_step), D(q.fallback_fixed_step_scale)}; }
  else if (p.IsAlgorithm<AdaGradParams>()) { auto &q = p.GetAlgorithmParams<AdaGradParams>(); name = "adagrad"; a = {D(q.epsilon), D(q.initial_accumulator_value)}; }
  else if (p.IsAlgorithm<MinSRParams>()) { auto &q = p.GetAlgorithmParams<MinSRParams>(); name = "minsr"; a = {D(q.r_pinv), D(q.a_pinv), Bo(q.soft_cutoff), q.solver_mode == MinSRSolverMode::kAuto ? "auto" : q.solver_mode == MinSRSolverMode::kReplicated ? "rep" : "dist"}; }
  try { if (name == "sgd") (void) p.GetAlgorithmParams<AdamParams>(); else (void) p.GetAlgorithmParams<SGDParams>(); } catch (const std::exception &) { getok = true; }
  long long sr = 0;
  if (b.lr_scheduler) { auto c = b.lr_scheduler->Clone(); sr = std::llround(c->GetLearningRate(0, 0.0) * 1048576.0); }
  const auto &i = b.initial_step_selector; const auto &q = b.periodic_step_selector; const auto &s = p.spike_recovery_params;
  hc::Ev e; e.raw("base", J({D(b.max_iterations), D(b.energy_tolerance), D(b.gradient_tolerance), D(b.plateau_patience), D(b.learning_rate)}))
    .i("sched", sr).raw("clip", J({b.clip_value ? D(*b.clip_value) : "none", b.clip_norm ? D(*b.clip_norm) : "none"}))
    .raw("isel", J({Bo(i.enabled), D(i.max_line_search_steps), Bo(i.enable_in_deterministic)}))
    .raw("psel", J({Bo(q.enabled), D(q.every_n_steps), D(q.phase_switch_ratio), Bo(q.enable_in_deterministic)}))
    .s("jsonl", b.jsonl_log_path).s("algo", name).raw("args", J(a)).b("wrongget", getok).b("first", p.IsFirstOrder())
    .raw("ckpt", J({D(p.checkpoint_params.every_n_steps), p.checkpoint_params.base_path})).b("ckpton", p.checkpoint_params.IsEnabled())
    .raw("spike", J({Bo(s.enable_auto_recover), D(s.redo_mc_max_retries), D(s.factor_err), D(s.factor_grad), D(s.factor_ngrad), D(s.sr_min_iters_suspicious), Bo(s.enable_rollback), D(s.ema_window), D(s.sigma_k), s.log_trigger_csv_path.empty() ? "none" : s.log_trigger_csv_path}));
  return e.o.str() + "}";
}
int main() {
  std::map<int, OptimizerParams> C; std::unique_ptr<OptimizerParamsBuilder> B; std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c; is >> c; V a; std::string t; while (is >> t) a.push_back(t);
    bool threw = false, same = true;
    hc::Ev e(c.c_str()); e.raw("a", J(a));
    try {
      if (c == "begin") { C.clear(); B = std::make_unique<OptimizerParamsBuilder>(); }
      else if (c == "maxit") same = &B->SetMaxIterations(u(a[0])) == B.get();
      else if (c == "etol") same = &B->SetEnergyTolerance(d(a[0])) == B.get();
      else if (c == "lr") same = &B->SetLearningRate(d(a[0])) == B.get();
      else if (c == "lrs") same = &B->SetLearningRate(d(a[0]), Sch()) == B.get();
      else if (c == "pat") same = &B->SetPlateauPatience(u(a[0])) == B.get();
      else if (c == "clipv") same = &B->SetClipValue(d(a[0])) == B.get();
      else if (c == "clipn") same = &B->SetClipNorm(d(a[0])) == B.get();
      else if (c == "psel") { if (a.size() == 1) B->SetPeriodicStepSelector(bo(a[0])); else B->SetPeriodicStepSelector(bo(a[0]), u(a[1]), d(a[2]), bo(a[3])); }
      else if (c == "isel") { if (a.size() == 1) B->SetInitialStepSelector(bo(a[0])); else B->SetInitialStepSelector(bo(a[0]), u(a[1]), bo(a[2])); }
      else if (c == "ckpt") B->SetCheckpoint(u(a[0]), a[1] == "none" ? "" : a[1]);
      else if (c == "spike") B->SetSpikeRecovery(SP(a));
      else if (c == "nospike") B->DisableSpikeRecovery();
      else if (c == "sgd") { if (a.size() == 0) B->WithSGD(); else if (a.size() == 1) B->WithSGD(d(a[0])); else B->WithSGD(d(a[0]), bo(a[1])); }
      else if (c == "adam") { if (a.size() == 0) B->WithAdam(); else if (a.size() == 2) B->WithAdam(d(a[0]), d(a[1])); else B->WithAdam(d(a[0]), d(a[1]), d(a[2]), d(a[3])); }
      else if (c == "adagrad") { if (a.size() == 0) B->WithAdaGrad(); else if (a.size() == 1) B->WithAdaGrad(d(a[0])); else B->WithAdaGrad(d(a[0]), d(a[1])); }
      else if (c == "sr") B->WithStochasticReconfiguration(SR(a));
      else if (c == "lbfgs") B->WithLBFGS(LB(a));
      else if (c == "minsr") { if (a.size() == 0) B->WithMinSR(); else B->WithMinSR(MS(a)); }
      else if (c == "build") { OptimizerParams p = B->Build(); C.erase(std::stoi(a[0])); C.emplace(std::stoi(a[0]), p); }
      else if (c == "copyb") { B = std::make_unique<OptimizerParamsBuilder>(*B); }
      else if (c == "copy") { OptimizerParams p(C.at(std::stoi(a[0]))); int k = std::stoi(a[1]); C.erase(k); C.emplace(k, p); }
      else if (c == "assign") { C.at(std::stoi(a[1])) = C.at(std::stoi(a[0])); }
      else if (c == "assignbase") { C.at(std::stoi(a[1])).base_params = C.at(std::stoi(a[0])).base_params; }
      else if (c == "ctor4") { auto &f = C.at(std::stoi(a[0])); OptimizerParams p(f.base_params, f.algorithm_params, f.checkpoint_params, f.spike_recovery_params); int k = std::stoi(a[1]); C.erase(k); C.emplace(k, p); }
      else if (c == "ctor2") { auto &f = C.at(std::stoi(a[0])); OptimizerParams p(f.base_params, f.algorithm_params); int k = std::stoi(a[1]); C.erase(k); C.emplace(k, p); }
      else if (c == "move") { int f = std::stoi(a[0]), k = std::stoi(a[1]); OptimizerParams p(std::move(C.at(f))); C.erase(f); C.erase(k); C.emplace(k, std::move(p)); }
      else if (c == "pump") { auto &p = C.at(std::stoi(a[0])); if (p.base_params.lr_scheduler) p.base_params.lr_scheduler->GetLearningRate(0, 0.0); }
      else if (c == "mut") { auto &p = C.at(std::stoi(a[0])); p.base_params.max_iterations = 777; p.base_params.clip_value = 0.125; p.base_params.jsonl_log_path = "mutlog"; p.checkpoint_params.base_path = "mutpath"; p.spike_recovery_params.sigma_k = 3.5; p.base_params.periodic_step_selector.every_n_steps = 99; p.base_params.initial_step_selector.max_line_search_steps = 98; p.base_params.clip_norm = 0.25; }
      else if (c == "del") C.erase(std::stoi(a[0]));
      else if (c == "fac") {
        int k = std::stoi(a[0]); const std::string &f = a[1]; V x(a.begin() + 2, a.end()); std::unique_ptr<OptimizerParams> p; size_t n = x.size();
        auto set = [&](OptimizerParams q) { p = std::make_unique<OptimizerParams>(q); };
        using F = OptimizerFactory;
        if (f == "sr") { StochasticReconfigurationParams s = SR({"55", "0.01"}); if (n == 1) set(F::CreateStochasticReconfiguration(u(x[0]), s)); else set(F::CreateStochasticReconfiguration(u(x[0]), s, d(x[1]))); }
        else if (f == "sra") { StochasticReconfigurationParams s = SR({"55", "0.01"}); if (n == 4) set(F::CreateStochasticReconfigurationAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), s)); else set(F::CreateStochasticReconfigurationAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), s, d(x[4]), Sch())); }
        else if (f == "adam") { if (n == 1) set(F::CreateAdam(u(x[0]))); else set(F::CreateAdam(u(x[0]), d(x[1]), d(x[2]), d(x[3]))); }
        else if (f == "adama") { if (n == 4) set(F::CreateAdamAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]))); else set(F::CreateAdamAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), d(x[4]), d(x[5]), d(x[6]), Sch())); }
        else if (f == "adagrad") { if (n == 1) set(F::CreateAdaGrad(u(x[0]))); else set(F::CreateAdaGrad(u(x[0]), d(x[1]), d(x[2]), d(x[3]))); }
        else if (f == "adagrada") { if (n == 4) set(F::CreateAdaGradAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]))); else set(F::CreateAdaGradAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), d(x[4]), d(x[5]), d(x[6]))); }
        else if (f == "lbfgs") { if (n == 1) set(F::CreateLBFGS(u(x[0]))); else set(F::CreateLBFGS(u(x[0]), d(x[1]), u(x[2]))); }
        else if (f == "lbfgsa") { if (n == 4) set(F::CreateLBFGSAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]))); else set(F::CreateLBFGSAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), d(x[4]), u(x[5]), Sch())); }
        else if (f == "lbfgse") { LBFGSParams l = LB({"7", "0.5", "0.25", "9", "wolfe"}); if (n == 5) set(F::CreateLBFGSAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), d(x[4]), l)); else set(F::CreateLBFGSAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), d(x[4]), l, Sch())); }
        else if (f == "decay") { if (n == 1) set(F::CreateSGDWithDecay(u(x[0]))); else set(F::CreateSGDWithDecay(u(x[0]), d(x[1]), d(x[2]), u(x[3]))); }
        else if (f == "decaya") { if (n == 4) set(F::CreateSGDWithDecayAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]))); else set(F::CreateSGDWithDecayAdvanced(u(x[0]), d(x[1]), d(x[2]), u(x[3]), d(x[4]), d(x[5]), u(x[6]))); }
        else hc::setup_error("factory " + f);
        if (f.rfind("decay", 0) == 0) { // project the exponential schedule: rate asked 0, 1 x and 2 x the period later
          auto &s = p->base_params.lr_scheduler; size_t per = n == 1 || n == 4 && f == "decaya" ? 100 : u(x[f == "decay" ? 3 : 6]);
          e.b("hasdecay", (bool) s).fxv("decay", s ? std::vector<double>{s->GetLearningRate(0, 0), s->GetLearningRate(per, 0), s->GetLearningRate(2 * per, 0)} : std::vector<double>{}, 1e6);
          p->base_params.lr_scheduler = nullptr;
        }
        C.erase(k); C.emplace(k, *p);
      } else hc::setup_error("cmd " + c);
    } catch (const std::invalid_argument &) { threw = true; }
    e.b("threw", threw).b("same", same);
    std::string all = "["; bool f = true; for (auto &kv : C) { all += (f ? "" : ",") + std::string("{\"id\":") + std::to_string(kv.first) + ",\"c\":" + Dump(kv.second) + "}"; f = false; }
    e.raw("all", all + "]").out();
  }
}
