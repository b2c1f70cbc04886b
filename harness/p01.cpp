// stdin: "new <id> <kind> args..." | "q <id> <it> [energy]" | "clone <from> <to>" | "step <id>" | "end"
#include "hc.h"
#include <cmath>
#include <map>
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;
int main() {
  std::map<int, std::unique_ptr<LearningRateScheduler>> obj, lo, hi; // lo, hi: the same schedule with rates in other units
  const double A = std::ldexp(1, -40), B = std::ldexp(1, 60); auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * std::fabs(y); };
  std::string line;
  const double S = 1e6;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c; is >> c;
    if (c == "begin") { obj.clear(); lo.clear(); hi.clear(); hc::Ev("begin").out(); continue; }
    if (c == "new") {
      int id; std::string k; is >> id >> k; hc::Ev e("new"); e.i("id", id).s("kind", k);
      if (k == "const") { double a; is >> a; obj[id] = std::make_unique<ConstantLR>(a); lo[id] = std::make_unique<ConstantLR>(a * A); hi[id] = std::make_unique<ConstantLR>(a * B); e.fx("a", a, S); }
      else if (k == "exp") { double a, r; size_t n; is >> a >> r >> n; obj[id] = std::make_unique<ExponentialDecayLR>(a, r, n); lo[id] = std::make_unique<ExponentialDecayLR>(a * A, r, n); hi[id] = std::make_unique<ExponentialDecayLR>(a * B, r, n); e.fx("a", a, S).fx("r", r, S).i("n", n); }
      else if (k == "step") { double a, r; size_t n; is >> a >> r >> n; obj[id] = std::make_unique<StepLR>(a, n, r); lo[id] = std::make_unique<StepLR>(a * A, n, r); hi[id] = std::make_unique<StepLR>(a * B, n, r); e.fx("a", a, S).fx("r", r, S).i("n", n); }
      else if (k == "stepdef") { double a; size_t n; is >> a >> n; obj[id] = std::make_unique<StepLR>(a, n); lo[id] = std::make_unique<StepLR>(a * A, n); hi[id] = std::make_unique<StepLR>(a * B, n); e.fx("a", a, S).i("n", n); }
      else if (k == "cos") { double a, b; size_t n; is >> a >> b >> n; obj[id] = std::make_unique<CosineAnnealingLR>(a, n, b); lo[id] = std::make_unique<CosineAnnealingLR>(a * A, n, b * A); hi[id] = std::make_unique<CosineAnnealingLR>(a * B, n, b * B); e.fx("a", a, S).fx("b", b, S).i("n", n); }
      else if (k == "cosdef") { double a; size_t n; is >> a >> n; obj[id] = std::make_unique<CosineAnnealingLR>(a, n); lo[id] = std::make_unique<CosineAnnealingLR>(a * A, n); hi[id] = std::make_unique<CosineAnnealingLR>(a * B, n); e.fx("a", a, S).i("n", n); }
      else if (k == "warm") { double a, b; size_t n; is >> a >> b >> n; obj[id] = std::make_unique<WarmupLR>(a, n, b); lo[id] = std::make_unique<WarmupLR>(a * A, n, b * A); hi[id] = std::make_unique<WarmupLR>(a * B, n, b * B); e.fx("a", a, S).fx("b", b, S).i("n", n); }
      else if (k == "warmdef") { double a; size_t n; is >> a >> n; obj[id] = std::make_unique<WarmupLR>(a, n); lo[id] = std::make_unique<WarmupLR>(a * A, n); hi[id] = std::make_unique<WarmupLR>(a * B, n); e.fx("a", a, S).i("n", n); }
      else if (k == "multi") { double a, r; is >> a >> r; std::vector<size_t> m; size_t x; while (is >> x) m.push_back(x);
        obj[id] = std::make_unique<MultiStepLR>(a, m, r); lo[id] = std::make_unique<MultiStepLR>(a * A, m, r); hi[id] = std::make_unique<MultiStepLR>(a * B, m, r); e.fx("a", a, S).fx("r", r, S);
        std::vector<long long> v(m.begin(), m.end()); e.iv("m", v); }
      else hc::setup_error("kind " + k);
      e.out();
    } else if (c == "q") {
      int id; std::string its; double en = 0; is >> id >> its; if (!(is >> en)) en = 0;
      size_t it = std::stoull(its);
      double v = obj.at(id)->GetLearningRate(it, en), va = lo.at(id)->GetLearningRate(it, en), vb = hi.at(id)->GetLearningRate(it, en);
      hc::Ev e("q"); e.i("id", id).b("huge", it > 2147483647ull).i("it", it > 2147483647ull ? 0 : (long long) it).fx("v", v, S).b("units", near(va, v * A) && near(vb, v * B)).out();
    } else if (c == "clone") {
      int a, b; is >> a >> b; obj[b] = obj.at(a)->Clone(); lo[b] = lo.at(a)->Clone(); hi[b] = hi.at(a)->Clone(); hc::Ev("clone").i("id", a).i("to", b).out();
    } else if (c == "step") {
      int a; is >> a; obj.at(a)->Step(); lo.at(a)->Step(); hi.at(a)->Step(); hc::Ev("step").i("id", a).out();
    } else if (c == "del") {
      int a; is >> a; obj.erase(a); lo.erase(a); hi.erase(a); hc::Ev("del").i("id", a).out();
    }
  }
}
