// begin w exact(0/1) viaParams(0/1) | u num den | reset | copy
#include "hc.h"
#include <cmath>
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;
int main() {
  std::unique_ptr<EMATracker> t, small, large; double sc = 4096; const double A = std::ldexp(1, -50), B = std::ldexp(1, 50); // the same history in other units
  auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * std::fabs(y); };
  auto like = [&](EMATracker &q, double f) { return q.IsInitialized() == t->IsInitialized() && near(q.Mean(), f * t->Mean()) && near(q.Var(), f * f * t->Var()) && near(q.Std(), f * t->Std()); }; std::string line;
  auto obs = [&](hc::Ev &e) { e.b("init", t->IsInitialized()).fx("mean", t->Mean(), sc).fx("var", t->Var(), sc).fx("std", t->Std(), sc).b("units", like(*small, A) && like(*large, B)).out(); };
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c; is >> c;
    if (c == "begin") { long long w; int ex; is >> w >> ex; t = (w == 50 && ex == 2) ? std::make_unique<EMATracker>() : std::make_unique<EMATracker>((size_t) w); small = std::make_unique<EMATracker>(*t); large = std::make_unique<EMATracker>(*t);
      sc = ex == 1 ? 4096 : 16384; hc::Ev e("begin"); e.i("w", w).b("exact", ex == 1).b("init", t->IsInitialized()).out(); }
    else if (c == "u") { double a, b; is >> a >> b; double x = a / b; t->Update(x); small->Update(x * A); large->Update(x * B); hc::Ev e("u"); e.fx("x", x, sc); obs(e); }
    else if (c == "reset") { t->Reset(); small->Reset(); large->Reset(); hc::Ev e("reset"); obs(e); }
    else if (c == "copy") { auto c2 = std::make_unique<EMATracker>(*t); t->Update(12345.0); t = std::move(c2); }
  }
}
