// begin num den patience thr | q id e it | clone a b | del a     (energies/threshold in units of 1/4, rate unit 1e-6*1024)
#include "hc.h"
#include <cmath>
#include <map>
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;
int main() {
  std::map<int, std::unique_ptr<LearningRateScheduler>> obj, alt, alt2; // alt*: the same history with energies and rates in other units
  const double A = std::ldexp(1, -40), B = std::ldexp(1, 30); auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * std::fabs(y); };
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c; is >> c;
    if (c == "begin") {
      long long num, den, p, t; is >> num >> den >> p >> t; obj.clear(); alt.clear(); alt2.clear();
      obj[1] = std::make_unique<PlateauLR>(1.0, double(num) / double(den), (size_t) p, t * 0.25); alt[1] = std::make_unique<PlateauLR>(A, double(num) / double(den), (size_t) p, t * 0.25 * A); alt2[1] = std::make_unique<PlateauLR>(B, double(num) / double(den), (size_t) p, t * 0.25 * B);
      hc::Ev("begin").i("num", num).i("den", den).i("patience", p).i("thr", t).i("rate", 1048576).out();
    } else if (c == "q") {
      int id; long long e, it; is >> id >> e >> it;
      double v = obj.at(id)->GetLearningRate((size_t) it, e * 0.25), va = alt.at(id)->GetLearningRate((size_t) it, e * 0.25 * A), vb = alt2.at(id)->GetLearningRate((size_t) it, e * 0.25 * B);
      hc::Ev("q").i("id", id).i("e", e).fx("v", v, 1048576.0).b("units", near(va, v * A) && near(vb, v * B)).out();
    } else if (c == "clone") { int a, b; is >> a >> b; obj[b] = obj.at(a)->Clone(); alt[b] = alt.at(a)->Clone(); alt2[b] = alt2.at(a)->Clone(); hc::Ev("clone").i("id", a).i("to", b).out(); }
    else if (c == "del") { int a; is >> a; obj.erase(a); alt.erase(a); alt2.erase(a); hc::Ev("del").i("id", a).out(); }
  }
}
