#include "hc.h"
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
using namespace qlpeps; using C = std::complex<double>;
template<class T> T mk(double a, double b); template<> double mk<double>(double a, double) { return a; } template<> C mk<C>(double a, double b) { return {a, b}; }
template<class T> void go(const std::string &c, std::istream &is, hc::Ev &e) {
  int se; long long m; size_t n; is >> se >> m >> n; double sc = std::pow(2.0, se); std::vector<T> L; std::string z = "[";
  for (size_t i = 0; i < n; ++i) { long long a, b; is >> a >> b; L.push_back(mk<T>(a * sc, b * sc)); z += (i ? "," : "") + std::string("[") + std::to_string(a) + "," + std::to_string(b) + "]"; }
  e.raw("z", z + "]").i("se", se);
  if (c == "sum") { auto s = ComputePsiConsistencySummaryAligned<T>(L); C mean = s.psi_mean; double d = s.psi_rel_err * std::abs(mean) * n / sc;
    e.fx("sr", mean.real() * n / sc, 1000).fx("si", mean.imag() * n / sc, 1000).fx("d2", d * d, 1000).b("zero_mean", mean == C(0)).b("zero_err", s.psi_rel_err == 0); }
  else { e.i("m", m).s("text", FormatPsiListTruncated<T>(L, m < 0 ? (size_t) -1 : (size_t) m)); }
}
int main() { std::string line; while (std::getline(std::cin, line)) { std::istringstream is(line); std::string c, k; is >> c >> k; hc::Ev e(c.c_str()); e.s("kind", k);
    if (c != "begin") { if (k == "r") go<double>(c, is, e); else go<C>(c, is, e); } e.out(); } }
