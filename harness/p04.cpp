// one weight vector per line: "<exp2 of unit> w1 w2 ...": measures the whole transition matrix exactly by enumerating
// the random number over a midpoint grid aligned with the integer weight units (weights are w_i * 2^exp2).
#include "hc.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
using namespace qlpeps;
struct Grid {   // scripted uniform generator; hands out `val` once, afterwards continues with a mixing sequence
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t val = 0; int draws = 0;
  uint64_t operator()() { ++draws; if (draws == 1) return val; val = val * 6364136223846793005ull + 1442695040888963407ull; return val; }
};
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); int ex; is >> ex; std::vector<long long> w; long long x; while (is >> x) w.push_back(x);
    size_t n = w.size(); const int m = 3; std::vector<double> wd; for (auto v : w) wd.push_back(std::ldexp((double) v, ex));
    std::vector<std::vector<long long>> F(n, std::vector<long long>(n, 0)), H = F; bool inr = true, alias = true, same = true;
    std::vector<long long> edge;
    for (size_t i = 0; i < n; ++i) {
      if (w[i] == 0) continue;
      long long M = w[i] * m;
      for (long long k = 0; k < M; ++k) {
        long double u = (k + 0.5L) / M; Grid g; g.val = (uint64_t) (u * 18446744073709551616.0L);
        uint64_t v0 = g.val; auto keep = wd;
        size_t j = SuwaTodoStateUpdate(i, wd, g);
        if (j >= n) { inr = false; continue; }
        F[i][j]++;
        if (keep != wd) same = false;
        auto z = wd; for (size_t q = 0; q < n; ++q) z[q] *= 1 + 1e-13 * ((int) ((i * 7 + q * 5 + (q == i ? 0 : 2)) % 3) - 1); // the caller's weights carry rounding errors that depend on the starting state
        Grid g3; g3.val = v0; size_t j3 = SuwaTodoStateUpdate(i, z, g3); if (j3 < n) H[i][j3]++; else inr = false;
        Grid g2; g2.val = v0; if (NonDBMCMCStateUpdate(i, wd, g2) != j) alias = false;
      }
      for (uint64_t v : {uint64_t(0), uint64_t(1), ~uint64_t(0), ~uint64_t(0) - 1, uint64_t(1) << 63}) {
        Grid g; g.val = v; size_t j = SuwaTodoStateUpdate(i, wd, g); edge.push_back(j >= n ? 0 : (long long) j + 1);
      }
    }
    hc::Ev e("flow"); e.iv("w", w).i("m", m).b("inrange", inr).b("alias", alias).b("same", same).iv("edge", edge);
    auto js = [&](auto &F) { std::string r = "["; for (size_t i = 0; i < n; ++i) { r += i ? ",[" : "["; for (size_t j = 0; j < n; ++j) r += (j ? "," : "") + std::to_string(F[i][j]); r += "]"; } return r + "]"; };
    e.raw("v", js(F)).raw("noisy", js(H)).out();
  }
}
