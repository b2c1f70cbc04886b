#include "hc.h"
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/configuration.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/jastrow_factor.h"
using namespace qlpeps; using hc::Ev;
// begin ly lx d... | set how i j x | fill a b x
int main() { std::string line; std::unique_ptr<JastrowFactor> J; Configuration D; size_t ly = 0, lx = 0; std::vector<long long> d;
  while (std::getline(std::cin, line)) { std::istringstream is(line); std::string op; is >> op; Ev e(op.c_str()); auto S = [&](size_t i) { return SiteIdx{i / lx, i % lx}; };
    if (op == "begin") { is >> ly >> lx; J = std::make_unique<JastrowFactor>(ly, lx); D = Configuration(ly, lx); d.clear(); for (size_t i = 0; i < ly * lx; ++i) { size_t x; is >> x; d.push_back(x); D({i / lx, i % lx}) = x; } e.i("ly", ly).i("lx", lx); }
    if (op == "set") { std::string how; size_t i, j; double x; is >> how >> i >> j >> x; if (how == "set") J->Set(i, j, x); if (how == "sets") J->Set(S(i), S(j), x); if (how == "ref") (*J)(i, j) = x; if (how == "refs") (*J)(S(i), S(j)) = x; e.i("i", i).i("j", j).i("x", (long) x); }
    if (op == "fill") { long a, b, x; is >> a >> b >> x; J->Fill([&](size_t i, size_t j) { return double(a * (long) i + b * (long) j + x); }); e.i("a", a).i("b", b).i("x", x); }
    const JastrowFactor &C = *J; std::vector<double> t, f; bool same = true; size_t n = ly * lx; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { t.push_back(C(i, j)); same = same && C(S(i), S(j)) == C(i, j) && C.SiteToIndex(S(i)) == i && C.SiteIdxToLinear(S(i)) == i; } for (size_t i = 0; i < n; ++i) f.push_back(C.JastrowFieldAtSite(D, S(i)));
    e.i("ns", C.NumSites()).fxv("t", t, 1).fxv("field", f, 1).b("by_site", same).iv("d", d); e.out(); } }
