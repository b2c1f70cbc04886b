// Statistics over ranks: every estimate of the real code, projected back to the integer data it was fed.
// line: op elem n base unit k  r1;r2;...   with r = re,im re,im ...
#include "hc.h"
#include <fstream>
#include <sstream>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#include "qlpeps/vmc_basic/statistics_tensor.h"
using namespace qlpeps; using hc::Ev;
struct S { std::string op, elem; int n; double base, unit, k; std::vector<std::vector<std::pair<int, int>>> xs; };
template<class T> T mkv(const S &s, std::pair<int, int> p) { if constexpr (std::is_same_v<T, double>) return s.base + s.unit * p.first; else return T(s.base + s.unit * p.first, -s.base + s.unit * p.second); }
template<class T> std::vector<T> vec(const S &s, int r) { std::vector<T> v; for (auto &p : s.xs[r]) v.push_back(mkv<T>(s, p)); return v; }
template<class T> std::string est(const S &s, T m, double err) { Ev e; double re = (std::real(m) - s.base) / s.unit, im = std::is_same_v<T, double> ? 0 : (std::imag(m) + s.base) / s.unit; bool ok = std::isfinite(re) && std::isfinite(im) && std::fabs(re) < 1e5 && std::fabs(im) < 1e5;
  double q = err / s.unit; q *= q; bool fin = std::isfinite(q) && q * s.k < 2e9; e.b("ok", ok).i("re", ok ? std::llround(re * s.k) : 0).i("im", ok ? std::llround(im * s.k) : 0).b("inf", std::isinf(err)).b("nan", std::isnan(err) || (!fin && !std::isinf(err))).i("se2", fin ? std::llround(q * s.k) : 0).b("zero", m == T(0) && err == 0); return e.o.str() + "}"; }
static std::string xsj(const S &s) { std::string o = "["; for (size_t i = 0; i < s.xs.size(); ++i) { o += i ? ",[" : "["; for (size_t j = 0; j < s.xs[i].size(); ++j) o += (j ? "," : "") + ("[" + std::to_string(s.xs[i][j].first) + "," + std::to_string(s.xs[i][j].second) + "]"); o += "]"; } return o + "]"; }
template<class T> void go(const S &s, int id) {
  Ev e(s.op.c_str()); e.raw("xs", xsj(s)).i("k", (long) s.k);
  if (s.op == "local") { auto v = vec<T>(s, 0); T m = Mean(v); double se = v.empty() ? 0 : StandardError(v, m), va = v.empty() ? 0 : Variance(v) / s.unit / s.unit; e.raw("r", "[" + est(s, m, se) + "]").b("var_nan", !std::isfinite(va) || va < 0).i("var", std::llround(va * s.k)); e.out(); return; }
  if (s.op == "ave") { std::vector<std::vector<T>> d; for (size_t i = 0; i < s.xs.size(); ++i) d.push_back(vec<T>(s, i)); auto a = AveListOfData(d); std::string o; for (auto &x : a) o += (o.empty() ? "" : ",") + est(s, x, 0); e.i("navg", a.size()).raw("r", "[" + o + "]"); e.out(); return; }
  if (s.op == "ips") { auto v = vec<T>(s, 0); double g = IPSInflationFactor(v); double mu = 0; for (auto &x : v) mu += std::real(x); double g2 = v.empty() ? g : IPSInflationFactor(v, mu / v.size()); e.fx("g", g, s.k).b("same", std::fabs(g - g2) < 1e-9); e.out(); return; }
  int n = s.n;
  auto R = simmpi::run(n, [&](int r) {
    auto mine = vec<T>(s, r); std::string res, oth = "true"; long navg = 0, nerr = 0;
    if (s.op == "bin") { auto p = MeanAndBinnedErrorSqrtNUniformBin(mine, MPI_COMM_WORLD); res = est(s, p.first, p.second); oth = p.first == T(0) && p.second == 0 ? "true" : "false"; }
    if (s.op == "single") { auto p = GatherStatisticSingleData(mine[0], MPI_COMM_WORLD); res = est(s, p.first, p.second); oth = p.first == T(0) && p.second == 0 ? "true" : "false"; }
    if (s.op == "list") { std::vector<T> a; std::vector<double> er; GatherStatisticListOfData(mine, MPI_COMM_WORLD, a, er); navg = a.size(); nerr = er.size(); for (size_t i = 0; i < a.size(); ++i) res += (i ? "," : "") + est(s, a[i], i < er.size() ? er[i] : 0.0); oth = a.empty() && er.empty() ? "true" : "false"; }
    if (s.op == "tensor") { using namespace qlten; using Q = special_qn::TrivialRepQN; Index<Q> ix({QNSector<Q>(Q(), mine.size())}, OUT); QLTensor<T, Q> t({ix}); for (size_t i = 0; i < mine.size(); ++i) t({i}) = mine[i]; auto m = MPIMeanTensor(t, MPI_COMM_WORLD); if (m.IsDefault()) oth = "true"; else { oth = "false"; for (size_t i = 0; i < mine.size(); ++i) res += (i ? "," : "") + est(s, T(m.GetElem({i})), 0); } }
    simmpi::emit((r ? "o" : "m") + (r ? oth : std::to_string(navg) + " " + std::to_string(nerr) + " " + res)); }, {.seed = (uint64_t) id + 1, .mode = id % 3});
  std::string oth, res; long na = 0, ne = 0; for (auto &l : R.log) { if (l[0] == 'o') oth += (oth.empty() ? "" : ",") + l.substr(1); if (l[0] == 'm') { std::istringstream is(l.substr(1)); is >> na >> ne; std::getline(is, res); } }
  e.i("navg", na).i("nerr", ne).raw("r", "[" + res + "]").raw("others", "[" + oth + "]").s("verdict", R.verdict); e.out(); }
int main(int argc, char **argv) { std::string line, dir = argv[1]; int id = 0; std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) { std::istringstream is(line); S s; is >> s.op >> s.elem;
    if (s.op == "dump") { std::string name; is >> name; std::vector<int> d; int x; while (is >> x) d.push_back(x); std::string path = name == "ok" ? dir + "/d" : name == "nodir" ? dir + "/no/such/d" : "/dev/full"; bool threw = false; try { if (s.elem == "d") DumpVecData(path, std::vector<double>(d.begin(), d.end())); else DumpVecData(path, d); } catch (const std::exception &) { threw = true; }
      std::vector<long long> w(d.begin(), d.end()), b; if (name == "ok") { std::ifstream f(path); long long y; while (f >> y) b.push_back(y); } Ev e("dump"); e.b("fault", name != "ok").b("threw", threw).iv("wrote", w).iv("back", b); e.out(); continue; }
    is >> s.n >> s.base >> s.unit >> s.k; std::string rest; std::getline(is, rest); std::istringstream rs(rest); std::string part; while (std::getline(rs, part, ';')) { s.xs.emplace_back(); std::istringstream ps(part); std::string t; while (ps >> t) { auto c = t.find(','); s.xs.back().push_back({std::stoi(t.substr(0, c)), std::stoi(t.substr(c + 1))}); } }
    while (s.op != "ave" && (int) s.xs.size() < s.n) s.xs.emplace_back();
    if (s.elem == "c") go<std::complex<double>>(s, id++); else go<double>(s, id++); } }
