#include "hc.h"
#include <csignal>
#include <sstream>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/base/mpi_signal_guard.h"
using qlpeps::MPISignalGuard; using hc::Ev;
// line: seed mode prog1 prog2 ...   letters: i/t raise SIGINT/SIGTERM, c check, r reset, g register again
int main() { std::string line; std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) { std::istringstream is(line); uint64_t seed; int mode; is >> seed >> mode; std::vector<std::string> pr; std::string t; while (is >> t) pr.push_back(t); int n = pr.size();
    auto R = simmpi::run(n, [&](int r) { MPISignalGuard::Reset(); MPISignalGuard::Register(); std::string s, lo; for (char c : pr[r]) { if (c == 'i') std::raise(SIGINT); if (c == 't') std::raise(SIGTERM); if (c == 'r') MPISignalGuard::Reset(); if (c == 'g') MPISignalGuard::Register(); if (c == 'c') { lo += MPISignalGuard::LocalStopRequested() ? "1" : "0"; s += MPISignalGuard::EmergencyStopRequested(MPI_COMM_WORLD) ? "1" : "0"; } } simmpi::emit(std::to_string(r) + " a" + s + " b" + lo); }, {.seed = seed, .mode = mode});
    std::vector<std::string> seen(n, "[]"), loc(n, "[]"); auto bl = [](const std::string &s) { std::string o = "["; for (size_t i = 1; i < s.size(); ++i) o += (i > 1 ? "," : "") + std::string(s[i] == '1' ? "true" : "false"); return o + "]"; };
    for (auto &x : R.log) { std::istringstream q(x); int r; std::string a, b; if (q >> r >> a >> b) { seen[r] = bl(a); loc[r] = bl(b); } }
    Ev e("vote"); std::string ps = "[", ss, ls; int checks = 0; for (char c : pr[0]) checks += c == 'c'; for (int r = 0; r < n; ++r) { std::string one = "["; for (char c : pr[r]) { std::string z = c == 'i' || c == 't' ? "\"s\"" : c == 'c' ? "\"c\"" : c == 'r' ? "\"r\"" : ""; if (!z.empty()) one += (one.size() > 1 ? "," : "") + z; } ps += (r ? "," : "") + one + "]"; ss += (r ? "," : "") + seen[r]; ls += (r ? "," : "") + loc[r]; }
    e.raw("prog", ps + "]").i("checks", checks).raw("seen", "[" + ss + "]").raw("loc", "[" + ls + "]").s("verdict", R.verdict); e.out(); } }
