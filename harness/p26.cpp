// Configurations: files, random filling, transfer. Script on stdin, one op per line.
#include "hc.h"
#include <fstream>
#include <filesystem>
#include <map>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/vmc_basic/configuration.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h"
using namespace qlpeps; using hc::Ev; namespace fs = std::filesystem;
static std::vector<long long> cells(Configuration &c) { std::vector<long long> v; for (size_t i = 0; i < c.rows(); ++i) for (size_t j = 0; j < c.cols(); ++j) v.push_back(c({i, j})); return v; }
static std::string objs(std::vector<Configuration> &o) { std::string s = "["; for (auto &c : o) { Ev e; std::vector<long long> oc; for (auto x : c.CountOccupancy()) oc.push_back(x); e.i("r", c.rows()).i("c", c.cols()).iv("v", cells(c)).i("sum", c.Sum()).iv("occ", oc); s += (s.size() > 1 ? "," : "") + e.o.str() + "}"; } return s + "]"; }
static Configuration from(int r, int c, int seed) { Configuration x(r, c); int k = 0; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x({(size_t) i, (size_t) j}) = (seed * 7 + 3 * k++) % 5; return x; }
int main(int, char **argv) { std::string root = argv[1], line; std::vector<Configuration> o; std::string dir; int id = 0; std::cerr.setstate(std::ios::failbit);
  while (std::getline(std::cin, line)) { std::istringstream is(line); std::string op; is >> op; Ev e(op.c_str());
    if (op == "begin") { if (!dir.empty()) fs::remove_all(dir); dir = root + "/c" + std::to_string(id++); o.clear(); int r, c; std::string sh = "["; while (is >> r >> c) { o.push_back(from(r, c, (int) o.size() + 1)); sh += (sh.size() > 1 ? ",[" : "[") + std::to_string(r) + "," + std::to_string(c) + "]"; } e.raw("shapes", sh + "]").raw("obj", objs(o)); e.out(); continue; }
    auto lab = [&](size_t f) -> size_t { static const size_t many[] = {1, 10, 256, 1048576}; return f == 1 ? 0 : f == 2 ? many[id % 4] : f; }; // labels of the dumps: any number
    auto path = [&](int f) { return dir + "/sub/configuration" + std::to_string(lab(f)); }; std::string ret = "ok"; size_t k = 0, f = 0;
    if (op == "dump") { is >> k >> f; e.i("k", k).i("f", f); try { o[k - 1].Dump(dir + "/sub", lab(f)); } catch (const std::exception &) { ret = "threw"; } }
    else if (op == "dumpbad") { std::string how; is >> k >> how; e.i("k", k); std::string d = dir + "/bad"; fs::create_directories(d); if (how == "isdir") fs::create_directories(d + "/configuration4"); if (how == "full" && !fs::exists(fs::symlink_status(d + "/configuration5"))) fs::create_symlink("/dev/full", d + "/configuration5"); if (how == "nodir" && !fs::exists(dir + "/plain")) std::ofstream(dir + "/plain") << "x"; try { if (how == "isdir") o[k - 1].Dump(d, 4); if (how == "full") o[k - 1].Dump(d, 5); if (how == "nodir") o[k - 1].Dump(dir + "/plain/x", 6); } catch (const std::exception &) { ret = "threw"; } }
    else if (op == "load") { is >> k >> f; e.i("k", k).i("f", f); try { ret = o[k - 1].Load(dir + "/sub", lab(f)) ? "ok" : "no"; } catch (...) { ret = "threw"; } }
    else if (op == "loadmiss") { is >> k; e.i("k", k); try { ret = o[k - 1].Load(dir + "/nowhere", 0) ? "ok" : "no"; } catch (...) { ret = "threw"; } }
    else if (op == "set") { size_t i, x; is >> k >> i >> x; e.i("k", k).i("i", i).i("x", x); o[k - 1]({(i - 1) / o[k - 1].cols(), (i - 1) % o[k - 1].cols()}) = x; }
    else if (op == "copy") { size_t q; is >> k >> q; e.i("k", k).i("q", q); o[k - 1] = o[q - 1]; }
    else if (op == "rnd") { size_t x; std::string how; is >> k >> how >> x; e.i("k", k).i("x", x); if (how == "m") o[k - 1].Random(x); else o[k - 1] = Configuration(o[k - 1].rows(), o[k - 1].cols(), x); }
    else if (op == "fill") { std::string how; is >> k >> how; std::vector<std::pair<size_t, size_t>> w; size_t a, b; std::string js = "["; while (is >> a >> b) { w.push_back({a, b}); js += (js.size() > 1 ? ",[" : "[") + std::to_string(a) + "," + std::to_string(b) + "]"; } e.i("k", k).raw("want", js + "]"); std::map<size_t, size_t> m(w.begin(), w.end()); OccupancyNum oc; for (auto &p : w) { if (oc.size() <= p.first) oc.resize(p.first + 1, 0); oc[p.first] = p.second; }
      size_t R = o[k - 1].rows(), C = o[k - 1].cols(); try { if (how == "v") o[k - 1].Random(oc); if (how == "m") o[k - 1].Random(m); if (how == "cv") o[k - 1] = Configuration(R, C, oc); if (how == "cm") o[k - 1] = Configuration(R, C, m); } catch (const std::invalid_argument &) { ret = "threw"; } }
    else if (op == "hurt") { std::string what; is >> f >> what; e.i("f", f); std::string p = path(f), sp = p + ".shape"; // rewrite the files to the given tokens / side-car
      std::vector<long long> tok, side; std::string t; while (is >> t && t != "|") tok.push_back(std::stoll(t)); while (is >> t) side.push_back(std::stoll(t)); fs::create_directories(dir + "/sub");
      if (!tok.empty() && tok[0] == -9) { fs::remove(p); fs::remove(sp); } else { std::ofstream g(p); for (auto x : tok) g << (x < 0 ? std::string("x") : std::to_string(x)) << " "; g.close(); if (side.empty()) fs::remove(sp); else { std::ofstream s(sp); if (side[0] < 0) s << "bad"; else s << side[0] << " " << side[1] << "\n"; } }
      e.iv("tok", tok).iv("side", side); }
    else if (op == "params") { std::string how; is >> how; bool threw = false, ints = false; std::vector<long long> v; size_t r = 0, c = 0; try { MonteCarloParams p(11, 22, 33, dir + "/sub", false, "dd"); ints = p.total_samples == 11 && p.num_warmup_sweeps == 22 && p.sweeps_between_samples == 33 && !p.is_warmed_up && p.config_dump_path == "dd"; r = p.initial_config.rows(); c = p.initial_config.cols(); v = cells(p.initial_config); } catch (const std::exception &) { threw = true; } e.b("threw", threw).b("ints", ints).i("r", r).i("c", c).iv("v", v); e.out(); continue; }
    else if (op == "mpi") { std::string kind; int n, a, b, r, c; is >> kind >> n >> a >> b >> r >> c; auto R = simmpi::run(n, [&](int me) { auto x = from(r, c, me + 1); auto y = x; MPI_Status st; if (kind == "send") { if (me == a) qlpeps::MPI_Send(x, (size_t) b, 5, MPI_COMM_WORLD); if (me == b) qlpeps::MPI_Recv(y, (size_t) a, 5, MPI_COMM_WORLD, &st); } if (kind == "bcast") qlpeps::MPI_BCast(y, (size_t) a, MPI_COMM_WORLD); if (kind == "ring") qlpeps::MPI_Sendrecv(x, (size_t) ((me + a) % n), 3, y, (size_t) ((me + n - a) % n), 3, MPI_COMM_WORLD, &st);
        Ev z; z.i("me", me).iv("x", cells(x)).iv("y", cells(y)); simmpi::emit(z.o.str() + "}"); }, {.seed = (uint64_t) id, .mode = (a + b + n) % 3});
      std::vector<std::string> sx(n, "[]"), sy(n, "[]"); for (auto &l : R.log) { int me; if (std::sscanf(l.c_str(), "{\"me\":%d", &me) == 1) { auto p = l.find("\"x\":"), q = l.find(",\"y\":"); sx[me] = l.substr(p + 4, q - p - 4); sy[me] = l.substr(q + 5, l.size() - q - 6); } }
      auto join = [](std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }; e.s("kind", kind).i("a", a).i("b", b).s("verdict", R.verdict).raw("src", join(sx)).raw("dst", join(sy)); e.out(); continue; }
    e.s("ret", ret).raw("obj", objs(o)); e.out(); }
  if (!dir.empty()) fs::remove_all(dir); }
