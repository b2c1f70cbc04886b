// TenMatrix element dump/load against a scratch directory (cwd). Files f1..f4; "miss/x" cannot be opened, "adir" is a
// directory, "/dev/full" accepts the open but not the data.
#include "hc.h"
#include <filesystem>
#include <fstream>
#include <map>
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
using namespace qlpeps;
struct T { long long v = 0; bool operator!=(const T &o) const { return v != o.v; } };
std::ostream &operator<<(std::ostream &o, const T &t) { return o << "ten " << t.v << " end\n"; }
std::istream &operator>>(std::istream &i, T &t) { std::string a, b; long long x; if (i >> a >> x >> b && a == "ten" && b == "end") t.v = x; else i.setstate(std::ios::failbit); return i; }
int main() {
  using M = TenMatrix<T>; std::map<int, std::unique_ptr<M>> C; std::string line; std::filesystem::create_directory("adir");
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c, f; is >> c; std::vector<long long> a; bool ret = true; hc::Ev e(c.c_str());
    if (c == "begin") { int r, k; is >> r >> k; C.clear(); for (int i = 1; i <= 4; ++i) std::filesystem::remove("f" + std::to_string(i)); C[1] = std::make_unique<M>(r, k); C[2] = std::make_unique<M>(r, k); e.i("r", r).i("c", k); }
    else { int m; size_t i, j; is >> m >> i >> j; e.i("m", m).i("i", i).i("j", j); M &x = *C.at(m);
      if (c == "set") { long long v; is >> v; x({i, j}).v = v; e.i("v", v); }
      else if (c == "dealloc") x.dealloc(i, j);
      else if (c == "trunc") { is >> f; e.s("f", f); if (std::filesystem::exists(f)) std::filesystem::resize_file(f, std::filesystem::file_size(f) / 2); }
      else if (c == "rm") { is >> f; e.s("f", f); std::filesystem::remove(f); }
      else { is >> f; e.s("f", f);
        if (c == "dump") { const M &y = x; ret = y.DumpTen(i, j, f); }
        else if (c == "dumpn") ret = x.DumpTen(i, j, f);
        else if (c == "dumpk") ret = x.DumpTen(i, j, f, false);
        else if (c == "dumpr") ret = x.DumpTen(i, j, f, true);
        else if (c == "load") ret = x.LoadTen(i, j, f);
        else hc::setup_error(c); } }
    for (int m = 1; m <= 2; ++m) { std::vector<long long> v; const M &x = *C[m]; for (size_t i = 0; i < x.rows(); ++i) for (size_t j = 0; j < x.cols(); ++j) v.push_back(x(i, j) ? x(i, j)->v : -1); e.iv(m == 1 ? "c1" : "c2", v); }
    std::vector<long long> fs; for (int i = 1; i <= 4; ++i) { std::ifstream g("f" + std::to_string(i)); T t; long long v = -1; if (g) { v = (g >> t) ? t.v : -2; } fs.push_back(v); }
    e.b("ret", ret).iv("fs", fs).out();
  }
}
