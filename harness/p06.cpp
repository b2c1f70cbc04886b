// Drives DuoMatrix (or TenMatrix, whose special members forward) with lifetime-counted elements; dumps the
// complete observable state of every live container after each command.
#include "hc.h"
#include <map>
#include <set>
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
using namespace qlpeps;
static long long g_live = 0; static bool g_double = false; static std::set<const void *> g_set;
struct T {
  long long v = 0;
  T() { reg(); } T(long long x) : v(x) { reg(); } T(const T &o) : v(o.v) { if (!g_set.count(&o)) g_double = true; reg(); }
  T &operator=(const T &o) { v = o.v; return *this; }
  ~T() { if (!g_set.erase(this)) g_double = true; --g_live; v = -777; }
  void reg() { ++g_live; g_set.insert(this); }
  bool operator==(const T &o) const { return v == o.v; } bool operator!=(const T &o) const { return v != o.v; }
};
std::ostream &operator<<(std::ostream &o, const T &t) { return o << t.v; }
std::istream &operator>>(std::istream &i, T &t) { return i >> t.v; }
template<class M> int go() {
  std::map<int, std::unique_ptr<M>> C; std::string line;
  auto val = [](const T *p) -> long long { return p ? p->v : -1; };
  auto vals = [&](const std::vector<T *> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(val(v[i])); return r + "]"; };
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c; is >> c; std::vector<long long> a; long long x; while (is >> x) a.push_back(x);
    hc::Ev e(c.c_str()); e.iv("a", a); bool ret = true;
    if (c == "begin") C.clear();
    else if (c == "new") C[a[0]] = std::make_unique<M>(a[1], a[2]);
    else if (c == "newd") C[a[0]] = std::make_unique<M>();
    else if (c == "copy") { auto p = std::make_unique<M>(*C.at(a[0])); C[a[1]] = std::move(p); }
    else if (c == "assign") { M &r = (*C.at(a[1]) = *C.at(a[0])); ret = &r == C.at(a[1]).get(); }
    else if (c == "movec") { auto p = std::make_unique<M>(std::move(*C.at(a[0]))); C[a[1]] = std::move(p); }
    else if (c == "movea") { M &r = (*C.at(a[1]) = std::move(*C.at(a[0]))); ret = &r == C.at(a[1]).get(); }
    else if (c == "set") (*C.at(a[0]))({(size_t) a[1], (size_t) a[2]}) = T(a[3]);
    else if (c == "ptr") { T *&p = (*C.at(a[0]))((size_t) a[1], (size_t) a[2]); if (p) p->v = a[3]; else p = new T(a[3]); }
    else if (c == "alloc") C.at(a[0])->alloc(a[1], a[2]);
    else if (c == "dealloc") C.at(a[0])->dealloc(a[1], a[2]);
    else if (c == "clear") C.at(a[0])->clear();
    else if (c == "fill") { long long k = a[1]; for (auto &t : *C.at(a[0])) t.v += k++; }   // non-const iteration allocates
    else if (c == "fillp") { long long k = a[1]; auto &m = *C.at(a[0]); for (auto it = m.begin(); it != m.end();) { auto cur = it++; (*cur).v += k++; } }
    else if (c == "del") C.erase(a[0]);
    else hc::setup_error(c);
    std::string all = "["; bool f = true; std::set<const void *> ptrs; bool shared = false;
    for (auto &kv : C) {
      const M &m = *kv.second; hc::Ev o; size_t R = m.rows(), K = m.cols(); bool full = true;
      std::string cells = "["; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < K; ++j) {
        const T *p = m(i, j); if (m.has_alloc(i, j) != (p != nullptr)) shared = true; if (!p) full = false; else { if (!ptrs.insert(p).second || !g_set.count(p)) shared = true; if (&m({i, j}) != p) shared = true; }
        cells += ((i || j) ? "," : "") + std::to_string(val(p)); } cells += "]";
      std::string rows = "[", cols = "[", sr = "[", sc = "[", cd = "[";
      for (size_t i = 0; i < R; ++i) { rows += (i ? "," : "") + vals(m.get_row(i)); sr += (i ? "," : "") + vals(m.get_slice(i, HORIZONTAL)); }
      for (size_t j = 0; j < K; ++j) { cols += (j ? "," : "") + vals(m.get_col(j)); sc += (j ? "," : "") + vals(m.get_slice(j, VERTICAL)); }
      auto cdv = m.cdata(); for (size_t i = 0; i < cdv.size(); ++i) { cd += (i ? ",[" : "["); for (size_t j = 0; j < cdv[i].size(); ++j) cd += (j ? "," : "") + std::to_string(val(cdv[i][j])); cd += "]"; }
      std::string it = "[", it2 = "["; if (full) { bool g = true; for (const auto &t : m) { it += (g ? "" : ",") + std::to_string(t.v); g = false; }
        g = true; for (auto q = m.cbegin(); q != m.cend(); q++) { it2 += (g ? "" : ",") + std::to_string((*q).v); g = false; } }
      std::string eq = "["; bool g = true; for (auto &k2 : C) { bool r1 = m == *k2.second; eq += (g ? "" : ",") + std::string(r1 ? "true" : "false"); g = false; }
      o.i("id", kv.first).i("r", R).i("c", K).i("size", m.size()).i("lh", m.length(HORIZONTAL)).i("lv", m.length(VERTICAL)).b("empty", m.empty())
       .raw("cells", cells).raw("rows", rows + "]").raw("cols", cols + "]").raw("sr", sr + "]").raw("sc", sc + "]").raw("cd", cd + "]").b("full", full)
       .raw("it", it + "]").raw("it2", it2 + "]").raw("eq", eq + "]");
      all += (f ? "" : ",") + o.o.str() + "}"; f = false;
    }
    e.b("ret", ret).i("live", g_live).b("dbl", g_double).b("shared", shared).raw("all", all + "]").out();
  }
  C.clear(); hc::Ev("end").i("live", g_live).b("dbl", g_double).out();
  return 0;
}
int main(int argc, char **argv) { return argc > 1 && std::string(argv[1]) == "ten" ? go<TenMatrix<T>>() : go<DuoMatrix<T>>(); }
