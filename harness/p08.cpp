#include "hc.h"
#include "qlpeps/utility/observable_matrix.h"
using namespace qlpeps;
template<class T> struct Conv { static T in(long long v) { return T(v); } static long long out(const T &x) { return std::llround(std::real(std::complex<double>(x))); } };
template<class T> int go() {
  using M = ObservableMatrix<T>; M t[3]; std::string line; auto O = [](const T &x) { return Conv<T>::out(x); };
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c; is >> c; std::vector<long long> a; long long x; while (is >> x) a.push_back(x);
    hc::Ev e(c.c_str()); e.iv("a", a); bool ok = true; std::vector<long long> ext;
    try {
      if (c == "begin") { t[1] = M(); t[2] = M(); }
      else if (c == "resize") { if (a[3] == 0) t[a[0]].Resize(a[1], a[2]); else t[a[0]].Resize(a[1], a[2], T(a[3])); }
      else if (c == "ctor") { if (a[3] == 0) t[a[0]] = M(a[1], a[2]); else t[a[0]] = M(a[1], a[2], T(a[3])); }
      else if (c == "set") t[a[0]]((size_t) a[1], (size_t) a[2]) = T(a[3]);
      else if (c == "sets") { SiteIdx s; s.row() = a[1]; s.col() = a[2]; t[a[0]](s) = T(a[3]); }
      else if (c == "add") t[a[0]].Add((size_t) a[1], (size_t) a[2], T(a[3]));
      else if (c == "adds") t[a[0]].Add(SiteIdx{(size_t) a[1], (size_t) a[2]}, T(a[3]));
      else if (c == "copy") t[a[1]] = t[a[0]];
      else if (c == "extract") { auto v = t[a[0]].Extract(); for (auto &y : v) ext.push_back(O(y)); t[a[0]].Resize(a[1], a[2], T(a[3])); }
      else hc::setup_error(c);
    } catch (const std::exception &) { ok = false; }
    e.b("ok", ok).iv("ext", ext);
    for (int k = 1; k <= 2; ++k) {
      const M &m = t[k]; M &w = t[k]; size_t R = m.rows(), C = m.cols(); std::vector<long long> f, g, h; bool oob = true, same = true;
      for (const auto &y : m.Flatten()) f.push_back(O(y));
      for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { g.push_back(O(m(i, j))); SiteIdx s{i, j}; h.push_back(O(w(s))); if (&m(s) != &w(i, j)) same = false; }
      auto probe = [&](size_t i, size_t j) { int refused = 0;
        try { (void) m(i, j); } catch (const std::out_of_range &) { ++refused; } try { (void) w(i, j); } catch (const std::out_of_range &) { ++refused; }
        try { (void) m(SiteIdx{i, j}); } catch (const std::out_of_range &) { ++refused; } try { w.Add(i, j, T(5)); } catch (const std::out_of_range &) { ++refused; }
        try { w.Add(SiteIdx{i, j}, T(5)); } catch (const std::out_of_range &) { ++refused; } if (refused != 5) oob = false; };
      probe(R, 0); probe(0, C); probe(R, C); probe(R + 3, 0); probe(0, C + 2); if (R) probe(R - 1, C); if (C) probe(R, C - 1); probe((size_t) -1, 0); probe(0, (size_t) -1);
      if (C > 1) probe(((size_t) -1) / C + 1, 0);     // row*cols wraps around
      std::string o = "{"; hc::Ev q; q.i("r", R).i("c", C).i("n", m.size()).iv("flat", f).iv("cells", g).iv("sites", h).b("oob", oob && same);
      e.raw(k == 1 ? "t1" : "t2", q.o.str() + "}");
    }
    e.out();
  }
  return 0;
}
int main(int argc, char **argv) { std::string k = argc > 1 ? argv[1] : "int"; return k == "dbl" ? go<double>() : k == "cplx" ? go<std::complex<double>>() : go<long long>(); }
