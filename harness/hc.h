// Common helpers of the conformance harnesses: line-JSON events, fixed-point projection of doubles.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cassert>
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
namespace hc {
struct Ev {
  std::ostringstream o;
  bool first = true;
  Ev() { o << "{"; }
  explicit Ev(const char *op) { o << "{"; s("op", op); }
  void key(const char *k) { if (!first) o << ","; first = false; o << '"' << k << "\":"; }
  Ev &s(const char *k, const std::string &v) {
    key(k); o << '"';
    for (char c : v) { if (c == '"' || c == '\\') o << '\\' << c; else if ((unsigned char) c < 32) o << ' '; else o << c; }
    o << '"'; return *this;
  }
  Ev &i(const char *k, long long v) { key(k); if (v > 2147483647LL || v < -2147483647LL) v = v > 0 ? 2147483647LL : -2147483647LL; o << v; return *this; }
  Ev &b(const char *k, bool v) { key(k); o << (v ? "true" : "false"); return *this; }
  Ev &iv(const char *k, const std::vector<long long> &v) {
    key(k); o << "["; for (size_t n = 0; n < v.size(); ++n) { if (n) o << ","; o << v[n]; } o << "]"; return *this;
  }
  Ev &raw(const char *k, const std::string &v) { key(k); o << v; return *this; }
  // fixed point: k = round(x*scale), k_ok = finite and representable
  Ev &fx(const char *k, double x, double scale) {
    double y = x * scale;
    bool ok = std::isfinite(y) && std::fabs(y) < 2.0e9;
    key(k); o << (ok ? (long long) std::llround(y) : 0LL);
    std::string kk = std::string(k) + "_ok"; key(kk.c_str()); o << (ok ? "true" : "false");
    return *this;
  }
  Ev &fxv(const char *k, const std::vector<double> &v, double scale) {
    bool ok = true; key(k); o << "[";
    for (size_t n = 0; n < v.size(); ++n) {
      double y = v[n] * scale; bool g = std::isfinite(y) && std::fabs(y) < 2.0e9; ok = ok && g;
      if (n) o << ","; o << (g ? (long long) std::llround(y) : 0LL);
    }
    o << "]"; std::string kk = std::string(k) + "_ok"; key(kk.c_str()); o << (ok ? "true" : "false");
    return *this;
  }
  void out() { std::string t = o.str() + "}\n"; std::fwrite(t.data(), 1, t.size(), stdout); }
};
inline void setup_error(const std::string &m) { std::cerr << "harness: " << m << "\n"; std::exit(3); }
}
