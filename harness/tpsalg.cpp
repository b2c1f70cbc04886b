// Split-index states: algebra, queries, files, transfers. Script on stdin, one op per line; first argument: scratch directory.
#include "hc.h"
#include <filesystem>
#include <fstream>
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
#include "qlpeps/api/conversions.h"
using namespace qlpeps; using hc::Ev; namespace fs = std::filesystem;
using QN = qlten::special_qn::TrivialRepQN; using Idx = qlten::Index<QN>; using BC = BoundaryCondition;
struct Geo { int r, c, bc; std::vector<std::array<int, 4>> d; };
static std::vector<Geo> G;
static Idx ix(int n, TenIndexDirType d) { return Idx({QNSector<QN>(QN::Zero(), n)}, d); }
template<class E> struct Num; template<> struct Num<double> { static double mk(double a, double) { return a; } }; template<> struct Num<std::complex<double>> { static std::complex<double> mk(double a, double b) { return {a, b}; } };
static bool exact; static long long rnd(double x) { double y = std::round(x); if (!(std::fabs(x - y) < 1e-6) || std::fabs(y) > 2e9) { exact = false; return 0; } return (long long) y; }
template<class E> struct M {
  using T = QLTensor<E, QN>; using S = SplitIndexTPS<E, QN>; struct Slot { S s; int g = 0; }; std::vector<Slot> o{3}; std::string root, dir; int id = 0;
  static T ten(const Geo &q, int site, const std::vector<long long> &v) { auto &d = q.d[site]; T t({ix(d[0], IN), ix(d[1], OUT), ix(d[2], OUT), ix(d[3], IN)}); size_t k = 0; for (size_t a = 0; a < d[0]; ++a) for (size_t b = 0; b < d[1]; ++b) for (size_t c = 0; c < d[2]; ++c) for (size_t x = 0; x < d[3]; ++x) { t({a, b, c, x}) = Num<E>::mk(v[k], v[k + 1]); k += 2; } return t; }
  static std::string tstr(const T &t) { if (t.IsDefault()) return "[]"; std::string s = "["; auto sh = t.GetShape(); for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[1]; ++b) for (size_t c = 0; c < sh[2]; ++c) for (size_t x = 0; x < sh[3]; ++x) { auto z = std::complex<double>(t.GetElem({a, b, c, x})); s += (s.size() > 1 ? "," : "") + std::to_string(rnd(z.real())) + "," + std::to_string(rnd(z.imag())); } return s + "]"; }
  static std::string val(const S &s, int g, int P) { if (g == 0) return "{\"g\":0,\"bc\":0,\"p\":0,\"t\":[]}"; Ev e; e.i("g", g).i("bc", (int) s.GetBoundaryCondition()); std::string t = "["; int p = -1; for (size_t r = 0; r < s.rows(); ++r) for (size_t c = 0; c < s.cols(); ++c) { const S &cs = s; auto *ptr = cs(r, c); if (!ptr) { for (int i = 0; i < P; ++i) t += std::string(t.size() > 1 ? "," : "") + "[0]"; p = p < 0 ? P : p; } else { if (p < 0) p = (int) ptr->size(); else if (p != (int) ptr->size()) p = 99; for (auto &x : *ptr) t += std::string(t.size() > 1 ? "," : "") + tstr(x); } }
    e.i("p", p).raw("t", t + "]"); if ((int) s.rows() != G[g - 1].r || (int) s.cols() != G[g - 1].c) return "{\"g\":-1,\"bc\":0,\"p\":0,\"t\":[]}"; return e.o.str() + "}"; }
  int P = 1; std::string objs() { std::string s = "["; for (auto &x : o) s += (s.size() > 1 ? "," : "") + val(x.s, x.g, P); return s + "]"; }
  static S make(int g, int P, std::istream &is) { auto &q = G[g - 1]; S s(q.r, q.c, (size_t) P, (BC) q.bc); for (int i = 0; i < q.r * q.c; ++i) for (int p = 0; p < P; ++p) { int def; is >> def; if (def) continue; size_t n = 2; for (int x : q.d[i]) n *= x; std::vector<long long> v(n); for (auto &x : v) is >> x; s({(size_t) (i / q.c), (size_t) (i % q.c)})[p] = ten(q, i, v); } return s; }
  static S gen(int g, int P, int seed, bool full) { auto &q = G[g - 1]; S s(q.r, q.c, (size_t) P, (BC) q.bc); std::mt19937 r(seed); for (int i = 0; i < q.r * q.c; ++i) for (int p = 0; p < P; ++p) { if (!full && r() % 4 == 0) continue; size_t n = 2; for (int x : q.d[i]) n *= x; std::vector<long long> v(n); for (auto &x : v) x = (int) (r() % 9) - 4; if (std::is_same_v<E, double>) for (size_t k = 1; k < n; k += 2) v[k] = 0; s({(size_t) (i / q.c), (size_t) (i % q.c)})[p] = ten(q, i, v); } return s; }
  std::string tf(int i, int P) { auto &q = G[fg - 1]; int s = i / P; return GenSplitIndexTPSTenName(dir + "/d", s / q.c, s % q.c, i % P); } int fg = 0, fp = 1;
  void line(const std::string &op, std::istringstream &is) { Ev e(op.c_str()); exact = true; size_t k = 0, a = 0, b = 0; std::string how; auto K = [&]() -> Slot & { e.i("k", k); return o[k - 1]; };
    auto rd = [&](bool kk, bool aa, bool bb) { if (kk) { is >> k; e.i("k", k); } if (aa) { is >> a; e.i("a", a); } if (bb) { is >> b; e.i("b", b); } };
    if (op == "new") { int g; rd(1, 0, 0); is >> g; o[k - 1].s = make(g, P, is); o[k - 1].g = g; e.raw("val", val(o[k - 1].s, g, P)); }
    else if (op == "add") { rd(1, 1, 1); is >> how; if (how == "i") o[a - 1].s += o[b - 1].s; else o[k - 1].s = o[a - 1].s + o[b - 1].s; o[k - 1].g = o[a - 1].g; }
    else if (op == "sub") { rd(1, 1, 1); is >> how; if (how == "i") o[a - 1].s -= o[b - 1].s; else o[k - 1].s = o[a - 1].s - o[b - 1].s; o[k - 1].g = o[a - 1].g; }
    else if (op == "neg") { rd(1, 1, 0); o[k - 1].s = -o[a - 1].s; o[k - 1].g = o[a - 1].g; }
    else if (op == "mul") { int sr, si; rd(1, 1, 0); is >> how >> sr >> si; e.i("sr", sr).i("si", si); E z = Num<E>::mk(sr, si); if (how == "i") o[a - 1].s *= z; else if (how == "l") o[k - 1].s = z * o[a - 1].s; else if (how == "r") o[k - 1].s = o[a - 1].s * z; else if constexpr (!std::is_same_v<E, double>) o[k - 1].s = qlpeps::operator*<E, QN>((double) sr, o[a - 1].s); else o[k - 1].s = z * o[a - 1].s; o[k - 1].g = o[a - 1].g; }
    else if (op == "copy") { rd(1, 1, 0); is >> how; if (how == "c") { S t(o[a - 1].s); o[k - 1].s = std::move(t); } else o[k - 1].s = o[a - 1].s; o[k - 1].g = o[a - 1].g; }
    else if (op == "move") { rd(1, 1, 0); is >> how; if (how == "c") { S t(std::move(o[a - 1].s)); o[k - 1].s = std::move(t); } else o[k - 1].s = std::move(o[a - 1].s); o[k - 1].g = o[a - 1].g; o[a - 1] = Slot(); }
    else if (op == "sq" || op == "sqn" || op == "abs" || op == "inv") { rd(1, 1, 0); is >> how; S t = o[a - 1].s; bool in = how == "i", fr = how == "f";
      auto sq = [&](S x) { if (in) { x.ElementWiseSquareInPlace(); return x; } return fr ? ElementWiseSquare(x) : x.ElementWiseSquare(); };
      if (op == "sq") t = sq(t); if (op == "sqn") { if (in) t.ElementWiseSquaredNormInPlace(); else t = fr ? ElementWiseSquaredNorm(t) : t.ElementWiseSquaredNorm(); }
      if (op == "abs") { t = sq(t); if (in) t.ElementWiseSqrtInPlace(); else t = fr ? ElementWiseSqrt(t) : t.ElementWiseSqrt(); }
      if (op == "inv") for (int i = 0; i < 2; ++i) { if (in) t.ElementWiseInverseInPlace(1e-9); else t = fr ? ElementWiseInverse(t, 1e-9) : t.ElementWiseInverse(1e-9); }
      o[k - 1].s = t; o[k - 1].g = o[a - 1].g; }
    else if (op == "dot") { rd(0, 1, 1); std::complex<double> z(o[a - 1].s * o[b - 1].s); e.iv("v", {rnd(z.real()), rnd(z.imag())}); }
    else if (op == "nsq") { rd(0, 1, 0); e.i("v", rnd(o[a - 1].s.NormSquare())); }
    else if (op == "norm" || op == "maxabs") { int s, aim; rd(0, 1, 0); is >> s >> aim; S t = o[a - 1].s; auto &q = G[o[a - 1].g - 1]; SiteIdx st{(size_t) ((s - 1) / q.c), (size_t) ((s - 1) % q.c)}; double n2 = 0; for (auto &x : t(st)) if (!x.IsDefault()) n2 += std::pow(x.GetQuasi2Norm(), 2);
      if (n2 == 0) { Ev z("nsq"); z.i("a", a).i("v", rnd(o[a - 1].s.NormSquare())).b("exact", exact).raw("obj", objs()); z.out(); return; }
      bool all = aim < 0; aim = std::abs(aim); if (all) { // the all-sites form acts like the single-site form everywhere
        S u = t; bool z = false; for (size_t r = 0; r < t.rows(); ++r) for (size_t c = 0; c < t.cols(); ++c) { double m = 0; for (auto &x : t({r, c})) if (!x.IsDefault()) m += x.GetQuasi2Norm(); if (m == 0) z = true; } if (z) all = false; }
      double n; if (op == "norm") n = t.NormalizeSite(st); else n = t.ScaleMaxAbsForSite(st, aim);
      bool rest = true; for (size_t r = 0; r < t.rows(); ++r) for (size_t c = 0; c < t.cols(); ++c) if (!(r == st.row() && c == st.col())) rest = rest && t({r, c}) == o[a - 1].s({r, c});
      if (all) { S u = o[a - 1].s; if (op == "norm") u.NormalizeAllSite(); else u.ScaleMaxAbsForAllSite(aim); S w = o[a - 1].s; for (size_t r = 0; r < w.rows(); ++r) for (size_t c = 0; c < w.cols(); ++c) { if (op == "norm") w.NormalizeSite({r, c}); else w.ScaleMaxAbsForSite({r, c}, aim); } S df = u - w; rest = rest && df.NormSquare() < 1e-16; }
      std::vector<double> v; for (auto &x : t(st)) if (!x.IsDefault()) { auto sh = x.GetShape(); for (size_t i = 0; i < sh[0]; ++i) for (size_t j = 0; j < sh[1]; ++j) for (size_t p = 0; p < sh[2]; ++p) for (size_t y = 0; y < sh[3]; ++y) { auto z = std::complex<double>(x.GetElem({i, j, p, y})); v.push_back(z.real()); v.push_back(z.imag()); } }
      e.i("s", s).i("aim", aim).fx("n3", n, 1000).fxv("v3", v, 1000).b("rest", rest); }
    else if (op == "bonds") { int tp; rd(0, 1, 0); is >> tp; const S &s = o[a - 1].s; auto vv = [](auto q) { return std::vector<long long>(q.begin(), q.end()); }; auto mm = s.GetMinMaxBondDimension(); e.i("phys", s.PhysicalDim()).i("bc", (int) s.GetBoundaryCondition()).iv("all", vv(s.GetAllInnerBondDimensions())).i("min", s.GetMinBondDimension()).i("max", s.GetMaxBondDimension()).iv("mm", {(long long) mm.first, (long long) mm.second}).b("even", s.IsBondDimensionEven()).b("tps", tp);
      if (tp) { auto t = s.GroupIndices(ix(P, OUT)); e.i("tmax", t.GetMaxBondDimension()).b("tuni", t.IsBondDimensionUniform()); } else e.i("tmax", 0).b("tuni", false); }
    else if (op == "dump") { int rel; rd(0, 1, 0); is >> rel; std::string ret = "ok"; fg = o[a - 1].g; fs::remove_all(dir + "/d"); fp = P; try { o[a - 1].s.Dump(dir + "/d", rel); } catch (const std::exception &) { ret = "threw"; } e.b("rel", rel).s("ret", ret); }
    else if (op == "dumpbad") { int rel, at; rd(0, 1, 0); is >> how >> rel >> at; std::string ret = "ok", d = dir + "/bad" + std::to_string(id++); auto &q = G[o[a - 1].g - 1]; int n = q.r * q.c, s = at % n; std::string f = GenSplitIndexTPSTenName(d, s / q.c, s % q.c, at % P);
      if (how == "plain") { std::ofstream(d) << "x"; s = 0; } else fs::create_directories(d); if (how == "isdir") fs::create_directories(f); if (how == "full") fs::create_symlink("/dev/full", f); if (how == "meta") { fs::create_directories(d + "/tps_meta.txt"); s = n; } if (how == "mfull") { fs::create_symlink("/dev/full", d + "/tps_meta.txt"); s = n; }
      try { o[a - 1].s.Dump(d, rel); } catch (const std::exception &) { ret = "threw"; } fs::remove_all(d); e.b("rel", rel).i("upto", s).s("ret", ret); }
    else if (op == "load") { rd(0, 1, 0); std::string ret; bool there = fs::exists(dir + "/d"); try { ret = o[a - 1].s.Load(dir + "/d") ? "ok" : "no"; } catch (const std::exception &) { ret = "threw"; } if (ret == "ok") o[a - 1].g = fg; else if (there) o[a - 1] = Slot(); e.s("ret", ret); }
    else if (op == "hurt") { int i; is >> how >> i; e.s("how", how).i("i", i); std::string m = dir + "/d/tps_meta.txt"; auto &q = G[fg - 1]; if (how == "rm") fs::remove_all(dir + "/d"); if (how == "old") { fs::remove(m); std::ofstream(dir + "/d/phys_dim") << fp; } if (how == "nobc") std::ofstream(m) << q.r << " " << q.c << " " << fp; if (how == "bad") { std::ofstream(m) << (i % 3 == 0 ? "" : i % 3 == 1 ? "2 x" : "rubbish here"); } if (how == "cut") { std::string f = tf(i - 1, fp); std::string s; { std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); s = ss.str(); } std::ofstream(f, std::ios::binary | std::ios::trunc) << s.substr(0, s.size() / 3); } if (how == "del") fs::remove(tf(i - 1, fp)); }
    else if (op == "mpi") { int n, x, y, g, full, any; is >> how >> n >> x >> y >> g >> full >> any; int PP = P; auto R = simmpi::run(n, [&](int me) { S s = gen(g, PP, 100 * id + me, full); exact = true; auto v0 = val(s, g, PP); if (how == "bcast") qlpeps::MPI_Bcast(s, MPI_COMM_WORLD, x); else { if (me == x) qlpeps::MPI_Send(s, y, MPI_COMM_WORLD, 7); if (me == y) { if (any & 2) s = S(); qlpeps::MPI_Recv(s, any & 1 ? MPI_ANY_SOURCE : x, MPI_COMM_WORLD, 7); } } simmpi::emit(std::to_string(me) + " " + v0 + " " + val(s, g, PP)); }, {.seed = (uint64_t) id, .mode = (x + y + n) % 3}); ++id;
      std::vector<std::string> u(n, "0"), w(n, "0"); for (auto &l : R.log) { std::istringstream q(l); int me; std::string p, r; q >> me >> p >> r; if (me >= 0 && me < n) { u[me] = p; w[me] = r; } } auto join = [](auto &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return "[" + s + "]"; }; e.s("kind", how).i("a", x).i("b", y).s("verdict", R.verdict).raw("src", join(u)).raw("dst", join(w)); e.out(); return; }
    else if (op == "tps") { int g, fr, fc, bad; is >> g >> how >> fr >> fc >> bad; S s = gen(g, P, 5000 + id, true); auto t = s.GroupIndices(ix(P, OUT)); std::string d = dir + "/t" + std::to_string(id++); bool ok = false, same = false, threw = false, kept = true; TPS<E, QN> u(fr, fc);
      { auto t2 = t; try { t2.Dump(d, how == "r"); ok = u.Load(d); } catch (const std::exception &) {} if (how == "r") { const auto &ct = t2; ok = ok && !ct(0, 0) && !ct(t2.rows() - 1, t2.cols() - 1); } }
      if (ok) { S v = ToSplitIndexTPS(u); S df = v - s; exact = true; same = v.rows() == s.rows() && v.cols() == s.cols() && val(v, g, P) == val(s, g, P); }
      if (bad) { std::string d2 = d + "b"; auto &q = G[g - 1]; int n = q.r * q.c, at = bad % n; if (bad % 5 == 0) { fs::create_directories(d2 + "/tps_meta.txt"); at = 0; } else { fs::create_directories(d2); std::string f = GenTPSTenName(d2, at / q.c, at % q.c); if (bad % 2) fs::create_directories(f); else fs::create_symlink("/dev/full", f); } auto t2 = t; try { t2.Dump(d2, true); } catch (const std::exception &) { threw = true; } for (int i = at; i < n; ++i) { const auto &ct = t2; kept = kept && ct(i / q.c, i % q.c) != nullptr; } fs::remove_all(d2); }
      fs::remove_all(d); e.i("g", g).b("ok", ok).b("same", same).i("bc", (int) u.GetBoundaryCondition()).i("bc0", G[g - 1].bc).b("bad", bad != 0).b("threw", threw).b("kept", kept); e.out(); return; }
    else if (op == "peps") { int g, bad; is >> g >> how >> bad; auto &q = G[g - 1]; using PP = SquareLatticePEPS<E, QN>; PP p(ix(P, OUT), q.r, q.c, (BC) q.bc); std::mt19937 rg(7 + id); for (int i = 0; i < q.r * q.c; ++i) { auto &d = q.d[i]; T t({ix(d[0], IN), ix(d[1], OUT), ix(d[2], OUT), ix(d[3], IN), ix(P, OUT)}); t.alloc(); for (auto &x : t.raw()) x = Num<E>::mk((int) (rg() % 9) - 4, 1); p.Gamma({(size_t) (i / q.c), (size_t) (i % q.c)}) = t; }
      int kk = 0; for (auto *m : {&p.lambda_vert, &p.lambda_horiz}) for (auto &l : *m) { l({0, 0}) = ++kk; }
      std::string base = dir + "/p" + std::to_string(id++), d = base + "/x"; fs::create_directories(base); if (id % 2) fs::create_directories(d); PP orig = p; bool dumped = how == "c" ? std::as_const(p).Dump(d) : p.Dump(d, how == "r"); bool freed = true; if (how == "r") { const PP &cp = p; freed = !cp.Gamma(0, 0) && !cp.lambda_vert(0, 0) && !cp.lambda_horiz(q.r - 1, 0); } PP u(ix(P, OUT), q.r, q.c, (BC) q.bc); bool loaded = u.Load(d), same = loaded && u == orig; int stray = 0; for (auto &x : fs::directory_iterator(base)) stray += x.path().filename() != "x";
      bool refused = true; if (bad) { std::string f = base + "/plain"; std::ofstream(f) << "x"; PP w = orig; refused = !(bad % 2 ? std::as_const(w).Dump(f) : w.Dump(f, true)) && w == orig && !PP(orig).Load(base + "/none"); } fs::remove_all(base); e.i("g", g).b("dumped", dumped).b("loaded", loaded).b("same", same).i("stray", stray).b("rel", how == "r").b("freed", freed).b("bad", bad != 0).b("refused", refused); e.out(); return; }
    std::string ob = objs(); e.b("exact", exact).raw("obj", ob); e.out(); }
};
int main(int, char **argv) { std::string root = argv[1], ln; M<double> md; M<std::complex<double>> mc; char el = 'd'; int sc = 0; std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
  while (std::getline(std::cin, ln)) { std::istringstream is(ln); std::string op; is >> op;
    if (op == "begin") { int P, ng; is >> el >> P >> ng; G.clear(); std::string js = "["; for (int i = 0; i < ng; ++i) { Geo g; is >> g.r >> g.c >> g.bc; std::string ds = "["; for (int s = 0; s < g.r * g.c; ++s) { std::array<int, 4> d; for (auto &x : d) is >> x; g.d.push_back(d); ds += std::string(s ? "," : "") + "[" + std::to_string(d[0]) + "," + std::to_string(d[1]) + "," + std::to_string(d[2]) + "," + std::to_string(d[3]) + "]"; } G.push_back(g); Ev z; z.i("r", g.r).i("c", g.c).i("bc", g.bc).i("p", P).raw("d", ds + "]"); js += (i ? "," : "") + z.o.str() + "}"; }
      std::string d = root + "/s" + std::to_string(sc++); if (sc > 1) fs::remove_all(root + "/s" + std::to_string(sc - 2)); fs::create_directories(d); auto init = [&](auto &m) { m.o.assign(3, {}); m.P = P; m.dir = d; m.fg = 0; m.id = sc * 10; }; init(md); init(mc); Ev e("begin"); e.raw("geo", js + "]"); e.out(); continue; }
    if (el == 'd') md.line(op, is); else mc.line(op, is); } }
