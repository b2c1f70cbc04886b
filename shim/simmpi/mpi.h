// simmpi: a deterministic, in-sandbox stand-in for the subset of MPI the repository uses.
// Ranks are forked processes; every MPI call is a request to the coordinating parent, which acts only when every rank is
// blocked (or finished) and picks the next enabled action from a seeded or enumerated choice sequence. That gives:
// reproducible schedules, ANY_SOURCE nondeterminism, eager or rendezvous sends, exact deadlock detection, and detection of
// mismatched collectives. Outside simmpi::run() every communicator has one rank and calls are local.
#ifndef SIMMPI_MPI_H
#define SIMMPI_MPI_H
#include <cerrno>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <random>
#include <string>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes_; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_IN_PLACE ((void *) -1)
#define MPI_DATATYPE_NULL 0
#define MPI_INT 1
#define MPI_DOUBLE 2
#define MPI_UNSIGNED_LONG_LONG 3
#define MPI_UNSIGNED_LONG 4
#define MPI_CXX_DOUBLE_COMPLEX 5
#define MPI_CHAR 6
#define MPI_UINT64_T 7
#define MPI_UNSIGNED 8
#define MPI_LONG 9
#define MPI_LONG_LONG 10
#define MPI_FLOAT 11
#define MPI_CXX_FLOAT_COMPLEX 12
#define MPI_BYTE 13
#define MPI_C_BOOL 14
#define MPI_CXX_BOOL 14
#define MPI_UINT32_T 15
#define MPI_INT64_T 16
#define MPI_C_DOUBLE_COMPLEX 5
#define MPI_DOUBLE_COMPLEX 5
#define MPI_UINT8_T 17
#define MPI_UNSIGNED_CHAR 17
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_BOR 4
#define MPI_LOR 5
#define MPI_LAND 6
#define MPI_BAND 7
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256

namespace simmpi {
enum { kSend = 1, kRecv, kSendrecv, kColl, kEmit, kDone, kAbort };
enum { cBarrier = 1, cBcast, cReduce, cAllreduce, cGather, cAllgather, cGatherv, cDup, cFree, cScatter };
struct Req { int op = 0, comm = 0, a = 0, b = 0, c = 0, d = 0, dtype = 0, mop = 0, count = 0; uint64_t n = 0; };
struct Rep { int status = 0, src = 0, tag = 0; uint64_t n = 0; };
inline int g_fd = -1, g_rank = 0, g_size = 1; inline long g_calls = 0; inline long g_sig_at = -1; inline int g_sig = 0;
inline std::vector<std::string> *g_local_log = nullptr;
inline int tsize(int t) { switch (t) { case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_UINT32_T: return 4; case MPI_CXX_DOUBLE_COMPLEX: return 16; case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_UINT8_T: return 1; case 0: return 0; default: return 8; } }
inline void wr(int fd, const void *p, size_t n) { const char *q = (const char *) p; while (n) { ssize_t k = ::send(fd, q, n, MSG_NOSIGNAL); if (k < 0) { if (errno == EINTR) continue; _exit(70); } q += k; n -= k; } }
inline bool rd(int fd, void *p, size_t n) { char *q = (char *) p; while (n) { ssize_t k = ::read(fd, q, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; q += k; n -= k; } return true; }
inline Rep call(Req r, const void *data, size_t n, std::vector<char> &out) {
  if (g_sig_at >= 0 && g_calls == g_sig_at) ::raise(g_sig);
  ++g_calls; r.n = n; wr(g_fd, &r, sizeof r); if (n) wr(g_fd, data, n);
  Rep p; if (!rd(g_fd, &p, sizeof p)) _exit(71); out.resize(p.n); if (p.n && !rd(g_fd, out.data(), p.n)) _exit(71); return p;
}
inline void emit(const std::string &s) {
  if (g_fd < 0) { if (g_local_log) g_local_log->push_back(s); else { std::fwrite(s.data(), 1, s.size(), stdout); std::fputc('\n', stdout); } return; }
  Req r; r.op = kEmit; r.n = s.size(); wr(g_fd, &r, sizeof r); wr(g_fd, s.data(), s.size());
}
struct Opts { uint64_t seed = 1; int mode = 2; /* 0 eager, 1 rendezvous, 2 random per message */ bool log_mpi = false; int timeout_ms = 60000; std::vector<int> prefix; std::map<int, std::pair<long, int>> sig; /* rank -> (call index, signal) */ };
struct Result { std::vector<std::string> log; std::vector<std::pair<int, int>> choices; std::string verdict = "ok", detail; int left_over = 0; };

template<class T> inline void fold(void *acc, const void *x, int n, int op) {
  T *a = (T *) acc; const T *b = (const T *) x;
  for (int i = 0; i < n; ++i) {
    if constexpr (std::is_same_v<T, std::complex<double>> || std::is_same_v<T, std::complex<float>>) { if (op == MPI_SUM) a[i] += b[i]; }
    else { switch (op) { case MPI_SUM: a[i] += b[i]; break; case MPI_MAX: if (a[i] < b[i]) a[i] = b[i]; break; case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_LOR: a[i] = (a[i] || b[i]); break; case MPI_LAND: a[i] = (a[i] && b[i]); break; }
      if constexpr (std::is_integral_v<T>) { if (op == MPI_BOR) a[i] |= b[i]; if (op == MPI_BAND) a[i] &= b[i]; } }
  }
}
inline void foldt(void *a, const void *b, int n, int t, int op) {
  switch (t) { case MPI_INT: fold<int>(a, b, n, op); break; case MPI_DOUBLE: fold<double>(a, b, n, op); break; case MPI_CXX_DOUBLE_COMPLEX: fold<std::complex<double>>(a, b, n, op); break;
    case MPI_FLOAT: fold<float>(a, b, n, op); break; case MPI_CXX_FLOAT_COMPLEX: fold<std::complex<float>>(a, b, n, op); break; case MPI_UNSIGNED: case MPI_UINT32_T: fold<uint32_t>(a, b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: fold<int64_t>(a, b, n, op); break; case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_UINT8_T: fold<uint8_t>(a, b, n, op); break; default: fold<uint64_t>(a, b, n, op); }
}

struct Msg { int src, dst, comm, tag; std::vector<char> data; bool rendezvous; long id; };
inline Result run(int n, const std::function<void(int)> &body, Opts o = {}) {
  Result R; std::vector<int> fd(n); std::vector<pid_t> pid(n);
  std::fflush(stdout); std::fflush(stderr);
  for (int r = 0; r < n; ++r) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); std::exit(3); }
    pid[r] = fork(); if (pid[r] < 0) { perror("fork"); std::exit(3); }
    if (pid[r] == 0) {
      for (int q = 0; q < r; ++q) close(fd[q]); close(sv[0]); g_fd = sv[1]; g_rank = r; g_size = n; g_calls = 0; g_local_log = nullptr;
      if (o.sig.count(r)) { g_sig_at = o.sig[r].first; g_sig = o.sig[r].second; }
      int nul = open("/dev/null", O_WRONLY); if (!getenv("SIMMPI_VERBOSE")) { dup2(nul, 1); dup2(nul, 2); }
      try { body(r); }
      catch (const std::exception &e) { std::string w = e.what(); for (char &c : w) if (c == '"' || c == '\\' || (unsigned char) c < 32) c = ' '; emit("{\"op\":\"exc\",\"r\":" + std::to_string(r) + ",\"what\":\"" + w + "\"}"); }
      catch (...) { emit("{\"op\":\"exc\",\"r\":" + std::to_string(r) + ",\"what\":\"?\"}"); }
      std::fflush(stdout); Req q; q.op = kDone; wr(g_fd, &q, sizeof q); char c; (void) rd(g_fd, &c, 1); _exit(0);
    }
    close(sv[1]); fd[r] = sv[0];
  }
  enum { RUN, BLK, FIN }; std::vector<int> st(n, RUN); std::vector<Req> rq(n); std::vector<std::vector<char>> dat(n); std::vector<bool> sdone(n, true), rdone(n, true); std::vector<Rep> rrep(n); std::vector<std::vector<char>> rdat(n);
  std::deque<Msg> net; long mid = 0; std::map<int, int> dupseq; int nextcomm = 10; std::mt19937_64 rng(o.seed); size_t cp = 0; bool stop = false;
  auto choose = [&](int k) { int c = 0; if (k > 1) { if (cp < o.prefix.size()) c = o.prefix[cp]; else if (o.seed) c = (int) (rng() % (uint64_t) k); R.choices.push_back({c, k}); ++cp; if (c >= k) c = k - 1; } return c; };
  auto ev = [&](const std::string &s) { R.log.push_back(s); };
  auto reply = [&](int r, Rep p, const std::vector<char> &d) { p.n = d.size(); wr(fd[r], &p, sizeof p); if (!d.empty()) wr(fd[r], d.data(), d.size()); st[r] = RUN; };
  auto i32 = [](const std::vector<char> &d) { if (d.size() == 4) { int v; memcpy(&v, d.data(), 4); return std::to_string(v); } return std::string("-1"); };
  auto fail = [&](const char *v, std::string d) { R.verdict = v; R.detail = d; stop = true; };
  while (!stop) {
    for (int r = 0; r < n && !stop; ++r) while (st[r] == RUN) {
      pollfd p{fd[r], POLLIN, 0}; int k = poll(&p, 1, o.timeout_ms); if (k < 0 && errno == EINTR) continue;
      if (k == 0) { fail("hang", "rank " + std::to_string(r) + " neither finished nor called MPI"); break; }
      Req q; if (!rd(fd[r], &q, sizeof q)) { int w = 0; waitpid(pid[r], &w, 0); pid[r] = -1; fail("crash", "rank " + std::to_string(r) + " status " + std::to_string(w)); break; }
      std::vector<char> d(q.n); if (q.n && !rd(fd[r], d.data(), q.n)) { fail("crash", "rank " + std::to_string(r)); break; }
      if (q.op == kEmit) { ev(std::string(d.begin(), d.end())); continue; }
      if (q.op == kAbort) { fail("abort", "rank " + std::to_string(r) + " code " + std::to_string(q.a)); break; }
      if (q.op == kDone) { st[r] = FIN; break; }
      st[r] = BLK; rq[r] = q; dat[r] = d; sdone[r] = rdone[r] = true;
      if (q.op == kSend || q.op == kSendrecv) {
        bool rv = o.mode == 1 || (o.mode == 2 && choose(2)); if (q.a < 0 || q.a >= n) { fail("error", "send to rank " + std::to_string(q.a)); break; }
        net.push_back({r, q.a, q.comm, q.b, d, rv, mid++}); sdone[r] = !rv; if (q.op == kSendrecv) rdone[r] = false;
        if (o.log_mpi) ev("{\"op\":\"send\",\"r\":" + std::to_string(r) + ",\"peer\":" + std::to_string(q.a) + ",\"tag\":" + std::to_string(q.b) + ",\"n\":" + std::to_string(d.size()) + ",\"v\":" + i32(d) + "}");
      } else if (q.op == kRecv) rdone[r] = false;
    }
    if (stop) break;
    // enabled actions: (kind, rank, msg index)
    struct Act { int kind, r; size_t m; }; std::vector<Act> acts; bool alldone = true;
    for (int r = 0; r < n; ++r) { if (st[r] != FIN) alldone = false; if (st[r] != BLK) continue; const Req &q = rq[r];
      if (q.op == kColl) { continue; }
      if (sdone[r] && rdone[r]) { acts.push_back({0, r, 0}); continue; }
      if (!rdone[r]) { int want = q.op == kRecv ? q.a : q.c, tag = q.op == kRecv ? q.b : q.d; std::vector<bool> seen(n, false);
        for (size_t m = 0; m < net.size(); ++m) { const Msg &g = net[m]; if (g.dst != r || g.comm != q.comm || (tag != MPI_ANY_TAG && g.tag != tag) || (want != MPI_ANY_SOURCE && g.src != want) || seen[g.src]) continue; seen[g.src] = true; acts.push_back({1, r, m}); } } }
    if (alldone) break;
    { std::map<int, std::vector<int>> by; for (int r = 0; r < n; ++r) if (st[r] == BLK && rq[r].op == kColl) by[rq[r].comm].push_back(r);
      for (auto &kv : by) if ((int) kv.second.size() == n) acts.push_back({2, kv.first, 0}); }
    if (acts.empty()) { std::string d; for (int r = 0; r < n; ++r) d += " r" + std::to_string(r) + (st[r] == FIN ? ":finished" : ":op" + std::to_string(rq[r].op) + "/" + std::to_string(rq[r].a) + "/" + std::to_string(rq[r].b)); fail("deadlock", d); break; }
    Act A = acts[choose((int) acts.size())];
    if (A.kind == 0) { reply(A.r, rrep[A.r], rdat[A.r]); rrep[A.r] = Rep(); rdat[A.r].clear(); }
    else if (A.kind == 1) { Msg g = net[A.m]; net.erase(net.begin() + A.m); const Req &q = rq[A.r];
      if (g.data.size() > (size_t) (q.op == kRecv ? (uint64_t) q.count : (uint64_t) q.count)) { fail("truncate", "message of " + std::to_string(g.data.size()) + " bytes into " + std::to_string(q.count)); break; }
      if (o.log_mpi) ev("{\"op\":\"recv\",\"r\":" + std::to_string(A.r) + ",\"peer\":" + std::to_string(g.src) + ",\"tag\":" + std::to_string(g.tag) + ",\"n\":" + std::to_string(g.data.size()) + ",\"v\":" + i32(g.data) + "}");
      rrep[A.r].src = g.src; rrep[A.r].tag = g.tag; rdat[A.r] = g.data; rdone[A.r] = true;
      if (g.rendezvous) { sdone[g.src] = true; if (rdone[g.src] && g.src != A.r) { reply(g.src, rrep[g.src], rdat[g.src]); rrep[g.src] = Rep(); rdat[g.src].clear(); } }
      if (st[A.r] == BLK && sdone[A.r] && rdone[A.r]) { reply(A.r, rrep[A.r], rdat[A.r]); rrep[A.r] = Rep(); rdat[A.r].clear(); } }
    else { Req q0 = rq[0]; bool bad = false; for (int r = 1; r < n; ++r) { const Req &q = rq[r]; if (q.a != q0.a || q.b != q0.b || q.mop != q0.mop || (q.a != cGatherv && (q.dtype != q0.dtype || q.count != q0.count))) bad = true; }
      if (bad) { std::string d; for (int r = 0; r < n; ++r) d += " r" + std::to_string(r) + ":kind" + std::to_string(rq[r].a) + "/root" + std::to_string(rq[r].b) + "/type" + std::to_string(rq[r].dtype) + "/count" + std::to_string(rq[r].count); fail("mismatch", d); break; }
      if (o.log_mpi) ev("{\"op\":\"coll\",\"kind\":" + std::to_string(q0.a) + ",\"root\":" + std::to_string(q0.b) + ",\"count\":" + std::to_string(q0.count) + "}");
      std::vector<std::vector<char>> out(n); Rep p; int root = q0.b;
      switch (q0.a) {
        case cBarrier: case cFree: break;
        case cDup: p.tag = nextcomm++; break;
        case cBcast: for (int r = 0; r < n; ++r) if (r != root) out[r] = dat[root]; break;
        case cReduce: case cAllreduce: { auto acc = dat[0]; for (int r = 1; r < n; ++r) foldt(acc.data(), dat[r].data(), q0.count, q0.dtype, q0.mop); for (int r = 0; r < n; ++r) if (q0.a == cAllreduce || r == root) out[r] = acc; break; }
        case cGather: case cAllgather: case cGatherv: { std::vector<char> all; for (int r = 0; r < n; ++r) { if (q0.a == cGatherv) { uint64_t s = dat[r].size(); all.insert(all.end(), (char *) &s, (char *) &s + 8); } all.insert(all.end(), dat[r].begin(), dat[r].end()); } for (int r = 0; r < n; ++r) if (q0.a == cAllgather || r == root) out[r] = all; break; }
      }
      for (int r = 0; r < n; ++r) reply(r, p, out[r]); }
  }
  R.left_over = (int) net.size();
  for (int r = 0; r < n; ++r) { if (pid[r] > 0 && (R.verdict != "ok")) kill(pid[r], SIGKILL); close(fd[r]); }
  for (int r = 0; r < n; ++r) if (pid[r] > 0) { int w; waitpid(pid[r], &w, 0); }
  return R;
}
// depth-first enumeration of every schedule of `body`, at most `limit` of them; visit(result) for each
inline long explore(int n, const std::function<void(int)> &body, Opts o, long limit, const std::function<void(const Result &)> &visit, bool *complete = nullptr) {
  o.seed = 0; o.prefix.clear(); long k = 0;
  for (;;) { Result R = run(n, body, o); visit(R); ++k; auto c = R.choices; while (!c.empty() && c.back().first + 1 >= c.back().second) c.pop_back(); if (c.empty()) { if (complete) *complete = true; return k; } if (k >= limit) { if (complete) *complete = false; return k; } o.prefix.clear(); for (auto &x : c) o.prefix.push_back(x.first); o.prefix.back()++; }
}
inline int coll(int kind, int root, MPI_Comm comm, int dtype, int mop, int count, const void *in, size_t nin, std::vector<char> &out, int *tag = nullptr) {
  Req q; q.op = kColl; q.comm = comm; q.a = kind; q.b = root; q.dtype = dtype; q.mop = mop; q.count = count; Rep p = call(q, in, nin, out); if (tag) *tag = p.tag; return 0;
}
inline bool solo(MPI_Comm c) { return g_fd < 0 || c == MPI_COMM_SELF; }
} // namespace simmpi

inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = 3; return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Finalized(int *f) { *f = 0; return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { *r = simmpi::solo(c) ? 0 : simmpi::g_rank; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *s) { *s = simmpi::solo(c) ? 1 : simmpi::g_size; return 0; }
inline double MPI_Wtime() { return 0.0; }
inline int MPI_Abort(MPI_Comm, int code) { if (simmpi::g_fd >= 0) { simmpi::Req q; q.op = simmpi::kAbort; q.a = code; simmpi::wr(simmpi::g_fd, &q, sizeof q); for (;;) pause(); } std::fflush(stdout); _exit(42); }
inline int MPI_Error_string(int, char *s, int *n) { std::strcpy(s, "simmpi"); *n = 6; return 0; }
inline int MPI_Type_size(MPI_Datatype t, int *s) { *s = simmpi::tsize(t); return 0; }
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int) (s->bytes_ / simmpi::tsize(t)); return 0; }
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
  if (simmpi::solo(c)) { std::fprintf(stderr, "simmpi: MPI_Send on a one-rank communicator\n"); _exit(3); }
  simmpi::Req q; q.op = simmpi::kSend; q.comm = c; q.a = dst; q.b = tag; std::vector<char> o; simmpi::call(q, b, (size_t) n * simmpi::tsize(t), o); return 0; }
inline int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
inline void simmpi_st(MPI_Status *s, const simmpi::Rep &p, size_t n) { if (s) { s->MPI_SOURCE = p.src; s->MPI_TAG = p.tag; s->MPI_ERROR = 0; s->bytes_ = n; } }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) {
  if (simmpi::solo(c)) { std::fprintf(stderr, "simmpi: MPI_Recv on a one-rank communicator\n"); _exit(3); }
  simmpi::Req q; q.op = simmpi::kRecv; q.comm = c; q.a = src; q.b = tag; q.count = n * simmpi::tsize(t); std::vector<char> o; auto p = simmpi::call(q, nullptr, 0, o); if (!o.empty()) std::memcpy(b, o.data(), o.size()); simmpi_st(s, p, o.size()); return 0; }
inline int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int dst, int stag, void *rb, int rn, MPI_Datatype rtp, int src, int rtag, MPI_Comm c, MPI_Status *s) {
  if (simmpi::solo(c)) { if (sb != rb && sn) std::memcpy(rb, sb, (size_t) sn * simmpi::tsize(stp)); return 0; }
  simmpi::Req q; q.op = simmpi::kSendrecv; q.comm = c; q.a = dst; q.b = stag; q.c = src; q.d = rtag; q.count = rn * simmpi::tsize(rtp); std::vector<char> o; auto p = simmpi::call(q, sb, (size_t) sn * simmpi::tsize(stp), o); if (!o.empty()) std::memcpy(rb, o.data(), o.size()); simmpi_st(s, p, o.size()); return 0; }
inline int MPI_Barrier(MPI_Comm c) { if (simmpi::solo(c)) return 0; std::vector<char> o; return simmpi::coll(simmpi::cBarrier, 0, c, 0, 0, 0, nullptr, 0, o); }
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { if (simmpi::solo(c)) return 0; std::vector<char> o; size_t z = (size_t) n * simmpi::tsize(t); simmpi::coll(simmpi::cBcast, root, c, t, 0, n, b, simmpi::g_rank == root ? z : 0, o); if (simmpi::g_rank != root && z) std::memcpy(b, o.data(), z); return 0; }
inline int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { size_t z = (size_t) n * simmpi::tsize(t); if (simmpi::solo(c)) { if (s != MPI_IN_PLACE && z) std::memcpy(r, s, z); return 0; } std::vector<char> o; simmpi::coll(simmpi::cReduce, root, c, t, op, n, s == MPI_IN_PLACE ? r : s, z, o); if (!o.empty()) std::memcpy(r, o.data(), o.size()); return 0; }
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { size_t z = (size_t) n * simmpi::tsize(t); if (simmpi::solo(c)) { if (s != MPI_IN_PLACE && z) std::memcpy(r, s, z); return 0; } std::vector<char> o; simmpi::coll(simmpi::cAllreduce, 0, c, t, op, n, s == MPI_IN_PLACE ? r : s, z, o); if (!o.empty()) std::memcpy(r, o.data(), o.size()); return 0; }
inline int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { size_t z = (size_t) sn * simmpi::tsize(st); if (simmpi::solo(c)) { if (s != MPI_IN_PLACE && z) std::memcpy(r, s, z); return 0; } std::vector<char> o; simmpi::coll(simmpi::cGather, root, c, st, 0, sn, s, z, o); if (!o.empty()) std::memcpy(r, o.data(), o.size()); return 0; }
inline int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { size_t z = (size_t) sn * simmpi::tsize(st); if (simmpi::solo(c)) { if (s != MPI_IN_PLACE && z) std::memcpy(r, s, z); return 0; } std::vector<char> o; const void *in = s; if (s == MPI_IN_PLACE) { z = (size_t) rn * simmpi::tsize(rt); in = (char *) r + simmpi::g_rank * z; sn = rn; st = rt; } simmpi::coll(simmpi::cAllgather, 0, c, st, 0, sn, in, z, o); if (!o.empty()) std::memcpy(r, o.data(), o.size()); return 0; }
inline int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *cnt, const int *dis, MPI_Datatype rt, int root, MPI_Comm c) {
  size_t z = (size_t) sn * simmpi::tsize(st); if (simmpi::solo(c)) { if (z) std::memcpy((char *) r + (size_t) dis[0] * simmpi::tsize(rt), s, z); return 0; }
  std::vector<char> o; simmpi::coll(simmpi::cGatherv, root, c, st, 0, sn, s, z, o);
  if (simmpi::g_rank == root) { size_t off = 0; for (int k = 0; k < simmpi::g_size; ++k) { uint64_t m; std::memcpy(&m, o.data() + off, 8); off += 8; if (m != (size_t) cnt[k] * simmpi::tsize(rt)) { simmpi::emit("{\"op\":\"gatherv_mismatch\"}"); MPI_Abort(c, 99); } if (m) std::memcpy((char *) r + (size_t) dis[k] * simmpi::tsize(rt), o.data() + off, m); off += m; } } return 0; }
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { if (simmpi::solo(c)) { *out = c; return 0; } std::vector<char> o; int id; simmpi::coll(simmpi::cDup, 0, c, 0, 0, 0, nullptr, 0, o, &id); *out = id; return 0; }
inline int MPI_Comm_free(MPI_Comm *c) { if (!simmpi::solo(*c)) { std::vector<char> o; simmpi::coll(simmpi::cFree, 0, *c, 0, 0, 0, nullptr, 0, o); } *c = MPI_COMM_NULL; return 0; }
inline int MPI_Dims_create(int n, int nd, int *d) { if (nd == 2) { int a = 1; for (int k = 1; k * k <= n; ++k) if (n % k == 0) a = k; d[0] = n / a; d[1] = a; } else if (nd == 1) d[0] = n; return 0; }
#endif
