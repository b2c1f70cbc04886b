// filesystem_utils under an adversary: every stat-like and mkdir call of the code under test is a scheduling point at
// which "another process" may act, or (mkdir) a fault may be injected. All effects stay below cwd (a scratch directory).
#include "hc.h"
#include <cerrno>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "qlpeps/utility/filesystem_utils.h"
namespace fs = std::filesystem;
static const char *PRE[3] = {"x", "x/y", "x/y/z"};
static bool g_on = false; static int g_point = 0, g_at = -1, g_fault_at = -1, g_fault = 0, g_mk = 0; static std::string g_act; static bool g_acted = false;
static bool raw_mkdir(const char *p) { return syscall(SYS_mkdirat, AT_FDCWD, p, 0755) == 0; }
static void raw_file(const char *p) { int f = syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f >= 0) { (void) !write(f, "keep", 4); syscall(SYS_close, f); } }
static int kind(const char *p) { struct ::stat st; if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) != 0) return 0; return S_ISDIR(st.st_mode) ? 1 : 2; }
static std::vector<long long> kinds() { return {kind(PRE[0]), kind(PRE[1]), kind(PRE[2])}; }
static void act(const std::string &a) {   // d1..d3: create directories up to depth k; f1..f3: plain file at depth k (parents must exist)
  int k = a[1] - '0';
  if (a[0] == 'd') for (int i = 0; i < k; ++i) raw_mkdir(PRE[i]);
  else raw_file(PRE[k - 1]);
}
static void point() { if (!g_on) return; if (g_point++ == g_at) { act(g_act); g_acted = true; } }
extern "C" {
int mkdir(const char *p, mode_t m) { point(); if (g_on && g_mk++ == g_fault_at) { errno = g_fault; return -1; } return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int stat(const char *p, struct stat *s) { point(); return (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { point(); return (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
}
int main() {
  std::string line; std::ios::sync_with_stdio(true);
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string fn, path, pre; int at, fat, fno; is >> fn >> path >> pre >> at >> g_act >> fat >> fno;
    if (path == "EMPTY") path = ""; if (path == "LONG") path = std::string(300, 'q'); if (path == "VLONG") { path = ""; for (int i = 0; i < 600; ++i) path += "qqqqqqq/"; }
    for (const char *p : {"x", "q", "l"}) fs::remove_all(p);
    if (path.rfind("l/", 0) == 0) { fs::create_directory_symlink("x", "l"); }
    // pre: "-" nothing, d<k>, f<k> (directories up to k-1, file at k), D<k>: as d<k> plus a user file "k" inside the deepest
    if (pre[0] == 'd' || pre[0] == 'D') act("d" + pre.substr(1));
    if (pre[0] == 'f') { int k = pre[1] - '0'; if (k > 1) act("d" + std::to_string(k - 1)); act(pre); }
    std::string keep; if (pre[0] == 'D') { keep = std::string(PRE[pre[1] - '1']) + "/k"; raw_file(keep.c_str()); } if (pre[0] == 'f') keep = PRE[pre[1] - '1'];
    auto before = kinds(); g_point = 0; g_mk = 0; g_at = at; g_fault_at = fat; g_fault = fno; g_acted = false; std::string exc; int r = -1; std::vector<long long> b1;
    hc::Ev("begin").s("fn", fn).s("path", path.size() > 60 ? "LONG" : path).iv("k", before).out();
    std::fflush(stdout);
    int sv = dup(1); int nul = open("/dev/null", O_WRONLY); std::cout.flush(); dup2(nul, 1);
    g_on = true;
    try { if (fn == "exist") r = qlpeps::IsPathExist(path); else if (fn == "create") r = qlpeps::CreatePath(path); else if (fn == "ensure") r = qlpeps::EnsureDirectoryExists(path); else hc::setup_error(fn); }
    catch (...) { r = 2; }
    g_on = false; std::cout.flush(); dup2(sv, 1); close(sv); close(nul);
    bool kept = keep.empty(); if (!kept) { std::ifstream f(keep); std::string t; std::getline(f, t); kept = t == "keep"; }
    hc::Ev("ret").i("r", r).b("acted", g_acted).s("act", g_acted ? g_act : "-").b("faulted", fat >= 0 && g_mk > fat).iv("k", kinds()).b("kept", kept).i("npoints", g_point).out();
  }
}
