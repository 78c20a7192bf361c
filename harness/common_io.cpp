// Stand-ins for the file-system calls of the library: they keep destructive effects inside VR_ROOT,
// can fail a chosen operation, and record what was asked. getpwuid gives the library a scratch home.
#include "h.h"
#include <cerrno>
#include <mutex>
#include <pwd.h>
#include <sys/stat.h>
#include <unistd.h>

namespace H { namespace Io {
static std::recursive_mutex mx;
static long ops = 0, failAt = 0, fired = 0;
static std::string filter;
bool record = false;
std::vector<IoEvent>& Log() { static std::vector<IoEvent> v; return v; }
std::vector<std::string>& Escapes() { static std::vector<std::string> v; return v; }
void FailAt(long k, const char* f) { std::lock_guard<std::recursive_mutex> l(mx); failAt = k; filter = f ? f : ""; ops = 0; fired = 0; }
long Ops() { return ops; }
long Fired() { return fired; }
void Reset() { std::lock_guard<std::recursive_mutex> l(mx); ops = 0; fired = 0; failAt = 0; Log().clear(); }
static bool hit(const char* op, const char* path, long n) {
  std::lock_guard<std::recursive_mutex> l(mx);
  if (record) Log().push_back({op, path ? path : "", n});
  if (!filter.empty() && filter.find(std::string(",") + op + ",") == std::string::npos) return false;
  ops++;
  if ((failAt > 0 && ops == failAt) || (failAt < 0 && ops >= -failAt)) { fired++; return true; }
  return false;
}
static std::string norm(const char* p) {
  std::string s = p ? p : ""; if (s.empty() || s[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) s = std::string(b) + "/" + s; }
  std::vector<std::string> out; for (auto& c : Split(s, '/')) { if (c.empty() || c == ".") continue; if (c == "..") { if (!out.empty()) out.pop_back(); } else out.push_back(c); }
  std::string r; for (auto& c : out) r += "/" + c; return r.empty() ? "/" : r;
}
static bool outside(const char* op, const char* p) {
  std::string r = norm(Scratch().c_str()), n = norm(p);
  if (n == r || n.compare(0, r.size() + 1, r + "/") == 0) return false;
  if (n == "/dev/null" || n == "/dev/full") return false;
  std::lock_guard<std::recursive_mutex> l(mx); if (Escapes().size() < 200) Escapes().push_back(std::string(op) + " " + n); return true;
}
}}
using namespace H;

static thread_local std::string gHome;
static volatile long long gClock = 0;
namespace H { void Clock(long long t) { gClock = t; } }
// The functions of <ctype.h> are defined for EOF and the values of unsigned char only: anything else stops the run.
// (glibc defines tolower and toupper for every int.)
#define CT(f) extern "C" { int __real_##f(int); int __wrap_##f(int c) { if (c < -1 || c > 255) { fprintf(stderr, "ctype: %s(%d)\n", #f, c); *(volatile int*)8 = 1; } return __real_##f(c); } }
CT(isdigit) CT(isalpha) CT(isalnum) CT(isspace) CT(isupper) CT(islower) CT(ispunct) CT(isxdigit) CT(isprint)
extern "C" { time_t __real_time(time_t*); time_t __wrap_time(time_t* o) { time_t t = gClock ? (time_t)gClock : __real_time(nullptr); if (o) *o = t; return t; } }
namespace H { void Home(const std::string& h) { gHome = h; } }
extern "C" {
struct passwd* getpwuid(uid_t uid) {
  static thread_local struct passwd pw; static thread_local std::string home;
  const char* h = getenv("VR_HOME"); home = !gHome.empty() ? gHome.c_str() : h ? h : "/nonexistent";
  memset(&pw, 0, sizeof pw); pw.pw_name = (char*)"verif"; pw.pw_dir = (char*)home.c_str(); pw.pw_shell = (char*)"/bin/false"; pw.pw_uid = uid; return &pw;
}
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) {
  if (strpbrk(m, "wa+")) { if (Io::outside("fopen", p)) { errno = EACCES; return nullptr; } }
  if (Io::hit(strpbrk(m, "wa+") ? "openw" : "openr", p, 0)) { errno = EMFILE; return nullptr; }
  return __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { if (Io::hit("fread", "", (long)(s * n))) { errno = EIO; return 0; } return __real_fread(b, s, n, f); }
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) {
  if (f != stdout && f != stderr && Io::hit("fwrite", "", (long)(s * n))) { errno = ENOSPC; size_t part = s * n / 2; if (part) __real_fwrite(b, 1, part, f); return part / s; }
  return __real_fwrite(b, s, n, f);
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {   // (what was not on disk yet is lost when it fails)
  bool h = Io::hit("fclose", "", 0); int fd = h ? dup(fileno(f)) : -1; int r = __real_fclose(f);
  if (h) { off_t n = lseek(fd, 0, SEEK_END); if (n > 0) (void)!ftruncate(fd, n / 2); close(fd); errno = ENOSPC; return EOF; } return r;
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) { if (f && f != stdout && f != stderr && Io::hit("fflush", "", 0)) { errno = ENOSPC; return EOF; } return __real_fflush(f); }
int __real_fsync(int);
int __wrap_fsync(int fd) { (void)fd; if (Io::hit("fsync", "", 0)) { errno = EIO; return -1; } return 0; }
int __real_remove(const char*);
int __wrap_remove(const char* p) { if (Io::outside("remove", p)) { errno = EACCES; return -1; } if (Io::hit("remove", p, 0)) { errno = EBUSY; return -1; } return __real_remove(p); }
int __real_unlink(const char*);
int __wrap_unlink(const char* p) { if (Io::outside("unlink", p)) { errno = EACCES; return -1; } if (Io::hit("unlink", p, 0)) { errno = EBUSY; return -1; } return __real_unlink(p); }
int __real_rmdir(const char*);
int __wrap_rmdir(const char* p) { if (Io::outside("rmdir", p)) { errno = EACCES; return -1; } if (Io::hit("rmdir", p, 0)) { errno = EBUSY; return -1; } return __real_rmdir(p); }
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) { if (Io::outside("rename", a) || Io::outside("rename", b)) { errno = EACCES; return -1; } if (Io::hit("rename", a, 0)) { errno = EBUSY; return -1; } return __real_rename(a, b); }
int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* p, mode_t m) {
  struct stat st; // creating an existing directory is harmless
  if (stat(p, &st) != 0 && Io::outside("mkdir", p)) { errno = EACCES; return -1; }
  if (Io::hit("mkdir", p, 0)) { errno = ENOSPC; return -1; } return __real_mkdir(p, m);
}
}
