#include <atomic>
#include <thread>
#include "h.h"
#include <sys/stat.h>
#include <locale.h>
#include <locale>
#include <cstdarg>
#include <fstream>
#include <mutex>
#include <sstream>
#include <unistd.h>
#include <cmath>

namespace H {
static std::mutex mx;
static std::map<std::string, uint64_t> counts;
static std::map<std::string, std::set<uint64_t>> distinct;
static int samples = 0;
static FILE* rep = nullptr;
std::map<std::string, Cmd>& Cmds() { static std::map<std::string, Cmd> m; return m; }
Reg::Reg(const char* n, Cmd f) { Cmds()[n] = f; }
std::string Fmt(const char* fmt, ...) {
  va_list a; va_start(a, fmt); char b[8192]; int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (n < 0) return ""; if ((size_t)n < sizeof b) return std::string(b, n);
  std::string s(n + 1, 0); va_start(a, fmt); vsnprintf(&s[0], n + 1, fmt, a); va_end(a); s.resize(n); return s;
}
void Out(const char* fmt, ...) {
  va_list a; va_start(a, fmt); std::lock_guard<std::mutex> l(mx);
  if (!rep) rep = stdout;
  vfprintf(rep, fmt, a); va_end(a); fputc('\n', rep); fflush(rep);
}
void CaseBegin(uint64_t id) { Out("CASE\t%llu", (unsigned long long)id); }
int ForCases(const Args& a, const std::function<void(uint64_t)>& body) {
  uint64_t st = strtoull(a[1].c_str(), 0, 10), n = strtoull(a[2].c_str(), 0, 10); bool rev = getenv("VR_REVERSE"); int k = getenv("VR_PAR") ? atoi(getenv("VR_PAR")) : 0;
  if (k < 2) { for (uint64_t j = 0; j < n; j++) { uint64_t i = rev ? st + n - 1 - j : st + j; CaseBegin(i); body(i); CaseEnd(i); } return 0; }
  CaseBegin(st); std::vector<std::thread> t; std::atomic<int> ready{0};
  for (int j = 0; j < k; j++) t.emplace_back([&, j] { Home(std::string(getenv("VR_HOME")) + "/t" + std::to_string(j)); ready++; while (ready < k) std::this_thread::yield(); for (uint64_t i = st + j; i < st + n; i += k) { body(i); Count("cases beside others"); } });
  for (auto& x : t) x.join();
  CaseEnd(st); for (uint64_t i = st + 1; i < st + n; i++) { CaseBegin(i); CaseEnd(i); } return 0;
}
void CaseEnd(uint64_t id) { Out("END\t%llu", (unsigned long long)id); }
void Fail(const std::string& key, const std::string& detail) { Out("FAIL\t%s\t%s", Esc(key).c_str(), Esc(detail.substr(0, 3000)).c_str()); }
void Count(const std::string& n, uint64_t k) { std::lock_guard<std::mutex> l(mx); counts[n] += k; }
static uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
void Distinct(const std::string& n, const std::string& v) { std::lock_guard<std::mutex> l(mx); auto& d = distinct[n]; if (d.size() < 400000) d.insert(fnv(v)); }
void Sample(const std::string& s) { { std::lock_guard<std::mutex> l(mx); if (samples++ >= 3) return; } Out("SAMPLE\t%s", Esc(s.substr(0, 1500)).c_str()); }
std::string Esc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c <= 32 || c == '%' || c >= 127) { char b[4]; snprintf(b, 4, "%%%02X", c); o += b; } else o += (char)c; }
  return o;
}
std::string Unesc(const std::string& s) {
  std::string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i];
  return o;
}
std::vector<std::string> Split(const std::string& s, char sep) { std::vector<std::string> v; std::string c; for (char ch : s) if (ch == sep) { v.push_back(c); c.clear(); } else c += ch; v.push_back(c); return v; }
std::string Hex(const void* p, size_t n) { std::string o; const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { char t[3]; snprintf(t, 3, "%02x", b[i]); o += t; } return o; }
std::string ReadAll(const std::string& path, bool* ok) { struct stat st; if (stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { if (ok) *ok = false; return ""; } std::ifstream f(path, std::ios::binary); if (ok) *ok = (bool)f; std::stringstream s; s << f.rdbuf(); return s.str(); }
bool WriteAll(const std::string& path, const std::string& d) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); f.close(); return (bool)f; }
// (numbers of ours are written and read the same in every locale)
struct CNum { locale_t o; CNum() { static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0); o = uselocale(c); } ~CNum() { uselocale(o); } };
double ToD(const char* s) { CNum c; return strtod(s, 0); }
std::string Num(double v) { CNum c; return Fmt("%.17g", v); }
std::string D(double v) { CNum loc; if (std::isnan(v)) return "nan"; for (int p = 1; p <= 17; p++) { char b[64]; snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, 0) == v) return b; } return "?"; }
std::string Scratch() { const char* r = getenv("VR_ROOT"); return r ? r : ""; }
}

template <class C> struct Comma : std::numpunct<C> { C do_decimal_point() const override { return ','; } C do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
int main(int argc, char** argv) {
  setenv("LC_ALL", "C.UTF-8", 1);
  // Reports go to fd 3 when the runner opened it, so that library output on stdout cannot garble them.
  if (getenv("VR_FD")) H::rep = fdopen(atoi(getenv("VR_FD")), "w");
  if (argc < 2 || !H::Cmds().count(argv[1])) { fprintf(stderr, "unknown command\n"); for (auto& c : H::Cmds()) fprintf(stderr, " %s\n", c.first.c_str()); return 90; }
  if (H::Scratch().empty()) { fprintf(stderr, "VR_ROOT not set\n"); return 90; }
  if (const char* l = getenv("VR_LOCALE")) {   // numbers as in that locale, for the C library and for streams
    std::locale::global(std::locale(std::locale(std::locale::classic(), new Comma<char>), new Comma<wchar_t>));
    if (!setlocale(LC_NUMERIC, l) || strtod("2,5", 0) != 2.5) { fprintf(stderr, "no locale %s\n", l); return 90; }
  }
  if (const char* t = getenv("VR_CLOCK")) H::Clock(strtoll(t, 0, 10));
  H::Args a; for (int i = 2; i < argc; i++) a.push_back(argv[i]);
  int r = H::Cmds()[argv[1]](a);
  for (auto& e : H::Io::Escapes()) H::Out("ESCAPE\t%s", H::Esc(e).c_str());
  for (auto& c : H::counts) H::Out("COUNT\t%s\t%llu", H::Esc(c.first).c_str(), (unsigned long long)c.second);
  for (auto& c : H::distinct) for (auto v : c.second) H::Out("DIST\t%s\t%llx", H::Esc(c.first).c_str(), (unsigned long long)v);
  H::Out("DONE\t%d", r);
  return r;
}
