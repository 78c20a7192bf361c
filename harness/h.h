// Common part of the harness: command registry, PRNG, reporting, token codec.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace H {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) u64(); }
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
  template <class V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
};
// Reporting: one line per event on the report stream (fd of VR_OUT or stdout).
void Out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void CaseBegin(uint64_t id);            // names the case that runs now (crash attribution)
void CaseEnd(uint64_t id);
void Fail(const std::string& key, const std::string& detail);  // a property violation with a stable key
void Count(const std::string& name, uint64_t n = 1);           // observed events
void Distinct(const std::string& name, const std::string& v);  // distinct observed values
void Sample(const std::string& s);                              // a written-out case
std::string Esc(const std::string& s);  // %XX escaping of control chars, space, %, non-ASCII
std::string Unesc(const std::string& s);
std::vector<std::string> Split(const std::string& s, char sep);
std::string Hex(const void* p, size_t n);
std::string ReadAll(const std::string& path, bool* ok = nullptr);
bool WriteAll(const std::string& path, const std::string& data);
std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
double ToD(const char* s); std::string Num(double v);                         // in every locale alike
std::string D(double v);  // shortest exact text of a double
using Args = std::vector<std::string>;
using Cmd = int (*)(const Args&);
int ForCases(const Args& a, const std::function<void(uint64_t)>& body);   // cases a[1].. (a[2] of them), in VR_PAR threads with a home of their own if that is set
void Clock(long long t);                                                  // what time() says from now on (0: the truth)
void Home(const std::string& h);                                          // the home of this thread
struct Reg { Reg(const char* name, Cmd f); };
std::map<std::string, Cmd>& Cmds();
std::string Scratch();  // VR_ROOT

// I/O stand-ins (io.cpp)
struct IoEvent { std::string op, path; long n; };
namespace Io {
void FailAt(long k, const char* opFilter);  // k-th (1-based) matching operation fails (-k: all from the k-th on); 0 counts only
long Ops();                                  // operations seen since last Reset
long Fired();
void Reset();
extern bool record;
std::vector<IoEvent>& Log();
std::vector<std::string>& Escapes();         // destructive operations aimed outside VR_ROOT (refused)
}
}
