// Reading is given up at chosen moments; what is there then has to be usable, and the next reading complete.
#pragma once
#include "tree.h"
#include <functional>
namespace Abort {
typedef std::function<void(bool&)> Callback;
typedef std::function<std::unique_ptr<Node>(unsigned& status)> Read;      // reads the document and dumps it
typedef std::vector<std::vector<std::string>> Order;                      // the parts of a document as they are read
// What was read is a part of the whole: the first children of each kind at any place, under the same names, all but the last one complete
// (geometries are read without a question, only the lists in them ask).
inline std::string Part(const Node& a, const Node& w, const std::string& at, bool full) {
  std::map<std::string, std::vector<const Node*>> x, y; for (auto& c : a.c) x[c->tag].push_back(c.get()); for (auto& c : w.c) y[c->tag].push_back(c.get());
  for (auto& k : y) { if (k.first[0] == '~') continue; if (full && x[k.first].size() != k.second.size()) return H::Fmt("%s is followed by others, but has %zu of %s instead of %zu", at.c_str(), x[k.first].size(), k.first.c_str(), k.second.size()); }
  for (auto& k : x) { if (k.first[0] == '~' || k.first == "Error") continue; auto& v = y[k.first]; if (k.second.size() > v.size()) return H::Fmt("%s has %zu of %s, the whole %zu", at.c_str(), k.second.size(), k.first.c_str(), v.size());
    for (size_t i = 0; i < k.second.size(); i++) { std::string s = Part(*k.second[i], *v[i], at + "/" + k.first + H::Fmt("[%zu]", i), k.first != "Geometry" && (full || i + 1 < k.second.size())); if (!s.empty()) return s; } }
  return "";
}
// Nothing of a later part is read once an earlier one was left incomplete.
inline std::string Later(const Node& a, const Node& w, const Order& order) {
  std::map<std::string, long> left; for (auto& c : w.c) left[c->tag]++; std::map<std::string, long> has; for (auto& c : a.c) { left[c->tag]--; has[c->tag]++; }
  std::string cut; for (auto& g : order) { for (auto& t : g) if (!cut.empty() && has[t]) return H::Fmt("%ld of %s were read though %s was left incomplete", has[t], t.c_str(), cut.c_str()); for (auto& t : g) if (left[t] > 0) cut = t; }
  return "";
}
inline void Run(H::Rng& r, const std::string& kind, const std::function<void(const Callback&)>& set, const Read& read, size_t most, const Order& order) {
  long calls = 0; unsigned st = 0; set([&](bool&) { calls++; }); auto whole = read(st); long n = calls; set([](bool&) {});
  if (st) { H::Fail("refused", "status " + std::to_string(st)); return; }
  if (n < 1) { H::Fail("asked-" + kind, H::Fmt("the reading of a whole document asked %ld times whether to go on", n)); return; }
  std::string text; whole->print(text); H::Count("abort questions of whole readings", n);
  std::set<long> ks = {1, std::min(2l, n), n}; for (size_t i = 0; i < most; i++) ks.insert(1 + (long)r.below(n));
  for (long k : ks) for (int once = 0; once < 2; once++) {
    if (once && r.below(3)) continue;
    calls = 0; bool said = false; set([&](bool& a) { if (once ? ++calls == k : ++calls >= k) { a = true; said = true; } });
    auto part = read(st); set([](bool&) {}); H::Count("readings given up"); H::Distinct("moments", H::Fmt("%s%ld", kind.c_str(), k));
    if (!said) H::Fail("not-asked", H::Fmt("question %ld of %ld never came", k, n));
    if (calls > n && !once) H::Fail("goes-on-" + kind, H::Fmt("given up at question %ld, it asked %ld times, the whole reading takes %ld", k, calls, n));
    if (part && !once) { std::string s = Part(*part, *whole, "", false); if (s.empty()) s = Later(*part, *whole, order); if (!s.empty()) H::Fail("more-" + kind, H::Fmt("given up at question %ld of %ld: ", k, n) + s); H::Count("parts compared"); }
    if (!once && r.below(4) == 0) { auto again = read(st); std::string t; if (again) again->print(t); if (t != text) H::Fail("next-" + kind, H::Fmt("after giving up at question %ld of %ld, the next reading is not complete", k, n)); H::Count("readings after one given up"); }
  }
}
}
