// Which places a piece of work changes on disk: every call that creates, overwrites or deletes is recorded with its path.
#pragma once
#include "h.h"
#include <sys/stat.h>
struct Contain {
  std::string home; std::vector<std::string> allowed;
  Contain(uint64_t i) {
    home = H::Scratch() + "/k" + std::to_string(i) + "/a/b/home"; H::Home(home);
    for (auto& l : H::Split(H::ReadAll(H::Scratch() + "/k" + std::to_string(i) + ".allow"), '\n')) if (!l.empty()) allowed.push_back(home + "/" + l);
    H::Io::Reset(); H::Io::record = true;
  }
  static std::string norm(const std::string& p) {
    std::vector<std::string> out; for (auto& c : H::Split(p, '/')) { if (c.empty() || c == ".") continue; if (c == "..") { if (!out.empty()) out.pop_back(); } else out.push_back(c); }
    std::string r; for (auto& c : out) r += "/" + c; return r;
  }
  void Verdict() {
    H::Io::record = false; auto log = H::Io::Log(); H::Io::Reset(); long seen = 0;
    for (auto& e : log) {
      if (e.op != "openw" && e.op != "remove" && e.op != "unlink" && e.op != "rmdir" && e.op != "rename" && e.op != "mkdir") continue;
      if (e.path.empty()) continue;  // (opens nothing)
      seen++; std::string n = norm(e.path); bool ok = false;
      for (auto& a : allowed) if (n.compare(0, a.size() + 1, a + "/") == 0 || n == a || (e.op == "mkdir" && a.compare(0, n.size() + 1, n + "/") == 0)) ok = true;
      H::Distinct("changing calls", e.op + e.path.substr(std::min(e.path.size(), home.size())));
      if (!ok) H::Fail("outside:" + e.op, e.op + " " + e.path + " (allowed: " + (allowed.size() > 1 ? allowed[1] : "") + " ...)");
    }
    H::Count("changing calls watched", seen); H::Home("");
  }
};
