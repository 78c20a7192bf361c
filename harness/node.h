// Generic tree: one line per node: "<depth> <tag> k=v k=v", values %XX-escaped.
#pragma once
#include "h.h"
#include <memory>

struct Node {
  std::string tag;
  std::vector<std::pair<std::string, std::string>> a;
  std::vector<std::unique_ptr<Node>> c;
  Node() {}
  explicit Node(const std::string& t) : tag(t) {}
  const std::string* get(const std::string& k) const { for (auto& p : a) if (p.first == k) return &p.second; return nullptr; }
  std::string str(const std::string& k) const { auto p = get(k); return p ? *p : ""; }
  void set(const std::string& k, const std::string& v) { a.push_back({k, v}); }
  Node* add(const std::string& t) { c.emplace_back(new Node(t)); return c.back().get(); }
  void print(std::string& o, int d = 0) const {
    o += std::to_string(d) + " " + tag; for (auto& p : a) o += " " + p.first + "=" + H::Esc(p.second); o += "\n";
    for (auto& n : c) n->print(o, d + 1);
  }
  static std::unique_ptr<Node> parse(const std::string& txt) {
    std::unique_ptr<Node> root; std::vector<Node*> st;
    for (auto& ln : H::Split(txt, '\n')) {
      if (ln.empty()) continue; auto f = H::Split(ln, ' '); size_t d = atoi(f[0].c_str());
      std::unique_ptr<Node> n(new Node(f[1])); Node* p = n.get();
      for (size_t i = 2; i < f.size(); i++) { auto e = f[i].find('='); if (e != std::string::npos) n->set(f[i].substr(0, e), H::Unesc(f[i].substr(e + 1))); }
      if (d == 0) { root = std::move(n); st.assign(1, p); } else { st.resize(d); st[d - 1]->c.push_back(std::move(n)); st.push_back(p); }
    }
    return root;
  }
};

