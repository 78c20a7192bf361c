#include "Prefix/StdAfx.h"
#include "script.h"
namespace Script {
std::map<std::string, Make>& Table() { static std::map<std::string, Make> t; return t; }
static int Run(const H::Args& a) {
  uint64_t st = strtoull(a[1].c_str(), 0, 10), n = strtoull(a[2].c_str(), 0, 10);
  for (uint64_t i = st; i < st + n; i++) {
    H::CaseBegin(i); auto root = Node::parse(H::ReadAll(Path(H::Fmt("s%llu.ops", (unsigned long long)i)))); Node res("Results");
    { auto h = Table().at(root->tag)(); for (auto& op : root->c) h->op(*op, *res.add(op->tag)); }
    std::string o; res.print(o); H::WriteAll(Path(H::Fmt("s%llu.res", (unsigned long long)i)), o); H::CaseEnd(i);
  }
  return 0;
}
static H::Reg r("script", Run);
}
