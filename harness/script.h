// Cases given as scripts: s<i>.ops holds "0 <kind>" with one node per operation; each operation gets a result node in s<i>.res.
#pragma once
#include "node.h"
#include <functional>
#include <map>
namespace Script {
struct Handler { virtual ~Handler() {} virtual void op(const Node& op, Node& res) = 0; };
typedef std::function<std::unique_ptr<Handler>()> Make;
std::map<std::string, Make>& Table();
struct Reg { Reg(const char* k, Make m) { Table()[k] = m; } };
template <class T> struct RegT : Reg { explicit RegT(const char* k) : Reg(k, [] { return std::unique_ptr<Handler>(new T()); }) {} };
inline std::string Path(const std::string& n) { return H::Scratch() + "/" + n; }
inline double D(const Node& n, const char* k) { return H::ToD(n.str(k).c_str()); }
inline long long I(const Node& n, const char* k) { return strtoll(n.str(k).c_str(), 0, 10); }
inline std::string F(double d) { return H::Num(d); }
}
