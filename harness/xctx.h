// The callbacks of a service: they record what they get and answer as the checks expect.
#pragma once
#include "xmsg.h"
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
namespace XM {
inline void Ms(int n) { if (n > 0) std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
struct Ctx { std::mutex m; std::vector<std::unique_ptr<Node>> in, ret; int delay = 0; std::atomic<uint64_t> calls{0}; bool keep = true; };
inline std::string Pattern(uint32_t seed, size_t n) { std::string o(n, 0); for (size_t i = 0; i < n; i++) o[i] = (char)((seed + i * 31) ^ (i >> 7)); return o; }
inline XM::Msg OnIn(const XM::Msg& in, void* p) {
  Ctx& c = *(Ctx*)p; std::unique_ptr<Node> n(new Node("In")); XM::Put(in, *n); c.calls++; H::Count("incoming callbacks");
  { std::lock_guard<std::mutex> g(c.m); c.in.push_back(std::move(n)); }
  Ms(c.delay); XM::Msg r; typedef XM::T T;
  switch (in.Type) {
    case T::MVR_JOIN: r.Type = T::MVR_JOIN_RET; r.JOIN.Provider = "srv"; r.JOIN.StationName = in.JOIN.StationName; r.JOIN.StationUUID = in.JOIN.StationUUID; r.JOIN.VersionMajor = 1; r.JOIN.VersionMinor = 6; r.RetError = in.JOIN.Provider; break;
    case T::MVR_COMMIT: r.Type = T::MVR_COMMIT_RET; r.RetIsOK = in.COMMIT.FileSize & 1; r.RetError = in.COMMIT.Comment; break;
    case T::MVR_LEAVE: r.Type = T::MVR_LEAVE_RET; break;
    case T::MVR_REQUEST: {
      uint32_t a = in.REQUEST.FileUUID.a; size_t z = in.REQUEST.FileUUID.b % 70000 + 1; r.Type = T::MVR_REQUEST_RET;
      if (a % 4 == 0) { auto b = Pattern(a, z); r.BufferToFile = new char[z]; memcpy(r.BufferToFile, b.data(), z); r.BufferToFileLength = z; }
      else if (a % 4 == 1) { auto f = Script::Path(H::Fmt("q%08x", a)); H::WriteAll(f, Pattern(a, z)); r.PathToFile = f.c_str(); }
      else if (a % 4 == 2) { r.RetIsOK = false; r.RetError = "not here"; } else { r.Type = T::MVR_UNDEFINED; r.RetIsOK = false; }
      break; }
    default: r.Type = T::MVR_COMMIT_RET; r.RetIsOK = false; r.RetError = "no request"; break;
  }
  return r;
}
inline void OnRet(const XM::Msg& out, const XM::Msg& in, void* p, const char* tag) { Ctx& c = *(Ctx*)p; std::unique_ptr<Node> n(new Node(tag)); XM::Put(in, *n); n->set("Sent", std::to_string((int)out.Type)); H::Count("returning callbacks"); std::lock_guard<std::mutex> g(c.m); c.ret.push_back(std::move(n)); }
inline void OnRet1(const XM::Msg& o, const XM::Msg& i, void* p) { OnRet(o, i, p, "Ret"); }
inline void OnRet2(const XM::Msg& o, const XM::Msg& i, void* p) { OnRet(o, i, p, "CustomRet"); }

}
