// MVR-xchange messages to and from nodes.
#pragma once
#include "Prefix/StdAfx.h"
#include "script.h"
#define private public
#include "mvrxchange/mvrxchange_message.h"
#include "mvrxchange/mvrxchange_client.h"
#include "mvrxchange/mvrxchange_server.h"
#include "mvrxchange/CMVRxchangeService.h"
#undef private
namespace XM {
typedef VectorworksMVR::IMVRxchangeService S;
typedef S::IMVRxchangeMessage Msg;
typedef S::MVRxchangeMessageType T;
inline std::string Bytes(const std::string& hex) { std::string o; for (size_t i = 0; i + 1 < hex.size(); i += 2) o += (char)strtoul(hex.substr(i, 2).c_str(), 0, 16); return o; }
inline std::string U(const VectorworksMVR::MvrUUID& u) { return H::Fmt("%08X%08X%08X%08X", u.a, u.b, u.c, u.d); }
inline VectorworksMVR::MvrUUID U(const std::string& s) { return VectorworksMVR::MvrUUID((Uint32)strtoul(s.substr(0, 8).c_str(), 0, 16), (Uint32)strtoul(s.substr(8, 8).c_str(), 0, 16), (Uint32)strtoul(s.substr(16, 8).c_str(), 0, 16), (Uint32)strtoul(s.substr(24, 8).c_str(), 0, 16)); }
// every buffer holds a terminated string
inline std::string Str(const VectorworksMVR::MVRxchangeString& s) { size_t n = strnlen(s.fBuffer, 1024); if (n == 1024) { H::Fail("unterminated string", "a string of the message has no terminator"); n = 1023; } return std::string(s.fBuffer, n); }
inline void Uuids(const Node& n, std::vector<VectorworksMVR::MvrUUID>& v) { for (auto& k : n.c) if (k->tag == "U") v.push_back(U(k->str("V"))); }
inline void Commit(const Node& n, S::MVR_COMMIT_MESSAGE& c) {
  c.FileName = n.str("FileName").c_str(); c.Comment = n.str("Comment").c_str(); c.VersionMajor = (uint32_t)strtoull(n.str("Major").c_str(), 0, 10); c.VersionMinor = (uint32_t)strtoull(n.str("Minor").c_str(), 0, 10);
  c.FileSize = strtoull(n.str("Size").c_str(), 0, 10); c.FileUUID = U(n.str("File")); c.StationUUID = U(n.str("Station")); Uuids(n, c.ForStationsUUID);
}
inline void Commit(const S::MVR_COMMIT_MESSAGE& c, Node& n) {
  n.set("FileName", Str(c.FileName)); n.set("Comment", Str(c.Comment)); n.set("Major", std::to_string(c.VersionMajor)); n.set("Minor", std::to_string(c.VersionMinor)); n.set("Size", std::to_string(c.FileSize));
  n.set("File", U(c.FileUUID)); n.set("Station", U(c.StationUUID)); for (auto& u : c.ForStationsUUID) n.add("U")->set("V", U(u));
}
inline void Get(const Node& n, Msg& m) {
  m.Type = (T)atoi(n.str("Type").c_str()); if (n.get("OK")) m.RetIsOK = n.str("OK") == "1"; m.RetError = n.str("Message").c_str();
  if (m.Type == T::MVR_JOIN || m.Type == T::MVR_JOIN_RET) {
    m.JOIN.Provider = n.str("Provider").c_str(); m.JOIN.StationName = n.str("Name").c_str(); m.JOIN.StationUUID = U(n.str("Station")); m.JOIN.VersionMajor = (uint32_t)strtoull(n.str("Major").c_str(), 0, 10); m.JOIN.VersionMinor = (uint32_t)strtoull(n.str("Minor").c_str(), 0, 10);
    for (auto& k : n.c) if (k->tag == "Commit") { m.JOIN.Commits.emplace_back(); Commit(*k, m.JOIN.Commits.back()); }
  }
  if (m.Type == T::MVR_COMMIT) Commit(n, m.COMMIT);
  if (m.Type == T::MVR_REQUEST) { m.REQUEST.FileUUID = U(n.str("File")); Uuids(n, m.REQUEST.FromStationUUID); }
  if (m.Type == T::MVR_LEAVE) m.LEAVE.FromStationUUID = U(n.str("Station"));
  if (n.get("Held")) { auto b = H::ReadAll(Script::Path(n.str("Path"))); m.BufferToFile = new char[b.size()]; memcpy(m.BufferToFile, b.data(), b.size()); m.BufferToFileLength = b.size(); }   // what the file has, handed over in memory
  else if (n.get("Path")) m.PathToFile = Script::Path(n.str("Path")).c_str();
  if (n.get("Buffer")) { auto b = Bytes(n.str("Buffer")); m.BufferToFile = new char[b.size()]; memcpy(m.BufferToFile, b.data(), b.size()); m.BufferToFileLength = b.size(); }
}
inline void Put(const Msg& m, Node& n) {
  int t = (int)m.Type; n.set("Type", std::to_string(t)); n.set("OK", m.RetIsOK ? "1" : "0"); if (t < 0 || t > (int)T::MVR_NEW_SESSION_HOST) H::Fail("type", "a message has the type " + std::to_string(t));
  n.set("Message", Str(m.RetError));
  if (m.RetIsOK || !m.RetError.fBuffer[0] || strncmp(m.RetError.fBuffer, "Parse Error", 11)) {   // (of a message that was not understood only the error counts)
    if (m.Type == T::MVR_JOIN || m.Type == T::MVR_JOIN_RET) {
      n.set("Provider", Str(m.JOIN.Provider)); n.set("Name", Str(m.JOIN.StationName)); n.set("Station", U(m.JOIN.StationUUID)); n.set("Major", std::to_string(m.JOIN.VersionMajor)); n.set("Minor", std::to_string(m.JOIN.VersionMinor));
      for (auto& c : m.JOIN.Commits) Commit(c, *n.add("Commit"));
    }
    if (m.Type == T::MVR_COMMIT) Commit(m.COMMIT, n);
    if (m.Type == T::MVR_REQUEST) { n.set("File", U(m.REQUEST.FileUUID)); for (auto& u : m.REQUEST.FromStationUUID) n.add("U")->set("V", U(u)); }
    if (m.Type == T::MVR_LEAVE) n.set("Station", U(m.LEAVE.FromStationUUID));
  } else { Str(m.JOIN.Provider); Str(m.JOIN.StationName); Str(m.COMMIT.Comment); Str(m.COMMIT.FileName); for (auto& c : m.JOIN.Commits) { Str(c.Comment); Str(c.FileName); } }
  if (m.BufferToFile) n.set("Buffer", H::Hex(m.BufferToFile, m.BufferToFileLength));
}
inline void Quiet() { static bool done = [] { return freopen("/dev/null", "w", stdout) != nullptr; }(); (void)done; }
}
