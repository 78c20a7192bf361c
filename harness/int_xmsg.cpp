// MVR-xchange packets: messages to the bytes on the wire and back.
#include "xmsg.h"
using namespace MVRxchangeNetwork;
namespace {
struct XMsg : Script::Handler {
  XMsg() { XM::Quiet(); }
  // as the readers of a connection do: the header first, then as much as it announces
  static void Decode(const std::string& w, Node& res) {
    MVRxchangePacket p; if (w.size() < MVRxchangePacket::total_header_length) { res.set("Header", "short"); return; }
    memcpy(p.GetData(), w.data(), MVRxchangePacket::total_header_length);
    if (!p.DecodeHeader()) { res.set("Header", "0"); H::Count("headers refused"); return; }
    res.set("Header", "1"); res.set("Length", std::to_string(p.GetBodyLength()));
    if (p.GetBodyLength() > 200u * 1024 * 1024) return;
    if (w.size() - MVRxchangePacket::total_header_length < p.GetBodyLength()) { memset(p.GetBody(), 'x', p.GetBodyLength()); res.set("Body", "short"); return; }   // the whole body has room
    memcpy(p.GetBody(), w.data() + MVRxchangePacket::total_header_length, p.GetBodyLength());
    XM::Msg m; p.ToExternalMessage(m); XM::Put(m, *res.add("M")); delete[] m.BufferToFile; H::Count("packets decoded");
  }
  void op(const Node& op, Node& res) override {
    if (op.tag == "to") {
      XM::Msg m; XM::Get(op, m); MVRxchangePacket p; p.FromExternalMessage(m);
      if (!(m.Type == XM::T::MVR_REQUEST_RET && m.RetIsOK)) delete[] m.BufferToFile;
      std::string w(p.GetData(), p.GetLength()); H::Count("messages encoded");
      MVRxchangePacket copy(p); if (std::string(copy.GetData(), copy.GetLength()) != w) H::Fail("copied packet", "a copy of a packet has other bytes");
      if (w.size() < 200000) res.set("Wire", H::Hex(w.data(), w.size())); else { res.set("Wire", H::Hex(w.data(), 28)); res.set("Big", "1"); }
      if (!op.get("Half")) Decode(w, res);
      if (res.get("Big") && res.c.size()) {
        std::string src = op.get("Buffer") ? XM::Bytes(op.str("Buffer")) : H::ReadAll(Script::Path(op.str("Path"))); auto& n = *res.c.back(); bool same = n.str("Buffer") == H::Hex(src.data(), src.size());
        for (auto& a : n.a) if (a.first == "Buffer") a.second = same ? "same" : "different";
      }
    } else if (op.tag == "file") { std::string b((size_t)Script::I(op, "Size"), 0); for (size_t i = 0; i < b.size(); i++) b[i] = (char)(i * 7 + (i >> 8)); H::WriteAll(Script::Path(op.str("Name")), b); }
    else if (op.tag == "wire") { auto b = XM::Bytes(op.str("Bytes")); if (op.get("Fill")) b += std::string((size_t)Script::I(op, "Fill"), 'x'); Decode(b, res); if (op.get("Fill") && res.c.size()) for (auto& a : res.c.back()->a) if (a.first == "Buffer") a.second = std::to_string(a.second.size() / 2); }
    else if (op.tag == "body") {                       // the packet is kept between messages, as the one of a connection
      MVRxchangePacket p; XM::Msg m;
      for (auto& k : op.c) { auto b = XM::Bytes(k->str("Bytes")); if (k->get("Fill")) b += std::string((size_t)Script::I(*k, "Fill"), 'x'); p.SetBody(b.size(), &b[0]); p.EncodeHeader(); if (!p.DecodeHeader()) H::Fail("header", "an encoded header is refused"); p.ToExternalMessage(m); XM::Put(m, *res.add("M")); delete[] m.BufferToFile; m.BufferToFile = nullptr; H::Count("packets decoded"); }
    }
  }
};
Script::RegT<XMsg> r("xmsg");
}
