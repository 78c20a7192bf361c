// Looking for services and announcing them, on a network of datagrams in memory.
#include "xmsg.h"
#include "net.h"
#include <arpa/inet.h>
#include <chrono>
#include <mdns_cpp/mdns.hpp>
#include <memory>
#include <thread>
namespace {
std::string Addr(const std::string& t) {              // "1.2.3.4:5353" or "[fe80::1]:5353"
  if (t.empty()) return ""; size_t c = t.rfind(':'); int port = atoi(t.c_str() + c + 1); return t[0] == '[' ? Net::Addr6(t.substr(1, c - 2), port) : Net::Addr4(t.substr(0, c), port);
}
std::string Join(const std::set<std::string>& s) { std::string o; for (auto& x : s) o += (o.empty() ? "" : ",") + x; return o; }
void PutSent(const Net::Sent& s, Node& n) { n.set("Bound", Net::Text(s.bound)); n.set("To", Net::Text(s.to)); n.set("Bytes", H::Hex(s.data.data(), s.data.size())); }

struct XMdns : Script::Handler {
  std::unique_ptr<mdns_cpp::mDNS> srv; int base = 0; int probes = 0;
  XMdns() { XM::Quiet(); }
  ~XMdns() { srv.reset(); Net::OnSend(nullptr); size_t n = Net::Open(); if (n) H::Fail("sockets left open", std::to_string(n) + " sockets are still open"); Net::Off(); }
  void op(const Node& o, Node& res) override {
    if (o.tag == "net") { std::vector<Net::If> v; for (auto& k : o.c) v.push_back({k->str("Name"), Addr(k->str("Addr"))}); Net::On(v); Net::SelectMs((int)Script::I(o, "Ms") ? (int)Script::I(o, "Ms") : 20); }
    else if (o.tag == "fail") Net::FailSocket((int)Script::I(o, "Nth"), o.str("Op"));
    else if (o.tag == "query" || o.tag == "discover") {
      int first = Net::Next();
      Net::OnSend([&](const Net::Sent& s) { for (auto& k : o.c) { int want = (int)Script::I(*k, "Sock"); if (want < 0 || want == s.sock - first) { Net::Deliver(s.sock, {Addr(k->str("From")), XM::Bytes(k->str("Bytes"))}); H::Count("datagrams delivered to a query"); } } });
      Net::TakeSent(); mdns_cpp::mDNS m;
      if (o.tag == "discover") m.executeDiscovery();
      else for (auto& r : m.executeQuery2(o.str("Service"))) { Node* n = res.add("R"); n->set("Host", H::Hex(r.canonical_hostname.data(), r.canonical_hostname.size())); n->set("Addr", r.mdnsAddress); n->set("Port", std::to_string(r.port)); n->set("Txt", H::Hex(r.txt.data(), r.txt.size())); n->set("Service", H::Hex(r.service_name.data(), r.service_name.size())); n->set("V4", Join(r.ipV4_address)); n->set("V6", Join(r.ipV6_address)); H::Count("services found"); }
      for (auto& s : Net::TakeSent()) PutSent(s, *res.add("Sent"));
      Net::OnSend(nullptr); res.set("Open", std::to_string(Net::Open()));
    } else if (o.tag == "interfaces") { mdns_cpp::mDNS m; for (auto& i : m.getInterfaces()) { in_addr a; a.s_addr = i.second; Node* n = res.add("If"); n->set("Name", i.first); n->set("Addr", inet_ntoa(a)); } }
    else if (o.tag == "serve") {
      srv.reset(new mdns_cpp::mDNS()); srv->setServiceHostname(o.str("Host")); srv->setServicePort((uint16_t)Script::I(o, "Port")); if (!o.str("IP").empty()) srv->setServiceIP(inet_addr(o.str("IP").c_str()));
      srv->setServiceName(o.str("Service")); srv->setServiceTxtRecord(XM::Bytes(o.str("Txt"))); base = Net::Next(); srv->startService();
      for (int i = 0; i < 2000 && Net::Next() < base + 2; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
      res.set("IPPort", srv->getServiceIPPort()); res.set("Running", srv->isServiceRunning() ? "1" : "0");
    } else if (o.tag == "unserve") { srv->stopService(); res.set("Running", srv->isServiceRunning() ? "1" : "0"); res.set("Open", std::to_string(Net::Open())); srv.reset(); }
    else if (o.tag == "ask") {                         // the answers up to the one of a question of our own
      int s = base + (int)Script::I(o, "V6"); Net::TakeSent(); Net::Deliver(s, {Addr(o.str("From")), XM::Bytes(o.str("Bytes"))});
      std::string probe("\0\0\0\0\0\1\0\0\0\0\0\0\x09_services\x07_dns-sd\x04_udp\x05local\0\0\x0c\0\x01", 46); std::string from = s == base ? Net::Addr4("203.0.113.9", 9 + ++probes) : Net::Addr6("2001:db8::9", 9 + ++probes);
      Net::Deliver(s, {from, probe}); bool done = false; H::Count("questions delivered");
      for (int i = 0; i < 5000 && !done; i++) { for (auto& x : Net::TakeSent()) { if (x.to.substr(0, 8) == from.substr(0, 8)) done = true; else PutSent(x, *res.add("Sent")); } if (!done) std::this_thread::sleep_for(std::chrono::microseconds(i < 100 ? 50 : 1000)); }
      if (!done) H::Fail("no answer", "the responder does not answer a sound question after: " + o.str("Bytes"));
    }
  }
};
Script::RegT<XMdns> r("xmdns");
}
