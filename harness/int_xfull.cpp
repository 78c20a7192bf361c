// Whole MVR-xchange services that find each other: datagrams in memory, TCP over the loopback.
#include "xctx.h"
#include "net.h"
#include <arpa/inet.h>
#include <map>
#include <netinet/in.h>
#include <sys/socket.h>
using namespace VectorworksMVR;
namespace {
std::string Addr(const std::string& t) { if (t.empty()) return ""; size_t c = t.rfind(':'); int port = atoi(t.c_str() + c + 1); return t[0] == '[' ? Net::Addr6(t.substr(1, c - 2), port) : Net::Addr4(t.substr(0, c), port); }
struct Svc { XM::Ctx ctx; std::string station; CMVRxchangeServiceImpl impl; };
struct XFull : Script::Handler {
  std::map<std::string, std::unique_ptr<Svc>> s; std::vector<std::pair<std::string, std::string>> pkts; std::mutex m; std::string from4, from6;
  XFull() { XM::Quiet(); }
  ~XFull() { std::vector<std::thread> t; for (auto& x : s) t.emplace_back([&x] { x.second->impl.LeaveLocalService(); x.second.reset(); }); for (auto& x : t) x.join(); s.clear(); Net::OnSend(nullptr); if (size_t n = Net::Open()) H::Fail("sockets left open", std::to_string(n) + " sockets are still open"); Net::Off(); }
  void One(const Node& o, Node& res) {
    if (o.tag == "wait") { XM::Ms((int)Script::I(o, "Ms")); return; }
    Svc& v = *s.at(o.str("Id"));
    if (o.tag == "connect") {
      IMVRxchangeService::ConnectToLocalServiceArgs a; a.Service = o.str("Service").c_str(); a.StationName = o.str("Name").c_str(); a.Provider = o.str("Provider").c_str(); a.StationUUID = XM::U(o.str("Station")); v.station = o.str("Station"); a.VersionMajor = 1; a.VersionMinor = 6;
      for (auto& k : o.c) if (k->tag == "Commit") { a.InitialFiles.emplace_back(); XM::Commit(*k, a.InitialFiles.back()); }
      res.set("R", std::to_string(v.impl.ConnectToLocalService(a))); H::Count("services connected");
    } else if (o.tag == "leave") { res.set("R", std::to_string(v.impl.LeaveLocalService())); H::Count("services left"); }
    else if (o.tag == "query") {
      size_t n = 0; res.set("R", std::to_string(v.impl.QueryLocalServices(n))); res.set("N", std::to_string(n)); H::Count("queries for services");
      for (size_t i = 0; i < n + 1; i++) { IMVRxchangeService::ConnectToLocalServiceArgs a; if (v.impl.GetLocalServiceAt(i, a) != kVCOMError_NoError) { if (i < n && !o.get("Loose")) H::Fail("GetLocalServiceAt", "no service at an index below the count"); break; } if (i >= n) { if (!o.get("Loose")) H::Fail("GetLocalServiceAt", "a service behind the last"); break; } Node* k = res.add("S"); k->set("Service", XM::Str(a.Service)); k->set("Name", XM::Str(a.StationName)); k->set("Station", XM::U(a.StationUUID)); k->set("Port", std::to_string(a.Port)); std::string ip; for (auto& x : a.IPv4_list) ip += (ip.empty() ? "" : ",") + XM::Str(x); k->set("IPs", ip); ip.clear(); for (auto& x : a.IPv6_list) ip += (ip.empty() ? "" : ",") + XM::Str(x); k->set("IP6s", ip); }
    } else if (o.tag == "send") { IMVRxchangeService::SendMessageArgs a; XM::Get(o, a.Message); v.impl.Send_message(a); H::Count("messages sent by the service"); }
    else if (o.tag == "group") {                       // the members, once those expected are there (or some time has gone)
      std::vector<std::pair<std::string, int>> want; std::string ids = o.str("Ids"); for (size_t i = 0; i < ids.size();) { size_t e = std::min(ids.find(',', i), ids.size()); auto& p = *s.at(ids.substr(i, e - i)); want.emplace_back(p.station, p.impl.fServer ? p.impl.fServer->GetPort() : -1); i = e + 1; }
      for (int i = 0; i < (o.get("N") ? 1600 : 1); i++) { { std::lock_guard<std::mutex> g(v.impl.fMvrGroupMutex); size_t n = 0; for (auto& w : want) for (auto& e : v.impl.fMVRGroup) if (e.Port == w.second && XM::U(e.stationUUID) == w.first) { n++; break; } if (n == want.size() && v.impl.fMVRGroup.size() == (size_t)Script::I(o, "N")) break; } XM::Ms(5); }
      H::Count("groups looked at");
      XM::Ms((int)Script::I(o, "Settle")); std::lock_guard<std::mutex> g(v.impl.fMvrGroupMutex); for (auto& e : v.impl.fMVRGroup) { Node* k = res.add("M"); k->set("Station", XM::U(e.stationUUID)); k->set("Port", std::to_string(e.Port)); std::string ip; for (auto& x : e.IP) ip += (ip.empty() ? "" : ",") + std::string(x.GetCharPtr()); k->set("IPs", ip); }
    }
  }
  void op(const Node& o, Node& res) override {
    if (o.tag == "net") {
      std::vector<Net::If> v; for (auto& k : o.c) { auto a = Addr(k->str("Addr")); v.push_back({k->str("Name"), a}); if (a.size() == sizeof(sockaddr_in) && from4.empty() && k->str("Addr").substr(0, 4) != "127.") from4 = Net::Addr4(k->str("Addr").substr(0, k->str("Addr").rfind(':')), 5353); if (a.size() == sizeof(sockaddr_in6) && from6.empty()) from6 = Net::Addr6(k->str("Addr").substr(1, k->str("Addr").rfind(':') - 2), 5353); }
      Net::On(v); Net::SelectMs(getenv("VR_MS") ? atoi(getenv("VR_MS")) : (int)Script::I(o, "Ms") ? (int)Script::I(o, "Ms") : 25);
      Net::OnSend([this](const Net::Sent& x) {         // multicast reaches every socket, and other hosts answer queries
        bool six = x.to.size() == sizeof(sockaddr_in6); std::string to = Net::Text(x.to); if (to != "224.0.0.251:5353" && to != "[ff02::fb]:5353") return;
        Net::DeliverPort("", {six ? from6 : from4, x.data}); H::Count("datagrams multicast");
        std::lock_guard<std::mutex> g(m); if (x.data.size() > 3 && !x.data[2]) for (auto& p : pkts) Net::Deliver(x.sock, {p.first, p.second});
      });
    } else if (o.tag == "pkt") { std::lock_guard<std::mutex> g(m); pkts.emplace_back(Addr(o.str("From")), XM::Bytes(o.str("Bytes"))); }
    else if (o.tag == "nopkts") { std::lock_guard<std::mutex> g(m); pkts.clear(); }
    else if (o.tag == "svc") { auto& v = s[o.str("Id")]; v.reset(new Svc()); IMVRxchangeService::OnMessageArgs a; a.IncomingCallback = XM::OnIn; a.ReturningCallback = XM::OnRet1; a.Context = &v->ctx; v->ctx.delay = (int)Script::I(o, "CallbackDelay"); v->impl.OnMessage(a); }
    else if (o.tag == "free") s.erase(o.str("Id"));
    else if (o.tag == "many") { std::vector<std::thread> t; for (auto& k : o.c) { Node* r = res.add(k->tag); const Node* q = k.get(); t.emplace_back([this, q, r] { One(*q, *r); for (auto& k2 : q->c) if (k2->tag != "U" && k2->tag != "Commit") One(*k2, *r->add(k2->tag)); }); } for (auto& x : t) x.join(); }
    else if (o.tag == "log") { for (auto& v : s) { Node* n = res.add("Svc"); n->set("Id", v.first); if (v.second->impl.fServer) n->set("Port", std::to_string(v.second->impl.fServer->GetPort())); std::lock_guard<std::mutex> g(v.second->ctx.m); for (auto& k : v.second->ctx.in) n->c.push_back(std::move(k)); v.second->ctx.in.clear(); for (auto& k : v.second->ctx.ret) n->c.push_back(std::move(k)); v.second->ctx.ret.clear(); } }
    else One(o, res);
  }
};
Script::RegT<XFull> r("xfull");
}
