// A MVR-xchange service with its TCP server, talked to by peers over the loopback, and sending to listeners.
#include "xctx.h"
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace VectorworksMVR;
using namespace MVRxchangeNetwork;
using XM::Ms; using XM::Ctx; using XM::OnIn; using XM::OnRet1; using XM::OnRet2;
namespace {
int Wait(int fd, short ev, int ms) { pollfd p{fd, ev, 0}; return poll(&p, 1, ms); }
bool SendAll(int fd, const std::string& b, const Node& o) {
  size_t pos = 0; auto ch = H::Split(o.str("Chunks"), ','); size_t k = 0; int delay = (int)Script::I(o, "Delay");
  while (pos < b.size()) {
    size_t n = b.size() - pos; if (k < ch.size() && !ch[k].empty()) n = std::min<size_t>(n, strtoul(ch[k].c_str(), 0, 10)); k++;
    if (!n) continue;
    if (pos) Ms(delay);
    ssize_t w = send(fd, b.data() + pos, n, MSG_NOSIGNAL); if (w <= 0) return false; pos += (size_t)w;
  }
  return true;
}
void Rst(int fd) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); }
std::string ReadEof(int fd, bool& eof, bool& err, int ms) { std::string o; char b[65536]; eof = err = false; for (;;) { if (Wait(fd, POLLIN, ms) <= 0) return o; ssize_t n = recv(fd, b, sizeof b, 0); if (n == 0) { eof = true; return o; } if (n < 0) { err = true; return o; } o.append(b, (size_t)n); } }

struct Listener {
  int fd = -1; uint16_t port = 0; Node cfg; std::string reply; std::atomic<bool> stop{false}; std::thread t; std::vector<std::thread> conns; std::mutex m; std::vector<std::string> got;
  Listener(const Node& n) : reply(XM::Bytes(n.str("Reply"))) {
    for (auto& a : n.a) cfg.set(a.first, a.second);
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = INADDR_ANY; bind(fd, (sockaddr*)&a, sizeof a); socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); port = ntohs(a.sin_port);
    if (n.str("Mode") == "refuse") { close(fd); fd = -1; return; }
    listen(fd, 64); t = std::thread([this] { Run(); });
  }
  ~Listener() { stop = true; if (t.joinable()) t.join(); for (auto& c : conns) c.join(); if (fd >= 0) close(fd); }
  void Run() { while (!stop) if (Wait(fd, POLLIN, 20) > 0) { int s = accept4(fd, 0, 0, SOCK_CLOEXEC); if (s >= 0) { conns.emplace_back([this, s] { Conn(s); }); } } }
  void Conn(int s) {
    std::string b; char t[65536]; std::string mode = cfg.str("Mode"); uint64_t need = 28;
    if (mode == "early") { Rst(s); return; }
    while (b.size() < need && !stop) { if (Wait(s, POLLIN, 20) <= 0) continue; ssize_t n = recv(s, t, sizeof t, 0); if (n <= 0) break; b.append(t, (size_t)n); if (b.size() >= 28) { uint64_t l = 0; for (int i = 0; i < 8; i++) l = l << 8 | (uint8_t)b[20 + i]; need = 28 + l; } if (mode == "half" && b.size() > 10) { Rst(s); return; } }
    { std::lock_guard<std::mutex> g(m); got.push_back(b); }
    Ms((int)Script::I(cfg, "Wait"));
    if (mode == "never") { while (!stop) Ms(20); close(s); return; }
    if (mode == "rst") { Rst(s); return; }
    if (mode != "close") SendAll(s, reply, cfg);
    if (mode == "replyrst") { Rst(s); return; }
    if (mode == "open") { bool e, r; ReadEof(s, e, r, 3000); }
    close(s);
  }
  std::vector<std::string> Take() { std::lock_guard<std::mutex> g(m); auto r = got; got.clear(); return r; }
};

struct XNet : Script::Handler {
  Ctx ctx; std::unique_ptr<CMVRxchangeServiceImpl> svc; std::vector<std::unique_ptr<Listener>> ls; std::vector<int> held;
  XNet() { XM::Quiet(); svc.reset(new CMVRxchangeServiceImpl()); }
  ~XNet() { for (int f : held) close(f); svc.reset(); ls.clear(); }
  std::vector<MVRxchangeString> Ips(const Node& o) { std::vector<MVRxchangeString> v; for (auto& s : H::Split(o.str("IPs"), ',')) v.push_back(MVRxchangeString(s.c_str())); return v; }
  void Peer(const Node& o, Node& res) {
    Ms((int)Script::I(o, "Start")); int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(svc->fServer->GetPort()); a.sin_addr.s_addr = inet_addr("127.0.0.1");
    if (connect(s, (sockaddr*)&a, sizeof a)) { res.set("Connect", "0"); close(s); return; }
    int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); std::string end = o.str("End");
    res.set("Sent", SendAll(s, XM::Bytes(o.str("Bytes")), o) ? "1" : "0"); H::Count("peer connections");
    if (end == "close") { close(s); return; }
    if (end == "rst") { Rst(s); return; }
    if (end == "hold") { std::lock_guard<std::mutex> g(ctx.m); held.push_back(s); return; }
    if (end == "half") shutdown(s, SHUT_WR);
    bool eof, err; auto r = ReadEof(s, eof, err, 20000); if (end == "slowread") Ms(20);
    res.set("Reply", H::Hex(r.data(), r.size())); res.set("Eof", eof ? "1" : err ? "err" : "0"); close(s);
  }
  void Send(const Node& o) {
    IMVRxchangeService::SendMessageArgs a; XM::Get(o, a.Message); if (o.str("Custom") == "1") { a.CustomReturnCallback = OnRet2; a.CustomReturnContext = &ctx; }
    svc->Send_message(a); H::Count("messages sent by the service");
  }
  void Many(const Node& op, Node& res) {
    std::vector<std::thread> t; for (auto& k : op.c) { Node* r = res.add(k->tag); const Node* o = k.get(); t.emplace_back([this, o, r] { One(*o, *r); }); } for (auto& x : t) x.join();
  }
  void One(const Node& o, Node& r) {
    if (o.tag == "peer") for (long long i = std::max(1ll, Script::I(o, "Times")); i--;) Peer(o, r); else if (o.tag == "send") Send(o);
  }
  void op(const Node& o, Node& res) override {
    if (o.tag == "server") {
      IMVRxchangeService::OnMessageArgs a; if (o.str("Callback") != "0") { a.IncomingCallback = OnIn; a.ReturningCallback = OnRet1; a.Context = &ctx; } svc->OnMessage(a); ctx.delay = (int)Script::I(o, "CallbackDelay"); svc->TCP_Start(); res.set("Running", svc->fServer->isRunning() ? "1" : "0");
    } else if (o.tag == "stop") svc->TCP_Stop();
    else if (o.tag == "listen") ls.emplace_back(new Listener(o));
    else if (o.tag == "known") { std::lock_guard<std::mutex> g(svc->fQueryLocalServicesResult_mtx); svc->fQueryLocalServicesResult.emplace_back(); auto& k = svc->fQueryLocalServicesResult.back(); k.StationUUID = XM::U(o.str("Station")); k.StationName = o.str("Name").c_str(); k.IPv4_list = Ips(o); k.Port = ls[(size_t)Script::I(o, "Listener")]->port; }
    else if (o.tag == "member") { MVRxchangeGroupMember m; for (auto& s : Ips(o)) m.IP.push_back(TXString(s.fBuffer)); m.Port = ls[(size_t)Script::I(o, "Listener")]->port; m.Name = o.str("Name"); m.stationUUID = XM::U(o.str("Station")); std::lock_guard<std::mutex> g(svc->fMvrGroupMutex); svc->fMVRGroup.push_back(m); }
    else if (o.tag == "many") Many(o, res);
    else if (o.tag == "send" || o.tag == "peer") One(o, res);
    else if (o.tag == "wait") Ms((int)Script::I(o, "Ms"));
    else if (o.tag == "log") {                        // what was called and what arrived since the last log
      // the server may still work for peers that did not wait
      if (svc->fServer) { Node n("probe"), x("x"); n.set("Bytes", std::string(56, '0')); n.set("End", "read"); Peer(n, x); if (x.str("Eof") == "0") H::Fail("probe", "a packet without the flag is not refused"); }   // (connections are accepted in their order)
      if (svc->fServer) for (int i = 0; i < 2000; i++) { size_t n; { std::lock_guard<std::mutex> g(svc->fServer->mSession); n = svc->fServer->fSession.size(); } size_t h; { std::lock_guard<std::mutex> g(ctx.m); h = held.size(); } if (n <= h) break; Ms(5); }
      std::lock_guard<std::mutex> g(ctx.m); for (auto& n : ctx.in) res.c.push_back(std::move(n)); ctx.in.clear(); for (auto& n : ctx.ret) res.c.push_back(std::move(n)); ctx.ret.clear();
      for (size_t i = 0; i < ls.size(); i++) { Node* l = res.add("Listener"); for (auto& b : ls[i]->Take()) l->add("Got")->set("Bytes", H::Hex(b.data(), b.size())); }
      if (svc->fServer) { std::lock_guard<std::mutex> g2(svc->fServer->mSession); res.set("Sessions", std::to_string(svc->fServer->fSession.size())); res.set("Held", std::to_string(held.size())); res.set("Running", svc->fServer->isRunning() ? "1" : "0"); }
    }
  }
};
Script::RegT<XNet> r("xnet");
}
