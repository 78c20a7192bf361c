#include "net.h"
#include <arpa/inet.h>
#include <cstring>
#include <deque>
#include <cerrno>
#include <cstdlib>
#include <ifaddrs.h>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <set>
#include <sys/eventfd.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
namespace Net {
struct Sock { int num; int family; std::string bound; std::deque<Dgram> in; };
struct State { std::mutex m; bool on = false; std::map<int, Sock> s; std::vector<If> ifs; std::vector<Sent> sent; std::function<void(const Sent&)> fn; int ms = 30; int next = 0; std::map<std::string, int> fail; };
static State& S() { static State& s = *new State; return s; }
static volatile bool gOn = false;
std::string Addr4(const std::string& ip, int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); inet_pton(AF_INET, ip.c_str(), &a.sin_addr); return std::string((char*)&a, sizeof a); }
std::string Addr6(const std::string& ip, int port) { sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_port = htons((uint16_t)port); inet_pton(AF_INET6, ip.c_str(), &a.sin6_addr); return std::string((char*)&a, sizeof a); }
std::string Text(const std::string& raw) {
  char b[100] = ""; if (raw.size() >= sizeof(sockaddr_in6) && ((const sockaddr*)raw.data())->sa_family == AF_INET6) { auto a = (const sockaddr_in6*)raw.data(); inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b); return "[" + std::string(b) + "]:" + std::to_string(ntohs(a->sin6_port)); }
  if (raw.size() >= sizeof(sockaddr_in) && ((const sockaddr*)raw.data())->sa_family == AF_INET) { auto a = (const sockaddr_in*)raw.data(); inet_ntop(AF_INET, &a->sin_addr, b, sizeof b); return std::string(b) + ":" + std::to_string(ntohs(a->sin_port)); }
  return raw.empty() ? "" : "?";
}
void On(const std::vector<If>& ifs) { std::lock_guard<std::mutex> g(S().m); S().on = true; gOn = true; S().ifs = ifs; S().sent.clear(); S().next = 0; S().fail.clear(); }
void Off() { std::lock_guard<std::mutex> g(S().m); S().on = false; gOn = false; S().fn = nullptr; S().sent.clear(); S().fail.clear(); }
void SetIfs(const std::vector<If>& ifs) { std::lock_guard<std::mutex> g(S().m); S().ifs = ifs; }
void SelectMs(int ms) { std::lock_guard<std::mutex> g(S().m); S().ms = ms; }
void OnSend(std::function<void(const Sent&)> fn) { std::lock_guard<std::mutex> g(S().m); S().fn = fn; }
static void Put(int fd, Sock& s, const Dgram& d) { s.in.push_back(d); eventfd_write(fd, 1); }
void Deliver(int num, const Dgram& d) { std::lock_guard<std::mutex> g(S().m); for (auto& k : S().s) if (k.second.num == num) Put(k.first, k.second, d); }
void DeliverPort(const std::string&, const Dgram& d, int except) { std::lock_guard<std::mutex> g(S().m); int f = ((const sockaddr*)d.from.data())->sa_family; for (auto& k : S().s) if (k.second.num != except && k.second.family == f) Put(k.first, k.second, d); }
std::vector<Sent> TakeSent() { std::lock_guard<std::mutex> g(S().m); auto r = S().sent; S().sent.clear(); return r; }
size_t Open() { std::lock_guard<std::mutex> g(S().m); return S().s.size(); }
int Next() { std::lock_guard<std::mutex> g(S().m); return S().next; }
void FailSocket(int nth, const std::string& op) { std::lock_guard<std::mutex> g(S().m); S().fail[op] = nth; }
static bool Fails(const char* op) { auto i = S().fail.find(op); return i != S().fail.end() && i->second > 0 && --i->second == 0; }   // (locked)
}
using namespace Net;
extern "C" {
int __real_getifaddrs(ifaddrs**); void __real_freeifaddrs(ifaddrs*); int __real_socket(int, int, int); int __real_setsockopt(int, int, int, const void*, socklen_t); int __real_bind(int, const sockaddr*, socklen_t);
int __real_getsockname(int, sockaddr*, socklen_t*); int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*); ssize_t __real_recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*);
ssize_t __real_sendto(int, const void*, size_t, int, const sockaddr*, socklen_t); int __real_close(int);
struct IfBlock { ifaddrs a; char name[32]; sockaddr_storage s; };
int __wrap_getifaddrs(ifaddrs** o) {
  if (!gOn) return __real_getifaddrs(o);
  std::lock_guard<std::mutex> g(S().m); if (Fails("getifaddrs")) { errno = ENOMEM; return -1; }
  *o = nullptr; ifaddrs** t = o;
  for (auto& i : S().ifs) { IfBlock* b = (IfBlock*)calloc(1, sizeof(IfBlock)); strncpy(b->name, i.name.c_str(), 31); b->a.ifa_name = b->name; if (!i.addr.empty()) { memcpy(&b->s, i.addr.data(), i.addr.size()); b->a.ifa_addr = (sockaddr*)&b->s; } *t = &b->a; t = &b->a.ifa_next; }
  return 0;
}
void __wrap_freeifaddrs(ifaddrs* p) { if (!gOn) return __real_freeifaddrs(p); while (p) { ifaddrs* n = p->ifa_next; free(p); p = n; } }
int __wrap_socket(int f, int t, int p) {
  if (!gOn || (t & 0xF) != SOCK_DGRAM) return __real_socket(f, t, p);
  std::lock_guard<std::mutex> g(S().m); if (Fails("socket")) { errno = EMFILE; return -1; }
  int fd = eventfd(0, EFD_SEMAPHORE | EFD_CLOEXEC | EFD_NONBLOCK); if (fd >= 0) S().s[fd] = Sock{S().next++, f, {}, {}}; return fd;
}
static Sock* Find(int fd) { auto i = S().s.find(fd); return i == S().s.end() ? nullptr : &i->second; }
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (gOn) { std::lock_guard<std::mutex> g(S().m); if (Find(fd)) { if (Fails("setsockopt")) { errno = ENODEV; return -1; } return 0; } } return __real_setsockopt(fd, l, o, v, n); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) { if (gOn) { std::lock_guard<std::mutex> g(S().m); if (Sock* s = Find(fd)) { if (Fails("bind")) { errno = EADDRINUSE; return -1; } s->bound.assign((const char*)a, n); return 0; } } return __real_bind(fd, a, n); }
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* n) { if (gOn) { std::lock_guard<std::mutex> g(S().m); if (Sock* s = Find(fd)) { if (Fails("getsockname")) { errno = ENOBUFS; return -1; } memcpy(a, s->bound.data(), std::min<size_t>(*n, s->bound.size())); *n = (socklen_t)s->bound.size(); return 0; } } return __real_getsockname(fd, a, n); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) {
  timeval k{}; if (gOn && t) { std::lock_guard<std::mutex> g(S().m); bool fake = false; for (auto& s : S().s) if (r && s.first < n && FD_ISSET(s.first, r)) fake = true; if (Fails("select")) { errno = EBADF; return -1; } if (fake) { k.tv_sec = S().ms / 1000; k.tv_usec = S().ms % 1000 * 1000; t = &k; } }
  return __real_select(n, r, w, e, t);
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* l) {
  if (gOn) {
    std::lock_guard<std::mutex> g(S().m);
    if (Sock* s = Find(fd)) {
      eventfd_t v; if (s->in.empty() || eventfd_read(fd, &v)) { errno = EAGAIN; return -1; }
      Dgram d = s->in.front(); s->in.pop_front(); if (Fails("recvfrom")) { errno = ECONNREFUSED; return -1; }
      size_t k = std::min(n, d.data.size()); memcpy(b, d.data.data(), k); if (a && l) { memcpy(a, d.from.data(), std::min<size_t>(*l, d.from.size())); *l = (socklen_t)d.from.size(); } return (ssize_t)k;
    }
  }
  return __real_recvfrom(fd, b, n, f, a, l);
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t l) {
  if (gOn) {
    Sent x; std::function<void(const Sent&)> fn; bool fake = false;
    { std::lock_guard<std::mutex> g(S().m); if (Sock* s = Find(fd)) { fake = true; x.sock = s->num; x.bound = s->bound; x.to.assign((const char*)a, l); x.data.assign((const char*)b, n); if (Fails("sendto")) x.error = ENETUNREACH; S().sent.push_back(x); fn = S().fn; } }
    if (fake) { if (x.error) { errno = x.error; return -1; } if (fn) fn(x); return (ssize_t)n; }
  }
  return __real_sendto(fd, b, n, f, a, l);
}
int __wrap_close(int fd) { if (gOn) { std::lock_guard<std::mutex> g(S().m); S().s.erase(fd); } return __real_close(fd); }
}
extern "C" {
int __real_connect(int, const sockaddr*, socklen_t);
// the addresses of interfaces in memory are those of this machine
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) {
  if (gOn && a->sa_family == AF_INET && n >= sizeof(sockaddr_in)) { sockaddr_in b; memcpy(&b, a, sizeof b); if ((ntohl(b.sin_addr.s_addr) >> 24) == 10) { b.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return __real_connect(fd, (sockaddr*)&b, sizeof b); } }
  return __real_connect(fd, a, n);
}
}
