// A network of datagrams in memory, for the code that looks for services (harness/common_net.cpp).
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace Net {
struct Dgram { std::string from; std::string data; };                      // from: raw sockaddr
struct Sent { int sock = 0; std::string bound, to, data; int error = 0; };   // sock: number of the socket in its order of opening
struct If { std::string name; std::string addr; };                          // addr: raw sockaddr
void On(const std::vector<If>& ifs);                                        // from now on UDP sockets are in memory
void Off();
void SetIfs(const std::vector<If>& ifs);
void SelectMs(int ms);                                                      // how long a select waits at most
void OnSend(std::function<void(const Sent&)> fn);                           // called by every sendto, may Deliver
void Deliver(int sock, const Dgram& d);                                     // to one socket
void DeliverPort(const std::string& ifaddr, const Dgram& d, int except = -1);   // to every open socket (as multicast does)
std::vector<Sent> TakeSent();
size_t Open();                                                              // sockets open now
int Next();                                                                 // number the next socket gets
void FailSocket(int nth, const std::string& op);                            // the nth socket/setsockopt/bind/sendto/recvfrom/getifaddrs from now fails (0: none)
std::string Addr4(const std::string& ip, int port); std::string Addr6(const std::string& ip, int port);
std::string Text(const std::string& raw);                                   // "ip:port"
}
