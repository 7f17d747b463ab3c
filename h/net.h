// A recording, fault-injecting stand-in for the socket calls of the operating system and for the OpenSSL calls (--wrap).
#pragma once
#include "mc.h"
#include <cerrno>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
namespace net {
struct Fd { bool open = false, connected = false, bound = false, listening = false, shut = false; int dom = 0, type = 0; std::string in, out; size_t ipos = 0; std::vector<int> rsz, ssz; size_t ri = 0, si = 0; std::string peer; std::vector<std::pair<std::string, std::string>> dg_out; std::vector<std::pair<std::string, std::string>> dg_in; size_t di = 0; bool in_fails = false; };
constexpr int BASE = 1000; constexpr int MAXFD = 64;
struct World { std::vector<Fd> fd; long calls = 0, fail_at = -1; bool injected = false; std::string what; int lists = 0; int nonsig = 0; std::string bad; std::string pending_in; std::vector<std::string> log; int accept_left = 1000; bool keep_log = false; };
inline World W; inline bool on = false;
inline void reset() { W = World(); W.fd.reserve(MAXFD); }
inline void bad(const std::string& s) { if (W.bad.empty()) W.bad = s; }
inline bool fails(const char* what) { if (W.keep_log) W.log.push_back(what); if (W.calls++ == W.fail_at) { W.injected = true; W.what = what; return true; } return false; }
inline int fresh(int dom, int type) { Fd f; f.open = true; f.dom = dom; f.type = type; W.fd.push_back(f); return BASE + (int)W.fd.size() - 1; }
inline Fd* get(int fd, const char* what) { int i = fd - BASE; if (i < 0 || i >= (int)W.fd.size()) { if (fd >= 0) bad(std::string(what) + " on a descriptor that was never obtained"); errno = EBADF; return nullptr; } if (!W.fd[i].open) { bad(std::string(what) + " on a descriptor that was already closed"); errno = EBADF; return nullptr; } return &W.fd[i]; }
inline int open_count() { int n = 0; for (auto& f : W.fd) n += f.open; return n; }
// OpenSSL objects
struct Obj { int kind; bool live; int fd = -1; int state = 0; int refs = 1; Obj* ctx = nullptr; };
inline std::vector<Obj*> objs; inline int live_objs() { int n = 0; for (auto o : objs) n += o->live; return n; }
inline void reset_ssl() { for (auto o : objs) delete o; objs.clear(); }
inline Obj* chk(void* p, const char* what) { for (auto o : objs) if (o == p) { if (!o->live) bad(std::string(what) + " on a TLS object that was already released"); return o; } bad(std::string(what) + " on something that is not a TLS object"); return nullptr; }
}
extern "C" {
int __real_close(int); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int);
inline int net_errno(int e) { errno = e; return -1; }
__attribute__((used)) int __wrap_socket(int d, int t, int) { if (net::fails("socket")) return net_errno(EMFILE); return net::fresh(d, t); }
__attribute__((used)) int __wrap_close(int fd) { if (fd < net::BASE) return __real_close(fd); auto f = net::get(fd, "close"); if (!f) return -1; f->open = false; if (net::fails("close")) return net_errno(EIO); return 0; } // a descriptor is closed even when close fails
__attribute__((used)) int __wrap_shutdown(int fd, int) { auto f = net::get(fd, "shutdown"); if (!f) return -1; if (net::fails("shutdown")) return net_errno(ENOTCONN); f->shut = true; return 0; }
__attribute__((used)) int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) { auto f = net::get(fd, "setsockopt"); if (!f) return -1; if (net::fails("setsockopt")) return net_errno(EINVAL); return 0; }
__attribute__((used)) int __wrap_bind(int fd, const sockaddr*, socklen_t) { auto f = net::get(fd, "bind"); if (!f) return -1; if (net::fails("bind")) return net_errno(EADDRINUSE); if (f->bound) return net_errno(EINVAL); f->bound = true; return 0; }
__attribute__((used)) int __wrap_connect(int fd, const sockaddr* a, socklen_t n) { auto f = net::get(fd, "connect"); if (!f) return -1; if (net::fails("connect")) return net_errno(ECONNREFUSED); if (f->type == SOCK_STREAM && f->connected) return net_errno(EISCONN); f->connected = true; f->peer.assign((const char*)a, n); return 0; }
__attribute__((used)) int __wrap_listen(int fd, int) { auto f = net::get(fd, "listen"); if (!f) return -1; if (net::fails("listen")) return net_errno(EADDRINUSE); f->listening = true; return 0; }
__attribute__((used)) int __wrap_accept(int fd, sockaddr*, socklen_t*) { auto f = net::get(fd, "accept"); if (!f) return -1; if (net::fails("accept")) return net_errno(EMFILE); if (!f->listening) return net_errno(EINVAL); int d = f->dom; int c = net::fresh(d, SOCK_STREAM); auto n = net::get(c, "accept"); n->connected = true; n->in = net::W.pending_in; return c; }
__attribute__((used)) int __wrap_accept4(int fd, sockaddr* a, socklen_t* l, int) { return __wrap_accept(fd, a, l); }
static ssize_t net_recv(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* al) { auto f = net::get(fd, "recv"); if (!f) return -1; if (net::fails("recv")) return net_errno(ECONNRESET); if (f->type == SOCK_DGRAM) { if (f->di >= f->dg_in.size()) return net_errno(EAGAIN); auto& d = f->dg_in[f->di]; if (!(fl & MSG_PEEK)) f->di++; size_t k = std::min(n, d.second.size()); memcpy(b, d.second.data(), k); if (a && al) { memcpy(a, d.first.data(), std::min((size_t)*al, d.first.size())); *al = d.first.size(); } return fl & MSG_TRUNC ? d.second.size() : k; }
	size_t k = std::min(n, f->in.size() - f->ipos); if (k == 0) { if (n == 0) return 0; if (f->in_fails) return net_errno(ECONNRESET); return 0; } if (f->ri < f->rsz.size()) k = std::min(k, (size_t)f->rsz[f->ri++]); if (!(fl & MSG_TRUNC)) memcpy(b, f->in.data() + f->ipos, k); if (!(fl & MSG_PEEK)) f->ipos += k; return k; }
static ssize_t net_send(int fd, const void* b, size_t n, int flags, const sockaddr* a, socklen_t al) { auto f = net::get(fd, "send"); if (!f) return -1; if (!(flags & MSG_NOSIGNAL)) net::W.nonsig++; if (net::fails("send")) return net_errno(EPIPE); if (f->type == SOCK_DGRAM) { f->dg_out.push_back({ a ? std::string((const char*)a, al) : f->peer, std::string((const char*)b, n) }); return n; }
	size_t k = n; if (f->si < f->ssz.size()) { int s = f->ssz[f->si++]; if (s < 0) return net_errno(EPIPE); k = std::min(k, (size_t)s); } f->out.append((const char*)b, k); return k; }
__attribute__((used)) ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { return net_recv(fd, b, n, fl, nullptr, nullptr); }
__attribute__((used)) ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) { return net_recv(fd, b, n, fl, a, l); }
__attribute__((used)) ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { return net_send(fd, b, n, fl, nullptr, 0); }
__attribute__((used)) ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) { return net_send(fd, b, n, fl, a, l); }

__attribute__((used)) int __wrap_getaddrinfo(const char* host, const char*, const addrinfo* h, addrinfo** r) { if (net::fails("getaddrinfo")) return EAI_NONAME; bool v6 = h->ai_family == AF_INET6; size_t n = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); int k = host && !strcmp(host, "two") ? 2 : 1; addrinfo* first = nullptr; for (int i = 0; i < k; i++) { addrinfo* a = (addrinfo*)calloc(1, sizeof(addrinfo)); a->ai_family = h->ai_family; a->ai_addr = (sockaddr*)malloc(n); memset(a->ai_addr, 0x20 + i, n); a->ai_addr->sa_family = h->ai_family; a->ai_addrlen = n; a->ai_next = first; first = a; } *r = first; net::W.lists++; return 0; }
__attribute__((used)) void __wrap_freeaddrinfo(addrinfo* a) { net::W.lists--; while (a) { addrinfo* n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
}
#define NETWRAP_LIST "socket close shutdown setsockopt bind connect listen accept accept4 recv recvfrom send sendto getaddrinfo freeaddrinfo"
