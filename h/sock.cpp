// N01-N04: sockets, socket streams and TLS sockets over a stand-in for the operating system and OpenSSL calls.
#include "net.h"
#include <openssl/ssl.h>
#include "socket.h"
#include "openssl_socket.h"
#include "tlog.h"
#include <memory>
#include <csignal>
using namespace mc; using net::W;
// ---- OpenSSL stand-ins
using net::Obj; using net::objs; using net::chk; using net::bad;
static const char* g_password = nullptr; static std::vector<int> g_cb_sizes;
static Obj* mk(int kind) { objs.push_back(new Obj{ kind, true }); return objs.back(); }
static pem_password_cb* g_cb = nullptr; static void* g_cb_data = nullptr;
static net::Fd* ssl_fd(Obj* o, const char* what) { if (o->fd < 0) { errno = EBADF; return nullptr; } return net::get(o->fd, what); }
extern "C" {
const SSL_METHOD* TLS_client_method() { return net::fails("method") ? nullptr : (const SSL_METHOD*)8; }
const SSL_METHOD* TLS_server_method() { return net::fails("method") ? nullptr : (const SSL_METHOD*)8; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { return net::fails("ctx") ? nullptr : (SSL_CTX*)mk(1); }
static void unref(Obj* o, const char* w) { if (--o->refs < 0) bad(std::string(w) + " releases a TLS object twice"); if (o->refs <= 0) o->live = false; }
void SSL_CTX_free(SSL_CTX* c) { if (!c) return; if (auto o = chk(c, "SSL_CTX_free")) unref(o, "SSL_CTX_free"); }
int SSL_CTX_up_ref(SSL_CTX* c) { if (auto o = chk(c, "SSL_CTX_up_ref")) o->refs++; return 1; }
void SSL_CTX_set_verify(SSL_CTX* c, int, SSL_verify_cb) { chk(c, "SSL_CTX_set_verify"); }
void SSL_CTX_set_default_passwd_cb(SSL_CTX* c, pem_password_cb* cb) { chk(c, "passwd_cb"); g_cb = cb; }
void SSL_CTX_set_default_passwd_cb_userdata(SSL_CTX* c, void* u) { chk(c, "passwd_cb"); g_cb_data = u; }
int SSL_CTX_use_certificate_file(SSL_CTX* c, const char*, int) { chk(c, "certificate"); return net::fails("cert") ? 0 : 1; }
int SSL_CTX_use_certificate_chain_file(SSL_CTX* c, const char*) { chk(c, "certificate"); return net::fails("cert") ? 0 : 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char*, int) { chk(c, "key"); if (net::fails("key")) return 0; if (g_password) for (int n : g_cb_sizes) { char* b = new char[n]; memset(b, 0x55, n); int r = g_cb ? g_cb(b, n, 0, g_cb_data) : 0; size_t l = strlen(g_password); if ((int)l < n) { if (r != (int)l || memcmp(b, g_password, l)) bad(fmt("the password of length %zu is not passed on to a buffer of %d", l, n)); } delete[] b; } return 1; }
int SSL_CTX_check_private_key(const SSL_CTX*) { return 1; }
SSL* SSL_new(SSL_CTX* c) { auto o = chk(c, "SSL_new"); if (net::fails("ssl")) return nullptr; auto s = mk(2); s->ctx = o; if (o) o->refs++; return (SSL*)s; }
void SSL_free(SSL* s) { if (!s) return; if (auto o = chk(s, "SSL_free")) { bool was = o->live; unref(o, "SSL_free"); if (was && !o->live && o->ctx) unref(o->ctx, "SSL_free"); } }
int SSL_set_fd(SSL* s, int fd) { auto o = chk(s, "SSL_set_fd"); if (net::fails("set_fd")) return 0; if (o) { o->fd = fd; o->state = 0; } return 1; }
static int hs(SSL* s, const char* w) { auto o = chk(s, w); if (!o) return -1; if (!ssl_fd(o, w)) return -1; if (net::fails("handshake")) return -1; if (o->state == 1) return 1; if (o->state == 2) return -1; o->state = 1; return 1; }
int SSL_connect(SSL* s) { return hs(s, "SSL_connect"); }
int SSL_accept(SSL* s) { return hs(s, "SSL_accept"); }
int SSL_get_error(const SSL*, int) { return 1; }
int SSL_clear(SSL* s) { if (auto o = chk(s, "SSL_clear")) o->state = 0; return 1; }
int SSL_shutdown(SSL* s) { auto o = chk(s, "SSL_shutdown"); if (!o || o->state != 1) return -1; if (!ssl_fd(o, "SSL_shutdown")) return -1; o->state = 2; return 1; }
void SSL_set_bio(SSL* s, BIO*, BIO*) { if (auto o = chk(s, "SSL_set_bio")) { o->fd = -1; o->state = 0; } }
int SSL_pending(const SSL*) { return 0; }
int SSL_read(SSL* s, void* b, int n) { auto o = chk(s, "SSL_read"); if (!o || !ssl_fd(o, "SSL_read")) return -1; if (o->state != 1) return -1; return (int)net_recv(o->fd, b, n, 0, nullptr, nullptr); }
int SSL_write(SSL* s, const void* b, int n) { auto o = chk(s, "SSL_write"); if (!o || !ssl_fd(o, "SSL_write")) return -1; if (o->state != 1) return -1; if (n == 0) return 0; return (int)net_send(o->fd, b, n, MSG_NOSIGNAL, nullptr, 0); }
}
using TC = abc::tcp_client_socket<TLog>; using TS = abc::tcp_server_socket<TLog>; using US = abc::udp_socket<TLog>; using OC = abc::openssl_tcp_client_socket<TLog>; using OS = abc::openssl_tcp_server_socket<TLog>;
static bool g_use_log;
#ifdef X03
static TLog* LG() { return xlog(); }
#else
static TLog g_tlog; static TLog* LG() { return g_use_log ? &g_tlog : nullptr; }
#endif

static void world_ok(const std::string& c, size_t k) { MC_CHECK(W.bad.empty(), "%s step %zu: %s", c.c_str(), k, W.bad.c_str()); }
// ---- socket streams: "data" is what the peer sends; plan is the sizes (digits, '-' an error) of the sends
template <class S> S* connected();
template <> TC* connected<TC>() { auto s = new TC(abc::socket::family::ipv4, LG()); s->connect("h", "1"); return s; }
template <> OC* connected<OC>() { auto s = new OC(false, abc::socket::family::ipv4, LG()); s->connect("h", "1"); return s; }
template <class S> static void stream(const std::string& data, int end, const std::string& plan, const std::string& ops) {
	net::reset(); net::reset_ssl(); using tr = std::char_traits<char>; std::unique_ptr<S> s(connected<S>()); auto& f = W.fd[0]; f.in = data; f.in_fails = end == 1; for (char c : plan) { if (c == '-') f.ssz.push_back(-1); else f.ssz.push_back(c - '0'); } W.nonsig = 0;
	using SB = abc::socket_streambuf<S, TLog>; std::unique_ptr<SB> sb(new SB(s.get(), LG())); size_t pos = 0; std::string written; bool failed = false, ended = false; static const char B[] = { 'a', '\xff', '\0', '\x7f', '\x80', 'z', '\xfe', '\x01' }; int nb = 0;
	for (size_t k = 0; k < ops.size() && !failed; k++) { char o = ops[k]; count(TRANS);
		auto expect = [&](int r, size_t at, const char* what) { int w = at < data.size() ? (unsigned char)data[at] : tr::eof(); MC_CHECK(r == w, "%s after %zu bytes of '%s': %s returned %d, expected %d", ops.substr(0, k + 1).c_str(), at, show(data).c_str(), what, r, w); };
		switch (o) {
		case 'g': expect(sb->sgetc(), pos, "sgetc"); if (pos >= data.size()) ended = true; break; case 'b': expect(sb->sbumpc(), pos, "sbumpc"); if (pos < data.size()) pos++; break; case 'n': { if (pos < data.size()) { pos++; expect(sb->snextc(), pos, "snextc"); } else expect(sb->snextc(), pos, "snextc"); break; }
		case 'G': { char b[4]; memset(b, 0x11, 4); auto r = sb->sgetn(b, 3); size_t w = std::min<size_t>(3, data.size() - pos); MC_CHECK((size_t)r == w && memcmp(b, data.data() + pos, w) == 0, "%s: sgetn returned %ld at %zu of '%s'", ops.c_str(), (long)r, pos, show(data).c_str()); pos += w; break; }
		case 'c': { char c = B[nb++ % 8]; written += c; auto r = sb->sputc(c); if (tr::eq_int_type(r, tr::eof())) failed = true; else MC_CHECK(r == tr::to_int_type(c), "%s: sputc(%d) returned %d", ops.c_str(), (unsigned char)c, r); break; }
		case '2': case '3': { std::string d; for (int i = 0; i < o - '0'; i++) d += B[nb++ % 8]; written += d; if (sb->sputn(d.data(), d.size()) != (std::streamsize)d.size()) failed = true; break; }
		case 'f': if (sb->pubsync() != 0) failed = true; else MC_CHECK(f.out == written, "%s step %zu: flushed successfully, but '%s' was sent instead of '%s' (sends %s)", ops.c_str(), k, show(f.out).c_str(), show(written).c_str(), plan.c_str()); break;
		case 'M': { std::unique_ptr<SB> t(new SB(std::move(*sb))); sb = std::move(t); break; }
		}
		MC_CHECK(written.compare(0, f.out.size(), f.out) == 0, "%s step %zu: '%s' was sent instead of '%s' (sends %s)", ops.c_str(), k, show(f.out).c_str(), show(written).c_str(), plan.c_str()); world_ok(ops, k); count(STATES); }
	bool planfail = plan.find_first_of("-0") != std::string::npos; if (!planfail) MC_CHECK(!failed, "%s: a write failed although every send succeeded", ops.c_str());
	MC_CHECK(W.nonsig == 0 || plan.find('-') == std::string::npos, "sending to a closed connection raises a signal that ends the process");
	if (!failed) { auto r = sb->pubsync(); MC_CHECK(r != 0 || f.out == written, "%s: in the end '%s' was sent instead of '%s' (sends %s), and no error was reported", ops.c_str(), show(f.out).c_str(), show(written).c_str(), plan.c_str()); }
	sb.reset(); s.reset(); world_ok(ops, 99); MC_CHECK(net::open_count() == 0, "a descriptor is left open"); count(EVAL); count(TRACES); outcome(hash_str(ops + "|" + plan + "|" + data) + failed); }
// ---- descriptors
struct Bad : std::runtime_error { using runtime_error::runtime_error; };
template <class F> static int attempt(F f) { try { f(); return 1; } catch (std::exception&) { return 0; } }
static abc::socket::address v4() { abc::socket::address a{}; memset(&a.value, 0x31, sizeof(sockaddr_in)); a.value.sa_family = AF_INET; a.size = sizeof(sockaddr_in); return a; }
static net::Fd* of(int fd) { return fd >= net::BASE ? &W.fd[fd - net::BASE] : nullptr; }
// kinds: c tcp client, C TLS client, u udp
template <class S, class MK> static void client_seq(char kind, const std::string& ops, long fail, MK mk) {
	net::reset(); net::reset_ssl(); W.fail_at = fail; { std::unique_ptr<S> s; std::string in(40, 'i'); bool conn = false, bound = false;
	auto make = [&] { s.reset(); conn = bound = false; long c0 = W.calls; bool inj0 = W.injected; int ok = attempt([&] { s.reset(mk()); }); world_ok(ops, 0); if (W.injected && !inj0) MC_CHECK(!ok || true, ""); else MC_CHECK(ok, "%s: construction failed although every call succeeded", ops.c_str()); (void)c0; }; make();
	for (size_t k = 0; k < ops.size(); k++) { char o = ops[k]; count(TRANS); if (!s) { make(); if (!s) break; } bool inj0 = W.injected; int fd0 = s->fd(); bool open0 = s->is_open();
		auto chkop = [&](int ok, const char* what, bool legal) { bool inj = W.injected && !inj0; if (inj) return; if (legal) MC_CHECK(ok, "%s%s step %zu: %s failed although every call succeeded", &kind, "", k, what); else MC_CHECK(!ok, "%s step %zu: %s succeeded although it is not possible", ops.c_str(), k, what); };
		switch (o) {
		case 'c': case 't': case 'k': { int ok = attempt([&] { if (o == 'k') s->connect(v4()); else s->connect(o == 't' ? "two" : "h", "1"); }); bool inj = W.injected && !inj0; if (ok) { conn = true; auto f = of(s->fd()); MC_CHECK(f && f->open && f->connected, "%s step %zu: connect succeeded without a connection", ops.c_str(), k); } else MC_CHECK(inj || conn || (kind == 'C'), "%s step %zu: connect failed although every call succeeded", ops.c_str(), k); if (!ok && inj && o == 't' && W.what == "connect" && !conn) MC_CHECK(false, "%s step %zu: connect failed although the second address works", ops.c_str(), k); if (!ok && of(s->fd()) && of(s->fd())->connected) conn = true; break; }
		case 'b': if constexpr (std::is_same<S, US>::value) { int ok = attempt([&] { s->bind("9"); }); bool inj = W.injected && !inj0; if (ok) { auto f = of(s->fd()); MC_CHECK(f && f->open && f->bound, "%s step %zu: bind succeeded without binding", ops.c_str(), k); } else if (!inj) MC_CHECK(open0, "%s step %zu: bind failed although every call succeeded", ops.c_str(), k); else MC_CHECK(open0 || !s->is_open(), "%s step %zu: a socket whose bind failed is left open", ops.c_str(), k); } break;
		case 's': { size_t r = 0; size_t o0 = of(fd0) && open0 ? of(fd0)->out.size() : 0; int ok = attempt([&] { r = s->send("hello", 5); }); if (!open0) MC_CHECK(!ok, "%s step %zu: sending on a closed socket succeeded", ops.c_str(), k); bool inj = W.injected && !inj0; if (inj) MC_CHECK(!ok || r == 0, "%s step %zu: a failed send returned %zu", ops.c_str(), k, r); if (ok && r && !std::is_same<S, US>::value) MC_CHECK(of(fd0)->out.size() - o0 == r && of(fd0)->out.substr(o0) == std::string("hello").substr(0, r), "%s step %zu: send returned %zu", ops.c_str(), k, r); if (ok && conn && !inj) MC_CHECK(r == 5 || kind == 'C', "%s step %zu: send returned %zu", ops.c_str(), k, r); break; }
		case 'r': { if (open0) { of(fd0)->in = in; of(fd0)->ipos = 0; of(fd0)->dg_in.push_back({ "", "datagram" }); } char* b = new char[8]; size_t r = 0; int ok = attempt([&] { r = s->receive(b, 8); }); std::string got(b, ok ? r : 0); delete[] b; if (!open0) MC_CHECK(!ok, "%s step %zu: receiving on a closed socket succeeded", ops.c_str(), k); bool inj = W.injected && !inj0; if (inj) MC_CHECK(!ok || r == 0, "%s step %zu: a failed receive returned %zu", ops.c_str(), k, r); else if (ok && conn && r) MC_CHECK(r == 8 && (got == "iiiiiiii" || got == "datagram"), "%s step %zu: receive returned '%s'", ops.c_str(), k, show(got).c_str()); break; }
		case 'x': s->close(); conn = bound = false; MC_CHECK(!s->is_open(), "%s step %zu: open after close", ops.c_str(), k); if (of(fd0)) MC_CHECK(!of(fd0)->open, "%s step %zu: the descriptor is open after close", ops.c_str(), k); break;
		case 'm': { std::unique_ptr<S> t(new S(std::move(*s))); MC_CHECK(t->fd() == fd0, "%s step %zu: the moved socket has another descriptor", ops.c_str(), k); MC_CHECK(!s->is_open(), "%s step %zu: the moved-from socket is open", ops.c_str(), k); s = std::move(t); break; }
		case 'd': make(); if (!s) k = ops.size(); break;
		}
		world_ok(ops, k); if (s) MC_CHECK(net::open_count() == (s->is_open() ? 1 : 0), "%s step %zu: %d descriptors are open", ops.c_str(), k, net::open_count()); count(STATES); }
	if (s) { s->close(); world_ok(ops, 90); W.fail_at = -1; int ok = attempt([&] { s->connect("h", "1"); }); MC_CHECK(ok, "%s: after close the socket cannot be connected again", ops.c_str()); world_ok(ops, 91); size_t r = s->send("again", 5); MC_CHECK(r == 5, "%s: after close the socket cannot be used again", ops.c_str()); } }
	world_ok(ops, 99); MC_CHECK(net::open_count() == 0, "%s: %d descriptors are left open", ops.c_str(), net::open_count()); MC_CHECK(W.lists == 0, "%s: address lists are not released exactly once", ops.c_str()); MC_CHECK(net::live_objs() == 0, "%s: %d TLS objects are not released", ops.c_str(), net::live_objs());
	count(EVAL); count(TRACES); if (W.injected) count(FAULTS); outcome(hash_str(ops) * 131 + fail * 7 + kind); }
template <class S, class AC, class MK> static void server_seq(char kind, const std::string& ops, long fail, MK mk) {
	net::reset(); net::reset_ssl(); W.fail_at = fail; W.pending_in = "request"; { std::unique_ptr<S> s; std::vector<std::unique_ptr<AC>> acc; auto make = [&] { s.reset(); bool inj0 = W.injected; int ok = attempt([&] { s.reset(mk()); }); world_ok(ops, 0); if (!(W.injected && !inj0)) MC_CHECK(ok, "%s: construction failed although every call succeeded", ops.c_str()); }; make();
	for (size_t k = 0; k < ops.size(); k++) { char o = ops[k]; count(TRANS); if (!s) { make(); if (!s) break; } bool inj0 = W.injected; int fd0 = s->fd(); bool open0 = s->is_open();
		switch (o) {
		case 'b': case 'B': { int ok = attempt([&] { if (o == 'b') s->bind("9"); else s->bind("two", "9"); }); bool inj = W.injected && !inj0; if (ok) { auto f = of(s->fd()); MC_CHECK(f && f->open && f->bound, "%s step %zu: bind succeeded without binding", ops.c_str(), k); } else if (!inj) MC_CHECK(open0, "%s step %zu: bind failed although every call succeeded", ops.c_str(), k); else { MC_CHECK(open0 || !s->is_open(), "%s step %zu: a socket whose bind failed is left open", ops.c_str(), k); MC_CHECK(open0 || o != 'B' || W.what != "bind", "%s step %zu: bind failed although the second address works", ops.c_str(), k); } break; }
		case 'l': { int ok = attempt([&] { s->listen(3); }); bool inj = W.injected && !inj0; MC_CHECK(ok == (open0 && !inj), "%s step %zu: listen %s", ops.c_str(), k, ok ? "succeeded" : "failed"); break; }
		case 'a': { size_t n0 = W.fd.size(); bool listening = open0 && of(fd0)->listening; int ok = attempt([&] { acc.emplace_back(new AC(s->accept())); }); bool inj = W.injected && !inj0; MC_CHECK(ok == (listening && !inj), "%s step %zu: accept %s", ops.c_str(), k, ok ? "succeeded" : "failed"); if (ok) { MC_CHECK(acc.back()->is_open() && acc.back()->fd() == net::BASE + (int)n0, "%s step %zu: the accepted socket has another descriptor", ops.c_str(), k); char b[8] = {}; size_t r = acc.back()->receive(b, 7); MC_CHECK((W.injected && !inj0) || (r == 7 && !strcmp(b, "request")), "%s step %zu: the accepted socket received '%s'", ops.c_str(), k, b); } break; }
		case 'q': if (!acc.empty()) { std::unique_ptr<AC> t(new AC(std::move(*acc.back()))); acc.back() = std::move(t); size_t r = 0; attempt([&] { r = acc.back()->send("answer", 6); }); bool inj = W.injected && !inj0; MC_CHECK(inj || r == 6 || !acc.back()->is_open(), "%s step %zu: the accepted socket sent %zu bytes", ops.c_str(), k, r); } break;
		case 'X': if (!acc.empty()) acc.back()->close(); break; case 'D': if (!acc.empty()) acc.pop_back(); break;
		case 'x': s->close(); MC_CHECK(!s->is_open(), "%s step %zu: open after close", ops.c_str(), k); if (of(fd0)) MC_CHECK(!of(fd0)->open, "%s step %zu: the descriptor is open after close", ops.c_str(), k); break;
		case 'm': { std::unique_ptr<S> t(new S(std::move(*s))); MC_CHECK(t->fd() == fd0 && !s->is_open(), "%s step %zu: the descriptor was not moved", ops.c_str(), k); s = std::move(t); break; }
		case 'd': make(); if (!s) k = ops.size(); break;
		}
		world_ok(ops, k); int want = (s && s->is_open()); for (auto& a : acc) want += a->is_open(); MC_CHECK(net::open_count() == want, "%s step %zu: %d descriptors are open, owners hold %d", ops.c_str(), k, net::open_count(), want); count(STATES); }
	if (s) { s->close(); W.fail_at = -1; int ok = attempt([&] { s->bind("9"); s->listen(1); AC c = s->accept(); }); MC_CHECK(ok, "%s: after close the socket cannot be used again", ops.c_str()); } if (ops.size() % 2) { s.reset(); acc.clear(); } else { acc.clear(); s.reset(); } }
	world_ok(ops, 99); MC_CHECK(net::open_count() == 0, "%s: %d descriptors are left open", ops.c_str(), net::open_count()); MC_CHECK(W.lists == 0, "%s: address lists are not released exactly once", ops.c_str()); MC_CHECK(net::live_objs() == 0, "%s: %d TLS objects are not released", ops.c_str(), net::live_objs());
	count(EVAL); count(TRACES); if (W.injected) count(FAULTS); outcome(hash_str(ops) * 131 + fail * 7 + kind); }
static long seq(char kind, const std::string& ops, long fail) {
	switch (kind) { case 'c': client_seq<TC>(kind, ops, fail, [] { return new TC(abc::socket::family::ipv4, LG()); }); break; case 'u': client_seq<US>(kind, ops, fail, [] { return new US(abc::socket::family::ipv6, LG()); }); break; case 'C': client_seq<OC>(kind, ops, fail, [] { return new OC(true, abc::socket::family::ipv4, LG()); }); break;
	case 's': server_seq<TS, TC>(kind, ops, fail, [] { return new TS(abc::socket::family::ipv6, LG()); }); break; case 'S': server_seq<OS, OC>(kind, ops, fail, [] { return new OS("c", "k", "p", false, abc::socket::family::ipv4, LG()); }); break; }
	return W.calls; }
static void password(int len) { net::reset(); net::reset_ssl(); std::string p; for (int i = 0; i < len; i++) p += (char)('!' + i % 90); g_password = p.c_str(); g_cb_sizes = { 1, 2, len > 0 ? len : 1, len + 1, len + 2, 1024 }; int ok = attempt([&] { OS s("c", "k", p.c_str(), false, abc::socket::family::ipv4, LG()); OS t(std::move(s)); }); g_password = nullptr; world_ok("password", len); if (len < 30) MC_CHECK(ok, "a password of length %d is rejected", len); if (len > 2000) MC_CHECK(!ok, "a password of length %d is accepted", len); MC_CHECK(net::live_objs() == 0, "TLS objects are not released after a password of length %d", len); count(EVAL); count(STATES); count(TRACES); }
// ---- datagrams
static void datagram(int v6, int size, int bufsize, int how) { net::reset(); US s(v6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, LG()); s.bind("9"); std::string from(v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in), 0), d; for (size_t i = 0; i < from.size(); i++) from[i] = (char)(i * 7 + 3); short fam = v6 ? AF_INET6 : AF_INET; memcpy(&from[0], &fam, 2); for (int i = 0; i < size; i++) d += (char)(255 - i); of(s.fd())->dg_in = { { from, d }, { from, d } };
	for (int round = 0; round < 2; round++) { char* b = new char[bufsize]; abc::socket::address a; memset(&a.value, 0, sizeof(a.value)); size_t r = s.receive(b, bufsize, &a); int want = std::min(size, bufsize); MC_CHECK((int)r == want && memcmp(b, d.data(), want) == 0, "a datagram of %d bytes is received as %zu", size, r); MC_CHECK(a.size == from.size() && memcmp(&a.value, from.data(), std::min(from.size(), sizeof(a))) == 0, "the address of the sender (%zu bytes) is received as %u bytes", from.size(), (unsigned)a.size);
		size_t n = 0; if (how == 0) n = s.send(b, want, &a); else { s.connect(a); n = s.send(b, want); } MC_CHECK((int)n == want, "the answer of %d bytes is sent as %zu", want, n); auto& o = of(s.fd())->dg_out; MC_CHECK(!o.empty() && o.back().second == d.substr(0, want), "the answer is not what was sent"); MC_CHECK(o.back().first == from, "the answer of %d bytes goes to another address (%zu bytes)", want, o.back().first.size()); delete[] b; world_ok("datagram", round); count(TRANS); }
	{ abc::socket::address a = v4(); TC t(abc::socket::family::ipv4, LG()); t.connect("h", "1"); bool th = false; try { t.send("x", 1, &a); } catch (std::exception&) { th = true; } MC_CHECK(th, "a stream socket accepts an address to send to"); th = false; char c; try { t.receive(&c, 1, &a); } catch (std::exception&) { th = true; } MC_CHECK(th, "a stream socket accepts an address to receive from"); }
	count(EVAL); count(STATES); count(TRACES); outcome(hash_str(fmt("%d %d %d %d", v6, size, bufsize, how))); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22); signal(SIGPIPE, SIG_DFL);
	auto split = [](const std::string& c) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = c.find('|', p); f.push_back(c.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return f; p = q + 1; } };
	auto run = [](const std::vector<std::string>& f) { g_use_log = atoi(f[1].c_str()) & 1; if (f[0] == "st") stream<TC>(unhex(f[2]), atoi(f[3].c_str()), f[4], f[5]); else if (f[0] == "tl") stream<OC>(unhex(f[2]), atoi(f[3].c_str()), f[4], f[5]); else if (f[0] == "sq") return seq(f[2][0], f[3], atol(f[4].c_str())); else if (f[0] == "pw") password(atoi(f[2].c_str())); else if (f[0] == "dg") datagram(atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()), atoi(f[5].c_str())); return 0l; };
	G.run_case = [&](const std::string& c) { run(split(c)); }; maybe_replay(); bool T = G.thorough; double dl = T ? 780 : 0; auto go = [&](const std::string& c) { set_case(c); return run(split(c)); };
	auto pw = [](uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }; auto word = [](uint64_t t, int n, const std::string& A) { std::string s; while (n--) { s += A[t % A.size()]; t /= A.size(); } return s; };
	if (G.prop == "N01" || G.prop == "N03") { const char* kind = G.prop == "N01" ? "st" : "tl"; g_rule = "a state is a point in a history of stream operations; the bytes at the system call are compared with the bytes of the stream";
		std::vector<std::string> datas; for (int n = 0; n <= 3; n++) for (uint64_t t = 0; t < pw(4, n); t++) datas.push_back(word(t, n, std::string("a\xff\0\x80", 4)));
		int RD = T ? 6 : 4; for (int n = 1; n <= RD; n++) run_tasks(pw(5, n), [&](uint64_t t) { std::string o = word(t, n, "gbnGM"); for (auto& d : datas) for (int e = 0; e < 2; e++) go(fmt("%s|%d|%s|%d||%s", kind, e, hex(d).c_str(), e, o.c_str())); if (t == 3) sample(o); }, dl, 4);
		int WR = T ? 7 : 5; for (int n = 1; n <= WR; n++) run_tasks(pw(5, n), [&](uint64_t t) { std::string o = word(t, n, "c23fM"); go(fmt("%s|0|||%s|%s", kind, "", o.c_str())); int total = 0; for (char c : o) total += c == 'c' ? 1 : c == '2' ? 2 : c == '3' ? 3 : 0; for (int k = 0; k <= total && k < 24; k++) for (char x : { '-', '0' }) { count(FAULTS); for (int lg = 0; lg < 2; lg++) go(fmt("%s|%d||0|%s%c|%s", kind, lg, std::string(k, '9').c_str(), x, o.c_str())); } }, dl, 4);
		for (int n = 2; n <= (T ? 7 : 5); n++) run_tasks(pw(7, n), [&](uint64_t t) { std::string o = word(t, n, "gbGc3fM"); go(fmt("%s|0|%s|0||%s", kind, hex(std::string("\xff" "b\0", 3)).c_str(), o.c_str())); }, dl, 8);
		run_tasks(256, [&](uint64_t t) { go(fmt("%s|0|%02x%02x|0||gbbcf", kind, (int)t, (int)(255 - t))); }); cover("sequences", fmt("every sequence of up to %d reads and moves for every text of up to 3 bytes of 4 values, of up to %d writes with every send failing, of up to %d mixed operations", RD, WR, T ? 7 : 5)); }
	if (G.prop == "N02" || G.prop == "N03") { g_rule = "a state is the set of descriptors and TLS objects after an operation; owners and the system's view are compared"; struct K { char k; const char* A; int q, t; }; std::vector<K> ks; if (G.prop == "N02") ks = { { 'c', "ctksrxmd", 4, 6 }, { 'u', "bcksrxmd", 4, 6 }, { 's', "bBlaqXDxmd", 4, 5 } }; else ks = { { 'C', "cksrxmd", 4, 6 }, { 'S', "blaqXDxmd", 4, 5 } };
		for (auto& K_ : ks) { std::string A = K_.A; char k = K_.k; int N = T ? K_.t : K_.q; for (int n = 0; n <= N; n++) run_tasks(pw(A.size(), n), [&](uint64_t t) { std::string o = word(t, n, A); for (std::string pre : { std::string(""), std::string(k == 's' || k == 'S' ? "bla" : "") }) { if (pre.empty() && &pre != nullptr && n == 0 && (k == 's' || k == 'S') ) {} std::string ops = pre + o; for (int lg = 0; lg < 2; lg++) { long c = go(fmt("sq|%d|%c|%s|-1", lg, k, ops.c_str())); for (long f = 0; f < c; f++) go(fmt("sq|%d|%c|%s|%ld", lg, k, ops.c_str(), f)); } if (!(k == 's' || k == 'S')) break; } if (t == 5) sample(o); }, dl, 4); }
		cover("histories", "every sequence of socket operations to a depth, each with every system or TLS call failing once"); }
	if (G.prop == "N03") run_tasks(600, [&](uint64_t t) { go(fmt("pw|%d|%d", (int)(t & 1), t < 560 ? (int)t : (int)(t - 560) * 100 + 560)); });
	if (G.prop == "N04") { g_rule = "a state is a datagram with its sender; the answer goes to the recorded address"; int S = T ? 300 : 70; run_tasks((uint64_t)S * 8, [&](uint64_t t) { int v6 = t & 1, how = (t >> 1) & 1, l = (t >> 2) & 1, size = t / 8; for (int b = 1; b <= size + 2; b++) go(fmt("dg|%d|%d|%d|%d|%d", l, v6, size, b, how)); }, dl); cover("datagrams", fmt("IPv4 and IPv6, sizes 0..%d, every buffer size", S - 1)); }
	done();
}
