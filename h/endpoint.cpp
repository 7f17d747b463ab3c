// E01, E04, E05: the HTTP endpoint over a stand-in network. Real threads; connections are handled one after the other.
#include "mc.h"
#include "tlog.h"
#include "endpoint.h"
#include "resp.h"
#include <netdb.h>
#include <netinet/in.h>
#include <sys/resource.h>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <fstream>
using namespace mc; using namespace std::string_literals;

// ---- network stand-in: descriptors from 5000 on
struct Conn { std::string in; size_t pos = 0; int end = 0; std::string out; long fail_at = -1; bool closed = false; int grow_at = -1, grow_n = 0; std::string grow_file; };
struct NFd { int kind = 0; Conn* c = nullptr; bool open = false; }; // 1 new, 2 listening, 3 connection
static std::mutex nmx; static std::condition_variable ncv;
static std::deque<NFd> nfds; static std::map<int, std::deque<Conn*>> queues; static std::deque<int> accept_errors; static int waiting_fd = -1; static std::string nbad; static int fail_setup = 0; static int open_conns = 0;
static const int BASE = 5000;
static NFd* nget(int fd, const char* w) { if (fd < BASE || fd >= BASE + (int)nfds.size() || !nfds[fd - BASE].open) { if (nbad.empty()) nbad = fmt("%s on a descriptor that is not open (%d)", w, fd); return nullptr; } return &nfds[fd - BASE]; }
static int nnew(int kind, Conn* c) { for (size_t i = 0; i < nfds.size(); i++) if (!nfds[i].open && nfds[i].kind != 2 && nfds.size() > 3000) { nfds[i] = NFd{ kind, c, true }; return BASE + i; } nfds.push_back(NFd{ kind, c, true }); return BASE + nfds.size() - 1; }
extern "C" {
int __real_close(int);
__attribute__((used)) int __wrap_socket(int, int, int) { std::lock_guard<std::mutex> l(nmx); if (fail_setup == 1) { errno = EMFILE; return -1; } return nnew(1, nullptr); }
__attribute__((used)) int __wrap_close(int fd) {
	if (fd >= 0 && fd < BASE) return __real_close(fd);
	std::lock_guard<std::mutex> l(nmx); NFd* f = nget(fd, "close"); if (!f) { errno = EBADF; return -1; }
	f->open = false; if (f->c) { f->c->closed = true; open_conns--; } ncv.notify_all(); return 0;
}
__attribute__((used)) int __wrap_shutdown(int fd, int) { std::lock_guard<std::mutex> l(nmx); return nget(fd, "shutdown") ? 0 : -1; }
__attribute__((used)) int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) { std::lock_guard<std::mutex> l(nmx); return nget(fd, "setsockopt") ? 0 : -1; }
__attribute__((used)) int __wrap_bind(int fd, const sockaddr*, socklen_t) { std::lock_guard<std::mutex> l(nmx); if (fail_setup == 2) { errno = EADDRINUSE; return -1; } return nget(fd, "bind") ? 0 : -1; }
__attribute__((used)) int __wrap_listen(int fd, int) { std::lock_guard<std::mutex> l(nmx); if (fail_setup == 3) { errno = EADDRINUSE; return -1; } NFd* f = nget(fd, "listen"); if (!f) return -1; f->kind = 2; return 0; }
static int naccept(int fd) {
	std::unique_lock<std::mutex> l(nmx); NFd* f = nget(fd, "accept"); if (!f) { errno = EBADF; return -1; }
	waiting_fd = fd; ncv.notify_all();
	for (;;) {
		auto& q = queues[fd];
		if (!q.empty()) {
			if (!accept_errors.empty()) { errno = accept_errors.front(); accept_errors.pop_front(); return -1; }
			Conn* c = q.front(); q.pop_front(); open_conns++; return nnew(3, c);
		}
		ncv.wait(l);
	}
}
__attribute__((used)) int __wrap_accept(int fd, sockaddr*, socklen_t*) { return naccept(fd); }
__attribute__((used)) int __wrap_accept4(int fd, sockaddr*, socklen_t*, int) { return naccept(fd); }
__attribute__((used)) ssize_t __wrap_recv(int fd, void* b, size_t n, int) {
	std::lock_guard<std::mutex> l(nmx); NFd* f = nget(fd, "recv"); if (!f || !f->c) { errno = EBADF; return -1; }
	Conn* c = f->c; size_t k = std::min(n, c->in.size() - c->pos);
	if (k == 0) { if (c->end) { errno = ECONNRESET; return -1; } return 0; }
	memcpy(b, c->in.data() + c->pos, k); c->pos += k; return k;
}
__attribute__((used)) ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) {
	std::lock_guard<std::mutex> l(nmx); NFd* f = nget(fd, "send"); if (!f || !f->c) { errno = EBADF; return -1; }
	Conn* c = f->c;
	if (c->grow_at >= 0 && (long)c->out.size() >= c->grow_at) { c->grow_at = -1; if (c->grow_n < 0) { struct stat st; if (!stat(c->grow_file.c_str(), &st) && truncate(c->grow_file.c_str(), std::max<long>(0, st.st_size + c->grow_n))) {} } else { std::ofstream o(c->grow_file, std::ios::app | std::ios::binary); o << std::string(c->grow_n, 'G'); } }
	if (c->fail_at >= 0 && (long)(c->out.size() + n) > c->fail_at) {
		size_t k = c->fail_at - c->out.size(); c->out.append((const char*)b, k);
		if (k) return k;
		if (!(fl & MSG_NOSIGNAL)) raise(SIGPIPE);
		errno = EPIPE; return -1;
	}
	c->out.append((const char*)b, n); return n;
}
__attribute__((used)) int __wrap_getaddrinfo(const char*, const char*, const addrinfo* h, addrinfo** r) { if (fail_setup == 4) return EAI_NONAME; addrinfo* a = (addrinfo*)calloc(1, sizeof(addrinfo)); a->ai_family = h->ai_family; size_t n = h->ai_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); a->ai_addr = (sockaddr*)calloc(1, n); a->ai_addr->sa_family = h->ai_family; a->ai_addrlen = n; *r = a; return 0; }
__attribute__((used)) void __wrap_freeaddrinfo(addrinfo* a) { while (a) { addrinfo* n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
}

// ---- endpoints
struct SmallLimits { static constexpr std::size_t method_size = 8, resource_size = 64, protocol_size = 16, file_chunk_size = 8, fsize_size = 8; };
static std::atomic<int> g_shutdowns;
template <typename L> struct Ep : abc::endpoint<abc::tcp_server_socket<TLog>, abc::tcp_client_socket<TLog>, L, TLog> {
	using base = abc::endpoint<abc::tcp_server_socket<TLog>, abc::tcp_client_socket<TLog>, L, TLog>;
	Ep(abc::endpoint_config* c, TLog* l) : base(c, l) {}
	abc::tcp_server_socket<TLog> create_server_socket() override { return abc::tcp_server_socket<TLog>(abc::socket::family::ipv4, this->_log); }
	void process_rest_request(abc::http_server_stream<TLog>& http, const char* method, const char* resource) override {
		std::string r = resource;
		if (r == "/throw/std") throw std::runtime_error("x");
		if (r == "/throw/int") throw 5;
		if (r == "/throw/alloc") throw std::bad_alloc();
		if (r == "/throw/late") { http.put_protocol("HTTP/1.1"); http.put_status_code("200"); throw std::logic_error("late"); }
		if (r == "/headers") {
			char n[32], v[32], b[16]; size_t k = 0;
			for (http.get_header_name(n, sizeof n); n[0]; http.get_header_name(n, sizeof n)) { http.get_header_value(v, sizeof v); if (++k > 200) break; if (static_cast<abc::http_request_istream<TLog>&>(http).fail()) break; }
			http.get_body(b, sizeof b);
		}
		if (abc::ascii::are_equal_i(method, "POST") && abc::ascii::are_equal_i(resource, "/shutdown")) { g_shutdowns++; this->send_simple_response(http, "200", "OK", "text/plain", "down", 1); return; }
		base::process_rest_request(http, method, resource);
	}
};
// configurations: prefix, root directory (relative to the scratch tree)
struct Cfg { const char* prefix; const char* root; bool small; bool log; };
static const Cfg CF[] = { { "/resources/", "root", true, false }, { "/resources/", "root", false, true }, { "/", "root", true, false }, { "", "root", true, true }, { "/resources/", "root/dot.html", true, false }, { "/", nullptr, true, false },
	{ "/", "long-root-directory-name-that-does-not-fit-the-resource-buffer-of-the-small-limits/d", true, true } };
static const int NCFG = 7;
static std::string W; static int lfd[16]; 
#ifdef X03
#define THE_LOG(use) xlog()
#else
static TLog tlog;
#define THE_LOG(use) ((use) ? &tlog : nullptr)
#endif
static std::string OUTSIDE = "OUTSIDE-SECRET-";
static std::string content(const std::string& rel, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + n + (i >> 8) + (unsigned char)rel[i % rel.size()]); return s; }
static void put(const std::string& path, const std::string& c) { std::filesystem::create_directories(std::filesystem::path(path).parent_path()); std::ofstream o(path, std::ios::binary); o << c; }
static std::string cfg_root(int c) { return W + "/" + (CF[c].root ? CF[c].root : "none"); }
static void tree() {
	W = G.scratch + "/w" + std::to_string(getpid()); std::filesystem::create_directories(W); chmod(G.scratch.c_str(), 0711); chmod(W.c_str(), 0755);
	for (int c = 0; c < NCFG; c++) {
		std::string r = cfg_root(c); put(r + "/resources/p.txt", "PROBE"); put(r + "/p.txt", "PROBE");
		if (c != 0 && c != 4 && c != 6) continue;
		std::filesystem::create_directories(r + "/resources/dir"); std::filesystem::create_directories(r + "/resources/empty"); put(r + "/resources/dir/f.txt", "INSIDE-dir-f");
		put(r + "/f.txt", "INSIDE-f"); put(r + "/resources/f.txt", "INSIDE-resources-f"); put(r + "/dir/f.txt", "INSIDE-top-dir-f");
		mkfifo((r + "/resources/fifo").c_str(), 0666); put(r + "/resources/noperm.txt", "NOPERM"); chmod((r + "/resources/noperm.txt").c_str(), 0);
		if (symlink("loop", (r + "/resources/loop").c_str())) {} if (symlink("/dev/zero", (r + "/resources/zero").c_str())) {} put(r + "/resources/nofd.txt", "NOFD");
		put(r + "/favicon.ico", "ICON");
		std::string up = std::filesystem::path(r).parent_path(); if (c != 0) put(up + "/f.txt", c == 4 ? "INSIDE-f" : OUTSIDE + "sib"); 
	}
	// the world outside of "root"
	put(W + "/f.txt", OUTSIDE + "up"); put(W + "/rootf.txt", OUTSIDE + "glued"); put(W + "/root2/f.txt", OUTSIDE + "sibling"); put(W + "/root2/resources/f.txt", OUTSIDE + "sibling"); put(W + "/secret/f.txt", OUTSIDE + "secret"); put(G.scratch + "/f.txt", OUTSIDE + "top");
}
template <typename L> static void start(int c) {
	std::string* r = CF[c].root ? new std::string(W + "/" + CF[c].root) : nullptr;
	auto cfg = new abc::endpoint_config("80", 5, r ? r->c_str() : nullptr, CF[c].prefix);
	auto e = new Ep<L>(cfg, THE_LOG(CF[c].log));
	{ std::lock_guard<std::mutex> l(nmx); waiting_fd = -1; }
	static std::deque<std::future<void>> keep; keep.push_back(e->start_async());
	std::unique_lock<std::mutex> l(nmx); if (!ncv.wait_for(l, std::chrono::seconds(20), [] { return waiting_fd >= 0; })) violation("the endpoint does not accept connections");
	lfd[c] = waiting_fd;
}
static bool ready = false;
static void setup() { if (ready) return; ready = true; tree(); for (int c = 0; c < NCFG; c++) { if (CF[c].small) start<SmallLimits>(c); else start<abc::endpoint_limits>(c); } }

// ---- one connection
struct Case { int cfg = 0; std::string req; int end = 0; long fail_at = -1; int grow_at = -1, grow_n = 0; std::string file; long size = -1; int opt = 0; std::string exp; };
// opt: 1 no descriptors left, 2 unprivileged, 16.. accept errors (count in bits 4..7)
static std::string str(const Case& k) { return fmt("%d|%s|%d|%ld|%d|%d|%s|%ld|%d|%s", k.cfg, hex(k.req).c_str(), k.end, k.fail_at, k.grow_at, k.grow_n, k.file.c_str(), k.size, k.opt, k.exp.c_str()); }
static Case parse(const std::string& s) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find('|', p); v.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } v.resize(10); Case k; k.cfg = atoi(v[0].c_str()); k.req = unhex(v[1]); k.end = atoi(v[2].c_str()); k.fail_at = atol(v[3].c_str()); k.grow_at = atoi(v[4].c_str()); k.grow_n = atoi(v[5].c_str()); k.file = v[6]; k.size = atol(v[7].c_str()); k.opt = atoi(v[8].c_str()); k.exp = v[9]; return k; }
static std::string send_conn(int cfg, Conn& c) {
	std::unique_lock<std::mutex> l(nmx); queues[lfd[cfg]].push_back(&c); ncv.notify_all();
	if (!ncv.wait_for(l, std::chrono::seconds(20), [&] { return c.closed; })) { l.unlock(); violation(fmt("the connection was not closed within 20 s; sent so far: %s", show(c.out).substr(0, 300).c_str())); }
	if (!nbad.empty()) { std::string b = nbad; l.unlock(); violation(b); }
	return c.out;
}
static void probe(int cfg) { if (cfg == 5) cfg = 0; Conn c; c.in = std::string("GET ") + "/resources/p.txt HTTP/1.1\r\n\r\n"; std::string o = send_conn(cfg, c); Resp r = resp(o); if (!r.ok || r.status != "200" || r.body != "PROBE") violation(fmt("a later connection is not served normally: %s", show(o).substr(0, 300).c_str())); }
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find(d, p); v.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } return v; }
static void run(const Case& k) {
	setup(); set_case(str(k)); count(STATES); count(TRANS); count(TRACES); count(EVAL);
	if (k.exp == "setup") { // the endpoint cannot start
		{ std::lock_guard<std::mutex> l(nmx); fail_setup = k.opt; }
		{ auto cfg = new abc::endpoint_config("80", 5, "/nowhere", "/"); auto e = new Ep<SmallLimits>(cfg, THE_LOG(k.cfg)); auto f = e->start_async();
		  if (f.wait_for(std::chrono::seconds(20)) != std::future_status::ready) violation("an endpoint that cannot start does not report it");
		  bool threw = false; try { f.get(); } catch (...) { threw = true; } if (!threw) violation("an endpoint that cannot start reports success"); count(FAULTS); }
		{ std::lock_guard<std::mutex> l(nmx); fail_setup = 0; } probe(0); return;
	}
	std::string root = cfg_root(k.cfg), want; 
	if (k.size >= 0) { want = content(k.file, k.size); std::string p = root + k.file; struct stat st; if (stat(p.c_str(), &st) || st.st_size != k.size || k.grow_n) put(p, want); }
	Conn c; c.in = k.req; c.end = k.end; c.fail_at = k.fail_at; c.grow_at = k.grow_at; c.grow_n = k.grow_n; c.grow_file = root + k.file;
	rlimit rl; uid_t u = geteuid();
	if (k.opt & 1) { getrlimit(RLIMIT_NOFILE, &rl); rlimit z = rl; z.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &z); }
	if ((k.opt & 2) && u == 0) { if (seteuid(65534)) {} }
	if (k.opt >> 4) { static const int ER[] = { EMFILE, ECONNABORTED, EINTR, ENOBUFS }; std::lock_guard<std::mutex> l(nmx); for (int i = 0; i < ((k.opt >> 4) & 15); i++) { accept_errors.push_back(ER[(k.opt >> 8) & 3]); count(FAULTS); } }
	int sd = g_shutdowns;
	std::string o = send_conn(k.cfg, c);
	if (k.opt & 1) setrlimit(RLIMIT_NOFILE, &rl);
	if ((k.opt & 2) && u == 0) { if (seteuid(u)) {} }
	outcome(hash_str(o)); sample(show(k.req).substr(0, 80) + " -> " + show(o).substr(0, 40));
	if (k.fail_at >= 0) { count(FAULTS); probe(k.cfg); return; }
	if (k.grow_n < 0) { // the file is cut while it is sent: nothing but its bytes, in order, and an end
		size_t h = o.find("\r\n\r\n"); if (o.compare(0, 13, "HTTP/1.1 200 ") || h == std::string::npos) violation(fmt("expected the file, got %s", show(o).substr(0, 300).c_str()));
		std::string b = o.substr(h + 4); if (b.size() > want.size() || b != want.substr(0, b.size())) violation(fmt("the body (%zu bytes) is not a beginning of the file's content (%zu bytes)", b.size(), want.size())); if ((long)b.size() < (long)want.size() + k.grow_n) violation(fmt("only %zu bytes of a file that has at least %ld bytes are sent", b.size(), (long)want.size() + k.grow_n)); probe(k.cfg); return; }
	Resp r = resp(o);
	auto e = split(k.exp, ':');
	if (e[0] == "200") {
		if (!r.ok || r.status != "200") violation(fmt("expected the file, got %s: %s", r.why.c_str(), show(o).substr(0, 300).c_str()));
		std::string w = k.size >= 0 ? want : e.size() > 2 ? e[2] : "";
		if (k.grow_n) { if (r.body.size() < w.size() || r.body != (w + std::string(k.grow_n, 'G')).substr(0, r.body.size())) violation("the body is not the file's content"); }
		else if (r.body != w) violation(fmt("the body (%zu bytes) is not the file's content (%zu bytes)", r.body.size(), w.size()));
		std::string t = e[1]; if (t != (r.has_type ? r.type : "-")) violation(fmt("the content type is '%s', expected '%s'", r.has_type ? r.type.c_str() : "-", t.c_str()));
	} else if (e[0] == "code") {
		if (!r.ok || r.status != e[1]) violation(fmt("expected %s, got %s: %s", e[1].c_str(), r.why.c_str(), show(o).substr(0, 300).c_str()));
	} else if (e[0] == "not200") {
		if (o.size() && !r.ok) violation("malformed response: " + r.why); if (r.ok && r.status == "200") violation(fmt("a request that names no file was served: %s", show(o).substr(0, 300).c_str()));
	} else if (e[0] == "inside") { // e[1] "out": the path leads outside; otherwise the content marker is a file of the root, or 404
		if (!r.ok) violation("malformed response: " + r.why);
		if (o.find(OUTSIDE) != std::string::npos) violation("a file outside of the root directory was delivered");
		if (e[1] == "out" && r.status != "404") violation(fmt("a path outside of the root directory was answered with %s", r.status.c_str()));
		if (r.status == "200" && r.body.compare(0, 6, "INSIDE") && r.body != "PROBE" && r.body != "ICON") violation("something else than a file of the root directory was delivered");
		if (r.status != "200" && r.status != "404" && r.status != "400") violation("unexpected status " + r.status);
	} else { // any
		if (o.size() && !r.ok) violation(fmt("malformed response (%s): %s", r.why.c_str(), show(o).substr(0, 300).c_str()));
		if (e[0] == "anypartial") {}
	}
	if (e[0] == "cut" && g_shutdowns != sd) violation("a request line that was cut off shut the endpoint down");
	if (e[0] == "any" || e[0] == "cut" || (k.opt >> 4)) probe(k.cfg);
}
static void run_any(const Case& k) { // handlers that throw after part of the response
	setup(); set_case(str(k)); count(STATES); count(TRANS); count(TRACES); count(EVAL); Conn c; c.in = k.req; send_conn(k.cfg, c); probe(k.cfg);
}
static void exec(const Case& k) { if (k.exp == "throw") run_any(k); else run(k); }
static std::string get(const std::string& r, const char* m = "GET") { return std::string(m) + " " + r + " HTTP/1.1\r\nHost: h\r\n\r\n"; }
static std::vector<Case> L;
static void add(Case k) { L.push_back(k); }
static Case mk(int cfg, const std::string& req, const std::string& exp, const std::string& file = "", long size = -1) { Case k; k.cfg = cfg; k.req = req; k.exp = exp; k.file = file; k.size = size; return k; }
struct Ty { const char* e; const char* t; };
static const Ty TY[] = { { "html", "text/html; charset=utf-8" }, { "css", "text/css; charset=utf-8" }, { "js", "text/javascript; charset=utf-8" }, { "txt", "text/plain; charset=utf-8" }, { "xml", "text/xml; charset=utf-8" }, { "png", "image/png" }, { "jpeg", "image/jpeg" }, { "jpg", "image/jpeg" }, { "gif", "image/gif" }, { "bmp", "image/bmp" }, { "svg", "image/svg+xml" } };
static std::string type_of(const std::string& f) { std::string b = f.substr(f.rfind('/') + 1); size_t d = b.rfind('.'); if (d == std::string::npos) return "-"; std::string x = b.substr(d + 1); for (auto& c : x) c = tolower(c); for (auto& t : TY) if (x == t.e) return t.t; return "-"; }
static void file200(int cfg, const std::string& f, long n, const char* m = "GET") { add(mk(cfg, get(f, m), "200:" + type_of(f), f, n)); }
static void e01() {
	bool T = G.thorough;
	for (int c : { 0, 2, 3, 4, 6 }) for (int n = 0; n <= (T ? 300 : 70); n++) file200(c, fmt("/resources/s%d.txt", n), n);
	if (T) for (int n = 0; n <= 9000; n++) file200(1, fmt("/resources/s%d.bin", n), n);
	else { for (int n = 0; n <= 40; n++) file200(1, fmt("/resources/s%d.bin", n), n); for (int m : { 1024, 2048, 3072, 4096, 8192 }) for (int d = -3; d <= 3; d++) file200(1, fmt("/resources/s%d.bin", m + d), m + d); }
	file200(0, "/resources/big.txt", 1234567 % 99991);
	// extensions
	std::vector<std::string> ex; for (auto& t : TY) { std::string b = t.e; for (int m = 0; m < (1 << b.size()); m++) { std::string x = b; for (size_t i = 0; i < b.size(); i++) if (m >> i & 1) x[i] = toupper(x[i]); ex.push_back(x); } ex.push_back(b + "x"); ex.push_back("x" + b); ex.push_back(b.substr(1)); ex.push_back(b.substr(0, b.size() - 1)); }
	for (auto x : { "", "htm", "json", "ico", "x", "h", "zip", "woff2", "html5", "md" }) ex.push_back(x);
	for (auto& x : ex) for (int c : { 0, 1, 4 }) { file200(c, "/resources/a." + x, 11); file200(c, "/resources/a.txt." + x, 11); file200(c, "/resources/a." + x + ".zz", 11); if (x.size()) { file200(c, "/resources/." + x, 11); file200(c, "/resources/d." + x + "/b", 11); file200(c, "/resources/n" + x, 11); } }
	for (auto n : { "..a", "a..", "...", "a..b", "..a.txt", ".x", "-", "a%20b", "a+b", "~", "a;b", "%2e%2e", "a,b", "(a)", "[a]", "{a}", "@a", "a&b", "a=b", "'a'", "$a", "!a", "*", "a:b", "\\a" }) for (int c : { 0, 1 }) { file200(c, std::string("/resources/") + n, 5); file200(c, std::string("/resources/sub/") + n, 5); file200(c, std::string("/resources/dd/") + n + "/g.css", 5); }
	// what is not a readable regular file
	for (auto n : { "missing", "missing.txt", "dir", "dir/", "empty", "empty/", "f.txt/", "f.txt/x", "fifo", "fifo/", "loop", "zero", "dir/missing", "", "no/such/dir/x" }) for (int c : { 0, 4, 6 }) add(mk(c, get(std::string("/resources/") + n), "code:404"));
	add(mk(1, get("/resources/" + std::string(300, 'n')), "code:404"));
	for (int c : { 0, 4, 6 }) { Case k = mk(c, get("/resources/noperm.txt"), "code:404"); k.opt = 2; add(k); k = mk(c, get("/resources/nofd.txt"), "code:404"); k.opt = 1; add(k); }
	for (auto n : { "/x", "/resources", "/resource", "/" }) add(mk(2, get(n), n == std::string("/x") || n == std::string("/resource") ? "code:404" : "code:404"));
	for (auto p : { "/f.txt", "/resources/f.txt", "/etc/passwd", "/", "" }) add(mk(5, get(p[0] ? p : "/x"), "code:404"));
	// methods
	for (auto m : { "POST", "PUT", "HEAD", "DELETE", "GE", "GETX", "post", "G", "XGET" }) for (int c : { 0, 1, 2, 4 }) for (auto f : { "/resources/f.txt", "/resources/missing", "/resources/dir" }) add(mk(c, get(f, m), "code:405"));
	for (auto m : { "get", "Get", "gEt", "GEt" }) file200(0, "/resources/m.txt", 9, m);
	// prefix in any case maps to the same directory names as requested; favicon
	for (auto n : { "/favicon.ico" }) for (int c : { 0, 4 }) { add(mk(c, get(n), "200:-:ICON")); }
	add(mk(0, get("/favicon.ico", "POST"), "code:200")); add(mk(0, get("/other", "GET"), "code:200")); add(mk(0, get("/favicon.icox", "GET"), "code:200")); add(mk(0, get("/resource/f.txt", "GET"), "code:200"));
	// getting shorter while it is sent
	for (int n : { 1, 7, 8, 9, 16, 17, 40 }) for (int g : { 1, 3, 8, 20, 40 }) if (g <= n) for (int at = 0; at <= 150 + n; at++) { Case k = mk(0, get("/resources/grow.txt"), "200:" + type_of("/grow.txt"), "/resources/grow.txt", n); k.grow_at = at; k.grow_n = -g; add(k); }
	for (int cfg : { 0, 1 }) for (int n : { 8191, 8192, 9000, 20000 }) for (int g : { 1, 500, 8000, 19999 }) if (g <= n) for (int at : { 0, 50, 120, 150, 500, 4000, 8100, 8300, 12000, 19000 }) { Case k = mk(cfg, get("/resources/grow.txt"), "200:" + type_of("/grow.txt"), "/resources/grow.txt", n); k.grow_at = at; k.grow_n = -g; add(k); }
	// growing while it is sent
	for (int n : { 0, 1, 7, 8, 9, 16, 17 }) for (int g : { 1, 7, 8, 20 }) for (int at = 0; at <= 150 + n; at++) { Case k = mk(0, get("/resources/grow.txt"), "200:" + type_of("/grow.txt"), "/resources/grow.txt", n); k.grow_at = at; k.grow_n = g; add(k); }
	// names around the limit
	for (int n = 1; n <= 80; n++) { std::string f = "/resources/"; while ((int)f.size() < n) f += (char)('a' + f.size() % 26); if ((int)f.size() != n || n < 12) continue; if (n <= 63) file200(0, f, 13); else if (n > 64) add(mk(0, get(f), "not200", f, 13)); }
	for (int n = 50; n <= 64; n++) for (int extra = 1; extra <= 20; extra++) { std::string f = "/resources/"; while ((int)f.size() < n) f += 'q'; if (n + extra > 64) add(mk(0, get(f + std::string(extra, 'q')), "not200", f, 13)); }
}
static void e04() {
	static const std::vector<std::string> A = { "", ".", "..", "dir", "resources", "f.txt", "root", "root2", "%2e%2e", "..%2f", "..?", "...", "secret", "..\\", "rootf.txt" };
	int D = G.thorough ? 5 : 4;
	auto path = [&](const std::vector<int>& v) { std::string s; for (int i : v) s += "/" + A[i]; return s; };
	auto outside = [&](const std::string& p) { // lexically; 0 inside, 1 ends outside, 2 went outside and came back
		int depth = 0, worst = 0; std::vector<std::string> st; bool out = false; for (auto& s : split(p.substr(1), '/')) { if (s == "" || s == ".") continue; if (s == "..") { if (st.empty()) { depth++; out = true; } else { st.pop_back(); } } else st.push_back(s); } (void)worst; return out ? 1 : 0; };
	std::vector<int> v;
	std::function<void(int)> rec = [&](int d) {
		if (d > 0) {
			std::string p = path(v), q = "/resources" + p;
			// files served through "/resources/", and through "/" and "" for every path; a path that climbs out and comes back is judged by what is delivered
			auto judge = [&](const std::string& x) { return outside(x) ? (x.find("/root/") != std::string::npos || (x.size() > 5 && x.compare(x.size() - 5, 5, "/root") == 0) ? "inside:back" : "inside:out") : "inside:in"; };
			add(mk(0, get(q), judge(q))); if (d < D) { add(mk(2, get(p), judge(p))); add(mk(3, get(p), judge(p))); if (p.size() > 1 && p[1] != '/') add(mk(3, get(p.substr(1)), "inside:out")); add(mk(6, get(q), judge(q))); if (d < D - 1) { add(mk(4, get(q), outside(q) ? "inside:back" : "inside:in")); add(mk(5, get(p), "inside:out")); } }
		}
		if (d == D) return;
		for (int i = 0; i < (int)A.size(); i++) { if (d + 1 == D && D >= 4 && i > 12) continue; v.push_back(i); rec(d + 1); v.pop_back(); }
	};
	rec(0);
	// deep climbs, and names cut at the limit
	for (int up = 1; up <= 12; up++) for (auto t : { "f.txt", "etc/passwd", "", "secret/f.txt", "root2/f.txt" }) { std::string q = "/resources"; for (int i = 0; i < up; i++) q += "/.."; q += std::string("/") + t; add(mk(1, get(q), up > 1 ? "inside:out" : "inside:in")); add(mk(0, get(q), q.size() > 63 ? "inside:in" : up > 1 ? "inside:out" : "inside:in")); }
	for (int pad = 0; pad <= 60; pad++) { std::string q = "/resources/" + std::string(pad, '/') + "../../f.txt"; add(mk(0, get(q), q.size() > 63 ? "inside:in" : "inside:out")); q = "/resources/"; for (int i = 0; i < pad; i++) q += "./"; q += "../../f.txt"; add(mk(0, get(q), q.size() > 63 ? "inside:in" : "inside:out")); }
}
static void e05() {
	bool T = G.thorough;
	// what handlers throw
	for (int c = 0; c < NCFG; c++) for (auto r : { "/throw/std", "/throw/int", "/throw/alloc", "/throw/late" }) if (c < 2 || c == 4) add(mk(c, get(r), "throw"));
	for (int s = 1; s <= 4; s++) for (int lg = 0; lg < 2; lg++) { Case k; k.cfg = lg; k.exp = "setup"; k.opt = s; add(k); }
	// a connection that cannot be accepted
	for (int n = 1; n <= 4; n++) for (int e = 0; e < 4; e++) for (int c : { 0, 1 }) { Case k = mk(c, get("/resources/f.txt"), "any"); k.opt = n << 4 | e << 8; add(k); }
	std::vector<std::string> R = { get("/resources/f.txt"), get("/resources/missing"), get("/other"), get("/resources/f.txt", "POST"), "POST /headers HTTP/1.1\r\nA: b\r\nContent-Length:  4 \r\n c\r\n\r\nbody", "POST /shutdownX HTTP/1.1\r\n\r\n", "POST /shutdown HTTP/1.1\r\n\r\n", get("/resources/dir"), get("/favicon.ico"), "GET /resources/" + std::string(70, 'z') + " HTTP/1.1\r\n\r\n", "POST /headers HTTP/1.1\r\n" + std::string(40, 'N') + ": " + std::string(40, 'v') + "\r\n\r\n", "METHODTOOLONG / HTTP/1.1\r\n\r\n", "GET / HTTP/123456789012345678.1\r\n\r\n" };
	// the client goes away after every byte it sends ...
	for (auto& r : R) for (size_t i = 0; i <= r.size(); i++) for (int end = 0; end < 2; end++) for (int c : { 0, 1, 3, 4, 5 }) {
		bool line = r.find(" HTTP/1.1") != std::string::npos && i >= r.find(" HTTP/1.1") + 9;
		Case k = mk(c, r.substr(0, i), line ? "any" : "cut"); k.end = end; if (r.compare(0, 14, "POST /shutdown") == 0 && c == 3) continue; add(k); }
	// ... and after every byte it receives
	for (auto& r : R) for (int k0 = 0; k0 <= 260; k0++) for (int c : { 0, 1 }) { Case k = mk(c, r, "any"); k.fail_at = k0; add(k); }
	// garbage
	static const std::vector<std::string> B = { "G", "POST", " ", "\r\n", "\n", "/", "HTTP/1.1", ":", "\x00"s, "\xff"s, "/shutdown", "/headers", "?" };
	int D = T ? 5 : xdiff ? 2 : 4; std::vector<int> v;
	std::function<void(int)> rec = [&](int d) {
		{ std::string s; for (int i : v) s += B[i]; bool full = s.find("HTTP/1.1") != std::string::npos; Case k = mk(d % 2 ? 0 : 4, s, full ? "any" : "cut"); k.end = d & 1; add(k); }
		if (d == D) return;
		for (int i = 0; i < (int)B.size(); i++) { v.push_back(i); rec(d + 1); v.pop_back(); }
	};
	rec(0);
	for (int n : { 1, 7, 8, 9, 63, 64, 65, 66, 200, 2047, 2048, 2049, 2100, 5000 }) for (auto p : { "", "GET ", "GET /", "GET / HTTP/1.", "POST /headers HTTP/1.1\r\n", "POST /headers HTTP/1.1\r\nA:", "POST /headers HTTP/1.1\r\nA: b\r\n " }) for (char ch : { 'a', ' ', '/', '1', '\r', '\n', '\0' }) for (int c : { 0, 1 }) add(mk(c, p + std::string(n, ch), "any"));
}
static void batch(uint64_t i) { uint64_t n = 64; for (uint64_t k = i * n; k < std::min<uint64_t>(L.size(), (i + 1) * n); k++) exec(L[k]); }
int main(int argc, char** argv) {
	signal(SIGPIPE, SIG_DFL);
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22);
	G.run_case = [](const std::string& s) { exec(parse(s)); };
	maybe_replay();
	if (G.prop == "E01") { e01(); g_rule = "every enumerated request is sent to the real endpoint over the stand-in network; the response is parsed and compared with the file on disk"; cover("requests", "every file size to a bound for two chunk sizes, every case variant of every extension in six name shapes, every kind of target that is not a readable file, methods, names around the limit, growth and truncation at every byte sent"); }
	else if (G.prop == "E04") { e04(); g_rule = "every path over the segment alphabet is requested; content outside of the root directory is marked"; cover("paths", G.thorough ? "every path of up to 6 segments over 15 (resources/ + 5), several prefixes and roots" : "every path of up to 5 segments over 15 (resources/ + 4), several prefixes and roots"); }
	else { e05(); g_rule = "after every broken exchange a further request must be served"; cover("exchanges", "disconnect after every byte of 13 requests and of their responses, every text of up to 4 (thorough 5) of 13 pieces, failing accept and setup, throwing handlers"); }
	cover("requests_total", (uint64_t)L.size());
	run_tasks((L.size() + 63) / 64, batch, G.thorough ? 800 : 0);
	done();
}
