// E02, E03: the HTTP endpoint under every schedule of its threads up to a preemption bound (mcsched.h).
#include "mcsched.h"
#include "resp.h"
#include "endpoint.h"
#include <netdb.h>
#include <netinet/in.h>
#include <deque>
#include <fstream>
using namespace mc;
using Log = abc::log_ostream<abc::diag_line_ostream<>, abc::log_filter>;

struct Conn { char kind = 0; int id = 0; std::string in; size_t pos = 0; std::string out; bool accepted = false, closed = false, held = false, shutting = false, dropped_early = false; };
struct Fd { int kind = 0; Conn* c = nullptr; bool open = false; };
struct World { std::deque<Fd> fds; std::deque<Conn*> queue; std::vector<Conn*> all; int accept_error_at = 0, accepts = 0; bool shutdown_begun = false; };
static World* W;
static const int BASE = 5000;
static Fd* get(int fd, const char* w) { if (fd < BASE || fd >= BASE + (int)W->fds.size() || !W->fds[fd - BASE].open) sched::fail(fmt("%s on a descriptor that is not open (%d)", w, fd)); return &W->fds[fd - BASE]; }
static int mkfd(int kind, Conn* c) { W->fds.push_back(Fd{ kind, c, true }); return BASE + W->fds.size() - 1; }
extern "C" {
int __real_close(int);
__attribute__((used)) int __wrap_socket(int, int, int) { sched::quiet q; return mkfd(1, nullptr); }
__attribute__((used)) int __wrap_close(int fd) {
	if (fd < BASE) return __real_close(fd);
	sched::point("close"); sched::quiet q; Fd* f = get(fd, "close"); f->open = false;
	if (f->c) { f->c->closed = true; if (f->c->out.empty() && !W->shutdown_begun) f->c->dropped_early = true; }
	return 0;
}
__attribute__((used)) int __wrap_shutdown(int fd, int) { sched::quiet q; get(fd, "shutdown"); return 0; }
__attribute__((used)) int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) { sched::quiet q; get(fd, "setsockopt"); return 0; }
__attribute__((used)) int __wrap_bind(int fd, const sockaddr*, socklen_t) { sched::quiet q; get(fd, "bind"); return 0; }
__attribute__((used)) int __wrap_listen(int fd, int) { sched::quiet q; get(fd, "listen")->kind = 2; return 0; }
static int accept_one(int fd) {
	sched::point("accept"); sched::quiet q; get(fd, "accept");
	sched::block_until([] { return !W->queue.empty(); }, "accept");
	if (++W->accepts == W->accept_error_at) { count(FAULTS); errno = ECONNABORTED; return -1; }
	Conn* c = W->queue.front(); W->queue.pop_front(); c->accepted = true; return mkfd(3, c);
}
__attribute__((used)) int __wrap_accept(int fd, sockaddr*, socklen_t*) { return accept_one(fd); }
__attribute__((used)) int __wrap_accept4(int fd, sockaddr*, socklen_t*, int) { return accept_one(fd); }
__attribute__((used)) ssize_t __wrap_recv(int fd, void* b, size_t n, int) {
	sched::quiet q; Conn* c = get(fd, "recv")->c; if (!c) { errno = EBADF; return -1; }
	if (c->held) sched::block_until([c] { return !c->held; }, "recv");
	size_t k = std::min(n, c->in.size() - c->pos); memcpy(b, c->in.data() + c->pos, k); c->pos += k;
	if (c->kind == 'S' && c->pos > 14) W->shutdown_begun = true;
	return k;
}
__attribute__((used)) ssize_t __wrap_send(int fd, const void* b, size_t n, int) {
	if (n && W->all.size() && sched::running()) { bool first; { sched::quiet q; Conn* c = get(fd, "send")->c; first = c && c->out.empty(); } if (first) sched::point("send"); }
	sched::quiet q; Conn* c = get(fd, "send")->c; if (!c) { errno = EBADF; return -1; } c->out.append((const char*)b, n); return n;
}
__attribute__((used)) int __wrap_getaddrinfo(const char*, const char*, const addrinfo* h, addrinfo** r) { sched::quiet q; addrinfo* a = (addrinfo*)calloc(1, sizeof(addrinfo)); a->ai_family = h->ai_family; size_t n = sizeof(sockaddr_in6); a->ai_addr = (sockaddr*)calloc(1, n); a->ai_addr->sa_family = h->ai_family; a->ai_addrlen = h->ai_family == AF_INET6 ? n : sizeof(sockaddr_in); *r = a; return 0; }
__attribute__((used)) void __wrap_freeaddrinfo(addrinfo* a) { sched::quiet q; free(a->ai_addr); free(a); }
}
struct SmallLimits { static constexpr std::size_t method_size = 8, resource_size = 64, protocol_size = 16, file_chunk_size = 8, fsize_size = 8; };
struct Ep : abc::endpoint<abc::tcp_server_socket<Log>, abc::tcp_client_socket<Log>, SmallLimits, Log> {
	using base = abc::endpoint<abc::tcp_server_socket<Log>, abc::tcp_client_socket<Log>, SmallLimits, Log>;
	using base::base;
	abc::tcp_server_socket<Log> create_server_socket() override { return abc::tcp_server_socket<Log>(abc::socket::family::ipv4, this->_log); }
	void process_rest_request(abc::http_server_stream<Log>& http, const char* method, const char* resource) override {
		if (resource[1] == 't') throw std::runtime_error("handler");
		if (resource[1] == 'u') throw 5;
		if (resource[1] == 'r') { sched::point("handler"); this->send_simple_response(http, "200", "OK", "text/plain", resource, 1); return; }
		base::process_rest_request(http, method, resource);
	}
	void stop() { this->set_shutdown_requested(); }
};
// A destination whose every byte is observed by the race detector.
struct Sink : std::streambuf {
	char buf[1 << 18]; size_t n = 0;
	int_type overflow(int_type c) override { if (c != EOF && n < sizeof buf) buf[n++] = (char)c; return c; }
	std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k; i++) overflow((unsigned char)s[i]); return k; }
};
static std::string root;
// A scenario: connections in order of arrival. R request, F file, G another file, S shutdown, T/U throwing handler, H held back until the others are idle
// then owner actions: o the owner requests the shutdown, p another thread does; flags: L with a log, c<n> the n-th thread cannot be created, a<n> the n-th accept fails
struct Spec { std::string conns; bool owner = false, other = false, log = false, sync = false; int create = 0, accept = 0; };
static Spec parse_spec(const std::string& s) { Spec r; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (strchr("RFGSTUH", c)) r.conns += c; else if (c == 'o') r.owner = true; else if (c == 'p') r.other = true; else if (c == 'L') r.log = true; else if (c == 'y') r.sync = true; else if (c == 'c') r.create = s[++i] - '0'; else if (c == 'a') r.accept = s[++i] - '0'; } return r; }
static std::string file_text(char k) { return k == 'F' ? "the first file: 23 bytes" : std::string(17, 'G'); }
static bool returned;
static void* late(void*) { // connections that arrive when everything else is idle
	for (int i = 0; i < 6 && !returned; i++) { sched::wait_quiescent(); sched::quiet q; if (returned) break; Conn* c = new Conn(); c->kind = 'R'; c->id = W->all.size() + 1; c->in = fmt("GET /r%d HTTP/1.1\r\n\r\n", c->id); W->queue.push_back(c); W->all.push_back(c); }
	return nullptr;
}
static void* stopper(void* e) { ((Ep*)e)->stop(); return nullptr; }
static void check_all(const Spec& sp, bool shut, const char* when) {
	for (Conn* c : W->all) {
		std::string who = fmt("connection %d (%c)", c->id, c->kind);
		if (c->accepted && !c->closed && !c->held) sched::fail(who + " is never closed (" + when + ")");
		if (!c->accepted) { if (!shut) sched::fail(who + " is never accepted"); if (!c->out.empty()) sched::fail(who + " got bytes without being accepted"); continue; }
		if (c->out.empty()) {
			if (c->held || c->kind == 'T' || c->kind == 'U' || sp.create) continue;
			if (!shut || c->dropped_early) sched::fail(who + " got no response");
			continue;
		}
		if (c->kind == 'T' || c->kind == 'U') continue;
		Resp r = resp(c->out); if (!r.ok || r.status != "200") sched::fail(who + " got an incomplete response: " + r.why + " " + show(c->out).substr(0, 200));
		std::string want = c->kind == 'F' || c->kind == 'G' ? file_text(c->kind) : c->kind == 'S' ? "" : fmt("/r%d", c->id);
		if (c->kind != 'S' && r.body != want) sched::fail(who + " got the response of another request: " + show(r.body).substr(0, 100));
	}
}
static struct Left { Ep* e = nullptr; Log* log = nullptr; Sink* sink = nullptr; World* w = nullptr; } left_over; // of the previous execution, whose threads were abandoned
static void cleanup() { delete left_over.e; delete left_over.log; delete left_over.sink; if (left_over.w) { for (Conn* c : left_over.w->all) delete c; delete left_over.w; } left_over = Left(); }
static void body(const std::string& name) {
	Spec sp = parse_spec(name); World* w; Ep* e; Sink* sink = nullptr;
	{ sched::quiet q; cleanup(); w = W = new World(); w->accept_error_at = sp.accept; int id = 0;
	for (char k : sp.conns) { Conn* c = new Conn(); c->kind = k; c->id = ++id; c->held = k == 'H';
		c->in = k == 'S' ? "POST /shutdown HTTP/1.1\r\n\r\n" : k == 'F' ? "GET /resources/f.txt HTTP/1.1\r\n\r\n" : k == 'G' ? "GET /resources/g.txt HTTP/1.1\r\n\r\n" : fmt("GET /%c%d HTTP/1.1\r\n\r\n", k == 'T' ? 't' : k == 'U' ? 'u' : 'r', id);
		w->queue.push_back(c); w->all.push_back(c); } }
	Log* log = nullptr; if (sp.log) { sink = new Sink(); static abc::log_filter filter(abc::severity::abc::important); log = new Log(sink, &filter); }
	static abc::endpoint_config* cfg; if (!cfg) cfg = new abc::endpoint_config("80", 5, root.c_str(), "/resources/");
	e = new Ep(cfg, log);
	bool shut = sp.owner || sp.other || sp.conns.find('S') != std::string::npos;
	if (sp.sync) { // the owner runs the endpoint on its own thread: start() returns once a further connection arrives
		pthread_t t; { sched::quiet q; returned = false; } pthread_create(&t, nullptr, late, nullptr); pthread_detach(t);
		e->start();
		{ sched::quiet q; returned = true; }
		{ sched::quiet q; sched::wait_quiescent(); check_all(sp, true, "after start() returned"); left_over = Left{ e, log, sink, w }; }
		return;
	}
	if (sp.create) sched::fail_create = sp.create + 1; // the first one is the acceptor
	std::future<void> f = e->start_async();
	if (sp.other) { pthread_t t; { sched::quiet q; W->shutdown_begun = true; } pthread_create(&t, nullptr, stopper, e); pthread_detach(t); }
	if (sp.owner) { { sched::quiet q; W->shutdown_begun = true; } e->stop(); }
	std::vector<size_t> sizes;
	if (shut) {
		f.wait();
		{ sched::quiet q; for (Conn* c : W->all) { sizes.push_back(c->out.size()); if (c->out.size() && c->kind != 'T') { Resp r = resp(c->out); if (!r.ok) sched::fail(fmt("the completion was signalled while the response of connection %d was being sent", c->id)); if (!c->closed) sched::fail(fmt("the completion was signalled before connection %d was closed", c->id)); } }
		  if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) sched::fail("the completion signal is not set"); }
		bool threw = false; try { f.get(); } catch (...) { threw = true; } if (threw) { sched::quiet q; sched::fail("the completion signal carries an exception"); }
	}
	sched::quiet q;
	sched::wait_quiescent();
	for (Conn* c : W->all) if (c->held) c->held = false;
	sched::wait_quiescent();
	if (shut) for (size_t i = 0; i < sizes.size(); i++) if (W->all[i]->out.size() != sizes[i]) sched::fail(fmt("a response was sent on connection %zu after the completion was signalled", i + 1));
	check_all(sp, shut, "at the end");
	if (!shut && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready) sched::fail("the completion was signalled though no shutdown was requested");
	if (sink) { size_t lines = 0; std::string t(sink->buf, sink->n); size_t p = 0; while (p < t.size()) { size_t x = t.find('\n', p); if (x == std::string::npos) sched::fail("the log ends within a line: " + show(t.substr(p)).substr(0, 300)); std::string l = t.substr(p, x - p); p = x + 1; lines++; if (l.size() && (l.size() < 25 || l[4] != '-' || l[10] != 'T')) sched::fail("a log line is damaged: " + show(l).substr(0, 200)); } if (sp.log && !lines) sched::fail("nothing was logged"); }
	left_over = Left{ e, log, sink, w };
}
static std::vector<sched::Scenario> SC;
static void scen(const std::string& n, int bound) { sched::Scenario s; s.name = n; s.body = [n] { body(n); }; s.opt.bound = bound; SC.push_back(s); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(24);
	root = G.scratch + "/root"; std::filesystem::create_directories(root + "/resources"); { std::ofstream o(root + "/resources/f.txt"); o << file_text('F'); } { std::ofstream o(root + "/resources/g.txt"); o << file_text('G'); }
	bool T = G.thorough; int more = T ? 1 : 0;
	if (G.prop == "E02") {
		for (auto n : { "R", "F", "RR", "RF", "FG", "FF", "TR", "UR", "RT", "HR", "RH" }) scen(n, 3 + more);
		for (auto n : { "RRR", "RFG", "FRT" }) scen(n, 3);
		for (auto n : { "RRc1", "RRc2", "RRRc2", "RRa1", "RRa2", "FRa2" }) scen(n, 2 + more);
		for (auto n : { "RL", "RRL", "FRL" }) scen(n, 2);
		for (auto n : { "RRS", "FHR" }) scen(n, 2 + more);
		if (T) for (auto n : { "RRRR", "RFGR" }) scen(n, 2);
	} else {
		for (auto n : { "S", "SS", "RS", "SR", "o", "Ro", "So", "p", "Rp", "Sp", "po", "Fo", "FS", "TS", "ST", "To", "HS", "SH", "Ho" }) scen(n, 3 + more);
		for (auto n : { "RRS", "RSR", "SRR", "RSS", "SSR", "SSS", "RRo", "RSo", "SSo", "RSp", "Spo", "TRS", "RFS", "SHR", "RSH" }) scen(n, 2 + more);
		for (auto n : { "SL", "RSL", "SoL" }) { scen(n, 2); SC.back().opt.races = false; }
		for (auto n : { "SRc2", "SRRc2", "SRa1", "RSc1", "RSa2" }) scen(n, 2 + more);
		for (auto n : { "Sy", "SRy", "RSy" }) scen(n, 1 + more);
		if (T) for (auto n : { "RRSS", "RRSo", "SSSS" }) scen(n, 2);
	}
	if (const char* o = getenv("MC_ONLY")) { std::vector<sched::Scenario> k; for (auto& s : SC) if (s.name == o) k.push_back(s); SC = k; } // to measure one scenario
	sched::all_scenarios = &SC;
	G.run_case = [](const std::string& c) { size_t p = c.find('|'); std::string n = c.substr(0, p); for (auto& s : SC) if (s.name == n) { sched::replay(s, c.substr(p + 1)); return; } };
	maybe_replay();
	g_rule = "every schedule with up to the stated number of preemptions (and every choice at blocking points) of each scenario is executed on the real endpoint; data races are found by happens-before on every execution";
	if (T) sched::g_deadline = 780;
	std::string names; for (auto& s : SC) names += fmt("%s%s/%d", names.empty() ? "" : " ", s.name.c_str(), s.opt.bound);
	cover("scenarios", names);
	const uint64_t M = 1500; // positions of a first deviation
	run_tasks(SC.size() * M, [&](uint64_t i) { uint64_t pos = i / SC.size(); sched::explore(SC[i % SC.size()], pos); }, T ? 780 : 0);
	done();
}
