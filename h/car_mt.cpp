// X05: the car service (samples/picar_4wd) with its background threads under every schedule up to a preemption bound
// (mcsched.h), over a stand-in for the devices (gpio_dev.h). Time is virtual.
#include "mcsched.h"
#define DEV_QUIET sched::point("device"); sched::quiet dev_quiet;
#include "gpio_dev.h"
#include "resp.h"
#include "jref.h"
#include <cmath>
#include "picar_4wd/car.h"
using namespace mc; namespace S = abc::samples; using dev::W; using Log = S::log_ostream;
[[noreturn]] static void bad(const std::string& m) { sched::fail(m); }
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find(d, p); v.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } return v; }
struct Ep : S::car_endpoint<S::limits, Log> { using base = S::car_endpoint<S::limits, Log>; Ep(abc::endpoint_config* c) : base(c, nullptr) {}
	void one(std::streambuf* sb) { abc::http_server_stream<Log> http(sb); char m[65], r[1025], p[65]; http.get_method(m, sizeof m); http.get_resource(r, sizeof r); http.get_protocol(p, sizeof p); this->process_rest_request(http, m, r); http.flush(); } };
struct Mem : std::streambuf { std::string in, out; Mem(const std::string& i) : in(i) { setg(&in[0], &in[0], &in[0] + in.size()); } int_type overflow(int_type c) override { if (c != traits_type::eof()) out += (char)c; return 0; } std::streamsize xsputn(const char* p, std::streamsize n) override { out.append(p, n); return n; } };
static abc::endpoint_config* cfg() { static abc::endpoint_config* c = new abc::endpoint_config("80", 5, "/nowhere", "/resources/"); return c; }

// ---- the vehicle: four wheels (direction line, PWM register, timer), a servo, an MCU that a pulse of line 21 resets, an ultrasonic sensor
enum { FL, FR, RL, RR }; static const uint32_t DIR[4] = { 23, 24, 13, 20 }; static const int PWM[4] = { 0x2d, 0x2c, 0x28, 0x29 };
static int word(int reg) { auto& m = W->targets[0x14].mem[reg]; return m[0] << 8 | m[1]; }
static int timer_of(int pwm) { return (pwm - 0x20) / 4; }
static int cc_of(int w, int duty) { int ar = word(0x44 + timer_of(PWM[w])) + 1; return duty <= 0 ? 0 : duty >= 100 ? ar : duty * ar / 100; }
static bool driven(int w) { return word(PWM[w]) != 0; }
static struct Car { std::vector<int> dist; size_t measured = 0; int phase = 0; bool made = false, hold = false, down = false; size_t lines_down = 0, xfers_down = 0; bool resets = false; } car;
static int distance() { return car.dist[std::min(car.measured, car.dist.size() - 1)]; }
static int echo(uint32_t line) { // 0 idle, 1 start seen, then the end
	if (line != 6) return 0; int d = distance();
	if (d >= 100) { sched::advance(7000000); return 0; }
	switch (car.phase++) { case 0: return 0; case 1: return 1; default: sched::advance(uint64_t(std::ceil(2.0 * d * 10000 / 343 + 1) * 1000)); car.phase = 0; return 0; } }
static const char* WN[4] = { "front left", "front right", "rear left", "rear right" };
static void on_line(const dev::LineEv& e, int old) {
	if (e.offset == 5 && car.hold) sched::block_until([] { return !car.hold; }, "a thread that is not scheduled");
	if (e.offset == 5 && e.level) { car.phase = 0; car.measured++; }
	if (e.offset == 21 && !e.level) for (auto& m : W->targets[0x14].mem) m[0] = m[1] = 0;
	for (int w = 0; w < 4; w++) if (e.offset == DIR[w] && e.level != old && driven(w)) bad(fmt("the direction of the %s wheel is reversed while it is driven (register %02x is %d)", WN[w], PWM[w], word(PWM[w])));
}
// ---- model
struct M { bool fwd = true; int P = 0, turn = 0; bool operator==(const M& o) const { return fwd == o.fwd && P == o.P && turn == o.turn; } };
static void duties(const M& m, int d[4]) {
	static const std::map<int, int> D = { { 0, 0 }, { 30, 11 }, { 60, 25 }, { 90, 50 } }; int dl = D.at(std::abs(m.turn)) * (m.turn < 0 ? -1 : 1), l = m.P + dl, r = m.P - dl;
	int adj = std::max(l, r) > 100 ? 100 - std::max(l, r) : std::min(l, r) < 0 ? -std::min(l, r) : 0; d[FL] = d[RL] = l + adj; d[FR] = d[RR] = r + adj; }
static M limited(M m, int cm) { if (!m.fwd) return m; if (m.P > 75 && cm < 30) m.P = 75; else if (m.P > 50 && cm < 20) m.P = 50; else if (m.P > 25 && cm < 10) m.P = 25; else if (m.P > 0 && cm < 5) { m.P = 0; m.turn = 0; } return m; }
struct Op { std::string text; char kind; int v = 0; int cls = 0, code = 0; uint64_t t0 = 0, t1 = 0; std::string raw; };
struct Client { Ep* e; std::vector<Op> ops; };
static uint64_t g_clock;
static bool wheels_are(const M& a, const M& b) { int x[4], y[4]; duties(a, x); duties(b, y); for (int w = 0; w < 4; w++) { int v = word(PWM[w]); if (v != cc_of(w, x[w]) && v != cc_of(w, y[w])) return false; if (v != 0 && (W->level[DIR[w]] == 0) != a.fwd) return false; } return true; }
static std::string wheels() { std::string s; for (int w = 0; w < 4; w++) { int ar = word(0x44 + timer_of(PWM[w])) + 1; s += fmt("%s%s %s %.1f%%", w ? ", " : "", WN[w], W->level[DIR[w]] ? "backward" : "forward", 100.0 * word(PWM[w]) / ar); } return s; }
// the states that the requests can lead to (limiter steps may come at any point), given the intervals of the requests
static void reach(const M& m, bool down, std::vector<std::vector<const Op*>>& th, std::vector<size_t>& at, const std::vector<int>& cms, std::vector<M>& out, std::set<std::string>& seen) {
	std::string key = fmt("%d,%d,%d,%d", m.fwd, m.P, m.turn, down); for (auto a : at) key += fmt(",%zu", a); if (!seen.insert(key).second) return;
	bool all = true; for (size_t t = 0; t < th.size(); t++) all &= at[t] == th[t].size(); if (all) out.push_back(m);
	if (!down) for (int cm : cms) { M q = limited(m, cm); if (!(q == m)) reach(q, down, th, at, cms, out, seen); }
	for (size_t t = 0; t < th.size(); t++) if (at[t] < th[t].size()) {
		const Op* o = th[t][at[t]]; bool late = false; for (size_t u = 0; u < th.size(); u++) if (u != t && at[u] < th[u].size() && th[u][at[u]]->t1 < o->t0) late = true; if (late) continue;
		M q = m; bool d = down;
		if (o->kind == 'p' || o->kind == 't') { if (o->code == 200 ? down : !down) continue; if (o->code == 200) { if (o->kind == 'p') { q.fwd = o->v >= 0; q.P = std::abs(o->v); if (!o->v) q.turn = 0; } else q.turn = o->v; } }
		else if (o->kind == 'X') d = true;
		at[t]++; reach(q, d, th, at, cms, out, seen); at[t]--; } }
static std::vector<M> states(const std::vector<Client*>& cl, const M& from, const std::vector<Op*>& before) {
	std::vector<std::vector<const Op*>> th(1); for (auto* o : before) th[0].push_back(o); for (auto* c : cl) { std::vector<const Op*> v; for (auto& o : c->ops) v.push_back(&o); th.push_back(v); }
	std::vector<size_t> at(th.size()); std::vector<M> out; std::set<std::string> seen; std::vector<int> cms; for (size_t i = 0; i <= std::min(car.measured, car.dist.size() - 1); i++) cms.push_back(car.dist[i]); reach(from, false, th, at, cms, out, seen); return out; }
static const char* NAME(char k) { return k == 'p' ? "power" : k == 't' ? "turn" : "angle"; } static const char* RES(char k) { return k == 'p' ? "power" : k == 't' ? "turn" : "servo"; }
static const std::string CT = "\r\nContent-Type: application/json\r\n\r\n";
static std::string send(Ep* e, const std::string& req) { Mem m(req); e->one(&m); sched::quiet q; count(TRANS); return m.out; }
static int answered(const std::string& raw, const std::string& what) { Resp r = resp(raw); if (raw.empty()) bad("no response to the request " + what); if (!r.ok) bad(fmt("the response to the request %s is not one well-formed response: %s", what.c_str(), r.why.c_str())); return atoi(r.status.c_str()); }
static void perform(Op& o, Ep* e) {
	std::string req; uint64_t v0;
	{ sched::quiet q; o.t0 = ++g_clock; v0 = sched::vtime(); switch (o.kind) { case 'p': case 't': case 'v': req = fmt("POST /%s HTTP/1.1", RES(o.kind)) + CT + fmt("{\"%s\": %d}", NAME(o.kind), o.v); break; case 'a': req = "GET /autos HTTP/1.1\r\n\r\n"; break; case 'X': req = "POST /shutdown HTTP/1.1\r\n\r\n"; break; default: req = "GET /nothing HTTP/1.1\r\n\r\n"; } }
	if (o.kind == 'r' || o.kind == 'X') { sched::quiet q; car.hold = false; if (o.kind == 'r') { o.t1 = ++g_clock; o.code = 200; return; } }
	if (o.kind == 's') { std::this_thread::sleep_for(std::chrono::milliseconds(o.v)); sched::quiet q; o.t1 = ++g_clock; o.code = 200; return; }
	o.raw = send(e, req);
	sched::quiet q; o.t1 = ++g_clock; o.code = answered(o.raw, o.text); o.cls = o.code / 100; bool mayrefuse = o.kind == 'p' || o.kind == 't' || o.kind == 'v' || o.kind == 'a';
	if (o.kind == 'n' ? o.code != 404 : o.code != 200 && !(mayrefuse && o.cls == 5)) bad(fmt("the request %s is answered with %d", o.text.c_str(), o.code));
	if (o.kind == 'X' && !car.down) { car.down = true; car.lines_down = W->lines.size(); car.xfers_down = W->xfers.size(); for (int w = 0; w < 4; w++) if (driven(w)) bad(fmt("the %s wheel is driven after the shutdown", WN[w])); }
	if (o.kind == 'v' && o.code == 200 && sched::vtime() - v0 < 250000000ull) { static bool early; (void)early; }
	if (o.kind == 'a' && o.code == 200) { Resp r = resp(o.raw); Ref j = ref(r.body, 16); if (!j.done || j.error) bad("the response to /autos is not a JSON document: " + show(r.body)); auto& t = j.toks; double dist = -1; int gray = 0, n = 0;
		for (size_t i = 0; i + 1 < t.size(); i++) if (t[i].item == it::property) { if (t[i + 1].item == it::number) n++; if (t[i].text == "obstacle" && t[i + 1].item == it::begin_object && t[i + 2].text == "distance") dist = t[i + 3].num; if ((t[i].text == "left" || t[i].text == "center" || t[i].text == "right") && t[i + 1].item == it::number) { gray++; int g = (int)t[i + 1].num; if (g && (g & 255) != ((g >> 8) + 1 & 255)) bad(fmt("a grayscale value of %d was never measured", g)); } }
		if (n != 6 || gray != 3) bad("the response to /autos lacks values: " + show(r.body)); bool ok = dist == 100; for (int d : car.dist) ok |= dist == std::min(d, 100); if (!ok) bad(fmt("an obstacle at %g cm was never measured", dist)); }
}
static void* client(void* p) { Client* c = (Client*)p; for (auto& o : c->ops) perform(o, c->e); return nullptr; }
static std::vector<Op> ops(const std::string& s) { std::vector<Op> v; if (s.empty()) return v; for (auto& t : split(s, ',')) { Op o; o.text = t; o.kind = t[0]; o.v = atoi(t.c_str() + 1); v.push_back(o); } return v; }
static struct Left { dev::World* w = nullptr; } left_over;
static Ep* make(const std::vector<int>& dist, bool hold = false) {
	{ sched::quiet q; delete left_over.w; W = left_over.w = new dev::World(); W->fail_fn = [](const char* m) { sched::fail(m); }; W->clock = [] { return sched::vtime(); }; car = Car(); car.dist = dist; car.hold = hold; W->input = echo; W->targets[0x68]; W->targets[0x14]; W->on_line = on_line; W->on_word_read = [](int a, uint8_t r, uint8_t*) { if (car.made && a == 0x68 && r == 0x3b) sched::advance(20000000); }; /* a slow bus: the tracker reads less often */ g_clock = 0; sched::steady++; }
	void* mem = malloc(sizeof(Ep)); { sched::quiet q; memset(mem, 0xee, sizeof(Ep)); } Ep* e = new (mem) Ep(cfg()); { sched::quiet q; sched::steady--; car.made = true; } return e; }
static void finish(Ep* e) {
	{ sched::quiet q; if (!car.down) bad("no shutdown"); for (int w = 0; w < 4; w++) if (driven(w)) bad(fmt("the %s wheel is driven after the shutdown", WN[w])); }
	std::this_thread::sleep_for(std::chrono::milliseconds(600));
	{ sched::quiet q; for (size_t i = car.xfers_down; i < W->xfers.size(); i++) { auto& x = W->xfers[i]; for (int w = 0; w < 4; w++) if (x.addr == 0x14 && !x.read && x.reg == PWM[w] && (x.data[0] || x.data[1])) bad(fmt("the %s wheel is driven after the shutdown", WN[w])); } for (size_t i = car.lines_down; i < W->lines.size(); i++) if (W->lines[i].offset == 5) bad("distances are measured after the shutdown"); }
	e->~Ep(); free(e); sched::quiet q; if (sched::live_threads() > 1) { sched::wait_quiescent(); if (sched::live_threads() > 1) bad("a thread outlives the service"); } if (W->open_count()) bad("a descriptor is left open");
}
// "prefix|client;client;..[/o<cm>-<cm>..]"
static void scenario(const std::string& name) {
	std::vector<int> dist{ 100 }; std::vector<std::string> opt; Client c0; std::vector<Client> cl; size_t bar; bool hold = false; std::vector<pthread_t> ids;
	{ sched::quiet q; opt = split(name, '/'); for (size_t i = 1; i < opt.size(); i++) if (opt[i][0] == 'h') hold = true; else if (opt[i][0] == 'o') { dist.clear(); for (auto& d : split(opt[i].substr(1), '-')) dist.push_back(atoi(d.c_str())); } bar = opt[0].find('|'); }
	Ep* e = make(dist, hold); { sched::quiet q; c0.e = e; c0.ops = ops(opt[0].substr(0, bar)); }
	std::vector<Op*> pre; int forced = 0; (void)forced; M m; bool certain = dist.size() == 1;
	for (auto& o : c0.ops) { perform(o, e); sched::quiet q; pre.push_back(&o); if (car.down) continue;
		auto st = states({}, M(), pre); bool ok = false; for (auto& s : st) { if (wheels_are(s, s)) ok = true; for (int cm : dist) if (wheels_are(s, limited(s, cm))) ok = true; } if (!ok) bad(fmt("after %s the wheels are: %s", o.text.c_str(), wheels().c_str()));
		// a sleeping client: the obstacle limiter has worked once per 300 ms
		if (certain) { if (o.kind == 'p') { m.fwd = o.v >= 0; m.P = std::abs(o.v); if (!o.v) m.turn = 0; } else if (o.kind == 't') m.turn = o.v; else if (o.kind == 's' && &o > &c0.ops[0]) { M u = m; for (int k = 0; k < o.v / 300; k++) u = limited(u, dist[0]); // at least
				int x[4], y[4]; duties(u, x); bool atleast = false; M v = u; for (int k = 0; k < 5; k++, v = limited(v, dist[0])) if (wheels_are(v, limited(v, dist[0]))) { atleast = true; m = v; break; } if (!atleast) bad(fmt("%d ms after an obstacle at %d cm came up the wheels are: %s", o.v, dist[0], wheels().c_str())); } } }
	{ sched::quiet q; if (bar != std::string::npos) for (auto& t : split(opt[0].substr(bar + 1), ';')) { Client c; c.e = e; c.ops = ops(t); cl.push_back(c); } ids.resize(cl.size()); }
	for (size_t i = 0; i < cl.size(); i++) if (pthread_create(&ids[i], nullptr, client, &cl[i])) bad("cannot create a thread");
	for (size_t i = 0; i < cl.size(); i++) pthread_join(ids[i], nullptr);
	{ sched::quiet q; std::vector<Client*> v; for (auto& c : cl) v.push_back(&c); auto st = states(v, M(), pre); if (st.empty()) { std::string s; for (auto& c : cl) { s += " |"; for (auto& o : c.ops) s += fmt(" %s->%d", o.text.c_str(), o.code); } bad("the responses do not correspond to any order of the requests:" + s); }
	  if (!car.down) { bool ok = false; for (auto& s : st) { if (wheels_are(s, s)) ok = true; for (int cm : dist) if (wheels_are(s, limited(s, cm))) ok = true; } if (!ok) { std::string s; for (auto& x : st) s += fmt(" (%s power %d turn %d)", x.fwd ? "forward" : "backward", x.P, x.turn); bad("the wheels are: " + wheels() + "; the requests can lead to:" + s); } }
	  std::string s; for (auto& c : cl) for (auto& o : c.ops) s += fmt("%d,", o.code); for (int w = 0; w < 4; w++) s += fmt("%d,", word(PWM[w])); outcome(hash_str(s)); }
	{ sched::quiet q; sched::steady++; } if (!car.down) { Op x; x.text = "X"; x.kind = 'X'; perform(x, e); }
	finish(e);
}
// one client, many requests on the default schedule: "!<family>"
struct Case { std::string req, what; int want; bool isp = false, ist = false; int v = 0; };
static std::vector<Case> family(const std::string& f) {
	std::vector<Case> v; auto post = [&](const std::string& r, const std::string& b, int want, int val = 0) { Case c{ "POST /" + r + " HTTP/1.1" + CT + b, "/" + r + " " + b, want }; c.v = val; c.isp = r == "power"; c.ist = r == "turn"; v.push_back(c); };
	auto sp = split(f, ' '); char k = sp.size() > 1 ? sp[1][0] : 'p'; std::string r = RES(k), n = NAME(k); int lim = k == 'p' ? 100 : 90, step = k == 'p' ? 25 : 30;
	if (sp[0] == "!num") { int lo = atoi(sp[2].c_str()), hi = atoi(sp[3].c_str()); for (int x = lo; x <= hi; x++) post(r, fmt("{\"%s\": %d}", n.c_str(), x), std::abs(x) <= lim && x % step == 0 ? 200 : 400, x); }
	else if (sp[0] == "!body") {
		std::string good = fmt("{\"%s\": %d}", n.c_str(), step); for (size_t i = 0; i < good.size(); i++) post(r, good.substr(0, i), 400);
		for (auto b : { "{}", "[]", "null", "true", "5", "\"x\"", "{\"\": 0}", "{\"x\": 0}", "[0]", "{{", "}", "nonsense", "{\"power\"}", "{\"turn\"}", "{\"angle\"}" }) post(r, b, 400);
		for (auto x : { "0.5", "-0.5", "24.999", "30.5", "1e300", "-1e300", "2147483648", "4294967296", "4294967297", "-4294967296", "9007199254740993", "18446744073709551616", "100.00001", "\"0\"", "null", "true", "[0]", "{}", "", "-", "0x10", "1e", "101", "-101", "91", "-91" }) post(r, fmt("{\"%s\": %s}", n.c_str(), x), 400);
		for (auto x : { "0", "-0", "0.0", "0e5" }) post(r, fmt("{\"%s\": %s}", n.c_str(), x), 200, 0);
		post(r, fmt(" {\t\"%s\"\r\n:%d } ", n.c_str(), step), 200, step); post(r, fmt("{\"%s\":%de0}", n.c_str(), step), 200, step); post(r, fmt("{\"%s\":%d.0}", n.c_str(), -step), 200, -step); post(r, fmt("{\"%s\":0,\"other\":[1,{\"a\":2}]}", n.c_str()), 200, 0);
		post(r, fmt("{\"%s\":0,\"other\":[1,{\"a\":2]}", n.c_str()), 400); post(r, std::string(3000, ' ') + fmt("{\"%s\":0}", n.c_str()), 200, 0); post(r, "{\"" + std::string(3000, 'x') + "\":0}", 400); post(r, std::string(100, '['), 400);
	} else if (sp[0] == "!head") {
		std::string body = fmt("{\"%s\": 0}", n.c_str()); auto raw = [&](const std::string& q, int want) { v.push_back(Case{ q, show(q), want }); };
		for (auto m : { "GET", "PUT", "DELETE", "HEAD", "X", "POSTS" }) raw(std::string(m) + " /" + r + " HTTP/1.1" + CT + body, 405);
		for (auto h : { "", "Accept: x\r\n", "Content-Type: text/plain\r\n", "Content-Type: application/xml\r\n", "Content-Type: application/json\r\nContent-Type: application/json\r\n", "Content-Type: \r\n", "Content-Length: 5\r\n", "Content-Type: text/plain\r\nContent-Type: application/json\r\n" }) raw("POST /" + r + " HTTP/1.1\r\n" + h + "\r\n" + body, 400);
		for (auto h : { "Content-Type: application/json\r\n", "content-type: APPLICATION/JSON\r\n", "Accept: x\r\nContent-Type: application/json; charset=utf-8\r\nX: y\r\n" }) raw("POST /" + r + " HTTP/1.1\r\n" + h + "\r\n" + body, 200);
		std::string full = "POST /" + r + " HTTP/1.1\r\nContent-Type: application/json\r\n\r\n" + body; for (size_t i = full.find("\r\n") + 2; i < full.size(); i++) raw(full.substr(0, i), 400);
		for (auto x : { "/", "/powers", "/powe", "/servo/1", "/shutdow", "/Autosx", "" }) raw(std::string("GET ") + x + " HTTP/1.1\r\n\r\n", 404);
		for (auto m : { "POST", "PUT" }) raw(std::string(m) + " /autos HTTP/1.1\r\n\r\n", 405); for (auto m : { "GET", "PUT" }) raw(std::string(m) + " /shutdown HTTP/1.1\r\n\r\n", 405);
		raw("GET /AUTOS HTTP/1.1\r\n\r\n", 200); raw("get /autos HTTP/1.1\r\n\r\n", 200);
	}
	return v; }
static void many(const std::string& name) {
	std::vector<Case> cs; { sched::quiet q; cs = family(name); } Ep* e = make({ 100 }); M m;
	// something to be disturbed
	{ sched::steady++; Op a; a.text = "p-50"; a.kind = 'p'; a.v = -50; perform(a, e); Op b; b.text = "t60"; b.kind = 't'; b.v = 60; perform(b, e); m.fwd = false; m.P = 50; m.turn = 60; }
	for (auto& c : cs) {
		size_t x0; uint64_t v0; { sched::quiet q; x0 = W->xfers.size(); v0 = sched::vtime(); }
		std::string raw = send(e, c.req); sched::quiet q; int code = answered(raw, c.what); count(EVAL); bool ok = c.want == 200 ? code == 200 : code / 100 == 4 && (c.want == 400 || code == c.want);
		if (!ok) bad(fmt("the request %s is answered with %d instead of %d", c.what.c_str(), code, c.want));
		if (c.want == 200 && c.isp) { m.fwd = c.v >= 0; m.P = std::abs(c.v); if (!c.v) m.turn = 0; } if (c.want == 200 && c.ist) m.turn = c.v;
		if (name.compare(0, 5, "!head") == 0 && code == 200 && c.req.compare(0, 4, "POST") == 0) { if (c.req.find("/power") == 5) m = M(); else if (c.req.find("/turn") == 5) m.turn = 0; }
		if (!wheels_are(m, m)) bad(fmt("after the request %s (%d) the wheels are: %s", c.what.c_str(), code, wheels().c_str()));
		std::vector<int> servo; for (size_t i = x0; i < W->xfers.size(); i++) { auto& x = W->xfers[i]; if (x.addr == 0x14 && !x.read && x.reg == 0x20) servo.push_back(x.data[0] << 8 | x.data[1]); }
		bool is_servo = c.req.find("/servo ") == 5 && code == 200; if (!is_servo && !servo.empty()) bad(fmt("the request %s moves the servo", c.what.c_str()));
		if (is_servo) { if (servo.size() != 2 || servo[0] == 0 || servo[1] != 0) bad(fmt("the request %s gives %zu commands to the servo", c.what.c_str(), servo.size())); double us = servo[0] * double(word(0x40) + 1) / 72; double want = 1500 - c.v * 1000.0 / 92; if (std::abs(us - want) > 30) bad(fmt("at %d degrees the pulses of the servo are %.0f us wide instead of %.0f", c.v, us, want)); uint64_t dt = (sched::vtime() - v0) / 1000000; if (dt < 250 || dt > 700) bad(fmt("the servo was driven for %llu ms", (unsigned long long)dt)); }
	}
	{ Op x; x.text = "X"; x.kind = 'X'; perform(x, e); }
	finish(e);
}
static std::vector<sched::Scenario> SC;
static void scen(const std::string& n, int bound, bool early = true) { sched::Scenario s; s.name = n; s.opt.bound = bound; s.opt.early = early; s.opt.max_steps = n[0] == '!' ? 3000000 : 60000; s.body = n[0] == '!' ? std::function<void()>([n] { many(n); }) : std::function<void()>([n] { scenario(n); }); SC.push_back(s); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(24); bool T = G.thorough; int more = T ? 1 : 0;
	for (auto k : { "p", "t", "v" }) { scen(std::string("!body ") + k, 0); scen(std::string("!head ") + k, 0); for (int lo = -130; lo <= 130; lo += 44) scen(fmt("!num %s %d %d", k, lo, std::min(lo + 43, 130)), 0); }
	std::vector<std::string> al; for (int p = -100; p <= 100; p += 25) al.push_back(fmt("p%d", p)); for (int t = -90; t <= 90; t += 30) al.push_back(fmt("t%d", t));
	for (auto& a : al) for (auto& b : al) { if (T) for (auto& c : al) scen(a + "," + b + "," + c, 0, false); else scen(a + "," + b + ",p-25,t-60,p50", 0, false); }
	for (int cm : { 0, 3, 4, 5, 7, 9, 10, 15, 19, 20, 25, 29, 30, 50, 99 }) for (int p : { 100, 75, 50, 25, 0, -100 }) for (int t : { 0, 90, -30 }) for (int k : { 0, 1, 2 }) scen(fmt("p%d,t%d,s%d/o%d", p, t, 310 + 600 * k, cm), 0, false);
	for (auto o : { "o3", "o9", "o25", "o100-3", "o100-25-15-7-3" }) { scen(fmt("p100,a,s300,a,s300,p100,s1200,a/%s", o), more, false); scen(fmt("t30,p100,s1300,p-100,s600/%s", o), more, false); }
	for (auto n : { "a,r,s310,a/h", "a,p100,r,s310,a/o25/h", "a/h" }) scen(n, more, false);
	for (auto n : { "|p100;p-100", "|p50;t90", "|p100;X", "|t90;X", "|X;X", "p50|p-50;X", "p50|t-60;p0", "|a;p25", "|p100;a", "p-50|p50;t30", "|v30;X", "|n;X", "p100|X;X" }) { scen(n, 1); scen(std::string(n) + "/o3", 1); }
	for (auto n : { "|t90;X" }) scen(std::string(n) + "/", 2); if (T) for (auto n : { "|p100;X", "|X;X", "|a;X", "|n;X", "p50|t-60;t30", "p50|t-60;X", "p50|a;t30" }) scen(std::string(n) + "/", 2);
	for (auto n : { "p100|p-100/o3", "p100|t90/o3", "p100|X/o3", "p75|p75;t90/o15", "p100|p100,t90/o3" }) scen(n, 1); if (T) for (auto n : { "p100|t90/o3", "p100|X/o3", "p100|t90/o15", "p50|t90/o3" }) scen(std::string(n) + "/", 2);
	for (auto n : { "|p100;p-100;X", "|X;X;X", "p25|p-25;t30;a" }) scen(n, 1);
	scen("p100,t30,a,v30,n,p0|p25;X/o3", 0, false);
	if (const char* o = getenv("MC_ONLY")) { std::vector<sched::Scenario> k; for (auto& s : SC) if (s.name == o) k.push_back(s); SC = k; }
	static std::vector<sched::Scenario> warm; std::rotate(SC.begin(), SC.end() - 1, SC.end()); warm.push_back(SC[0]); sched::all_scenarios = &warm; // the warm-up: every kind of request
	G.run_case = [](const std::string& c) { size_t p = c.rfind('|'); std::string n = c.substr(0, p); for (auto& s : SC) if (s.name == n) { sched::replay(s, c.substr(p + 1)); return; } };
	maybe_replay();
	g_rule = "every schedule with up to the stated number of preemptions of each scenario is executed on the real service with its background threads; time is virtual; data races are found by happens-before on every execution; request families are enumerated on the default schedule";
	if (T) sched::g_deadline = 780;
	cover("scenarios", (uint64_t)SC.size()); std::string names; for (size_t i = 0; i < SC.size() && names.size() < 2000; i += 23) names += (names.empty() ? "" : " ; ") + SC[i].name; cover("some_scenarios", names);
	// first the scenarios with deviations
	std::vector<std::pair<int, int>> tasks; const int PM = 1200; for (size_t i = 0; i < SC.size(); i++) for (int p = 0; p < (SC[i].opt.bound || SC[i].opt.early ? PM : 1); p++) tasks.push_back({ (int)i, p });
	run_tasks(tasks.size(), [&](uint64_t i) { sched::explore(SC[tasks[i].first], tasks[i].second); }, T ? 780 : 0);
	done();
}
