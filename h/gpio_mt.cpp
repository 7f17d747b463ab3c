// G01, G02: SMBus transfers of several threads, and the background threads of the PWM emulator and of the motion tracker,
// under every schedule up to a preemption bound (mcsched.h), over a stand-in for the devices (gpio_dev.h).
#include "mcsched.h"
#define DEV_QUIET sched::point("device"); sched::quiet dev_quiet;
#include "gpio_dev.h"
#include <cstdio>
#include "gpio.h"
#include "log.h"
#include <sstream>
#include <cmath>
using namespace mc;
using Log = abc::log_ostream<abc::diag_line_ostream<>, abc::log_filter>;
using Bus = abc::gpio_smbus<Log>; using Target = abc::gpio_smbus_target<Log>; using Chip = abc::gpio_chip<Log>; using Emu = abc::gpio_pwm_emulator<Log>;
using Motion = abc::gpio_smbus_motion<Log>; using Tracker = abc::gpio_smbus_motion_tracker<std::centi, Log>;
using dev::W; using dev::Xfer;
struct Null : std::streambuf { int_type overflow(int_type c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static const int ADDR[3] = { 0x14, 0x29, 0x68 }; static const bool SWAP[3] = { false, true, true };
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string t; std::istringstream i(s); while (std::getline(i, t, c)) r.push_back(t); return r; }
[[noreturn]] static void bad(const std::string& m) { sched::fail(m); }

// What the previous execution left; its threads were abandoned.
static struct Left { dev::World* w = nullptr; Bus* bus = nullptr; Log* log = nullptr; Null* sink = nullptr; } left_over;
static void setup(bool with_log, Log*& log) {
	sched::quiet q; delete left_over.bus; delete left_over.log; delete left_over.sink; delete left_over.w; left_over = Left();
	W = left_over.w = new dev::World(); W->fail_fn = [](const char* m) { sched::fail(m); }; W->clock = [] { return sched::vtime(); };
	for (int a : ADDR) for (int r = 0; r < 256; r++) { W->targets[a].mem[r][0] = (uint8_t)(a ^ r); W->targets[a].mem[r][1] = (uint8_t)(r + 1); W->targets[a].block = { (uint8_t)a, 1, 2, 3, 4 }; }
	log = nullptr; if (with_log) { static abc::log_filter filter(abc::severity::abc::debug); left_over.sink = new Null(); log = left_over.log = new Log(left_over.sink, &filter); }
}

// ---- G01: "wA,RB;BC|..": the operations of each thread, separated by ';' threads, ',' operations; '/' options f<n> the n-th device call fails, L with a log
struct Op { char kind; int t; uint8_t reg; bool ret = false; uint32_t val = 0; std::string got; };
struct Job { Bus* bus; std::vector<Op> ops; Log* log; };
static uint16_t wire(const Xfer& x) { return (uint16_t)(x.data[0] | x.data[1] << 8); }
static uint16_t swapped(uint16_t w) { return (uint16_t)(w << 8 | w >> 8); }
static void run_op(Bus& b, Op& o, Log* log) {
	Target t(ADDR[o.t], 1000, SWAP[o.t], log); uint8_t by = 0xee; uint16_t wo = 0xeeee; char blk[40]; size_t n;
	switch (o.kind) {
	case 'n': o.ret = b.put_nodata(t, o.reg); break;
	case 'b': o.ret = b.put_byte(t, o.reg, o.reg ^ 0x5a); break;
	case 'w': o.ret = b.put_word(t, o.reg, 0x1200 | o.reg); break;
	case 'k': memset(blk, o.reg, sizeof blk); o.ret = b.put_block(t, o.reg, blk, 3); break;
	case 'r': o.ret = b.get_noreg(t, by); o.val = by; break;
	case 'R': o.ret = b.get_noreg_2(t, wo); o.val = wo; break;
	case 'B': o.ret = b.get_byte(t, o.reg, by); o.val = by; break;
	case 'W': o.ret = b.get_word(t, o.reg, wo); o.val = wo; break;
	case 'K': n = 32; o.ret = b.get_block(t, o.reg, blk, n); o.got.assign(blk, o.ret ? n : 0); break;
	}
}
static void* job(void* p) { Job* j = (Job*)p; for (auto& o : j->ops) run_op(*j->bus, o, j->log); return nullptr; }
static const char* opname(char k) { switch (k) { case 'n': return "put_nodata"; case 'b': return "put_byte"; case 'w': return "put_word"; case 'k': return "put_block"; case 'r': return "get_noreg"; case 'R': return "get_noreg_2"; case 'B': return "get_byte"; case 'W': return "get_word"; default: return "get_block"; } }
static bool matches(const Op& o, const Xfer& x) {
	if (x.addr != ADDR[o.t] || x.read != (strchr("rRBWK", o.kind) != nullptr)) return false;
	switch (o.kind) {
	case 'n': return x.size == I2C_SMBUS_BYTE && x.reg == o.reg;
	case 'b': return x.size == I2C_SMBUS_BYTE_DATA && x.reg == o.reg && x.data[0] == (o.reg ^ 0x5a);
	case 'w': return x.size == I2C_SMBUS_WORD_DATA && x.reg == o.reg && wire(x) == (SWAP[o.t] ? swapped(0x1200 | o.reg) : (0x1200 | o.reg));
	case 'k': return x.size == I2C_SMBUS_BLOCK_DATA && x.reg == o.reg && x.data == std::vector<uint8_t>({ 3, o.reg, o.reg, o.reg });
	case 'r': return x.size == I2C_SMBUS_BYTE && (!o.ret || x.data[0] == o.val);
	case 'R': return x.size == I2C_SMBUS_BYTE;
	case 'B': return x.size == I2C_SMBUS_BYTE_DATA && x.reg == o.reg && (!o.ret || x.data[0] == o.val);
	case 'W': return x.size == I2C_SMBUS_WORD_DATA && x.reg == o.reg && (!o.ret || wire(x) == (SWAP[o.t] ? swapped(o.val) : o.val));
	default: return x.size == I2C_SMBUS_BLOCK_DATA && x.reg == o.reg && (!o.ret || std::string(x.data.begin() + 1, x.data.end()) == o.got);
	}
}
static void check_ops(std::vector<Op*> ops) {
	std::vector<bool> used(W->xfers.size()); int nfail = 0;
	for (int pass = 0; pass < 2; pass++) for (Op* o : ops) { // pairs first
		if ((o->kind == 'R') != (pass == 0)) continue;
		std::string w = fmt("%s of register %02x of device %02x", opname(o->kind), o->reg, ADDR[o->t]);
		if (!o->ret) { nfail++; continue; }
		bool found = false;
		for (size_t i = 0; i < W->xfers.size() && !found; i++) {
			if (used[i] || !matches(*o, W->xfers[i])) continue;
			if (o->kind == 'R') {
				if (i + 1 >= W->xfers.size() || used[i + 1] || !matches(*o, W->xfers[i + 1])) continue;
				uint8_t b0 = W->xfers[i].data[0], b1 = W->xfers[i + 1].data[0]; if (o->val != (uint32_t)(SWAP[o->t] ? b0 << 8 | b1 : b1 << 8 | b0)) continue;
				used[i + 1] = true;
			}
			used[i] = found = true;
		}
		if (!found) { std::string all; for (auto& x : W->xfers) { all += fmt(" [%02x %s %02x size %u", x.addr, x.read ? "read" : "write", x.reg, x.size); for (int d : x.data) all += fmt(" %02x", d); all += "]"; } bad(fmt("%s returned true (%x), but was not carried out at the device; transfers:%s", w.c_str(), o->val, all.c_str())); }
	}
	for (size_t i = 0; i < used.size(); i++) if (!used[i]) { // only the first half of a pair that failed
		bool ok = false; for (Op* o : ops) if (o->kind == 'R' && !o->ret && matches(*o, W->xfers[i])) ok = true;
		if (!ok) bad(fmt("a transfer that nobody issued reached device %02x (%s register %02x, size %u)", W->xfers[i].addr, W->xfers[i].read ? "read" : "write", W->xfers[i].reg, W->xfers[i].size));
	}
	if (nfail != (W->failed ? 1 : 0)) bad(fmt("%d device calls failed (%s), and %d operations reported a failure", W->failed, W->failed_what.c_str(), nfail));
}
static void body1(const std::string& name) {
	auto parts = split(name, '/'); bool L = false; int f = 0; for (size_t i = 1; i < parts.size(); i++) { if (parts[i] == "L") L = true; else f = atoi(parts[i].c_str() + 1); }
	Log* log; setup(L, log); Bus* bus; static std::deque<Job> jobs; { sched::quiet q; jobs.clear(); }
	bus = new Bus("/dev/i2c-1", log); { sched::quiet q; left_over.bus = bus; W->calls = 0; W->fail_at = f; }
	std::vector<pthread_t> th; std::vector<Op*> all;
	{ sched::quiet q; auto t = split(parts[0], ';'); for (size_t k = 0; k < t.size(); k++) { jobs.push_back(Job{ bus, {}, log }); auto o = split(t[k], ','); for (size_t i = 0; i < o.size(); i++) jobs.back().ops.push_back(Op{ o[i][0], o[i][1] - 'A', (uint8_t)(0x20 * (k + 1) + i) }); } }
	for (size_t k = 1; k < jobs.size(); k++) { pthread_t t; pthread_create(&t, nullptr, job, &jobs[k]); sched::quiet q; th.push_back(t); }
	job(&jobs[0]); for (auto t : th) pthread_join(t, nullptr);
	sched::quiet q; bool fired = W->failed; for (auto& j : jobs) for (auto& o : j.ops) all.push_back(&o);
	(void)fired; check_ops(all); W->fail_at = 0; W->failed = 0; W->xfers.clear();
	for (int t = 0; t < 3; t++) { Op o{ 'w', t, 7 }; run_op(*bus, o, log); if (!o.ret) bad(fmt("a transfer to device %02x fails though no device call does", ADDR[t])); std::vector<Op*> v{ &o }; check_ops(v); W->xfers.clear(); }
}

// ---- G02, the PWM emulator: "E<frequency>[:<min us>:<max us>] op op ..": d<n> duty cycle, t<n>:<ms> for a time, s<ms> sleep, w check the wave, v the wave does not change any more,
// e wait until it takes effect, D<n> another thread sets, j join it; options /L /c1
static double P_us, min_us, max_us;
static uint64_t high_us(int d) { return (uint64_t)(min_us + (uint64_t)(d * (uint64_t)(max_us - min_us)) / 100); }
struct Wave { int level; std::vector<std::pair<int, uint64_t>> seg; }; // complete segments (level, us)
static Wave wave(size_t from) { Wave w; auto& l = W->lines; std::vector<dev::LineEv> ch; for (size_t i = from; i < l.size(); i++) if (ch.empty() || ch.back().level != l[i].level) ch.push_back(l[i]); w.level = l.empty() ? 0 : l.back().level; for (size_t i = 0; i + 1 < ch.size(); i++) w.seg.push_back({ ch[i].level, (ch[i + 1].t - ch[i].t) / 1000 }); return w; }
static std::string text(const Wave& w) { std::string s = fmt("now %d", w.level); for (auto& g : w.seg) s += fmt(", %s %llu us", g.first ? "high" : "low", (unsigned long long)g.second); return s; }
static bool is_wave(int d, const Wave& w, size_t events, bool first_partial) {
	if (d <= 0) { if (w.level != 0) return false; for (auto& g : w.seg) if (g.first) return false; return true; }
	if (d >= 100) { if (w.level != 1) return false; for (auto& g : w.seg) if (!g.first) return false; return true; }
	if (w.seg.size() < 3) return false; for (size_t i = first_partial ? 1 : 0; i < w.seg.size(); i++) if (w.seg[i].second != (w.seg[i].first ? high_us(d) : (uint64_t)P_us - high_us(d))) return false; return true;
}
static void sleep_us(uint64_t us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
struct Setter { Emu* e; int d; }; static void* setter(void* p) { Setter* s = (Setter*)p; s->e->set_duty_cycle(s->d); return nullptr; }
static void body_emu(const std::string& name) {
	auto opts = split(name, '/'); bool L = false; int c = 0; for (size_t i = 1; i < opts.size(); i++) { if (opts[i] == "L") L = true; else if (opts[i][0] == 'c') c = opts[i][1] - '0'; }
	auto ops = split(opts[0], ' '); auto head = split(ops[0].substr(1), ':'); int fr = atoi(head[0].c_str());
	Log* log; setup(L, log);
	P_us = fr ? 1000000 / fr : 0; min_us = 0; max_us = P_us; if (head.size() > 2) { min_us = atoi(head[1].c_str()); max_us = atoi(head[2].c_str()); }
	bool valid = fr != 0 && min_us <= max_us && max_us <= P_us;
	std::unique_ptr<Chip> chip(new Chip("/dev/gpiochip0", "test", log));
	Emu* e = nullptr; bool threw = false; sched::fail_create = c;
	try { e = head.size() > 2 ? new Emu(chip.get(), 5, std::chrono::microseconds((int)min_us), std::chrono::microseconds((int)max_us), fr, log) : new Emu(chip.get(), 5, fr, log); } catch (const std::exception&) { threw = true; }
	{ sched::quiet q; if (threw == (valid && !c)) bad(threw ? "the construction threw" : "invalid arguments were accepted"); if (threw) { if (W->open_count()) bad("a descriptor is left open"); return; } }
	int duty = 0; static Setter st; pthread_t th;
	for (size_t i = 1; i < ops.size(); i++) {
		const std::string& o = ops[i]; int v = atoi(o.c_str() + 1);
		switch (o[0]) {
		case 'd': e->set_duty_cycle(v); duty = v; break;
		case 't': { size_t from; { sched::quiet q; from = W->lines.size(); } int ms = atoi(o.c_str() + o.find(':') + 1); e->set_duty_cycle(v, std::chrono::milliseconds(ms)); duty = 0; sched::quiet q; int pulses = 0; Wave w = wave(from); for (auto& g : w.seg) if (g.first && g.second == high_us(v)) pulses++; int want = ms * 1000 / (int)P_us - 2; if (v < 100 && pulses < want) bad(fmt("%d pulses of %llu us were requested for %d ms, and %d came (%s)", want, (unsigned long long)high_us(v), ms, pulses, text(w).c_str())); if (v >= 100) { uint64_t hi = 0; for (auto& g : w.seg) if (g.first) hi += g.second; if (w.level) hi += (sched::vtime() - W->lines.back().t) / 1000; if (hi < (uint64_t)ms * 1000 - P_us) bad(fmt("the line was high for %llu us instead of %d ms", (unsigned long long)hi, ms)); } break; }
		case 's': sleep_us(v * 1000); break;
		case 'w': { sleep_us(2 * P_us); size_t from; { sched::quiet q; from = W->lines.size(); } sleep_us(4 * P_us); sched::quiet q; Wave w = wave(from); if (!is_wave(duty, w, 0, false)) bad(fmt("%g us after the duty cycle was set to %d the line is still: %s", 2 * P_us, duty, text(w).c_str())); break; }
		case 'v': { sleep_us(2 * P_us); size_t from; { sched::quiet q; from = W->lines.size(); } sleep_us(4 * P_us); std::string a; { sched::quiet q; a = text(wave(from)); } sleep_us(250000); { sched::quiet q; from = W->lines.size(); } sleep_us(4 * P_us); sched::quiet q; Wave w = wave(from); bool any = false; for (int d : { duty, st.d }) { Wave t = w; if (is_wave(d, t, 0, false)) any = true; } Wave w1; if (!any) bad("the line follows neither of the two duty cycles: " + text(w)); if ((a.find(',') == std::string::npos) != w.seg.empty()) bad("the line changes long after the duty cycle was set: " + a + " / " + text(w)); break; }
		case 'e': { size_t from; { sched::quiet q; from = W->lines.size(); } int d = duty; sched::block_until([d, from] { auto& l = W->lines; if (d <= 0) return l.empty() || l.back().level == 0; if (d >= 100) return !l.empty() && l.back().level == 1; bool hi = false, lo = false; for (size_t i = from; i < l.size(); i++) (l[i].level ? hi : lo) = true; return hi && lo; }, "the effect of the duty cycle"); break; }
		case 'D': st = { e, v }; pthread_create(&th, nullptr, setter, &st); break;
		case 'j': pthread_join(th, nullptr); break;
		}
	}
	delete e;
	sched::quiet q; if (!W->lines.empty() && W->lines.back().level) bad("the line is left high by the destruction"); size_t n = W->lines.size();
	if (W->open_count()) bad("a descriptor is left open"); sched::wait_quiescent(); if (W->lines.size() != n) bad("the line changes after the destruction");
	if (sched::live_threads() > 1) bad("a thread is left by the destruction");
}

// ---- G02, the motion tracker: "T<accel>:<gyro> op op ..": r start, R wait for three readings, p stop, P wait until it is idle, s<ms>, D/W/A/S<n> set depth, width, direction, speed, q query, m compare with the ideal motion
struct Valuer { Tracker* t; char k; double v; }; static void set_value(Tracker* t, char k, double v) { switch (k) { case 'D': t->set_depth(v); break; case 'W': t->set_width(v); break; case 'A': t->set_direction(v); break; case 'S': t->set_speed(v); break; } }
static void body_track(const std::string& name) {
	auto opts = split(name, '/'); bool L = false; int c = 0; for (size_t i = 1; i < opts.size(); i++) { if (opts[i] == "L") L = true; else if (opts[i][0] == 'c') c = opts[i][1] - '0'; }
	auto ops = split(opts[0], ' '); auto head = split(ops[0].substr(1), ':'); int ac = atoi(head[0].c_str()), gy = atoi(head[1].c_str());
	Log* log; setup(L, log); static int reads; { sched::quiet q; reads = 0; auto& m = W->targets[0x68].mem; m[0x3b][0] = (uint8_t)(ac >> 8); m[0x3b][1] = (uint8_t)ac; m[0x47][0] = (uint8_t)(gy >> 8); m[0x47][1] = (uint8_t)gy; W->on_word_read = [](int, uint8_t r, uint8_t*) { if (r == 0x3b) reads++; }; }
	Bus* bus = new Bus("/dev/i2c-1", log); { sched::quiet q; left_over.bus = bus; }
	std::unique_ptr<Motion> mo(new Motion(bus, log)); Tracker* t = nullptr; bool threw = false; sched::fail_create = c; bool null = head.size() > 2;
	try { t = new Tracker(null ? nullptr : mo.get(), log); } catch (const std::exception&) { threw = true; }
	{ sched::quiet q; if (threw != (null || c)) bad(threw ? "the construction threw" : "a missing sensor was accepted"); }
	if (threw) return;
	uint64_t started = 0; double set[128], d0 = 0, w0 = 0; bool has[128] = {}; bool run = false;
	for (size_t i = 1; i < ops.size(); i++) {
		const std::string& o = ops[i]; double v = atof(o.c_str() + 1);
		switch (o[0]) {
		case 'r': if (o == "r+") { d0 = t->depth(); w0 = t->width(); } t->start(); run = true; { sched::quiet q; started = sched::vtime(); } if (!t->is_running()) { sched::quiet q; bad("started, but is_running() is false"); } break;
		case 'p': t->stop(); run = false; if (t->is_running()) { sched::quiet q; bad("stopped, but is_running() is true"); } break;
		case 'R': { int n = reads; sched::block_until([n] { return reads >= n + 3; }, "readings of the started tracker"); if (started < 2) { sched::quiet q; } break; }
		case 'P': { sched::wait_quiescent(); int n = reads; double s = t->speed(); sleep_us(1000000); sched::quiet q; if (reads != n) bad("the stopped tracker reads the sensor"); if (s != 0 && !has['S']) bad(fmt("the speed of the stopped tracker is %g", s)); break; }
		case 's': sleep_us(v * 1000); break;
		case 'D': case 'W': case 'A': case 'S': set_value(t, o[0], v); set[(int)o[0]] = v; has[(int)o[0]] = true; break;
		case 'q': { double d = t->depth(), w = t->width(), a = t->direction(), s = t->speed(); sched::quiet q; // nothing accelerates or turns
			if (has['S'] && s != set['S'] && run) bad(fmt("the speed was set to %g and is %g", set['S'], s)); if (has['A'] && a != set['A']) bad(fmt("the direction was set to %g and is %g", set['A'], a));
			if (!has['S'] || set['S'] == 0) { if (has['D'] && d != set['D']) bad(fmt("the depth was set to %g and is %g", set['D'], d)); if (has['W'] && w != set['W']) bad(fmt("the width was set to %g and is %g", set['W'], w)); }
			else if (has['A'] && set['A'] == 0 && has['W'] && w != set['W']) bad(fmt("the width was set to %g and is %g", set['W'], w));
			else if (has['D'] && d < set['D']) bad(fmt("the depth was set to %g and is %g", set['D'], d)); break; }
		case 'm': { double d = t->depth(), w = t->width(), a = t->direction(), s = t->speed(); sched::quiet q; double T = (sched::vtime() - started) / 1e9, acc = 16.0 * ac / 32767 * 9.80665 * 100, om = 2000.0 * gy / 32767 * 3.14159265358979 / 180, v0 = has['S'] ? set['S'] : 0, a0 = has['A'] ? set['A'] * 3.14159265358979 / 180 : 0;
			// ideal motion: speed v0 + acc t, direction a0 + om t; integrated finely
			double x = d0, y = w0; int N = 20000; for (int k = 0; k < N; k++) { double tt = T * (k + 0.5) / N; x += (v0 + acc * tt) * std::cos(a0 + om * tt) * T / N; y += (v0 + acc * tt) * std::sin(a0 + om * tt) * T / N; }
			double tol = 0.02 * (std::abs(x) + std::abs(y)) + (std::abs(v0) + std::abs(acc * T)) * 0.003; // three samples
			if (std::abs(d - x) > tol || std::abs(w - y) > tol) bad(fmt("after %g s the position is %g, %g instead of %g, %g", T, d, w, x, y));
			if (std::abs(s - (v0 + acc * T)) > std::abs(acc) * 0.003 + 1e-9) bad(fmt("after %g s the speed is %g instead of %g", T, s, v0 + acc * T));
			if (std::abs(a - (a0 + om * T) * 180 / 3.14159265358979) > std::abs(om) * 0.003 * 58 + 1e-6) bad(fmt("after %g s the direction is %g instead of %g", T, a, (a0 + om * T) * 180 / 3.14159265)); break; }
		}
	}
	delete t; { sched::quiet q; int n = reads; sched::wait_quiescent(); if (reads != n) bad("the destroyed tracker reads the sensor"); if (sched::live_threads() > 1) bad("a thread is left by the destruction"); }
}

static std::vector<sched::Scenario> SC;
static void scen(const std::string& n, int bound, bool early = true) { sched::Scenario s; s.name = n; s.opt.bound = bound; s.opt.early = early; s.opt.max_steps = 6000; s.body = n[0] == 'E' ? std::function<void()>([n] { body_emu(n); }) : n[0] == 'T' ? std::function<void()>([n] { body_track(n); }) : std::function<void()>([n] { body1(n); }); SC.push_back(s); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(24); bool T = G.thorough; int more = T ? 3 : 2;
	const std::string kinds = "nbwkrRBWK";
	if (G.prop == "G01") {
		for (char k : kinds) for (auto l : { "", "/L" }) for (int t = 0; t < 3; t++) scen(fmt("%c%c%s", k, 'A' + t, l), 0);
		for (char k : kinds) for (int f = 1; f <= 4; f++) for (auto l : { "", "/L" }) { scen(fmt("%cA,wA,%cB,BA/f%d%s", k, k, f, l), 0); scen(fmt("BB,%cA,wB/f%d%s", k, f, l), 0); }
		for (char a : kinds) for (char b : kinds) scen(fmt("%cA;%cB", a, b), 2 + more);
		for (char a : kinds) { scen(fmt("%cA;%cA", a, a), 3); scen(fmt("%cA,WB;%cB,wA", a, a), 2); scen(fmt("wA;%cB;RC", a), 2); }
		for (char a : kinds) for (int f = 1; f <= 4; f++) scen(fmt("%cA;wB/f%d", a, f), 2);
		for (auto n : { "RA;RA", "RB;RB", "RA;rA", "RA,RA;RA,RA" }) scen(n, 3);
		for (auto n : { "wA;WB/L", "RA;RB/L" }) scen(n, 2);
		for (char a : kinds) for (char b : kinds) { scen(fmt("%cA,%cB;%cC,%cA", a, b, b, a), T ? 4 : 2); scen(fmt("%cA;%cB;%cC", a, b, a), T ? 3 : 2); }
	} else {
		for (auto n : { "E0", "E50:3000:2000", "E50:0:20001", "E50:500:2500/c1", "E50/c1", "T0:0:n", "T0:0/c1" }) scen(n, 1);
		for (auto n : { "E50", "E50 w", "E50 d50", "E50 d100", "E50 d50 s5", "E50 d50 s15", "E50 d50 s30", "E50 d100 d0", "E50 d100 w", "E50 d50 w", "E50 d150 w", "E50 d0 w", "E50 d100 w d0 w", "E50 d100 s1 d50 w", "E50 d50 s3 d100 w", "E50 d30 w d0 w", "E50 d70 s7 d20 w", "E50:500:2500 d50 w", "E50:500:2500 t50:100 w", "E50 t100:100 w", "E50 t30:100", "E50 d1 w", "E50 d99 w", "E1000 d50 w" }) scen(n, 2 + more, false);
		for (auto n : { "E50 d50 w D30 d100 j v", "E50 d100 w D0 d50 j v", "E50 D100 d50 j v", "E50 d100 D50 j v" }) scen(n, 2, false);
		for (auto n : { "E50", "E50 d100 e", "E50 d50 e", "E50 d100 e d0 e", "E50 d50 e d100 e d0 e", "E50 d100", "E50 d50", "E50 d100/L", "E50 d50 e/L" }) scen(n, 2 + more);
		for (auto n : { "T0:0", "T0:0 r", "T0:0 r R", "T0:0 p", "T0:0 r p", "T0:0 r R p", "T0:0 r R p P", "T0:0 r p r R", "T0:0 p r R", "T0:0 s300 r R", "T0:0 s300 r", "T0:0 s300" }) scen(n, 2 + more);
		for (auto n : { "T0:0 r R p P r R p P", "T0:0 r R/L", "T0:0 r R D1000 R q", "T0:0 r R W1000 R q", "T0:0 r R A90 R q", "T0:0 r R S7 R q", "T0:0 r R D1000 R S7 R q", "T0:0 r R D5 W6 A0 q R q" }) scen(n, 2);
		for (auto n : { "T2048:0 s300 r s50 m", "T1000:3000 s300 r s60 m", "T-2000:-3000 s300 r s60 m", "T0:8000 S100 s1000 r S100 s80 m", "T1000:0 s300 r R p P r R", "T2000:0 s300 r R s20 m p P", "T2000:0 s300 r R s20 p P r+ s40 m", "T2000:0 A30 s300 r R s10 p s300 r+ s40 m" }) scen(n, 1, false);
	}
	if (const char* o = getenv("MC_ONLY")) { std::vector<sched::Scenario> k; for (auto& s : SC) if (s.name == o) k.push_back(s); SC = k; }
	sched::all_scenarios = &SC;
	G.run_case = [](const std::string& c) { size_t p = c.find('|'); std::string n = c.substr(0, p); for (auto& s : SC) if (s.name == n) { sched::replay(s, c.substr(p + 1)); return; } };
	maybe_replay();
	g_rule = "every schedule with up to the stated number of preemptions of each scenario is executed on the real device classes; time is virtual; data races are found by happens-before on every execution";
	if (T) sched::g_deadline = 780;
	cover("scenarios", (uint64_t)SC.size()); std::string names; for (size_t i = 0; i < SC.size() && names.size() < 2000; i += SC.size() > 60 ? 7 : 1) names += (names.empty() ? "" : " | ") + SC[i].name; cover("some_scenarios", names);
	const uint64_t M = 600;
	run_tasks(SC.size() * M, [&](uint64_t i) { sched::explore(SC[i % SC.size()], i / SC.size()); }, T ? 780 : 0);
	done();
}
