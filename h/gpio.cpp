// G03, G04: device handles and device arithmetic, over a stand-in for the devices (gpio_dev.h) and a virtual clock.
#include "gpio_dev.h"
#include <sys/syscall.h>
#include <memory>
#include <cmath>
#include "gpio.h"
#include "log.h"
using namespace mc;
static bool vclock_on = false; static uint64_t vnow = 0;
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) { if (!vclock_on) return syscall(SYS_clock_gettime, c, t); t->tv_sec = vnow / 1000000000; t->tv_nsec = vnow % 1000000000; return 0; }
int nanosleep(const struct timespec* t, struct timespec* r) { if (!vclock_on) return syscall(SYS_nanosleep, t, r); vnow += t->tv_sec * 1000000000ull + t->tv_nsec; return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) { if (!vclock_on) return syscall(SYS_clock_nanosleep, c, fl, t, r) ? errno : 0; uint64_t d = t->tv_sec * 1000000000ull + t->tv_nsec; vnow = fl ? std::max(vnow, d) : vnow + d; return 0; }
}
#include "xlog.h"
#ifdef X03
using Log = XLog;
#else
using Log = abc::log_ostream<abc::diag_line_ostream<>, abc::log_filter>;
#endif
using Bus = abc::gpio_smbus<Log>; using Target = abc::gpio_smbus_target<Log>; using Chip = abc::gpio_chip<Log>; using In = abc::gpio_input_line<Log>; using Out = abc::gpio_output_line<Log>;
using Pwm = abc::gpio_smbus_pwm<Log>; using Motor = abc::gpio_smbus_motor<Log>; using Servo = abc::gpio_smbus_servo<std::chrono::milliseconds, Log>; using Gray = abc::gpio_smbus_grayscale<Log>; using Motion = abc::gpio_smbus_motion<Log>; using Sonic = abc::gpio_ultrasonic<std::centi, Log>;
using std::chrono::microseconds; using dev::W;
struct World : dev::World { World() { W = this; clock = [] { return vnow; }; vnow = 5000000000ull; vclock_on = true; } ~World() { W = nullptr; vclock_on = false; } };
struct Null : std::streambuf { int_type overflow(int_type c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static Log* the_log() { static Null s; static abc::log_filter f(abc::severity::abc::debug); static Log* l = new Log(&s, &f); return l; }

// ---- G03: "<ops>/<n-th call fails>[L]": c chip, i chip info, I line info, l input line, o output line, m the last line moves, x the last line is destroyed, b bus, u ultrasonic, U it moves, M motor, N it moves, s servo, g grayscale, q motion, X the bus and its devices are destroyed
static const char* OPS3 = "ciIlomxbuUMNsgqX";
struct Holder { int fds; std::shared_ptr<void> p; char k; };
static void run3(const std::string& c) {
	set_case(c); size_t sl = c.find('/'); std::string ops = c.substr(0, sl); int f = atoi(c.c_str() + sl + 1); Log* log = c.back() == 'L' ? the_log() : nullptr;
#ifdef X03
	log = xlog();
#endif
	World w; w.fail_at = f; int prev_failed = 0;
	{
		std::unique_ptr<Chip> chip; std::unique_ptr<Bus> bus; std::vector<Holder> lines, devs; std::vector<std::shared_ptr<void>> husks; Target t(0x14, 72000000, true, log);
		auto expected = [&] { int n = bus ? 1 : 0; for (auto& h : lines) n += h.fds; for (auto& h : devs) n += h.fds; return n; };
		for (char o : ops) {
			count(TRANS); bool threw = false, made = false;
			auto line = [&](auto* p, char k) { lines.push_back(Holder{ 1, std::shared_ptr<void>(std::shared_ptr<std::remove_pointer_t<decltype(p)>>(p)), k }); };
			try {
				switch (o) {
				case 'c': if (!chip) { made = true; chip.reset(new Chip("/dev/gpiochip0", "test", log)); MC_CHECK(!strcmp(chip->path(), "/dev/gpiochip0") && !strcmp(chip->consumer(), "test"), "the chip does not know its path or consumer"); } break;
				case 'i': if (chip) { auto i = chip->chip_info(); bool ok = w.failed == prev_failed || w.failed_what == "close"; MC_CHECK(i.is_valid == ok || w.failed_what == "close", "chip_info() is %s though %s", i.is_valid ? "valid" : "not valid", ok ? "no call failed" : "a call failed"); if (i.is_valid) MC_CHECK(i.lines == 54, "wrong chip information"); } break;
				case 'I': if (chip) { auto i = chip->line_info(7); bool ok = w.failed == prev_failed; MC_CHECK(i.is_valid == ok || w.failed_what == "close", "line_info() is %s though %s", i.is_valid ? "valid" : "not valid", ok ? "no call failed" : "a call failed"); if (i.is_valid) MC_CHECK(!strcmp(i.name, "line7"), "wrong line information"); } break;
				case 'l': if (chip) { made = true; line(new In(chip.get(), 3, log), 'l'); } break;
				case 'o': if (chip) { made = true; line(new Out(chip.get(), 4, log), 'o'); } break;
				case 'm': if (!lines.empty()) { Holder h = lines.back(); lines.pop_back(); husks.push_back(h.p); if (h.k == 'l') line(new In(std::move(*(In*)h.p.get())), 'l'); else line(new Out(std::move(*(Out*)h.p.get())), 'o'); } break;
				case 'x': if (!lines.empty()) lines.pop_back(); husks.clear(); break;
				case 'b': if (!bus) { made = true; bus.reset(new Bus("/dev/i2c-1", log)); MC_CHECK(bus->functionality() == 0x1234 && !strcmp(bus->path(), "/dev/i2c-1"), "the bus does not know its path or functionality"); } break;
				case 'u': if (chip) { made = true; devs.push_back(Holder{ 2, std::make_shared<Sonic>(chip.get(), 5, 6, log), 'u' }); } break;
				case 'U': if (!devs.empty() && devs.back().k == 'u') { Holder h = devs.back(); devs.pop_back(); husks.push_back(h.p); devs.push_back(Holder{ 2, std::make_shared<Sonic>(std::move(*(Sonic*)h.p.get())), 'u' }); } break;
				case 'M': if (chip && bus) { made = true; devs.push_back(Holder{ 1, std::make_shared<Motor>(chip.get(), 8, bus.get(), t, 50, 1, 2, 3, log), 'M' }); } break;
				case 'N': if (!devs.empty() && devs.back().k == 'M') { Holder h = devs.back(); devs.pop_back(); husks.push_back(h.p); devs.push_back(Holder{ 1, std::make_shared<Motor>(std::move(*(Motor*)h.p.get())), 'M' }); } break;
				case 's': if (bus) { made = true; devs.push_back(Holder{ 0, std::make_shared<Servo>(bus.get(), t, microseconds(500), microseconds(2500), std::chrono::milliseconds(5), 50, 1, 2, 3, log), 's' }); } break;
				case 'g': if (bus) { made = true; devs.push_back(Holder{ 0, std::make_shared<Gray>(bus.get(), t, 1, 2, 3, log), 'g' }); } break;
				case 'q': if (bus) { made = true; devs.push_back(Holder{ 0, std::make_shared<Motion>(bus.get(), log), 'q' }); } break;
				case 'X': devs.clear(); husks.clear(); bus.reset(); break;
				}
			}
			catch (const std::exception&) { threw = true; }
			bool failed = w.failed != prev_failed; prev_failed = w.failed;
			bool must = failed && made && (w.failed_what == "open" || w.failed_what == "line request" || w.failed_what == "functions");
			bool may = failed && made && w.failed_what == "close";
			MC_CHECK(threw == must || (threw && may), "'%c' %s though %s", o, threw ? "threw" : "did not throw", failed ? (w.failed_what + " failed").c_str() : "no call failed");
			MC_CHECK(w.open_count() == expected(), "after '%c': %d descriptors are open, and the live objects need %d", o, w.open_count(), expected());
		}
		outcome(hash_str(c.substr(sl)) + w.calls * 977 + w.open_count());
		while (!devs.empty()) devs.pop_back();
		bus.reset(); chip.reset(); // before the lines
	}
	MC_CHECK(w.open_count() == 0, "%d descriptors are left open at the end", w.open_count()); count(TRACES); count(EVAL); count(STATES);
}
static void args3(const std::string& c) { // "A<which>:<n>"
	set_case(c); World w; int n = atoi(c.c_str() + 3); char k = c[1]; count(TRACES); count(EVAL); count(STATES);
	bool threw = false; std::string s = k == 'c' ? std::string(n, 'x') : std::string(k == 'b' ? "/dev/i2c-" : "/dev/gpiochip") + std::string(n, '0');
	try {
		if (k == 'p') { Chip x(s.c_str(), "t"); MC_CHECK(s == x.path(), "the path is not kept"); Chip y(x), z(std::move(x)); MC_CHECK(s == y.path() && s == z.path(), "the path is not copied"); In l(&y, 1); }
		if (k == 'c') { Chip x("/dev/gpiochip0", s.c_str()); MC_CHECK(s == x.consumer(), "the consumer is not kept"); In l(&x, 1); }
		if (k == 'b') { Bus x(s.c_str()); MC_CHECK(s == x.path(), "the path is not kept"); }
		if (k == 'n') switch (n) { case 0: { Chip x((const char*)nullptr, "t"); break; } case 1: { Chip x("/dev/gpiochip0", nullptr); break; } case 2: { In x(nullptr, 1); break; } case 3: { Bus x((const char*)nullptr); break; } case 4: { Gray g(nullptr, Target(1, 1, false), 1, 2, 3); break; } case 5: { Motion m(nullptr); break; } case 6: { Pwm p(nullptr, Target(1, 1, false), 1, 1, 2, 3); break; } case 7: { Sonic x(nullptr, 1, 2); break; } case 8: { Bus b("/dev/i2c-1"); Motor m(nullptr, 1, &b, Target(1, 72000000, false), 50, 1, 2, 3); break; } case 9: { Chip c("/dev/gpiochip0"); Motor m(&c, 1, nullptr, Target(1, 72000000, false), 50, 1, 2, 3); break; } case 10: { Servo s(nullptr, Target(1, 72000000, false), microseconds(1), microseconds(2), std::chrono::milliseconds(1), 50, 1, 2, 3); break; } }
		if (k == 'd') { Chip x(n); MC_CHECK(fmt("/dev/gpiochip%d", n) == x.path(), "the path of chip %d is %s", n, x.path()); Bus b(n); MC_CHECK(fmt("/dev/i2c-%d", n) == b.path(), "the path of bus %d is %s", n, b.path()); }
	}
	catch (const std::logic_error&) { threw = true; }
	bool want = k == 'n' || (k != 'd' && s.size() >= 32);
	MC_CHECK(threw == want, "%s", threw ? "valid arguments were refused" : "invalid arguments were accepted"); MC_CHECK(w.open_count() == 0, "a descriptor is left open");
}

// ---- G04
static void lines4(const std::string& c) { // "l<level>": every level
	set_case(c); World w; unsigned lv = atoi(c.c_str() + 1); Chip chip("/dev/gpiochip0"); Out o(&chip, 4); In i(&chip, 9); count(EVAL); count(TRACES); count(STATES);
	size_t n = w.lines.size(); auto r = o.put_level(lv);
	if (lv <= 1) { MC_CHECK(r == lv && w.lines.size() == n + 1 && w.lines[n].level == (int)lv && w.lines[n].offset == 4, "put_level(%u) returned %u and did not set the line", lv, r); w.level[9] = lv; MC_CHECK(i.get_level() == lv, "get_level() is wrong"); MC_CHECK(i.expect_level(lv, microseconds(5)) == lv, "expect_level() does not see the level"); w.before = [&](const char*) { vnow += 1000; }; uint64_t t = vnow; MC_CHECK(i.expect_level(!lv, microseconds(50)) == abc::gpio_level::invalid, "expect_level() saw a level that never came"); MC_CHECK(vnow - t >= 50000 && vnow - t <= 60000, "expect_level() waited %llu ns instead of 50 us", (unsigned long long)(vnow - t)); }
	else MC_CHECK(r == abc::gpio_level::invalid && w.lines.size() == n, "the invalid level %u was put", lv);
	w.before = nullptr; w.fail_at = w.calls + 1; MC_CHECK(o.put_level(1) == abc::gpio_level::invalid, "a failed put_level() is not reported"); w.fail_at = w.calls + 1; MC_CHECK(i.get_level() == abc::gpio_level::invalid, "a failed get_level() is not reported");
	uint64_t t = vnow; o.put_level(1, std::chrono::milliseconds(7)); MC_CHECK(vnow - t == 7000000, "put_level() for 7 ms took %llu ns", (unsigned long long)(vnow - t));
}
static void words4(const std::string& c) { // "w<high byte>": every word
	set_case(c); World w; int h = atoi(c.c_str() + 1); Bus b("/dev/i2c-1"); count(TRACES); count(STATES);
	for (int lo = 0; lo < 256; lo++) for (int sw = 0; sw < 2; sw++) {
		Target t(0x30, 1000, sw); uint16_t v = (uint16_t)(h << 8 | lo), r = 0; uint8_t by = 0; count(EVAL); auto& m = w.targets[0x30].mem[h];
		MC_CHECK(b.put_word(t, h, v), "put_word() failed"); MC_CHECK(m[0] == (sw ? h : lo) && m[1] == (sw ? lo : h), "the word %04x was sent as %02x %02x to a device %s byte swap", v, m[0], m[1], sw ? "with" : "without");
		MC_CHECK(b.get_word(t, h, r) && r == v, "the word %04x came back as %04x", v, r);
		MC_CHECK(b.put_byte(t, h, lo) && m[0] == lo, "the byte %02x was sent as %02x", lo, m[0]); MC_CHECK(b.get_byte(t, h, by) && by == lo, "the byte %02x came back as %02x", lo, by);
		w.targets[0x30].next = lo; MC_CHECK(b.get_noreg(t, by) && by == lo, "get_noreg() returned %02x instead of %02x", by, lo); w.targets[0x30].next = lo; uint8_t n1 = (uint8_t)(lo + 1); MC_CHECK(b.get_noreg_2(t, r) && r == (sw ? lo << 8 | n1 : n1 << 8 | lo), "get_noreg_2() returned %04x for the bytes %02x %02x", r, lo, n1);
		w.xfers.clear();
	}
}
static void blocks4(const std::string& c) { // "b<capacity or size>"
	set_case(c); World w; size_t n = atoi(c.c_str() + 1); Bus b("/dev/i2c-1"); Target t(0x30, 1000, true); count(TRACES); count(STATES);
	{ std::vector<char> src(n); for (size_t i = 0; i < n; i++) src[i] = (char)(i * 7 + 1); char* p = (char*)malloc(n ? n : 1); if (n) memcpy(p, src.data(), n); bool r = b.put_block(t, 9, p, n); free(p); MC_CHECK(r == (n <= 32), "put_block() of %zu bytes returned %d", n, r); if (r) MC_CHECK(w.targets[0x30].block == std::vector<uint8_t>(src.begin(), src.end()), "put_block() of %zu bytes sent other bytes", n); else MC_CHECK(w.xfers.empty(), "a block of %zu bytes reached the bus", n); }
	std::vector<uint8_t> data(32); for (int i = 0; i < 32; i++) data[i] = (uint8_t)(200 - i); w.targets[0x30].block = data;
	for (int k = 0; k < 256; k++) {
		count(EVAL); w.targets[0x30].block_count = k; char* p = (char*)malloc(n ? n : 1); memset(p, 0x77, n); size_t s = n; bool r = b.get_block(t, 9, p, s);
		bool ok = k <= 32 && (size_t)k <= n; MC_CHECK(r == ok, "get_block() with room for %zu bytes returned %d for a block of %d", n, r, k);
		if (r) { MC_CHECK(s == (size_t)k && !memcmp(p, data.data(), k), "get_block() returned other bytes than the device sent"); for (size_t i = k; i < n; i++) MC_CHECK(p[i] == 0x77, "get_block() wrote beyond the block of %d bytes", k); }
		free(p); w.xfers.clear();
	}
}
static const uint64_t CLOCKS[] = { 72000000, 16000000, 1000000, 32768, 1000, 255, 4, 1, 10000000000ull, 300000000000000ull };
static unsigned word_at(World& w, int reg, bool sw) { auto& m = w.targets[0x14].mem[reg]; return sw ? m[0] << 8 | m[1] : m[1] << 8 | m[0]; }
static void pwm4(const std::string& c) { // "p<clock>:<frequency>:<min>:<max>:<all duties>"
	set_case(c); unsigned long long K, fr, mi, ma; int all; if (sscanf(c.c_str(), "p%llu:%llu:%llu:%llu:%d", &K, &fr, &mi, &ma, &all) != 5) return;
	World w; Bus b("/dev/i2c-1"); bool sw = fr & 1; Target t(0x14, K, sw); std::unique_ptr<Pwm> p; bool threw = false; count(TRACES); count(STATES);
	try { if (mi || ma) p.reset(new Pwm(&b, t, microseconds(mi), microseconds(ma), (uint16_t)fr, 1, 2, 3)); else p.reset(new Pwm(&b, t, (uint16_t)fr, 1, 2, 3)); } catch (const std::exception&) { threw = true; }
	uint64_t P = fr ? K / fr : 0; bool invalid = fr == 0 || mi > ma || P == 0, maybe = P > 0x40000000ull;
	if (threw) { MC_CHECK(invalid || maybe, "valid arguments were refused"); return; }
	MC_CHECK(!invalid, "invalid arguments were accepted");
	uint64_t A = word_at(w, 2, sw) + 1ull, S = word_at(w, 3, sw) + 1ull; count(EVAL);
	MC_CHECK(A * S <= P && A * S + A > P, "the period of %llu ticks is programmed as %llu x %llu", (unsigned long long)P, (unsigned long long)A, (unsigned long long)S);
	MC_CHECK(A * A * 2 >= P, "the resolution of a period of %llu ticks is only %llu steps", (unsigned long long)P, (unsigned long long)A);
	double lo = ma ? (double)mi * K / 1e6 : 0, hi = ma ? (double)ma * K / 1e6 : (double)(A * S); unsigned prev = 0;
	static const int few[] = { 0, 1, 7, 33, 50, 99, 100, 101, 65535 };
	for (int i = 0; i < (all ? 103 : 9); i++) { int d = all ? (i == 102 ? 65535 : i) : few[i]; p->set_duty_cycle((uint16_t)d); unsigned cc = word_at(w, 1, sw); count(TRANS);
		MC_CHECK(cc >= prev || d > 100 || ma, "the pulse gets shorter at duty cycle %d", d); prev = cc;
		if (d == 0) MC_CHECK(cc == 0, "the duty cycle 0 is programmed as %u", cc);
		else if (d >= 100) MC_CHECK(cc == A, "the duty cycle %d is programmed as %u of %llu", d, cc, (unsigned long long)A);
		else if (lo + (hi - lo) * d / 100 < 65000.0 * S) { double ideal = lo + (hi - lo) * d / 100; MC_CHECK(std::abs(cc * (double)S - ideal) <= 3.0 * S, "the duty cycle %d is programmed as a pulse of %g ticks instead of %g (period %llu)", d, cc * (double)S, ideal, (unsigned long long)P); }
	}
	uint64_t t0 = vnow; p->set_duty_cycle(40, std::chrono::milliseconds(12)); MC_CHECK(vnow - t0 == 12000000 && word_at(w, 1, sw) == 0, "a pulse train of 12 ms took %llu ns and left %u", (unsigned long long)(vnow - t0), word_at(w, 1, sw));
	outcome(A * 70000 + S);
}
static void sonic4(const std::string& c) { // "u<max>:<first max>:<poll us>:<busy until>:<echo start>:<width>"
	set_case(c); unsigned long long mx, first, q, busy, a, wd; if (sscanf(c.c_str(), "u%llu:%llu:%llu:%llu:%llu:%llu", &mx, &first, &q, &busy, &a, &wd) != 6) return;
	World w; Chip chip("/dev/gpiochip0"); Sonic u(&chip, 17, 18); count(TRACES); count(STATES); count(EVAL);
	uint64_t t0 = 0; w.input = [&](uint32_t) -> int { vnow += q * 1000; double t = (vnow - t0) / 1000.0; return t < busy || (t >= a && t < a + wd); };
	static bool once = false; if (!once) { once = true; t0 = vnow + 1000000000000ull; u.measure_distance(3); } // the first measurement of the process
	if (first) { busy = 0; t0 = vnow + 1000000000000ull; u.measure_distance(first); }
	size_t n = w.lines.size(); t0 = vnow + 20000; // the trigger takes 20 us
	size_t r = u.measure_distance(mx); double took = (vnow - t0) / 1000.0, timeout = 2.0 * mx / 34300 * 1e6, quantum = 0.01715 * 2 * q + 1;
	MC_CHECK(w.lines.size() == n + 3 && w.lines[n].level == 0 && w.lines[n + 1].level == 1 && w.lines[n + 2].level == 0 && w.lines[n].offset == 17 && w.lines[n + 2].t - w.lines[n + 1].t >= 10000, "the trigger pulse is not low, high for 10 us, low");
	double D = wd * 0.01715; double from = std::max<double>(a, busy);
	MC_CHECK(r <= mx + quantum, "the distance %zu is more than the maximum %llu", r, mx);
	MC_CHECK(took <= timeout + 8 * q + 30, "the measurement took %g us with a timeout of %g us", took, timeout);
	if (busy > a && busy < a + wd) return; // the echo started before it was waited for
	if (from + wd + 6 * q + 2 < timeout && wd > 2 * q && (busy == 0 || busy + 2 * q < a) && a > 2 * q) MC_CHECK(std::abs((double)r - D) <= quantum, "an echo of %llu us is a distance of %g, and %zu was returned", wd, D, r);
	if (from > timeout + 2 * q + 2 || wd == 0 || from + wd > timeout + 6 * q + 2) MC_CHECK(r == mx, "no echo came in time, and the distance %zu instead of %llu was returned", r, mx);
	outcome(r);
}
static void motion4(const std::string& c) { // "m<high byte>": every measurement of every channel; "mc<a>:<b>": calibration; "mf<n>": failing call
	set_case(c); World w; Bus b("/dev/i2c-1"); Motion m(&b); count(TRACES); count(STATES); auto& mem = w.targets[0x68].mem;
	MC_CHECK(mem[0x6b][0] == 0 && mem[0x1c][0] == 0x18 && mem[0x1b][0] == 0x18, "the sensor is not configured for 16 g and 2000 degrees/s");
	static const int R[7] = { 0x3b, 0x3d, 0x3f, 0x43, 0x45, 0x47, 0x41 };
	auto get = [](abc::gpio_smbus_motion_values& v, int i) { double* p[7] = { &v.accel_x, &v.accel_y, &v.accel_z, &v.gyro_x, &v.gyro_y, &v.gyro_z, &v.temperature }; return *p[i]; };
	auto val = [](int i, double x) { return i == 6 ? x / 340 + 36.53 : x * (i < 3 ? 16 : 2000) / 32767; };
	if (c[1] == 'c') {
		int a, bb; sscanf(c.c_str(), "mc%d:%d", &a, &bb); int n = 0, reads[256] = {}; (void)n; w.on_word_read = [&](int, uint8_t r, uint8_t* p) { int k = reads[r]++; int v = k < 5 ? 1234 : k % 2 ? a : bb; p[0] = (uint8_t)(v >> 8); p[1] = (uint8_t)v; };
		m.calibrate(abc::gpio_smbus_motion_channel::all); auto cal = m.calibration(); int want = (a + bb) * 10 / 20; count(EVAL);
		const int16_t got[6] = { cal.accel_x, cal.accel_y, cal.accel_z, cal.gyro_x, cal.gyro_y, cal.gyro_z }; for (int i = 0; i < 6; i++) MC_CHECK(std::abs(got[i] - want) <= 1, "the average of %d and %d is %d, and the calibration of channel %d is %d", a, bb, want, i, got[i]);
		w.on_word_read = nullptr; for (int i = 0; i < 7; i++) { mem[R[i]][0] = (uint8_t)(a >> 8); mem[R[i]][1] = (uint8_t)a; } abc::gpio_smbus_motion_values v; m.get_values(abc::gpio_smbus_motion_channel::all, v);
		for (int i = 0; i < 7; i++) MC_CHECK(std::abs(get(v, i) - val(i, i == 6 ? a : a - got[i])) < 1e-6, "channel %d: the measurement %d with the calibration %d is the value %g", i, a, i == 6 ? 0 : got[i], get(v, i));
		return;
	}
	if (c[1] == 'f') {
		int f = atoi(c.c_str() + 2); for (int i = 0; i < 7; i++) { mem[R[i]][0] = (uint8_t)(i + 1); mem[R[i]][1] = (uint8_t)(i * 3); } abc::gpio_smbus_motion_measurements me; memset(&me, 0x55, sizeof me); count(EVAL);
		{ volatile char junk[512]; for (auto& j : junk) j = 0x66; } w.fail_at = w.calls + f; m.get_measurements(abc::gpio_smbus_motion_channel::all, me); const int16_t got[7] = { me.accel_x, me.accel_y, me.accel_z, me.gyro_x, me.gyro_y, me.gyro_z, me.temperature };
		for (int i = 0; i < 7; i++) { int want = (i + 1) << 8 | i * 3; MC_CHECK(got[i] == (i == f - 1 ? 0 : want), "channel %d is %d after call %d failed", i, got[i], f); } return;
	}
	int h = atoi(c.c_str() + 1);
	for (int lo = 0; lo < 256; lo++) {
		for (int i = 0; i < 7; i++) { mem[R[i]][0] = (uint8_t)h; mem[R[i]][1] = (uint8_t)(lo + i); }
		for (int mask = 0; mask < 128; mask += lo == 3 ? 1 : 127) { abc::gpio_smbus_motion_values v; m.get_values((uint16_t)mask, v); count(EVAL); for (int i = 0; i < 7; i++) { double want = mask >> i & 1 ? val(i, (int16_t)(h << 8 | ((lo + i) & 255))) : 0; MC_CHECK(std::abs(get(v, i) - want) < 1e-6, "channel %d of mask %x: the measurement %04x is the value %g instead of %g", i, mask, h << 8 | ((lo + i) & 255), get(v, i), want); } }
		w.xfers.clear();
	}
}
static void misc4(const std::string& c) { // "x<swap>": grayscale, motor, servo
	set_case(c); World w; bool sw = c[1] == '1'; Bus b("/dev/i2c-1"); Target t(0x14, 72000000, sw); Chip chip("/dev/gpiochip0"); count(TRACES); count(STATES); count(EVAL);
	Gray g(&b, t, 0x10, 0x11, 0x12); uint16_t v[3] = {}; g.get_values(v[0], v[1], v[2]); for (int i = 0; i < 3; i++) { int b0 = 2 * i, b1 = 2 * i + 1, want = sw ? b0 << 8 | b1 : b1 << 8 | b0; MC_CHECK(v[i] == want, "grayscale value %d is %x instead of %x", i, v[i], want); }
	std::string seq; for (auto& x : w.xfers) seq += fmt("%c%02x ", x.read ? 'r' : 'w', x.read ? 0 : x.reg); MC_CHECK(seq == "w10 r00 r00 w11 r00 r00 w12 r00 r00 ", "the grayscale registers are read as %s", seq.c_str());
	Motor m(&chip, 23, &b, t, 50, 0x20, 0x40, 0x41); for (int fwd = 0; fwd < 2; fwd++) { m.set_forward(fwd); MC_CHECK(m.is_forward() == (bool)fwd && w.level[23] == !fwd, "the direction line is %d for forward = %d", w.level[23], fwd); }
	unsigned A = word_at(w, 0x40, sw) + 1; for (int d : { 0, 1, 50, 99, 100, 101, 1000 }) { m.set_duty_cycle((uint16_t)d); unsigned cc = word_at(w, 0x20, sw); int e = std::min(d, 100); MC_CHECK(m.get_duty_cycle() == e, "the duty cycle %d of the motor is reported as %d", d, m.get_duty_cycle()); MC_CHECK(std::abs((double)cc - A * e / 100.0) <= 2, "the duty cycle %d of the motor is programmed as %u of %u", d, cc, A); }
	Motor m2(std::move(m)); m2.set_forward(false); MC_CHECK(w.level[23] == 1, "the moved motor does not reach its line");
	Servo s(&b, t, microseconds(500), microseconds(2500), std::chrono::milliseconds(250), 50, 0x21, 0x40, 0x41); std::vector<unsigned> ccs; uint64_t t0 = vnow; size_t n = w.xfers.size(); s.set_duty_cycle(50); MC_CHECK(vnow - t0 == 250000000, "the servo was driven for %llu ns", (unsigned long long)(vnow - t0));
	MC_CHECK(w.xfers.size() == n + 2 && w.xfers[n].reg == 0x21, "the servo is not driven and released"); unsigned cc = sw ? w.xfers[n].data[0] << 8 | w.xfers[n].data[1] : w.xfers[n].data[1] << 8 | w.xfers[n].data[0]; double us = cc * 20000.0 / A; MC_CHECK(std::abs(us - 1500) < 45, "the servo is driven by pulses of %g us instead of 1500", us); MC_CHECK(word_at(w, 0x21, sw) == 0, "the servo is not released");
}
static void run_case(const std::string& c) { if (G.prop == "G03") { if (c[0] == 'A') args3(c); else run3(c); return; } switch (c[0]) { case 'l': lines4(c); break; case 'w': words4(c); break; case 'b': blocks4(c); break; case 'p': pwm4(c); break; case 'u': sonic4(c); break; case 'm': motion4(c); break; case 'x': misc4(c); break; } }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(20); G.run_case = run_case; maybe_replay(); bool T = G.thorough;
	if (G.prop == "G03") {
		int depth = T ? 5 : 4, N = strlen(OPS3); g_rule = "every sequence of the operations, with every device call of it failing once";
		cover("operations", OPS3); cover("depth", (uint64_t)depth);
		std::vector<std::string> as; for (char k : { 'p', 'c', 'b' }) for (int n = 0; n < 64; n++) as.push_back(fmt("A%c:%d", k, n)); for (int n = 0; n <= 10; n++) as.push_back(fmt("An:%d", n)); for (int n : { 0, 1, 9, 10, 1000, 2147483647 }) as.push_back(fmt("Ad:%d", n));
		run_tasks(as.size(), [&](uint64_t i) { args3(as[i]); });
		uint64_t total = 1; for (int i = 0; i < depth; i++) total *= N;
		run_tasks(total, [&](uint64_t i) {
			std::string s; bool chip = false, bus = false; for (uint64_t k = i, d = 0; d < (uint64_t)depth; d++, k /= N) s += OPS3[k % N];
			for (char o : s) { if (o == 'c') { if (chip) return; chip = true; } if (o == 'b') { if (bus) return; bus = true; } if (strchr("iIlouM", o) && !chip) return; if (strchr("sgqM", o) && !bus) return; } // such an operation does nothing
			run3(s + "/0"); run3(s + "/0L");
			for (int f = 1; f <= 40; f++) { uint64_t before = G.S->cnt[FAULTS]; run3(s + fmt("/%d", f)); if (G.S->cnt[FAULTS] == before) break; run3(s + fmt("/%dL", f)); }
		}, T ? 780 : 0, 64);
	} else {
		g_rule = "every value of the stated families";
		std::vector<std::string> cs; for (int l = 0; l < 6; l++) cs.push_back(fmt("l%d", l)); cs.push_back("l65536"); cs.push_back("x0"); cs.push_back("x1");
		for (int h = 0; h < 256; h++) { cs.push_back(fmt("w%d", h)); cs.push_back(fmt("m%d", h)); } for (int n = 0; n <= 300; n++) cs.push_back(fmt("b%d", n));
		for (int f = 1; f <= 7; f++) cs.push_back(fmt("mf%d", f)); static const int V[] = { 0, 1, -1, 100, -100, 1638, 1639, -1639, 16384, 32767, -32768, -32767, 255, 256, -256 }; for (int a : V) for (int b : V) cs.push_back(fmt("mc%d:%d", a, b));
		for (uint64_t K : CLOCKS) for (int f = 0; f < 65536; f += (K == 72000000 || T) ? 1 : f < 300 ? 1 : 97) cs.push_back(fmt("p%llu:%d:0:0:%d", (unsigned long long)K, f, f < 64 || T || f % 1024 == 50));
		for (uint64_t K : { 72000000ull, 1000000ull }) for (int f : { 1, 10, 50, 60, 100, 300, 333, 1000 }) for (int a : { 0, 1, 100, 500, 544, 1000, 2000 }) for (int b : { 0, 1, 600, 1000, 2400, 2500, 3000 }) if (a || b) cs.push_back(fmt("p%llu:%d:%d:%d:1", (unsigned long long)K, f, a, b));
		for (int mx : { 1, 2, 5, 20, 100, 400 }) {
			int to = 2 * mx * 1000000 / 34300;
			for (int q : { 1, 7, 60 }) {
				int na = T ? 40 : 9, nw = T ? 100 : 23; if (q == 1 && to > 2000) { na /= 3; nw /= 4; }
				for (int first : { 0, 1, 1000 }) for (int busy : { 0, 30, 3000 }) { if (first && (busy || q != 7)) continue; for (int a = 10; a < to * 3 / 2 + 400; a += std::max(1, to / na)) for (int wd = 0; wd < to * 3 / 2 + 400; wd += std::max(1, to / nw)) cs.push_back(fmt("u%d:%d:%d:%d:%d:%d", mx, first, q, busy, a, wd)); }
				cs.push_back(fmt("u%d:0:%d:0:100000000:1", mx, q)); cs.push_back(fmt("u%d:0:%d:0:50:100000000", mx, q)); cs.push_back(fmt("u%d:0:%d:100000000:50:10", mx, q));
			}
		}
		if (const char* o = getenv("MC_ONLY")) { std::vector<std::string> k; for (auto& c : cs) if (c[0] == *o) k.push_back(c); cs = k; }
		cover("cases", (uint64_t)cs.size());
		run_tasks(cs.size(), [&](uint64_t i) { run_case(cs[i]); }, T ? 780 : 0, 32);
	}
	done();
}
