// A01, B01, L01..L03, T01: character helpers, memory stream buffers, lines and logs, timestamps - exhaustively over bounded families.
#include "mc.h"
#include "ascii.h"
#include "buffer_streambuf.h"
#include "table.h"
#include "timestamp.h"
#include "log.h"
#include <memory>
#include <functional>
#include <sstream>
#include <algorithm>
using namespace mc;
template <class C> struct MemT { C* p; size_t n; MemT(size_t k) : p((C*)malloc(k ? k * sizeof(C) : 1)), n(k) { for (size_t i = 0; i < k; i++) p[i] = (C)0x7e; } ~MemT() { free(p); } };
using Mem = MemT<char>;
static void fin(uint64_t h) { count(EVAL); count(STATES); count(TRACES); count(C7); outcome(h); }
static std::vector<std::string> split(const std::string& c) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = c.find('|', p); f.push_back(c.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return f; p = q + 1; } }
// ---------------------------------------------------------------- A01
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void chars(int v) {
	namespace a = abc::ascii; unsigned char u = (unsigned char)v; char c = (char)v; bool asc = u < 128, d = asc && u >= '0' && u <= '9', U = asc && u >= 'A' && u <= 'Z', l = asc && u >= 'a' && u <= 'z', s = u == ' ' || u == 9, vis = u > 32 && u < 127;
	#define IS(f, e) MC_CHECK(a::f(c) == (e), #f " of character %d is %d", v, (int)a::f(c))
	IS(is_ascii, asc); IS(is_digit, d); IS(is_hex, d || (u >= 'A' && u <= 'F') || (u >= 'a' && u <= 'f')); IS(is_upperalpha, U); IS(is_loweralpha, l); IS(is_alpha, U || l); IS(is_space, s); IS(is_control, u < 32 || u == 127); IS(is_stdprint, u >= 32 && u < 127); IS(is_abcprint, vis); IS(is_abcprint_or_space, vis || s);
	IS(to_upper, l ? (char)(u - 32) : c); IS(to_lower, U ? (char)(u + 32) : c); if (a::is_hex(c)) IS(hex, d ? u - '0' : (u | 32) - 'a' + 10);
	bool sep = s || (u && strchr("()<>@,;:\\\"/[]?={}", u)); IS(http::is_separator, sep); IS(http::is_token, vis && !sep); IS(json::is_space, s || u == 13 || u == 10); if (asc && u >= 32) { IS(json::is_valid, true); IS(json::is_string_content, u != '"' && u != '\\'); } if (u == '"' || u == '\\') IS(json::is_string_content, false);
	for (int x = 0; x < 128; x++) for (int y : { x, x + 1, 127, 0 }) if (y < 128 && asc) MC_CHECK(a::is_between(c, (char)x, (char)y) == (u >= x && u <= y), "is_between(%d,%d,%d)", v, x, y);
	count(TRANS, 550); fin(v); }
static bool ref_eq(const std::string& x, const std::string& y, bool cs, size_t n) { // x and y end at their terminator or at n
	std::string a = x.substr(0, n), b = y.substr(0, n); if (!cs) { for (auto& c : a) c = lo(c); for (auto& c : b) c = lo(c); } return a == b; }
static void compare(const std::string& x, const std::string& y) {
	namespace a = abc::ascii; Mem p(x.size() + 1), q(y.size() + 1); memcpy(p.p, x.c_str(), p.n); memcpy(q.p, y.c_str(), q.n);
	MC_CHECK(a::are_equal(p.p, q.p) == ref_eq(x, y, true, -1), "are_equal('%s','%s')", show(x).c_str(), show(y).c_str()); MC_CHECK(a::are_equal_i(p.p, q.p) == ref_eq(x, y, false, -1), "are_equal_i('%s','%s')", show(x).c_str(), show(y).c_str());
	for (size_t n = 0; n < 7; n++) { bool cs = a::are_equal_n(p.p, q.p, n), ci = a::are_equal_i_n(p.p, q.p, n); MC_CHECK(cs == ref_eq(x, y, true, n), "are_equal_n('%s','%s',%zu) is %d", show(x).c_str(), show(y).c_str(), n, cs); MC_CHECK(ci == ref_eq(x, y, false, n), "are_equal_i_n('%s','%s',%zu) is %d", show(x).c_str(), show(y).c_str(), n, ci); }
	// whole up to a count, without terminators
	size_t n = std::min(x.size(), y.size()); Mem r(n), t(n); memcpy(r.p, x.data(), n); memcpy(t.p, y.data(), n); MC_CHECK(a::are_equal_n(r.p, t.p, n) == ref_eq(x, y, true, n), "are_equal_n of unterminated '%s','%s',%zu", show(x).c_str(), show(y).c_str(), n); MC_CHECK(a::are_equal_i_n(r.p, t.p, n) == ref_eq(x, y, false, n), "are_equal_i_n of unterminated '%s','%s',%zu", show(x).c_str(), show(y).c_str(), n);
	count(TRANS, 18); fin(hash_str(x) * 31 + hash_str(y)); }
static void nulls() { namespace a = abc::ascii; MC_CHECK(a::are_equal(nullptr, nullptr) && a::are_equal_i(nullptr, nullptr) && a::are_equal_n(nullptr, nullptr, 3) && a::are_equal_i_n(nullptr, nullptr, 3), "two absent strings differ"); for (const char* s : { "", "a" }) MC_CHECK(!a::are_equal(nullptr, s) && !a::are_equal(s, nullptr) && !a::are_equal_i(nullptr, s) && !a::are_equal_i(s, nullptr), "an absent string equals '%s'", s); }
// ---------------------------------------------------------------- B01: ops g peek, b bump, r/R read 2/3 at once, u unget, p put, w/W write 2/3 at once, M move
template <class C> static void buffers(int gn, int pn, int form, const std::string& ops) {
	using SB = abc::basic_buffer_streambuf<C>; using T = typename SB::traits_type; int gap = form == 1 ? 2 : 0; MemT<C> g(gn + 2 * gap), p(pn + 2 * gap); for (size_t i = 0; i < g.n; i++) g.p[i] = (C)(0xfe + i); // contains the value 255
	C* gb = gn < 0 ? nullptr : g.p; std::unique_ptr<SB> s; if (form == 1) s.reset(new SB(g.p, gap, gap + gn, p.p, gap, gap + pn)); else if (form == 2) s.reset(new SB(nullptr, nullptr, p.p, p.p + pn)); else if (form == 3) s.reset(new SB(g.p, g.p + gn, nullptr, nullptr)); else s.reset(new SB(gb, gb + gn, p.p, p.p + pn));
	int G_ = form == 2 ? 0 : gn, P_ = form == 3 ? 0 : pn, gi = 0, pi = 0, next = 1; std::vector<C> in(g.p + gap, g.p + gap + G_), out;
	for (size_t k = 0; k < ops.size(); k++) { char o = ops[k]; const char* w = ops.c_str(); count(TRANS);
		switch (o) {
		case 'g': { auto c = s->sgetc(); if (gi < G_) MC_CHECK(T::eq_int_type(c, T::to_int_type(in[gi])), "%s step %zu: reading yields %d, expected %d", w, k, (int)c, (int)T::to_int_type(in[gi])); else MC_CHECK(T::eq_int_type(c, T::eof()), "%s step %zu: reading at the end yields %d", w, k, (int)c); break; }
		case 'b': { auto c = s->sbumpc(); if (gi < G_) { MC_CHECK(T::eq_int_type(c, T::to_int_type(in[gi])), "%s step %zu: reading yields %d, expected %d", w, k, (int)c, (int)T::to_int_type(in[gi])); gi++; } else MC_CHECK(T::eq_int_type(c, T::eof()), "%s step %zu: reading at the end yields %d", w, k, (int)c); break; }
		case 'r': case 'R': { int n = o == 'r' ? 2 : 3; MemT<C> b(n); int got = (int)s->sgetn(b.p, n), e = std::min(n, G_ - gi); MC_CHECK(got == e, "%s step %zu: %d of %d characters are read, expected %d", w, k, got, n, e); for (int i = 0; i < e; i++) MC_CHECK(b.p[i] == in[gi + i], "%s step %zu: wrong characters are read", w, k); gi += e; break; }
		case 'u': { auto c = s->sungetc(); if (gi > 0) { MC_CHECK(!T::eq_int_type(c, T::eof()), "%s step %zu: stepping back fails", w, k); gi--; } else MC_CHECK(T::eq_int_type(c, T::eof()), "%s step %zu: stepping back before the beginning", w, k); break; }
		case 'p': { C c = next == 3 ? (C)0xff : (C)next; next++; auto r = s->sputc(c); if (pi < P_) { MC_CHECK(!T::eq_int_type(r, T::eof()) || c == (C)0xff, "%s step %zu: writing fails", w, k); out.push_back(c); pi++; } else MC_CHECK(T::eq_int_type(r, T::eof()), "%s step %zu: writing past the end is accepted", w, k); break; }
		case 'w': case 'W': { int n = o == 'w' ? 2 : 3; MemT<C> b(n); for (int i = 0; i < n; i++) b.p[i] = (C)(next + i); next += n; int got = (int)s->sputn(b.p, n), e = std::min(n, P_ - pi); MC_CHECK(got == e, "%s step %zu: %d of %d characters are written, expected %d", w, k, got, n, e); for (int i = 0; i < e; i++) out.push_back(b.p[i]); pi += e; break; }
		case 'M': { std::unique_ptr<SB> t(new SB(std::move(*s))); s = std::move(t); break; }
		}
		for (int i = 0; i < P_; i++) { C e = i < pi ? out[i] : (C)0x7e; MC_CHECK(p.p[gap + i] == e, "%s step %zu: output position %d holds %d, expected %d", w, k, i, (int)p.p[gap + i], (int)e); } for (int i = 0; i < gap; i++) MC_CHECK(p.p[i] == (C)0x7e && p.p[gap + pn + i] == (C)0x7e, "%s step %zu: memory outside of the output window is written", w, k); for (size_t i = 0; i < g.n; i++) MC_CHECK(g.p[i] == (C)(0xfe + i), "%s step %zu: the input window is written", w, k);
	}
	fin(hash_str(ops) + gn * 100 + pn * 10 + form); }
// moving the streams themselves keeps position, state and count
struct XI : abc::istream { XI(std::streambuf* b) : abc::istream(b) {} XI(XI&& o) : abc::istream(std::move(o)) {} int get() { return std::istream::get(); } void gc(size_t n) { set_gcount(n); } void sb() { set_bad(); } void sf() { set_fail(); } void rs() { reset(); } };
struct XO : abc::ostream { XO(std::streambuf* b) : abc::ostream(b) {} XO(XO&& o) : abc::ostream(std::move(o)) {} void put(char c) { std::ostream::put(c); } void sb() { set_bad(); } void sf() { set_fail(); } };
static void moves(int n, int state) { std::string t = "abcdefgh"; std::stringbuf b(t); std::unique_ptr<XI> s(new XI(&b)); for (int i = 0; i < n; i++) s->get(); s->gc(n * 7); if (state == 1) s->sb(); if (state == 2) s->sf(); bool e = s->eof(), f = s->fail(), d = s->bad(); XI m(std::move(*s)); s.reset(); MC_CHECK(m.eof() == e && m.fail() == f && m.bad() == d, "moving an input stream changes its state from eof %d fail %d bad %d to %d %d %d", e, f, d, m.eof(), m.fail(), m.bad()); MC_CHECK(m.gcount() == (size_t)n * 7, "moving changes gcount"); MC_CHECK(m.rdbuf() == &b, "moving loses the buffer"); if (!state && n < 8) MC_CHECK(m.get() == t[n], "moving changes the position"); m.rs(); MC_CHECK(m.good() && m.gcount() == 0, "reset does not clear the state");
	std::stringbuf c; std::unique_ptr<XO> o(new XO(&c)); for (int i = 0; i < n; i++) o->put(t[i % 8]); if (state == 1) o->sb(); if (state == 2) o->sf(); f = o->fail(); d = o->bad(); XO q(std::move(*o)); o.reset(); MC_CHECK(q.fail() == f && q.bad() == d && q.rdbuf() == &c, "moving an output stream changes its state"); if (!state) { q.put('!'); q.flush(); std::string x; for (int i = 0; i < n; i++) x += t[i % 8]; MC_CHECK(c.str() == x + "!", "moving an output stream loses output"); } fin(n * 3 + state); }
// ---------------------------------------------------------------- lines
struct Dest : std::streambuf { std::string cur; std::vector<std::string> pieces; int mode = 0; int_type overflow(int_type c) override { if (mode == 1) throw 1; if (mode == 2) return traits_type::eof(); if (c != traits_type::eof()) cur += (char)c; return 0; } std::streamsize xsputn(const char* s, std::streamsize n) override { if (mode == 1) throw 1; if (mode == 2) return 0; cur.append(s, n); return n; } int sync() override { pieces.push_back(cur); cur.clear(); return 0; } std::vector<std::string> take() { if (!cur.empty()) { pieces.push_back(cur); cur.clear(); } std::vector<std::string> r; for (auto& p : pieces) if (!p.empty()) r.push_back(p); pieces.clear(); return r; } };
static const std::chrono::nanoseconds CLK(1234567890123456789ll);
struct Clk { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = false; static time_point now() noexcept { return time_point(CLK); } };
static std::string val(int kind, int n) { // the text of one value
	switch (kind) { case 0: return std::string(n, 'a' + n % 26); case 1: return fmt("%d", n * 37 - 5); case 2: return fmt("<%5d>", n); case 3: return ""; default: return "%" + std::string(n, 'z'); } }
static bool cut_ok(const std::string& got, const std::string& ideal, size_t size) { if (got.size() > size || ideal.compare(0, got.size(), got) != 0) return false; return got.size() == ideal.size() || got.size() + 1 >= size; }
// ops: [kind][length letter] values; F flush, G get, M move
template <size_t S> static void line(const std::string& ops, int mode) {
	using L = abc::line_ostream<S>; Dest d; d.mode = mode; abc::table_ostream t(&d); std::string ideal; std::vector<std::string> want; { std::unique_ptr<L> l(new L(&t));
		for (size_t i = 0; i < ops.size(); i++) { char o = ops[i]; count(TRANS); if (o == 'F') { l->flush(); want.push_back(ideal); ideal.clear(); } else if (o == 'G') { std::string g = l->get(); MC_CHECK(cut_ok(g, ideal, S), "the line of capacity %zu holds '%s', expected '%s'", S, show(g).c_str(), show(ideal).c_str()); } else if (o == 'M') { std::unique_ptr<L> m(new L(std::move(*l))); l = std::move(m); }
			else { int k = o - '0', n = (unsigned char)ops[++i] - 32; std::string v = val(k, n); ideal += v; if (k == 0) l->put_any("%s", v.c_str()); else if (k == 1) l->put_any("%d", n * 37 - 5); else if (k == 2) l->put_any("<%5d>", n); else if (k == 3) { wchar_t w[2] = { 0x100, 0 }; l->put_any("%ls", w); } else l->put_any(("%%" + std::string(n, 'z')).c_str()); } }
		want.push_back(ideal); }
	if (mode) { fin(1); return; }
	auto got = d.take(); MC_CHECK(got.size() == want.size(), "%zu lines arrive, expected %zu", got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) { const std::string& g = got[i]; MC_CHECK(!g.empty() && g.back() == '\n' && g.find('\n') == g.size() - 1, "a line is not ended by exactly one newline: '%s'", show(g).c_str()); MC_CHECK(cut_ok(g.substr(0, g.size() - 1), want[i], S), "the line of capacity %zu is '%s', expected '%s'", S, show(g).c_str(), show(want[i]).c_str()); outcome(hash_str(g)); } fin(S); }
static void line_any(int s, const std::string& ops, int mode) { switch (s) { case 1: line<1>(ops, mode); break; case 2: line<2>(ops, mode); break; case 3: line<3>(ops, mode); break; case 5: line<5>(ops, mode); break; case 8: line<8>(ops, mode); break; case 16: line<16>(ops, mode); break; case 64: line<64>(ops, mode); break; default: line<100>(ops, mode); } }
// log entries
template <class Line, size_t S> static void entry(int sev, int n, int cat, unsigned long long tag, bool bin) {
	using Log = abc::log_ostream<Line, abc::log_filter>; Dest d; Log log(&d, nullptr); std::string msg; for (int i = 0; i < n; i++) msg += (char)('!' + i % 90); if (bin) log.put_binary(cat, sev, tag, msg.data(), msg.size()); else log.put_any(cat, sev, tag, "%s", msg.c_str()); auto got = d.take();
	if (!bin) { MC_CHECK(got.size() == 1, "one entry becomes %zu lines", got.size()); const std::string& g = got[0]; MC_CHECK(g.back() == '\n' && std::count(g.begin(), g.end(), '\n') == 1, "the entry is not ended by exactly one newline"); MC_CHECK(g.size() <= S + 1, "the entry takes %zu characters in a line of %zu", g.size(), S); Dest e; { Log lo(&e, nullptr); lo.put_any(cat, sev, tag, "%s", ""); } auto base = e.take(); std::string pre = base[0].substr(0, base[0].size() - 1); if (pre.size() + msg.size() < S) MC_CHECK(g == pre + msg + "\n", "the entry is '%s', expected '%s'", show(g).c_str(), show(pre + msg).c_str()); else MC_CHECK(cut_ok(g.substr(0, g.size() - 1), pre + msg, S), "the entry is cut wrongly"); if (!std::is_same<Line, abc::test_line_ostream<S, Clk>>::value && S > 200) { MC_CHECK(pre.find(fmt("%4.4x", cat)) != std::string::npos && pre.find(fmt("%llx", tag)) != std::string::npos, "category or tag are missing in '%s'", pre.c_str()); } if (S > 200) MC_CHECK(pre.find("2009") != std::string::npos && pre.find("23:31:30.123") != std::string::npos, "the time is missing in '%s'", pre.c_str()); }
	else { size_t bytes = 0; for (auto& g : got) { MC_CHECK(g.back() == '\n' && std::count(g.begin(), g.end(), '\n') == 1, "a dump line is not ended by exactly one newline"); (void)bytes; } }
	count(TRANS); fin(sev * 1000 + n); }
// L03
static void parse_dump(const std::string& l, std::string& bytes, size_t expect_off) { // the last 72 characters of a line
	MC_CHECK(l.size() >= 72, "a dump line of %zu characters: '%s'", l.size(), show(l).c_str()); std::string s = l.substr(l.size() - 72); MC_CHECK(s.size() > 5 && s[4] == ':', "a line without dump: '%s'", show(l).c_str()); size_t off = strtoul(s.substr(0, 4).c_str(), nullptr, 16); MC_CHECK(off == (expect_off & 0xffff), "the offset is %zx, expected %zx", off, expect_off); size_t n = 0; bool end = false; std::string got;
	for (int i = 0; i < 16; i++) { size_t c = 6 + i * 3 + (i >= 8 ? 1 : 0); std::string h = s.substr(c, 2); if (h == "  ") { end = true; continue; } MC_CHECK(!end && isxdigit(h[0]) && isxdigit(h[1]), "malformed dump '%s'", show(s).c_str()); got += (char)strtol(h.c_str(), nullptr, 16); n++; }
	MC_CHECK(n > 0, "a dump line without bytes: '%s'", show(l).c_str()); for (int i = 0; i < 16; i++) { char c = s[56 + i]; if (i < (int)n) { unsigned char b = got[i]; MC_CHECK(c == (b >= 32 && b < 127 ? (char)b : '.'), "byte %02x is shown as '%c'", b, c); } else MC_CHECK(c == ' ', "text '%c' without a byte", c); } bytes += got; count(TRANS); }
static void dump(const std::string& data, int how) {
	Mem m(data.size()); memcpy(m.p, data.data(), data.size()); std::string bytes; Dest d; size_t lines = 0;
	if (how == 0) { abc::table_ostream t(&d); abc::line_ostream<100> l(&t); size_t off = 0; bool more = !data.empty(); while (more) { MC_CHECK(++lines < data.size() + 3, "the dump does not end"); more = l.put_binary(m.p, m.n, off); if (more) l.flush(); } }
	else if (how == 1) { abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter> log(&d, nullptr); log.put_binary(1, 1, 1, m.p, m.n); } else if (how == 2) { abc::log_ostream<abc::diag_line_ostream<>, abc::log_filter> log(&d, nullptr); log.put_binary(1, 1, 1, m.p, m.n); } else { abc::log_ostream<abc::test_line_ostream<>, abc::log_filter> log(&d, nullptr); log.put_binary(1, 1, 1, m.p, m.n); }
	size_t k = 0; for (auto& g : d.take()) { MC_CHECK(g.back() == '\n' && std::count(g.begin(), g.end(), '\n') == 1, "a dump line is not ended by exactly one newline"); if (data.empty()) continue; parse_dump(g.substr(0, g.size() - 1), bytes, 16 * k++); } MC_CHECK(bytes == data, "the dump shows %zu bytes, expected %zu%s", bytes.size(), data.size(), bytes.size() == data.size() ? " (different)" : ""); fin(hash_str(data) + how); }
// ---------------------------------------------------------------- L02
template <class Line> static void filt(int level0, int level1, int sev, int cat) { using Log = abc::log_ostream<Line, abc::log_filter>; Dest d; abc::log_filter f(level0); Log log(&d, &f); auto probe = [&](int level) { for (int k = 0; k < 4; k++) { if (k == 0) log.put_any(cat, sev, 7, "x"); else if (k == 1) log.put_binary(cat, sev, 7, "abc", 3); else if (k == 2) log.put_blank_line(cat, sev); else { auto call = [&](const char* f, ...) { va_list v; va_start(v, f); log.put_anyv(cat, sev, 7, f, v); va_end(v); }; call("y%d", 1); } auto g = d.take(); bool e = sev <= level; MC_CHECK(!g.empty() == e, "an entry of severity %d (kind %d) %s a filter of level %d", sev, k, e ? "is stopped by" : "passes", level); MC_CHECK(g.size() <= 1, "%zu lines", g.size()); count(TRANS); } };
	MC_CHECK(f.is_enabled(cat, sev) == (sev <= level0), "is_enabled"); probe(level0); MC_CHECK(f.min_severity() == level0, "the level is %d", f.min_severity()); MC_CHECK(f.min_severity(level1) == level0 && f.min_severity() == level1, "changing the level"); MC_CHECK(log.filter() == &f, "filter()"); probe(level1); fin(level0 * 256 + level1); }
template <class Line> static void nofilt(int sev, int cat) { abc::log_ostream<Line, abc::log_filter> log(new Dest, nullptr); Dest* d = (Dest*)log.rdbuf(); log.put_any(cat, sev, 7, "x"); MC_CHECK(d->take().size() == 1, "without a filter an entry of severity %d is lost", sev); log.put_binary(cat, sev, 7, "x", 1); MC_CHECK(d->take().size() == 1, "without a filter a dump of severity %d is lost", sev); log.put_blank_line(cat, sev); MC_CHECK(d->take().size() == 1, "without a filter a blank line of severity %d is lost", sev); delete d; fin(sev); }
// ---------------------------------------------------------------- T01
struct Date { int y, m, d; };
static bool leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
static Date civil(long days) { Date t{ 1970, 1, 1 }; long y4 = days / 146097; t.y += 400 * y4; days -= y4 * 146097; for (;;) { int n = leap(t.y) ? 366 : 365; if (days < n) break; days -= n; t.y++; } for (;;) { int n = ML[t.m - 1] + (t.m == 2 && leap(t.y)); if (days < n) break; days -= n; t.m++; } t.d = (int)days + 1; return t; }
template <class C> static void ts_check(const abc::timestamp<C>& t, long day, long long ns) { static thread_local long pd = -1; static thread_local Date pc; if (pd != day) { pc = civil(day); pd = day; } MC_CHECK(t.year() == pc.y && t.month() == pc.m && t.day() == pc.d, "day %ld is %d-%02d-%02d, expected %d-%02d-%02d", day, t.year(), t.month(), t.day(), pc.y, pc.m, pc.d); long long s = ns / 1000000000, f = ns % 1000000000; MC_CHECK(t.hours() == s / 3600 && t.minutes() == s / 60 % 60 && t.seconds() == s % 60, "%lld ns of a day are %d:%d:%d", ns, t.hours(), t.minutes(), t.seconds()); MC_CHECK(t.milliseconds() == f / 1000000 && t.microseconds() == f / 1000 && t.nanoseconds() == f, "%lld ns of a day have fractions %d %d %d", ns, t.milliseconds(), t.microseconds(), t.nanoseconds()); count(TRANS); }
static constexpr long long DAY = 86400ll * 1000000000;
using TP = std::chrono::time_point<Clk>;
static void day_case(long day, long day2) { // full time points of one day; compared with those of another
	for (long long ns : { 0ll, 1ll, 999ll, 1000ll, 999999999ll, 1000000000ll, 43200ll * 1000000000 - 1, DAY - 1000000000, DAY - 1 }) { if (day == 106751 && ns > 85636854775807ll) continue; TP p(std::chrono::nanoseconds(day * DAY + ns)); abc::timestamp<Clk> t(p); ts_check(t, day, ns); MC_CHECK(t.time_since_epoch() == p.time_since_epoch(), "the time point changes"); abc::timestamp<Clk> u(nullptr); u.reset(p); ts_check(u, day, ns); MC_CHECK(t == u && !(t != u) && t <= u && t >= u && !(t < u) && !(t > u), "equal timestamps differ"); abc::timestamp<Clk> v(nullptr); v.reset(day * DAY + ns); ts_check(v, day, ns); MC_CHECK(v == t, "equal timestamps differ"); abc::timestamp<Clk> w(nullptr); w.reset_date(day); w.reset_time(ns); ts_check(w, day, ns); MC_CHECK(w == t, "equal timestamps differ");
		for (long long n2 : { 0ll, 1ll, ns, ns + 1, DAY - 1 }) for (long d2 : { day2, day }) { if (d2 >= 106751 || d2 < 0 || n2 >= DAY) continue; abc::timestamp<Clk> x(TP(std::chrono::nanoseconds(d2 * DAY + n2))); long long a = day * DAY + ns, b = d2 * DAY + n2; MC_CHECK((t == x) == (a == b) && (t != x) == (a != b) && (t < x) == (a < b) && (t <= x) == (a <= b) && (t > x) == (a > b) && (t >= x) == (a >= b), "comparison of day %ld ns %lld with day %ld ns %lld is wrong", day, ns, d2, n2); } }
	{ using S = std::chrono::system_clock; std::chrono::time_point<S> p(std::chrono::duration_cast<S::duration>(std::chrono::nanoseconds(day * DAY + 5000))); abc::timestamp<S> t(p); ts_check(t, day, 5000); }
	fin(day); }
static std::string longdata(size_t n) { std::string d; for (size_t i = 0; i < n; i++) d += (char)(i ^ (i >> 8)); return d; }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22); g_rule = "a state is one input or one sequence of calls, every one of a family is executed";
	auto bufs = [](const std::vector<std::string>& f) { if (f[1] == "c") buffers<char>(atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()), f[5]); else buffers<wchar_t>(atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str()), f[5]); };
	using DL_ = abc::debug_line_ostream<512, Clk>; using GL = abc::diag_line_ostream<512, Clk>; using TL = abc::test_line_ostream<512, Clk>; using DS = abc::debug_line_ostream<64, Clk>; using GS = abc::diag_line_ostream<64, Clk>; using TS = abc::test_line_ostream<64, Clk>;
	auto entries = [](int k, int sev, int n, int cat, unsigned long long tag, bool bin) { switch (k) { case 0: entry<DL_, 512>(sev, n, cat, tag, bin); break; case 1: entry<GL, 512>(sev, n, cat, tag, bin); break; case 2: entry<TL, 512>(sev, n, cat, tag, bin); break; case 3: entry<DS, 64>(sev, n, cat, tag, bin); break; case 4: entry<GS, 64>(sev, n, cat, tag, bin); break; default: entry<TS, 64>(sev, n, cat, tag, bin); } };
	auto filts = [](int k, int a, int b, int s, int c) { switch (k) { case 0: filt<abc::debug_line_ostream<>>(a, b, s, c); break; case 1: filt<abc::diag_line_ostream<>>(a, b, s, c); break; default: filt<abc::test_line_ostream<>>(a, b, s, c); } };
	auto nofilts = [](int k, int s, int c) { switch (k) { case 0: nofilt<abc::debug_line_ostream<>>(s, c); break; case 1: nofilt<abc::diag_line_ostream<>>(s, c); break; default: nofilt<abc::test_line_ostream<>>(s, c); } };
	G.run_case = [&](const std::string& c) { auto f = split(c); auto N = [&](int i) { return atoi(f[i].c_str()); }; if (f[0] == "char") chars(N(1)); else if (f[0] == "cmp") compare(unhex(f[1]), unhex(f[2])); else if (f[0] == "null") nulls(); else if (f[0] == "buf") bufs(f); else if (f[0] == "move") moves(N(1), N(2)); else if (f[0] == "line") line_any(N(1), unhex(f[2]), N(3)); else if (f[0] == "entry") entries(N(1), N(2), N(3), N(4), strtoull(f[5].c_str(), nullptr, 10), N(6)); else if (f[0] == "dump") dump(unhex(f[2]), N(1)); else if (f[0] == "long") dump(longdata(N(1)), 0); else if (f[0] == "filt") filts(N(1), N(2), N(3), N(4), N(5)); else if (f[0] == "nofilt") nofilts(N(1), N(2), N(3)); else if (f[0] == "day") day_case(atol(f[1].c_str()), atol(f[2].c_str())); else if (f[0] == "date") { abc::timestamp<Clk> t(nullptr); t.reset_date(atol(f[1].c_str())); ts_check(t, atol(f[1].c_str()), 0); } else { abc::timestamp<Clk> t(nullptr); long long n = atoll(f[1].c_str()); t.reset_time(n); ts_check(t, 0, n); } };
	maybe_replay(); bool T = G.thorough; const std::string& P = G.prop; double DL = T ? 800 : 0;
	if (P == "A01") {
		run_tasks(257, [&](uint64_t v) { if (v == 256) { set_case("null"); nulls(); return; } set_case(fmt("char|%d", (int)v)); chars((int)v); }); cover("characters", "all 256");
		std::string A = "aAbBzZ@[`{"; A += (char)0xc1; A += (char)0xe1; if (T) A += " 0"; int mx = T ? 4 : 3; std::vector<std::string> W = { "" }; for (size_t i = 0, n = 0; n < (size_t)mx; n++) { size_t e = W.size(); for (; i < e; i++) for (char c : A) W.push_back(W[i] + c); }
		if (T) { run_tasks(W.size(), [&](uint64_t i) { for (auto& y : W) { if (y.size() + 1 < W[i].size()) continue; if (y.size() == 4 && W[i].size() == 4 && (y[0] | 32) != (W[i][0] | 32)) continue; set_case("cmp|" + hex(W[i]) + "|" + hex(y)); compare(W[i], y); } }, DL); } else run_tasks(W.size(), [&](uint64_t i) { for (auto& y : W) { set_case("cmp|" + hex(W[i]) + "|" + hex(y)); compare(W[i], y); } });
		cover("strings", fmt("pairs of %zu strings of up to %d of %zu characters, counts 0..6", W.size(), mx, A.size()));
		run_tasks(256, [&](uint64_t i) { for (int j = 0; j < 256; j++) for (const char* pre : { "", "x" }) { std::string a = pre, b = pre; if (i) a += (char)i; if (j) b += (char)j; set_case("cmp|" + hex(a) + "|" + hex(b)); compare(a, b); } }); cover("character_pairs", "all 65536");
	}
	if (P == "B01") {
		std::string A = "gbrRupwWM"; int n = T ? 6 : 5; uint64_t all = 1; for (int i = 0; i < n; i++) all *= A.size();
		run_tasks(all, [&](uint64_t t) { std::string ops; for (int i = 0; i < n; i++) { ops += A[t % A.size()]; t /= A.size(); } for (int g = 0; g <= 4; g += 2) for (int p = 0; p <= 4; p += 2) for (int form = 0; form < 4; form++) { if (form >= 2 && (g | p) != 4) continue; set_case(fmt("buf|c|%d|%d|%d|", g, p, form) + ops); buffers<char>(g, p, form, ops); if (form == 0 && g == p) { set_case(fmt("buf|w|%d|%d|%d|", g, p, form) + ops); buffers<wchar_t>(g, p, form, ops); } } }, DL, 64); cover("operations", fmt("every sequence of %d of %zu operations over windows of 0..4 characters, four ways to construct", n, A.size()));
		if (!T) for (int m = 1; m < 5; m++) { uint64_t al = 1; for (int i = 0; i < m; i++) al *= A.size(); run_tasks(al, [&](uint64_t t) { std::string ops; for (int i = 0; i < m; i++) { ops += A[t % A.size()]; t /= A.size(); } for (int g = 1; g <= 3; g++) for (int p = 1; p <= 3; p++) { set_case(fmt("buf|c|%d|%d|%d|", g, p, 0) + ops); buffers<char>(g, p, 0, ops); } }, 0, 64); }
		run_tasks(30, [&](uint64_t x) { set_case(fmt("move|%d|%d", (int)x / 3, (int)x % 3)); moves(x / 3, x % 3); }); cover("stream_moves", "10 positions, 3 states");
		run_tasks(300, [&](uint64_t x) { int g = x; std::string r, w; for (int i = 0; i < g + 2; i++) { r += "b"; w += "p"; if (i == g / 2) { r += "M"; w += "M"; } } set_case(fmt("buf|c|%d|%d|0|", g, g) + r + w); buffers<char>(g, g, 0, r + w); }); cover("long_windows", "0..299 characters");
	}
	if (P == "L01") {
		// up to three values of every kind and length around the capacity
		std::vector<int> SZ = { 1, 2, 3, 5, 8, 16, 64, 100 }; std::vector<std::string> extra = { "", "F", "G", "M", "FF" };
		run_tasks(SZ.size() * 6 * 90, [&](uint64_t x) { int s = SZ[x % SZ.size()]; int k = x / SZ.size() % 6, len = x / SZ.size() / 6; if (len > s + 6 && len != 80 && len != 89) return; std::string v1 = k == 5 ? std::string() : std::string() + (char)('0' + k) + (char)(32 + len);
			std::vector<int> L2; for (int l = 0; l <= 90; l++) if (l < 3 || (l >= s - len - 3 && l <= s - len + 3) || l == 90) L2.push_back(l); for (auto& e1 : extra) for (int k2 = 0; k2 < 5; k2++) for (int l2 : L2) { std::string v2 = std::string() + (char)('0' + k2) + (char)(32 + l2); for (auto& e2 : extra) for (const char* v3 : { "", "0#", "1%", "0y", "3 0#" }) { std::string ops = v1 + e1 + v2 + e2 + v3; for (int mode = 0; mode < (e1.empty() && e2.empty() ? 3 : 1); mode++) { set_case(fmt("line|%d|", s) + hex(ops) + fmt("|%d", mode)); line_any(s, ops, mode); } } } }, DL, 8); cover("lines", "lines of capacity 1..100 with up to three values of five kinds and every length around the capacity; explicit flush, get and move between them; destinations that fail or throw");
		run_tasks(6 * 9, [&](uint64_t x) { for (int n = 0; n < 600; n++) for (int cat : { 0, 0x8001, 0xffff }) for (unsigned long long tag : { 0ull, 0x10abcull, ~0ull }) for (bool b : { false, true }) { if (n > 70 && n < 380 && n % 16) continue; set_case(fmt("entry|%d|%d|%d|%d|%llu|%d", (int)(x % 6), (int)(x / 6), n, cat, tag, (int)b)); entries(x % 6, x / 6, n, cat, tag, b); } }); cover("entries", "three line formats in two sizes, every severity, messages of 0..599 characters");
	}
	if (P == "L02") { run_tasks(3 * 256, [&](uint64_t x) { int k = x / 256, s = x % 256; for (int c : { 0, 1, 0x8004, 0xffff }) { set_case(fmt("nofilt|%d|%d|%d", k, s, c)); nofilts(k, s, c); } for (int a = 0; a < 256; a += (a < 12 || s < 12 || T ? 1 : 17)) for (int b : { (a * 7 + 3) % 256, s, std::max(0, s - 1) }) for (int c : { 0, 0x8004, 0xffff }) { if (a >= 12 && c) continue; set_case(fmt("filt|%d|%d|%d|%d|%d", k, a, b, s, c)); filts(k, a, b, s, c); } }); cover("filters", "every severity against every level (and a second level), three line formats, four kinds of entry"); }
	if (P == "L03") {
		run_tasks(T ? 1200 : 400, [&](uint64_t n) { for (int how = 0; how < 4; how++) for (int f = 0; f < 3; f++) { std::string d; for (uint64_t i = 0; i < n; i++) d += (char)(f == 0 ? i * 7 + n : f == 1 ? 'A' + i % 26 : i); set_case(fmt("dump|%d|", how) + hex(d)); dump(d, how); } }); cover("lengths", T ? "0..1199 bytes" : "0..399 bytes");
		run_tasks(256, [&](uint64_t b) { for (int n : { 1, 8, 16, 17 }) for (int p = 0; p < n; p++) { std::string d(n, 'x'); d[p] = (char)b; for (int how = 0; how < 4; how++) { set_case(fmt("dump|%d|", how) + hex(d)); dump(d, how); } } }); cover("bytes", "every byte at every column");
		run_tasks(40, [&](uint64_t x) { size_t n = 65536 - 20 + x; std::string d = longdata(n); set_case(fmt("long|%d", (int)n)); dump(d, 0); }); cover("long", "65516..65555 bytes (the offset wraps)");
	}
	if (P == "T01") {
		run_tasks(106752, [&](uint64_t d) { set_case(fmt("day|%ld|%ld", (long)d, (long)(d + 1))); day_case(d, (long)d + (d % 2 ? 1 : -1)); }, 0, 256); cover("days", "every day from 1970-01-01 to 2262-04-11, nine times of day, compared with neighbours");
		long last = T ? 11000000 : 2000000; run_tasks(last / 1000, [&](uint64_t k) { for (long d = k * 1000; d < (long)k * 1000 + 1000; d++) { if (d % 64 == 0) set_case(fmt("date|%ld", d)); abc::timestamp<Clk> t(nullptr); t.reset_date(d); count(STATES); count(EVAL); Date c = civil(d); if (c.y > 32767) break; if (!(t.year() == c.y && t.month() == c.m && t.day() == c.d)) set_case(fmt("date|%ld", d)); ts_check(t, d, 0); } tick(); }, 0, 4); cover("dates", fmt("every day number up to %ld", last));
		run_tasks(86400, [&](uint64_t s) { for (long long f : { 0ll, 1ll, 999ll, 1000ll, 999999ll, 1000000ll, 999999999ll, (long long)(s * 11573 % 1000000000) }) { long long n = s * 1000000000ll + f; set_case(fmt("time|%lld", n)); abc::timestamp<Clk> t(nullptr); t.reset_time(n); ts_check(t, 0, n); fin(n); } }, 0, 128); cover("seconds", "every second of a day, eight fractions");
	}
	done();
}
