// J01..J04: the JSON reader and writer against a reference parser, on every text of bounded families.
#include "mc.h"
#include "json.h"
#include "buffer_streambuf.h"
#include "log.h"
#include "jref.h"
#include <cmath>
#include <memory>
using namespace mc;
using abc::json::token_t;
#include "xlog.h"
using Log = XLog;
// ---------------------------------------------------------------- the reader under test
template <class S> static bool failed(const S& s) { return s.fail() || s.bad(); }
struct Mem { char* p; size_t n; Mem(size_t k) : p((char*)malloc(k ? k : 1)), n(k) { memset(p, 0x7e, k); } ~Mem() { free(p); } };
constexpr size_t VOFF = offsetof(token_t, value);
// reads one token; returns false if the stream reports a failure
template <class S> static bool rd(S& js, Mem& m, Tok& t, bool& fits_checked) {
	token_t* b = (token_t*)m.p; js.get_token(b, m.n); if (failed(js)) return false; t = Tok{ b->item, "", 0, false, 0, 0 };
	if (b->item == it::string || b->item == it::property) { size_t room = m.n - VOFF, n = js.gcount() - sizeof(abc::json::item_t); MC_CHECK(n < room, "a string of %zu bytes is delivered in a buffer with room for %zu", n, room); MC_CHECK(b->value.string[n] == 0, "the delivered string is not terminated within the buffer"); t.text.assign(b->value.string, n); }
	else if (b->item == it::number) t.num = b->value.number; else if (b->item == it::boolean) t.b = b->value.boolean; (void)fits_checked; return true;
}
static std::string ts(const Tok& t) { return fmt("%04x '%s' %.17g %d", t.item, show(t.text).c_str(), t.num, (int)t.b); }
// J01/J02/J04: doc, buffer size, maximum levels, token index to skip at (-1 none)
template <size_t L> static void read_doc(const std::string& doc, size_t bufsz, int skip_at) {
	Ref r = ref(doc, L); Mem in(doc.size()); memcpy(in.p, doc.data(), doc.size()); Mem buf(bufsz);
	abc::buffer_streambuf sb(in.p, in.p + doc.size(), nullptr, nullptr); abc::json_istream<L, Log> js(&sb, xlog());
	size_t k = 0; bool lax = false, fc = false; size_t guard = 0;
	for (;;) {
		MC_CHECK(++guard < doc.size() * 2 + 10, "reading does not end");
		if (k >= r.tolerated) lax = true;
		if (lax) { Tok t; if (!rd(js, buf, t, fc)) break; if (js.eof()) break; continue; }
		if (skip_at == (int)k && k < r.toks.size() && may_skip_at(r, k)) {
			size_t e = value_end(r, k); auto item = js.skip_value(); bool f = failed(js);
			bool complete = e != ~size_t(0) && e <= r.tolerated;
			if (!complete) { if (r.tolerated != ~size_t(0)) return; MC_CHECK(f, "skipping the incomplete value at token %zu reports no failure", k); break; }
			if (f) { MC_CHECK(r.error && e == r.toks.size(), "skipping the value at token %zu fails", k); break; }
			MC_CHECK(item == r.toks[e - 1].item, "skipping the value at token %zu returns %04x, expected %04x", k, item, r.toks[e - 1].item); k = e; continue;
		}
		if (k == r.toks.size()) { // nothing more may be delivered
			Tok t; bool ok = rd(js, buf, t, fc); MC_CHECK(!ok || t.item == it::none, "token %zu: %s is delivered, but there is %s", k, ts(t).c_str(), r.error ? "none" : "nothing more"); MC_CHECK(!ok, "token %zu: no failure is reported", k); break; }
		Tok t; const Tok& x = r.toks[k]; size_t need = x.item == it::string || x.item == it::property ? VOFF + x.text.size() + 1 : 0; bool ok = rd(js, buf, t, fc);
		if (need > bufsz) { MC_CHECK(!ok, "token %zu of %zu bytes is delivered in a buffer of %zu", k, need, bufsz); break; }
		if (!ok) { MC_CHECK(r.error && k + 1 == r.toks.size(), "token %zu (%s) is reported as an error", k, ts(x).c_str()); break; }
		MC_CHECK(t == x, "token %zu is %s, expected %s", k, ts(t).c_str(), ts(x).c_str()); k++;
	}
	count(EVAL); count(STATES); count(TRANS, guard); count(TRACES); if (r.done && r.tolerated == ~size_t(0)) count(C7); outcome(hash_bytes(&k, sizeof k, r.error ? 1 : 2) ^ (r.toks.empty() ? 0 : hash_str(ts(r.toks.back()))));
}
static void read_any(int L, const std::string& doc, size_t bufsz, int skip) { switch (L) { case 1: read_doc<1>(doc, bufsz, skip); break; case 2: read_doc<2>(doc, bufsz, skip); break; case 3: read_doc<3>(doc, bufsz, skip); break; case 4: read_doc<4>(doc, bufsz, skip); break; case 5: read_doc<5>(doc, bufsz, skip); break; default: read_doc<64>(doc, bufsz, skip); } }
static std::string rcase(int L, const std::string& doc, size_t bufsz, int skip) { return fmt("read|%d|%zu|%d|", L, bufsz, skip) + hex(doc); }
static std::string g_doc; static bool g_all_skips = false, g_all_sizes = false;
static void doc_case(int L, const std::string& d) {
	if (G.prop == "J01") { set_case(rcase(L, d, 256, -1)); read_any(L, d, 256, -1); return; }
	if (G.prop == "J04") { Ref r = ref(d, L); for (size_t k = 0; k < r.toks.size(); k++) if (may_skip_at(r, k)) { set_case(rcase(L, d, 256, (int)k)); read_any(L, d, 256, (int)k); } return; }
	// J02: ended at any point, any buffer size
	for (size_t cut = 0; cut <= d.size(); cut++) { std::string c = d.substr(0, cut); size_t mx = d.size() + VOFF + 2; for (size_t b = sizeof(token_t); b <= std::max(mx, sizeof(token_t)); b++) { set_case(rcase(L, c, b, -1)); read_any(L, c, b, -1); } if (cut == d.size() || cut + 1 == d.size()) for (int k = 0; k < 3; k++) { set_case(rcase(L, c, 16, k)); read_any(L, c, 16, k); } }
}
// every sequence of n pieces; t enumerates the first ones
static void pieces(const std::vector<std::string>& P, int n, int L, double deadline, const char* name, const std::string& pre = "", const std::string& post = "") {
	int head = std::min(n, 3); uint64_t tot = 1; for (int i = 0; i < head; i++) tot *= P.size(); uint64_t all = 1; for (int i = 0; i < n; i++) all *= P.size();
	bool ok = run_tasks(tot, [&](uint64_t t) { std::string h; for (int i = 0; i < head; i++) { h += P[t % P.size()]; t /= P.size(); } uint64_t rest = 1; for (int i = head; i < n; i++) rest *= P.size(); for (uint64_t q = 0; q < rest; q++) { std::string d = pre + h; uint64_t x = q; for (int i = head; i < n; i++) { d += P[x % P.size()]; x /= P.size(); } d += post; doc_case(L, d); if (q == 0) sample(d); } }, deadline);
	cover(name, fmt("%s%llu texts (every sequence of %d pieces of %zu)%s", ok ? "" : "time cap: part of ", (unsigned long long)all, n, P.size(), pre.empty() ? "" : (" in " + show(pre) + ".." + show(post)).c_str())); fprintf(stderr, "%s %.1f\n", name, elapsed());
}
// ---------------------------------------------------------------- the writer (J03)
// calls: n null, t true, f false, d number, s string, p property, [ ] { }
struct Wr { std::vector<char> st; std::vector<bool> val; bool bad = false, complete = false; };
template <size_t L> static void write_case(const std::string& calls, const std::vector<std::string>& str, const std::vector<double>& num) {
	Mem out(calls.size() * 40 + 8 + 8 * [&] { size_t n = 0; for (auto& s : str) n += s.size(); return n * calls.size(); }()); abc::buffer_streambuf sb(nullptr, nullptr, out.p, out.p + out.n);
	struct Pos : std::streambuf { }; std::vector<Tok> want; std::vector<char> st; bool expect_name = false, bad = false, token = false; size_t si = 0, di = 0; std::vector<size_t> lens;
	struct CB : std::streambuf { std::string s; int_type overflow(int_type c) override { if (c != EOF) s += (char)c; return c == EOF ? 0 : c; } } cb; (void)sb;
	abc::json_ostream<L, Log> js(&cb, xlog()); int tops = 0;
	for (char c : calls) {
		Tok t{ 0, "", 0, false, 0, 0 }; bool isval = strchr("ntfds[{", c) != nullptr, okc = true; bool obj = !st.empty() && st.back() == '{';
		if (isval && obj && expect_name) okc = false; if (c == 'p' && !(obj && expect_name)) okc = false; if (c == ']' && (st.empty() || obj)) okc = false; if (c == '}' && !(obj && expect_name)) okc = false; if ((c == '[' || c == '{') && st.size() >= L) okc = false; if (bad) okc = false;
		const std::string& s = str[si % str.size()]; double d = num[di % num.size()]; if (c == 's' || c == 'p') { si++; t.text = s; } if (c == 'd') { di++; t.num = d; if (!std::isfinite(d)) okc = false; }
		size_t before = cb.s.size(); bool wasbad = bad;
		if (token) { Mem b(sizeof(token_t) + s.size()); token_t* k = (token_t*)b.p; static const std::map<char, int> I = { { 'n', it::null }, { 't', it::boolean }, { 'f', it::boolean }, { 'd', it::number }, { 's', it::string }, { 'p', it::property }, { '[', it::begin_array }, { ']', it::end_array }, { '{', it::begin_object }, { '}', it::end_object } }; k->item = I.at(c); if (c == 'd') k->value.number = d; else if (c == 't' || c == 'f') k->value.boolean = c == 't'; else if (c == 's' || c == 'p') memcpy(k->value.string, s.data(), s.size()); js.put_token(k, s.size()); }
		else switch (c) { case 'n': js.put_null(); break; case 't': js.put_boolean(true); break; case 'f': js.put_boolean(false); break; case 'd': js.put_number(d); break; case 's': js.put_string(s.data(), s.size()); break; case 'p': js.put_property(s.data(), s.size()); break; case '[': js.put_begin_array(); break; case ']': js.put_end_array(); break; case '{': js.put_begin_object(); break; case '}': js.put_end_object(); break; }
		if (okc && isval && st.empty() && tops++) return; // several top-level values: the caller separates them
		MC_CHECK(failed(js) == !okc, "the writer call %c %s", c, okc ? "fails" : "that cannot lead to a document is accepted"); if (wasbad) MC_CHECK(cb.s.size() == before, "the failed writer goes on writing"); if (!okc) { bad = true; continue; }
		token = !token;
		if (c == '[') { st.push_back(c); t.item = it::begin_array; } else if (c == '{') { st.push_back(c); t.item = it::begin_object; expect_name = true; } else if (c == ']') { st.pop_back(); t.item = it::end_array; expect_name = !st.empty() && st.back() == '{'; } else if (c == '}') { st.pop_back(); t.item = it::end_object; expect_name = !st.empty() && st.back() == '{'; } else if (c == 'p') { t.item = it::property; expect_name = false; } else { t.item = c == 'n' ? it::null : c == 'd' ? it::number : c == 's' ? it::string : it::boolean; t.b = c == 't'; expect_name = !st.empty() && st.back() == '{'; } if (c == '[') expect_name = false;
		want.push_back(t);
	}
	count(EVAL); count(STATES); count(TRANS, calls.size()); count(TRACES); outcome(hash_str(cb.s));
	if (bad || calls.empty()) return;
	// what was written must be a well-formed document, or the beginning of one
	const std::string& d = cb.s; Ref r = ref(d, L); std::vector<Tok> got = r.toks; MC_CHECK(r.tolerated == ~size_t(0), "the writer produced %s, which is not well-formed", show(d).c_str());
	if (st.empty()) { MC_CHECK(r.done && !r.error, "the complete document reads as ill-formed: %s", show(d).c_str()); }
	auto near = [](double a, double b) { return a == b; };
	MC_CHECK(got.size() == want.size() || (!st.empty() && got.size() + 1 == want.size() && want.back().item == it::property), "%zu tokens were written, %zu are read from %s", want.size(), got.size(), show(d).c_str());
	for (size_t i = 0; i < got.size(); i++) MC_CHECK(got[i].item == want[i].item && got[i].text == want[i].text && got[i].b == want[i].b && near(want[i].num, got[i].num), "token %zu was written as %s, but reads as %s in %s", i, ts(want[i]).c_str(), ts(got[i]).c_str(), show(d).c_str());
	if (st.empty()) { // and the library's own reader agrees
		size_t mx = 16; for (auto& t : want) mx = std::max(mx, VOFF + t.text.size() + 1); Mem in(d.size()); memcpy(in.p, d.data(), d.size()); Mem buf(mx); abc::buffer_streambuf rb(in.p, in.p + d.size(), nullptr, nullptr); abc::json_istream<L, Log> ri(&rb, xlog()); bool fc;
		for (size_t i = 0; i < want.size(); i++) { Tok t; MC_CHECK(rd(ri, buf, t, fc), "reading back token %zu of %s fails", i, show(d).c_str()); MC_CHECK(t.item == want[i].item && t.text == want[i].text && t.b == want[i].b && near(want[i].num, t.num), "token %zu was written as %s, but is read back as %s from %s", i, ts(want[i]).c_str(), ts(t).c_str(), show(d).c_str()); } }
	// too small an output buffer: reported, and nothing is written beyond it
	if (calls.size() <= 4) for (size_t cap = 0; cap < d.size(); cap++) { Mem o(cap); abc::buffer_streambuf ob(nullptr, nullptr, o.p, o.p + cap); abc::json_ostream<L, Log> w(&ob, xlog()); size_t s2 = 0, d2 = 0; for (char c : calls) switch (c) { case 'n': w.put_null(); break; case 't': w.put_boolean(true); break; case 'f': w.put_boolean(false); break; case 'd': w.put_number(num[d2++ % num.size()]); break; case 's': { auto& s = str[s2++ % str.size()]; w.put_string(s.data(), s.size()); break; } case 'p': { auto& s = str[s2++ % str.size()]; w.put_property(s.data(), s.size()); break; } case '[': w.put_begin_array(); break; case ']': w.put_end_array(); break; case '{': w.put_begin_object(); break; case '}': w.put_end_object(); break; } MC_CHECK(failed(w), "a document of %zu bytes is written to %zu bytes without a failure", d.size(), cap); MC_CHECK(memcmp(o.p, d.data(), cap) == 0, "the bytes before the end of the buffer differ"); }
}
static std::vector<std::string> STR = { "a", "", "b\"c", "x\\", "\x01\n", "/", "\xff\x80" }; static std::vector<double> NUM = { 0, -1, 1.5, 1e300, -2.5e-7, 123456789012345. };
static std::string wcase(int L, const std::string& calls, int mode, const std::string& arg) { return fmt("write|%d|%d|", L, mode) + calls + "|" + hex(arg); }
static void run_write(int L, const std::string& calls, int mode, const std::string& arg) {
	std::vector<std::string> s = STR; std::vector<double> n = NUM; if (mode == 1) s = { arg }; if (mode == 2) { double d; memcpy(&d, arg.data(), 8); n = { d }; }
	switch (L) { case 1: write_case<1>(calls, s, n); break; case 2: write_case<2>(calls, s, n); break; case 3: write_case<3>(calls, s, n); break; default: write_case<64>(calls, s, n); } }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(24);
	g_rule = "a state is one text (or one sequence of writer calls), every one of a family is executed";
	G.run_case = [](const std::string& c) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = c.find('|', p); f.push_back(c.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
		if (f[0] == "read") read_any(atoi(f[1].c_str()), unhex(f[4]), atoi(f[2].c_str()), atoi(f[3].c_str())); else run_write(atoi(f[1].c_str()), f[3], atoi(f[2].c_str()), unhex(f[4])); };
	maybe_replay(); bool T = G.thorough; const std::string& P = G.prop; double DL = T ? 800 : 0;
	std::vector<std::string> tok = { "[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", " ", "t" };
	std::vector<std::string> strs = { "\"", "\\", "u", "0", "4", "b", "n", "/", "\n", "\xff", "a" };
	std::vector<std::string> nums = { "+", "-", "0", "1", "9", ".", "e", "E", "," };
	if (P == "J03") {
		const std::string C = "ntdsp[]{}"; int D = T ? 8 : 7;
		for (int L : { 1, 2, 3, 64 }) { int DD = L == 64 ? D : D - 1; uint64_t tot = 1; for (int i = 0; i < DD; i++) tot *= 9; bool ok = run_tasks(tot / 729, [&](uint64_t t) { std::string h; uint64_t x = t; for (int i = 0; i < DD - 3; i++) { h += C[x % 9]; x /= 9; } 
				// skip heads that already failed (the failure itself is covered by the shorter sequences), except the last call
				for (char a : C) for (char b : C) for (char c : C) { std::string s = h + a + b + c; set_case(wcase(L, s, 0, "")); run_write(L, s, 0, ""); } if (t % 1024 == 0) sample(h); }, DL, 16); cover(fmt("calls_max_levels_%d", L), fmt("%severy sequence of %d calls of 9 kinds", ok ? "" : "time cap: part of ", DD)); fprintf(stderr, "calls %.1f\n", elapsed()); }
		run_tasks(9 * 9 * 9 * 9, [&](uint64_t t) { for (int n = 1; n <= 4; n++) { std::string s; uint64_t x = t; for (int i = 0; i < n; i++) { s += C[x % 9]; x /= 9; } set_case(wcase(2, s, 0, "")); run_write(2, s, 0, ""); } });
		// strings: every byte, every string over special bytes
		std::vector<std::string> S2 = { "a", "\"", "\\", "/", "u", "\n", std::string(1, 0), "\x1f", "\x7f", "\x80", "\xff", "0", "b", "\t" };
		run_tasks(256, [&](uint64_t i) { std::string s(1, (char)i); for (std::string x : { s, s + "a", "a" + s, s + s, "\\" + s, s + "0041" }) for (const char* c : { "s", "[s]", "{ps}", "{pn}" }) { set_case(wcase(3, c, 1, x)); run_write(3, c, 1, x); } });
		int SL = T ? 5 : 4; uint64_t st = 1; for (int i = 0; i < SL; i++) st *= S2.size(); run_tasks(st / 14 / 14, [&](uint64_t t) { for (auto& a : S2) for (auto& b : S2) { std::string s; uint64_t x = t; for (int i = 2; i < SL; i++) { s += S2[x % 14]; x /= 14; } s += a + b; set_case(wcase(3, "{ps}", 1, s)); run_write(3, "{ps}", 1, s); } }, DL); cover("strings", fmt("every string of %d special bytes", SL));
		// numbers
		std::vector<double> ds; for (int m = 1; m < 100; m++) for (int e = -320; e <= 308; e += T ? 1 : 7) { char b[32]; snprintf(b, sizeof b, "%de%d", m, e); ds.push_back(strtod(b, nullptr)); } for (int k = 0; k < 1024; k++) { ds.push_back(std::ldexp(1., k)); ds.push_back(std::ldexp(1., -k)); ds.push_back(std::ldexp(1., k) - 1); ds.push_back(std::ldexp(3., -k)); } for (int i = 0; i < 2000; i++) ds.push_back(i / 64.); for (double d : { 0.1, 1. / 3, 9007199254740991., 9007199254740993., 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -0.0, 1e15, 1e16, 1e17, 123456789.123456789, HUGE_VAL, -HUGE_VAL, (double)NAN }) ds.push_back(d);
		run_tasks(ds.size(), [&](uint64_t i) { for (double d : { ds[i], -ds[i] }) for (const char* c : { "d", "[dd]", "{pd}" }) { std::string a((char*)&d, 8); set_case(wcase(3, c, 2, a)); run_write(3, c, 2, a); } }, DL, 64); cover("numbers", ds.size() * 2);
	} else if (P == "J01" || P == "J04") {
		int n1 = T ? 8 : 6; if (P == "J04") { n1 = T ? 8 : 7; tok = { "[", "]", "{", "}", ",", ":", "\"a\"", "1", "[1]", "{\"b\":[]}" }; }
		for (int n = 1; n < n1; n++) pieces(tok, n, 64, DL, fmt("tokens_%d", n).c_str()); pieces(tok, n1, 64, DL, "tokens");
		for (auto w : { std::make_pair("\"", "\""), std::make_pair("[\"", "\"]"), std::make_pair("{\"", "\":1}") }) for (int n = 0; n <= (T ? 7 : 5); n++) pieces(strs, n, 64, DL, fmt("strings_%d_%s", n, w.first[0] == '"' ? "value" : w.first[0] == '[' ? "item" : "name").c_str(), w.first, w.second);
		for (auto w : { std::make_pair("", ""), std::make_pair("[", "]"), std::make_pair("{\"a\":", "}") }) for (int n = 1; n <= (T ? 7 : 6); n++) pieces(nums, n, 64, DL, fmt("numbers_%d_%s", n, w.first[0] ? w.first[0] == '[' ? "item" : "value" : "top").c_str(), w.first, w.second);
		// nesting around the maximum
		for (int L : { 1, 2, 3, 4, 5 }) for (int n = 1; n <= (T ? 10 : 8); n++) pieces({ "[", "{\"a\":", "]", "}" }, n, L, DL, fmt("nesting_%d_%d", L, n).c_str());
		// white space anywhere, every byte anywhere, long numbers
		std::vector<std::string> docs = { "[1,2]", "{\"a\":[null,true],\"b\":{}}", "[[],{},\"x\",-1.5e2,false]", "{\"a\":\"\\u0041b\"}", "[{\"p\":1},{\"q\":[2]}]", "\"\\\\\\\"\\/\\b\\f\\n\\r\\t\"", "[12,\"a\",[3]]" };
		run_tasks(docs.size(), [&](uint64_t i) { const std::string& d = docs[i]; for (size_t p = 0; p <= d.size(); p++) { for (const char* w : { " ", "\t", "\r", "\n", "  ", "\r\n" }) doc_case(64, d.substr(0, p) + w + d.substr(p)); for (size_t q = p; q <= d.size(); q++) doc_case(64, d.substr(0, p) + " " + d.substr(p, q - p) + "\n" + d.substr(q)); for (int b = 0; b < 256; b++) { doc_case(64, d.substr(0, p) + (char)b + d.substr(p)); if (p < d.size()) doc_case(64, d.substr(0, p) + (char)b + d.substr(p + 1)); } if (p < d.size()) doc_case(64, d.substr(0, p) + d.substr(p + 1)); } }); cover("edits", "every white space insertion, byte insertion, replacement and removal in seven documents");
		run_tasks(40, [&](uint64_t n) { for (const char* f : { "", "-", "0.", "-1.", "1e", "1e-", "0.0e+" }) for (const char* c : { "", "[", "{\"a\":" }) { std::string d = c; d += f; d += std::string(n + 1, '7'); std::string e = d; if (*c) { d += *c == '[' ? "]" : "}"; e += *c == '[' ? ".5]" : ".5}"; } else e += ".5"; doc_case(64, d); doc_case(64, e); } }); cover("long_numbers", "1..40 digits in every place");
		// strings of every length, decoded values at buffer boundaries
		run_tasks(230, [&](uint64_t n) { std::string s; for (uint64_t i = 0; i < n; i++) s += (char)('a' + i % 26); doc_case(64, "\"" + s + "\""); doc_case(64, "{\"" + s + "\":\"" + s + "\"}"); for (int e = 0; e < 8; e++) doc_case(64, "[\"" + s + "\\" + "\"\\/bfnrt"[e] + "\"]"); });
		run_tasks(65536, [&](uint64_t u) { char b[16]; snprintf(b, sizeof b, u & 1 ? "\"\\u%04x\"" : "\"\\u%04X1\"", (unsigned)u); doc_case(64, b); }, 0, 256); cover("unicode_escapes", "all 65536");
	} else { // J02
		for (int n = 1; n <= (T ? 6 : 4); n++) pieces(tok, n, 64, DL, fmt("tokens_%d", n).c_str());
		for (auto w : { std::make_pair("\"", ""), std::make_pair("[\"", "\"]"), std::make_pair("{\"abcd", "") }) for (int n = 1; n <= (T ? 6 : 4); n++) pieces(strs, n, 64, DL, fmt("strings_%d_%s", n, w.first[0] == '"' ? "value" : w.first[0] == '[' ? "item" : "name").c_str(), w.first, w.second);
		for (int n = 1; n <= (T ? 6 : 4); n++) pieces(nums, n, 64, DL, fmt("numbers_%d", n).c_str());
		for (int L : { 1, 2, 3 }) for (int n = 1; n <= (T ? 8 : 6); n++) pieces({ "[", "{\"a\":", "]", "}" }, n, L, DL, fmt("nesting_%d_%d", L, n).c_str());
		// any bytes
		run_tasks(256, [&](uint64_t a) { for (int b = 0; b < 256; b++) { std::string s = { (char)a, (char)b }; doc_case(64, s); doc_case(64, "[" + s); doc_case(64, "{\"" + s); doc_case(64, "\"\\" + s); doc_case(64, "1" + s); } }); cover("bytes", "every pair of bytes in five places");
		run_tasks(60, [&](uint64_t n) { for (const char* f : { "", "-", "0.", "-1.", "1e", "1e-", "0.0e+" }) { std::string d = "["; d += f; d += std::string(n + 1, '7'); for (const char* t : { "", ".", "e", ".7", "e7", "e+", "e-7", ".7e7", "]", "+" }) doc_case(64, d + t); } }); cover("long_numbers", "1..60 digits in every place");
		run_tasks(40, [&](uint64_t n) { std::string s(n, 'x'); for (const char* e : { "", "\\n", "\\\\", "\\u0041", "\\u004", "\\", "\\x" }) for (size_t p = 0; p <= n; p += std::max<size_t>(1, n / 4)) { doc_case(64, "\"" + s.substr(0, p) + e + s.substr(p) + "\""); doc_case(64, "{\"" + s.substr(0, p) + e + s.substr(p) + "\":1}"); } }); cover("strings", "lengths 0..40, with an escape, in every buffer size");
		run_tasks(18, [&](uint64_t n) { set_case(rcase(64, "[1]", n, -1)); if (n < sizeof(token_t)) { Mem b(n); std::string d = "[1]"; abc::buffer_streambuf sb(&d[0], &d[0] + 3, nullptr, nullptr); abc::json_istream<64, Log> js(&sb, xlog()); bool threw = false; try { js.get_token((token_t*)b.p, n); } catch (std::exception&) { threw = true; } MC_CHECK(threw, "a token buffer of %zu bytes is accepted", (size_t)n); } });
	}
	done();
}
