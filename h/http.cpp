// H01..H05: the HTTP readers and writers against a reference parser and writer, on every text / call sequence of bounded families.
#include "mc.h"
#include "http.h"
#include "log.h"
#include <memory>
#include <functional>
using namespace mc;
#include "xlog.h"
using Log = XLog; namespace hi = abc::http::item;
struct Mem { char* p; size_t n; Mem(size_t k) : p((char*)malloc(k ? k : 1)), n(k) { memset(p, 0x7e, k); } ~Mem() { free(p); } };
struct In : std::streambuf { Mem m; In(const std::string& s) : m(s.size()) { memcpy(m.p, s.data(), s.size()); setg(m.p, m.p, m.p + s.size()); } size_t pos() const { return gptr() - eback(); } };
struct Out : std::streambuf { std::string s; size_t cap; Out(size_t c = ~size_t(0)) : cap(c) {} int_type overflow(int_type c) override { if (traits_type::eq_int_type(c, traits_type::eof())) return 0; if (s.size() >= cap) return traits_type::eof(); s += (char)c; return c; } };
template <class S> static bool failed(const S& s) { if constexpr (std::is_base_of<abc::istream, S>::value) { const abc::istream& i = s; return i.fail() || i.bad(); } else { const abc::ostream& o = s; return o.fail() || o.bad(); } }
// ---------------------------------------------------------------- reference
static bool sp(char c) { return c == ' ' || c == '\t'; }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool vc(char c) { return c > 0x20 && c < 0x7f; }
static bool tc(char c) { return vc(c) && !strchr("()<>@,;:\\\"/[]?={}", c); }
enum Res { OK, BAD, EITHER }; // EITHER: the part is complete, but what follows it is missing or no text: reported now or by the next call
struct Ref {
	const std::string& s; size_t i = 0; std::string out; Ref(const std::string& t) : s(t) {}
	bool has() const { return i < s.size() && (unsigned char)s[i] < 0x80; }
	template <class F> size_t take(F f, std::string* o = nullptr) { size_t b = i; while (i < s.size() && f(s[i])) { if (o) *o += s[i]; i++; } return i - b; }
	Res after() { return has() ? OK : EITHER; }
	bool crlf() { if (i + 1 < s.size() && s[i] == '\r' && s[i + 1] == '\n') { i += 2; return true; } return false; }
	Res method() { out.clear(); if (!take(tc, &out)) return BAD; take(sp); return after(); }
	Res resource() { out.clear(); if (!take(vc, &out)) return BAD; take(sp); return after(); }
	Res protocol(bool request) { out.clear(); take(al, &out); if (out.size() != 4) return BAD; for (int k = 0; k < 4; k++) if ((out[k] & ~32) != "HTTP"[k]) return BAD; if (!has() || s[i] != '/') return BAD; out += s[i++]; if (!take(dg, &out)) return BAD; if (!has() || s[i] != '.') return BAD; out += s[i++]; if (!take(dg, &out)) return BAD; take(sp); if (request) return crlf() ? OK : BAD; return after(); }
	Res status() { out.clear(); if (!take(dg, &out)) return BAD; take(sp); return after(); }
	Res reason() { out.clear(); take([](char c) { return vc(c) || sp(c); }, &out); return crlf() ? OK : BAD; }
	Res name() { out.clear(); take(tc, &out); take(sp); if (out.empty()) return crlf() ? OK : BAD; if (!has() || s[i] != ':') return BAD; i++; take(sp); return after(); }
	Res value() { out.clear(); for (;;) { bool gap = take(sp) > 0; while (i < s.size() && vc(s[i])) { if (gap && !out.empty()) out += ' '; take(vc, &out); gap = take(sp) > 0; } if (!crlf()) return BAD; if (!has()) return EITHER; if (!sp(s[i])) return OK; if (!out.empty()) { size_t j = i; (void)j; } out_gap(); } }
	void out_gap() {}
};
// ---------------------------------------------------------------- reading
struct Reader { // one interface over both readers
	virtual ~Reader() {} virtual void call(int item, char* b, size_t n) = 0; virtual abc::http::item_t next() = 0; virtual bool bad() = 0; virtual size_t gcount() = 0; virtual void move() = 0; virtual bool at_eof() = 0;
};
struct ReqR : Reader { std::unique_ptr<abc::http_request_istream<Log>> s; ReqR(std::streambuf* b) : s(new abc::http_request_istream<Log>(b, xlog())) {}
	void call(int i, char* b, size_t n) override { switch (i) { case hi::method: s->get_method(b, n); break; case hi::resource: s->get_resource(b, n); break; case hi::protocol: s->get_protocol(b, n); break; case hi::header_name: s->get_header_name(b, n); break; case hi::header_value: s->get_header_value(b, n); break; default: s->get_body(b, n); } }
	abc::http::item_t next() override { return s->next(); } bool bad() override { return failed(*s); } size_t gcount() override { return s->gcount(); } void move() override { s.reset(new abc::http_request_istream<Log>(std::move(*s))); } bool at_eof() override { return s->eof(); } };
struct ResR : Reader { std::unique_ptr<abc::http_response_istream<Log>> s; ResR(std::streambuf* b) : s(new abc::http_response_istream<Log>(b, xlog())) {}
	void call(int i, char* b, size_t n) override { switch (i) { case hi::protocol: s->get_protocol(b, n); break; case hi::status_code: s->get_status_code(b, n); break; case hi::reason_phrase: s->get_reason_phrase(b, n); break; case hi::header_name: s->get_header_name(b, n); break; case hi::header_value: s->get_header_value(b, n); break; default: s->get_body(b, n); } }
	abc::http::item_t next() override { return s->next(); } bool bad() override { return failed(*s); } size_t gcount() override { return s->gcount(); } void move() override { s.reset(new abc::http_response_istream<Log>(std::move(*s))); } bool at_eof() override { return s->eof(); } };
static const char* NAME[] = { "method", "resource", "protocol", "status code", "reason", "header name", "header value", "body" };
static Res ref_call(Ref& r, bool req, int item) { switch (item) { case hi::method: return r.method(); case hi::resource: return r.resource(); case hi::protocol: return r.protocol(req); case hi::status_code: return r.status(); case hi::reason_phrase: return r.reason(); case hi::header_name: return r.name(); default: return r.value(); } }
static int follow(bool req, int item, bool empty) { switch (item) { case hi::method: return hi::resource; case hi::resource: return hi::protocol; case hi::protocol: return req ? hi::header_name : hi::status_code; case hi::status_code: return hi::reason_phrase; case hi::reason_phrase: return hi::header_name; case hi::header_name: return empty ? hi::body : hi::header_value; default: return hi::header_name; } }
// bufsz 0: every buffer exactly as large as needed; move: the stream is moved before every call
static void read_msg(bool req, const std::string& text, size_t bufsz, size_t chunk, bool mv) {
	In in(text); std::unique_ptr<Reader> R; if (req) R.reset(new ReqR(&in)); else R.reset(new ResR(&in)); Ref ref(text); int item = req ? hi::method : hi::protocol; size_t steps = 0; bool valid = true; uint64_t h = 7;
	auto wild = [&]() { for (int k = 0; k < 4; k++) { size_t n = bufsz ? bufsz : 3; Mem b(n); int nx = R->next(); R->call(nx, b.p, n); if (nx != hi::body) MC_CHECK(memchr(b.p, 0, n), "after a failure the %s is left without terminator", NAME[nx]); MC_CHECK(R->bad(), "the failure is forgotten by the next call (%s)", NAME[nx]); } };
	for (;;) {
		MC_CHECK(++steps < text.size() + 20, "reading does not end"); MC_CHECK(R->next() == item, "the next part is %d, expected %s", R->next(), NAME[item]);
		if (mv) { size_t g = R->gcount(); R->move(); MC_CHECK(R->next() == item, "moving the stream changes the next part to %d", R->next()); if (steps > 1) MC_CHECK(R->gcount() == g, "moving the stream changes gcount from %zu to %zu", g, R->gcount()); }
		if (item == hi::body) { // whole body in chunks
			std::string rest = text.substr(ref.i), got; for (;;) { MC_CHECK(++steps < text.size() + 20, "reading the body does not end"); size_t n = chunk ? chunk : rest.size() - got.size(); Mem b(n); R->call(hi::body, b.p, n); size_t g = R->gcount(); MC_CHECK(g <= n, "%zu body bytes are reported in a buffer of %zu", g, n); got.append(b.p, g); size_t want = std::min(n, rest.size() - (got.size() - g)); MC_CHECK(g == want, "%zu body bytes are delivered, expected %zu", g, want); if (g < n) MC_CHECK(R->at_eof(), "the end of a short body is not reported"); else MC_CHECK(!R->bad(), "reading a part of the body fails"); if (got.size() == rest.size() && (!chunk || g < n)) break; }
			MC_CHECK(got == rest, "the body is '%s', expected '%s'", show(got).c_str(), show(rest).c_str()); h = h * 31 + hash_str(got); break;
		}
		Res r = ref_call(ref, req, item); size_t need = ref.out.size() + (item == hi::resource ? 2 : 1); size_t n = bufsz ? bufsz : need; Mem b(n); R->call(item, b.p, n); bool bad = R->bad();
		MC_CHECK(memchr(b.p, 0, n), "the %s is left without terminator in a buffer of %zu", NAME[item], n);
		h = h * 31 + hash_str(ref.out) + r;
		if (r == BAD) { valid = false; MC_CHECK(bad, "a malformed %s is not reported", NAME[item]); wild(); break; }
		if (need > n) { valid = false; MC_CHECK(bad, "a %s that needs %zu bytes is accepted in a buffer of %zu", NAME[item], need, n); wild(); break; }
		if (!bad || r == OK) { MC_CHECK(!bad, "the %s '%s' is reported as a failure", NAME[item], show(ref.out).c_str()); MC_CHECK(R->gcount() == ref.out.size() && memcmp(b.p, ref.out.c_str(), ref.out.size() + 1) == 0, "the %s is '%s' (%zu bytes), expected '%s'", NAME[item], show(std::string(b.p, strnlen(b.p, n))).c_str(), R->gcount(), show(ref.out).c_str()); if (item == hi::resource) MC_CHECK(b.p[ref.out.size() + 1] == 0, "the resource is not followed by a second terminator"); }
		bool empty = ref.out.empty(); if (r == EITHER) { valid = false; if (!bad) { int nx = follow(req, item, empty); Mem c(n); R->call(nx, c.p, n); MC_CHECK(R->bad(), "missing text after the %s is never reported", NAME[item]); } wild(); break; }
		item = follow(req, item, empty);
	}
	count(EVAL); count(STATES); count(TRANS, steps); count(TRACES); if (valid) count(C7); outcome(h);
}
static void read_case(bool req, const std::string& t, size_t b, size_t c, bool mv) { set_case(fmt("read|%d|%zu|%zu|%d|", req, b, c, mv) + hex(t)); read_msg(req, t, b, c, mv); }
static bool g_moves = false;
static void text_case(bool req, const std::string& t) {
	if (G.prop == "H01") { read_case(req, t, 0, 0, false); read_case(req, t, 256, 3, true); return; }
	if (G.prop == "H02") { for (size_t b = 1; b <= std::min<size_t>(t.size() + 3, G.thorough ? 24 : 14); b++) read_case(req, t, b, 0, false); read_case(req, t, 64, 7, false); }
}
static void cut_case(bool req, const std::string& t) { for (size_t k = 0; k <= t.size(); k++) text_case(req, t.substr(0, k)); }
static void pieces(bool req, const std::vector<std::string>& P, int n, const char* name, const std::string& pre, const std::string& post) {
	int head = std::min(n, 3); uint64_t tot = 1; for (int i = 0; i < head; i++) tot *= P.size(); uint64_t all = 1; for (int i = 0; i < n; i++) all *= P.size();
	bool ok = run_tasks(tot, [&](uint64_t t) { std::string h; for (int i = 0; i < head; i++) { h += P[t % P.size()]; t /= P.size(); } uint64_t rest = all; for (int i = 0; i < head; i++) rest /= P.size(); for (uint64_t q = 0; q < rest; q++) { std::string d = pre + h; uint64_t x = q; for (int i = head; i < n; i++) { d += P[x % P.size()]; x /= P.size(); } d += post; text_case(req, d); if (q == 0) sample(d); } }, G.thorough ? 800 : 0);
	cover(fmt("%s_%d", name, n), fmt("%s%llu texts (every sequence of %d pieces of %zu)", ok ? "" : "time cap: part of ", (unsigned long long)all, n, P.size())); fprintf(stderr, "%s %d %.1f\n", name, n, elapsed());
}
// ---------------------------------------------------------------- writing
struct Part { int item; std::string s; };
static bool all_of(const std::string& s, bool (*f)(char)) { for (char c : s) if (!f(c)) return false; return true; }
static Res part_valid(const Part& p, std::string& norm) {
	norm = p.s; switch (p.item) {
	case hi::method: case hi::header_name: return !p.s.empty() && all_of(p.s, tc) ? OK : BAD;
	case hi::resource: return !p.s.empty() && all_of(p.s, vc) ? OK : BAD;
	case hi::status_code: return !p.s.empty() && all_of(p.s, dg) ? OK : BAD;
	case hi::reason_phrase: return all_of(p.s, [](char c) { return vc(c) || sp(c); }) ? OK : BAD;
	case hi::protocol: { size_t i = 5, b; if (p.s.size() < 5) return BAD; for (int k = 0; k < 4; k++) if ((p.s[k] & ~32) != "HTTP"[k]) return BAD; if (p.s[4] != '/') return BAD; b = i; while (i < p.s.size() && dg(p.s[i])) i++; if (i == b || i == p.s.size() || p.s[i] != '.') return BAD; b = ++i; while (i < p.s.size() && dg(p.s[i])) i++; norm = "HTTP" + p.s.substr(4); return i > b && i == p.s.size() ? OK : BAD; }
	case hi::header_value: { std::string n; bool gap = false, end_fold = false; for (size_t i = 0; i < p.s.size();) { if (sp(p.s[i])) { gap = true; i++; } else if (p.s[i] == '\r' && i + 2 < p.s.size() && p.s[i + 1] == '\n' && sp(p.s[i + 2])) { gap = true; i += 3; size_t j = i; while (j < p.s.size() && sp(p.s[j])) j++; if (j == p.s.size()) end_fold = true; } else if (vc(p.s[i])) { if (gap && !n.empty()) n += ' '; gap = false; n += p.s[i++]; } else return BAD; } norm = n; return end_fold ? EITHER : OK; }
	} return OK; }
struct Writer { virtual ~Writer() {} virtual void call(const Part& p, bool z) = 0; virtual void end() = 0; virtual abc::http::item_t next() = 0; virtual bool bad() = 0; virtual void move() = 0; };
template <class S, bool REQ> struct WriterT : Writer { std::unique_ptr<S> s; WriterT(std::streambuf* b) : s(new S(b, xlog())) {}
	void call(const Part& p, bool z) override { const char* c = p.s.c_str(); size_t n = z ? abc::size::strlen : p.s.size(); Mem m(p.s.size()); if (!z) { memcpy(m.p, p.s.data(), p.s.size()); c = m.p; }
		if constexpr (REQ) { if (p.item == hi::method) { s->put_method(c, n); return; } if (p.item == hi::resource) { s->put_resource(c, n); return; } } else { if (p.item == hi::status_code) { s->put_status_code(c, n); return; } if (p.item == hi::reason_phrase) { s->put_reason_phrase(c, n); return; } }
		switch (p.item) { case hi::protocol: s->put_protocol(c, n); break; case hi::header_name: s->put_header_name(c, n); break; case hi::header_value: s->put_header_value(c, n); break; default: s->put_body(c, n); } }
	void end() override { s->end_headers(); } abc::http::item_t next() override { return s->next(); } bool bad() override { return failed(*s); } void move() override { s.reset(new S(std::move(*s))); } };
static std::unique_ptr<Writer> writer(bool req, std::streambuf* b) { if (req) return std::unique_ptr<Writer>(new WriterT<abc::http_request_ostream<Log>, true>(b)); return std::unique_ptr<Writer>(new WriterT<abc::http_response_ostream<Log>, false>(b)); }
static std::string pser(const std::vector<Part>& P) { std::string r; for (auto& p : P) r += fmt("%d:", p.item) + hex(p.s) + ";"; return r; }
static std::string lines(const std::string& s) { size_t n = 0; for (char c : s) n += c == '\n'; return std::to_string(n); }
static void write_msg(bool req, const std::vector<Part>& P, size_t cap, bool z, bool mv) {
	std::string exp; std::vector<std::string> norms; bool valid = true; size_t upto = 0; int first = req ? hi::method : hi::protocol; (void)first; bool inh = false;
	Out out(cap); auto w = writer(req, &out); size_t total = 0;
	for (size_t k = 0; k < P.size(); k++) {
		const Part& p = P[k]; std::string n; Res v = p.item == hi::body ? OK : part_valid(p, n); if (p.item == hi::body) { if (!inh || inh) { } }
		if (mv) w->move(); size_t nl = 0; for (char c : exp) nl += c == '\n';
		if (p.item == -1) { exp += "\r\n"; w->end(); n = ""; v = OK; } else { w->call(p, z);
			switch (p.item) { case hi::method: case hi::resource: exp += n + " "; break; case hi::protocol: exp += n + (req ? "\r\n" : " "); break; case hi::status_code: exp += n + " "; break; case hi::reason_phrase: exp += n + "\r\n"; break; case hi::header_name: exp += n + ": "; break; case hi::header_value: exp += n + "\r\n"; break; default: exp += p.s; } }
		if (p.item == hi::reason_phrase) n.erase(0, std::min(n.size(), n.find_first_not_of(" \t"))); norms.push_back(p.item == hi::body ? p.s : n); count(TRANS);
		if (v == BAD) { MC_CHECK(w->bad(), "the invalid %s '%s' is accepted: '%s'", NAME[p.item], show(p.s).c_str(), show(out.s).c_str()); size_t m = 0; for (char c : out.s) m += c == '\n'; MC_CHECK(m == nl, "the invalid %s '%s' ended a line: '%s'", NAME[p.item], show(p.s).c_str(), show(out.s).c_str()); valid = false; break; }
		if (v == EITHER && w->bad()) { valid = false; break; }
		if (exp.size() > cap) { MC_CHECK(w->bad(), "the %s does not fit, but no failure is reported", NAME[p.item < 0 ? 5 : p.item]); MC_CHECK(exp.compare(0, out.s.size(), out.s) == 0, "'%s' is written, expected '%s'", show(out.s).c_str(), show(exp).c_str()); valid = false; break; }
		MC_CHECK(!w->bad(), "the valid %s '%s' is rejected", NAME[p.item < 0 ? 5 : p.item], show(p.s).c_str()); MC_CHECK(out.s == exp, "'%s' is written, expected '%s'", show(out.s).c_str(), show(exp).c_str()); upto = k + 1;
	}
	count(EVAL); count(STATES); if (!valid) return; count(TRACES); count(C7); outcome(hash_str(exp));
	// read back
	In in(out.s); std::unique_ptr<Reader> R; if (req) R.reset(new ReqR(&in)); else R.reset(new ResR(&in));
	for (size_t k = 0; k < upto; k++) { const Part& p = P[k]; size_t n = norms[k].size() + (p.item == hi::body ? 0 : 2); Mem b(n); if (p.item == hi::body && k + 1 != P.size()) break; int item = p.item < 0 ? hi::header_name : p.item; MC_CHECK(R->next() == item, "reading back: the next part is %d, expected %s", R->next(), NAME[item]); if (R->next() == hi::header_value && k + 1 == P.size()) break; R->call(item, b.p, n); if (k + 1 < upto || item == hi::body) MC_CHECK(!R->bad(), "reading back the %s '%s' fails", NAME[item], show(norms[k]).c_str()); MC_CHECK(R->gcount() == norms[k].size() && memcmp(b.p, norms[k].data(), norms[k].size()) == 0, "the %s reads back as '%s', expected '%s'", NAME[item], show(std::string(b.p, std::min(n, R->gcount()))).c_str(), show(norms[k]).c_str()); }
}
static void write_case(bool req, const std::vector<Part>& P, size_t cap = ~size_t(0), bool z = false, bool mv = false) { set_case(fmt("write|%d|%zu|%d|%d|", req, cap, z, mv) + pser(P)); write_msg(req, P, cap, z, mv); }
static std::vector<Part> msg(bool req, const std::string& a, const std::string& b, const std::string& c, const std::vector<std::pair<std::string, std::string>>& h, const std::vector<std::string>& body) {
	std::vector<Part> P; if (req) P = { { hi::method, a }, { hi::resource, b }, { hi::protocol, c } }; else P = { { hi::protocol, a }, { hi::status_code, b }, { hi::reason_phrase, c } }; for (auto& x : h) { P.push_back({ hi::header_name, x.first }); P.push_back({ hi::header_value, x.second }); } P.push_back({ -1, "" }); for (auto& x : body) P.push_back({ hi::body, x }); return P; }
// ---------------------------------------------------------------- protocol order (H04)
// read calls: m r p s h n v b; write calls: M R P S H N V E B; Z: reset of the reader, Y: reset of the writer
template <class S> static bool do_read(S& s, char c, char* b, size_t n) {
	if constexpr (std::is_base_of<abc::http_request_istream<Log>, S>::value) { abc::http_request_istream<Log>& q = s; switch (c) { case 'm': q.get_method(b, n); return true; case 'r': q.get_resource(b, n); return true; case 'p': q.get_protocol(b, n); return true; case 'n': q.get_header_name(b, n); return true; case 'v': q.get_header_value(b, n); return true; case 'b': q.get_body(b, n); return true; case 'Z': q.reset(); return true; } }
	if constexpr (std::is_base_of<abc::http_response_istream<Log>, S>::value) { abc::http_response_istream<Log>& q = s; switch (c) { case 'p': q.get_protocol(b, n); return true; case 's': q.get_status_code(b, n); return true; case 'h': q.get_reason_phrase(b, n); return true; case 'n': q.get_header_name(b, n); return true; case 'v': q.get_header_value(b, n); return true; case 'b': q.get_body(b, n); return true; case 'Z': q.reset(); return true; } }
	return false; }
template <class S> static bool do_write(S& s, char c) {
	if constexpr (std::is_base_of<abc::http_request_ostream<Log>, S>::value) { abc::http_request_ostream<Log>& q = s; switch (c) { case 'M': q.put_method("GET"); return true; case 'R': q.put_resource("/x"); return true; case 'P': q.put_protocol("HTTP/1.1"); return true; case 'N': q.put_header_name("A"); return true; case 'V': q.put_header_value("b"); return true; case 'E': q.end_headers(); return true; case 'B': q.put_body("xyz", 3); return true; case 'Y': q.reset(); return true; } }
	if constexpr (std::is_base_of<abc::http_response_ostream<Log>, S>::value) { abc::http_response_ostream<Log>& q = s; switch (c) { case 'P': q.put_protocol("HTTP/1.1"); return true; case 'S': q.put_status_code("200"); return true; case 'H': q.put_reason_phrase("OK"); return true; case 'N': q.put_header_name("A"); return true; case 'V': q.put_header_value("b"); return true; case 'E': q.end_headers(); return true; case 'B': q.put_body("xyz", 3); return true; case 'Y': q.reset(); return true; } }
	return false; }
struct Both : std::streambuf { Mem m; std::string o; Both(const std::string& s) : m(s.size()) { memcpy(m.p, s.data(), s.size()); setg(m.p, m.p, m.p + s.size()); } size_t pos() const { return gptr() - eback(); } int_type overflow(int_type c) override { if (c != traits_type::eof()) o += (char)c; return 0; } };
static int item_of(char c) { switch (c) { case 'm': case 'M': return hi::method; case 'r': case 'R': return hi::resource; case 'p': case 'P': return hi::protocol; case 's': case 'S': return hi::status_code; case 'h': case 'H': return hi::reason_phrase; case 'n': case 'N': case 'E': return hi::header_name; case 'v': case 'V': return hi::header_value; } return hi::body; }
template <class S> static void order(const std::string& calls, int headers, bool reqin) {
	std::string text; for (int k = 0; k < 4; k++) { text += reqin ? "GET /x HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n"; for (int h = 0; h < headers; h++) text += "A: b\r\n"; text += "\r\n"; }
	Both sb(text); S s(&sb, xlog()); bool reqout = std::is_base_of<abc::http_request_ostream<Log>, S>::value; int rn = reqin ? hi::method : hi::protocol, wn = reqout ? hi::method : hi::protocol; int left = headers; size_t pos = 0; bool bad = false;
	for (char c : calls) {
		bool rd = (c >= 'a' && c <= 'z') || c == 'Z'; char b[64]; memset(b, 0x7e, sizeof b); size_t p0 = sb.pos(), o0 = sb.o.size(); bool threw = false, logic = false;
		try { if (rd) do_read(s, c, b, c == 'b' ? 1 : 64); else do_write(s, c); } catch (std::logic_error&) { threw = logic = true; } catch (...) { threw = true; }
		count(TRANS);
		if (c == 'Z' || c == 'Y') { MC_CHECK(!threw && sb.pos() == p0 && sb.o.size() == o0, "reset reads or writes"); if (c == 'Z') rn = reqin ? hi::method : hi::protocol; else wn = reqout ? hi::method : hi::protocol; if (c == 'Z') { sb.pubseekoff(0, std::ios::cur); left = headers; // only reset at a message start or after a whole message keeps the text aligned
				return; } continue; }
		int& nx = rd ? rn : wn; bool right = item_of(c) == nx; const char* nm = NAME[item_of(c)];
		if (!right) { MC_CHECK(threw && logic, "%s '%c' (%s) is not rejected when %s is next", rd ? "reading" : "writing", c, nm, NAME[nx]); MC_CHECK(sb.pos() == p0 && sb.o.size() == o0, "a rejected call (%s) %s", nm, sb.pos() != p0 ? "consumed input" : "emitted output"); if (rd) for (char x : b) MC_CHECK(x == 0x7e, "a rejected call (%s) writes to the buffer", nm); MC_CHECK(!failed(s), "a rejected call (%s) leaves the stream unusable", nm); continue; }
		MC_CHECK(!threw, "%s the %s is rejected though it is next", rd ? "reading" : "writing", nm); MC_CHECK(!failed(s), "%s the %s fails", rd ? "reading" : "writing", nm);
		if (rd) { MC_CHECK(sb.o.size() == o0, "reading emits output"); if (c == 'n') { if (left > 0) { left--; nx = hi::header_value; MC_CHECK(!strcmp(b, "A"), "the header name is '%s'", b); } else { nx = hi::body; MC_CHECK(b[0] == 0, "the end of headers is '%s'", b); } } else if (c != 'b') { static const std::map<int, const char*> X = { { hi::method, "GET" }, { hi::resource, "/x" }, { hi::protocol, "HTTP/1.1" }, { hi::status_code, "200" }, { hi::reason_phrase, "OK" }, { hi::header_value, "b" } }; MC_CHECK(!strcmp(b, X.at(nx)), "the %s is '%s'", nm, b); nx = follow(reqin, nx, false); } }
		else { MC_CHECK(sb.pos() == p0, "writing consumes input"); std::string d = sb.o.substr(o0); static const std::map<char, const char*> X = { { 'M', "GET " }, { 'R', "/x " }, { 'S', "200 " }, { 'H', "OK\r\n" }, { 'N', "A: " }, { 'V', "b\r\n" }, { 'E', "\r\n" }, { 'B', "xyz" } }; std::string e = c == 'P' ? (reqout ? "HTTP/1.1\r\n" : "HTTP/1.1 ") : X.at(c); MC_CHECK(d == e, "writing the %s emits '%s', expected '%s'", nm, show(d).c_str(), show(e).c_str()); if (c == 'E') nx = hi::body; else if (c != 'B') nx = follow(reqout, nx, false); }
		const abc::http_state<Log>* st = nullptr; (void)st; count(C7);
	}
	(void)pos; (void)bad; count(EVAL); count(STATES); count(TRACES); outcome(hash_str(sb.o) * 31 + sb.pos());
}
static void order_any(int kind, const std::string& c, int h) { switch (kind) { case 0: order<abc::http_request_istream<Log>>(c, h, true); break; case 1: order<abc::http_response_istream<Log>>(c, h, false); break; case 2: order<abc::http_request_ostream<Log>>(c, h, false); break; case 3: order<abc::http_response_ostream<Log>>(c, h, false); break; case 4: order<abc::http_server_stream<Log>>(c, h, true); break; default: order<abc::http_client_stream<Log>>(c, h, false); } }
// reset: after any prefix of a message, reset makes the stream start over
template <class S> static void resets(const std::string& calls, bool reqin) {
	std::string text = reqin ? "GET /x HTTP/1.1\r\nA: b\r\n\r\nyy" : "HTTP/1.1 200 OK\r\nA: b\r\n\r\nyy"; Both sb(text); S s(&sb, xlog()); char b[64]; for (char c : calls) { if (c >= 'a') do_read(s, c, b, c == 'b' ? 1 : 64); else do_write(s, c); }
	bool in = std::is_base_of<std::istream, S>::value; sb.o.clear(); if (in) { do_read(s, 'Z', b, 0); struct B2 : Both { using Both::Both; void rew() { setg(eback(), eback(), egptr()); } }; static_cast<B2&>(sb).rew(); for (const char* c = reqin ? "mrpnvnb" : "pshnvnb"; *c; c++) { bool threw = false; try { do_read(s, *c, b, *c == 'b' ? 1 : 64); } catch (...) { threw = true; } MC_CHECK(!threw && !failed(s), "after reset, reading '%c' fails", *c); } }
	else { do_write(s, 'Y'); for (const char* c = std::is_base_of<abc::http_request_ostream<Log>, S>::value ? "MRPNVEB" : "PSHNVEB"; *c; c++) { bool threw = false; try { do_write(s, *c); } catch (...) { threw = true; } MC_CHECK(!threw && !failed(s), "after reset, writing '%c' fails", *c); } }
	count(EVAL); count(STATES); count(TRACES); count(C7); count(TRANS, calls.size() + 8); outcome(hash_str(calls) + in * 3 + reqin); }
static void resets_any(int kind, const std::string& c) { switch (kind) { case 0: resets<abc::http_request_istream<Log>>(c, true); break; case 1: resets<abc::http_response_istream<Log>>(c, false); break; case 2: resets<abc::http_request_ostream<Log>>(c, false); break; default: resets<abc::http_response_ostream<Log>>(c, false); } }
// ---------------------------------------------------------------- resources (H05)
static bool ref_param(const std::string& res, const std::string& name, std::string& v) { size_t q = res.find('?'); if (q == std::string::npos) return false; size_t p = q + 1; for (;;) { size_t e = res.find('&', p); std::string seg = res.substr(p, e == std::string::npos ? e : e - p); if (seg.size() > name.size() && seg.compare(0, name.size(), name) == 0 && seg[name.size()] == '=') { v = seg.substr(name.size() + 1); return true; } if (e == std::string::npos) return false; p = e + 1; } }
static void split_case(const std::string& res, int mode) { // mode 0: exactly sized buffer of one terminator; 1: two terminators; 2: larger buffer with old content; 3: read from a request
	set_case(fmt("split|%d|", mode) + hex(res)); using Q = abc::http_request_istream<Log>; size_t n = res.size() + (mode == 0 ? 1 : mode == 1 ? 2 : 20); Mem b(n); 
	if (mode == 2) for (size_t i = 0; i < n; i++) b.p[i] = "a=9&b=8?"[i % 8];
	if (mode == 3) { std::string t = "GET " + res + " HTTP/1.1\r\n\r\n"; In in(t); Q q(&in, xlog()); char m[8]; q.get_method(m, 8); for (size_t i = 0; i < n; i++) b.p[i] = "a=9&b=8?"[i % 8]; q.get_resource(b.p, n); MC_CHECK(!failed(q), "the resource is not read"); }
	else { memcpy(b.p, res.data(), res.size()); b.p[res.size()] = 0; if (mode) b.p[res.size() + 1] = 0; }
	Q::split_resource(b.p, n); std::string path = res.substr(0, res.find('?')); MC_CHECK(strnlen(b.p, n) == path.size() && path == std::string(b.p, path.size()), "the path of '%s' is '%s'", res.c_str(), show(std::string(b.p, strnlen(b.p, n))).c_str());
	static const std::vector<std::string> names = { "a", "b", "ab", "aa", "ba", "A", "c", "a=", "?a", "/" };
	for (auto& nm : names) { if (nm == "a=") continue; const char* v = Q::get_resource_parameter(b.p, n, nm.c_str()); std::string e; bool has = ref_param(res, nm, e); MC_CHECK(!!v == has, "parameter '%s' of '%s' is %s, expected %s", nm.c_str(), res.c_str(), v ? "found" : "not found", has ? e.c_str() : "none"); if (v) { MC_CHECK(v >= b.p && v < b.p + n, "the value of '%s' in '%s' lies outside of the string", nm.c_str(), res.c_str()); MC_CHECK(e == std::string(v, strnlen(v, b.p + n - v)), "parameter '%s' of '%s' is '%s', expected '%s'", nm.c_str(), res.c_str(), show(v).c_str(), e.c_str()); count(C7); } count(TRANS); }
	count(EVAL); count(STATES); count(TRACES); outcome(hash_str(res)); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(24); g_rule = "a state is one text (or one sequence of calls), every one of a family is executed";
	G.run_case = [](const std::string& c) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = c.find('|', p); f.push_back(c.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } auto N = [&](int i) { return (size_t)strtoull(f[i].c_str(), nullptr, 10); };
		if (f[0] == "read") read_msg(N(1), unhex(f[5]), N(2), N(3), N(4)); else if (f[0] == "write") { std::vector<Part> P; std::string s = f[5]; size_t q = 0; while (q < s.size()) { size_t c1 = s.find(':', q), e = s.find(';', c1); P.push_back({ atoi(s.substr(q, c1 - q).c_str()), unhex(s.substr(c1 + 1, e - c1 - 1)) }); q = e + 1; } write_msg(N(1), P, N(2), N(3), N(4)); } else if (f[0] == "order") order_any(N(1), f[3], N(2)); else if (f[0] == "reset") resets_any(N(1), f[2]); else split_case(unhex(f[2]), N(1)); };
	maybe_replay(); bool T = G.thorough; const std::string& P = G.prop; double DL = T ? 800 : 0;
	std::vector<std::string> reqs = { "GET / HTTP/1.1\r\n\r\n", "POST /a?b=c HTTP/1.0\r\nA: b\r\nC-d:e\r\n\r\nbody", "M-SEARCH * http/11.22\r\nHOST: 1.2.3.4:5\r\n Folded: more\r\nX:\r\n\r\n\0\xff\r\n", "P http://h/%20~ HTTP/1.1 \r\nEmpty:  \r\n\t \r\nN :v  w\t \r\n\r\nx" }, ress = { "HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.0 404 Not  Found \r\nContent-Length: 3\r\nA:b\r\n\r\nabc", "HTTP/2.0 7\r\nX-Y: a, b;c\r\n\td\r\n\r\n" };
	reqs[2] += std::string("\0\xff\r\n", 4);
	std::vector<std::string> hdr = { "a", ":", " ", "\t", "\r\n", ",", "\r", "0" }, st = { "G", "/", " ", "HTTP", "/1", ".", "1", "\r\n", "?" }, rs = { "HTTP/", "1", ".", "2", " ", "O", "\r\n", "\t", "http" };
	if (P == "H01" || P == "H02") {
		bool two = P == "H02"; int d = two ? (T ? 6 : 5) : (T ? 7 : 6);
		for (int n = 1; n <= d; n++) { if (n < d) { pieces(true, hdr, n, "headers_cut", "GET / HTTP/1.1\r\n", ""); pieces(false, hdr, n, "headers_cut_response", "HTTP/1.1 200 OK\r\n", ""); } pieces(true, hdr, n, "headers", "GET / HTTP/1.1\r\n", "\r\n\r\nB"); pieces(true, hdr, n, "value", "GET / HTTP/1.1\r\nn:", "\r\nm:x\r\n\r\nB"); }
		for (int n = 1; n <= d; n++) { pieces(true, st, n, "request_line", "", two ? "" : "\r\n\r\n"); pieces(false, rs, n, "status_line", "", two ? "" : "\r\n\r\n"); if (n < d) { pieces(true, st, n, "request_tail", "G /", " HTTP/1.1\r\n\r\n"); pieces(false, rs, n, "status_tail", "HTTP/1.1 ", "\r\n\r\n"); } }
		auto edits = [&](bool req, const std::vector<std::string>& M) { run_tasks(M.size() * 200, [&](uint64_t x) { const std::string& m = M[x / 200]; size_t p = x % 200; if (p > m.size()) return; std::string a = m.substr(0, p), z = m.substr(p); if (two) { text_case(req, a); for (int b : { 0, 9, 10, 13, 32, 33, 127, 128, 255, (int)'a', (int)':' }) { text_case(req, a + (char)b + z); text_case(req, a + (char)b); if (p < m.size()) text_case(req, a + (char)b + z.substr(1)); } } else for (int b = 0; b < 256; b++) { text_case(req, a + (char)b + z); if (p < m.size()) text_case(req, a + (char)b + z.substr(1)); } if (p < m.size()) text_case(req, a + z.substr(1)); for (size_t q = p + 1; q <= m.size(); q++) text_case(req, a + m.substr(q)); }, DL); };
		edits(true, reqs); edits(false, ress); cover("edits", two ? "seven messages: every cut, every removal, eleven bytes inserted or replaced everywhere" : "seven messages: every byte inserted and replaced everywhere, every removal");
		// lengths of every part
		run_tasks(60, [&](uint64_t n) { std::string s(n + 1, 'a'), g(n + 1, '7'); for (const std::string& m : { s + " / HTTP/1.1\r\n\r\n", "G /" + s + " HTTP/1.1\r\n\r\n", "G / HTTP/" + g + ".1\r\n\r\n", "G / HTTP/1." + g + "\r\n\r\n", "G / HTTP/1.1\r\n" + s + ":b\r\n\r\n", "G / HTTP/1.1\r\nb:" + s + "\r\n\r\n", "G / HTTP/1.1\r\nb:a " + s + " c\r\n\r\n", "G / HTTP/1.1\r\nb:" + s + "\r\n " + s + "\r\n\r\n", "G / HTTP/1.1\r\n\r\n" + s }) { text_case(true, m); if (two) for (size_t b = n; b < n + 6; b++) if (b) read_case(true, m, b, 0, false); } for (const std::string& m : { "HTTP/1.1 " + g + " OK\r\n\r\n", "HTTP/1.1 200 " + s + "\r\n\r\n" }) { text_case(false, m); if (two) for (size_t b = n; b < n + 6; b++) if (b) read_case(false, m, b, 0, false); } }); cover("lengths", "every part with 1..60 characters");
		run_tasks(256, [&](uint64_t b) { for (size_t n = 0; n < 6; n++) for (size_t c = 1; c <= n + 1; c++) { std::string body(n, 'x'); if (n) body[n / 2] = (char)b; read_case(true, "G / HTTP/1.1\r\n\r\n" + body, 32, c, false); read_case(false, "HTTP/1.1 200 OK\r\n\r\n" + body, 32, c, true); } }); cover("bodies", "every byte, lengths 0..5, read in pieces of every size");
	}
	if (P == "H03") {
		using HV = std::vector<std::pair<std::string, std::string>>; std::vector<HV> HS = { {}, { { "A", "b" } }, { { "A", "b" }, { "Content-Length", "3" } }, { { "X", "" }, { "Y", " v  w\t" }, { "Z", "1\r\n 2" } } }; std::vector<std::vector<std::string>> BS = { {}, { "" }, { "body" }, { std::string("\0\xff\r\n\x1a", 5) }, { std::string(300, 'q') } };
		std::vector<std::string> ms = { "GET", "p", "M-SEARCH", "!#$%&'*+-.^_`|~" }, rr = { "/", "*", "/a?b=c&d=%20", "http://h:1/" }, ps = { "HTTP/1.1", "HTTP/1.0", "HTTP/12.34", "http/1.1" }, ss = { "200", "404", "9" }, rp = { "OK", "", "Not Found", " x " };
		run_tasks(HS.size() * BS.size(), [&](uint64_t x) { auto& h = HS[x % HS.size()]; auto& b = BS[x / HS.size()]; for (bool mv : { false, true }) for (bool z : { false, true }) { if (z && b.size() && b[0].find('\0') != std::string::npos) continue; for (auto& m : ms) for (auto& r : rr) for (auto& p : ps) write_case(true, msg(true, m, r, p, h, b), ~size_t(0), z, mv); for (auto& p : ps) for (auto& s : ss) for (auto& r : rp) write_case(false, msg(false, p, s, r, h, b), ~size_t(0), z, mv); } for (size_t cap = 0; cap < 120; cap++) { write_case(true, msg(true, "GET", "/x", "HTTP/1.1", h, b), cap); write_case(false, msg(false, "HTTP/1.1", "200", "OK", h, b), cap); } }); cover("messages", "every combination of 4 methods, resources, protocols, 4 header lists, 5 bodies; every output size");
		// every part over alphabets
		auto alph = [&](int item, const std::vector<std::string>& A, int n) { for (int k = 0; k <= n; k++) { uint64_t all = 1; for (int i = 0; i < k; i++) all *= A.size(); run_tasks(all, [&](uint64_t t) { std::string s; for (int i = 0; i < k; i++) { s += A[t % A.size()]; t /= A.size(); } bool req = item == hi::method || item == hi::resource; for (int both = 0; both < 2; both++) { bool q = item >= hi::header_name || item == hi::protocol ? both : req; if (both && q == req && item < hi::header_name && item != hi::protocol) break; auto m = q ? msg(true, "G", "/", "HTTP/1.1", { { "A", "b" }, { "C", "d" } }, { "xy" }) : msg(false, "HTTP/1.1", "200", "OK", { { "A", "b" }, { "C", "d" } }, { "xy" }); for (auto& p : m) if (p.item == item) { p.s = s; break; } write_case(q, m); } }, DL, 64); } cover(NAME[item], fmt("every sequence of up to %d pieces of %zu", n, A.size())); };
		alph(hi::method, { "a", "Z", "-", " ", "/", ":", "\r\n" }, 4); alph(hi::resource, { "/", "?", "a", " ", "\r\n", "\x7f", "%" }, 4); alph(hi::protocol, { "HTTP", "/", "1", ".", "23", " ", "h" }, T ? 7 : 6); alph(hi::status_code, { "1", "0", "a", " ", "\r\n" }, 5); alph(hi::reason_phrase, { "a", " ", "\t", "\r\n", "\x80", "~" }, 5); alph(hi::header_name, { "a", "-", ":", " ", "\r\n", "9" }, 5); alph(hi::header_value, { "a", " ", "\t", "\r\n", "\r\n ", ",", "\r" }, T ? 8 : 6);
		run_tasks(256, [&](uint64_t b) { for (int item = 0; item < 7; item++) for (const char* w : { "%", "a%", "%a", "a%a", "1%", "%1", "HTTP/1.1%", "HTTP%1.1" }) { std::string s; for (const char* c = w; *c; c++) s += *c == '%' ? (char)b : *c; for (int q = 0; q < 2; q++) { auto m = q ? msg(true, "G", "/", "HTTP/1.1", { { "A", "b" } }, { "xy" }) : msg(false, "HTTP/1.1", "200", "OK", { { "A", "b" } }, { "xy" }); bool any = false; for (auto& p : m) if (p.item == item) { p.s = s; any = true; } if (any) write_case(q, m); } } for (size_t n = 0; n < 4; n++) write_case(true, msg(true, "G", "/", "HTTP/1.1", {}, { std::string(n, (char)b), std::string(1, (char)b) })); }); cover("bytes", "every byte in every part");
		run_tasks(400, [&](uint64_t n) { std::string s(n + 1, 'x'); std::vector<std::pair<std::string, std::string>> h; for (uint64_t i = 0; i < n / 8; i++) h.push_back({ fmt("H%d", (int)i), s.substr(0, i) }); write_case(true, msg(true, s, "/" + s, "HTTP/1.1", h, { s })); write_case(false, msg(false, "HTTP/1.1", "200", s, h, { s })); }); cover("lengths", "parts up to 400 characters, up to 50 headers");
	}
	if (P == "H04") {
		static const char* RD[] = { "mrpnvb", "pshnvb", "", "", "mrpnvb", "pshnvb" }; static const char* WR[] = { "", "", "MRPNVEB", "PSHNVEB", "PSHNVEB", "MRPNVEB" };
		// every call sequence up to a depth that has right calls leading anywhere; prefixes of right calls are extended by every sequence
		for (int kind = 0; kind < 6; kind++) { std::string A = std::string(RD[kind]) + WR[kind]; int n = kind < 4 ? (T ? 8 : 6) : (T ? 6 : 5);
			std::vector<std::string> pre = { "" }; const char* rp = kind == 0 || kind == 4 ? "mrpnvnb" : kind == 1 || kind == 5 ? "pshnvnb" : "", *wp = kind == 2 || kind == 5 ? "MRPNVEB" : kind == 3 || kind == 4 ? "PSHNVEB" : ""; for (size_t i = 0; i <= strlen(rp); i++) for (size_t j = 0; j <= strlen(wp); j++) pre.push_back(std::string(rp, i) + std::string(wp, j)); int m = kind < 4 ? 4 : 2;
			auto seqs = [&](const std::string& p, int k) { uint64_t all = 1; for (int i = 0; i < k; i++) all *= A.size(); for (int h : { 1, 0, 2 }) { if (h != 1 && (kind == 2 || kind == 3)) continue; if (h == 0 && p.find('v') != std::string::npos) continue; run_tasks((all + 511) / 512, [&](uint64_t t) { for (uint64_t q = t * 512; q < std::min<uint64_t>(all, t * 512 + 512); q++) { std::string s = p; uint64_t x = q; for (int i = 0; i < k; i++) { s += A[x % A.size()]; x /= A.size(); } set_case(fmt("order|%d|%d|", kind, h) + s); order_any(kind, s, h); } }, DL); } };
			seqs("", n); for (auto& p : pre) seqs(p, m); static const char* KN[] = { "request_reader", "response_reader", "request_writer", "response_writer", "server_stream", "client_stream" }; cover(KN[kind], fmt("every sequence of %d calls of %zu kinds; every sequence of %d calls after each of %zu partial messages", n, A.size(), m, pre.size())); fprintf(stderr, "kind %d %.1f\n", kind, elapsed()); }
		run_tasks(4, [&](uint64_t kind) { const char* full[] = { "mrpnvnb", "pshnvnb", "MRPNVEB", "PSHNVEB" }; for (size_t i = 0; i <= 7; i++) { std::string c(full[kind], i); set_case(fmt("reset|%d|", (int)kind) + c); resets_any(kind, c); } }); cover("resets", "after every prefix of a message");
	}
	if (P == "H05") {
		std::string A = "ab=&?/"; for (int n = 0; n <= (T ? 9 : 7); n++) { uint64_t all = 1; for (int i = 0; i < n; i++) all *= A.size(); run_tasks((all + 255) / 256, [&](uint64_t t) { for (uint64_t q = t * 256; q < std::min<uint64_t>(all, t * 256 + 256); q++) { std::string s; uint64_t x = q; for (int i = 0; i < n; i++) { s += A[x % A.size()]; x /= A.size(); } for (int mode = 0; mode < 4; mode++) if (mode < 3 || n) split_case(s, mode); if (mc::G.S && n == 6) {} } }, DL); cover(fmt("resources_%d", n), fmt("all %llu strings over %s", (unsigned long long)all, A.c_str())); }
		for (int n = 1; n <= (T ? 6 : 5); n++) { std::vector<std::string> Q = { "a=1", "ab=2", "&", "?", "b", "=", "&&" }; uint64_t all = 1; for (int i = 0; i < n; i++) all *= Q.size(); run_tasks(all, [&](uint64_t t) { std::string s = "/p?"; for (int i = 0; i < n; i++) { s += Q[t % Q.size()]; t /= Q.size(); } for (int mode = 0; mode < 4; mode++) split_case(s, mode); }, DL, 64); } cover("parameters", "every sequence of parameters and separators to a depth");
		run_tasks(256, [&](uint64_t b) { if (b == 0) return; for (const char* w : { "/%?a=1&b=2", "/?%=1&a=2", "/?a=%&b=2", "/?a=1%b=2", "/?a=1&b=2%", "%" }) { std::string s; for (const char* c = w; *c; c++) s += *c == '%' ? (char)b : *c; for (int mode = 0; mode < 3; mode++) split_case(s, mode); } }); cover("bytes", "every byte in six places");
	}
	done();
}
