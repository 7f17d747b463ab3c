// V09: bytes through persistent strings and the streams on them.
#include "vmem_common.h"
using namespace mc;
using Pool = abc::vmem_pool<8, Log>; using Page = abc::vmem_page<Pool, Log>; using Str = abc::vmem_string<Pool, Log>; using Buf = abc::vmem_string_streambuf<Pool, Log>;
struct X { Pool* pool = nullptr; Page* start = nullptr; Str* str = nullptr; Buf* buf = nullptr;
	void open() { pool = new Pool("ffs:0", NOLOG); start = new Page(pool, abc::vmem_page_pos_start, NOLOG); str = new Str((abc::vmem_string_state*)start->ptr(), pool, NOLOG); buf = new Buf(str, NOLOG); }
	void close() { delete buf; delete str; delete start; delete pool; buf = nullptr; } };
static const int EOFV = -1;
// ops: a,b,z,n put 'x','y',0xFF,0 | w put three | f flush | g get | k peek | r read two | m move the stream | 2 push_back directly (after flush)
static std::string prefix(size_t n, int salt) { std::string s; for (size_t i = 0; i < n; i++) s += (char)(unsigned char)((i * 131 + salt + (i >> 8)) & 0xFF); return s; }
static void check_all(X& x, const std::string& all, const char* when) {
	MC_CHECK(x.str->size() == all.size(), "%s: the string has %zu bytes, expected %zu", when, (size_t)x.str->size(), all.size());
	size_t i = 0; for (auto it = x.str->begin(); it != x.str->end(); ++it, ++i) MC_CHECK(i < all.size() && (unsigned char)*it == (unsigned char)all[i], "%s: byte %zu of the string differs", when, i);
	MC_CHECK(i == all.size(), "%s: iteration yields %zu of %zu bytes", when, i, all.size());
	{ Buf rb(x.str, NOLOG); for (i = 0; i < all.size(); i++) { int c = rb.sbumpc(); MC_CHECK(c == (unsigned char)all[i], "%s: a new stream reads %d at %zu, expected %d", when, c, i, (unsigned char)all[i]); } int c = rb.sgetc(); MC_CHECK(c == EOFV, "%s: a new stream reads %d after the last byte", when, c); }
}
static void run(const std::string& pre, const std::string& ops, bool full) {
	std::string put = pre; size_t flushed = pre.size(), got = 0; X x; x.open();
	for (char c : pre) x.buf->sputc(c); if (!pre.empty()) { MC_CHECK(x.buf->pubsync() == 0, "flush fails"); }
	// read up to three bytes before the end of the prefix through the stream
	size_t skip = pre.size() > 3 ? pre.size() - 3 : 0; for (; got < skip; got++) { int c = x.buf->sbumpc(); MC_CHECK(c == (unsigned char)pre[got], "byte %zu reads as %d, expected %d", got, c, (unsigned char)pre[got]); }
	auto took = [&](int c, const char* what, bool adv) {
		if (c == EOFV) { MC_CHECK(got >= flushed, "%s: the end is reported after %zu of %zu flushed bytes", what, got, flushed); return; }
		MC_CHECK(got < put.size(), "%s: byte %d is read after all %zu bytes were read", what, c, put.size()); MC_CHECK(c == (unsigned char)put[got], "%s: byte %zu reads as %d, expected %d", what, got, c, (unsigned char)put[got]); if (adv) got++; };
	for (char o : ops) switch (o) {
		case 'a': case 'b': case 'z': case 'n': { char c = o == 'a' ? 'x' : o == 'b' ? 'y' : o == 'z' ? (char)0xFF : 0; int r = x.buf->sputc(c); MC_CHECK(r == (unsigned char)c, "writing byte %d returns %d", (unsigned char)c, r); put += c; break; }
		case 'w': { const char t[3] = { 'p', (char)0xFF, 'q' }; auto n = x.buf->sputn(t, 3); MC_CHECK(n == 3, "writing three bytes returns %d", (int)n); put.append(t, 3); break; }
		case 'f': { int r = x.buf->pubsync(); MC_CHECK(r == 0, "flush returns %d", r); flushed = put.size(); MC_CHECK(x.str->size() == put.size(), "after flush the string has %zu bytes, expected %zu", (size_t)x.str->size(), put.size()); break; }
		case 'g': took(x.buf->sbumpc(), "get", true); break;
		case 'k': took(x.buf->sgetc(), "peek", false); break;
		case 'r': { char t[2] = { 1, 1 }; auto n = x.buf->sgetn(t, 2); for (int i = 0; i < n; i++) took((unsigned char)t[i], "read", true); if (n < 2) took(EOFV, "read", false); break; }
		case 'm': { Buf* b = new Buf(std::move(*x.buf)); delete x.buf; x.buf = b; break; }
		case 's': { std::ostream os(x.buf); os << 42 << std::flush; MC_CHECK(os.good(), "formatted output fails"); put += "42"; flushed = put.size(); break; }
	}
	MC_CHECK(x.buf->pubsync() == 0, "flush fails"); flushed = put.size();
	if (full) check_all(x, put, "in the end");
	else MC_CHECK(x.str->size() == put.size(), "the string has %zu bytes, expected %zu", (size_t)x.str->size(), put.size());
	while (got < put.size()) took(x.buf->sbumpc(), "draining", true); int c = x.buf->sbumpc(); MC_CHECK(c == EOFV, "byte %d is read after the end", c);
	// the string outlives the stream
	outcome(hash_str(put.substr(skip) + "|" + std::to_string(got)));
	x.close();
	if (full) { X y; fk::kill_process(); y.open(); check_all(y, put, "after reopening"); y.close(); }
	MC_CHECK(!fk::S.misuse, "%s", fk::S.misuse_what.c_str()); count(EVAL); count(TRANS, ops.size()); count(STATES); count(TRACES);
}
static void one(const std::string& c) { // bytes|hex or  seq|prefix,salt|ops
	fk::kill_process(); fk::wipe(); size_t b = c.find('|');
	if (c.substr(0, b) == "bytes") { std::string s = unhex(c.substr(b + 1)); X x; x.open(); for (char ch : s) x.str->push_back(ch); check_all(x, s, "appended"); x.close(); fk::kill_process(); fk::wipe(); X y; y.open(); { std::ostream os(y.buf); os.write(s.data(), s.size()); os.flush(); MC_CHECK(os.good(), "writing fails"); } check_all(y, s, "written"); { Buf rb(y.str, NOLOG); std::istream is(&rb); std::string g((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); MC_CHECK(g == s, "reading all bytes yields %zu bytes, expected %zu", g.size(), s.size()); } y.close(); outcome(hash_str(s)); count(EVAL); count(STATES); count(TRANS, s.size()); count(TRACES); return; }
	int n, salt; sscanf(c.c_str() + b + 1, "%d,%d|", &n, &salt); run(prefix(n, salt), c.substr(c.rfind('|') + 1), true);
}
int main(int argc, char** argv) {
	init(argc, argv); fk::init(); g_level = "model_checking"; G.distinct.init(24); G.run_case = [](const std::string& c) { fk::privatize(); one(c); }; maybe_replay();
	g_rule = "a state is a history of stream operations on a string with a given prefix; histories are enumerated, not merged";
	auto go = [&](uint64_t) { static bool p = false; if (!p) { fk::privatize(); p = true; } };
	run_tasks(256 + 256, [&](uint64_t i) { go(i); if (i < 256) { std::string c = "bytes|" + hex(std::string(1, (char)i)); set_case(c); one(c); return; } i -= 256; for (int j = 0; j < 256; j += G.thorough ? 1 : xdiff ? 85 : 15) { std::string c = "bytes|" + hex(std::string(1, (char)i) + (char)j); set_case(c); one(c); } for (int j = 0; j < 256; j += 85) { std::string c = "bytes|" + hex(std::string(1, (char)j) + (char)i + (char)255); set_case(c); one(c); } });
	cover("bytes", "every single byte value, pairs of byte values"); fprintf(stderr, "%.1f\n", elapsed());
	const std::string AL = "azfgkmrw"; int D = xdiff ? 3 : G.thorough ? 8 : 6;
	std::vector<std::pair<int, int>> pre = { { 0, 0 }, { 1, 0 }, { 2, 255 } };
	for (auto& p : pre) { int DD = p.first == 0 ? D : D - 1; uint64_t tot = 1; for (int k = 0; k < DD - 2; k++) tot *= AL.size(); bool ok = run_tasks(tot, [&](uint64_t t) { go(t); std::string o; uint64_t q = t; for (int k = 0; k < DD - 2; k++) { o += AL[q % AL.size()]; q /= AL.size(); } for (char a : AL) for (char b : AL) { std::string ops = o + a + b; set_case(fmt("seq|%d,%d|", p.first, p.second) + ops); fk::kill_process(); fk::wipe(); run(prefix(p.first, p.second), ops, true); if (t % 4096 == 0) sample(ops); } }, G.thorough ? 700 : 0, 8); cover(fmt("prefix_%d", p.first), fmt("%severy sequence of %d operations over %s", ok ? "" : "time cap: part of ", DD, AL.c_str())); }
	fprintf(stderr, "%.1f\n", elapsed());
	// around page boundaries: page content size is not assumed, a window of lengths covers it
	std::vector<int> lens; for (int n = 4040; n <= 4097; n++) lens.push_back(n); for (int n = 8080; n <= 8194; n += G.thorough ? 1 : 3) lens.push_back(n); for (int n : { 12150, 12200, 12240, 12287 }) lens.push_back(n);
	if (xdiff) { std::vector<int> l2; for (size_t i = 0; i < lens.size(); i += 60) l2.push_back(lens[i]); lens = l2; }
	std::vector<std::string> tails; const std::string A2 = xdiff ? "aw" : "afgkmsw"; for (char a : A2) for (char b : A2) { std::string t = { a, b }; tails.push_back(t + "fgg"); if (G.thorough) for (char c : A2) tails.push_back(t + c + "g"); } 
	run_tasks(lens.size() * tails.size(), [&](uint64_t i) { go(i); std::string ops = tails[i % tails.size()]; int n = lens[i / tails.size()]; set_case(fmt("seq|%d,7|", n) + ops); fk::kill_process(); fk::wipe(); run(prefix(n, 7), ops, i % tails.size() == 0); }, G.thorough ? 840 : 0);
	cover("boundaries", fmt("%zu lengths around page ends x %zu operation tails", lens.size(), tails.size()));
	done();
}
