// S01: the test framework (test.h, exception.h) - every small suite of outcomes, every log, against a direct reading of the suite.
#include "mc.h"
#include "test.h"
#include "log.h"
#include "exception.h"
#include <climits>
#include <cmath>
#include <memory>
using namespace mc;
// the random numbers: a function of the seed; the first ones can be chosen
static unsigned g_state; static std::vector<int> g_script; static size_t g_used; static int g_seeded; // they are used until the second seeding
extern "C" void srand(unsigned s) { if (++g_seeded > 1) g_script.clear(); g_state = s * 2654435761u + 12345; }
extern "C" int rand() { if (g_used < g_script.size()) return g_script[g_used++]; g_state = g_state * 1103515245u + 12345; return (int)(g_state >> 1) % RAND_MAX; }
using Log = abc::log_ostream<abc::test_line_ostream<>, abc::log_filter>; using Ctx = abc::test_context<Log>;
struct Sink : std::streambuf { std::string s; int how = 0; int_type overflow(int_type c) override { if (how == 1) return traits_type::eof(); if (c != traits_type::eof()) s += (char)c; return traits_type::not_eof(c); } std::streamsize xsputn(const char* p, std::streamsize n) override { if (how == 1) return 0; s.append(p, n); return n; } };
// 0 none, 1 all lines, 2 critical lines only, 3 important lines, 4 a destination that fails
struct L { Sink sink; abc::log_filter all{ abc::severity::debug }, crit{ abc::severity::critical }, imp{ abc::severity::important }; std::unique_ptr<Log> log; L(int k) { sink.how = k == 4; if (k) log.reset(new Log(&sink, k == 2 ? &crit : k == 3 ? &imp : &all)); } Log* get() { return log.get(); } 
	std::vector<std::string> lines() { std::vector<std::string> v; std::string c; size_t n = sink.s.size(); for (size_t i = 0; i < n; i++) { if (sink.s[i] == '\x1b') { while (i < n && sink.s[i] != 'm') i++; continue; } if (sink.s[i] == '\n') { v.push_back(c); c.clear(); } else c += sink.s[i]; } if (!c.empty()) v.push_back(c); return v; } };
static bool has(const std::string& a, const std::string& b) { return a.find(b) != std::string::npos; }
static bool word(const std::string& l, const std::string& w) { size_t p = 0; while ((p = l.find(w, p)) != std::string::npos) { size_t e = p + w.size(); if ((p == 0 || isspace((unsigned char)l[p - 1])) && (e == l.size() || isspace((unsigned char)l[e]))) return true; p++; } return false; }
// p pass, f fail, x throws, o throws something that is not an exception, e an empty function, q throws one of the library's exceptions, a compares and fails
static const std::string KINDS = "pfxoeqa";
struct Run { std::vector<std::string> order; std::vector<int> draws; bool result = false; unsigned seed = 0; std::vector<std::string> lines; };
static Run run_suite(const std::vector<std::string>& cats, int lk, unsigned seed, bool vec, int times, const std::string& id) {
	Run r; L l(lk); static const char path[] = "/bin/the_tests"; abc::test_suite<Log>* sp = nullptr; std::vector<abc::named_test_category<Log>> cs; unsigned seen = 0; bool first = true; std::string bad;
	for (size_t i = 0; i < cats.size(); i++) { abc::test_category<Log> c; for (size_t j = 0; j < cats[i].size(); j++) { char k = cats[i][j]; std::string cn = fmt("cat%zu", i), mn = fmt("m%zu_%zu", i, j);
		if (k == 'e') { c.push_back({ mn, abc::test_method<Log>() }); continue; }
		c.push_back({ mn, [&, k, cn, mn](Ctx& x) -> bool { r.order.push_back(mn); r.draws.push_back(std::rand()); if (cn != x.category_name || mn != x.method_name || x.log != l.get() || !x.process_path || strcmp(x.process_path, path)) bad = "the context of " + mn + " is not its own"; if (first) seen = x.seed, first = false; else if (x.seed != seen) bad = "the seed changes during a run";
			switch (k) { case 'f': return false; case 'x': throw std::logic_error("thrown %s %n"); case 'o': throw 5; case 'q': throw abc::exception<std::runtime_error, Log>("thrown too", 0x7, x.log); case 'a': return x.are_equal(1, 2, 0x11, "%d"); } return true; } }); } cs.push_back({ fmt("cat%zu", i), c }); }
	std::unique_ptr<abc::test_suite<Log>> s; if (vec || cs.size() > 3) s.reset(new abc::test_suite<Log>(std::move(cs), l.get(), seed, path)); else switch (cs.size()) { case 0: s.reset(new abc::test_suite<Log>(std::initializer_list<abc::named_test_category<Log>>{}, l.get(), seed, path)); break; case 1: s.reset(new abc::test_suite<Log>({ cs[0] }, l.get(), seed, path)); break; case 2: s.reset(new abc::test_suite<Log>({ cs[0], cs[1] }, l.get(), seed, path)); break; default: s.reset(new abc::test_suite<Log>({ cs[0], cs[1], cs[2] }, l.get(), seed, path)); } (void)sp;
	for (int t = 0; t < times; t++) { r.order.clear(); r.draws.clear(); l.sink.s.clear(); first = true; r.result = s->run(); MC_CHECK(bad.empty(), "%s: %s", id.c_str(), bad.c_str()); MC_CHECK(first || seen == s->seed, "%s: the tests see another seed than the suite's", id.c_str()); }
	r.seed = s->seed; r.lines = l.lines(); return r; }
static std::vector<std::string> cats_of(const std::string& s) { std::vector<std::string> v; if (s.empty()) return v; std::string c; for (char x : s) if (x == ',') { v.push_back(c); c.clear(); } else if (x != '.') c += x; v.push_back(c); return v; }
// the text of a suite: categories separated by commas, "." stands for a category without methods
static void suite_case(const std::string& text, int lk, int vec, int times) {
	auto cats = cats_of(text); std::string id = fmt("the suite '%s'", text.c_str()); g_script.clear(); g_used = 0; Run r = run_suite(cats, lk, 77, vec, times, id);
	std::vector<std::string> want; bool all = true; struct V { std::string name; bool ok; }; std::vector<V> verdicts; for (size_t i = 0; i < cats.size(); i++) { bool cok = true; for (size_t j = 0; j < cats[i].size(); j++) { bool ok = cats[i][j] == 'p'; cok &= ok; verdicts.push_back({ fmt("m%zu_%zu", i, j), ok }); if (cats[i][j] != 'e') want.push_back(verdicts.back().name); } verdicts.push_back({ fmt("cat%zu", i), cok }); all &= cok; } verdicts.push_back({ "summary", all });
	MC_CHECK(r.result == all, "%s is reported as %s", id.c_str(), r.result ? "passed" : "failed"); MC_CHECK(r.order == want, "%s runs %zu methods instead of %zu, or in another order", id.c_str(), r.order.size(), want.size());
	if (lk == 1 || lk == 2 || lk == 3) { size_t k = 0; for (auto& l : r.lines) { bool p = word(l, "PASS"), f = word(l, "FAIL"); if (!p && !f) continue; MC_CHECK(k < verdicts.size() && p != f && word(l, verdicts[k].name) && p == verdicts[k].ok, "%s: the line '%s' is not the verdict on %s", id.c_str(), show(l).c_str(), k < verdicts.size() ? verdicts[k].name.c_str() : "anything"); k++; } MC_CHECK(k == verdicts.size(), "%s: there are %zu verdicts instead of %zu", id.c_str(), k, verdicts.size()); }
	count(STATES); count(EVAL); count(TRACES); count(TRANS, verdicts.size()); outcome(hash_str(text) * 8 + lk); }
// a failed run can be repeated with the seed that it reports
static void seed_case(const std::string& text, int lk, unsigned seed, const std::vector<int>& script) {
	auto cats = cats_of(text); std::string id = fmt("the suite '%s' with seed %u", text.c_str(), seed); g_seeded = 0; if (!seed) g_script = script; else g_script.clear(); g_used = 0; Run a = run_suite(cats, lk, seed, true, 1, id); if (seed) MC_CHECK(a.seed == seed, "%s runs with seed %u", id.c_str(), a.seed);
	unsigned told = a.seed; if (lk == 1) { bool found = false; for (auto& l : a.lines) { size_t p = l.find("seed = "); if (p != std::string::npos) { told = (unsigned)strtoul(l.c_str() + p + 7, nullptr, 10); found = true; } } MC_CHECK(found, "%s: the seed is not reported", id.c_str()); }
	for (int k = 0; k < 2; k++) { g_script.clear(); g_used = 0; std::rand(); Run b = run_suite(cats, 0, told, k, k + 1, id); MC_CHECK(b.draws == a.draws && b.order == a.order && b.result == a.result, "%s: a run with the reported seed %u is not the same run", id.c_str(), told); }
	count(STATES); count(EVAL); count(TRACES); count(TRANS, 3); outcome(hash_str(text) + seed * 77u + told); }
// comparisons
template <class T> static void value_case(T a, T b, const char* f, int lk) { L l(lk); Ctx c("cat", "m", l.get(), 1, "p"); bool want = a == b; std::string sa = fmt(f, a), sb = fmt(f, b); bool got = c.are_equal(a, b, 0x1234, f); MC_CHECK(got == want, "%s and %s compare as %s", sa.c_str(), sb.c_str(), got ? "equal" : "different");
	auto v = l.lines(); bool line = lk == 1 || (lk == 3 && !want); if (lk == 1 || lk == 2 || lk == 3) { MC_CHECK(v.size() == line, "comparing %s with %s logs %zu lines", sa.c_str(), sb.c_str(), v.size()); if (line) MC_CHECK(has(v[0], want ? "Pass" : "Fail") && !has(v[0], want ? "Fail" : "Pass") && has(v[0], "actual=" + sa) && has(v[0], "expected=" + sb), "comparing %s with %s logs '%s'", sa.c_str(), sb.c_str(), show(v[0]).c_str()); } count(TRANS); }
static void string_case(const std::string& a, const std::string& b, int lk) { L l(lk); Ctx c("cat", "m", l.get(), 1, "p"); std::unique_ptr<char[]> p(new char[a.size() + 1]), q(new char[b.size() + 1]); memcpy(p.get(), a.c_str(), a.size() + 1); memcpy(q.get(), b.c_str(), b.size() + 1); bool want = strcmp(a.c_str(), b.c_str()) == 0, got = c.are_equal(p.get(), q.get(), 0x99);
	MC_CHECK(got == want, "'%s' and '%s' compare as %s", show(a).substr(0, 60).c_str(), show(b).substr(0, 60).c_str(), got ? "equal" : "different"); if (lk == 1 && a.size() + b.size() < 500 && !has(a + b, "\n") && !has(a + b, "\x1b")) { auto v = l.lines(); MC_CHECK(v.size() == 1 && has(v[0], want ? "Pass" : "Fail") && has(v[0], "actual=" + a) && has(v[0], "expected=" + b), "comparing '%s' with '%s' logs '%s'", a.c_str(), b.c_str(), v.empty() ? "" : show(v[0]).c_str()); } count(TRANS); count(STATES); count(EVAL); count(TRACES); outcome(hash_str(a) * 31 + hash_str(b)); }
static void blob_case(size_t n, long diff, int bit, int lk) { L l(lk); Ctx c("cat", "m", l.get(), 1, "p"); std::unique_ptr<char[]> p(new char[n]), q(new char[n]); for (size_t i = 0; i < n; i++) p[i] = q[i] = (char)(i * 37 + bit); if (diff >= 0) q[diff] ^= (char)(1 << bit); bool want = diff < 0, got = c.are_equal((const void*)p.get(), (const void*)q.get(), n, 0x5);
	MC_CHECK(got == want, "blobs of %zu bytes%s compare as %s", n, want ? "" : fmt(" that differ in byte %ld", diff).c_str(), got ? "equal" : "different"); if (lk == 1) { size_t lines = 0; for (auto& x : l.lines()) { MC_CHECK(has(x, want ? "Pass" : "Fail"), "a line on blobs is '%s'", show(x).c_str()); lines++; } MC_CHECK(lines > 0 || n == 0, "blobs of %zu bytes are logged with %zu lines", n, lines); std::string all; for (auto& x : l.lines()) all += x + "\n"; for (int w = 0; w < 2; w++) { std::string h; const char* key = w ? "expected=" : "actual="; size_t at = 0; while ((at = all.find(key, at)) != std::string::npos) { at += strlen(key); size_t c = all.find(": ", at); if (c == std::string::npos) break; c += 2; for (int k = 0; k < 16 && h.size() < 2 * n; k++) { if (all[c] == ' ') c++; h += all.substr(c, 2); c += 3; } } MC_CHECK(h == hex(std::string((w ? q : p).get(), n)), "blobs of %zu bytes: the logged %s bytes are %s", n, key, h.substr(0, 200).c_str()); } } count(TRANS); count(STATES); count(EVAL); count(TRACES); outcome(n * 1000 + diff * 8 + bit); }
template <class E> static void exc_case(const std::string& m, unsigned long tag, int lk) { L l(lk); bool caught = false; try { throw abc::exception<E, Log>(m.c_str(), tag, l.get()); } catch (const E& e) { caught = m == e.what(); auto* x = dynamic_cast<const abc::exception<E, Log>*>(&e); MC_CHECK(x && x->tag() == tag, "the tag of an exception is lost"); } MC_CHECK(caught, "the exception '%s' is not caught as its base with its message", show(m).substr(0, 80).c_str());
	if ((lk == 1 || lk == 3) && m.size() < 500) { auto v = l.lines(); MC_CHECK(v.size() == 1 && has(v[0], m), "the exception '%s' is logged as '%s'", show(m).c_str(), v.empty() ? "" : show(v[0]).c_str()); } count(TRANS); }
// long strings of one char are written short
static std::string enc(const std::string& s) { return s.size() < 100 ? hex(s) : fmt("L%d:%zu", (unsigned char)s[0], s.size()); }
static std::string dec(const std::string& s) { int c; size_t n; return !s.empty() && s[0] == 'L' && sscanf(s.c_str(), "L%d:%zu", &c, &n) == 2 ? std::string(n, (char)c) : unhex(s); }
static std::vector<std::string> splitc(const std::string& c) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = c.find('|', p); f.push_back(c.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return f; p = q + 1; } }
static void one(const std::string& c) { set_case(c); auto f = splitc(c); auto n = [&](size_t i) { return atol(f[i].c_str()); };
	if (f[0] == "run") suite_case(f[1], (int)n(2), (int)n(3), (int)n(4));
	else if (f[0] == "seed") { std::vector<int> s; for (char x : f[4]) s.push_back(x == '0' ? 0 : x == '1' ? 1 : x == 'm' ? RAND_MAX : 12345); seed_case(f[1], (int)n(2), (unsigned)strtoul(f[3].c_str(), nullptr, 10), s); }
	else if (f[0] == "int") { static const int I[] = { 0, 1, -1, 2, 77, -77, INT_MAX, INT_MIN }; for (int a : I) for (int b : I) { value_case<int>(a, b, "%d", (int)n(1)); value_case<unsigned>(a, b, "%u", (int)n(1)); value_case<std::size_t>((std::size_t)(unsigned)a << 16, (std::size_t)(unsigned)b << 16, "%zu", (int)n(1)); value_case<double>(a / 4.0, b / 4.0, "%g", (int)n(1)); value_case<char>((char)('A' + (a & 7)), (char)('A' + (b & 7)), "%c", (int)n(1)); value_case<bool>(a > 0, b > 0, "%d", (int)n(1)); value_case<unsigned long long>((unsigned long long)a * 3, (unsigned long long)b * 3, "0x%llx", (int)n(1)); } count(STATES); count(EVAL); count(TRACES); }
	else if (f[0] == "str") string_case(dec(f[1]), dec(f[2]), (int)n(3));
	else if (f[0] == "blob") blob_case((size_t)n(1), n(2), (int)n(3), (int)n(4));
	else if (f[0] == "exc") { std::string m = dec(f[1]); exc_case<std::logic_error>(m, n(2), (int)n(3)); exc_case<std::runtime_error>(m, n(2), (int)n(3)); exc_case<std::out_of_range>(m, ~0ul - n(2), (int)n(3)); count(STATES); count(EVAL); count(TRACES); } }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22); g_rule = "a state is one suite of outcomes with one log; its verdicts are compared with the outcomes"; G.run_case = one; maybe_replay(); bool T = G.thorough;
	// every suite of up to three categories of up to three methods that pass, fail or throw
	const std::string A = "pfxo"; std::vector<std::string> C; for (int n = 0; n <= (T ? 4 : 3); n++) { int all = 1; for (int i = 0; i < n; i++) all *= 4; for (int t = 0; t < all; t++) { std::string s; int y = t; for (int i = 0; i < n; i++) { s += A[y % 4]; y /= 4; } C.push_back(s.empty() ? "." : s); } } size_t c = C.size();
	run_tasks(1, [&](uint64_t) { for (int lk = 0; lk < 5; lk++) for (int v = 0; v < 2; v++) one(fmt("run||%d|%d|2", lk, v)); });
	run_tasks(c, [&](uint64_t t) { for (int lk = 0; lk < 5; lk++) for (int v = 0; v < 2; v++) one(fmt("run|%s|%d|%d|%d", C[t].c_str(), lk, v, 1 + (int)(t & 1))); });
	run_tasks(c * c, [&](uint64_t t) { for (int lk = 0; lk < 5; lk++) one(fmt("run|%s,%s|%d|%d|1", C[t % c].c_str(), C[t / c].c_str(), lk, (int)(t & 1))); }, T ? 300 : 0, 32);
	std::vector<std::string> C2; for (auto& x : C) if (x.size() <= 2) C2.push_back(x); size_t c2 = C2.size(); run_tasks(c2 * c2 * c2, [&](uint64_t t) { for (int lk : { 0, 1, 2 }) one(fmt("run|%s,%s,%s|%d|%d|1", C2[t % c2].c_str(), C2[t / c2 % c2].c_str(), C2[t / c2 / c2].c_str(), lk, (int)(t & 1))); }, T ? 300 : 0, 32); 
	std::vector<std::string> W; for (char a : KINDS) for (char b : KINDS) { W.push_back(std::string() + a + b); W.push_back(std::string() + a + "," + b); for (char d : KINDS) W.push_back(std::string() + a + b + "," + d); } run_tasks(W.size(), [&](uint64_t t) { for (int lk = 0; lk < 5; lk++) one(fmt("run|%s|%d|0|2", W[t].c_str(), lk)); });
	cover("suites", fmt("%zu categories of up to %d methods: alone, in pairs, in triples of up to 2; with seven kinds of outcomes for three methods; five logs", c, T ? 4 : 3));
	std::vector<std::string> S = { "", "0", "00", "000", "1", "01", "m", "0m" }; run_tasks(S.size() * 6, [&](uint64_t t) { static const unsigned sd[] = { 0, 1, 2, 77, RAND_MAX, 4294967295u }; for (const char* s : { "ppp", "pf,p", "xpp" }) for (int lk = 0; lk < 5; lk++) one(fmt("seed|%s|%d|%u|%s", s, lk, sd[t % 6], S[t / 6].c_str())); }); cover("seeds", "given and random ones, with the extreme random numbers first");
	run_tasks(5, [&](uint64_t lk) { one(fmt("int|%d", (int)lk)); });
	const std::string AL = "ab%\x80\n"; std::vector<std::string> st = { "" }; for (size_t i = 0; i < st.size(); i++) if (st[i].size() < (T ? 4u : 3u)) for (char x : AL) st.push_back(st[i] + x); for (int n : { 900, 1000, 1023, 1024, 2000, 2040, 2047, 2048, 2049, 3000, 5000 }) { st.push_back(std::string(n, 'a')); st.push_back(std::string(n, '%')); } run_tasks(st.size(), [&](uint64_t t) { for (auto& b : st) for (int lk : { 0, 1, 2 }) { if (lk == 2 && b.size() > 2) continue; one(fmt("str|%s|%s|%d", enc(st[t]).c_str(), enc(b).c_str(), lk)); } }); cover("strings", fmt("all pairs of %zu strings", st.size()));
	run_tasks(T ? 2100 : 300, [&](uint64_t n) { for (long d = -1; d < (long)n; d += n > 100 ? 13 : 1) for (int bit : { 0, 3, 7 }) for (int lk : { 0, 1 }) one(fmt("blob|%d|%ld|%d|%d", (int)n, d, bit, lk)); }, T ? 200 : 0); cover("blobs", "every size to a bound, equal and different in each byte");
	std::vector<std::string> ms = { "", "m", "a %s %n %d", "%", std::string(400, 'x'), std::string(3000, 'y'), std::string(3000, '%') }; run_tasks(ms.size(), [&](uint64_t i) { for (int tag : { 0, 1, 255 }) for (int lk = 0; lk < 5; lk++) one(fmt("exc|%s|%d|%d", enc(ms[i]).c_str(), tag, lk)); });
	done();
}
