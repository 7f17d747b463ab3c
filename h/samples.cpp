// X01, X02, X04: the samples. Part 0 and 1 are the two games, part 2 is the equation service.
#if SPLIT < 2
#define GAME SPLIT
#include "samples_game.h"
#else
#include "samples_common.h"
#include "tlog.h"
#include "basic/equations.h"
#include <dlfcn.h>
#include <deque>
// ---------------------------------------------------------------- threads
struct Task { void* (*fn)(void*); void* arg; bool done = false; };
static bool deferring = false; static std::deque<Task*> tasks; static std::set<Task*> known;
void defer_threads(bool on) { deferring = on; } size_t pending_threads() { return tasks.size(); }
static void go(Task* t) { if (t->done) return; t->done = true; t->fn(t->arg); }
size_t settle(size_t max) { size_t n = 0; while (!tasks.empty() && n < max) { Task* t = tasks.front(); tasks.pop_front(); go(t); n++; } MC_CHECK(n < 1000, "the engines move without end"); return n; }
extern "C" __attribute__((visibility("default"))) int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { if (!deferring) { auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create"); return real(id, a, fn, arg); } Task* t = new Task{ fn, arg }; known.insert(t); tasks.push_back(t); *id = (pthread_t)t; return 0; }
extern "C" __attribute__((visibility("default"))) int pthread_join(pthread_t id, void** r) { Task* t = (Task*)id; if (!known.count(t)) { auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return real(id, r); } for (auto i = tasks.begin(); i != tasks.end(); ++i) if (*i == t) { tasks.erase(i); break; } go(t); known.erase(t); delete t; return 0; }
extern "C" __attribute__((visibility("default"))) int pthread_detach(pthread_t id) { Task* t = (Task*)id; if (!known.count(t)) { auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return real(id); } return 0; }
static std::vector<int> rscript; static size_t rpos; static int rcount; long rand_calls;
void script_rand(const std::vector<int>& v) { rscript = v; rpos = 0; rcount = 0; }
extern "C" __attribute__((visibility("default"))) int rand() { rand_calls++; if (rpos < rscript.size()) return rscript[rpos++]; return 1000 + 7 * rcount++; }
// ---------------------------------------------------------------- equations
struct Eq : abc::samples::equations_endpoint<abc::endpoint_limits, TLog> { using base = abc::samples::equations_endpoint<abc::endpoint_limits, TLog>; Eq(abc::endpoint_config* c) : base(c, SLOG) {}
	int one(std::streambuf* sb) { abc::http_server_stream<TLog> http(sb, SLOG); char m[65], r[1025], p[65]; http.get_method(m, sizeof m); http.get_resource(r, sizeof r); http.get_protocol(p, sizeof p); this->process_rest_request(http, m, r); http.flush(); return 0; } };
static Eq& eq() { static abc::endpoint_config c("80", 5, "/nowhere", "/resources/"); static Eq* e = new Eq(&c); return *e; }
static std::string problem(const std::string& body, const std::string& hdr = "Content-Type: application/json\r\n") { return "POST /problem HTTP/1.1\r\n" + hdr + "\r\n" + body; }
static double num(const Answer& a, const char* n) { for (size_t i = 0; i + 1 < a.t.size(); i++) if (a.t[i].item == it::property && a.t[i].text == n && a.t[i + 1].item == it::number) return a.t[i + 1].num; return NAN; }
static void solved(const Answer& a, const double* v, const std::string& body) { // integers of moderate size: everything is exact
	int st = (int)num(a, "status"); double D = v[0] * v[3] - v[1] * v[2]; int want; if (D != 0) want = 1; else { // rank of the augmented matrix
		bool zero = !v[0] && !v[1] && !v[2] && !v[3]; if (zero) want = v[4] || v[5] ? 0 : 2; else { // one row of the left side is not zero
			double r0 = v[0] * v[5] - v[2] * v[4], r1 = v[1] * v[5] - v[3] * v[4]; want = r0 || r1 ? 0 : 2; if (!v[0] && !v[1] && v[4]) want = 0; if (!v[2] && !v[3] && v[5]) want = 0; } }
	MC_CHECK(st == want, "the system %s is classified as %d, expected %d", body.c_str(), st, want);
	if (want == 1) { double x = num(a, "x"), y = num(a, "y"); double e1 = std::fabs(v[0] * x + v[1] * y - v[4]), e2 = std::fabs(v[2] * x + v[3] * y - v[5]); double s = 1 + std::fabs(v[0] * x) + std::fabs(v[1] * y) + std::fabs(v[2] * x) + std::fabs(v[3] * y) + std::fabs(v[4]) + std::fabs(v[5]); MC_CHECK(e1 < 1e-9 * s && e2 < 1e-9 * s, "the solution of %s is given as %g, %g", body.c_str(), x, y); } }
static void system_case(const double* v) { std::string body = fmt("{\"a\": [[%g, %g], [%g, %g]], \"b\": [%g, %g]}", v[0], v[1], v[2], v[3], v[4], v[5]); static int every; if (every++ % 16 == 0) tick(); set_case("eq|s|" + fmt("%g,%g,%g,%g,%g,%g", v[0], v[1], v[2], v[3], v[4], v[5])); auto a = answer(serve(eq(), problem(body)), body); MC_CHECK(a.status == 200, "the system %s is answered with status %d", body.c_str(), a.status); solved(a, v, body); count(STATES); count(EVAL); count(TRANS); outcome(hash_str(a.body)); }
// what a body means: 0 error, 1 a system
static bool want_system(const Ref& j, size_t& used, double* v) { size_t k = 0; auto is = [&](int item) { used = k; return k < j.toks.size() && j.toks[k].item == item; }; if (!is(it::begin_object)) return false; k++; bool ha = false, hb = false; auto arr2 = [&](double* o) { if (!is(it::begin_array)) return false; k++; for (int i = 0; i < 2; i++) { if (!is(it::number)) return false; o[i] = j.toks[k++].num; } if (!is(it::end_array)) return false; k++; return true; };
	for (;;) { if (is(it::end_object)) return ha && hb; if (!is(it::property)) return false; std::string n = j.toks[k++].text; if (n == "a") { if (!is(it::begin_array)) return false; k++; if (!arr2(v) || !arr2(v + 2)) return false; if (!is(it::end_array)) return false; k++; ha = true; } else if (n == "b") { if (!arr2(v + 4)) return false; hb = true; } else { size_t e = k < j.toks.size() && may_skip_at(j, k) ? value_end(j, k) : ~size_t(0); if (e == ~size_t(0)) { used = j.toks.size(); return false; } k = e; } } }
static void eq_body(const std::string& body) { set_case("eq|b|" + hex(body)); Ref j = ref(body, 60); size_t used = 0; double v[6] = {}; bool w = want_system(j, used, v); { std::string b0 = "{\"a\": [[1, 2], [3, 4]], \"b\": [5, 6]}"; serve(eq(), problem(b0)); /* valid values in the memory that the next request uses */ } auto a = answer(serve(eq(), problem(body)), body); bool lng = j.maxdepth > 50; for (auto& t : j.toks) lng |= t.text.size() > 900 || t.text.find('\0') != std::string::npos; bool small = true; for (double x : v) small &= std::fabs(x) < 1e6 && x == (long)x;
	if (j.tolerated <= used || lng) MC_CHECK(a.status / 100 == 2 || a.status / 100 == 4, "the body %s is answered with status %d", show(body).c_str(), a.status); else if (!w) MC_CHECK(a.status / 100 == 4, "the body %s is answered with status %d", show(body).c_str(), a.status); else if (small) MC_CHECK(a.status == 200, "the body %s is answered with status %d", show(body).c_str(), a.status);
	if (a.status == 200 && w && small && j.tolerated > used) solved(a, v, body); count(STATES); count(EVAL); count(TRANS); outcome(hash_str(body)); }
static std::vector<std::pair<std::string, int>>& requests() { static std::vector<std::pair<std::string, int>> v; if (v.empty()) { std::string b = "{\"a\": [[1, 2], [3, 4]], \"b\": [5, 6]}", ct = "Content-Type: application/json\r\n"; auto add = [&](const std::string& r, int s) { v.push_back({ r, s }); };
	for (const char* m : { "GET", "PUT", "DELETE", "HEAD", "post", "POSTX", "POS" }) add(std::string(m) + " /problem HTTP/1.1\r\n" + ct + "\r\n" + b, !strcmp(m, "post") ? 2 : 4); for (const char* r : { "/", "/problems", "/proble", "/problem/", "//problem", "problem", "/problem?x=1", "/x" }) add(std::string("POST ") + r + " HTTP/1.1\r\n" + ct + "\r\n" + b, 4); add("POST /PROBLEM HTTP/1.1\r\n" + ct + "\r\n" + b, 2); for (const char* t : { "application/json", "APPLICATION/JSON", "application/json; charset=utf-8" }) add(problem(b, std::string("Content-Type: ") + t + "\r\n"), 2); for (const char* t : { "text/plain", "application/jso", "json", "x", "" }) add(problem(b, std::string("Content-Type: ") + t + "\r\n"), t[0] ? 4 : 0); add(problem(b, ct + ct), 4); add(problem(b, ct + "X: 1\r\n" + ct), 4); add(problem(b, "X: 1\r\nY: 2\r\n" + ct + "Z: 3\r\n"), 2); add(problem(b, ""), 0); add(problem(b, "content-type: application/json\r\n"), 2);
	for (int n = 1000; n < 1050; n++) { add(problem(b, std::string(n, 'h') + ": v\r\n" + ct), 0); add(problem(b, "h: " + std::string(n, 'v') + "\r\n" + ct), 0); add(problem(b, "Content-Type: application/json" + std::string(n, 'v') + "\r\n"), 0); } add("POST /problem HTTP/1.1\r\n" + ct, 4); add("POST /problem HTTP/1.1\r\n", 4); add("POST /problem HTTP/1.1\r\n\r\n", 4); add("POST /problem HTTP/1.1\r\nX\r\n\r\n" + b, 0); add("GET /shutdown HTTP/1.1\r\n\r\n", 4);
	std::string all = problem(b); for (size_t n = 22; n < all.size(); n++) add(all.substr(0, n), 4); } return v; }
static void eq_request(size_t i) { set_case(fmt("eq|r|%zu", i)); auto& r = requests()[i]; auto a = answer(serve(eq(), r.first), r.first); if (r.second) MC_CHECK(a.status / 100 == r.second, "the request %s is answered with status %d", show(r.first).c_str(), a.status); else MC_CHECK(a.status / 100 == 2 || a.status / 100 == 4, "the request %s is answered with status %d", show(r.first).c_str(), a.status); count(STATES); count(EVAL); outcome(hash_str(r.first)); }
static void check_equations() {
	bool T = G.thorough; int lo = T ? -3 : -1, n = T ? 6 : 4; uint64_t all = 1; for (int i = 0; i < 6; i++) all *= n; run_tasks(all, [&](uint64_t t) { double v[6]; for (auto& x : v) { x = lo + (int)(t % n); t /= n; } system_case(v); }, T ? 200 : 0, 64); cover("systems", fmt("all %llu systems with coefficients of %d..%d", (unsigned long long)all, lo, lo + n - 1));
	static const double B[] = { 0, 1, -7, 1000, 0.5, 99999, -0.25 }; if (!xdiff) run_tasks(117649, [&](uint64_t t) { if (!T && t % 7) return; uint64_t y = t; double v[6]; for (auto& x : v) { x = B[y % 7]; y /= 7; } system_case(v); }, 0, 64);
	static std::vector<std::string> b; std::string base = "{\"a\": [[1, 2], [3, 4]], \"b\": [5, 6]}"; b = edits(base, "{}[]\":,019-. xab\\enul"); if (T) { auto c = edits(base, "{}[]\":,1"); for (auto& x : c) { auto d = edits(x, "]\","); b.insert(b.end(), d.begin(), d.end()); } } for (const char* x : { "", "{}", "[]", "null", "1", "\"a\"", "{\"a\": [[1, 2], [3, 4]]}", "{\"b\": [5, 6]}", "{\"b\": [5, 6], \"a\": [[1, 2], [3, 4]]}", "{\"x\": {\"a\": [1]}, \"a\": [[1, 2], [3, 4]], \"y\": [[], {}], \"b\": [5, 6], \"z\": null}", "{\"a\": [[1, 2], [3, 4], [5, 6]], \"b\": [5, 6]}", "{\"a\": [[1, 2, 3], [3, 4]], \"b\": [5, 6]}", "{\"a\": [1, 2, 3, 4], \"b\": [5, 6]}", "{\"a\": [[1, 2], [3, 4]], \"b\": [5]}", "{\"a\": [[1, 2], [3, 4]], \"b\": [5, 6, 7]}", "{\"a\": [[1, 2], [3, 4]], \"b\": [5, 6], \"b\": [7, 8]}", "{\"A\": [[1, 2], [3, 4]], \"b\": [5, 6]}", "{\"a\": [[1e200, 0], [0, 1e200]], \"b\": [1, 1]}", "{\"a\": [[1e200, 1e200], [1e200, 1e200]], \"b\": [1, 1]}", "{\"a\": [[1e-200, 0], [0, 1e-200]], \"b\": [1e200, 1]}", "{\"a\": [[1, 0], [0, 1e-300]], \"b\": [1, 1e100]}", "{\"a\": [[1e999, 0], [0, 1]], \"b\": [1, 1]}", "{\"a\": [[1e-300, 0], [0, 1]], \"b\": [1e300, 1]}" }) b.push_back(x); for (int d : { 1, 10, 60, 63, 64, 65, 200 }) for (const char* o : { "[", "{\"k\":" }) { std::string s = "{\"x\": "; for (int i = 0; i < d; i++) s += o; if (o[0] == '{') s += "1"; for (int i = 0; i < d; i++) s += o[0] == '[' ? "]" : "}"; b.push_back(s + ", " + base.substr(1)); } for (int l : { 100, 1000, 1023, 1024, 1025, 1026, 3000 }) { b.push_back("{\"" + std::string(l, 'p') + "\": 1, " + base.substr(1)); b.push_back("{\"p\": \"" + std::string(l, 'p') + "\", " + base.substr(1)); }
	run_tasks(b.size(), [&](uint64_t i) { eq_body(b[i]); }, T ? 200 : 0, 32); cover("bodies", fmt("%zu bodies: every one-edit neighbour of a valid body%s, other shapes, huge numbers, nesting and lengths around the limits", b.size(), T ? ", and two edits" : ""));
	requests(); run_tasks(requests().size(), [&](uint64_t i) { eq_request(i); }); cover("requests", fmt("%zu requests: methods, resources, headers, every cut point", requests().size()));
}
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22); g_rule = "a state is one position, one request or one history; every one of a family is executed";
	G.run_case = [&](const std::string& c) { if (c.compare(0, 3, "ttt") == 0) game_t()->run_case(c); else if (c.compare(0, 2, "c4") == 0) game_c()->run_case(c); else { auto f = splitc(c, '|'); if (f[1] == "s") { double v[6]; auto n = splitc(f[2], ','); for (int i = 0; i < 6; i++) v[i] = atof(n[i].c_str()); system_case(v); } else if (f[1] == "b") eq_body(unhex(f[2])); else eq_request(atoi(f[2].c_str())); } };
	maybe_replay(); const std::string& P = G.prop; auto on = [](const char* n) { const char* o = getenv("MC_ONLY"); return !o || strstr(o, n); };
	if (P == "X01") { if (on("ttt")) game_t()->board(); if (on("c4")) game_c()->board(); }
	if (P == "X02") { if (on("eq")) check_equations(); if (on("ttt")) game_t()->service(); if (on("c4")) game_c()->service(); }
	if (P == "X04") { if (on("ttt")) game_t()->engines(); if (on("c4")) game_c()->engines(); }
	done();
}
#endif
