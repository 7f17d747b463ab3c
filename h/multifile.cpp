// F01: rotating files. Every sequence of writes, flushes, clock steps, moves and reopenings against a model of the files.
#include "mc.h"
#include "xlog.h"
#include "multifile.h"
#include "log.h"
#include <dirent.h>
#include <ctime>
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace mc;
static long g_fail_at = -1, g_writes = 0; static int g_fail_fd_min = 0; static bool g_active = false;
static bool failing() { return g_active && g_writes++ == g_fail_at; }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (failing()) { errno = ENOSPC; return -1; } return syscall(SYS_write, fd, b, n); }
extern "C" ssize_t writev(int fd, const iovec* v, int n) { if (failing()) { errno = ENOSPC; return -1; } return syscall(SYS_writev, fd, v, n); }
static long long g_now; // nanoseconds
struct Clk { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = false; static time_point now() noexcept { return time_point(duration(g_now)); } };
static std::string g_dir;
static void wipe() { DIR* d = opendir(g_dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((g_dir + "/" + e->d_name).c_str()); closedir(d); }
static std::map<std::string, std::string> files() { std::map<std::string, std::string> m; DIR* d = opendir(g_dir.c_str()); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { std::string s; int f = open((g_dir + "/" + e->d_name).c_str(), O_RDONLY); char b[65536]; ssize_t n; while ((n = read(f, b, sizeof(b))) > 0) s.append(b, n); close(f); m[e->d_name] = s; } closedir(d); return m; }
static std::string name_of(long long ns) { time_t t = ns / 1000000000; tm g; gmtime_r(&t, &g); char b[40]; snprintf(b, sizeof(b), "%04d%02d%02d_%02d%02d%02d", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec); return b; }
struct Any { virtual ~Any() {} virtual std::streambuf* sb() = 0; virtual void reopen() = 0; virtual Any* moved() = 0; virtual const char* path() = 0; };
template <class S> struct Of : Any { S s; template <class... A> Of(A&&... a) : s(std::forward<A>(a)...) {} Of(S&& o, int) : s(std::move(o)) {} std::streambuf* sb() override { return &s; } void reopen() override { s.reopen(); } Any* moved() override { return new Of(std::move(s), 0); } const char* path() override { return s.path(); } };
constexpr size_t MP = 300; using M0 = abc::multifile_streambuf<MP, Clk, XLog>; using MD = abc::duration_multifile_streambuf<MP, Clk, XLog>; using MS = abc::size_multifile_streambuf<MP, Clk, XLog>;
// kind m, d (parameter in 1/10 s), s (parameter in bytes); slash: the path ends with a separator; app: append mode
static const long long T0 = 951782398ll * 1000000000; // 2000-02-28 23:59:58
static void run(char kind, long par, int form, const std::string& ops, long fail) {
	wipe(); g_now = T0; g_active = false; g_writes = 0; g_fail_at = fail; std::string p = g_dir; if (form & 1) p += "/"; std::ios_base::openmode mode = std::ios_base::out; if (form & 2) mode |= std::ios_base::app; if (form & 4) mode |= std::ios_base::binary | std::ios_base::trunc;
	std::unique_ptr<Any> a; if (kind == 'm') a.reset(new Of<M0>(p.c_str(), mode, xlog())); else if (kind == 'd') a.reset(new Of<MD>(Clk::duration(par * 100000000ll), p.c_str(), mode, xlog())); else a.reset(new Of<MS>((size_t)par, p.c_str(), mode, xlog()));
	std::map<std::string, std::string> want; std::string cur = name_of(g_now); want[cur]; long long opened = g_now; bool lost = false; unsigned char next = 1; const char* w = ops.c_str();
	auto reopened = [&] { cur = name_of(g_now); want[cur]; opened = g_now; };
	for (size_t k = 0; k < ops.size(); k++) { char o = ops[k]; g_active = fail >= 0; bool ok = true; count(TRANS);
		switch (o) {
		case '1': case '3': case '5': case 'B': { int n = o == 'B' ? 9000 : o - '0'; std::string d; for (int i = 0; i < n; i++) d += (char)next++; std::streamsize r = a->sb()->sputn(d.data(), n); ok = r == n; want[cur] += d; break; }
		case 'c': { char c = (char)next++; auto r = a->sb()->sputc(c); ok = !std::char_traits<char>::eq_int_type(r, std::char_traits<char>::eof()) || c == (char)0xff; want[cur] += c; break; }
		case 'C': for (int i = 0; i < 8200; i++) { char c = (char)(next++ & 0x7f); ok &= a->sb()->sputc(c) != std::char_traits<char>::eof(); want[cur] += c; } break;
		case 'f': { ok = a->sb()->pubsync() == 0; break; }
		case 't': g_now += 400000000; break; case 'T': g_now += 1000000000; break;
		case 'R': a->reopen(); reopened(); break;
		case 'M': { std::unique_ptr<Any> b(a->moved()); a = std::move(b); break; }
		}
		g_active = false;
		if (!ok) { MC_CHECK(fail >= 0, "%s step %zu: a write or flush fails", w, k); lost = true; break; }
		if (o == 'f') { bool due = kind == 'd' ? g_now - opened >= par * 100000000ll : kind == 's' ? (long)want[cur].size() >= par : false; if (due) reopened(); }
		if (o == 'f' || o == 'R') { auto got = files(); for (auto& f : got) MC_CHECK(want.count(f.first), "%s step %zu: file %s should not exist", w, k, f.first.c_str()); for (auto& f : want) { MC_CHECK(got.count(f.first), "%s step %zu: file %s is missing", w, k, f.first.c_str()); MC_CHECK(got[f.first] == f.second, "%s step %zu: file %s has %zu bytes '%s', expected %zu '%s'", w, k, f.first.c_str(), got[f.first].size(), show(got[f.first]).substr(0, 60).c_str(), f.second.size(), show(f.second).substr(0, 60).c_str()); } count(STATES); MC_CHECK(std::string(a->path()) == g_dir + "/" + cur, "%s step %zu: the path is '%s'", w, k, a->path()); }
	}
	bool flushed = !ops.empty() && (ops.back() == 'f'); a.reset();
	if (!lost && (fail < 0 || flushed)) { auto got = files(); MC_CHECK(got == want, "%s: in the end the files differ from what was written%s", w, fail >= 0 ? " although no failure was reported" : ""); }
	if (fail >= 0) { count(FAULTS); outcome(hash_str(ops) + lost); } else outcome(hash_str(ops) * 31 + want.size()); count(EVAL); count(TRACES); }
static long writes_of(char kind, long par, int form, const std::string& ops) { run(kind, par, form, ops, 1000000); return g_writes; }
// constructor arguments
static void paths(int len, int slash) { wipe(); g_now = T0; // MaxPath counts the path, a separator and the name
	std::string p = g_dir; while ((int)p.size() + 2 <= len) p = "/." + p; // "/./././dev/shm/..."
	while ((int)p.size() < len) p = "/" + p; if (slash) p += "/"; size_t need = p.size() + 1 + 15; bool threw = false; std::string got;
	try { abc::multifile_streambuf<64, Clk, XLog> m(p.c_str()); m.sputn("abc", 3); abc::multifile_streambuf<64, Clk, XLog> n(std::move(m)); n.sputn("d", 1); n.pubsync(); got = n.path(); n.close(); } catch (std::exception&) { threw = true; }
	if (need <= 64 || !threw) { MC_CHECK(!threw, "a path of %zu characters is rejected", p.size()); MC_CHECK(got == p + (slash ? "" : "/") + name_of(g_now), "the path is '%s'", got.c_str()); auto f = files(); MC_CHECK(f.size() == 1 && f.begin()->first == name_of(g_now) && f.begin()->second == "abcd", "the file of a path of %zu characters is not complete", p.size()); }
	if (need > 66) MC_CHECK(threw, "a path of %zu characters is accepted", p.size()); count(EVAL); count(STATES); count(TRACES); }
static void names(long day) { for (long s : { 0, 1, 59, 60, 3599, 3600, 43200, 86399 }) { wipe(); g_now = (day * 86400 + s) * 1000000000ll + (s % 7) * 100000000; M0 m(g_dir.c_str()); m.sputn("x", 1); m.close(); auto f = files(); MC_CHECK(f.size() == 1 && f.begin()->first == name_of(g_now) && f.begin()->second == "x", "the file of second %ld of day %ld is '%s'", s, day, f.empty() ? "" : f.begin()->first.c_str()); count(TRANS); } count(EVAL); count(STATES); count(TRACES); outcome(day); }
static void bad() { bool t = false; try { M0 m(nullptr); } catch (std::exception&) { t = true; } MC_CHECK(t, "an absent path is accepted"); wipe(); rmdir((g_dir + "/.x").c_str()); { M0 m((g_dir + "/none").c_str()); MC_CHECK(m.sputn("abcd", 4) != 4 || m.pubsync() != 0, "writing to a directory that does not exist reports success"); }
	{ MS m(1, (g_dir + "/none").c_str()); MC_CHECK(m.sputn("abcd", 4) != 4 || m.pubsync() != 0, "writing to a directory that does not exist reports success"); } { g_now = T0; char cwd[500]; if (getcwd(cwd, 500) && chdir(g_dir.c_str()) == 0) { M0 m(""); m.sputn("e", 1); m.close(); (void)!chdir(cwd); MC_CHECK(files().size() == 1, "an empty path is not the current directory"); } } count(EVAL); count(TRACES); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22); g_rule = "a state is the set of files after a flush, compared with the model";
	auto enter = [] { static bool in = false; if (in) return; in = true; g_dir = G.scratch + "/w" + std::to_string(getpid()); mkdir(g_dir.c_str(), 0700); };
	auto split = [](const std::string& c) { std::vector<std::string> f; size_t p = 0; for (;;) { size_t q = c.find('|', p); f.push_back(c.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return f; p = q + 1; } };
	G.run_case = [&](const std::string& c) { enter(); auto f = split(c); if (f[0] == "run") run(f[1][0], atol(f[2].c_str()), atoi(f[3].c_str()), f[4], atol(f[5].c_str())); else if (f[0] == "path") paths(atoi(f[1].c_str()), atoi(f[2].c_str())); else if (f[0] == "name") names(atol(f[1].c_str())); else bad(); };
	maybe_replay(); bool T = G.thorough;
	struct Conf { char k; long par; int form; }; std::vector<Conf> C = { { 'm', 0, 0 }, { 'm', 0, 3 }, { 'd', 0, 0 }, { 'd', 4, 1 }, { 'd', 10, 0 }, { 'd', 14, 4 }, { 's', 1, 0 }, { 's', 4, 0 }, { 's', 6, 2 }, { 's', 9, 5 } };
	auto all = [&](const std::string& A, int n, const std::vector<Conf>& cs, const std::string& pre, bool faults) { uint64_t m = 1; for (int i = 0; i < n; i++) m *= A.size(); run_tasks(m, [&](uint64_t t) { enter(); std::string ops = pre; for (int i = 0; i < n; i++) { ops += A[t % A.size()]; t /= A.size(); } for (auto& c : cs) { set_case(fmt("run|%c|%ld|%d|", c.k, c.par, c.form) + ops + "|-1"); run(c.k, c.par, c.form, ops, -1); if (faults) { set_case(fmt("run|%c|%ld|%d|", c.k, c.par, c.form) + ops + "|1000000"); long w = writes_of(c.k, c.par, c.form, ops); for (long f = 0; f < w; f++) { set_case(fmt("run|%c|%ld|%d|", c.k, c.par, c.form) + ops + fmt("|%ld", f)); run(c.k, c.par, c.form, ops, f); } } } if (t == 0) sample(ops); }, T ? 780 : 0, 16); };
	for (int n = 1; n <= (T ? 7 : 5); n++) all("13cftTRM", n, C, "", false); cover("sequences", fmt("every sequence of up to %d of 8 operations, %zu configurations", T ? 7 : 5, C.size()));
	for (int n = 1; n <= (T ? 6 : 4); n++) all("5cftT", n, C, "", true); cover("failing_writes", "every sequence of short operations with every write failing once");
	std::vector<Conf> L = { { 's', 8192, 0 }, { 's', 9000, 0 }, { 's', 16400, 0 }, { 's', 17201, 1 }, { 'd', 10, 0 } }; for (int n = 1; n <= (T ? 6 : 4); n++) all("BC1fT", n, L, "", true); cover("long", "sequences of writes beyond the size of the internal buffer");
	run_tasks(60, [&](uint64_t x) { enter(); set_case(fmt("path|%d|%d", (int)x / 2 + 20, (int)x % 2)); paths(x / 2 + 20, x % 2); }); cover("paths", "lengths 20..49 for a limit of 64");
	run_tasks(T ? 60000 : 6000, [&](uint64_t d) { enter(); long day = (long)d * (T ? 1 : 17); set_case(fmt("name|%ld", day)); names(day); }, 0, 64); cover("names", "eight times of day");
	run_tasks(1, [&](uint64_t) { enter(); set_case("bad"); bad(); });
	done();
}
