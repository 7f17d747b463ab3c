// mc.h - exhaustive exploration driver shared by all harnesses.
// A harness defines enumeration tasks; they are executed by forked worker processes. Every execution has a
// textual "case" which is kept in shared memory while it runs, so that a crash, a sanitizer abort or a hang
// is attributed to it.  A violation is re-executed from its case text ("replay") before it is reported.
#pragma once
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <atomic>
#include <functional>
#include <filesystem>
#include <algorithm>

namespace mc {

constexpr int MAXW = 64;
constexpr int NCNT = 24;
constexpr size_t CASE_MAX = 16384;
constexpr int NSAMPLES = 12;

struct Slot {               // one per worker, in shared memory
	std::atomic<uint64_t> progress;
	uint64_t cnt[NCNT];
	int violated;           // 0 none, 1 violation
	char key[256];
	char msg[4096];
	char vcase[CASE_MAX];
	char cur[CASE_MAX];
	uint64_t nsample;
	char sample[NSAMPLES][512];
	char known[16][256];
	int nknown;
};

struct Bitset64 {           // shared concurrent set of 64-bit hashes
	std::atomic<uint64_t>* t = nullptr; size_t mask = 0; std::atomic<uint64_t>* n = nullptr;
	void init(size_t log2n) {
		size_t sz = size_t(1) << log2n;
		t = (std::atomic<uint64_t>*)mmap(nullptr, sz * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		n = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		mask = sz - 1;
	}
	// true if newly inserted
	bool insert(uint64_t h) {
		if (h == 0) h = 1;
		size_t i = (h * 0x9E3779B97F4A7C15ull) >> 7;
		for (size_t k = 0; k <= mask; k++, i++) {
			uint64_t cur = t[i & mask].load(std::memory_order_relaxed);
			if (cur == h) return false;
			if (cur == 0) {
				if (t[i & mask].compare_exchange_strong(cur, h)) { n->fetch_add(1); return true; }
				if (cur == h) return false;
			}
		}
		fprintf(stderr, "mc: hash table full\n"); _exit(99);
	}
	uint64_t size() const { return n ? n->load() : 0; }
};

struct State {
	std::string report; // the property the verdict is about, if it is not prop
	uint64_t xcap = ~0ull; // families with more tasks are left out
	uint64_t xfirst = 0, xcount = 0; // only the first cases of every task
	std::string prop, tier = "quick", evidence, replay_dir, replay_case, argv0;
	int seed = 1;
	bool replaying = false, thorough = false;
	int nw = 8;
	Slot* slots = nullptr; Slot* S = nullptr;
	std::atomic<uint64_t>* next = nullptr;
	std::vector<std::pair<std::string,std::string>> known; // key, what
	double t0 = 0;
	std::string scratch;
	std::function<void(const std::string&)> run_case; // replays one case (aborts through violation())
	std::map<std::string, std::string> extra; // extra coverage entries, raw json
	uint64_t base[NCNT] = {};  // accumulated over phases
	std::vector<std::string> samples;
	std::set<std::string> known_hit;
	Bitset64 distinct;      // optional set of distinct outcomes
	int hang_secs = 20;
	uint64_t left_out = 0;
	bool capped = false;
	int mute = 0;
};
inline State G;
inline int xmode = 0; // see xlog.h
inline bool xdiff = false; // the verdict is whether a case depends on xmode
constexpr int XMODES = 6;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double elapsed() { return now() - G.t0; }

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char* b = (const unsigned char*)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
	while (n--) { h = (h ^ *b++) * 1099511628211ull; }
	return h ^ (h >> 32);
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// counters ------------------------------------------------------------
enum { EVAL = 0, NONTRIV = 1, STATES = 2, TRANS = 3, TRACES = 4, FAULTS = 5, SCHED = 6, C7, C8, C9, C10 };
inline void count(int c, uint64_t n = 1) { if (G.S) G.S->cnt[c] += n; }
inline void tick() { if (G.S) G.S->progress.fetch_add(1, std::memory_order_relaxed); }

struct TaskEnd {};
inline void set_case(const char* s, size_t n) {
	if (!G.S) return;
	if (G.xfirst && ++G.xcount > G.xfirst) throw TaskEnd();
	if (n >= CASE_MAX) n = CASE_MAX - 1;
	memcpy(G.S->cur, s, n); G.S->cur[n] = 0; tick();
}
inline void set_case(const std::string& s) { set_case(s.data(), s.size()); }

inline void sample(const std::string& s) {
	if (!G.S) return;
	// keep a spread: powers of two
	uint64_t k = G.S->nsample++;
	if ((k & (k - 1)) == 0) {
		int i = 0; while (k >> i) i++;
		if (i < NSAMPLES) { snprintf(G.S->sample[i], sizeof G.S->sample[i], "%s", s.c_str()); }
	}
}
// an observed outcome, for counting distinct non-trivial ones
inline void outcome(uint64_t h) { if (G.distinct.t && G.distinct.insert(h)) count(NONTRIV); }

inline std::string fmt(const char* f, ...) {
	char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
inline std::string unhex(const std::string& s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; }
inline std::string show(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return r; }

// Reports a violation. Returns only when it is a listed known finding (the caller abandons this execution).
inline void violation(const std::string& key, const std::string& msg) {
	for (auto& k : G.known) if (k.first == key) {
		if (G.S) {
			for (int i = 0; i < G.S->nknown; i++) if (key == G.S->known[i]) return;
			if (G.S->nknown < 16) snprintf(G.S->known[G.S->nknown++], 256, "%s", key.c_str());
		}
		return;
	}
	if (G.S) {
		G.S->violated = 1;
		snprintf(G.S->key, sizeof G.S->key, "%s", key.c_str());
		snprintf(G.S->msg, sizeof G.S->msg, "%s", msg.c_str());
		memcpy(G.S->vcase, G.S->cur, CASE_MAX);
	}
	_exit(42);
}
inline void violation(const std::string& msg) { violation("-", msg); }
#define MC_CHECK(cond, ...) do { if (!(cond)) { ::mc::violation(::mc::fmt(__VA_ARGS__)); } } while (0)

inline std::string jstr(const std::string& s) {
	std::string r = "\""; char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
	return r + "\"";
}

inline uint64_t last_prog, stall;
inline void on_timer(int) {
	uint64_t p = G.S->progress.load(std::memory_order_relaxed);
	if (p != last_prog) { last_prog = p; stall = 0; return; }
	if (++stall >= 2) {
		G.S->violated = 1;
		snprintf(G.S->key, sizeof G.S->key, "hang");
		snprintf(G.S->msg, sizeof G.S->msg, "no progress: the execution did not terminate within %d s of CPU time", G.hang_secs);
		memcpy(G.S->vcase, G.S->cur, CASE_MAX);
		_exit(42);
	}
}
inline volatile int in_signal; // for the runtime of mcsched.h
__attribute__((no_sanitize("thread"), noinline)) inline void on_timer_signal(int s) { in_signal = 1; on_timer(s); in_signal = 0; }
inline void arm_timer() {
	last_prog = ~0ull; stall = 0;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_timer_signal; sa.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sa, nullptr);
	itimerval tv; tv.it_interval.tv_sec = G.hang_secs / 2; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval; setitimer(ITIMER_PROF, &tv, nullptr);
}

inline std::string tail_of(const std::string& path, size_t n = 1800) {
	std::string s; FILE* f = fopen(path.c_str(), "r"); if (!f) return s;
	char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); if (s.size() > (1 << 20)) break; } fclose(f);
	size_t e = s.find("ERROR: AddressSanitizer"); if (e == std::string::npos) e = s.find("runtime error:"); if (e == std::string::npos) e = s.find("terminate called");
	if (e == std::string::npos) e = s.size() > n ? s.size() - n : 0;
	if (e > 200) e -= 200; else e = 0;
	return s.substr(e, n);
}

[[noreturn]] inline void finish(bool violated, const std::string& msg, const std::string& vcase);
[[noreturn]] inline void done();

inline int fork_one(int w, const std::function<void()>& body) {
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		G.S = &G.slots[w];
		G.S->violated = 0;
		std::string errf = G.scratch + "/err." + std::to_string(w);
		int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn);
		arm_timer();
		body();
		_exit(0);
	}
	return pid;
}

inline std::string describe_death(int st, int w) {
	std::string m;
	if (WIFSIGNALED(st)) m = fmt("the execution was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	else m = fmt("the execution ended abnormally (exit status %d)", WEXITSTATUS(st));
	return m + ": " + tail_of(G.scratch + "/err." + std::to_string(w));
}

// Executes case text in a child; returns true if it violates.
inline bool replay_violates(const std::string& c, std::string& msg) {
	int w = MAXW - 1;
	memset((void*)&G.slots[w], 0, sizeof(Slot));
	pid_t pid = fork_one(w, [&] { G.xfirst = 0; set_case(c); G.replaying = true; G.run_case(c); });
	int st = 0; waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && G.slots[w].violated) { msg = G.slots[w].msg; return true; }
	msg = describe_death(st, w);
	return true;
}

// Runs task(i) for i in [0, ntasks), distributed dynamically; deadline in seconds of total elapsed time (0 = none).
// Returns false if the deadline stopped it early.
inline bool run_tasks(uint64_t ntasks, const std::function<void(uint64_t)>& task, double deadline = 0, uint64_t chunk = 1) {
	if (ntasks == 0) return true;
	if (ntasks > G.xcap) { G.left_out++; return true; }
	G.next->store(0);
	G.next[1].store(0);
	int nw = (int)std::min<uint64_t>(G.nw, (ntasks + chunk - 1) / chunk);
	for (int w = 0; w < nw; w++) { G.slots[w].violated = 0; }
	std::map<pid_t, int> pids;
	for (int w = 0; w < nw; w++) {
		pid_t p = fork_one(w, [&] {
			for (;;) {
				if (deadline > 0 && elapsed() > deadline) { G.next[1].store(1); break; }
				uint64_t i = G.next->fetch_add(chunk);
				if (i >= ntasks) break;
				for (uint64_t k = i; k < std::min(ntasks, i + chunk); k++) { tick(); if (!G.xfirst) task(k); else { G.xcount = 0; try { task(k); } catch (TaskEnd&) { } } }
			}
		});
		pids[p] = w;
	}
	std::vector<std::pair<std::string, std::string>> viol; // case, msg
	double first = 0;
	std::map<int, std::pair<uint64_t, double>> prog;
	while (!pids.empty()) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0 && pids.count(p)) {
			int w = pids[p]; pids.erase(p);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "harness error\n%s\n", tail_of(G.scratch + "/err." + std::to_string(w)).c_str()); exit(2); }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && G.slots[w].violated) viol.push_back({ G.slots[w].vcase, G.slots[w].msg });
			else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "harness error: worker was killed from outside\n"); exit(2); }
			else viol.push_back({ G.slots[w].cur, describe_death(st, w) });
			if (first == 0) { first = now(); G.next->store(~0ull >> 1); }
		} else {
			usleep(2000);
			if (first > 0 && now() - first > 5) { for (auto& kv : pids) kill(kv.first, SIGKILL); for (auto& kv : pids) { int s2; waitpid(kv.first, &s2, 0); } pids.clear(); }
			for (auto& kv : pids) { // blocked without using CPU
				uint64_t pr = G.slots[kv.second].progress.load();
				auto& e = prog[kv.second];
				if (e.second == 0 || e.first != pr) e = { pr, now() };
				else if (now() - e.second > 240) {
					viol.push_back({ G.slots[kv.second].cur, "no progress for 240 s: the execution is blocked" });
					if (first == 0) first = now() - 5;
				}
			}
		}
	}
	for (int w = 0; w < nw; w++) for (int i = 0; i < G.slots[w].nknown; i++) G.known_hit.insert(G.slots[w].known[i]);
	if (!viol.empty()) {
		std::sort(viol.begin(), viol.end(), [](auto& a, auto& b) { return a.first.size() != b.first.size() ? a.first.size() < b.first.size() : a.first < b.first; });
		for (auto& v : viol) {
			std::string m;
			if (xdiff) { // a case that is wrong whatever the log is, is not about the log
				int mode = xmode, bad = 0; std::string why, all; for (xmode = 0; xmode < XMODES; xmode++) { std::string q; if (replay_violates(v.first, q)) { bad++; all += fmt(" %d", xmode); if (why.empty() || xmode == mode) why = q; } } xmode = mode;
				if (bad == XMODES) { printf("a case is wrong with any log, which is not this property: %s\n", show(v.first).substr(0, 300).c_str()); G.capped = true; done(); }
				if (bad) finish(true, "wrong with logs of these kinds only:" + all + " (0 none, 1 everything logged, 2 everything filtered, 3 failing, 4 throwing, 5 without destination): " + why, v.first);
				continue;
			}
			if (replay_violates(v.first, m)) finish(true, m, v.first);
		}
		// Not reproducible from its case text: a harness defect, not a verdict.
		fprintf(stderr, "harness error: violation did not reproduce\ncase: %s\nmsg: %s\n", show(viol[0].first).c_str(), viol[0].second.c_str());
		exit(2);
	}
	if (G.next[1].load()) { G.capped = true; return false; }
	return true;
}

inline uint64_t total(int c) { uint64_t t = G.base[c]; for (int w = 0; w < G.nw; w++) t += G.slots[w].cnt[c]; return t; }
inline void cover(const std::string& k, const std::string& v) { G.extra[k] = jstr(v); }
inline void cover(const std::string& k, uint64_t v) { G.extra[k] = std::to_string(v); }
inline std::string g_level = "exploration", g_rule;
inline std::vector<std::string> g_assumptions;

inline void write_evidence(int violations) {
	std::string c;
	auto add = [&](const std::string& k, const std::string& v) { if (!c.empty()) c += ", "; c += jstr(k) + ": " + v; };
	if (g_level == "model_checking") {
		add("states", std::to_string(total(STATES))); add("transitions", std::to_string(total(TRANS)));
		add("traces_validated_against_impl", std::to_string(total(TRACES)));
	} else {
		add("evaluations", std::to_string(total(EVAL))); add("distinct_nontrivial", std::to_string(total(NONTRIV)));
		add("rule", jstr(g_rule));
	}
	if (g_level == "model_checking" && !g_rule.empty()) add("rule", jstr(g_rule));
	std::string smp; std::set<std::string> seen;
	for (int i = NSAMPLES - 1; i >= 0; i--) for (int w = 0; w < G.nw; w++) if (G.slots[w].sample[i][0] && seen.size() < 8 && seen.insert(G.slots[w].sample[i]).second) { if (!smp.empty()) smp += ", "; smp += jstr(show(G.slots[w].sample[i])); }
	for (auto& s : G.samples) { if (!smp.empty()) smp += ", "; smp += jstr(s); }
	add("samples", "[" + smp + "]");
	add("exhaustive", G.capped ? "false" : "true");
	if (total(FAULTS)) add("faults_injected", std::to_string(total(FAULTS)));
	if (total(SCHED)) add("schedules", std::to_string(total(SCHED)));
	for (auto& e : G.extra) add(e.first, e.second);
	std::string as; for (auto& a : g_assumptions) { if (!as.empty()) as += ", "; as += jstr(a); }
	FILE* f = fopen(G.evidence.c_str(), "w");
	if (f) {
		fprintf(f, "{\"property\": %s, \"tier\": %s, \"seed\": %d, \"level\": %s, \"coverage\": {%s}, \"wall_s\": %.2f, \"assumptions\": [%s], \"violations\": %d}\n",
			jstr(G.report.empty() ? G.prop : G.report).c_str(), jstr(G.tier).c_str(), G.seed, jstr(g_level).c_str(), c.c_str(), elapsed(), as.c_str(), violations);
		fclose(f);
	}
}

[[noreturn]] inline void finish(bool violated, const std::string& msg, const std::string& vcase) {
	const std::string rp = G.report.empty() ? G.prop : G.report;
	write_evidence(violated ? 1 : 0);
	printf("%s %s: states=%llu transitions=%llu traces=%llu evaluations=%llu distinct=%llu schedules=%llu faults=%llu capped=%d wall=%.1fs\n", G.prop.c_str(), G.tier.c_str(),
		(unsigned long long)total(STATES), (unsigned long long)total(TRANS), (unsigned long long)total(TRACES), (unsigned long long)total(EVAL), (unsigned long long)total(NONTRIV), (unsigned long long)total(SCHED), (unsigned long long)total(FAULTS), (int)G.capped, elapsed());
	if (G.left_out) printf("  %llu larger families left out\n", (unsigned long long)G.left_out);
	for (auto& e : G.extra) printf("  %s: %s\n", e.first.c_str(), e.second.c_str());
	for (auto& k : G.known) if (G.known_hit.count(k.first) && G.report.empty()) printf("KNOWN-FINDING: property=%s %s\n", rp.c_str(), k.second.c_str());
	int rc = 0;
	if (violated) {
		mkdir(G.replay_dir.c_str(), 0755);
		std::string path = G.replay_dir + "/" + rp + ".case";
		FILE* f = fopen(path.c_str(), "wb"); if (f) { std::string head = xdiff ? fmt("%s#%d#", getenv("X03_ITEM") ? getenv("X03_ITEM") : "0", xmode) : ""; fwrite(head.data(), 1, head.size(), f); fwrite(vcase.data(), 1, vcase.size(), f); fclose(f); }
		std::string mp = G.replay_dir + "/" + rp + ".txt";
		f = fopen(mp.c_str(), "w"); if (f) { fprintf(f, "property %s\ncase %s\n\n%s\n\nreplay: ./check %s --replay %s\n", rp.c_str(), show(vcase).c_str(), msg.c_str(), rp.c_str(), path.c_str()); fclose(f); }
		printf("case: %s\n%s\n", show(vcase).substr(0, 1500).c_str(), msg.c_str());
		printf("VIOLATION property=%s replay=%s\n", rp.c_str(), path.c_str());
		rc = 1;
	}
	fflush(stdout);
	// remove scratch
	for (int w = 0; w < MAXW; w++) unlink((G.scratch + "/err." + std::to_string(w)).c_str());
	std::error_code ec; if (G.scratch.compare(0, 7, "/tmp/mc") == 0) std::filesystem::remove_all(G.scratch, ec);
	_exit(rc);
}
[[noreturn]] inline void done() { finish(false, "", ""); }

// Called between phases that reuse run_tasks: counters persist in slots, nothing to do; kept for clarity.

// args: PROP TIER EVIDENCE REPLAYDIR KNOWNFILE [--replay FILE]
inline void init(int argc, char** argv) {
	G.t0 = now(); G.argv0 = argv[0];
	if (argc < 6) { fprintf(stderr, "usage: %s PROP TIER EVIDENCE REPLAYDIR KNOWN [--replay FILE]\n", argv[0]); exit(2); }
	G.prop = argv[1]; G.tier = argv[2]; G.evidence = argv[3]; G.replay_dir = argv[4];
	G.thorough = G.tier == "thorough";
	if (const char* s = getenv("VERIF_SEED")) G.seed = atoi(s);
	if (const char* s = getenv("X03_MODE")) { xmode = atoi(s) % XMODES; xdiff = true; G.report = "X03"; }
	if (const char* s = getenv("X03_CAP")) G.xcap = strtoull(s, nullptr, 10); if (const char* s = getenv("X03_FIRST")) G.xfirst = strtoull(s, nullptr, 10);
	if (const char* s = getenv("MC_WORKERS")) G.nw = atoi(s);
	FILE* f = fopen(argv[5], "r");
	if (f) { // lines: finding<TAB>PROP<TAB>key<TAB>what
		char b[2048];
		while (fgets(b, sizeof b, f)) {
			std::string l = b; while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
			std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = l.find('\t', p); v.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
			if (v.size() == 4 && v[0] == "finding" && v[1] == G.prop) G.known.push_back({ v[2], v[3] });
		}
		fclose(f);
	}
	G.slots = (Slot*)mmap(nullptr, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	G.next = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	char tmpl[] = "/tmp/mcXXXXXX"; G.scratch = mkdtemp(tmpl);
	for (int i = 6; i < argc; i++) if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
		std::string s; FILE* r = fopen(argv[i + 1], "rb"); if (r) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, r)) > 0) s.append(b, k); fclose(r); }
		if (xdiff) { size_t a = s.find('#'), b = s.find('#', a + 1); if (b != std::string::npos) s = s.substr(b + 1); } G.replay_case = s; G.replaying = true;
	}
}
// To be called when run_case is set, before exploring.
inline void maybe_replay() {
	if (!G.replaying) return;
	std::string m; G.replaying = false;
	if (xdiff) { int mode = xmode, bad = 0; for (xmode = 0; xmode < XMODES; xmode++) { std::string q; if (replay_violates(G.replay_case, q)) { bad++; m = q; } } xmode = mode; if (bad && bad < XMODES) finish(true, "wrong with some logs only: " + m, G.replay_case); }
	else if (replay_violates(G.replay_case, m)) finish(true, m, G.replay_case);
	printf("case does not violate\n");
	done();
}
} // namespace mc
