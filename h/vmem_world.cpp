// V04 page ownership, V05 durability, V08 failing system calls: operation histories over a pool shared by all kinds of containers.
#include "vmem_world.h"
#ifndef SPLIT
#define SPLIT -1
#endif
// (each memory limit is a separate instantiation; compiled in parallel parts)
#define PARTS X(3, 1) X(4, 2) X(5, 3) X(6, 4) X(7, 5) X(8, 6) X(10, 7) X(64, 0)
#define X(n, k) IWorld* make##n();
PARTS
#undef X
#if SPLIT == 1 || SPLIT == -1
IWorld* make3() { return new World<3>(); }
#endif
#if SPLIT == 2 || SPLIT == -1
IWorld* make4() { return new World<4>(); }
#endif
#if SPLIT == 3 || SPLIT == -1
IWorld* make5() { return new World<5>(); }
#endif
#if SPLIT == 4 || SPLIT == -1
IWorld* make6() { return new World<6>(); }
#endif
#if SPLIT == 5 || SPLIT == -1
IWorld* make7() { return new World<7>(); }
#endif
#if SPLIT == 6 || SPLIT == -1
IWorld* make8() { return new World<8>(); }
#endif
#if SPLIT == 7 || SPLIT == -1
IWorld* make10() { return new World<10>(); }
#endif
#if SPLIT == 0 || SPLIT == -1
IWorld* make64() { return new World<64>(); }
static IWorld* make(int mp) {
#define X(n, k) if (mp == n) return make##n();
	PARTS
#undef X
	return make64();
}
struct Cfg { std::string name, alphabet; int mapkeys; size_t maxlist, maxraw; int depth; size_t maxpages; std::string prefix; };
static std::map<std::string, Cfg> CFG;
static std::string g_what;
static void need(const std::string& d, const char* when) { if (!d.empty()) violation(fmt("%s: %s", when, d.c_str())); }
static void misuse() { if (fk::S.misuse) violation(fk::S.misuse_what); if (fk::S.torn) violation("a page beyond the end of the file was mapped"); }
static void run_ops(IWorld& w, Model& m, const std::vector<Op>& ops) { for (auto& o : ops) { try { w.apply(m, o); } catch (Failed& f) { violation(fmt("%s of the history failed: %s", ops_str({ o }).c_str(), f.what.c_str())); } } }
static void begin() { fk::kill_process(); fk::wipe(); fk::reset_counts(); fk::S.torn = false; }
static size_t file_pages() { return fk::S.f[0].size / 4096; }

// ---- V04
static uint64_t v04_state(const Cfg&, const std::vector<Op>& path, bool last_only) {
	begin(); std::unique_ptr<IWorld> w(make(64)); Model m; try { w->open(); } catch (Failed& f) { violation(f.what); }
	size_t was = file_pages(); bool freeable = false; (void)last_only;
	for (size_t i = 0; i < path.size(); i++) { size_t f0 = file_pages(); run_ops(*w, m, { path[i] }); if (i + 1 == path.size()) { was = f0; freeable = file_pages() > f0; } }
	size_t fp = file_pages(); auto d = w->drain(true); misuse();
	if (freeable && d.size() > 1 && path.back().k != 'i' && path.back().k != 'e' && path.back().k != 'T') violation(fmt("the operation grew the file from %zu to %zu pages although it leaves %zu pages available", was, fp, d.size() - 1));
	std::string c = fk::content();
	need(w->differs(m), "after the history, all available pages taken and overwritten"); misuse();
	std::set<Pos> vis = w->pages();
	for (Pos p : vis) { MC_CHECK(p > 1, "a container uses the root or start page"); }
	for (auto& kv : m.id) if (vis.count(kv.first) && std::find(m.linked.begin(), m.linked.end(), kv.first) == m.linked.end()) violation("a loose page is used by a container");
	for (Pos p : d) MC_CHECK(!vis.count(p) && !m.id.count(p), "page %llu is in use and was handed out again", (unsigned long long)p);
	// a behavioural digest of the state: the file without the bytes of available pages, and the order in which they are handed out
	for (Pos p : d) if ((p + 1) * 4096 <= c.size()) memset(&c[p * 4096], 0, 4096); memset(&c[0], 0, 4096);
	for (auto& kv : m.id) memset(&c[kv.first * 4096 + 24], 0, 4096 - 24);
	c.resize(fp * 4096); uint64_t h = masked_hash(c) ^ hash_bytes(d.data(), (d.size() - 1) * sizeof(Pos), fp); for (Pos p : m.raw) h = h * 1099511628211ull + p; h = h * 31 + m.str.size();
	w->undrain(d); need(w->differs(m), "after the history"); fp = file_pages();
	// everything released: all pages but root and start must be available
	for (int k = 0; k < 5; k++) run_ops(*w, m, { { 'c', k } }); while (!m.raw.empty()) run_ops(*w, m, { { 'f', 0 } });
	need(w->differs(m), "after clearing everything"); MC_CHECK(file_pages() == fp, "clearing everything grew the file");
	d = w->drain(true); MC_CHECK(d.size() - 1 == fp - 2, "after everything was released, %zu of %zu pages are available", d.size() - 1, fp - 2);
	need(w->differs(m), "after all pages were taken and overwritten"); misuse();
	w->undrain(d); w->close(); outcome(h);
	if (!path.empty()) { // the last operation again, with many pages available
		begin(); w->open(); Model m3; run_ops(*w, m3, std::vector<Op>(path.begin(), path.end() - 1)); std::vector<Op> rr; for (int i = 0; i < 10; i++) run_ops(*w, m3, { { 'r', 0 } }); for (int i = 0; i < 10; i++) run_ops(*w, m3, { { 'g', 0 } });
		size_t f0 = file_pages(); run_ops(*w, m3, { path.back() }); MC_CHECK(file_pages() == f0, "the operation grew the file from %zu to %zu pages although at least 10 released pages were available", f0, file_pages()); w->close(); }
	return h;
}
// the same cycle repeated never needs more pages than the first two times
static void v04_cycle(const std::vector<Op>& path, int times) {
	begin(); std::unique_ptr<IWorld> w(make(64)); Model m; w->open(); size_t high = 0;
	for (int t = 0; t < times; t++) {
		run_ops(*w, m, path); need(w->differs(m), "in a cycle");
		for (int k = 0; k < 5; k++) if (t % 2 || path.size() < 3) run_ops(*w, m, { { 'c', k } });
		while (!m.list.empty()) run_ops(*w, m, { { 'x', 0 } }); while (!m.stack.empty()) run_ops(*w, m, { { 't', 0 } }); while (!m.map.empty()) run_ops(*w, m, { { 'e', m.map.begin()->first } }); while (!m.linked.empty()) run_ops(*w, m, { { 'k', 0 } }); while (!m.raw.empty()) run_ops(*w, m, { { 'g', 0 } }); if (!m.str.empty()) run_ops(*w, m, { { 'c', 4 } });
		if (t == 0) high = file_pages(); MC_CHECK(file_pages() == high, "repetition %d of the same fill and drain cycle grew the file from %zu to %zu pages", t + 1, high, file_pages());
		count(TRANS, path.size());
	}
	need(w->differs(m), "after the cycles"); auto d = w->drain(true); MC_CHECK(d.size() - 1 == high - 2, "after everything was released, %zu of %zu pages are available", d.size() - 1, high - 2); misuse(); w->close();
}
// ---- V05: every history is cut after every operation (it is the last one of some path); reopened under every limit of the list
static void v05_state(const Cfg& c, const std::vector<Op>& path, const std::vector<int>& limits, bool more) {
	for (int a : limits) for (int how = 0; how < 2; how++) {
		begin(); std::unique_ptr<IWorld> w(make(a)); Model m; try { w->open(); } catch (Failed& f) { violation(f.what); } run_ops(*w, m, path);
		if (how) w->close(); else w->abandon();
		std::string file = fk::content();
		for (int b : limits) {
			fk::kill_process(); fk::set_content(file); std::unique_ptr<IWorld> w2(make(b)); Model m2 = m;
			try { w2->open(); } catch (Failed& f) { violation(fmt("the pool cannot be opened again: %s", f.what.c_str())); }
			need(w2->differs(m2), fmt("after reopening (limits %d and %d, %s)", a, b, how ? "closed" : "killed").c_str()); count(TRACES);
			if (more) { w2->abandon(); for (auto& o : enabled(m, c.alphabet, c.mapkeys, c.maxlist + 1, c.maxraw + 1)) { fk::kill_process(); fk::set_content(file); m2 = m; w2->open(); run_ops(*w2, m2, { o }); need(w2->differs(m2), fmt("after reopening (limits %d and %d) and %s", a, b, ops_str({ o }).c_str()).c_str()); count(TRANS); misuse(); w2->abandon(); } }
			else w2->close();
			misuse();
		}
	}
}
// long history, reopened (killed) after every k-th operation, limits changing each time
static void v05_long(const std::vector<Op>& path, const std::vector<int>& limits, int every) {
	begin(); Model m; std::unique_ptr<IWorld> w(make(limits[0])); w->open(); int n = 0, li = 0;
	for (auto& o : path) { run_ops(*w, m, { o }); if (++n % every == 0) { if ((n / every) % 2) w->abandon(); else w->close(); fk::kill_process(); w.reset(make(limits[++li % limits.size()])); try { w->open(); } catch (Failed& f) { violation(f.what); } need(w->differs(m), fmt("after reopening at operation %d", n).c_str()); misuse(); count(TRACES); } count(TRANS); tick(); }
	need(w->differs(m), "in the end"); w->close();
}
// the fake file against a real one: the process is killed in the middle of its life, and the bytes of the file are compared
static void v05_real(const std::vector<Op>& path, int mp) {
	begin(); std::unique_ptr<IWorld> w(make(mp)); Model m; w->open(); run_ops(*w, m, path); w->abandon(); std::string fake = fk::content();
	char dir[] = "/tmp/mcrealXXXXXX"; if (!mkdtemp(dir)) _exit(99); std::string file = std::string(dir) + "/pool";
	pid_t q = fork(); if (q == 0) { fk::S.real = true; g_path = file; Model m2; std::unique_ptr<IWorld> w2(make(mp)); w2->open(); run_ops(*w2, m2, path); raise(SIGKILL); }
	int st; waitpid(q, &st, 0); std::string real; FILE* f = fopen(file.c_str(), "rb"); if (f) { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) real.append(b, k); fclose(f); }
	bool sig = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL; std::string d;
	if (sig && real == fake) { q = fork(); if (q == 0) { fk::S.real = true; g_path = file; Model m2 = m; std::unique_ptr<IWorld> w2(make(64)); w2->open(); d = w2->differs(m2); w2->close(); if (!d.empty()) violation(d); _exit(0); } int s2; waitpid(q, &s2, 0); if (s2) d = "the killed process's file does not reopen to the same contents"; }
	unlink(file.c_str()); rmdir(dir);
	if (!sig) violation("the history does not run on a real file");
	if (real != fake) { fprintf(stderr, "the fake file differs from the real one\n"); _exit(99); }
	if (!d.empty()) violation(d); count(TRACES);
}
// ---- V08: fail every system call of the last operation of every history (or of opening)
static const char* v08_name(const std::vector<Op>& path, long at, int mp) { // dry run: the name of the call
	begin(); std::unique_ptr<IWorld> w(make(mp)); Model m; w->open(); run_ops(*w, m, std::vector<Op>(path.begin(), path.end() - 1)); fk::S.spy_at = fk::S.calls + at; run_ops(*w, m, { path.back() }); fk::S.spy_at = -1; w->abandon(); return fk::S.spy_call; }
static void v08_body(const std::vector<Op>& path, long at, int mode, int mp);
// Updating the index of a map whose values need more than one page is not failure-atomic (a known finding, by operation and failing call).
static void v08_case(const std::vector<Op>& path, long at, int mode, int mp) {
	int items = 0, had = 0, peak = 0; // key levels exist once more than one page of values was needed, until the map is empty
	for (auto& o : path) { if (items == 0) peak = 0; had = items; if (o.k == 'i') items++; if (o.k == 'e') items--; if (o.k == 'c' && o.a == 2) items = 0; peak = std::max(peak, items); }
	bool index = !path.empty() && peak > 2 && (path.back().k == 'i' || path.back().k == 'e' || (path.back().k == 'c' && path.back().a == 2)); (void)had;
	if (!index) { v08_body(path, at, mode, mp); return; }
	pid_t q = fork();
	if (q == 0) { fk::privatize(); int fd = ::open("/dev/null", O_WRONLY); dup2(fd, 2); v08_body(path, at, mode, mp); _exit(0); }
	int st; waitpid(q, &st, 0); tick(); if (st == 0) { return; }
	std::string msg = G.S->violated ? G.S->msg : "the process died"; G.S->violated = 0; memcpy(G.S->vcase, G.S->cur, CASE_MAX);
	// which call was it? (the history is deterministic)
	const char* call = v08_name(path, at, mp);
	bool keyed = (!strcmp(call, "mmap") || !strcmp(call, "lseek") || !strcmp(call, "write")) && msg.find(" are left") == std::string::npos && msg.find("close of") == std::string::npos && msg.find("handed out") == std::string::npos;
	violation(keyed ? fmt("map %s with an index, %s fails", path.back().k == 'i' ? "insert" : path.back().k == 'e' ? "erase" : "clear", call) : "-", msg);
}
static void v08_body(const std::vector<Op>& path, long at, int mode, int mp) { // at: index of the failing call, counted from the last operation
	begin(); std::unique_ptr<IWorld> w(make(mp)); Model m;
	if (path.empty()) {
		fk::S.fail_at = at; fk::S.fail_mode = mode; bool opened = true; try { w->open(); } catch (Failed&) { opened = false; } fk::S.fail_at = -1;
		if (opened) { need(w->differs(m), "after opening with a failing call"); w->close(); }
		MC_CHECK(fk::S.open_fds == 0, "%s fails while the pool is opened: %d descriptors are left open", fk::S.failed_call, fk::S.open_fds);
		MC_CHECK(fk::S.live_maps == 0 || !strcmp(fk::S.failed_call, "munmap"), "%s fails while the pool is opened: %d mappings are left", fk::S.failed_call, fk::S.live_maps);
		misuse(); count(FAULTS); return;
	}
	std::vector<Op> pre(path.begin(), path.end() - 1); w->open(); run_ops(*w, m, pre);
	long base = fk::S.calls; fk::S.fail_at = base + at; fk::S.fail_mode = mode; Model before = m, after = m; std::string reported;
	try { w->apply(after, path.back()); } catch (Failed& f) { reported = f.what; } fk::S.fail_at = -1;
	const char* call = fk::S.failed_call; std::string ws = fmt("%s number %ld of %s fails%s", call, at, ops_str({ path.back() }).c_str(), mode ? " (short)" : "");
	const char* when = ws.c_str(); misuse();
	// the running pool goes on
	std::string d0 = w->differs(before), d1 = w->differs(after);
	if (!d0.empty() && !d1.empty()) violation(fmt("%s (%s): the contents are neither those before the operation (%s) nor those after it (%s)", when, reported.empty() ? "not reported" : "reported", d0.c_str(), d1.c_str()));
	if (reported.empty() && !d1.empty() && strchr("abmierlh", path.back().k)) violation(fmt("%s: success is reported but the operation did not take effect: %s", when, d1.c_str()));
	Model& now = d1.empty() ? after : before;
	w->close(); MC_CHECK(fk::S.open_fds == 0, "%s: %d descriptors are left open", when, fk::S.open_fds); MC_CHECK(fk::S.live_maps == 0 || !strcmp(call, "munmap"), "%s: %d mappings are left", when, fk::S.live_maps); misuse();
	fk::kill_process(); try { w->open(); } catch (Failed& f) { violation(fmt("%s: the pool cannot be opened again: %s", when, f.what.c_str())); }
	need(w->differs(now), fmt("%s: after reopening", when).c_str());
	auto d = w->drain(true); need(w->differs(now), fmt("%s: after the available pages were overwritten", when).c_str()); misuse(); w->close(); count(FAULTS);
}
static long g_v08_base = 0;
static long v08_calls(const std::vector<Op>& path, int mp) { begin(); std::unique_ptr<IWorld> w(make(mp)); Model m; if (path.empty()) { w->open(); long n = fk::S.calls; w->close(); return n; } w->open(); std::vector<Op> pre(path.begin(), path.end() - 1); run_ops(*w, m, pre); long b = fk::S.calls; g_v08_base = b; run_ops(*w, m, { path.back() }); long n = fk::S.calls - b; w->abandon(); return n; }

struct Rec { uint8_t n; uint8_t op[23][2]; };
static void bfs(const Cfg& c, const std::function<void(const std::vector<Op>&)>& visit, double deadline) {
	static Rec* cur = nullptr; static Rec* nxt = nullptr; static std::atomic<uint64_t>* nn = nullptr; constexpr size_t CAP = 4000000;
	if (!cur) { cur = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nxt = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nn = (std::atomic<uint64_t>*)mmap(nullptr, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
	uint64_t salt = hash_str(c.name), ncur = 1; cur[0].n = 0; int d = 0; std::vector<Op> pre = parse_ops(c.prefix);
	auto path_of = [&](const Rec& r) { std::vector<Op> p = pre; for (int k = 0; k < r.n; k++) p.push_back({ (char)r.op[k][0], r.op[k][1] }); return p; };
	bool closed = false; uint64_t states = 0;
	for (; d <= c.depth && d < 23; d++) {
		nn->store(0); states += ncur;
		bool full = run_tasks(ncur, [&](uint64_t i) {
			static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
			auto path = path_of(cur[i]); set_case(c.name + "|" + ops_str(path)); visit(path); count(STATES); sample(c.name + "|" + ops_str(path));
			if (d == c.depth) return;
			begin(); std::unique_ptr<IWorld> w(make(64)); Model m; w->open(); run_ops(*w, m, path); std::string file = fk::content(); w->abandon();
			if (file.size() / 4096 > c.maxpages) return;
			for (auto& o : enabled(m, c.alphabet, c.mapkeys, c.maxlist, c.maxraw)) {
				auto p2 = path; p2.push_back(o); set_case(c.name + "|" + ops_str(p2)); count(TRANS);
				fk::kill_process(); fk::set_content(file); Model m2 = m; w->open(); run_ops(*w, m2, { o }); std::string f2 = fk::content(); w->abandon();
				for (auto& kv : m2.id) memset(&f2[kv.first * 4096 + 24], 0, 4096 - 24);
				uint64_t h = masked_hash(f2) ^ salt; for (Pos p : m2.raw) h = h * 1099511628211ull + p; h = h * 31 + m2.str.size();
				if (G.distinct.insert(h)) { uint64_t k = nn->fetch_add(1); if (k < CAP) { nxt[k] = cur[i]; nxt[k].op[nxt[k].n][0] = o.k; nxt[k].op[nxt[k].n][1] = (uint8_t)o.a; nxt[k].n++; } }
			}
		}, deadline);
		std::swap(cur, nxt); if (nn->load() > CAP) { fprintf(stderr, "mc: frontier overflow\n"); exit(2); } ncur = nn->load();
		if (!full) { cover("histories_" + c.name, fmt("alphabet %s, time cap hit at depth %d", c.alphabet.c_str(), d)); return; }
		if (ncur == 0) { closed = d < c.depth; break; }
	}
	cover("histories_" + c.name, fmt("%s over alphabet %s%s%s, %llu states", closed ? "state space closed" : fmt("every history of up to %d operations", c.depth).c_str(), c.alphabet.c_str(), c.prefix.empty() ? "" : ", from the state after ", c.prefix.c_str(), (unsigned long long)states));
	fprintf(stderr, "%s d=%d states=%llu %.1f\n", c.name.c_str(), d, (unsigned long long)states, elapsed());
}
static std::vector<Op> longrun(int n, int kind) { // builds and drains all containers in several orders
	std::vector<Op> v; int ks = 0; std::vector<int> keys;
	for (int i = 0; i < n; i++) { v.push_back({ "abm"[(i * (kind + 1)) % 3 == 2 && i < 2 ? 0 : (i * (kind + 1)) % 3], 0 }); v.push_back({ 's', 0 }); int k = kind == 0 ? i : kind == 1 ? n - i : (i * 7) % n; if (ks < n) { v.push_back({ 'i', k }); keys.push_back(k); ks++; } v.push_back({ i % 2 ? 'l' : 'h', 0 }); if (i % 3 == 0) v.push_back({ 'r', 0 }); if (i % 4 == 1) v.push_back({ 'g', 0 }); if (i == n / 2) v.push_back({ 'p', 0 }); }
	for (int i = 0; i < n; i++) { v.push_back({ "xyz"[i + 3 < n ? (i + kind) % 3 : 0], 0 }); if (i % 5) v.push_back({ 't', 0 }); int k = keys[kind == 2 ? n - 1 - i : i]; v.push_back({ 'e', k }); v.push_back({ i % 3 && i + 2 < n ? 'K' : 'k', 0 }); if (i == n / 2) v.push_back({ 'c', 4 }); }
	return v;
}
int main(int argc, char** argv) {
	init(argc, argv); fk::init(); g_level = "model_checking"; G.distinct.init(24);
	bool T = G.thorough; const std::string P = G.prop;
	auto cfg = [&](Cfg c) { CFG[c.name] = c; };
	std::vector<std::string> order;
	if (P == "V04") {
		cfg({ "list+raw", "abmxyzrfgc", 0, 9, 3, T ? 20 : 10, 14, "" }); cfg({ "map+raw", "irgc", 6, 0, 2, T ? 9 : 6, 16, "" }); cfg({ "linked+stack", "lhkKstrgc", 0, 5, 3, T ? 12 : 8, 14, "" });
		cfg({ "mixed", "abxzstilkrgTc", 3, 4, 2, T ? 7 : 5, 16, "" }); cfg({ "bigmap", "irc", 9, 0, 1, T ? 6 : 4, 24, "i0 i1 i2 i3 i4 i5 i6 i7 i8 " }); cfg({ "grown", "abmxyzstrgfTlk", 2, 12, 4, T ? 6 : 4, 30, "a a a a a a a a s s s l l r r i0 i1 x x t " }); cfg({ "string", "pcax", 0, 4, 1, T ? 5 : 4, 20, "" });
	} else if (P == "V05") {
		cfg({ "list", "abmxyzc", 0, 10, 2, T ? 16 : 10, 20, "" }); cfg({ "map", "ic", 6, 0, 2, T ? 7 : 5, 20, "" }); cfg({ "mixed", "abxstilkrgc", 2, 4, 2, T ? 6 : 4, 20, "" }); cfg({ "bigmap", "ic", 8, 0, 1, T ? 5 : 3, 30, "i0 i1 i2 i3 i4 i5 i6 i7 " }); cfg({ "grown", "abmxyzstrgflkT", 2, 14, 4, T ? 4 : 3, 30, "a a a a a a a a s s s l l r r i0 i1 x x t " }); cfg({ "string", "pcax", 0, 4, 1, 3, 20, "" });
	} else {
		cfg({ "list", "abmxyzc", 0, 9, 2, T ? 14 : 9, 20, "" }); cfg({ "raw+linked", "rfglhkKc", 0, 7, 3, T ? 7 : 5, 20, "" }); cfg({ "map", "ic", 5, 0, 2, T ? 4 : 3, 20, "" }); cfg({ "stack", "stc", 0, 5, 2, 5, 20, "" }); cfg({ "mixed", "abxstilkrgTc", 2, 4, 2, T ? 3 : 2, 20, "" }); cfg({ "bigmap", "ic", 8, 0, 1, T ? 2 : 1, 30, "i0 i1 i2 i3 i4 i5 i6 i7 " }); cfg({ "grown", "abmxyzstrgflkT", 2, 14, 4, T ? 2 : 1, 30, "a a a a a a a a s s s l l r r i0 i1 x x t " });
		if (xdiff) for (auto& kv : CFG) kv.second.depth = kv.first == "list" ? 4 : kv.first == "raw+linked" || kv.first == "stack" ? 2 : kv.first == "map" ? 1 : kv.first == "mixed" ? 1 : 0;
	}
	for (auto& kv : CFG) if (!xdiff || kv.first != "grown") order.push_back(kv.first);
	std::vector<int> limits = T ? std::vector<int>{ 5, 6, 7, 8, 10, 64 } : std::vector<int>{ 5, 6, 64 };
	G.run_case = [&](const std::string& c) {
		fk::privatize(); size_t b = c.find('|'); std::string nm = c.substr(0, b), rest = c.substr(b + 1);
		if (nm == "cycle") { v04_cycle(parse_ops(rest), 5); return; }
		if (nm == "real") { v05_real(parse_ops(rest.substr(rest.find('|') + 1)), atoi(rest.c_str())); return; }
		if (nm == "long") { int e = atoi(rest.c_str()); v05_long(parse_ops(rest.substr(rest.find('|') + 1)), limits, e); return; }
		if (nm == "fault") { int at, mode, mp; sscanf(rest.c_str(), "%d,%d,%d|", &at, &mode, &mp); v08_case(parse_ops(rest.substr(rest.find('|') + 1)), at, mode, mp); return; }
		if (nm == "small") { int mp = atoi(rest.c_str()); begin(); std::unique_ptr<IWorld> w(make(mp)); Model m; w->open(); auto p = parse_ops(rest.substr(rest.find('|') + 1)); for (auto& o : p) { Model b = m; try { w->apply(m, o); } catch (Failed&) { m = b; } } { std::string d = w->differs(m); if (!d.empty()) violation(c.substr(0, c.size() - (c.back() == ' ')), fmt("with at most %d pages mapped: %s", mp, d.c_str())); } w->abandon(); return; }
		auto p = parse_ops(rest);
		if (P == "V04") v04_state(CFG[nm], p, true); else if (P == "V05") v05_state(CFG[nm], p, limits, p.size() <= 3); };
	maybe_replay();
	double per = T ? 110 : 12;
	if (P == "V04") {
		for (auto& n : order) bfs(CFG[n], [&](const std::vector<Op>& p) { v04_state(CFG[n], p, true); }, elapsed() + per);
		std::vector<std::vector<Op>> cyc; for (int n : { 3, 5, 8, 12, 20, 30 }) for (int k = 0; k < 3; k++) { auto v = longrun(n, k); v.resize(v.size() * 2 / 3); cyc.push_back(v); }
		run_tasks(cyc.size(), [&](uint64_t i) { fk::privatize(); set_case("cycle|" + ops_str(cyc[i])); v04_cycle(cyc[i], 5); count(STATES); }); cover("fill_drain_cycles", cyc.size());
	} else if (P == "V05") {
		for (auto& n : order) bfs(CFG[n], [&](const std::vector<Op>& p) { v05_state(CFG[n], p, limits, p.size() <= (T ? 3 : 2)); }, elapsed() + per);
		struct L { int n, k, e; }; std::vector<L> ls; for (int n : { 4, 7, 12, 20 }) for (int k = 0; k < 3; k++) for (int e : { 1, 3, 7 }) ls.push_back({ n, k, e });
		run_tasks(ls.size(), [&](uint64_t i) { fk::privatize(); auto v = longrun(ls[i].n, ls[i].k); set_case(fmt("long|%d|", ls[i].e) + ops_str(v)); v05_long(v, limits, ls[i].e); count(STATES); }); cover("long_histories", ls.size());
		std::vector<std::string> small = { "small|3|i0 i1 i2 i3 e1 ", "small|3|i0 i1 i2 i3 i4 ", "small|4|i6 i0 i1 i2 i3 i4 i5 ", "small|4|i8 i7 i6 i5 i4 i3 i2 i1 i0 " };
		run_tasks(small.size(), [&](uint64_t i) { set_case(small[i]); G.run_case(small[i]); });
		std::vector<std::pair<int, std::vector<Op>>> rl; for (int mp : { 6, 64 }) { for (int n : { 2, 5, 9, 14 }) for (int k = 0; k < 3; k++) { auto v = longrun(n, k); for (size_t cut = 1; cut <= v.size(); cut += T ? 1 : 5) rl.push_back({ mp, std::vector<Op>(v.begin(), v.begin() + cut) }); } }
		run_tasks(rl.size(), [&](uint64_t i) { static bool priv = false; if (!priv) { fk::privatize(); priv = true; } set_case(fmt("real|%d|", rl[i].first) + ops_str(rl[i].second)); v05_real(rl[i].second, rl[i].first); }); cover("killed_processes_on_real_files", rl.size());
		fprintf(stderr, "long %.1f\n", elapsed());
	} else {
		auto faults = [&](const std::vector<Op>& p) { for (int mp : { 8, 64 }) { std::vector<const char*> names; fk::S.names = &names; long k = v08_calls(p, mp); fk::S.names = nullptr; names.erase(names.begin(), names.begin() + (p.empty() ? 0 : g_v08_base)); for (long at = 0; at < k; at++) for (int mode = 0; mode < 2; mode++) { std::string cs = fmt("fault|%ld,%d,%d|", at, mode, mp) + ops_str(p); set_case(cs);
			v08_case(p, at, mode, mp); if (strcmp(names[at], "write")) break; } } };
		for (auto& n : order) bfs(CFG[n], faults, elapsed() + per);
		// longer walks: every prefix, so every system call of every step
		std::vector<std::vector<Op>> walks; for (int k = 0; k < 3; k++) { std::vector<Op> v; int n = xdiff ? 3 : T ? 16 : 7; for (int i = 0; i < n; i++) v.push_back({ 'i', k == 0 ? i : k == 1 ? n - 1 - i : (i * 7) % n }); for (int i = 0; i < n; i++) v.push_back({ 'e', k == 0 ? i : k == 1 ? (i * 3) % n : n - 1 - i }); walks.push_back(v); std::vector<Op> l; for (auto& o : longrun(T ? 8 : xdiff ? 2 : 3, k)) if (o.k != 'p' && !(o.k == 'c' && o.a == 4)) l.push_back(o); walks.push_back(l); }
		std::vector<std::vector<Op>> pre; for (auto& v : walks) for (size_t c = 1; c <= v.size(); c++) pre.push_back(std::vector<Op>(v.begin(), v.begin() + c));
		run_tasks(pre.size(), [&](uint64_t i) { static bool priv = false; if (!priv) { fk::privatize(); priv = true; } faults(pre[i]); count(STATES); }, T ? 840 : 0); cover("walk_prefixes", pre.size());
	}
	done();
}
#endif
