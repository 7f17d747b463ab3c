// V06: page handles. Every sequence of handle operations over a pool with a small memory limit.
#include "vmem_common.h"
#include <memory>
using namespace mc;
struct Op { char k; uint8_t h, g; };
static std::string ops_str(const std::vector<Op>& v) { std::string s; for (auto& o : v) { s += o.k; s += char('0' + o.h); s += char('0' + o.g); s += ' '; } return s; }
static std::vector<Op> parse_ops(const std::string& s) { std::vector<Op> v; for (size_t i = 0; i + 2 < s.size(); ) { if (s[i] == ' ') { i++; continue; } v.push_back({ s[i], (uint8_t)(s[i + 1] - '0'), (uint8_t)(s[i + 2] - '0') }); i += 3; } return v; }
struct IRunner { virtual void replay(const std::string&) = 0; virtual void explore(const std::string&, int H, int P, int depth, bool abstract, double deadline) = 0; virtual void access(const std::string&, int P, int len, int held) = 0; virtual ~IRunner() {} };
template <size_t MP> struct Runner : IRunner {
	using Pool = abc::vmem_pool<MP, Log>; using Page = abc::vmem_page<Pool, Log>; using Ptr = abc::vmem_ptr<unsigned char, Pool, Log>; using Pos = abc::vmem_page_pos_t;
	enum { OWNED = 0, FREE = 1, MAYBE = 2 };
	struct Slot { std::unique_ptr<Page> p; std::unique_ptr<Ptr> q; Pos pos = 0; unsigned char* ptr = nullptr; bool used() const { return p || q; } void reset() { p.reset(); q.reset(); ptr = nullptr; pos = 0; } };
	static constexpr int NS = 5;
	struct W { Pool* pool = nullptr; Slot s[NS]; std::map<Pos, int> st; std::map<Pos, uint32_t> id; size_t pages = 2; uint32_t next = 1; };
	void fresh(W& w) { fk::kill_process(); fk::wipe(); for (auto& s : w.s) s.reset(); w.st.clear(); w.id.clear(); w.pages = 2; w.next = 1; w.pool = new Pool("ffs:0", NOLOG); fk::reset_counts(); w.st[1] = OWNED; w.id[1] = 0; }
	void close(W& w) { for (auto& s : w.s) s.reset(); delete w.pool; w.pool = nullptr; MC_CHECK(fk::S.open_fds == 0 && fk::S.live_maps == 0, "after destroying the pool: %d descriptors and %d mappings are left", fk::S.open_fds, fk::S.live_maps); }
	size_t locked(W& w) { std::set<Pos> d; for (auto& s : w.s) if (s.used() && s.ptr) d.insert(s.pos); return d.size(); }
	bool is_locked(W& w, Pos p) { for (auto& s : w.s) if (s.used() && s.ptr && s.pos == p) return true; return false; }
	static unsigned char* ptr_of(Slot& s) { return (unsigned char*)(s.p ? s.p->ptr() : s.q->operator->()); }
	static void put(unsigned char* b, uint32_t id) { b[32] = id; b[2048] = id * 3; b[4095] = id * 7; }
	static bool same(const unsigned char* b, uint32_t id) { return b[32] == (unsigned char)id && b[2048] == (unsigned char)(id * 3) && b[4095] == (unsigned char)(id * 7); }
	void verify(W& w, const char* when) {
		for (int h = 0; h < NS; h++) if (w.s[h].used()) { Slot& s = w.s[h]; unsigned char* b = ptr_of(s);
			MC_CHECK(b == s.ptr, "%s: the address of handle %d changed from %p to %p", when, h, s.ptr, b);
			MC_CHECK((s.p ? s.p->pos() : s.q->page_pos()) == s.pos, "%s: handle %d is on another page", when, h);
			if (b) { MC_CHECK(fk::is_mapped(b), "%s: the page of handle %d was unmapped", when, h); MC_CHECK(same(b, w.id[s.pos]), "%s: handle %d does not show the bytes last written to its page", when, h); } }
		MC_CHECK(fk::S.max_live <= (int)MP, "%s: %d pages were mapped at once, the limit is %d", when, fk::S.max_live, (int)MP);
		MC_CHECK(fk::S.open_fds == 1, "%s: %d descriptors open", when, fk::S.open_fds);
		MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str());
		MC_CHECK(!fk::S.torn, "%s: a page beyond the end of the file was mapped", when);
	}
	// with all handles gone, exactly the limit can be in use at once
	void capacity(W& w) {
		for (auto& s : w.s) s.reset(); while (w.pages < MP + 1) { Page p(w.pool, NOLOG); MC_CHECK(p.ptr(), "no page is in use, but none can be allocated"); size_t np = fk::S.f[0].size / 4096; if (np == w.pages) { bool any = false; for (auto& kv : w.st) any |= kv.second != OWNED; MC_CHECK(any, "a page in use was handed out"); w.st[p.pos()] = MAYBE; if (++w.next > 100000) break; put((unsigned char*)p.ptr(), 0); extra.push_back(p.pos()); } w.pages = np; if (np > 30) break; }
		extra.clear(); std::vector<std::unique_ptr<Page>> held; for (size_t i = 0; i < MP; i++) { held.emplace_back(new Page(w.pool, (Pos)i, NOLOG)); MC_CHECK(held.back()->ptr(), "with every handle gone, only %zu of %d pages can be in use at once", i, (int)MP); }
		{ Page more(w.pool, (Pos)MP, NOLOG); MC_CHECK(!more.ptr(), "%d pages are in use at once, the limit is %d", (int)MP + 1, (int)MP); } std::set<void*> d; for (auto& h : held) d.insert(h->ptr()); MC_CHECK(d.size() == MP, "two pages have the same address"); MC_CHECK(fk::S.max_live <= (int)MP, "%d pages were mapped at once, the limit is %d", fk::S.max_live, (int)MP); }
	std::vector<Pos> extra;
	// contents of all pages, looked at through fresh handles
	void verify_all(W& w, const char* when) { if (locked(w) >= MP) return; for (auto& kv : w.st) if (kv.second == OWNED) { Page p(w.pool, kv.first, NOLOG); unsigned char* b = (unsigned char*)p.ptr(); MC_CHECK(b, "%s: a page cannot be mapped although %zu of %d are in use", when, locked(w), (int)MP); MC_CHECK(same(b, w.id[kv.first]), "%s: page %llu lost its bytes", when, (unsigned long long)kv.first); } }
	void acquired(W& w, Slot& s, Pos pos, bool must, bool mustnot, const char* what) {
		s.pos = pos; s.ptr = ptr_of(s);
		if (must) MC_CHECK(s.ptr, "%s: the page cannot be mapped although fewer than %d pages are in use", what, (int)MP);
		if (mustnot) MC_CHECK(!s.ptr, "%s: one more page than the limit was mapped", what);
	}
	void apply(W& w, const Op& o) {
		std::string ws = "after " + ops_str({ o }); const char* what = ws.c_str(); Slot& s = w.s[o.h]; Slot& t = w.s[o.g < NS ? o.g : 0]; size_t D = locked(w);
		switch (o.k) {
			case 'o': case 'q': { bool lk = is_locked(w, o.g); if (o.k == 'o') s.p.reset(new Page(w.pool, o.g, NOLOG)); else s.q.reset(new Ptr(w.pool, o.g, 0, NOLOG)); acquired(w, s, o.g, lk || D < MP, !lk && D >= MP, what); break; }
			case 'n': { bool anyfree = false, anymaybe = false; for (auto& kv : w.st) { anyfree |= kv.second == FREE; anymaybe |= kv.second == MAYBE; }
				s.p.reset(new Page(w.pool, NOLOG)); Pos p = s.p->pos(); bool room = D + 3 <= MP;
				size_t np = fk::S.f[0].size / 4096;
				if (p == abc::vmem_page_pos_nil) { MC_CHECK(!room, "%s: no page was allocated although only %zu pages are in use", what, D); s.reset(); break; }
				MC_CHECK(p != 0 && p != 1, "%s: the root or start page was handed out", what);
				auto it = w.st.find(p); MC_CHECK(it == w.st.end() || it->second != OWNED, "%s: a page that is in use was handed out", what);
				if (it == w.st.end()) MC_CHECK(p == np - 1 && np == w.pages + 1, "%s: page %llu of %zu was handed out", what, (unsigned long long)p, np); else MC_CHECK(np == w.pages, "%s: the file grew although a released page was handed out", what);
				if (room && anyfree && !anymaybe) MC_CHECK(it != w.st.end(), "%s: the file grew although released pages are available", what);
				w.pages = np; w.st[p] = OWNED; s.pos = p; s.ptr = ptr_of(s); if (room) MC_CHECK(s.ptr, "%s: the new page cannot be mapped", what);
				if (s.ptr) { put(s.ptr, w.next); w.id[p] = w.next++; } else { // visible bytes unknown: adopt them later
					s.reset(); w.st[p] = MAYBE; }
				break; }
			case 'c': if (t.p) s.p.reset(new Page(*t.p)); else s.q.reset(new Ptr(*t.q)); acquired(w, s, t.pos, t.ptr || D < MP, !t.ptr && !is_locked(w, t.pos) && D >= MP, what); break;
			case 'm': if (t.p) s.p.reset(new Page(std::move(*t.p))); else s.q.reset(new Ptr(std::move(*t.q))); s.pos = t.pos; s.ptr = t.ptr; MC_CHECK(!t.p || t.p->ptr() == nullptr, "%s: a moved-from handle still shows a page", what); t.reset(); break;
			case '=': { bool lk = is_locked(w, t.pos); Pos was = s.pos; if (&s == &t) { *s.p = *t.p; acquired(w, s, t.pos, true, false, what); break; } *s.p = *t.p; (void)was; acquired(w, s, t.pos, lk || D < MP, false, what); break; }
			case '>': { if (&s == &t) break; bool had = t.ptr; *s.p = std::move(*t.p); MC_CHECK(t.p->ptr() == nullptr, "%s: a moved-from handle still shows a page", what); Pos p = t.pos; t.reset(); s.pos = p; s.ptr = ptr_of(s); if (had) MC_CHECK(s.ptr, "%s: the moved handle lost its page", what); break; }
			case 'w': put(s.ptr, w.next); w.id[s.pos] = w.next++; break;
			case 'r': s.reset(); break;
			case 'f': { Pos p = s.pos; bool room = D - 1 + 3 <= MP; s.p->free(); MC_CHECK(s.p->ptr() == nullptr, "%s: a freed handle still shows a page", what); s.reset(); w.st[p] = room ? FREE : MAYBE; break; }
		}
	}
	std::vector<Op> enabled(W& w, int H, int P) {
		std::vector<Op> v; int e = -1; for (int h = 0; h < H; h++) if (!w.s[h].used()) { e = h; break; }
		if (e >= 0) { for (auto& kv : w.st) if (kv.second == OWNED) { v.push_back({ 'o', (uint8_t)e, (uint8_t)kv.first }); v.push_back({ 'q', (uint8_t)e, (uint8_t)kv.first }); }
			if ((int)w.pages < P) v.push_back({ 'n', (uint8_t)e, 0 }); else { for (auto& kv : w.st) if (kv.second != OWNED) { v.push_back({ 'n', (uint8_t)e, 0 }); break; } }
			for (int g = 0; g < H; g++) if (w.s[g].used()) { v.push_back({ 'c', (uint8_t)e, (uint8_t)g }); v.push_back({ 'm', (uint8_t)e, (uint8_t)g }); } }
		for (int h = 0; h < H; h++) if (w.s[h].used()) {
			if (w.s[h].ptr) v.push_back({ 'w', (uint8_t)h, 0 }); v.push_back({ 'r', (uint8_t)h, 0 });
			if (w.s[h].p) for (int g = 0; g < H; g++) if (w.s[g].p && (w.s[g].ptr || g != h)) { v.push_back({ '=', (uint8_t)h, (uint8_t)g }); if (g != h) v.push_back({ '>', (uint8_t)h, (uint8_t)g }); }
			int n = 0; for (int g = 0; g < H; g++) if (w.s[g].used() && w.s[g].pos == w.s[h].pos) n++;
			if (n == 1 && w.s[h].p && w.s[h].ptr && w.s[h].pos > 1) v.push_back({ 'f', (uint8_t)h, 0 }); }
		return v;
	}
	void replay(const std::string& s) override { fk::privatize(); if (s[0] == 'A') { run_access(s.substr(1)); return; } W w; fresh(w); for (auto& o : parse_ops(s)) { apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); } verify_all(w, "in the end"); finish_world(w); }
	void finish_world(W& w) { capacity(w); std::map<Pos, int> st = w.st; std::map<Pos, uint32_t> id = w.id; close(w); fk::kill_process(); { Pool p("ffs:0", NOLOG); W w2; w2.pool = &p; w2.st = st; w2.id = id; verify_all(w2, "after reopening"); w2.pool = nullptr; } }
	uint64_t abs_state(W& w) { std::string k; for (auto& s : w.s) { k += s.used() ? (s.p ? 'p' : 'q') : '-'; k += (char)('0' + (s.used() ? s.pos : 0)); k += s.used() && s.ptr ? '1' : '0'; } for (auto& kv : w.st) { k += (char)kv.first; k += (char)kv.second; } for (size_t p = 0; p < 16; p++) { bool mp = false; for (size_t a = 0; a < fk::NALIAS; a++) mp |= fk::S.f[0].refs[a][p] != 0; k += mp ? 'M' : 'u'; } return hash_str(k); }
	void explore(const std::string& nm, int H, int P, int depth, bool abstract, double deadline) override {
		struct Rec { uint8_t n; uint8_t op[31][3]; }; static Rec* cur = nullptr; static Rec* nxt = nullptr; static std::atomic<uint64_t>* nn = nullptr; constexpr size_t CAP = 6000000;
		if (!cur) { cur = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nxt = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nn = (std::atomic<uint64_t>*)mmap(nullptr, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
		uint64_t salt = hash_str(nm + (abstract ? "a" : "x") + std::to_string(H)); uint64_t ncur = 1; cur[0].n = 0; int d = 0; bool closed = false;
		for (; d < depth && d < 30; d++) {
			nn->store(0);
			bool full = run_tasks(ncur, [&](uint64_t i) {
				static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
				Rec& r = cur[i]; std::vector<Op> path; for (int k = 0; k < r.n; k++) path.push_back({ (char)r.op[k][0], r.op[k][1], r.op[k][2] });
				std::string ps = ops_str(path); W w; set_case(nm + "|" + ps); fresh(w); for (auto& o : path) apply(w, o); auto en = enabled(w, H, P);
				verify_all(w, "after the history"); finish_world(w); count(TRACES);
				for (auto& o : en) {
					set_case(nm + "|" + ps + ops_str({ o })); fresh(w); for (auto& q : path) apply(w, q);
					apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); count(TRANS);
					uint64_t h = abstract ? abs_state(w) ^ salt : hash_str(ps + ops_str({ o })) ^ salt;
					if (G.distinct.insert(h)) { count(STATES); if (d + 1 < depth) { uint64_t k = nn->fetch_add(1); if (k < CAP) { nxt[k] = r; nxt[k].op[r.n][0] = o.k; nxt[k].op[r.n][1] = o.h; nxt[k].op[r.n][2] = o.g; nxt[k].n = r.n + 1; } } }
					verify_all(w, "after the operation"); capacity(w); close(w);
				}
				sample(nm + "|" + ps);
			}, deadline);
			std::swap(cur, nxt); if (nn->load() > CAP) { fprintf(stderr, "mc: frontier overflow\n"); exit(2); } ncur = nn->load();
			if (!full) { cover((abstract ? "abstract_" : "exact_") + nm, fmt("%d handles, time cap hit at depth %d", H, d)); return; }
			if (ncur == 0) { closed = d + 1 < depth; if (closed) break; }
		}
		cover((abstract ? "abstract_" : "exact_") + nm, fmt("%d handles, %d pages, depth %d%s", H, P, d, closed ? ", closed" : ""));
	}
	// eviction: every sequence of page accesses of a given length, with some pages held for its whole duration
	void run_access(const std::string& s) {
		W w; fresh(w); int P = s[0] - '0', held = s[1] - '0';
		for (int i = 0; i < P - 1; i++) { apply(w, { 'n', 0, 0 }); apply(w, { 'r', 0, 0 }); }
		for (int i = 0; i < held; i++) apply(w, { 'o', (uint8_t)i, (uint8_t)(i + 1) });
		for (size_t i = 2; i < s.size(); i++) { apply(w, { 'o', 4, (uint8_t)(s[i] - '0' + 1) }); verify(w, "during the accesses"); apply(w, { 'w', 4, 0 }); apply(w, { 'r', 4, 0 }); }
		verify(w, "after the accesses"); verify_all(w, "after the accesses"); close(w);
	}
	void access(const std::string& nm, int P, int len, int held) override {
		uint64_t n = 1; for (int i = 0; i < len; i++) n *= P;
		run_tasks(n, [&](uint64_t t) { static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
			std::string s; s += char('0' + P); s += char('0' + held); uint64_t x = t; for (int i = 0; i < len; i++) { s += char('0' + x % P); x /= P; }
			set_case(nm + "|A" + s); run_access(s); count(TRANS, len); count(STATES); count(TRACES); if ((t & 8191) == 0) sample(nm + "|A" + s); }, 0, 64);
		cover("accesses_" + nm + "_" + std::to_string(held), fmt("every sequence of %d accesses to %d pages, %d more held", len, P, held));
	}
};
int main(int argc, char** argv) {
	init(argc, argv); fk::init(); g_level = "model_checking"; G.distinct.init(27);
	std::map<std::string, IRunner*> R; R["m3"] = new Runner<3>(); R["m4"] = new Runner<4>(); R["m5"] = new Runner<5>();
	G.run_case = [&](const std::string& c) { size_t b = c.find('|'); R[c.substr(0, b)]->replay(c.substr(b + 1)); };
	maybe_replay(); bool T = G.thorough;
	auto rep = [&](const char* s) { fprintf(stderr, "%s %.1f %llu\n", s, elapsed(), (unsigned long long)total(TRANS)); };
	R["m3"]->explore("m3", 3, 4, T ? 7 : 5, false, 0); rep("x3"); R["m4"]->explore("m4", 3, 4, T ? 7 : 5, false, 0); rep("x4");
	R["m3"]->explore("m3", T ? 4 : 3, T ? 6 : 5, 30, true, elapsed() + (T ? 200 : 25)); rep("a3"); R["m4"]->explore("m4", 4, 6, 30, true, elapsed() + (T ? 200 : 10)); rep("a4"); if (T) { R["m5"]->explore("m5", 5, 7, 30, true, elapsed() + 150); rep("a5"); }
	R["m3"]->access("m3", 4, T ? 9 : 7, 0); R["m3"]->access("m3", 5, T ? 8 : 6, 1); R["m4"]->access("m4", 5, T ? 8 : 6, 0); R["m4"]->access("m4", 6, T ? 7 : 5, 2); rep("acc");
	done();
}
