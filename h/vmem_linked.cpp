// V03: page lists == sequences of pages, with splice.  Breadth-first search over every arrangement of up to P pages.
#include "vmem_common.h"
using namespace mc;
// ops: a l pos (allocate a page, insert into list l at pos) | e l pos | b l / f l pop | B l / F l push new page | s l (splice other into l) | S l (splice rvalue) | c l clear
struct Op { char k; int l, a; };
static std::string ops_str(const std::vector<Op>& v) { std::string s; for (auto& o : v) { s += o.k; s += char('0' + o.l); if (o.k == 'a' || o.k == 'e') s += std::to_string(o.a); s += ' '; } return s; }
static std::vector<Op> parse_ops(const std::string& s) { std::vector<Op> v; size_t i = 0; while (i + 1 < s.size()) { if (s[i] == ' ') { i++; continue; } Op o{ s[i], s[i + 1] - '0', 0 }; i += 2; if (o.k == 'a' || o.k == 'e') { char* e; o.a = strtol(&s[i], &e, 10); i = e - &s[0]; } v.push_back(o); } return v; }
template <size_t MP> struct Runner {
	using Pool = abc::vmem_pool<MP, Log>; using Page = abc::vmem_page<Pool, Log>; using L = abc::vmem_linked<Pool, Log>;
	using Pos = abc::vmem_page_pos_t;
	struct W { Pool* pool = nullptr; Page* start = nullptr; L* l[2] = {}; std::vector<Pos> m[2]; std::map<Pos, uint32_t> id; std::set<Pos> free; size_t pages = 2; uint32_t next = 1; };
	static constexpr size_t H = sizeof(abc::vmem_linked_page);
	void open(W& w) { w.pool = new Pool("ffs:0", NOLOG); w.start = new Page(w.pool, abc::vmem_page_pos_start, NOLOG); auto* st = reinterpret_cast<abc::vmem_linked_state*>(w.start->ptr()); for (int i = 0; i < 2; i++) w.l[i] = new L(st + i, w.pool, NOLOG); }
	void close(W& w) { for (int i = 0; i < 2; i++) delete w.l[i]; delete w.start; delete w.pool; w.pool = nullptr; }
	void fresh(W& w) { fk::kill_process(); fk::wipe(); w = W(); open(w); }
	void payload(W& w, Pos p, bool write, uint32_t id, const char* what) {
		Page pg(w.pool, p, NOLOG); unsigned char* b = (unsigned char*)pg.ptr(); MC_CHECK(b, "%s: page cannot be mapped", what);
		if (write) memset(b + H, (unsigned char)(id * 17 + 3), 4096 - H);
		else for (size_t i : { H, H + 1, size_t(2000), size_t(4095) }) MC_CHECK(b[i] == (unsigned char)(id * 17 + 3), "%s: the bytes stored on a page changed (offset %zu)", what, i);
	}
	Pos alloc(W& w, const char* what) {
		Pos p; { Page pg(w.pool, NOLOG); p = pg.pos(); MC_CHECK(pg.ptr() != nullptr, "%s: no page could be allocated", what); }
		MC_CHECK(p > 1, "%s: the root or start page was handed out", what);
		MC_CHECK(!w.id.count(p), "%s: a page that is in use was handed out", what);
		if (!w.free.empty()) MC_CHECK(w.free.count(p), "%s: a new page was created although %zu erased pages are available", what, w.free.size());
		else { MC_CHECK(p == w.pages, "%s: page %llu handed out, expected a new one", what, (unsigned long long)p); w.pages++; }
		w.free.erase(p); w.id[p] = w.next; payload(w, p, true, w.next++, what); return p;
	}
	typename L::iterator at(W& w, int l, size_t pos) { auto& m = w.m[l]; if (pos == m.size()) return w.l[l]->end(); if (pos * 2 <= m.size()) { auto it = w.l[l]->begin(); while (pos--) ++it; return it; } auto it = w.l[l]->rend(); for (size_t k = m.size() - 1; k > pos; k--) --it; return it; }
	void check_itr(W& w, typename L::iterator it, int l, size_t pos, const char* what) { auto& m = w.m[l]; if (pos == m.size()) { MC_CHECK(it == w.l[l]->end(), "%s: returned iterator is not the end", what); return; } MC_CHECK(it.page_pos() == m[pos], "%s: returned iterator points to a wrong page", what); auto n = it; ++n; if (pos + 1 == m.size()) MC_CHECK(n == w.l[l]->end(), "%s: returned iterator does not lead to the end", what); else MC_CHECK(n.page_pos() == m[pos + 1], "%s: returned iterator does not lead to the next page", what); }
	void verify(W& w, const char* when) {
		for (int l = 0; l < 2; l++) {
			auto& m = w.m[l]; L& c = *w.l[l]; const L& cc = c;
			MC_CHECK(c.empty() == m.empty(), "%s: list %d: empty() is %d with %zu pages", when, l, (int)c.empty(), m.size());
			size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) { MC_CHECK(i < m.size(), "%s: list %d: more than %zu pages forwards", when, l, m.size()); MC_CHECK(it.page_pos() == m[i] && *it == m[i], "%s: list %d: page %zu forwards is %llu, expected %llu", when, l, i, (unsigned long long)it.page_pos(), (unsigned long long)m[i]); }
			MC_CHECK(i == m.size(), "%s: list %d: %zu pages forwards, expected %zu", when, l, i, m.size());
			i = m.size(); for (auto it = c.rend(); it != c.rbegin(); --it) { MC_CHECK(i > 0, "%s: list %d: more than %zu pages backwards", when, l, m.size()); i--; MC_CHECK(it.page_pos() == m[i], "%s: list %d: page %zu backwards is wrong", when, l, i); }
			MC_CHECK(i == 0, "%s: list %d: %zu pages missing backwards", when, l, i);
			i = 0; for (auto it = cc.cbegin(); it != cc.cend(); it++) i++; MC_CHECK(i == m.size(), "%s: list %d: const iteration", when, l);
			if (!m.empty()) { MC_CHECK(c.front() == m.front() && cc.front() == m.front(), "%s: list %d: front is wrong", when, l); MC_CHECK(c.back() == m.back() && cc.back() == m.back(), "%s: list %d: back is wrong", when, l); }
			for (Pos p : m) payload(w, p, false, w.id[p], when);
		}
		MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str());
	}
	void drop(W& w, Pos p) { w.id.erase(p); w.free.insert(p); }
	void apply(W& w, const Op& o) {
		std::string ws = "after " + ops_str({ o }); const char* what = ws.c_str(); auto& m = w.m[o.l]; auto& m2 = w.m[1 - o.l]; L& c = *w.l[o.l]; L& c2 = *w.l[1 - o.l];
		switch (o.k) {
			case 'B': { Pos p = alloc(w, what); c.push_back(p); m.push_back(p); break; }
			case 'F': { Pos p = alloc(w, what); c.push_front(p); m.insert(m.begin(), p); break; }
			case 'a': { Pos p = alloc(w, what); auto it = c.insert(at(w, o.l, o.a), p); m.insert(m.begin() + o.a, p); check_itr(w, it, o.l, o.a, what); break; }
			case 'e': { auto it = c.erase(at(w, o.l, o.a)); drop(w, m[o.a]); m.erase(m.begin() + o.a); check_itr(w, it, o.l, o.a, what); break; }
			case 'b': c.pop_back(); drop(w, m.back()); m.pop_back(); break;
			case 'f': c.pop_front(); drop(w, m.front()); m.erase(m.begin()); break;
			case 's': c.splice(c2); m.insert(m.end(), m2.begin(), m2.end()); m2.clear(); break;
			case 'S': c.splice(std::move(c2)); m.insert(m.end(), m2.begin(), m2.end()); m2.clear(); break;
			case 'c': c.clear(); for (Pos p : m) drop(w, p); m.clear(); break;
		}
	}
	// everything erased can be had again, each page once
	void reuse(W& w) { std::set<Pos> want = w.free; while (!want.empty()) { Pos p = alloc(w, "re-allocating the erased pages"); MC_CHECK(want.erase(p), "re-allocating: an unexpected page"); } verify(w, "after re-allocating every erased page"); Pos p = alloc(w, "allocating one more page"); (void)p; }
	std::vector<Op> enabled(W& w, int P) {
		std::vector<Op> v; bool room = (int)w.id.size() < P;
		for (int l = 0; l < 2; l++) { int n = w.m[l].size();
			if (room) { v.push_back({ 'B', l }); v.push_back({ 'F', l }); for (int i = 0; i <= n; i++) v.push_back({ 'a', l, i }); }
			for (int i = 0; i < n; i++) v.push_back({ 'e', l, i });
			if (n) { v.push_back({ 'b', l }); v.push_back({ 'f', l }); }
			v.push_back({ 'c', l }); v.push_back({ 's', l }); v.push_back({ 'S', l }); }
		return v;
	}
	void replay(const std::string& s) {
		fk::privatize(); W w; fresh(w); size_t sl = s.find('/');
		for (auto& o : parse_ops(s.substr(0, sl))) { apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); }
		if (sl != std::string::npos) { close(w); fk::kill_process(); open(w); verify(w, "after reopening"); for (auto& o : parse_ops(s.substr(sl + 1))) { apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); } }
		reuse(w); close(w);
	}
	uint64_t key(const std::string& c) { uint64_t h = hash_bytes(c.data(), 8192); for (size_t p = 2; p * 4096 < c.size(); p++) h = hash_bytes(c.data() + p * 4096, H, h); return h; }
	void explore(const std::string& nm, int P, int depth, double deadline) {
		struct Rec { uint8_t n; uint8_t op[31][3]; }; static Rec* cur = nullptr; static Rec* nxt = nullptr; static std::atomic<uint64_t>* nn = nullptr; constexpr size_t CAP = 6000000;
		if (!cur) { cur = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nxt = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nn = (std::atomic<uint64_t>*)mmap(nullptr, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
		uint64_t salt = hash_str(nm + std::to_string(P)); uint64_t ncur = 1; cur[0].n = 0; int d = 0; bool closed = false;
		for (; d < depth && d < 30; d++) {
			nn->store(0);
			bool full = run_tasks(ncur, [&](uint64_t i) {
				static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
				Rec& r = cur[i]; std::vector<Op> path; for (int k = 0; k < r.n; k++) path.push_back({ (char)r.op[k][0], r.op[k][1], r.op[k][2] });
				std::string ps = ops_str(path); set_case(nm + "|" + ps); W w; fresh(w); for (auto& o : path) apply(w, o);
				verify(w, "after the history"); count(TRACES); close(w); std::string snap = fk::content(); W model = w;
				open(w); reuse(w); close(w);
				for (auto& o : enabled(model, P)) {
					set_case(nm + "|" + ps + "/ " + ops_str({ o })); fk::kill_process(); fk::set_content(snap); w = model; open(w);
					apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); close(w); count(TRANS);
					if (G.distinct.insert(key(fk::content()) ^ salt)) { count(STATES); uint64_t k = nn->fetch_add(1); if (k < CAP) { nxt[k] = r; nxt[k].op[r.n][0] = o.k; nxt[k].op[r.n][1] = o.l; nxt[k].op[r.n][2] = o.a; nxt[k].n = r.n + 1; } }
				}
				sample(nm + "|" + ps);
			}, deadline);
			std::swap(cur, nxt); ncur = std::min<uint64_t>(nn->load(), CAP);
			if (!full) { cover("lists_" + nm, fmt("at most %d pages, time cap hit at depth %d", P, d)); return; }
			if (ncur == 0) { closed = true; break; }
		}
		cover("lists_" + nm, fmt("at most %d pages in two lists, depth %d%s", P, d, closed ? ", closed (every reachable file state)" : " (depth bound)"));
	}
};
int main(int argc, char** argv) {
	init(argc, argv); fk::init(); g_level = "model_checking"; G.distinct.init(27);
	Runner<8> r8; Runner<5> r5;
	G.run_case = [&](const std::string& c) { size_t b = c.find('|'); if (c[1] == '8') r8.replay(c.substr(b + 1)); else r5.replay(c.substr(b + 1)); };
	maybe_replay();
	r8.explore("m8", G.thorough ? 7 : 6, 30, G.thorough ? elapsed() + 500 : 0); fprintf(stderr, "%.1f %llu\n", elapsed(), (unsigned long long)total(STATES));
	r5.explore("m5", G.thorough ? 6 : 5, 30, G.thorough ? elapsed() + 200 : 0);
	done();
}
