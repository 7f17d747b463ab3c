// V01: container == sequence; also V04/V05/V10 oracles are separate harnesses.
#include "vmem_common.h"
using namespace mc;
using abc::vmem_page_balance_t;

struct Op { char k; int a, b; };   // i pos | e pos | B push_back | F push_front | b pop_back | f pop_front | c clear | I pos (2 items) | E first last
static std::string ops_str(const std::vector<Op>& v) { std::string s; for (auto& o : v) { s += o.k; if (strchr("ieIE", o.k)) s += std::to_string(o.a); if (o.k == 'E') s += "-" + std::to_string(o.b); s += ' '; } return s; }
static std::vector<Op> parse_ops(const std::string& s) { std::vector<Op> v; size_t i = 0; while (i < s.size()) { if (s[i] == ' ') { i++; continue; } Op o{ s[i++], 0, 0 }; if (strchr("ieIE", o.k)) { char* e; o.a = strtol(&s[i], &e, 10); i = e - &s[0]; } if (o.k == 'E') { char* e; o.b = strtol(&s[i + 1], &e, 10); i = e - &s[0]; } v.push_back(o); } return v; }

struct Config { int flavour; int maxn; };
// A world: pool on the fake file plus one container and its model.
template <class C, class T, class Pool> struct World {
	Pool* pool = nullptr; abc::vmem_page<Pool, Log>* start = nullptr; C* c = nullptr;
	std::vector<uint32_t> model; uint32_t next_id = 1;
	vmem_page_balance_t bi, be; int flavour;
	typename std::aligned_storage<sizeof(Pool), alignof(Pool)>::type mem;
};

template <class C> struct Maker;
template <class T, class P> struct Maker<abc::vmem_list<T, P, Log>> { template <class St> static abc::vmem_list<T, P, Log>* make(St* st, int, P* p) { return new abc::vmem_list<T, P, Log>(reinterpret_cast<abc::vmem_list_state*>(st), p, NOLOG); } static constexpr bool is_stack = false; };
template <class T, class P> struct Maker<abc::vmem_stack<T, P, Log>> { template <class St> static abc::vmem_stack<T, P, Log>* make(St* st, int, P* p) { return new abc::vmem_stack<T, P, Log>(reinterpret_cast<abc::vmem_stack_state*>(st), p, NOLOG); } static constexpr bool is_stack = true; };
template <class T, class P> struct Maker<abc::vmem_container<T, abc::vmem_noheader, P, Log>> { template <class St> static abc::vmem_container<T, abc::vmem_noheader, P, Log>* make(St* st, int bal, P* p) { return new abc::vmem_container<T, abc::vmem_noheader, P, Log>(reinterpret_cast<abc::vmem_container_state*>(st), bal & 0xff, (bal >> 8) & 0xff, p, NOLOG); } static constexpr bool is_stack = false; };

struct IRunner { virtual void replay(const std::string&) = 0; virtual void explore(const std::string& name, int maxn, int depth, double deadline, bool canon) = 0; virtual void structured(const std::string& name, int n, double deadline) = 0; virtual ~IRunner() {} };

template <class C, class T, class Pool> struct Runner : IRunner {
	int bal; std::string name;
	Runner(const std::string& n, int b) : bal(b), name(n) {}
	struct W { Pool* pool = nullptr; abc::vmem_page<Pool, Log>* start = nullptr; C* c = nullptr; std::vector<uint32_t> m; uint32_t next = 1; };
	void open(W& w) {
		w.pool = new Pool("ffs:0", NOLOG);
		w.start = new abc::vmem_page<Pool, Log>(w.pool, abc::vmem_page_pos_start, NOLOG);
		w.c = Maker<C>::make(reinterpret_cast<abc::vmem_container_state*>(w.start->ptr()), bal, w.pool);
	}
	void close(W& w) { delete w.c; delete w.start; delete w.pool; w.c = nullptr; w.pool = nullptr; w.start = nullptr; }
	// V10: how full the pages are. append: the history consists of appending and removing at the end only
	size_t cap() { size_t i = name.find('/'); return name[i - 1] - '0'; }
	void density(W& w, const char* when, bool append) {
		std::vector<size_t> v; std::vector<long long> ps; for (auto it = w.c->begin(); it != w.c->end(); ++it) { long long p = (long long)it.page_pos(); if (ps.empty() || p != ps.back()) { ps.push_back(p); v.push_back(0); } v.back()++; }
		std::set<long long> q(ps.begin(), ps.end()); size_t n = w.m.size(), c = cap(), P = v.size(); std::string fill; for (size_t x : v) fill += std::to_string(x) + " ";
		MC_CHECK(q.size() == P, "%s: a page is visited twice", when);
		bool balanced = name.compare(0, 4, "list") == 0 || name.compare(0, 3, "all") == 0;
		if (balanced) { for (size_t i = 0; i + 1 < P; i++) MC_CHECK(2 * (v[i] + v[i + 1]) > c, "%s: neighbouring pages hold %zu and %zu of %zu items (all: %s)", when, v[i], v[i + 1], c, fill.c_str());
			MC_CHECK(P <= 2 * (n / (c / 2 + 1)) + 1, "%s: %zu items occupy %zu pages of %zu", when, n, P, c); }
		MC_CHECK(P <= n, "%s: %zu items occupy %zu pages", when, n, P);
		if (append && name.compare(0, 3, "all") && name.compare(0, 3, "ins")) MC_CHECK(P == (n + c - 1) / c, "%s: after appending only, %zu items occupy %zu pages of %zu (%s)", when, n, P, c, fill.c_str());
		outcome(hash_str(fill + name)); count(EVAL);
		MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str());
	}
	static bool appending(const std::vector<Op>& v) { for (auto& o : v) if (!strchr("Bbc", o.k)) return false; return true; }
	bool app = false;
	void verify(W& w, const char* when, bool deep = true) {
		if (G.prop == "V10") { density(w, when, app); return; }
		auto& m = w.m; C& c = *w.c; const C& cc = c;
		MC_CHECK(c.size() == m.size(), "%s: size() is %zu, expected %zu", when, c.size(), m.size());
		MC_CHECK(c.empty() == m.empty(), "%s: empty() is %d with %zu items", when, (int)c.empty(), m.size());
		if (!deep) return;
		size_t i = 0;
		auto e = c.end();
		for (auto it = c.begin(); it != e; ++it, ++i) {
			MC_CHECK(i < m.size(), "%s: forward iteration yields more than %zu items", when, m.size());
			MC_CHECK(it.can_deref(), "%s: iterator at %zu cannot be dereferenced", when, i);
			MC_CHECK(it->ok() && it->id == m[i], "%s: forward item %zu is %u (intact=%d), expected %u", when, i, it->id, (int)it->ok(), m[i]);
		}
		MC_CHECK(i == m.size(), "%s: forward iteration yields %zu items, expected %zu", when, i, m.size());
		i = m.size();
		auto re = c.rbegin();
		for (auto it = c.rend(); it != re; --it) {
			MC_CHECK(i > 0, "%s: backward iteration yields more than %zu items", when, m.size());
			i--;
			MC_CHECK((*it).ok() && (*it).id == m[i], "%s: backward item %zu is %u, expected %u", when, i, (*it).id, m[i]);
		}
		MC_CHECK(i == 0, "%s: backward iteration stops with %zu items missing", when, i);
		i = 0; for (auto it = cc.cbegin(); it != cc.cend(); it++, i++) { MC_CHECK(i < m.size() && it->id == m[i], "%s: const iteration differs at %zu", when, i); }
		MC_CHECK(i == m.size(), "%s: const iteration yields %zu items", when, i);
		if (!m.empty()) {
			auto p = c.frontptr(); MC_CHECK(p->id == m.front(), "%s: front is %u, expected %u", when, p->id, m.front());
			auto q = c.backptr(); MC_CHECK(q->id == m.back(), "%s: back is %u, expected %u", when, q->id, m.back());
			MC_CHECK(c.front().id == m.front() && c.back().id == m.back(), "%s: front()/back() differ", when); MC_CHECK(cc.front().id == m.front() && cc.back().id == m.back(), "%s: const front()/back() differ", when);
			auto l = c.end(); --l; MC_CHECK(l->id == m.back(), "%s: stepping back from the end gives %u, expected %u", when, l->id, m.back());
			auto f = c.rbegin(); ++f; MC_CHECK(f->id == m.front(), "%s: stepping forward from the reverse end gives %u", when, f->id);
		}
		MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str());
	}
	template <class It> void check_itr(W& w, It it, size_t pos, const char* what) {
		if (pos == w.m.size()) { MC_CHECK(it == w.c->end(), "%s: returned iterator is not the end", what); MC_CHECK(!it.can_deref(), "%s: end iterator claims to be dereferenceable", what); return; }
		MC_CHECK(it.can_deref(), "%s: returned iterator cannot be dereferenced (item %zu of %zu expected)", what, pos, w.m.size());
		MC_CHECK(it->id == w.m[pos], "%s: returned iterator points to %u, expected item %zu = %u", what, it->id, pos, w.m[pos]);
		// position in the sequence, not only the value
		auto b = w.c->begin(); for (size_t i = 0; i < pos; i++) ++b; MC_CHECK(b == it, "%s: returned iterator differs from the iterator of item %zu", what, pos);
		size_t i = pos; auto f = it; for (; f != w.c->end(); ++f, ++i) MC_CHECK(i < w.m.size() && f->id == w.m[i], "%s: iterating on from the returned iterator differs at %zu", what, i);
		MC_CHECK(i == w.m.size(), "%s: iterating on from the returned iterator ends at %zu", what, i);
		i = pos; auto r = it; for (;; --i) { MC_CHECK(r->id == w.m[i], "%s: iterating back from the returned iterator differs at %zu", what, i); --r; if (r == w.c->rbegin()) break; MC_CHECK(i > 0, "%s: iterating back from the returned iterator does not end", what); }
		MC_CHECK(i == 0, "%s: iterating back from the returned iterator ends at %zu", what, i);
	}
	typename C::iterator at(W& w, size_t pos) { // alternate between walking from the front and from the back
		if (pos == w.m.size()) return w.c->end();
		if (pos * 2 <= w.m.size()) { auto it = w.c->begin(); while (pos--) ++it; return it; }
		auto it = w.c->rend(); size_t k = w.m.size() - 1; while (k-- > pos) --it; return it;
	}
	// applies op to container and model
	void apply(W& w, const Op& o, bool strict = true) {
		C& c = *w.c; auto& m = w.m;
		std::string whats = "after " + ops_str({ o }); const char* what = whats.c_str();
		switch (o.k) {
			case 'B': { auto x = T::make(w.next); c.push_back(x); m.push_back(w.next++); break; }
			case 'F': { auto x = T::make(w.next); c.push_front(x); m.insert(m.begin(), w.next++); break; }
			case 'b': c.pop_back(); m.pop_back(); break;
			case 'f': c.pop_front(); m.erase(m.begin()); break;
			case 'c': c.clear(); m.clear(); break;
			default: apply2(w, o, what, std::integral_constant<bool, Maker<C>::is_stack>(), strict);
		}
	}
	void apply2(W&, const Op&, const char*, std::true_type, bool) {}
	void apply2(W& w, const Op& o, const char* what, std::false_type, bool strict) {
		C& c = *w.c; auto& m = w.m;
		switch (o.k) {
			case 'i': { auto x = T::make(w.next); auto it = c.insert(at(w, o.a), x); m.insert(m.begin() + o.a, w.next++); if (strict) check_itr(w, it, o.a, what); break; }
			case 'e': { auto it = c.erase(at(w, o.a)); m.erase(m.begin() + o.a); if (strict) check_itr(w, it, o.a, what); break; }
			case 'I': { T x[2] = { T::make(w.next), T::make(w.next + 1) }; auto it = c.insert(at(w, o.a), x, x + 2); m.insert(m.begin() + o.a, { w.next, w.next + 1 }); w.next += 2; (void)it; break; }
			case 'E': { auto it = c.erase(at(w, o.a), at(w, o.b)); m.erase(m.begin() + o.a, m.begin() + o.b); if (strict) check_itr(w, it, o.a, what); break; }
		}
	}
	std::vector<Op> enabled(size_t n, size_t maxn) {
		std::vector<Op> v; bool st = Maker<C>::is_stack;
		if (n < maxn) { v.push_back({ 'B' }); v.push_back({ 'F' }); }
		if (n) { v.push_back({ 'b' }); v.push_back({ 'f' }); }
		if (!st) {
			if (n < maxn) for (size_t i = 0; i <= n; i++) v.push_back({ 'i', (int)i });
			for (size_t i = 0; i < n; i++) v.push_back({ 'e', (int)i });
			if (n + 1 < maxn) for (size_t i = 0; i <= n; i++) v.push_back({ 'I', (int)i });
			for (size_t i = 0; i < n; i++) for (size_t j = i + 2; j <= n; j++) v.push_back({ 'E', (int)i, (int)j });
		}
		if (n) v.push_back({ 'c' });
		return v;
	}
	void fresh(W& w) { fk::kill_process(); fk::wipe(); w = W(); open(w); }
	void replay(const std::string& s) override { // "ops" or "ops / op" : the last op after reopening
		fk::privatize();
		W w; fresh(w);
		size_t sl = s.find('/'); auto v = parse_ops(s.substr(0, sl));
		app = appending(v); for (auto& o : v) { apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); }
		if (sl != std::string::npos) { close(w); fk::kill_process(); open(w); verify(w, "after reopening"); for (auto& o : parse_ops(s.substr(sl + 1))) { app = app && appending({ o }); apply(w, o); verify(w, ("after " + ops_str({ o })).c_str()); } }
		close(w);
	}
	// breadth-first search over the reachable page layouts
	// the fill of each page in order: everything a container's behaviour depends on up to renaming of pages and items
	uint64_t layout(W& w) {
		std::vector<uint16_t> v; long long last = -1;
		for (auto it = w.c->begin(); it != w.c->end(); ++it) { long long p = (long long)it.page_pos(); if (p != last) { v.push_back(0); last = p; } v.back()++; }
		return hash_bytes(v.data(), v.size() * 2);
	}
	void explore(const std::string& nm, int maxn, int depth, double deadline, bool canon) override {
		struct Rec { uint8_t n; uint8_t op[31][3]; };
		static Rec* cur = nullptr; static Rec* nxt = nullptr; static std::atomic<uint64_t>* nn = nullptr;
		constexpr size_t CAP = 3000000;
		if (!cur) { cur = (Rec*)mmap(nullptr, CAP * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nxt = (Rec*)mmap(nullptr, CAP * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nn = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
		uint64_t salt = hash_str(nm + std::to_string(maxn) + (canon ? "c" : "r"));
		uint64_t ncur = 1; cur[0].n = 0;
		int d = 0; bool closed = false;
		for (; d < depth && d < 30; d++) {
			nn->store(0);
			bool full = run_tasks(ncur, [&](uint64_t i) {
				static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
				Rec& r = cur[i]; std::vector<Op> path; for (int k = 0; k < r.n; k++) path.push_back({ (char)r.op[k][0], r.op[k][1], r.op[k][2] });
				std::string ps = ops_str(path); set_case(nm + "|" + ps);
				W w; fresh(w);
				for (auto& o : path) apply(w, o, false);
				app = appending(path); verify(w, "after the history");
				count(TRACES);
				close(w);
				std::string snap = fk::content(); auto model = w.m; uint32_t nid = w.next;
				for (auto& o : enabled(model.size(), maxn)) {
					set_case(nm + "|" + ps + "/ " + ops_str({ o }));
					fk::kill_process(); fk::set_content(snap); w.m = model; w.next = nid; open(w);
					apply(w, o); app = appending(path) && appending({ o }); verify(w, ("after " + ops_str({ o })).c_str());
					uint64_t h = canon ? layout(w) : 0;
					close(w); count(TRANS);
					if (!canon) { std::string c = fk::content(); h = masked_hash(c); }
					h ^= salt;
					if (G.distinct.insert(h)) { count(STATES); if (r.n < 31) { uint64_t k = nn->fetch_add(1); if (k < CAP) { nxt[k] = r; nxt[k].op[r.n][0] = o.k; nxt[k].op[r.n][1] = o.a; nxt[k].op[r.n][2] = o.b; nxt[k].n = r.n + 1; } } }
				}
				sample(nm + "|" + ps);
			}, deadline);
			std::swap(cur, nxt); ncur = std::min<uint64_t>(nn->load(), CAP);
			if (!full) { cover(std::string(canon ? "layouts_" : "files_") + nm, fmt("time cap hit at depth %d", d)); return; }
			if (ncur == 0) { closed = true; break; }
		}
		cover(std::string(canon ? "layouts_" : "files_") + nm, fmt("items<=%d, depth %d%s", maxn, d, closed ? ", closed (every reachable one)" : " (depth bound)"));
	}
	// long histories: build n items with one pattern, drain with another
	void structured(const std::string& nm, int n, double deadline) override {
		int nb = 5, nd = 7;
		run_tasks(nb * nd, [&](uint64_t t) {
			static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
			int pb = t % nb, pd = t / nb;
			W w; std::string s; fresh(w); std::vector<Op> hist;
			auto step = [&](Op o) { hist.push_back(o); set_case(nm + "|" + ops_str(hist)); apply(w, o, false); app = appending(hist); count(TRANS); bool deep = hist.size() % 7 == 0 || w.m.size() < 12; verify(w, ("after step " + std::to_string(hist.size())).c_str(), deep); };
			bool st = Maker<C>::is_stack;
			for (int i = 0; i < n; i++) { size_t sz = w.m.size(); Op o{ 'B' }; if (pb == 1) o = { 'F' }; else if (!st && pb == 2) o = { 'i', (int)(sz / 2) }; else if (!st && pb == 3) o = { 'i', (int)((i * 7) % (sz + 1)) }; else if (pb == 4) o = { i % 3 ? 'B' : 'F' }; step(o); }
			verify(w, "after the build");
			for (int i = 0; w.m.size(); i++) { size_t sz = w.m.size(); Op o{ 'b' }; if (pd == 1) o = { 'f' }; else if (!st && pd == 2) o = { 'e', (int)(sz / 2) }; else if (!st && pd == 3) o = { 'e', (int)((i * 5) % sz) }; else if (!st && pd == 4) o = { 'e', (int)(i % 2 ? 0 : sz - 1) }; else if (!st && pd == 5) { o = { 'e', (int)((i * 11) % sz) }; if (i % 3 == 2) o = { 'i', (int)((i * 3) % (sz + 1)) }; } else if (pd == 6) { o = { i % 4 == 3 ? 'F' : i % 2 ? 'b' : 'f' }; } if (i > 3 * n) o = { 'c' }; step(o); }
			verify(w, "after the drain");
			for (int i = 0; i < 5; i++) step({ i % 2 ? 'B' : 'F' });
			verify(w, "after the refill"); close(w); count(TRACES);
		}, deadline);
	}
};

template <std::size_t MP> using PoolT = abc::vmem_pool<MP, Log>;
inline std::map<std::string, IRunner*>& RM() { static std::map<std::string, IRunner*> r; return r; }
#define R RM()
template <std::size_t MP, std::size_t SZ> void add(const std::string& cap) {
	using P = PoolT<MP>; using T = Item<SZ>;
	using L = abc::vmem_list<T, P, Log>; using S = abc::vmem_stack<T, P, Log>; using C = abc::vmem_container<T, abc::vmem_noheader, P, Log>;
	std::string sfx = cap + "/m" + std::to_string(MP);
	R["list" + sfx] = new Runner<L, T, P>("list" + sfx, 0);
	R["stack" + sfx] = new Runner<S, T, P>("stack" + sfx, 0);
	R["none" + sfx] = new Runner<C, T, P>("none" + sfx, 0x0000);
	R["all" + sfx] = new Runner<C, T, P>("all" + sfx, 0xffff);
	R["ins" + sfx] = new Runner<C, T, P>("ins" + sfx, 0x00ff);
	R["ers" + sfx] = new Runner<C, T, P>("ers" + sfx, 0xff00);
}
#if !defined SPLIT || SPLIT == 0
static bool reg0 = (add<8, 4000>("1"), true);
#endif
#if !defined SPLIT || SPLIT == 1
static bool reg1 = (add<8, 2024>("2"), true);
#endif
#if !defined SPLIT || SPLIT == 2
static bool reg2 = (add<8, 1352>("3"), true);
#endif
#if !defined SPLIT || SPLIT == 3
static bool reg3 = (add<8, 1012>("4"), true);
#endif
#if !defined SPLIT || SPLIT == 4
static bool reg4 = (add<8, 808>("5"), true);
#endif
#if !defined SPLIT || SPLIT == 5
static bool reg5 = (add<4, 1352>("3"), true);
#endif
#if !defined SPLIT || SPLIT == 6
static bool reg6 = (add<4, 4000>("1"), true);
#endif
#ifdef WITH_MAPS
namespace maps { bool map_case(const std::string&); void map_density(); }
#endif
#if !defined SPLIT || SPLIT == 0
int main(int argc, char** argv) {
	init(argc, argv);
	fk::init();
	g_level = "model_checking";
	G.distinct.init(26);
	G.run_case = [](const std::string& c) { size_t b = c.find('|'); auto it = R.find(c.substr(0, b)); if (it == R.end()) {
#ifdef WITH_MAPS
		if (maps::map_case(c)) return;
#endif
		fprintf(stderr, "bad case\n"); _exit(99); } it->second->replay(c.substr(b + 1)); };
	maybe_replay();
	int maxn[6] = { 0, 5, 8, 9, 10, 11 };
	if (G.thorough) { maxn[1] = 7; maxn[2] = 11; maxn[3] = 13; maxn[4] = 14; maxn[5] = 15; }
	for (auto& kv : R) { int cap = kv.first[kv.first.find('/') - 1] - '0'; kv.second->explore(kv.first, maxn[cap], 30, G.thorough ? std::min(elapsed() + 60, 500.) : 0, true); fprintf(stderr, "%s %.1f states %llu\n", kv.first.c_str(), elapsed(), (unsigned long long)total(STATES)); }
	if (G.prop != "V10") for (auto& kv : R) { int cap = kv.first[kv.first.find('/') - 1] - '0'; kv.second->explore(kv.first, cap < 3 ? cap + 3 : cap + 2, G.thorough ? 7 : 4, G.thorough ? std::min(elapsed() + 20, 800.) : 0, false); fprintf(stderr, "%s %.1f states %llu\n", kv.first.c_str(), elapsed(), (unsigned long long)total(STATES)); }
	for (auto& kv : R) kv.second->structured(kv.first, G.prop == "V10" ? (G.thorough ? 160 : 70) : 40, 0);
#ifdef WITH_MAPS
	maps::map_density();
#endif
	done();
}
#endif
