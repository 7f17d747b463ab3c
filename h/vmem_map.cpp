// V02: map == sorted dictionary. Breadth-first search over the reachable trees (levels, pages, keys and separators).
#include "vmem_common.h"
#include <array>
using namespace mc;

template <size_t N> struct Key { int v; unsigned char pad[N - 4]; bool operator<(const Key& o) const { return v < o.v; } bool operator<=(const Key& o) const { return v <= o.v; } bool operator==(const Key& o) const { return v == o.v; } };
template <size_t N> struct Val { uint32_t id; unsigned char pad[N - 4]; };
template <class X> X mk(uint32_t v) { X x; memset(&x, 0, sizeof x); memcpy(&x, &v, 4); memset(x.pad, (unsigned char)(v * 29 + 7), sizeof x.pad); return x; }
template <class X> bool intact(const X& x) { uint32_t v; memcpy(&v, &x, 4); for (size_t i : { size_t(0), sizeof(x.pad) / 2, sizeof(x.pad) - 1 }) if (x.pad[i] != (unsigned char)(v * 29 + 7)) return false; return true; }

struct Op { char k; int a, b; };  // i key | e key | c | I a b (range insert of absent keys [a,b)) | E a b (erase keys a..b-1)
static std::string ops_str(const std::vector<Op>& v) { std::string s; for (auto& o : v) { s += o.k; if (o.k != 'c') s += std::to_string(o.a); if (o.k == 'I' || o.k == 'E') s += "-" + std::to_string(o.b); s += ' '; } return s; }
static std::vector<Op> parse_ops(const std::string& s) { std::vector<Op> v; size_t i = 0; while (i < s.size()) { if (s[i] == ' ') { i++; continue; } Op o{ s[i++], 0, 0 }; if (o.k != 'c') { char* e; o.a = strtol(&s[i], &e, 10); i = e - &s[0]; } if (o.k == 'I' || o.k == 'E') { char* e; o.b = strtol(&s[i + 1], &e, 10); i = e - &s[0]; } v.push_back(o); } return v; }

struct IRunner { virtual void replay(const std::string&) = 0; virtual void explore(const std::string&, int U, int maxn, int depth, double deadline) = 0; virtual void structured(const std::string&, int n, double deadline) = 0; virtual void longruns(const std::string&, int n, double deadline) = 0; };
template <size_t KN, size_t VN, class Pool> struct Runner : IRunner {
	using K = Key<KN>; using V = Val<VN>; using M = abc::vmem_map<K, V, Pool, Log>; using Item_ = abc::vmem_map_value<K, V>;
	struct W { Pool* pool = nullptr; abc::vmem_page<Pool, Log>* start = nullptr; M* c = nullptr; std::map<int, uint32_t> m; uint32_t next = 1; };
	void open(W& w) { w.pool = new Pool("ffs:0", NOLOG); w.start = new abc::vmem_page<Pool, Log>(w.pool, abc::vmem_page_pos_start, NOLOG); w.c = new M(reinterpret_cast<abc::vmem_map_state*>(w.start->ptr()), w.pool, NOLOG); }
	void close(W& w) { delete w.c; delete w.start; delete w.pool; w.c = nullptr; w.start = nullptr; w.pool = nullptr; }
	void fresh(W& w) { fk::kill_process(); fk::wipe(); w = W(); open(w); }
	static Item_ item(int k, uint32_t id) { Item_ x; x.key = mk<K>(k); x.value = mk<V>(id); return x; }
	std::string nm_;
	void density(W& w, const char* when) { // V10
		std::vector<size_t> v; std::vector<long long> ps; for (auto it = w.c->begin(); it != w.c->end(); ++it) { long long p = (long long)it.page_pos(); if (ps.empty() || p != ps.back()) { ps.push_back(p); v.push_back(0); } v.back()++; }
		std::set<long long> q(ps.begin(), ps.end()); size_t n = w.m.size(), P = v.size(); std::string fill; for (size_t x : v) fill += std::to_string(x) + " ";
		size_t c = 4060 / sizeof(Item_), kc = 4060 / (KN + 8);
		MC_CHECK(q.size() == P, "%s: a page is visited twice", when);
		for (size_t i = 0; i + 1 < P; i++) MC_CHECK(2 * (v[i] + v[i + 1]) > c, "%s: neighbouring value pages of a map hold %zu and %zu of %zu items (all: %s)", when, v[i], v[i + 1], c, fill.c_str());
		MC_CHECK(P <= 2 * (n / (c / 2 + 1)) + 1 && P <= n, "%s: %zu items of a map occupy %zu pages of %zu", when, n, P, c);
		if (kc >= 4) { // all pages of the map, key levels included
			size_t avail = 0, f0 = fk::S.f[0].size; std::vector<abc::vmem_page_pos_t> got; for (;;) { abc::vmem_page<Pool, Log> pg(w.pool, NOLOG); if (!pg.ptr()) violation("a page cannot be allocated"); got.push_back(pg.pos()); if (fk::S.f[0].size > f0) break; avail++; }
			for (size_t i = got.size(); i-- > 0; ) { abc::vmem_page<Pool, Log> pg(w.pool, got[i], NOLOG); pg.free(); }
			size_t used = f0 / 4096 - 2 - avail, bound = 0, l = n, k = c; while (l > 1) { size_t pp = std::min(l, 2 * (l / (k / 2 + 1)) + 1); bound += pp; l = pp; k = kc; if (bound > 100000) break; } if (n == 1) bound = 1;
			MC_CHECK(used <= bound + 1, "%s: a map of %zu items takes %zu pages, at most %zu expected", when, n, used, bound + 1); }
		outcome(hash_str("map" + fill)); count(EVAL);
		MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str());
	}
	void verify(W& w, const char* when, int U, bool deep = true) {
		if (G.prop == "V10") { density(w, when); return; }
		M& c = *w.c; const M& cc = c; auto& m = w.m;
		MC_CHECK(c.size() == m.size(), "%s: size() is %zu, expected %zu", when, c.size(), m.size());
		MC_CHECK(c.empty() == m.empty(), "%s: empty() is %d with %zu items", when, (int)c.empty(), m.size());
		if (!deep) return;
		auto mi = m.begin(); size_t i = 0;
		for (auto it = c.begin(); it != c.end(); ++it, ++mi, ++i) {
			MC_CHECK(mi != m.end(), "%s: iteration yields more than %zu items", when, m.size());
			MC_CHECK(it->key.v == mi->first, "%s: item %zu has key %d, expected %d", when, i, it->key.v, mi->first);
			MC_CHECK(it->value.id == mi->second && intact(it->key) && intact(it->value), "%s: the value of key %d is %u, expected %u", when, mi->first, it->value.id, mi->second);
		}
		MC_CHECK(mi == m.end(), "%s: iteration yields %zu items, expected %zu", when, i, m.size());
		auto mr = m.rbegin(); i = 0;
		for (auto it = c.rend(); it != c.rbegin(); --it, ++mr, ++i) { MC_CHECK(mr != m.rend(), "%s: backward iteration yields more than %zu items", when, m.size()); MC_CHECK(it->key.v == mr->first, "%s: backward item %zu has key %d, expected %d", when, i, it->key.v, mr->first); }
		MC_CHECK(mr == m.rend(), "%s: backward iteration yields %zu of %zu items", when, i, m.size());
		i = 0; for (auto it = cc.cbegin(); it != cc.cend(); ++it) i++; MC_CHECK(i == m.size(), "%s: const iteration yields %zu of %zu items", when, i, m.size());
		for (int k = -1; k <= U; k++) lookup(w, when, k);
		MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str());
	}
	void lookup(W& w, const char* when, int k) {
		M& c = *w.c; const M& cc = c; K key = mk<K>(k); auto f = w.m.find(k);
		auto it = c.find(key);
		bool have = f != w.m.end();
		MC_CHECK(it.can_deref() == have, "%s: find(%d) %s, but the key is %s", when, k, have ? "fails" : "succeeds", have ? "stored" : "absent");
		MC_CHECK(have || it == c.end(), "%s: find(%d) of an absent key is not the end", when, k);
		if (have) MC_CHECK(it->key.v == k && it->value.id == f->second, "%s: find(%d) yields key %d value %u, expected %u", when, k, it->key.v, it->value.id, f->second);
		MC_CHECK(cc.contains(key) == have, "%s: contains(%d) is %d", when, k, (int)!have);
		auto ci = cc.find(key); MC_CHECK(ci.can_deref() == have, "%s: const find(%d) differs", when, k);
		auto p = c[key]; MC_CHECK((p.operator->() != nullptr) == have, "%s: operator[](%d) is %s", when, k, have ? "null" : "not null");
		if (have) { MC_CHECK(p->value.id == f->second, "%s: operator[](%d) yields value %u, expected %u", when, k, p->value.id, f->second);
			auto n = it; ++n; auto fn = std::next(f); MC_CHECK((n == c.end()) == (fn == w.m.end()) && (fn == w.m.end() || n->key.v == fn->first), "%s: the iterator from find(%d) does not continue with the next key", when, k); }
	}
	void apply(W& w, const Op& o) {
		M& c = *w.c; auto& m = w.m; std::string ws = "after " + ops_str({ o }); const char* what = ws.c_str();
		switch (o.k) {
			case 'i': { uint32_t id = w.next++; auto r = c.insert(item(o.a, id)); bool isnew = m.emplace(o.a, id).second;
				MC_CHECK(r.second == isnew, "%s: insert says %s, expected %s", what, r.second ? "inserted" : "not inserted", isnew ? "inserted" : "not inserted");
				MC_CHECK(r.first.can_deref() && r.first->key.v == o.a && r.first->value.id == m[o.a], "%s: the returned iterator does not point to the item", what); break; }
			case 'e': { size_t n = c.erase(mk<K>(o.a)); size_t e = m.erase(o.a); MC_CHECK(n == e, "%s: erase returns %zu, expected %zu", what, n, e); break; }
			case 'c': c.clear(); m.clear(); break;
			case 'I': { std::vector<Item_> v; for (int k = o.a; k < o.b; k++) { v.push_back(item(k, w.next)); m[k] = w.next++; } c.insert(v.begin(), v.end()); break; }
			case 'E': { std::vector<K> v; for (int k = o.a; k < o.b; k++) { v.push_back(mk<K>(k)); m.erase(k); } c.erase(v.begin(), v.end()); break; }
		}
	}
	std::vector<Op> enabled(W& w, int U, int maxn) {
		std::vector<Op> v; auto& m = w.m;
		for (int k = 0; k < U; k++) { if (m.count(k)) { v.push_back({ 'e', k, 0 }); } else if ((int)m.size() < maxn) v.push_back({ 'i', k, 0 }); }
		if (m.size()) { v.push_back({ 'i', m.begin()->first, 0 }); v.push_back({ 'i', m.rbegin()->first, 0 }); v.push_back({ 'e', -1, 0 }); v.push_back({ 'c', 0, 0 }); }
		if ((int)m.size() + 3 <= maxn) for (int k = 0; k + 3 <= U; k++) if (!m.count(k) && !m.count(k + 1) && !m.count(k + 2)) { v.push_back({ 'I', k, k + 3 }); break; }
		if (m.size() > 2) v.push_back({ 'E', 1, U - 1 });
		return v;
	}
	void replay(const std::string& s) override {
		fk::privatize(); W w; fresh(w); size_t sl = s.find('/'); auto v = parse_ops(s.substr(0, sl)); int U = 3; for (auto& o : parse_ops(s.substr(0, sl) + (sl == std::string::npos ? "" : s.substr(sl + 1)))) U = std::max(U, std::max(o.a, o.b) + 1);
		for (auto& o : v) { apply(w, o); verify(w, ("after " + ops_str({ o })).c_str(), U); }
		if (sl != std::string::npos) { close(w); fk::kill_process(); open(w); verify(w, "after reopening", U); for (auto& o : parse_ops(s.substr(sl + 1))) { apply(w, o); verify(w, ("after " + ops_str({ o })).c_str(), U); } }
		close(w);
	}
	// Every level as the ordered list of its pages: the keys on each page and, for key pages, which page of the level
	// below each key leads to.  Page numbers and bytes beyond the item counts do not influence the algorithms.
	uint64_t canon(const std::string& s) {
		using CS = abc::vmem_container_state; using VP = abc::vmem_map_value_page<K, V>; using KP = abc::vmem_map_key_page<K>; using SP = abc::vmem_container_page<CS>;
		auto page = [&](uint64_t p) -> const char* { return p > 0 && p < s.size() / 4096 ? s.data() + p * 4096 : nullptr; };
		const auto* st = reinterpret_cast<const abc::vmem_map_state*>(page(abc::vmem_page_pos_start)); if (!st) return 0;
		std::vector<int> out; std::map<uint64_t, int> below; size_t guard = 0;
		{ int n = 0; for (uint64_t p = st->values.front_page_pos; p != abc::vmem_page_pos_nil && guard++ < 2000; ) { auto* q = (const VP*)page(p); if (!q) break; below[p] = n++; out.push_back(-1); for (int i = 0; i < q->item_count && i < 8; i++) out.push_back(q->items[i].key.v); p = q->next_page_pos; } }
		for (uint64_t sp = st->keys.front_page_pos; sp != abc::vmem_page_pos_nil && guard++ < 2000; ) { auto* q = (const SP*)page(sp); if (!q) break;
			for (int l = 0; l < q->item_count && l < 100; l++) { out.push_back(-2); std::map<uint64_t, int> here; int n = 0;
				for (uint64_t p = q->items[l].front_page_pos; p != abc::vmem_page_pos_nil && guard++ < 2000; ) { auto* kp = (const KP*)page(p); if (!kp) break; here[p] = n++; out.push_back(-1); for (int i = 0; i < kp->item_count && i < 8; i++) { out.push_back(kp->items[i].key.v); auto b = below.find(kp->items[i].page_pos); out.push_back(b == below.end() ? -9 : b->second); } p = kp->next_page_pos; }
				below = here; }
			sp = q->next_page_pos; }
		return hash_bytes(out.data(), out.size() * sizeof(int));
	}
	void explore(const std::string& nm, int U, int maxn, int depth, double deadline) override {
		struct Rec { uint8_t n; uint8_t op[45][3]; };
		static Rec* cur = nullptr; static Rec* nxt = nullptr; static std::atomic<uint64_t>* nn = nullptr; constexpr size_t CAP = 8000000;
		if (!cur) { cur = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nxt = (Rec*)mmap(nullptr, CAP * sizeof(Rec), 3, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); nn = (std::atomic<uint64_t>*)mmap(nullptr, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
		uint64_t salt = hash_str(nm + std::to_string(U)); uint64_t ncur = 1; cur[0].n = 0; int d = 0; bool closed = false;
		for (; d < depth && d < 44; d++) {
			nn->store(0);
			bool full = run_tasks(ncur, [&](uint64_t i) {
				static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
				Rec& r = cur[i]; std::vector<Op> path; for (int k = 0; k < r.n; k++) path.push_back({ (char)r.op[k][0], (int8_t)r.op[k][1], r.op[k][2] });
				std::string ps = ops_str(path); set_case(nm + "|" + ps);
				W w; fresh(w); for (auto& o : path) apply(w, o);
				verify(w, "after the history", U); count(TRACES); close(w);
				std::string snap = fk::content(); auto model = w.m; uint32_t nid = w.next;
				for (auto& o : enabled(w, U, maxn)) {
					set_case(nm + "|" + ps + "/ " + ops_str({ o }));
					fk::kill_process(); fk::set_content(snap); w.m = model; w.next = nid; open(w);
					apply(w, o); verify(w, ("after " + ops_str({ o })).c_str(), U); close(w); count(TRANS);
					uint64_t h = canon(fk::content()) ^ salt;
					if (G.distinct.insert(h)) { count(STATES); uint64_t k = nn->fetch_add(1); if (k < CAP) { nxt[k] = r; nxt[k].op[r.n][0] = o.k; nxt[k].op[r.n][1] = o.a; nxt[k].op[r.n][2] = o.b; nxt[k].n = r.n + 1; } }
				}
				sample(nm + "|" + ps);
			}, deadline);
			std::swap(cur, nxt); ncur = std::min<uint64_t>(nn->load(), CAP);
			if (!full) { cover("trees_" + nm, fmt("keys 0..%d, at most %d at once, time cap hit at depth %d", U - 1, maxn, d)); return; }
			if (ncur == 0) { closed = true; break; }
		}
		cover("trees_" + nm, fmt("keys 0..%d, at most %d at once, depth %d%s", U - 1, maxn, d, closed ? ", closed (every reachable tree)" : " (depth bound)"));
	}
	void structured(const std::string& nm, int n, double deadline) override {
		const int nb = 7, nd = 9;
		run_tasks(nb * nd, [&](uint64_t t) {
			static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
			int pb = t % nb, pd = t / nb; W w; fresh(w); std::string hist; int steps = 0;
			auto step = [&](Op o) { hist += ops_str({ o }); set_case(nm + "|" + hist); apply(w, o); count(TRANS); bool deep = ++steps % 5 == 0 || w.m.size() < 12; verify(w, ("after step " + std::to_string(steps) + " " + ops_str({ o })).c_str(), n, deep); if (!deep) lookup(w, "after the step", o.a); };
			auto order = [&](int kind, int i) { switch (kind) { case 0: return i; case 1: return n - 1 - i; case 2: return (i * 7) % n; case 3: return (i * 11 + 3) % n; case 4: return i % 2 ? n - 1 - i / 2 : i / 2; case 5: return i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2; default: return (i * (n / 2 | 1)) % n; } };
			for (int i = 0; i < n; i++) step({ 'i', order(pb, i), 0 });
			verify(w, "after the build", n);
			for (int i = 0; i < n; i++) { if (pd < 7) step({ 'e', order(pd, i), 0 }); else { step({ 'e', order(pd - 5, i), 0 }); if (i % 3 == 0) step({ 'i', order(pd - 5, (i * 2) % (i + 1)), 0 }); } }
			verify(w, "after the drain", n);
			if (w.m.size()) step({ 'c', 0, 0 });
			for (int i = 0; i < 8; i++) step({ 'i', order((pb + 1) % 7, i), 0 });
			close(w); fk::kill_process(); open(w); verify(w, "after reopening", n); close(w); count(TRACES);
		}, deadline);
	}
	// every pair (keep pattern, erased window): build n ascending/descending, erase a window of keys, refill it
	void longruns(const std::string& nm, int n, double deadline) override {
		std::vector<std::array<int, 4>> T; for (int bo = 0; bo < 2; bo++) for (int a = 0; a < n; a++) for (int len = 1; a + len <= n; len += (len < 6 ? 1 : 3)) for (int dir = 0; dir < 2; dir++) T.push_back({ bo, a, len, dir });
		run_tasks(T.size(), [&](uint64_t t) {
			static bool priv = false; if (!priv) { fk::privatize(); priv = true; }
			auto [bo, a, len, dir] = T[t]; W w; fresh(w); std::string hist; int steps = 0;
			auto step = [&](Op o, bool deep) { hist += ops_str({ o }); set_case(nm + "|" + hist); apply(w, o); count(TRANS); if (deep) verify(w, "after the step", n); else lookup(w, "after the step", o.a); };
			for (int i = 0; i < n; i++) step({ 'i', bo ? n - 1 - i : i, 0 }, false);
			for (int i = 0; i < len; i++) step({ 'e', dir ? a + len - 1 - i : a + i, 0 }, i + 1 == len);
			for (int i = 0; i < len; i++) step({ 'i', dir ? a + i : a + len - 1 - i, 0 }, i + 1 == len);
			for (int i = 0; i < n; i++) step({ 'e', dir ? i : n - 1 - i, 0 }, i % 8 == 7);
			step({ 'i', 1, 0 }, true);
			close(w); count(TRACES);
		}, deadline);
	}
};
inline std::map<std::string, IRunner*>& RM() { static std::map<std::string, IRunner*> r; return r; }
#define R RM()
template <size_t MP, size_t KN, size_t VN> void add() {
	using P = abc::vmem_pool<MP, Log>; using M = abc::vmem_map<Key<KN>, Val<VN>, P, Log>;
	std::string n = "k" + std::to_string(M::key_page_capacity()) + "v" + std::to_string(M::value_page_capacity()) + "/m" + std::to_string(MP);
	R[n] = new Runner<KN, VN, P>();
}
#ifdef MAP_DENSITY
static bool reg0 = (add<8, 800, 24>(), add<8, 1000, 24>(), add<8, 600, 1300>(), true);
#else
#if !defined SPLIT || SPLIT == 0
static bool reg0 = (add<8, 2000, 24>(), true);
#endif
#if !defined SPLIT || SPLIT == 1
static bool reg1 = (add<8, 2000, 1800>(), true);
#endif
#if !defined SPLIT || SPLIT == 2
static bool reg2 = (add<8, 1300, 24>(), true);
#endif
#if !defined SPLIT || SPLIT == 3
static bool reg3 = (add<8, 1300, 600>(), true);
#endif
#if !defined SPLIT || SPLIT == 4
static bool reg4 = (add<8, 1000, 24>(), true);
#endif
#if !defined SPLIT || SPLIT == 5
static bool reg5 = (add<8, 800, 24>(), true);
#endif
#if !defined SPLIT || SPLIT == 6
static bool reg6 = (add<8, 600, 1300>(), true);
#endif
#if !defined SPLIT || SPLIT == 7
static bool reg7 = (add<5, 1300, 600>(), true);
#endif
#endif
#ifdef MAP_DENSITY
bool map_case(const std::string& c) { size_t b = c.find('|'); auto it = R.find(c.substr(0, b)); if (it == R.end()) return false; it->second->replay(c.substr(b + 1)); return true; }
void map_density() {
	for (auto& kv : R) { kv.second->explore(kv.first, G.thorough ? 10 : 7, G.thorough ? 10 : 7, 40, G.thorough ? std::min(elapsed() + 80, 760.) : 0); fprintf(stderr, "%s %.1f\n", kv.first.c_str(), elapsed()); }
	for (auto& kv : R) { kv.second->structured(kv.first, G.thorough ? 100 : 40, 0); kv.second->longruns(kv.first, G.thorough ? 40 : 12, 0); fprintf(stderr, "S %s %.1f\n", kv.first.c_str(), elapsed()); }
}
#elif !defined SPLIT || SPLIT == 0
int main(int argc, char** argv) {
	init(argc, argv); fk::init(); g_level = "model_checking"; G.distinct.init(27);
	G.run_case = [](const std::string& c) { size_t b = c.find('|'); auto it = R.find(c.substr(0, b)); if (it == R.end()) { fprintf(stderr, "bad case\n"); _exit(99); } it->second->replay(c.substr(b + 1)); };
	maybe_replay();
	struct Cfg { int U, maxn, depth; };
	for (auto& kv : R) {
		int kc = kv.first[1] - '0', vc = kv.first[3] - '0';
		Cfg q = G.thorough ? (kc == 2 && vc == 1 ? Cfg{ 8, 8, 40 } : kc == 2 ? Cfg{ 9, 9, 40 } : kc == 3 && vc < 3 ? Cfg{ 9, 9, 40 } : Cfg{ 10, 10, 40 }) : (vc == 1 ? Cfg{ 6, 6, 40 } : Cfg{ 7, 7, 40 });
		kv.second->explore(kv.first, q.U, q.maxn, q.depth, G.thorough ? std::min(elapsed() + 80, 600.) : 0);
		fprintf(stderr, "%s %.1f states %llu trans %llu\n", kv.first.c_str(), elapsed(), (unsigned long long)total(STATES), (unsigned long long)total(TRANS));
	}
	for (auto& kv : R) { kv.second->structured(kv.first, G.thorough ? (kv.first[1] == '2' ? 45 : 100) : (kv.first[1] == '2' ? 30 : 45), 0); fprintf(stderr, "S %s %.1f\n", kv.first.c_str(), elapsed()); }
	for (auto& kv : R) { kv.second->longruns(kv.first, G.thorough ? 40 : 16, 0); fprintf(stderr, "L %s %.1f\n", kv.first.c_str(), elapsed()); }
	// a key page of two keys splits unevenly: such trees grow one level per key, and the fake file holds 2048 pages
	cover("structured", "63 build/drain order pairs per configuration, and every erased-and-refilled window of a tree built in ascending and descending order");
	done();
}
#endif
