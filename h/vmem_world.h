// A pool with a list, a stack, a map, a page list, a string and loose pages side by side, and its model.
#pragma once
#include "vmem_common.h"
#include <memory>
using namespace mc;
using Pos = abc::vmem_page_pos_t;
struct Op { char k; int a; };
static std::string ops_str(const std::vector<Op>& v) { std::string s; for (auto& o : v) { s += o.k; if (o.k == 'i' || o.k == 'e' || o.k == 'c' || o.k == 'R') s += std::to_string(o.a); s += ' '; } return s; }
static std::vector<Op> parse_ops(const std::string& s) { std::vector<Op> v; size_t i = 0; while (i < s.size()) { if (s[i] == ' ') { i++; continue; } Op o{ s[i++], 0 }; if (o.k == 'i' || o.k == 'e' || o.k == 'c' || o.k == 'R') { char* e; o.a = strtol(&s[i], &e, 10); i = e - &s[0]; } v.push_back(o); } return v; }
template <size_t N> struct Key { int v; unsigned char pad[N - 4]; bool operator<(const Key& o) const { return v < o.v; } bool operator<=(const Key& o) const { return v <= o.v; } bool operator==(const Key& o) const { return v == o.v; } };
struct Model {
	std::vector<uint32_t> list, stack; std::map<int, uint32_t> map; std::vector<Pos> linked; std::vector<Pos> raw; std::map<Pos, uint32_t> id; std::string str; uint32_t next = 1;
	void gone(Pos p) { id.erase(p); }
	bool operator==(const Model& o) const { return list == o.list && stack == o.stack && map == o.map && linked == o.linked && raw == o.raw && id == o.id && str == o.str; }
};
inline std::string g_path = "ffs:0";
struct Failed { std::string what; };       // an operation reported a failure
struct IWorld {
	virtual void open() = 0; virtual void close() = 0; virtual void abandon() = 0;
	virtual void apply(Model& m, const Op& o) = 0;
	virtual std::string differs(Model& m) = 0;   // empty if the contents equal the model
	virtual std::set<Pos> pages() = 0;           // visible pages
	virtual std::vector<Pos> drain(bool scribble) = 0; virtual void undrain(const std::vector<Pos>&) = 0;
	virtual ~IWorld() {}
};
static uint32_t str_next(const std::string& s) { return (uint32_t)s.size(); }
template <size_t MP> struct World : IWorld {
	using Pool = abc::vmem_pool<MP, Log>; using Page = abc::vmem_page<Pool, Log>;
	using LI = Item<1300>; using SI = Item<2000>; using K = Key<1300>; struct V { uint32_t id; unsigned char pad[696]; };
	using List = abc::vmem_list<LI, Pool, Log>; using Stack = abc::vmem_stack<SI, Pool, Log>; using Map = abc::vmem_map<K, V, Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>; using Str = abc::vmem_string<Pool, Log>;
	struct Start { abc::vmem_list_state list; abc::vmem_stack_state stack; abc::vmem_map_state map; abc::vmem_linked_state linked; abc::vmem_string_state str; abc::vmem_list_state tmp; };
	Pool* pool = nullptr; Page* start = nullptr; List* list = nullptr; Stack* stack = nullptr; Map* map = nullptr; Linked* linked = nullptr; Str* str = nullptr;
	static constexpr size_t H = 24;
	Start* st() { return (Start*)start->ptr(); }
	void open() override {
		try {
		pool = new Pool(g_path.c_str(), NOLOG); start = new Page(pool, abc::vmem_page_pos_start, NOLOG); if (!start->ptr()) throw Failed{ "the start page cannot be mapped" };
		// a fresh pool has a zeroed start page: position 0 is not a valid page for a container, so the states are initialised by the user
		if (st()->tmp.item_size != 0x5aa5) { Start s; s.tmp.item_size = 0x5aa5; *st() = s; }
		} catch (Failed&) { delete start; start = nullptr; delete pool; pool = nullptr; throw; } catch (std::exception& e) { delete start; start = nullptr; delete pool; pool = nullptr; throw Failed{ e.what() }; }
		list = new List(&st()->list, pool, NOLOG); stack = new Stack(&st()->stack, pool, NOLOG); map = new Map(&st()->map, pool, NOLOG); linked = new Linked(&st()->linked, pool, NOLOG); str = new Str(&st()->str, pool, NOLOG);
	}
	void close() override { delete list; delete stack; delete map; delete linked; delete str; delete start; delete pool; list = nullptr; stack = nullptr; map = nullptr; linked = nullptr; str = nullptr; start = nullptr; pool = nullptr; }
	// the process ends here: nothing of the library runs any more
	void abandon() override { ::free((void*)0); list = nullptr; stack = nullptr; map = nullptr; linked = nullptr; str = nullptr; start = nullptr; pool = nullptr; fk::kill_process(); }
	static void put(unsigned char* b, uint32_t id) { memset(b + H, (unsigned char)(id * 17 + 3), 4096 - H); }
	static bool same(const unsigned char* b, uint32_t id) { for (size_t i : { H, H + 1, size_t(2000), size_t(4095) }) if (b[i] != (unsigned char)(id * 17 + 3)) return false; return true; }
	Pos alloc(Model& m) {
		Page pg(pool, NOLOG); if (!pg.ptr()) throw Failed{ "no page" }; Pos p = pg.pos();
		MC_CHECK(p > 1, "the root or start page was handed out"); MC_CHECK(!m.id.count(p), "page %llu is in use and was handed out again", (unsigned long long)p);
		m.id[p] = m.next; put((unsigned char*)pg.ptr(), m.next++); return p;
	}
	template <class I> static void itr_ok(I it, uint32_t id) { if (!it.can_deref()) throw Failed{ "the returned iterator is not on the item" }; if (it->id != id) violation("the returned iterator is on another item"); }
	void apply(Model& m, const Op& o) override {
		auto& L = m.list;
		try { switch (o.k) {
			case 'a': { auto x = LI::make(m.next++); auto it = list->insert(list->end(), x); itr_ok(it, x.id); L.push_back(x.id); break; }
			case 'A': { auto x = LI::make(m.next++); list->push_back(x); L.push_back(x.id); break; }
			case 'b': { auto x = LI::make(m.next++); auto it = list->insert(list->begin(), x); itr_ok(it, x.id); L.insert(L.begin(), x.id); break; }
			case 'm': { auto x = LI::make(m.next++); auto it = list->begin(); for (size_t i = 0; i < L.size() / 2; i++) ++it; it = list->insert(it, x); itr_ok(it, x.id); L.insert(L.begin() + L.size() / 2, x.id); break; }
			case 'x': list->erase(list->begin()); L.erase(L.begin()); break;
			case 'y': { auto it = list->begin(); for (size_t i = 0; i < L.size() / 2; i++) ++it; list->erase(it); L.erase(L.begin() + L.size() / 2); break; }
			case 'z': list->pop_back(); L.pop_back(); break;
			case 's': { auto x = SI::make(m.next++); stack->push_back(x); m.stack.push_back(x.id); break; }
			case 't': stack->pop_back(); m.stack.pop_back(); break;
			case 'i': { abc::vmem_map_value<K, V> x; memset((void*)&x, 0, sizeof x); x.key.v = o.a; memset(x.key.pad, o.a + 1, sizeof x.key.pad); x.value.id = m.next++; memset(x.value.pad, (int)(x.value.id * 5), sizeof x.value.pad); auto r = map->insert(x); if (!r.first.can_deref()) throw Failed{ "map insert" }; bool nw = m.map.emplace(o.a, x.value.id).second; if (r.second != nw) violation("map insert reports the wrong result"); break; }
			case 'e': { K k; memset((void*)&k, 0, sizeof k); k.v = o.a; size_t n = map->erase(k); size_t e = m.map.erase(o.a); if (n != e) violation("map erase reports the wrong result"); break; }
			case 'l': { Pos p = alloc(m); if (linked->insert(linked->end(), p) == linked->end()) throw Failed{ "page list insert" }; m.linked.push_back(p); break; }
			case 'h': { Pos p = alloc(m); if (linked->insert(linked->begin(), p) == linked->end()) throw Failed{ "page list insert" }; m.linked.insert(m.linked.begin(), p); break; }
			case 'k': { Pos p = m.linked.front(); linked->pop_front(); m.gone(p); m.linked.erase(m.linked.begin()); break; }
			case 'K': { Pos p = m.linked.back(); linked->pop_back(); m.gone(p); m.linked.pop_back(); break; }
			case 'r': { Pos p = alloc(m); m.raw.push_back(p); break; }
			case 'f': { Page pg(pool, m.raw.front(), NOLOG); if (!pg.ptr()) throw Failed{ "no page" }; pg.free(); m.gone(m.raw.front()); m.raw.erase(m.raw.begin()); break; }
			case 'g': { Page pg(pool, m.raw.back(), NOLOG); if (!pg.ptr()) throw Failed{ "no page" }; pg.free(); m.gone(m.raw.back()); m.raw.pop_back(); break; }
			case 'p': { for (int i = 0; i < 2500; i++) { char ch = (char)(str_next(m.str) * 7); str->push_back(ch); m.str += ch; } break; }
			case 'T': { abc::vmem_list_state ts; abc::vmem_temp<List> t(&ts, pool, NOLOG); for (uint32_t i = 0; i < 4; i++) t.push_back(LI::make(i)); size_t n = 0; for (auto it = t.begin(); it != t.end(); ++it) n++; if (n != 4) throw Failed{ "temporary list" }; break; }
			case 'c': switch (o.a) { case 0: list->clear(); L.clear(); break; case 1: stack->clear(); m.stack.clear(); break; case 2: map->clear(); m.map.clear(); break; case 3: linked->clear(); for (Pos p : m.linked) m.gone(p); m.linked.clear(); break; case 4: str->clear(); m.str.clear(); break; } break;
		} } catch (Failed&) { throw; } catch (std::exception& e) { throw Failed{ e.what() }; }
	}
	std::string differs(Model& m) override {
		if (list->size() != m.list.size()) return fmt("the list has size %zu, expected %zu", (size_t)list->size(), m.list.size());
		size_t i = 0; for (auto it = list->begin(); it != list->end(); ++it, ++i) { if (i >= m.list.size()) return "the list has extra items"; if (!it.can_deref() || !it->ok() || it->id != m.list[i]) return fmt("list item %zu is wrong", i); } if (i != m.list.size()) return fmt("the list yields %zu of %zu items", i, m.list.size());
		i = m.list.size(); for (auto it = list->rend(); it != list->rbegin(); --it) { if (i == 0) return "the list has extra items backwards"; i--; if (!it.can_deref() || it->id != m.list[i]) return fmt("list item %zu is wrong backwards", i); } if (i) return "the list misses items backwards";
		if (stack->size() != m.stack.size()) return fmt("the stack has size %zu, expected %zu", (size_t)stack->size(), m.stack.size());
		i = 0; for (auto it = stack->begin(); it != stack->end(); ++it, ++i) { if (i >= m.stack.size()) return "the stack has extra items"; if (!it.can_deref() || !it->ok() || it->id != m.stack[i]) return fmt("stack item %zu is wrong", i); } if (i != m.stack.size()) return "the stack misses items";
		if (!m.stack.empty() && stack->back().id != m.stack.back()) return "the top of the stack is wrong";
		if (map->size() != m.map.size()) return fmt("the map has size %zu, expected %zu", (size_t)map->size(), m.map.size());
		auto mi = m.map.begin(); for (auto it = map->begin(); it != map->end(); ++it, ++mi) { if (mi == m.map.end()) return "the map has extra items"; if (!it.can_deref() || it->key.v != mi->first || it->value.id != mi->second || it->value.pad[600] != (unsigned char)(mi->second * 5)) return fmt("the map item of key %d is wrong", mi->first); } if (mi != m.map.end()) return "the map misses items";
		for (int k = 0; k < 10; k++) { K key; memset((void*)&key, 0, sizeof key); key.v = k; auto it = map->find(key); bool have = m.map.count(k); if (it.can_deref() != have) return fmt("the map %s key %d", have ? "does not find" : "finds", k); if (have && it->value.id != m.map[k]) return fmt("the map finds a wrong value for key %d", k); }
		i = 0; for (auto it = linked->begin(); it != linked->end(); ++it, ++i) { if (i >= m.linked.size() || it.page_pos() != m.linked[i]) return fmt("page %zu of the page list is wrong", i); } if (i != m.linked.size()) return "the page list misses pages";
		i = m.linked.size(); for (auto it = linked->rend(); it != linked->rbegin(); --it) { if (i == 0) return "the page list has extra pages backwards"; i--; if (it.page_pos() != m.linked[i]) return "the page list is wrong backwards"; } if (i) return "the page list misses pages backwards";
		if (str->size() != m.str.size()) return fmt("the string has size %zu, expected %zu", (size_t)str->size(), m.str.size());
		// (the bytes of a string are compared page-wise through the iterators)
		i = 0; { for (auto it = str->begin(); it != str->end(); ++it, ++i) { if (i >= m.str.size()) return "the string has extra bytes"; if (!it.can_deref() || *it != m.str[i]) return fmt("byte %zu of the string is wrong", i); } } if (i != m.str.size()) return "the string misses bytes";
		for (auto& kv : m.id) { Page pg(pool, kv.first, NOLOG); if (!pg.ptr()) return "a page cannot be mapped"; if (!same((unsigned char*)pg.ptr(), kv.second)) return fmt("the bytes of page %llu changed", (unsigned long long)kv.first); }
		return "";
	}
	std::set<Pos> pages() override {
		std::set<Pos> s; for (auto it = list->begin(); it != list->end(); ++it) s.insert(it.page_pos());
		auto add = [&](Pos p, const char* w, std::set<Pos>& mine) { if (mine.insert(p).second) { if (!s.insert(p).second) violation(fmt("page %llu of the %s is also used by another container", (unsigned long long)p, w)); } };
		{ std::set<Pos> q; for (auto it = stack->begin(); it != stack->end(); ++it) add(it.page_pos(), "stack", q); }
		{ std::set<Pos> q; for (auto it = map->begin(); it != map->end(); ++it) add(it.page_pos(), "map", q); }
		{ std::set<Pos> q; for (auto it = linked->begin(); it != linked->end(); ++it) add(it.page_pos(), "page list", q); }
		{ std::set<Pos> q; size_t n = 0; for (auto it = str->begin(); it != str->end(); ++it, ++n) add(it.page_pos(), "string", q); }
		return s;
	}
	// allocates every page that can be had without growing the file (the one that grew it is included last)
	std::vector<Pos> drain(bool scribble) override {
		std::vector<Pos> v; size_t f0 = fk::S.f[0].size; std::set<Pos> seen;
		for (;;) { Page pg(pool, NOLOG); if (!pg.ptr()) violation("a page cannot be allocated"); Pos p = pg.pos(); MC_CHECK(p > 1, "the root or start page was handed out"); MC_CHECK(p * 4096 < fk::S.f[0].size, "a page beyond the file was handed out"); MC_CHECK(seen.insert(p).second, "page %llu was handed out twice", (unsigned long long)p); v.push_back(p); if (scribble) memset(pg.ptr(), 0xE5, 4096); if (fk::S.f[0].size > f0) break; MC_CHECK(v.size() < fk::MAXP, "endless free pages"); }
		return v;
	}
	void undrain(const std::vector<Pos>& v) override { for (size_t i = v.size(); i-- > 0; ) { Page pg(pool, v[i], NOLOG); if (!pg.ptr()) violation("a page cannot be mapped"); pg.free(); } }
};
// operations that make sense in a model state
static std::vector<Op> enabled(const Model& m, const std::string& alphabet, int mapkeys, size_t maxlist, size_t maxraw) {
	std::vector<Op> v;
	for (char k : alphabet) switch (k) {
		case 'a': case 'A': case 'b': if (m.list.size() < maxlist) v.push_back({ k, 0 }); break; case 'm': if (m.list.size() > 1 && m.list.size() < maxlist) v.push_back({ k, 0 }); break;
		case 'x': if (m.list.size()) v.push_back({ k, 0 }); break; case 'y': if (m.list.size() > 2) v.push_back({ k, 0 }); break; case 'z': if (m.list.size() > 1) v.push_back({ k, 0 }); break;
		case 's': if (m.stack.size() < maxlist) v.push_back({ k, 0 }); break; case 't': if (m.stack.size()) v.push_back({ k, 0 }); break;
		case 'i': for (int q = 0; q < mapkeys; q++) if (!m.map.count(q)) v.push_back({ 'i', q }); else v.push_back({ 'e', q }); break;
		case 'l': case 'h': if (m.linked.size() < maxraw) v.push_back({ k, 0 }); break; case 'k': if (m.linked.size()) v.push_back({ k, 0 }); break; case 'K': if (m.linked.size() > 1) v.push_back({ k, 0 }); break;
		case 'r': if (m.raw.size() < maxraw) v.push_back({ k, 0 }); break; case 'f': if (m.raw.size()) v.push_back({ k, 0 }); break; case 'g': if (m.raw.size() > 1) v.push_back({ k, 0 }); break;
		case 'p': if (m.str.size() < 8000) v.push_back({ k, 0 }); break; case 'T': v.push_back({ k, 0 }); break;
		case 'c': if (m.list.size()) v.push_back({ 'c', 0 }); if (m.stack.size()) v.push_back({ 'c', 1 }); if (m.map.size()) v.push_back({ 'c', 2 }); if (m.linked.size()) v.push_back({ 'c', 3 }); if (m.str.size()) v.push_back({ 'c', 4 }); break;
	}
	return v;
}
