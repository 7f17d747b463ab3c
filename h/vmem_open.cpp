// V07: which files open as pools, and what opening does to them.
#include "vmem_common.h"
using namespace mc;
template <size_t MP> struct T {
	using Pool = abc::vmem_pool<MP, Log>; using Page = abc::vmem_page<Pool, Log>; using List = abc::vmem_list<Item<1300>, Pool, Log>;
	// tries to open; on success checks that it works and holds n items of the list
	static bool try_open(const char* path, std::string& what, int n, bool add, bool expect_data) {
		Pool* pool = nullptr;
		try { pool = new Pool(path, NOLOG); } catch (std::exception& e) { what = e.what(); return false; }
		{ Page start(pool, abc::vmem_page_pos_start, NOLOG); MC_CHECK(start.ptr() != nullptr, "the start page of an opened pool cannot be mapped"); MC_CHECK(fk::S.f[0].size >= 8192, "a pool of %zu bytes was opened", fk::S.f[0].size);
		  abc::vmem_list_state* st = (abc::vmem_list_state*)start.ptr(); abc::vmem_list_state init; if (n < 0) { memmove((void*)st, &init, sizeof init); n = 0; }
		  if (expect_data) { List l(st, pool, NOLOG); MC_CHECK((int)l.size() == n, "the opened pool holds %zu items, expected %d", (size_t)l.size(), n); int i = 0; for (auto it = l.begin(); it != l.end(); ++it, i++) MC_CHECK(it->ok() && it->id == (uint32_t)i, "item %d of the opened pool differs", i); if (add) l.push_back(Item<1300>::make(n)); } }
		delete pool; return true;
	}
};
using Big = T<64>; using Small = T<5>;
static std::string build(int n) { fk::kill_process(); fk::wipe(); std::string w; for (int i = 0; i <= n; i++) { if (!Big::try_open("ffs:0", w, i ? i - 1 : -1, i < n || n > 0 ? i > 0 : false, true)) violation("a pool cannot be created or reopened: " + w); } return fk::content(); }
static void clean(const char* when) { MC_CHECK(fk::S.open_fds == 0, "%s: %d descriptors are left open", when, fk::S.open_fds); MC_CHECK(fk::S.live_maps == 0, "%s: %d mappings are left", when, fk::S.live_maps); MC_CHECK(!fk::S.misuse, "%s: %s", when, fk::S.misuse_what.c_str()); }
// the content must be rejected and stay as it is
template <class P> static void reject(const std::string& c, const char* why) {
	fk::kill_process(); fk::wipe(); fk::reset_counts(); fk::set_content(c); std::string w;
	bool ok; { fk::S.torn = false; ok = P::try_open("ffs:0", w, 0, false, false); }
	MC_CHECK(!ok, "%s: the file was opened as a pool", why); MC_CHECK(fk::content() == c, "%s: the rejected file was changed (%zu bytes, was %zu)", why, fk::S.f[0].size, c.size()); MC_CHECK(!fk::S.torn, "%s: a page beyond the end of the file was mapped", why); clean(why);
	count(EVAL); count(STATES); count(TRANS); count(TRACES); outcome(hash_str(w + why)); sample(why);
}
template <class P> static void accept(const std::string& c, int n, const char* why) {
	fk::kill_process(); fk::wipe(); fk::set_content(c); std::string w; bool ok = P::try_open("ffs:0", w, n, false, true); MC_CHECK(ok, "%s: a valid pool is rejected: %s", why, w.c_str()); clean(why);
	std::string c2 = fk::content(); MC_CHECK(c2.size() >= c.size() && c2.compare(4096, c.size() - 4096, c, 4096, c.size() - 4096) == 0, "%s: opening and reading changed the pool", why);
	count(EVAL); count(STATES); count(TRANS); count(TRACES); outcome(hash_str(why)); sample(why);
}
static void run(const std::string& c) {
	int a = 0, b = 0, n = 0; char k[16]; sscanf(c.c_str(), "%15s %d %d %d", k, &n, &a, &b); std::string kind = k; static std::map<int, std::string> built; if (n >= 0 && !built.count(n)) built[n] = build(n);
	const size_t IDEND = offsetof(abc::vmem_root_page, unused1);
	if (kind == "id") { std::string f = built[n]; if ((unsigned char)f[a] == b) return; f[a] = (char)b; std::string why = fmt("byte %d of the identification is %d", a, b); if (n % 2) reject<Small>(f, why.c_str()); else reject<Big>(f, why.c_str()); }
	else if (kind == "id2") { std::string f = built[n]; f[a] ^= 1 << (b % 8); f[b / 8] ^= 0x80; if (a == b / 8) return; reject<Big>(f, fmt("bytes %d and %d of the identification differ", a, b / 8).c_str()); }
	else if (kind == "size") { std::string f = built[n]; f.resize(a, (char)b); std::string why = fmt("the file has %d bytes", a); if (a == 0) { fk::kill_process(); fk::wipe(); fk::set_content(""); std::string w; MC_CHECK(Big::try_open("ffs:0", w, -1, true, true), "an empty file is not initialised as a pool: %s", w.c_str()); clean("empty file"); accept<Small>(fk::content(), 1, "reopening"); } else if (a % 4096 || a < 8192) { if (a & 1) reject<Small>(f, why.c_str()); else reject<Big>(f, why.c_str()); } else if (a >= (int)built[n].size()) accept<Big>(f, n, why.c_str()); }
	else if (kind == "garbage") { std::string f(a * 4096, (char)b); reject<Big>(f, fmt("%d pages of bytes %d", a, b).c_str()); std::string g = built[2]; for (size_t i = 0; i < IDEND; i++) g[i] = (char)b; reject<Small>(g, fmt("an identification of bytes %d", b).c_str()); }
	else if (kind == "valid") { if (a) accept<Small>(built[n], n, "a valid pool"); else accept<Big>(built[n], n, "a valid pool"); }
	else if (kind == "other") { // opening a pool leaves another file alone
		std::string f = built[n]; fk::kill_process(); fk::wipe(0); fk::wipe(1); fk::set_content(f, 1); std::string g = built[a]; if (b) g[b % 14] ^= 0x55; fk::set_content(g, 0); std::string w; bool ok = Big::try_open("ffs:0", w, a, true, true); MC_CHECK(ok == (b == 0), "opening %s", ok ? "succeeded" : "failed"); MC_CHECK(fk::content(1) == f, "opening one file changed another"); clean("two files"); fk::wipe(1); count(EVAL); count(STATES); count(TRANS); count(TRACES); }
	else if (kind == "args") { bool threw = false; fk::kill_process(); fk::wipe(); try { abc::vmem_pool<8, Log> p(nullptr, NOLOG); } catch (std::exception&) { threw = true; } MC_CHECK(threw, "a null path is accepted"); threw = false; try { abc::vmem_pool<2, Log> p("ffs:0", NOLOG); } catch (std::exception&) { threw = true; } MC_CHECK(threw, "a pool of two mapped pages is accepted"); clean("bad arguments"); count(EVAL); count(STATES); count(TRANS); count(TRACES); }
}
int main(int argc, char** argv) {
	init(argc, argv); fk::init(); g_level = "model_checking"; G.distinct.init(22); G.run_case = [](const std::string& c) { fk::privatize(); run(c); }; maybe_replay();
	g_rule = "a state is a file content that is opened; each is opened once and compared afterwards";
	const int IDEND = offsetof(abc::vmem_root_page, unused1); std::vector<std::string> cs; std::vector<int> ns = { 0, 1, 5, 30 };
	for (int n : ns) for (int a = 0; a < IDEND; a++) for (int b = 0; b < 256; b++) cs.push_back(fmt("id %d %d %d", n, a, b));
	for (int a = 0; a < IDEND; a++) for (int b = 0; b < IDEND * 8; b++) cs.push_back(fmt("id2 2 %d %d", a, b));
	for (int s = 0; s <= (G.thorough ? 20000 : 12300); s++) { cs.push_back(fmt("size 1 %d 0", s)); if (s <= 8200 || G.thorough) cs.push_back(fmt("size 5 %d 255", s)); }
	for (int a = 2; a < 6; a++) for (int b = 0; b < 256; b++) cs.push_back(fmt("garbage 2 %d %d", a, b));
	for (int n = 0; n < 40; n++) for (int a = 0; a < 2; a++) cs.push_back(fmt("valid %d %d 0", n, a));
	for (int n : ns) for (int a : ns) for (int b = 0; b < 16; b++) cs.push_back(fmt("other %d %d %d", n, a, b)); cs.push_back("args 0 0 0");
	run_tasks(cs.size(), [&](uint64_t i) { static bool p = false; if (!p) { fk::privatize(); p = true; } set_case(cs[i]); run(cs[i]); }, 0, 16);
	cover("identification_bytes", IDEND); cover("file_contents", cs.size()); done();
}
