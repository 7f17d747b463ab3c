// X06 for one of the two board games. GAME is 0 (tictactoe) or 1 (connect4).
#if GAME
#define samples samples_c4
#else
#define samples samples_ttt
#endif
#include "mcsched.h"
#include "resp.h"
#include "jref.h"
#include "games_mt_common.h"
#include "endpoint.h"
#if GAME
#include "connect4/game.h"
#else
#include "tictactoe/game.h"
#endif
using namespace mc; namespace S = abc::samples; namespace Sp = abc::samples::player_id;
S::vmem_bundle* S::player_agent::_vmem = nullptr;
namespace {
constexpr int R = S::row_count, C = S::col_count, K = GAME ? 4 : 3, N = R * C;
struct Rules { unsigned char a[R][C] = {}; int n = 0; bool over = false; int winner = 0; int turn = 1;
	bool legal(int r, int c) const { return !over && r >= 0 && r < R && c >= 0 && c < C && !a[r][c] && (!GAME || r == 0 || a[r - 1][c]); }
	void put(int r, int c) { a[r][c] = turn; n++; bool line = false; static const int D[4][2] = { { 0, 1 }, { 1, 0 }, { 1, 1 }, { 1, -1 } };
		for (auto& d : D) { auto run = [&](int s) { int k = 0; for (int i = r + s * d[0], j = c + s * d[1]; i >= 0 && i < R && j >= 0 && j < C && a[i][j] == turn; i += s * d[0], j += s * d[1]) k++; return k; }; line |= run(1) + run(-1) + 1 >= K; }
		if (line) { over = true; winner = turn; } else if (n == N) over = true; if (!over) turn = 3 - turn; } };
using TL_ = S::log_ostream;
struct Ep : S::game_endpoint<S::limits, TL_> { using base = S::game_endpoint<S::limits, TL_>; Ep(abc::endpoint_config* c) : base(c, nullptr) {}
	void one(std::streambuf* sb) { abc::http_server_stream<TL_> http(sb); char m[65], r[1025], p[65]; http.get_method(m, sizeof m); http.get_resource(r, sizeof r); http.get_protocol(p, sizeof p); this->process_rest_request(http, m, r); http.flush(); } };
abc::endpoint_config* cfg() { static abc::endpoint_config* c = new abc::endpoint_config("80", 5, "/nowhere", "/resources/"); return c; }
struct Mem : std::streambuf { std::string in, out; Mem(const std::string& i) : in(i) { setg(&in[0], &in[0], &in[0] + in.size()); } int_type overflow(int_type c) override { if (c != traits_type::eof()) out += (char)c; return 0; } std::streamsize xsputn(const char* p, std::streamsize n) override { out.append(p, n); return n; } };
const char* TYPES[] = { "external", "slow_engine", "fast_engine" };
// one request of one client, and what came back
struct Op { std::string text; char kind; int a = 0, b = 0; int cls = 0; std::string raw; long id = 0; int idx = -1; std::vector<int> moves; int winner = -1; uint64_t t0 = 0, t1 = 0; long used = 0; };
struct Client { Ep* e; std::vector<Op> ops; long gid; long pl[2]; };
struct Global { uint64_t clock = 0; } G_;
[[noreturn]] void bad(const std::string& m) { sched::fail(m); }
double num(const std::vector<Tok>& t, const char* name) { for (size_t i = 0; i + 1 < t.size(); i++) if (t[i].item == it::property && t[i].text == name && t[i + 1].item == it::number) return t[i + 1].num; return -1; }
std::string request(Op& o, Client& c) {
	std::string ct = "\r\nContent-Type: application/json\r\n\r\n";
	switch (o.kind) {
	case 'c': return "POST /games HTTP/1.1" + ct + fmt("{\"players\": [\"%s\", \"%s\"]}", TYPES[o.a], TYPES[o.b]);
	case 'k': return fmt("POST /games/%ld/players/%d HTTP/1.1\r\n\r\n", c.gid, o.a);
	case 'm': o.used = c.pl[o.a]; return fmt("POST /games/%ld/players/%ld/moves HTTP/1.1", c.gid, c.pl[o.a]) + ct + fmt("{\"row\": %d, \"col\": %d}", o.b / C, o.b % C);
	case 'l': return fmt("GET /games/%ld/moves?since=%d HTTP/1.1\r\n\r\n", c.gid, o.a);
	default: return "GET /nothing HTTP/1.1\r\n\r\n"; } }
void parse(Op& o, Client& c) {
	Resp r = resp(o.raw); if (o.raw.empty()) bad("no response to the request " + o.text); if (!r.ok) bad(fmt("the response to the request %s is not one well-formed response: %s", o.text.c_str(), r.why.c_str())); o.cls = atoi(r.status.c_str()) / 100; if (o.cls != 2) return;
	Ref j = ref(r.body, 64); if (!(j.done && !j.error)) bad("the response to the request " + o.text + " is not a JSON document: " + show(r.body)); auto& t = j.toks;
	if (o.kind == 'c') { o.id = (long)num(t, "gameId"); c.gid = o.id; c.pl[0] = c.pl[1] = 0; } if (o.kind == 'k') { o.id = (long)num(t, "playerId"); c.pl[o.a] = o.id; } if (o.kind == 'm') o.idx = (int)num(t, "i"); o.winner = (int)num(t, "winner");
	if (o.kind == 'l') { for (size_t i = 0; i < t.size(); i++) if (t[i].item == it::property && t[i].text == "row") o.moves.push_back((int)t[i + 1].num * C + (int)t[i + 3].num); size_t k = 0; for (size_t i = 0; i < t.size(); i++) if (t[i].item == it::property && t[i].text == "i") { if ((int)t[i + 1].num != o.a + (int)k) bad("the moves are misnumbered in the response to " + o.text + ": " + show(r.body)); k++; } if (k != o.moves.size()) bad("the list of moves is malformed: " + show(r.body)); } }
void perform(Op& o, Client& c) {
	std::string req; { sched::quiet q; o.t0 = ++G_.clock; req = request(o, c); }
	Mem m(req); c.e->one(&m);
	sched::quiet q; o.raw = m.out; parse(o, c); o.t1 = ++G_.clock; count(TRANS); }
void* client(void* p) { Client* c = (Client*)p; for (auto& o : c->ops) perform(o, *c); return nullptr; }
// what the service should be like
struct Model { bool made = false; long gid = 0; int type[2] = {}; bool claimed[2] = {}; long pl[2] = {}; Rules r; std::vector<int> h; };
bool engine_turn(const Model& m) { return m.made && m.claimed[0] && m.claimed[1] && !m.r.over && m.type[m.r.turn - 1] != 0; }
int win(const Model& m) { return m.r.over ? (m.r.winner == 1 ? Sp::x : m.r.winner == 2 ? Sp::o : Sp::none) : -1; }
bool apply(Model& m, const Op& o, long gid) { // false: not what the model gives
	bool mine = m.made && gid == m.gid;
	switch (o.kind) {
	case 'c': if (m.made && !m.r.over) return o.cls == 5; if (o.cls != 2 || o.id <= 0) return false; m = Model(); m.made = true; m.gid = o.id; m.type[0] = o.a; m.type[1] = o.b; for (int p = 0; p < 2; p++) m.claimed[p] = m.type[p] != 0; return true;
	case 'k': if (!mine || m.claimed[o.a]) return o.cls == 4; if (o.cls != 2 || o.id <= 0 || (m.pl[1 - o.a] == o.id)) return false; m.claimed[o.a] = true; m.pl[o.a] = o.id; return true;
	case 'm': { bool known = mine && o.used && m.claimed[o.a] && m.pl[o.a] == o.used; bool ok = known && m.r.turn == o.a + 1 && m.r.legal(o.b / C, o.b % C); if (!ok) return o.cls == 4; if (o.cls != 2 || o.idx != m.r.n) return false; m.r.put(o.b / C, o.b % C); m.h.push_back(o.b); return o.winner == win(m); }
	case 'l': { if (!mine) return o.cls == 4; if (o.cls != 2) return false; std::vector<int> v; for (size_t i = o.a; i < m.h.size(); i++) v.push_back(m.h[i]); return v == o.moves && o.winner == win(m); }
	default: return o.cls == 4; } }
struct Flat { const Op* o; long gid; };
long fin_gid = -1; // the moves of the last game are known
bool linear(const Model& m, std::vector<std::vector<Flat>>& th, std::vector<size_t>& at, const std::vector<int>* fin, long& budget) {
	if (--budget < 0) return true; bool all = true; for (size_t t = 0; t < th.size(); t++) all &= at[t] == th[t].size();
	if (all && !engine_turn(m)) return true;
	if (engine_turn(m)) for (int x = 0; x < N; x++) if (m.r.legal(x / C, x % C) && (m.gid != fin_gid || (m.r.n < (int)fin->size() && (*fin)[m.r.n] == x))) { Model q = m; q.r.put(x / C, x % C); q.h.push_back(x); if (linear(q, th, at, fin, budget)) return true; }
	for (size_t t = 0; t < th.size(); t++) if (at[t] < th[t].size()) { const Op* o = th[t][at[t]].o; bool late = false; for (size_t u = 0; u < th.size(); u++) if (u != t && at[u] < th[u].size() && th[u][at[u]].o->t1 < o->t0) late = true; if (late) continue; Model q = m; if (!apply(q, *o, th[t][at[t]].gid)) continue; at[t]++; if (linear(q, th, at, fin, budget)) return true; at[t]--; }
	return false; }
std::vector<Op> ops(const std::string& s) { std::vector<Op> v; size_t i = 0; while (i < s.size()) { size_t b = i; Op o; o.kind = s[i++]; if (o.kind == 'c') { o.a = s[i++] - '0'; o.b = s[i++] - '0'; } else if (o.kind == 'm') { o.a = s[i++] - '0'; o.b = s[i++] - '0'; } else if (o.kind == 'k' || o.kind == 'l') o.a = s[i++] - '0'; o.text = s.substr(b, i - b); v.push_back(o); } return v; }
struct Left { Ep* e = nullptr; S::vmem_bundle* v = nullptr; std::string path; } left_over;
// "prefix|client;client;.."; the prefix is executed by one client before the others start
void scenario(const std::string& name) {
	size_t p = name.find('|'); std::vector<Client> cl; Client c0; Client* main_c; Ep* e;
	{ sched::quiet q; G_ = Global(); if (left_over.v) { S::player_agent::_vmem = nullptr; delete left_over.v; left_over.v = nullptr; } script_rand0(); if (name.find('2') != std::string::npos && name.find("c") != std::string::npos) { bool fast = false; for (size_t i = 0; i + 2 < name.size(); i++) if (name[i] == 'c' && (name[i + 1] == '2' || name[i + 2] == '2')) fast = true; if (fast) { left_over.path = G.scratch + "/mt" + std::to_string(getpid()) + ".vmem"; unlink(left_over.path.c_str()); left_over.v = new S::vmem_bundle(left_over.path.c_str(), nullptr); S::player_agent::_vmem = left_over.v; } }
	  e = new Ep(cfg()); c0.e = e; c0.gid = 77; c0.pl[0] = c0.pl[1] = 0; c0.ops = ops(name.substr(0, p)); main_c = &c0; }
	for (auto& o : c0.ops) { perform(o, c0); if (o.kind == 'm' || o.kind == 'c') sched::wait_quiescent(); }
	std::vector<pthread_t> ids; { sched::quiet q; for (auto& t : split_(name.substr(p + 1), ';')) { Client c; c.e = e; c.gid = main_c->gid; c.pl[0] = main_c->pl[0]; c.pl[1] = main_c->pl[1]; c.ops = ops(t); cl.push_back(c); } ids.resize(cl.size()); }
	for (size_t i = 0; i < cl.size(); i++) if (pthread_create(&ids[i], nullptr, client, &cl[i])) bad("cannot create a thread");
	for (size_t i = 0; i < cl.size(); i++) pthread_join(ids[i], nullptr);
	sched::wait_quiescent(); // the engines have moved
	Client f; { sched::quiet q; f.e = e; f.gid = main_c->gid; for (auto& c : cl) if (c.gid != main_c->gid) f.gid = c.gid; f.ops = ops("l0"); f.pl[0] = f.pl[1] = 0; }
	perform(f.ops[0], f);
	{ sched::quiet q; std::vector<std::vector<Flat>> th(1); long g = 77; for (auto& o : c0.ops) { th[0].push_back({ &o, g }); if (o.kind == 'c' && o.cls == 2) g = o.id; }
	  // the prefix and the final list are ordered by time; each client is one sequence
	  for (auto& c : cl) { std::vector<Flat> v; long cg = g; for (auto& o : c.ops) { v.push_back({ &o, cg }); if (o.kind == 'c' && o.cls == 2) cg = o.id; } th.push_back(v); } th.push_back({ { &f.ops[0], f.gid } });
	  std::vector<size_t> at(th.size()); long budget = 200000; fin_gid = f.ops[0].cls == 2 ? f.gid : -1; if (!linear(Model(), th, at, &f.ops[0].moves, budget)) { std::string s; for (auto* x : [&] { std::vector<const Client*> v = { &c0 }; for (auto& c : cl) v.push_back(&c); v.push_back(&f); return v; }()) { s += " |"; for (auto& o : x->ops) { s += fmt(" %s->%dxx", o.text.c_str(), o.cls); if (o.id) s += fmt("(id %ld)", o.id); if (o.idx >= 0) s += fmt("(move %d)", o.idx); if (o.kind == 'l') { s += "["; for (int m : o.moves) s += (char)('0' + m); s += "]"; } if (o.winner >= 0) s += fmt("(winner %d)", o.winner); } } bad("the responses do not correspond to any order of the requests:" + s); }
	  std::string s; for (auto& c : cl) for (auto& o : c.ops) { s += fmt("%d%d,", o.cls, o.idx); for (int m : o.moves) s += (char)('0' + m); } outcome(hash_str(s) + GAME); }
	delete e;
	sched::wait_quiescent(); if (sched::live_threads() > 1) bad("a thread outlives the service");
}
MtApi api = { scenario };
}
#if GAME
MtApi* mt_c() { return &api; }
#else
MtApi* mt_t() { return &api; }
#endif
