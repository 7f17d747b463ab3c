// X01, X02, X04 for one of the two board games. GAME is 0 (tictactoe) or 1 (connect4).
#if GAME
#define samples samples_c4
#else
#define samples samples_ttt
#endif
#include "samples_common.h"
#if GAME
#include "connect4/game.h"
#else
#include "tictactoe/game.h"
#endif
#include <unordered_map>
namespace S = abc::samples; namespace Sp = abc::samples::player_id;
S::vmem_bundle* S::player_agent::_vmem = nullptr;
namespace {
constexpr int R = S::row_count, C = S::col_count, K = GAME ? 4 : 3, N = R * C; const char* NAME = GAME ? "c4" : "ttt";
static_assert(GAME ? R == 6 && C == 7 : R == 3 && C == 3, "board size");
// ---- the rules, independently: cells 0 empty, 1 first player, 2 second player
struct Rules { unsigned char a[R][C] = {}; int n = 0; bool over = false; int winner = 0; int turn = 1;
	bool legal(int r, int c) const { return !over && r >= 0 && r < R && c >= 0 && c < C && !a[r][c] && (!GAME || r == 0 || a[r - 1][c]); }
	void put(int r, int c) { a[r][c] = turn; n++; bool line = false; static const int D[4][2] = { { 0, 1 }, { 1, 0 }, { 1, 1 }, { 1, -1 } };
		for (auto& d : D) { auto run = [&](int s) { int k = 0; for (int i = r + s * d[0], j = c + s * d[1]; i >= 0 && i < R && j >= 0 && j < C && a[i][j] == turn; i += s * d[0], j += s * d[1]) k++; return k; }; line |= run(1) + run(-1) + 1 >= K; }
		if (line) { over = true; winner = turn; } else if (n == N) over = true; if (!over) turn = 3 - turn; }
	bool operator==(const Rules& o) const { return !memcmp(a, o.a, sizeof a) && n == o.n && over == o.over && winner == o.winner && turn == o.turn; } };
S::player_id_t pid(int p) { return p == 1 ? Sp::x : p == 2 ? Sp::o : Sp::none; }
void fresh(S::board& b) {
#if GAME
	b.reset(nullptr);
#else
	b.reset();
#endif
}
std::string cells(const std::vector<int>& h) { std::string s; for (int m : h) s += (char)('0' + m); return s; }
std::vector<int> uncells(const std::string& s) { std::vector<int> v; for (char c : s) v.push_back(c - '0'); return v; }
void agree(const S::board& b, const Rules& r, const char* when) {
	for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { auto g = b.get_move({ i, j }); if (g != pid(r.a[i][j])) violation(fmt("%s: cell (%d,%d) holds %d, expected %d", when, i, j, g, pid(r.a[i][j]))); for (int p = 1; p <= 2; p++) if (b.has_move(pid(p), { i, j }) != (r.a[i][j] == p)) violation(fmt("%s: has_move(%d) of cell (%d,%d) is wrong", when, pid(p), i, j)); }
	if (b.is_game_over() != r.over) violation(fmt("%s: the game is %sover", when, b.is_game_over() ? "" : "not "));
	if (b.winner() != pid(r.winner)) violation(fmt("%s: the winner is %d, expected %d", when, b.winner(), pid(r.winner)));
	if ((int)b.move_count() != r.n) violation(fmt("%s: %d moves, expected %d", when, (int)b.move_count(), r.n));
	if (!r.over && b.current_player_id() != pid(r.turn)) violation(fmt("%s: it is the turn of %d, expected %d", when, b.current_player_id(), pid(r.turn)));
#if GAME
	for (int j = 0; j < C; j++) { int k = 0; while (k < R && r.a[k][j]) k++; if (b.col_size(j) != k) violation(fmt("%s: column %d has size %d, expected %d", when, j, b.col_size(j), k)); }
#endif
}
std::unordered_map<uint64_t, uint64_t> positions; // encoded state -> position
uint64_t poshash(const Rules& r) { return hash_bytes(r.a, sizeof r.a); }
void distinct_state(const S::board& b, const Rules& r) { if (positions.size() > 2000000) return; auto i = positions.emplace((uint64_t)b.state(), poshash(r)); if (i.first->second != poshash(r)) violation("two positions have the same state()"); }
// every illegal move is rejected and changes nothing
void node(S::board& b, const Rules& r) {
	agree(b, r, "after the last move"); distinct_state(b, r); auto st = b.state();
	for (int i = -1; i <= R; i++) for (int j = -1; j <= C; j++) if (!r.legal(i, j)) { if (GAME && !G.thorough && (st & 7) != 3 && (i < 0 || i >= R || j < 0 || j >= C || (i > 0 && !r.a[i - 1][j] && !(i > 1 && r.a[i - 2][j])))) continue; if (b.accept_move({ i, j })) violation(fmt("the illegal move (%d,%d) is accepted", i, j)); if (b.state() != st || (int)b.move_count() != r.n || b.is_game_over() != r.over || b.winner() != pid(r.winner) || (!r.over && b.current_player_id() != pid(r.turn))) violation(fmt("the rejected move (%d,%d) changes the position", i, j)); count(TRANS); }
	count(STATES); count(EVAL); outcome(hash_bytes(&st, sizeof st) ^ (GAME ? 1 : 0));
}
void dfs(S::board& b, const Rules& r, std::vector<int>& h, int depth) {
	set_case(std::string(NAME) + "|b|" + cells(h)); node(b, r); if (r.over) count(TRACES); if (depth == 0 || r.over) return;
	for (int m = 0; m < N; m++) { int i = m / C, j = m % C; if (!r.legal(i, j)) continue; Rules q = r; q.put(i, j); h.push_back(m); if (!b.accept_move({ i, j })) { set_case(std::string(NAME) + "|b|" + cells(h)); violation(fmt("the legal move (%d,%d) is rejected", i, j)); }
		dfs(b, q, h, depth - 1); h.pop_back(); set_case(std::string(NAME) + "|u|" + cells(h) + (char)('0' + m)); if (!b.undo_move({ i, j })) violation(fmt("undoing the move (%d,%d) fails", i, j)); agree(b, r, fmt("after undoing (%d,%d)", i, j).c_str()); count(TRANS); }
}
// from the start, the whole history; then every continuation to a depth
void line(const std::vector<int>& h, int depth) { S::board b; fresh(b); Rules r; std::vector<int> g; set_case(std::string(NAME) + "|b|"); agree(b, r, "at the start");
	for (int m : h) { g.push_back(m); set_case(std::string(NAME) + "|b|" + cells(g)); if (!r.legal(m / C, m % C)) return; r.put(m / C, m % C); if (!b.accept_move({ m / C, m % C })) violation(fmt("the legal move (%d,%d) is rejected", m / C, m % C)); agree(b, r, "after a move"); }
	if (depth >= 0) dfs(b, r, g, depth); if (depth < 0) node(b, r);
	set_case(std::string(NAME) + "|r|" + cells(h)); fresh(b); Rules z; agree(b, z, "after a reset"); }
void undo_line(const std::vector<int>& h) { S::board b; fresh(b); Rules r, q; for (size_t i = 0; i < h.size(); i++) { q = r; r.put(h[i] / C, h[i] % C); if (!b.accept_move({ h[i] / C, h[i] % C })) violation("the legal move is rejected"); } MC_CHECK(b.undo_move({ h.back() / C, h.back() % C }), "undoing the last move fails"); agree(b, q, "after undoing the last move"); }
// the same history through the game object: only the player whose turn it is can move; the moves are kept in order
void through_game(const std::vector<int>& h) {
	set_case(std::string(NAME) + "|g|" + cells(h)); S::game g; g.reset(S::player_type::external, S::player_type::external, nullptr); g.start(); Rules r; settle();
	for (size_t k = 0; k <= h.size(); k++) { agree(g.board(), r, "in the game"); S::move mv[S::game::max_move_count]; S::board bb = g.board(mv); MC_CHECK((size_t)bb.move_count() == k, "%d moves are recorded, expected %zu", (int)bb.move_count(), k); for (size_t q = 0; q < k; q++) MC_CHECK(mv[q].row == h[q] / C && mv[q].col == h[q] % C, "move %zu is recorded as (%d,%d), expected (%d,%d)", q, (int)mv[q].row, (int)mv[q].col, h[q] / C, h[q] % C);
		if (k == h.size()) break; int i = h[k] / C, j = h[k] % C;
		for (int p : { 3 - r.turn, 0 }) MC_CHECK(!g.accept_move(pid(p), { i, j }), "a move of player %d is accepted on the turn of player %d", pid(p), pid(r.turn)); agree(g.board(), r, "after a move out of turn");
		if (k && !r.over) MC_CHECK(!g.accept_move(pid(r.turn), { h[0] / C, h[0] % C }), "a move to a taken cell is accepted");
		if (r.over) { for (int p : { 0, 1, 2 }) MC_CHECK(!g.accept_move(pid(p), { i, j }), "a move is accepted after the end of the game"); break; }
		MC_CHECK(g.accept_move(pid(r.turn), { i, j }), "the legal move (%d,%d) is rejected", i, j); r.put(i, j); settle(); count(TRANS); }
	count(EVAL); }
// a history in which `p` completes the given line with the given cell last (found by search over the rules); empty when there is none
#if GAME
struct Lines { std::vector<std::vector<int>> l; Lines() { static const int D[4][2] = { { 0, 1 }, { 1, 0 }, { 1, 1 }, { 1, -1 } }; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (auto& d : D) { int ei = i + 3 * d[0], ej = j + 3 * d[1]; if (ei < 0 || ei >= R || ej < 0 || ej >= C) continue; std::vector<int> v; for (int k = 0; k < 4; k++) v.push_back((i + k * d[0]) * C + j + k * d[1]); l.push_back(v); } } };
bool search(Rules& r, std::vector<int>& h, const std::vector<int>& ln, int last, int p, int rot, long& budget) {
	if (--budget < 0) return false; bool all = true; for (int m : ln) if (m != last) all &= r.a[m / C][m % C] == p;
	if (all && r.turn == p && r.legal(last / C, last % C)) { Rules q = r; q.put(last / C, last % C); if (q.over && q.winner == p) { h.push_back(last); return true; } }
	// a column that still has to grow first
	for (int pass = 0; pass < 2; pass++) for (int cc = 0; cc < C; cc++) { int j = (cc + rot + r.n * (rot / 7)) % C; int i = 0; while (i < R && r.a[i][j]) i++; if (i == R) continue; int m = i * C + j; if (m == last) continue; bool in = false, below = false; for (int x : ln) { in |= x == m; below |= x % C == j && x / C > i; } bool mine = r.turn == p; bool useful = (in && mine) || below; if (in && !mine) continue; if (useful != (pass == 0)) continue; Rules q = r; q.put(i, j); if (q.over) continue; h.push_back(m); if (search(q, h, ln, last, p, rot, budget)) return true; h.pop_back(); if (budget < 0) return false; }
	return false;
}
std::vector<int> build_line(size_t l, int li, int p) { static Lines L; for (int rot = 0; rot < 49; rot++) { Rules r; std::vector<int> h; long budget = 20000; if (search(r, h, L.l[l], L.l[l][li], p, rot, budget)) return h; } return {}; }
#endif
void check_board() {
	bool T = G.thorough; defer_threads(true);
	if (!GAME) { run_tasks(9 * 8 + 1, [](uint64_t t) { if (t == 72) { line({}, 1); return; } int a = t / 8, b = t % 8; if (b >= a) b++; line({ a, b }, 7); }); cover("tictactoe", "all 549946 histories; every move on and around the board tried at each node; every move undone");
		run_tasks(9 * 8, [&](uint64_t t) { int a = t / 8, b = t % 8; if (b >= a) b++; std::vector<int> h = { a, b }; Rules r; r.put(a / C, a % C); r.put(b / C, b % C); struct F { static void go(const Rules& r, std::vector<int>& h, bool T) { if (r.over || (!T && h.size() >= 6)) { through_game(h); if (h.size() < 9) { for (int m = 0; m < N; m++) if (!r.a[m / C][m % C] && r.over) { h.push_back(m); through_game(h); h.pop_back(); break; } } if (r.over) return; if (!T && h.size() >= 6) { for (int m = 0; m < N; m++) if (r.legal(m / C, m % C)) { Rules q = r; q.put(m / C, m % C); h.push_back(m); go(q, h, T); h.pop_back(); break; } return; } } for (int m = 0; m < N; m++) if (r.legal(m / C, m % C)) { Rules q = r; q.put(m / C, m % C); h.push_back(m); go(q, h, T); h.pop_back(); } } }; F::go(r, h, T); });
		return; }
#if GAME
	int d = T ? 9 : 6; run_tasks(49, [&](uint64_t t) { int a = t / 7, b = t % 7; line({ a, (a == b ? C : 0) + b }, d - 2); }, T ? 500 : 0); cover("connect4_depth", fmt("every history of %d moves", d));
	static Lines L; struct Item { size_t l; int i, p; }; static std::vector<Item> items; for (size_t l = 0; l < L.l.size(); l++) for (int i = 0; i < 4; i++) for (int p = 1; p <= 2; p++) items.push_back({ l, i, p });
	// every line of four, every cell of it completed last, both players; all continuations around the end; then the game goes on from there with the line broken up by undo
	run_tasks(items.size(), [&](uint64_t t) { auto h = build_line(items[t].l, items[t].i, items[t].p); if (h.empty()) { count(C8); return; } count(C7); line(h, -1); std::vector<int> g(h.begin(), h.end() - std::min<size_t>(h.size(), 4)); line(g, T ? 6 : 4); through_game(h); }, T ? 250 : 0, 1);
	cover("connect4_lines", fmt("%zu lines x 4 last cells x 2 players: %llu reached by a game, %llu not reachable; all continuations of the last moves of each", L.l.size(), (unsigned long long)total(C7), (unsigned long long)total(C8)));
	// end games: the first columns filled by a pattern without a line, all continuations to a full board
	run_tasks(7 * 3, [&](uint64_t t) { int keep = t % 7, pat = t / 7; std::vector<int> h; Rules r; // fill all columns but two, two at a time
		std::vector<int> cols; for (int j = 0; j < C; j++) if (j != keep && j != (keep + 1 + pat) % C) cols.push_back(j); int want = N - 2 * R + (T ? 2 : 4); for (int round = 0; round < 400 && (int)h.size() < want; round++) { bool moved = false; for (int x = 0; x < C && !moved; x++) { int j = (x * (pat + 1) + (int)h.size() / 2 * 3 + round) % C; if ((int)h.size() < N - 2 * R && (j == keep || j == (keep + 1 + pat) % C)) continue; int i = 0; while (i < R && r.a[i][j]) i++; if (i == R) continue; Rules q = r; q.put(i, j); if (q.over) continue; r = q; h.push_back(i * C + j); moved = true; } if (!moved) break; }
		line(h, T ? 12 : 9); }, T ? 200 : 0);
	cover("connect4_end_games", "21 long games, every continuation");
#endif
}
// ---------------------------------------------------------------- the engines
struct Vm { std::string path; std::unique_ptr<S::vmem_bundle> v; Vm() { path = G.scratch + "/" + NAME + std::to_string(getpid()) + ".vmem"; unlink(path.c_str()); v.reset(new S::vmem_bundle(path.c_str(), nullptr)); S::player_agent::_vmem = v.get(); } ~Vm() { S::player_agent::_vmem = nullptr; v.reset(); unlink(path.c_str()); } };
Vm* vm_v = nullptr; pid_t vm_p = 0; Vm& vm() { if (vm_p != getpid() || !vm_v) { vm_p = getpid(); vm_v = new Vm; } return *vm_v; }
void vm_reset() { if (vm_p == getpid()) delete vm_v; vm_v = nullptr; } // nothing learned
void set_scores(const Rules& r, S::board_state_t st, const std::vector<int>& sc) { auto& m = vm().v->state_scores_map; auto i = m.find(st); if (!i.can_deref()) { S::vmem_map::value_type it; it.key = st; memset((void*)&it.value, 0xff, sizeof it.value); m.insert(it); i = m.find(st); } MC_CHECK(i.can_deref(), "cannot store the scores");
#if GAME
	for (int j = 0; j < C; j++) i->value[j] = sc[j];
#else
	for (int k = 0; k < N; k++) i->value[k / C][k % C] = sc[k];
#endif
}
int cell_of(int slot, const Rules& r) { if (!GAME) return r.legal(slot / C, slot % C) ? slot : -1; int i = 0; while (i < R && r.a[i][slot]) i++; return i < R ? i * C + slot : -1; }
constexpr int SLOTS = GAME ? C : N;
// one move of the fast engine in a position with the given knowledge and random number
void fast(const std::vector<int>& h, const std::string& sc, int rnd) { vm();
	set_case(std::string(NAME) + "|f|" + cells(h) + "|" + sc + fmt("|%d", rnd)); S::game g; g.reset(S::player_type::external, S::player_type::external, nullptr); Rules r; for (int m : h) { r.put(m / C, m % C); if (!g.accept_move(g.board().current_player_id(), { m / C, m % C })) violation("a legal move is rejected"); } settle();
	std::vector<int> v(SLOTS, -1); static const int VAL[] = { -1, S::score::min, S::score::mid, S::score::max, S::score::max - 1, S::score::min + 1 }; if (sc != "*") { for (int k = 0; k < SLOTS; k++) v[k] = VAL[sc[k] - '0']; set_scores(r, g.board().state(), v); }
	S::player_agent a; a.reset(&g, pid(r.turn), S::player_type::fast_engine, nullptr); script_rand({ rnd }); a.make_move_async(); settle(); 
	S::move mv[S::game::max_move_count]; S::board b = g.board(mv); MC_CHECK((int)b.move_count() == r.n + 1, "the engine made %d moves", (int)b.move_count() - r.n); int i = mv[r.n].row, j = mv[r.n].col; MC_CHECK(r.legal(i, j), "the engine made the illegal move (%d,%d)", i, j);
	if (sc != "*") { bool has_max = false; for (int k = 0; k < SLOTS; k++) if (cell_of(k, r) >= 0 && v[k] == S::score::max) has_max = true; int slot = GAME ? j : i * C + j; if (has_max) MC_CHECK(v[slot] == S::score::max, "the engine did not choose a move with the best score"); }
	r.put(i, j); agree(b, r, "after the move of the engine"); a.join(); count(STATES); count(EVAL); count(TRANS); outcome(hash_str(cells(h)) * 31 + i * 8 + j);
}
// a whole game of two engines; the choices of the fast one are enumerated as a digit string
struct Played { std::vector<int> moves; bool over; };
void learnt_ok() { auto& m = vm().v->state_scores_map; for (auto i = m.cbegin(); i != m.cend(); i++) {
#if GAME
	for (int j = 0; j < C; j++) { int s = i->value[j]; if (!(s == S::score::none || (s >= S::score::min && s <= S::score::max))) violation(fmt("the engine learned the score %d", s)); }
#else
	for (int k = 0; k < N; k++) { int s = i->value[k / C][k % C]; if (!(s == S::score::none || (s >= S::score::min && s <= S::score::max))) violation(fmt("the engine learned the score %d", s)); }
#endif
} }
int score_at(uint64_t st, int slot) { auto i = vm().v->state_scores_map.find((S::board_state_t)st); if (!i.can_deref()) return S::score::none;
#if GAME
	return i->value[slot];
#else
	return i->value[slot / C][slot % C];
#endif
}
Played play(int tx, int to, const std::vector<int>& rnd, bool setcase = true) { vm(); // both engines; types as in player_type
	if (setcase) set_case(std::string(NAME) + fmt("|p|%d|%d|", tx, to) + [&] { std::string s; for (int x : rnd) s += fmt("%d,", x); return s; }()); S::game g; g.reset(tx, to, nullptr); script_rand(rnd); g.start(); for (int k = 0; k < 200 && pending_threads(); k++) settle(1);
	S::move mv[S::game::max_move_count]; S::board b = g.board(mv); Rules r; Played p; for (unsigned k = 0; k < b.move_count(); k++) { int i = mv[k].row, j = mv[k].col; MC_CHECK(r.legal(i, j), "the engine made the illegal move (%d,%d)", i, j); r.put(i, j); p.moves.push_back(i * C + j); } MC_CHECK(r.over && b.is_game_over(), "the game of two engines stopped after %d moves", (int)b.move_count()); agree(b, r, "at the end"); count(TRACES); count(EVAL); count(TRANS, r.n); p.over = true;
	if (!GAME) { if (tx == S::player_type::slow_engine) MC_CHECK(r.winner != 2, "the slow engine lost"); if (to == S::player_type::slow_engine) MC_CHECK(r.winner != 1, "the slow engine lost"); }
	outcome(hash_str(cells(p.moves))); return p;
}
void learn_case(const std::string& rs, int tx, int to) { // the knowledge after a game differs from the one before by exactly what the game teaches
	std::vector<int> rnd; for (auto& x : splitc(rs, ',')) if (!x.empty()) rnd.push_back(atoi(x.c_str())); auto& m = vm().v->state_scores_map; std::map<uint64_t, std::vector<int>> before; auto snap = [&] { std::map<uint64_t, std::vector<int>> s; for (auto i = m.cbegin(); i != m.cend(); i++) { std::vector<int> v; for (int k = 0; k < SLOTS; k++) v.push_back(
#if GAME
		i->value[k]
#else
		i->value[k / C][k % C]
#endif
		); s[i->key] = v; } return s; };
	before = snap(); auto p = play(tx, to, rnd, false); auto after = snap(); learnt_ok(); int me = tx == S::player_type::fast_engine && to == S::player_type::slow_engine ? 1 : to == S::player_type::fast_engine && tx == S::player_type::slow_engine ? 2 : 0;
	S::board b; fresh(b); Rules r; std::set<std::pair<uint64_t, int>> touched; Rules e; for (int x : p.moves) e.put(x / C, x % C);
	for (int x : p.moves) { if (r.turn == me) { uint64_t st = b.state(); int slot = GAME ? x % C : x; touched.insert({ st, slot }); int o = before.count(st) ? before[st][slot] : S::score::none; if (o == S::score::none) o = S::score::mid; int gain = e.winner == me ? S::score::win : e.winner == 0 ? S::score::draw : S::score::loss; int lo = o + gain, hi = lo; if (GAME && e.winner != me) hi += 3; lo = std::max<int>(S::score::min, std::min<int>(S::score::max, lo)); hi = std::max<int>(S::score::min, std::min<int>(S::score::max, hi)); int now = after.count(st) ? after[st][slot] : -99; MC_CHECK(lo <= now && now <= hi, "after a %s the score of a move is %d, before it was %d", e.winner == me ? "win" : e.winner ? "loss" : "draw", now, o); } b.accept_move({ x / C, x % C }); r.put(x / C, x % C); }
	for (auto& kv : after) for (int k = 0; k < SLOTS; k++) { int o = before.count(kv.first) ? before[kv.first][k] : (int)S::score::none; if (kv.second[k] != o && !touched.count({ kv.first, k })) violation(fmt("the score of a move that was not made changed from %d to %d", o, kv.second[k])); }
}
// games one after the other from nothing learned, the knowledge growing from game to game; up to game `upto`
void learn_chunk(int side, long start, long step, int base, int skip, long upto) {
	vm_reset(); long all = 1; for (int i = 0; i < 4; i++) all *= base; for (long x = start; x < all; x += step) { if (skip > 1 && x / step % skip) continue; if (upto >= 0 && x > upto) break; std::string rs; long y = x; for (int i = 0; i < 4; i++) { rs += fmt("%d,", int(y % base) * (90 / base)); y /= base; }
		set_case(std::string(NAME) + fmt("|l|%d|%ld|%ld|%d|%d|%ld", side, start, step, base, skip, x)); if (side) learn_case(rs, S::player_type::slow_engine, S::player_type::fast_engine); else learn_case(rs, S::player_type::fast_engine, S::player_type::slow_engine); tick(); }
	vm_reset(); }
#if GAME
// the slow engine in the position: legal; wins when it can; prevents a loss on the next move when it can
void slow(const std::vector<int>& h) { vm(); set_case(std::string(NAME) + "|s|" + cells(h)); S::game g; g.reset(S::player_type::external, S::player_type::external, nullptr); Rules r; for (int m : h) { if (!r.legal(m / C, m % C)) return; r.put(m / C, m % C); g.accept_move(g.board().current_player_id(), { m / C, m % C }); } settle(); if (r.over) return;
	S::player_agent a; a.reset(&g, pid(r.turn), S::player_type::slow_engine, nullptr); a.make_move_async(); settle(); a.join(); S::move mv[S::game::max_move_count]; S::board b = g.board(mv); MC_CHECK((int)b.move_count() == r.n + 1, "the engine made %d moves", (int)b.move_count() - r.n); int i = mv[r.n].row, j = mv[r.n].col; MC_CHECK(r.legal(i, j), "the engine made the illegal move (%d,%d)", i, j);
	auto wins = [](const Rules& r, int c) { int i = 0; while (i < R && r.a[i][c]) i++; if (i == R || r.over) return false; Rules q = r; q.put(i, c); return q.winner != 0; }; bool can = false; for (int c = 0; c < C; c++) can |= wins(r, c); Rules q = r; q.put(i, j); 
	if (r.n >= 4) { if (can) MC_CHECK(q.winner == r.turn, "the slow engine did not make the winning move"); else if (!q.over) { auto loses = [&](const Rules& q) { for (int c = 0; c < C; c++) if (wins(q, c)) return true; return false; }; bool safe = false; for (int c = 0; c < C; c++) { int k = 0; while (k < R && r.a[k][c]) k++; if (k == R) continue; Rules z = r; z.put(k, c); safe |= z.over || !loses(z); } if (safe) MC_CHECK(!loses(q), "the slow engine allowed a win on the next move although it could prevent it"); } }
	count(STATES); count(EVAL); count(TRANS); outcome(hash_str(cells(h))); }
#endif
void check_engines() {
	bool T = G.thorough; defer_threads(true);
#if !GAME
	// every reachable position that is not over
	static std::vector<std::vector<int>> pos; { std::set<uint64_t> seen; std::vector<std::pair<Rules, std::vector<int>>> q = { { Rules(), {} } }; for (size_t k = 0; k < q.size(); k++) { auto x = q[k]; if (x.first.over || !seen.insert(poshash(x.first)).second) continue; pos.push_back(x.second); for (int m = 0; m < N; m++) if (x.first.legal(m / C, m % C)) { Rules z = x.first; z.put(m / C, m % C); auto h = x.second; h.push_back(m); q.push_back({ z, h }); } if (q.size() > 4000000) break; } }
	run_tasks(pos.size(), [&](uint64_t t) { auto& h = pos[t]; Rules r; for (int m : h) r.put(m / C, m % C); std::vector<int> fr; for (int m = 0; m < N; m++) if (r.legal(m / C, m % C)) fr.push_back(m); int nf = fr.size();
		std::vector<std::string> sc = { "*" }; int lim = T ? 4 : 3; for (int z : { 0, 1 }) { std::string base(N, '0' + z * 3); // knowledge of the taken cells must not matter
			if (nf <= lim) { int all = 1; for (int i = 0; i < nf; i++) all *= 4; for (int x = 0; x < all; x++) { std::string s = base; int y = x; for (int i = 0; i < nf; i++) { s[fr[i]] = '0' + y % 4; y /= 4; } sc.push_back(s); } } else { for (char c = '0'; c < '4'; c++) { std::string s = base; for (int m : fr) s[m] = c; sc.push_back(s); for (int m : fr) for (char e : { '0', '1', '2', '3' }) { if (e == c || (!T && nf > 6 && e == '2')) continue; std::string u = s; u[m] = e; sc.push_back(u); } } } if (nf == N && z) break; }
		for (auto& s : sc) { int sum = 0; if (s != "*") for (int m : fr) sum += s[m] == '0' || s[m] == '2' ? S::score::mid : s[m] == '1' ? 1 : S::score::max; else sum = nf * S::score::mid; for (int x = 0; x < sum; x += (T || x < 3 ? 1 : nf > 4 ? 17 : 5)) fast(h, s, x); fast(h, s, sum - 1); fast(h, s, 0x7fffffff); } }, T ? 400 : 0, 4);
	cover("fast_engine", fmt("%zu positions (all that are not over), every combination of four kinds of knowledge on up to %d free cells and every single deviation on more, random numbers over the whole range", pos.size(), T ? 4 : 3));
	run_tasks(1, [&](uint64_t) { play(S::player_type::slow_engine, S::player_type::slow_engine, {}); });
	// fast against slow: every sequence of random numbers over a small range, with what was learned carried along
	run_tasks(T ? 128 : 32, [&](uint64_t t) { learn_chunk(t % 2, t / 2, T ? 64 : 16, T ? 9 : 6, T ? 1 : 3, -1); }, T ? 300 : 0, 1);
	cover("learning", "games of the fast engine against the slow one on either side, the knowledge growing from game to game; fast against fast below");
	run_tasks(16, [&](uint64_t t) { for (int x = 0; x < (T ? 400 : 60); x++) { std::vector<int> rnd; int y = x * 16 + t; for (int i = 0; i < 5; i++) { rnd.push_back(y % 4 * 23); rnd.push_back(y / 4 % 5 * 17); y /= 3; } play(S::player_type::fast_engine, S::player_type::fast_engine, rnd); } });
#else
	// every opening of two moves, and one-column deviations later: the fast engine
	run_tasks(343, [&](uint64_t t) { std::vector<int> h; Rules r; int y = t; for (int k = 0; k < 3; k++) { int j = y % 7, i = 0; y /= 7; while (r.a[i][j]) i++; h.push_back(i * C + j); r.put(i, j); } for (const char* s : { "*", "0000000", "1111111", "2222222", "3333333", "0123012", "1111112", "5111111", "4444444", "3111111", "0111111" }) for (int x : { 0, 1, 2, 3, 6, 7, 49, 50, 51, 99, 149, 349, 350, 0x7fffffff }) fast(h, s, x); });
	// late positions: all columns full but some; the knowledge of full columns must not matter
	run_tasks(127, [&](uint64_t t) { int open = t + 1; std::vector<int> h; Rules r; for (int guard = 0; guard < 60; guard++) { bool moved = false; for (int x = 0; x < C && !moved; x++) { int j = (x * 3 + (int)h.size() / 2) % C; int i = 0; while (i < R && r.a[i][j]) i++; if (i >= R - (open >> j & 1)) continue; Rules q = r; q.put(i, j); if (q.over) continue; r = q; h.push_back(i * C + j); moved = true; } if (!moved) break; } if (r.over) return;
		int nv = 0; for (int j = 0; j < C; j++) nv += !r.a[R - 1][j]; int all = 1; for (int j = 0; j < C; j++) all *= (r.a[R - 1][j] ? 2 : 4); for (int x = 0; x < all; x++) { std::string s; int y = x; for (int j = 0; j < C; j++) { if (r.a[R - 1][j]) { s += y % 2 ? '3' : '1'; y /= 2; } else { s += '0' + y % 4; y /= 4; } } if (!T && all > 4000 && x % 5) continue; for (int q : { 0, 1, 2, 50, 51, 349 }) fast(h, s, q); } slow(h); }, T ? 200 : 0, 1);
	cover("fast_engine_c4", "343 openings and 127 late positions with every combination of knowledge on the open columns");
	// the slow engine in late positions, every continuation
	run_tasks(7 * 2, [&](uint64_t t) { int keep = t % 7, pat = t / 7; std::vector<int> h; Rules r; for (int round = 0; round < 400 && (int)h.size() < N - R - 2; round++) { bool moved = false; for (int x = 0; x < C && !moved; x++) { int j = (x * (pat + 1) + (int)h.size() / 2 * 3 + round) % C; if ((int)h.size() < N - R - 3 && j == keep) continue; int i = 0; while (i < R && r.a[i][j]) i++; if (i == R) continue; Rules q = r; q.put(i, j); if (q.over) continue; r = q; h.push_back(i * C + j); moved = true; } if (!moved) break; }
		struct F { static void go(const Rules& r, std::vector<int>& h, int d) { if (r.over) return; slow(h); if (!d) return; for (int j = 0; j < C; j++) { int i = 0; while (i < R && r.a[i][j]) i++; if (i == R) continue; Rules q = r; q.put(i, j); h.push_back(i * C + j); go(q, h, d - 1); h.pop_back(); } } }; while (h.size() > 33) h.pop_back(); Rules z; for (int m : h) z.put(m / C, m % C); F::go(z, h, T ? 4 : 2); }, T ? 200 : 0, 1);
	run_tasks(T ? 57 : 8, [&](uint64_t t) { std::vector<int> h; Rules r; if (t) { int y = t - 1; for (int k = 0; k < (t < 8 ? 1 : 2); k++) { int j = (t < 8 ? (int)t - 1 : (y + k * (y - 7) / 7) % 7), i = 0; while (r.a[i][j]) i++; h.push_back(i * C + j); r.put(i, j); } } slow(h); });
	cover("slow_engine_c4", "14 late games with every continuation of 2 (thorough 4) moves, and the openings");
#endif
}
// ---------------------------------------------------------------- the service
using TL_ = S::log_ostream;
struct Ep : S::game_endpoint<S::limits, TL_> { using base = S::game_endpoint<S::limits, TL_>; Ep(abc::endpoint_config* c) : base(c, SLOG) {}
	int one(std::streambuf* sb) { abc::http_server_stream<TL_> http(sb, SLOG); char m[65], r[1025], p[65]; http.get_method(m, sizeof m); http.get_resource(r, sizeof r); http.get_protocol(p, sizeof p); this->process_rest_request(http, m, r); http.flush(); return 0; } };
abc::endpoint_config& cfg() { static abc::endpoint_config c("80", 5, "/nowhere", "/resources/"); return c; }
std::string post(const std::string& res, const std::string& body) { return "POST " + res + " HTTP/1.1\r\nContent-Type: application/json\r\n\r\n" + body; }
const char* TYPES[] = { "external", "slow_engine", "fast_engine" };
// the service under test and what it should be like
struct Svc { Ep e; bool made = false; uint32_t gid = 0; int type[2] = {}; bool claimed[2] = {}; uint32_t pl[2] = {}; Rules r; std::vector<int> h; bool started = false; Svc() : e(&cfg()) {}
	Answer ask(const std::string& req) { auto a = answer(serve(e, req), req); count(TRANS); return a; }
	double num(const Answer& a, const char* name) { for (size_t i = 0; i + 1 < a.t.size(); i++) if (a.t[i].item == it::property && a.t[i].text == name && a.t[i + 1].item == it::number) return a.t[i + 1].num; return -12345; }
	void expect(const Answer& a, int cls, const std::string& what) { MC_CHECK(a.status / 100 == cls, "%s is answered with status %d: %s", what.c_str(), a.status, show(a.body).c_str()); }
	bool ready() { return claimed[0] && claimed[1]; }
	// the engines move when their threads run
	void engines() { settle(); sync(); }
	void sync() { if (!made) return; S::move dummy{}; (void)dummy; auto a = ask(fmt("GET /games/%u/moves?since=%zu HTTP/1.1\r\n\r\n", gid, h.size())); expect(a, 2, "getting the moves"); for (auto& m : moves_of(a, h.size())) { MC_CHECK(r.legal(m / C, m % C), "the illegal move (%d,%d) was made", m / C, m % C); MC_CHECK(type[r.turn - 1] != 0, "a move of the external player %d was made for it", r.turn); r.put(m / C, m % C); h.push_back(m); } over_ok(a); MC_CHECK(r.over || type[r.turn - 1] == 0 || !ready() || pending_threads(), "an engine does not move"); }
	void over_ok(const Answer& a) { double w = num(a, "winner"); if (r.over) MC_CHECK(w == pid(r.winner), "the winner is reported as %g, expected %d", w, pid(r.winner)); else MC_CHECK(w == -12345, "a winner is reported before the end of the game"); }
	std::vector<int> moves_of(const Answer& a, size_t since) { std::vector<int> v; auto& t = a.t; size_t k = 0; auto need = [&](int item, const char* text = nullptr) { MC_CHECK(k < t.size() && t[k].item == item && (!text || t[k].text == text), "the list of moves has an unexpected form: %s", show(a.body).c_str()); return t[k++].num; };
		need(it::begin_object); need(it::property, "moves"); need(it::begin_array); while (k < t.size() && t[k].item == it::begin_object) { k++; need(it::property, "i"); double i = need(it::number); MC_CHECK(i == since + v.size(), "move %zu is listed with the number %g", since + v.size(), i); need(it::property, "move"); need(it::begin_object); need(it::property, "row"); int rr = need(it::number); need(it::property, "col"); int cc = need(it::number); need(it::end_object); need(it::end_object); v.push_back(rr * C + cc); } need(it::end_array); return v; }
	void create(int x, int o) { auto a = ask(post("/games", fmt("{\"players\": [\"%s\", \"%s\"]}", TYPES[x], TYPES[o]))); if (made && !r.over) { expect(a, 5, "creating a second game"); return; } expect(a, 2, "creating a game"); double id = num(a, "gameId"); MC_CHECK(id > 0 && id <= 4294967295.0 && id == (uint32_t)id, "the game got the ID %g", id); made = true; gid = (uint32_t)id; type[0] = x; type[1] = o; for (int p = 0; p < 2; p++) { claimed[p] = type[p] != 0; pl[p] = 0; } r = Rules(); h.clear(); }
	void claim(int p) { if (!made) { expect(ask(fmt("POST /games/77/players/%d HTTP/1.1\r\n\r\n", p)), 4, "claiming a player of no game"); return; } auto a = ask(fmt("POST /games/%u/players/%d HTTP/1.1\r\n\r\n", gid, p)); if (claimed[p]) { expect(a, 4, "claiming a claimed player"); return; } expect(a, 2, "claiming a player"); double id = num(a, "playerId"); MC_CHECK(id > 0 && id <= 4294967295.0 && id == (uint32_t)id, "the player got the ID %g", id); MC_CHECK(!claimed[1 - p] || type[1 - p] || (uint32_t)id != pl[1 - p], "both players got the same ID"); claimed[p] = true; pl[p] = (uint32_t)id; }
	void move(int p, int i, int j) { uint32_t id = pl[p]; if (!made) id = 5; bool known = made && id != 0 && claimed[p]; auto a = ask(post(fmt("/games/%u/players/%u/moves", made ? gid : 77, id), fmt("{\"row\": %d, \"col\": %d}", i, j))); bool ok = known && !r.over && r.turn == p + 1 && r.legal(i, j); if (!ok) { expect(a, 4, fmt("the move (%d,%d) of player %d", i, j, p)); return; } expect(a, 2, fmt("the move (%d,%d) of player %d", i, j, p)); double k = num(a, "i"); MC_CHECK(k == r.n, "the move is numbered %g, expected %d", k, r.n); r.put(i, j); h.push_back(i * C + j); over_ok(a); }
	void list(size_t since) { if (!made) { expect(ask(fmt("GET /games/77/moves?since=%zu HTTP/1.1\r\n\r\n", since)), 4, "the moves of no game"); return; } auto a = ask(fmt("GET /games/%u/moves?since=%zu HTTP/1.1\r\n\r\n", gid, since)); expect(a, 2, "getting the moves"); auto v = moves_of(a, since); if (since > h.size()) MC_CHECK(v.empty(), "moves are listed that were not made"); else MC_CHECK(v == std::vector<int>(h.begin() + since, h.end()), "the moves since %zu are not those that were made: %s", since, show(a.body).c_str()); over_ok(a); }
	void bad(int k) { uint32_t g = made ? gid : 77, id = made && pl[0] ? pl[0] : 5; std::string ct = "\r\nContent-Type: application/json\r\n\r\n"; std::vector<std::string> v = { fmt("GET /games HTTP/1.1\r\n\r\n"), fmt("GET /games/%u/players/0 HTTP/1.1\r\n\r\n", g), fmt("POST /games/%u/moves?since=0 HTTP/1.1\r\n\r\n", g), fmt("POST /games/%u/players/2 HTTP/1.1\r\n\r\n", g), fmt("POST /games/%u HTTP/1.1\r\n\r\n", g), fmt("POST /games/%u/players/0x HTTP/1.1\r\n\r\n", g), "POST /gamesx HTTP/1.1\r\n\r\n", "GET /nothing HTTP/1.1\r\n\r\n", fmt("GET /games/%u/moves HTTP/1.1\r\n\r\n", g), fmt("GET /games/%u/moves?since=x HTTP/1.1\r\n\r\n", g), fmt("POST /games/%u/players/%u/movesx HTTP/1.1", g, id) + ct + "{\"row\": 0, \"col\": 0}", fmt("POST /games/%u/players/%u/moves HTTP/1.1\r\n\r\n", g, id) + "{\"row\": 0, \"col\": 0}", "POST /games HTTP/1.1\r\n\r\n{\"players\": [\"external\", \"external\"]}", fmt("POST /games/%u/players/0/moves HTTP/1.1", g) + ct + "{\"row\": 0, \"col\": 0}", fmt("POST /games/0/players/%u/moves HTTP/1.1", id) + ct + "{\"row\": 0, \"col\": 0}", fmt("POST /games/%u/players/0 HTTP/1.1\r\n\r\n", g + 1), fmt("GET /games/%u/moves?since=0 HTTP/1.1\r\n\r\n", g + 1), fmt("POST /games/%u/players/%u/moves HTTP/1.1", g + 1, id) + ct + "{\"row\": 0, \"col\": 0}", fmt("POST /games/%u/players/%u/moves HTTP/1.1", g, id + 7) + ct + "{\"row\": 0, \"col\": 0}", "GET /shutdown HTTP/1.1\r\n\r\n", fmt("DELETE /games/%u HTTP/1.1\r\n\r\n", g), fmt("POST /games/%u/players/%u/moves HTTP/1.1\r\nContent-Type: text/plain\r\n\r\n", g, id) + "{\"row\": 0, \"col\": 0}", fmt("POST /games/%u/players/%u/moves HTTP/1.1\r\nContent-Type: application/json", g, id) + ct + "{\"row\": 0, \"col\": 0}", "POST /games/ HTTP/1.1\r\n\r\n", fmt("POST /games/%u/players/ HTTP/1.1\r\n\r\n", g) };
		expect(ask(v[k]), 4, "the request " + show(v[k])); }
	static constexpr int BAD = 25;
};
// operations of a history: c<x><o> create, k<p> claim, m<p><cell> move, l<n> list, e engines run, b<k> a bad request
void history(const std::string& ops, const std::vector<int>& rnd = {}) {
	defer_threads(true); script_rand(rnd); Svc s; size_t i = 0; while (i < ops.size()) { char o = ops[i++]; switch (o) { case 'c': s.create(ops[i] - '0', ops[i + 1] - '0'); i += 2; break; case 'k': s.claim(ops[i++] - '0'); break; case 'm': { int p = ops[i] - '0', m = ops[i + 1] - '0'; i += 2; s.move(p, m / C, m % C); break; } case 'l': s.list(ops[i++] - '0'); break; case 'e': s.engines(); break; case 'b': s.bad(ops[i++] - 'A'); break; } }
	if (s.made) { if (!pending_threads()) s.list(0); else s.sync(); } uint64_t hs = hash_bytes(s.r.a, sizeof s.r.a) + s.claimed[0] * 3 + s.claimed[1] * 5 + s.type[0] * 7 + s.type[1] * 11; outcome(hs); count(STATES); count(EVAL); count(TRACES); }
void hist_case(const std::string& ops) { set_case(std::string(NAME) + "|h|" + ops); history(ops); }
// one body for one of the two kinds of requests that have one
bool want_players(const Ref& j, size_t& used) { size_t k = 0; auto is = [&](size_t i, int item) { return i < j.toks.size() && j.toks[i].item == item; }; if (!is(k++, it::begin_object)) { used = k; return false; } bool has = false; std::string p[2]; for (;;) { if (is(k, it::end_object)) { used = k; break; } if (!is(k, it::property)) { used = k; return false; } std::string n = j.toks[k++].text; if (n == "players") { if (!is(k++, it::begin_array)) { used = k - 1; return false; } for (auto& x : p) { if (!is(k, it::string)) { used = k; return false; } x = j.toks[k++].text; } if (!is(k++, it::end_array)) { used = k - 1; return false; } has = true; } else { size_t e = k < j.toks.size() && may_skip_at(j, k) ? value_end(j, k) : ~size_t(0); if (e == ~size_t(0)) { used = j.toks.size(); return false; } k = e; } }
	if (!has) return false; for (auto& x : p) { x = x.c_str(); bool ok = false; for (auto t : TYPES) ok |= x == t; if (!ok) return false; } return true; }
bool want_move(const Ref& j, size_t& used, int& row, int& col) { size_t k = 0; auto is = [&](size_t i, int item) { return i < j.toks.size() && j.toks[i].item == item; }; used = 0; if (!is(k++, it::begin_object)) return false; int* o[2] = { &row, &col }; for (int q = 0; q < 2; q++) { used = k; if (!is(k, it::property) || j.toks[k].text != (q ? "col" : "row")) return false; k++; used = k; if (!is(k, it::number)) return false; double v = j.toks[k].num; if (!(v >= 0 && v < (q ? C : R) && v == (int)v)) return false; *o[q] = (int)v; k++; } for (;;) { used = k; if (is(k, it::end_object)) return true; if (!is(k, it::property)) return false; k++; size_t e = k < j.toks.size() && may_skip_at(j, k) ? value_end(j, k) : ~size_t(0); if (e == ~size_t(0)) { used = j.toks.size(); return false; } k = e; } }
bool long_tok(const Ref& j) { for (auto& t : j.toks) if (t.text.size() > 900 || t.text.find('\0') != std::string::npos) return true; return j.maxdepth > 60; }
void body_case(int kind, const std::string& body) { set_case(std::string(NAME) + fmt("|%c|", kind ? 'M' : 'P') + hex(body)); script_rand({}); defer_threads(true); { Svc o; if (!kind) o.ask(post("/games", "{\"players\": [\"external\", \"external\"]}")); else { o.create(0, 0); o.claim(0); o.claim(1); o.ask(post(fmt("/games/%u/players/%u/moves", o.gid, o.pl[0]), "{\"row\": 0, \"col\": 2}")); } settle(); /* valid values in the memory that the next request uses */ } script_rand({}); Svc s; Ref j = ref(body, 60); size_t used = 0;
	if (kind == 0) { bool w = want_players(j, used); auto a = s.ask(post("/games", body)); bool free = j.tolerated <= used || long_tok(j); MC_CHECK(free ? a.status / 100 == 2 || a.status / 100 == 4 : a.status / 100 == (w ? 2 : 4), "the body %s is answered with status %d", show(body).c_str(), a.status); }
	else { s.create(0, 0); s.claim(0); s.claim(1); int i = 0, jj = 0; bool w = want_move(j, used, i, jj); bool l = w && s.r.legal(i, jj); auto a = s.ask(post(fmt("/games/%u/players/%u/moves", s.gid, s.pl[0]), body)); bool free = j.tolerated <= used || long_tok(j); MC_CHECK(free ? a.status / 100 == 2 || a.status / 100 == 4 : a.status / 100 == (l ? 2 : 4), "the body %s is answered with status %d", show(body).c_str(), a.status); if (a.status == 200 && l) { s.r.put(i, jj); s.h.push_back(i * C + jj); } if (!free || a.status != 200) s.list(0); }
	settle(); count(STATES); count(EVAL); outcome(hash_str(body)); }
void check_service() {
	bool T = G.thorough; auto cell = [](int m) { return std::string(1, (char)('0' + m)); };
	// histories over alphabets from several starting points
	std::vector<std::string> A = { "c00", "k0", "k1", "l0" }; for (int p = 0; p < 2; p++) for (int m : GAME ? std::vector<int>{ 0, 3, 7 } : std::vector<int>{ 0, 4, 8 }) A.push_back(fmt("m%d", p) + cell(m)); if (T) { A.push_back("l2"); A.push_back("bF"); }
	static std::vector<std::string> pre; pre = { "", "c00", "c00k0k1" }; if (!GAME) { pre.push_back("c00k1k0m00m11"); pre.push_back("c00k1k0m00m14m01m15"); pre.push_back("c00k0k1m00m11m02m14m03m16m05m18m07"); /* one move before a draw */ } else { pre.push_back("c00k0k1" "m0" + cell(0) + "m1" + cell(1) + "m0" + cell(7) + "m1" + cell(8) + "m0" + cell(14) + "m1" + cell(15)); }
	if (!GAME) for (int m : { 2, 6, 7 }) for (int p = 0; p < 2; p++) A.push_back(fmt("m%d", p) + cell(m)); else for (int m : { 21, 22, 2 }) for (int p = 0; p < 2; p++) A.push_back(fmt("m%d", p) + cell(m));
	int d = T ? 5 : xdiff ? 2 : 3; uint64_t all = 1; for (int i = 0; i < d; i++) all *= A.size(); run_tasks(pre.size() * A.size() * A.size(), [&](uint64_t t) { std::string h = pre[t / (A.size() * A.size())] + A[t % A.size()] + A[t / A.size() % A.size()]; uint64_t rest = all / A.size() / A.size(); for (uint64_t x = 0; x < rest; x++) { std::string o = h; uint64_t y = x; for (int i = 2; i < d; i++) { o += A[y % A.size()]; y /= A.size(); } hist_case(o); } }, T ? 300 : 0, 4);
	cover(std::string(NAME) + "_histories", fmt("every history of %d of %zu requests after %zu prefixes, with players of the network", d, A.size(), pre.size()));
	// every bad request at every point of a game
	run_tasks(Svc::BAD * pre.size(), [&](uint64_t t) { const std::string& p = pre[t / Svc::BAD]; std::string b = std::string("b") + (char)('A' + t % Svc::BAD); hist_case(p + b); hist_case(p + b + "l0"); hist_case(p + b + b + "c00"); });
	cover(std::string(NAME) + "_bad_requests", fmt("%d bad requests at %zu points", Svc::BAD, pre.size()));
	// whole games with listings from every index, then another game in the same slot
	run_tasks(GAME ? 14 : 504, [&](uint64_t t) { std::string h = "c00k0k1"; Rules r; std::vector<int> ms; int y = t; if (!GAME) { std::vector<int> f; for (int i = 0; i < 9; i++) f.push_back(i); for (int q : { 9, 8, 7 }) { int k = y % q; y /= q; ms.push_back(f[k]); f.erase(f.begin() + k); } ms.insert(ms.end(), f.begin(), f.end()); } else { for (int round = 0; round < 400 && ms.size() < (size_t)N; round++) { bool mv = false; for (int x = 0; x < C && !mv; x++) { int j = (x * (1 + (int)t / 7) + (int)ms.size() / 2 * 3 + round + (int)t % 7) % C, i = 0; while (i < R && r.a[i][j]) i++; if (i == R) continue; Rules q = r; q.put(i, j); if (q.over && q.n < N && round < 300) continue; r = q; ms.push_back(i * C + j); mv = true; } if (r.over) break; } r = Rules(); }
		for (int m : ms) { if (r.over) break; h += fmt("m%d", r.turn - 1) + cell(m); r.put(m / C, m % C); h += "l" + cell(r.n - 1) + "l" + cell(r.n + 1); if (!GAME || r.n > 38) h += "l0"; } h += "l0m00m1" + cell(8) + "c00l0k0k1m0" + cell(4) + "m0" + cell(0) + "l0"; hist_case(h); });
	cover(std::string(NAME) + "_games", GAME ? "14 long games (full boards among them), then a second game" : "504 complete games, then a second game in the same slot");
	// engines: their threads run between requests, or later
	if (!GAME || T) { std::vector<std::string> E = { "e", "l0", "k0", "k1", "m0" + cell(4), "m1" + cell(4), "m1" + cell(0), "m0" + cell(0), "c00" }; run_tasks(E.size() * E.size() * 2, [&](uint64_t t) { int o = t / (E.size() * E.size()); std::string a = E[t % E.size()], b = E[t / E.size() % E.size()]; std::string base = o ? "c01" : "c10"; for (auto& c : E) { if (GAME && c != "e" && c != "l0") continue; hist_case(base + a + b + c + "e"); if (T && !GAME) for (auto& d : E) hist_case(base + a + b + c + d + "ee"); } }, T ? 200 : 0, 1); cover(std::string(NAME) + "_engine_histories", "every history of 3 (thorough 4) of 9 steps with an engine on either side"); run_tasks(1, [&](uint64_t) { hist_case("c11e"); hist_case("c11c00eel0c00k0k1m04l0"); }); }
	// random numbers that give bad IDs
	run_tasks(729, [&](uint64_t t) { std::vector<int> v; int y = t; for (int i = 0; i < 6; i++) { v.push_back(y % 3 == 2 ? 0x10000 : y % 3); y /= 3; } std::string s; for (int x : v) s += fmt("%d,", x); set_case(std::string(NAME) + "|i|" + s); history("c00k0k1m00m11l0", v); });
	cover(std::string(NAME) + "_ids", "every sequence of 6 random numbers of 3");
	// bodies
	std::string AL = "{}[]\":,0129-. x\\n"; { static std::vector<std::string> b; b = edits("{\"players\": [\"external\", \"external\"]}", AL); for (const char* x : { "", "null", "[]", "{}", "{\"players\": []}", "{\"players\": [\"external\"]}", "{\"players\": [\"external\", \"external\", \"external\"]}", "{\"players\": {}}", "{\"players\": null}", "{\"x\": [1, {\"y\": [[]]}], \"players\": [\"external\", \"external\"], \"z\": \"\"}", "{\"players\": [\"external\", \"bad\"]}", "{\"players\": [\"\", \"external\"]}", "{\"players\": [\"externalx\", \"external\"]}", "{\"players\": [\"External\", \"external\"]}", "{\"players\": [\"external\", \"external\"], \"players\": [\"external\", \"x\"]}", "{\"players\": [\"x\", \"external\"], \"players\": [\"external\", \"external\"]}" }) b.push_back(x); for (int n = 0; n < 1100; n += (n > 80 && n < 1000 ? 61 : 1)) for (int w = 0; w < 2; w++) { std::string l(n, 'e'); b.push_back("{\"players\": [\"" + (w ? std::string("external") : l) + "\", \"" + (w ? l : std::string("external")) + "\"]}"); } run_tasks(b.size(), [&](uint64_t i) { body_case(0, b[i]); }, 0, 16); }
	{ static std::vector<std::string> b; b = edits("{\"row\": 0, \"col\": 1}", AL); for (int i = -2; i <= 9; i++) for (int j = -2; j <= 9; j++) b.push_back(fmt("{\"row\": %d, \"col\": %d}", i, j)); for (const char* v : { "0.5", "1e0", "0.1e1", "-0", "1e300", "2.0000001", "-0.1", "null", "true", "\"0\"", "[0]", "{}", "4294967296", "2147483648", "-2147483649", "1e-300" }) { b.push_back(fmt("{\"row\": %s, \"col\": 1}", v)); b.push_back(fmt("{\"row\": 0, \"col\": %s}", v)); } for (const char* x : { "", "{}", "[0, 1]", "{\"col\": 1, \"row\": 0}", "{\"row\": 0}", "{\"row\": 0, \"col\": 1, \"x\": [1, 2, {}]}", "{\"row\": 0, \"col\": 1, \"x\": [1, 2, {}]", "{\"row\": 0, \"col\": 1, \"x\"", "{\"row\": 0, \"col\": 1]" }) b.push_back(x); run_tasks(b.size(), [&](uint64_t i) { body_case(1, b[i]); }, 0, 16); }
	cover(std::string(NAME) + "_bodies", "every body one edit away from a valid one, every move on and around the board, other shapes");
}
void run_case(const std::string& c) {
	auto f = splitc(c, '|'); defer_threads(true); const std::string& k = f[1]; auto ints = [](const std::string& s) { std::vector<int> v; for (auto& x : splitc(s, ',')) if (!x.empty()) v.push_back(atoi(x.c_str())); return v; };
	if (k == "b" || k == "r") line(uncells(f[2]), -1); else if (k == "u") undo_line(uncells(f[2])); else if (k == "g") through_game(uncells(f[2])); else if (k == "f") fast(uncells(f[2]), f[3], atoi(f[4].c_str())); else if (k == "p") play(atoi(f[2].c_str()), atoi(f[3].c_str()), ints(f[4])); else if (k == "l") learn_chunk(atoi(f[2].c_str()), atol(f[3].c_str()), atol(f[4].c_str()), atoi(f[5].c_str()), atoi(f[6].c_str()), atol(f[7].c_str())); else if (k == "h") history(f[2]); else if (k == "i") history("c00k0k1m00m11l0", ints(f[2])); else if (k == "P" || k == "M") body_case(k == "M", unhex(f[2]));
#if GAME
	else if (k == "s") slow(uncells(f[2]));
#endif
}
GameApi api = { run_case, check_board, check_engines, check_service };
}
#if GAME
GameApi* game_c() { return &api; }
#else
GameApi* game_t() { return &api; }
#endif
