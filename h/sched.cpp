// Runtime of mcsched.h. Compiled without instrumentation.
#include "mcsched.h"
#include <pthread.h>
#include <ucontext.h>
#include <errno.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/single_threaded.h>
#include <cxxabi.h>
#include <chrono>
#include <unordered_map>
#include <exception>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); size_t malloc_usable_size(void*); }
namespace sched {
using mc::fmt;
#ifndef SCHED_MAXT
#define SCHED_MAXT 12
#endif
constexpr int MAXT = SCHED_MAXT;
struct VC { uint32_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum Wait { RUN, PRED, COND, SLEEP, QUIESCENT, DONE };
struct Fiber {
	ucontext_t ctx; char* stack = nullptr; Wait w = RUN; std::function<bool()> pred; const char* what = ""; bool timed = false; uint64_t deadline = 0; bool timed_out = false, signaled = false, yielded = false;
	void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false; VC vc; int quiet = 0; char eh[16] = {}; void* cond = nullptr; int joiner = -1;
};
struct StepRec { uint8_t n, chosen, tid; const char* what; uint8_t cost[MAXT + 1]; };
static Fiber F[MAXT]; static int nf = 0, cur = -1; static bool active = false; static ucontext_t host; static std::vector<char*> stacks;
static std::vector<uint8_t> prefix; static std::vector<StepRec> trace, expected; static uint64_t pos = 0, steps = 0, vt = 0; static Options O; static int delay_first = 0;
static std::unordered_map<uintptr_t, VC> sync_vc;
struct Mutex { int owner = -1, depth = 0; VC vc; }; static std::unordered_map<uintptr_t, Mutex> mtx; static std::unordered_map<uintptr_t, int> onces;
double g_deadline = 0; bool g_cut = false; int fail_create = 0, exempt_threads = 0, steady = 0; uint64_t n_points = 0, n_accesses = 0;
static uint64_t serial = 1; // of the execution
constexpr size_t STACK = 512 << 10;
int self() { return cur; } bool running() { return active; } uint64_t vtime() { return vt; } void advance(uint64_t ns) { vt += ns; }
int live_threads() { int n = 0; for (int i = 0; i < nf; i++) if (F[i].w != DONE) n++; return n; }
static bool observing() { return active && cur >= 0 && F[cur].quiet == 0 && !mc::in_signal; }
quiet::quiet() { if (active && cur >= 0) F[cur].quiet++; } quiet::~quiet() { if (active && cur >= 0) F[cur].quiet--; }
void fail(const std::string& m) { if (active && cur >= 0) F[cur].quiet++; active = false; mc::violation(m); _exit(43); }

// ---- shadow memory: per 8-byte granule, a few last accesses
struct Cell { uint32_t clk; uint8_t tid, mask, write; };
struct Gran { uintptr_t key; uint64_t serial; uint8_t n; bool freed; Cell c[6]; };
static Gran* tab; constexpr size_t TABN = size_t(1) << 17; static size_t tab_used;
static Gran* gran(uintptr_t k, bool create) {
	if (!tab) tab = (Gran*)mmap(nullptr, TABN * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20;
	for (size_t p = 0; p < 64; p++, i++) { Gran& g = tab[i & (TABN - 1)]; if (g.serial != serial) { if (!create) return nullptr; g.key = k; g.serial = serial; g.n = 0; g.freed = false; return &g; } if (g.key == k) return &g; }
	if (!create) return nullptr;
	return nullptr; // crowded: not observed
}
static void report_race(uintptr_t a, bool w, const Cell& c, const char* what) { fail(fmt("data race: thread %d %s %p, thread %d %s it before, and nothing orders the two (%s)", cur, w ? "writes" : "reads", (void*)a, c.tid, c.write ? "wrote" : "read", what)); }
static void access1(uintptr_t g8, uint8_t mask, bool w, const char* what) {
	Gran* g = gran(g8, true); if (!g) return; n_accesses++;
	uintptr_t a = g8 * 8 + __builtin_ctz(mask);
	if (g->freed) fail(fmt("thread %d accesses freed memory at %p", cur, (void*)a));
	Fiber& f = F[cur]; int same = -1, dead = -1;
	for (int i = 0; i < g->n; i++) {
		Cell& c = g->c[i];
		bool ordered = c.tid == cur || c.clk <= f.vc.c[c.tid];
		if (!ordered && (c.mask & mask) && (c.write || w)) report_race(a, w, c, what);
		if (c.tid == cur && c.mask == mask && (c.write <= (uint8_t)w)) same = i;
		else if (ordered && (c.mask & ~mask) == 0 && (w || (c.tid == cur && !c.write))) dead = i;
	}
	if (same >= 0) { g->c[same] = Cell{ f.vc.c[cur], (uint8_t)cur, mask, (uint8_t)w }; return; }
	if (dead >= 0) { g->c[dead] = Cell{ f.vc.c[cur], (uint8_t)cur, mask, (uint8_t)w }; return; }
	if (g->n < 6) { g->c[g->n++] = Cell{ f.vc.c[cur], (uint8_t)cur, mask, (uint8_t)w }; return; }
	for (int i = 0; i < 6; i++) if (!g->c[i].write) { g->c[i] = Cell{ f.vc.c[cur], (uint8_t)cur, mask, (uint8_t)w }; return; }
	g->c[f.vc.c[cur] % 6] = Cell{ f.vc.c[cur], (uint8_t)cur, mask, (uint8_t)w };
}
static inline void acc(const void* p, size_t n, bool w, const char* what = "access") {
	if (!observing() || !O.races) return;
	uintptr_t a = (uintptr_t)p, e = a + n;
	for (uintptr_t g = a >> 3; g * 8 < e; g++) { uintptr_t lo = std::max(a, g * 8), hi = std::min(e, g * 8 + 8); access1(g, (uint8_t)(((1u << (hi - lo)) - 1) << (lo - g * 8)), w, what); }
}
static void mem_new(void* p, size_t n) { if (!active || !p) return; for (uintptr_t g = (uintptr_t)p >> 3; g * 8 < (uintptr_t)p + n; g++) if (Gran* x = gran(g, false)) { x->n = 0; x->freed = false; } }
static void mem_free(void* p) {
	if (!active || !p || !O.races) return; size_t n = malloc_usable_size(p); bool obs = observing();
	for (uintptr_t g = (uintptr_t)p >> 3; g * 8 < (uintptr_t)p + n; g++) { if (Gran* x = gran(g, false)) {
		if (obs && cur >= 0) for (int i = 0; i < x->n; i++) { Cell& c = x->c[i]; if (c.tid != cur && c.clk > F[cur].vc.c[c.tid]) report_race(g * 8, true, c, "free"); }
		x->n = 0; if (obs) x->freed = true; } }
}
// ---- synchronisation clocks
static Mutex& mutex_of(const void* m) { quiet q; return mtx[(uintptr_t)m]; }
static void acquire(uintptr_t a) { quiet q; auto i = sync_vc.find(a); if (i != sync_vc.end()) F[cur].vc.join(i->second); }
static void release(uintptr_t a) { quiet q; sync_vc[a].join(F[cur].vc); F[cur].vc.c[cur]++; }

// ---- scheduler
static void entry() {
	Fiber& f = F[cur]; f.ret = f.fn(f.arg);
	{ quiet q; Fiber& g = F[cur]; g.w = DONE; g.pred = nullptr; }
	point("exit"); abort();
}
static void* eh_globals() { return (void*)abi::__cxa_get_globals(); }
static void switch_to(int t) {
	if (t == cur) return;
	int o = cur; memcpy(F[o].eh, eh_globals(), 16); memcpy(eh_globals(), F[t].eh, 16); cur = t; 
	swapcontext(&F[o].ctx, &F[t].ctx);
}
static bool ready(Fiber& f) { switch (f.w) { case RUN: return true; case PRED: return f.pred(); case COND: return f.signaled; default: return false; } }
static std::string states() { std::string s; static const char* N[] = { "runnable", "blocked on", "waiting for", "sleeping", "done", "ended" }; for (int i = 0; i < nf; i++) s += fmt("%sthread %d %s %s", i ? ", " : "", i, N[F[i].w], F[i].w == PRED || F[i].w == COND ? F[i].what : ""); return s; }
static void diverged(int me, int n) { fprintf(stderr, "sched: the execution is not deterministic at %llu: thread %d at %s with %d choices, before thread %d at %s with %d choices\n", (unsigned long long)pos, me, F[me].what, n, expected[pos].tid, expected[pos].what, expected[pos].n);
	for (size_t i = 0; i < pos; i++) fprintf(stderr, "%zu: %d %s %d/%d | %d %s %d/%d\n", i, trace[i].tid, trace[i].what, trace[i].chosen, trace[i].n, expected[i].tid, expected[i].what, expected[i].chosen, expected[i].n);
	_exit(99); }
// The current fiber has set its wait state; picks who runs next.
static void schedule() {
	if (++steps > O.max_steps) fail(fmt("the execution does not end (%llu steps): %s", (unsigned long long)O.max_steps, states().c_str()));
	F[cur].quiet++; int me = cur;
	int alt[MAXT + 2]; uint8_t cost[MAXT + 2]; bool tmo[MAXT + 2]; int n = 0; bool rdy[MAXT];
	for (int i = 0; i < nf; i++) rdy[i] = ready(F[i]);
	auto put = [&](int t, int c, bool to) { alt[n] = t; cost[n] = c; tmo[n] = to; n++; };
	bool cont = rdy[cur] && !F[cur].yielded;
	if (cont) put(cur, 0, false);
	for (int i = 0; i < nf; i++) if (rdy[i] && i != cur && n < MAXT) put(i, cont ? 1 : 0, false);
	if (rdy[cur] && !cont) put(cur, n ? 1 : 0, false);
	F[cur].yielded = false;
	int e = -1; for (int i = 0; i < nf; i++) if (!rdy[i] && F[i].timed && (F[i].w == SLEEP || F[i].w == COND || F[i].w == PRED) && (e < 0 || F[i].deadline < F[e].deadline)) e = i;
	bool none = n == 0;
	if (none && e >= 0) put(e, 0, true);
	if (none && e < 0) for (int i = 0; i < nf; i++) if (F[i].w == QUIESCENT) { put(i, 0, false); break; }
	if (O.early) for (int i = 0; i < nf && n < MAXT; i++) if (!rdy[i] && F[i].timed && F[i].w != DONE && F[i].w != RUN && !(none && i == e)) put(i, 1, true);
	if (O.spurious) for (int i = 0; i < nf && n < MAXT; i++) if (!rdy[i] && F[i].w == COND && !F[i].timed) { put(i, 1, false); }
	if (n == 0) fail("deadlock: " + states());
	int k = 0;
	if (n > 1 && !steady) {
		if (pos < expected.size() && pos < prefix.size() && (expected[pos].n != n || expected[pos].tid != me)) diverged(me, n);
		if (pos < prefix.size()) { k = prefix[pos]; if (k >= n) { fprintf(stderr, "sched: schedule does not apply at %llu\n", (unsigned long long)pos); _exit(99); } }
		StepRec r; r.n = n; r.chosen = k; r.tid = me; r.what = F[me].what; memcpy(r.cost, cost, n); trace.push_back(r); pos++; n_points++;
	}
	int t = alt[k]; Fiber& f = F[t];
	if (tmo[k]) { f.timed_out = true; if (f.deadline > vt) vt = f.deadline; }
	f.timed = false; if (f.w != DONE) f.w = RUN; f.pred = nullptr; f.signaled = false;
	switch_to(t);
	mc::tick(); F[me].quiet--;
}
static bool can() { return active && cur >= 0 && F[cur].quiet == 0 && !mc::in_signal; }
void point(const char* what) { if (!active || cur < 0 || mc::in_signal) return; if (F[cur].w == DONE) { schedule(); return; } if (!can()) return; F[cur].what = what; schedule(); }
void block_until(const std::function<bool()>& p, const char* what) { quiet q; F[cur].w = PRED; F[cur].pred = p; F[cur].what = what; F[cur].timed = false; schedule(); }
bool block_until_for(const std::function<bool()>& p, uint64_t ns, const char* what) { quiet q; Fiber& f = F[cur]; f.w = PRED; f.pred = p; f.what = what; f.timed = true; f.timed_out = false; f.deadline = vt + ns; schedule(); return !F[cur].timed_out; }
void wait_quiescent() { F[cur].w = QUIESCENT; schedule(); }
static void sleep_ns(uint64_t ns) { if (!can()) return; Fiber& f = F[cur]; f.w = SLEEP; f.timed = true; f.timed_out = false; f.deadline = vt + ns; f.what = "sleep"; schedule(); }

static const std::function<void()>* body; static bool finished;
static void* main_fn(void*) { (*body)(); return nullptr; }
static void main_entry() { main_fn(nullptr); active = false; finished = true; memset(eh_globals(), 0, 16); setcontext(&host); }
static char* stack_of(int i) { while ((int)stacks.size() <= i) { char* p = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(p, 4096, PROT_NONE); stacks.push_back(p); } return stacks[i]; }
static void init_fiber(int i, void (*e)()) { Fiber& f = F[i]; f = Fiber(); f.stack = stack_of(i); getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr; makecontext(&f.ctx, e, 0); f.vc.c[i] = 1; }
static void execute(const Scenario& s) {
	if (prefix.empty()) expected.clear();
	__libc_single_threaded = 0; serial++; O = s.opt; trace.clear(); pos = steps = 0; vt = 1000000000ull; nf = 1; fail_create = steady = 0; sync_vc.clear(); mtx.clear(); onces.clear(); body = &s.body; finished = false;
	init_fiber(0, main_entry); cur = 0; char eh[16]; memcpy(eh, eh_globals(), 16); memset(eh_globals(), 0, 16); active = true;
	swapcontext(&host, &F[0].ctx);
	active = false; cur = -1; memcpy(eh_globals(), eh, 16);
	for (int i = 0; i < nf; i++) F[i].pred = nullptr;
	mc::count(mc::SCHED); mc::count(mc::TRACES); mc::count(mc::EVAL); mc::count(mc::TRANS, steps);
	if (!finished) { fprintf(stderr, "sched: not finished\n"); _exit(99); }
}
static std::string case_of(const Scenario& s) { std::string r = s.name + "|"; for (size_t i = 0; i < prefix.size(); i++) if (prefix[i]) r += fmt("%s%zu=%d", r.back() == '|' ? "" : ",", i, prefix[i]); return r; }
// Static objects are initialised by the first execution in a process: every process first runs the default schedule of every scenario.
std::vector<Scenario>* all_scenarios = nullptr;
static void warm() { static bool done = false; if (done || !all_scenarios) return; done = true; for (auto& s : *all_scenarios) { prefix.clear(); mc::set_case(case_of(s)); execute(s); } }
void replay(const Scenario& s, const std::string& d) {
	warm(); prefix.clear(); size_t p = 0; while (p < d.size()) { size_t q = d.find(',', p); if (q == std::string::npos) q = d.size(); size_t i; int c; if (sscanf(d.c_str() + p, "%zu=%d", &i, &c) == 2) { if (prefix.size() <= i) prefix.resize(i + 1, 0); prefix[i] = c; } p = q + 1; }
	mc::set_case(case_of(s)); execute(s);
}
static void run(const Scenario& s) { mc::set_case(case_of(s)); execute(s); std::string t; uint64_t h = mc::hash_str(s.name); for (auto& r : trace) h = h * 31 + r.chosen; mc::outcome(h); }
bool explore(const Scenario& s, uint64_t first) {
	warm(); prefix.clear();
	if (first == 0) { run(s); mc::count(mc::STATES, trace.size()); mc::sample(s.name + fmt(": %zu scheduling choices on the default schedule", trace.size())); return true; }
	uint64_t i = first - 1; static std::unordered_map<std::string, std::vector<StepRec>> known;
	auto it = known.find(s.name); if (it == known.end()) { prefix.clear(); mc::set_case(case_of(s)); execute(s); it = known.emplace(s.name, trace).first; }
	const std::vector<StepRec>& known_trace = it->second;
	if (i >= known_trace.size()) return false;
	for (int c = 1; c < known_trace[i].n; c++) {
		if (known_trace[i].cost[c] > s.opt.bound) continue;
		std::vector<uint8_t> pf(i + 1, 0); pf[i] = c; prefix = pf; expected.assign(known_trace.begin(), known_trace.begin() + i + 1);
		for (;;) {
			run(s); mc::count(mc::STATES, trace.size() - std::min<size_t>(trace.size(), pf.size()));
			if (g_deadline > 0 && mc::elapsed() > g_deadline) { g_cut = true; mc::G.next[1].store(1); return true; }
			std::vector<StepRec> t = trace; int64_t p = (int64_t)t.size() - 1; std::vector<int> used(t.size() + 1, 0);
			for (size_t k = 0; k < t.size(); k++) used[k + 1] = used[k] + t[k].cost[t[k].chosen];
			for (; p > (int64_t)i; p--) { int nx = t[p].chosen + 1; while (nx < t[p].n && used[p] + t[p].cost[nx] > s.opt.bound) nx++; if (nx < t[p].n) { pf.resize(p + 1); for (int64_t k = 0; k < p; k++) pf[k] = t[k].chosen; pf[p] = nx; break; } }
			if (p <= (int64_t)i) break;
			prefix = pf; expected = t; expected.resize(p + 1);
		}
	}
	return true;
}
} // namespace sched
using namespace sched;

// ---- interposed functions
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); mem_new(p, n); return p; }
void free(void* p) { mem_free(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); mem_new(p, a * b); return p; }
void* realloc(void* o, size_t n) { if (o) mem_free(o); void* p = __libc_realloc(o, n); mem_new(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); mem_new(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	if (!active) return EAGAIN; point("create");
	if (fail_create > 0 && --fail_create == 0) { mc::count(mc::FAULTS); return EAGAIN; }
	quiet q; if (nf >= MAXT) { fprintf(stderr, "sched: too many threads\n"); _exit(99); }
	int i = nf; init_fiber(i, entry); F[i].fn = fn; F[i].arg = arg; F[i].vc.join(F[cur].vc); F[i].vc.c[i]++; F[cur].vc.c[cur]++; nf++;
	*t = (pthread_t)(0x1000 + i); return 0;
}
pthread_t pthread_self(void) { return active && cur > 0 ? (pthread_t)(0x1000 + cur) : (pthread_t)0x1000; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_join(pthread_t t, void** r) { int i = (int)((uintptr_t)t - 0x1000); if (!active || i < 0 || i >= nf) return ESRCH; block_until([i] { return F[i].w == DONE; }, "join"); F[cur].vc.join(F[i].vc); if (r) *r = F[i].ret; return 0; }
int pthread_detach(pthread_t t) { int i = (int)((uintptr_t)t - 0x1000); if (i >= 0 && i < nf) F[i].detached = true; return 0; }
int sched_yield(void) { if (can()) { F[cur].yielded = true; schedule(); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!can()) return 0; point("lock"); Mutex& x = mutex_of(m);
	bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; if (x.owner == cur && rec) { x.depth++; return 0; }
	if (x.owner >= 0) { uintptr_t a = (uintptr_t)m; block_until([a] { return mtx[a].owner < 0; }, "a mutex"); }
	Mutex& y = mutex_of(m); y.owner = cur; y.depth = 1; F[cur].vc.join(y.vc); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!can()) return 0; point("trylock"); Mutex& x = mutex_of(m); if (x.owner >= 0) return EBUSY; x.owner = cur; x.depth = 1; F[cur].vc.join(x.vc); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
static void unlock_now(pthread_mutex_t* m) { Mutex& x = mutex_of(m); if (x.owner != cur) fail(fmt("thread %d unlocks a mutex it does not hold", cur)); if (--x.depth > 0) return; x.owner = -1; x.vc.join(F[cur].vc); F[cur].vc.c[cur]++; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!can()) return 0; unlock_now(m); point("unlock"); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) m->__data.__kind = ((int*)a)[0] & 3; if (active) { quiet q; mtx.erase((uintptr_t)m); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (active && can()) { quiet q; auto i = mtx.find((uintptr_t)m); if (i != mtx.end()) { if (i->second.owner >= 0) fail("a locked mutex is destroyed"); mtx.erase(i); } } return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline) {
	if (!can()) return 0; point("cond wait");
	unlock_now(m); Fiber& f = F[cur]; f.w = COND; f.cond = c; f.what = "a condition variable"; f.timed = timed; f.timed_out = false; f.signaled = false; f.deadline = deadline;
	schedule(); bool to = F[cur].timed_out; F[cur].cond = nullptr;
	Mutex& x = mutex_of(m); if (x.owner >= 0) { uintptr_t a = (uintptr_t)m; block_until([a] { return mtx[a].owner < 0; }, "a mutex"); }
	Mutex& y = mutex_of(m); y.owner = cur; y.depth = 1; F[cur].vc.join(y.vc); return to ? ETIMEDOUT : 0;
}
static uint64_t ns(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, true, ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cond_wait(c, m, true, ns(t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!can()) return 0; point("signal"); for (int i = 0; i < nf; i++) if (F[i].w == COND && F[i].cond == c && !F[i].signaled) { F[i].signaled = true; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!can()) return 0; point("broadcast"); for (int i = 0; i < nf; i++) if (F[i].w == COND && F[i].cond == c) F[i].signaled = true; return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (active && can()) for (int i = 0; i < nf; i++) if (F[i].w == COND && F[i].cond == c && !F[i].signaled) fail("a condition variable is destroyed while a thread waits for it"); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
	if (!active) { if (*o == 0) { *o = 2; f(); } return 0; }
	if (*o == 2) { acquire((uintptr_t)o); return 0; }
	if (*o == 1) { block_until([o] { return *o != 1; }, "once"); if (*o == 2) { acquire((uintptr_t)o); return 0; } }
	*o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; release((uintptr_t)o); point("once"); return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) { if (!active) return syscall(SYS_nanosleep, t, nullptr); sleep_ns(ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) { if (!active) return syscall(SYS_clock_nanosleep, c, fl, t, r); uint64_t d = ns(t); sleep_ns(fl ? (d > vt ? d - vt : 0) : d); return 0; }
int usleep(useconds_t u) { if (!active) { timespec t{ (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, nullptr); } sleep_ns(u * 1000ull); return 0; }
unsigned sleep(unsigned s) { if (!active) { timespec t{ (time_t)s, 0 }; syscall(SYS_nanosleep, &t, nullptr); return 0; } sleep_ns(s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) { if (!active) return syscall(SYS_clock_gettime, c, t); t->tv_sec = vt / 1000000000ull; t->tv_nsec = vt % 1000000000ull; return 0; }
int __cxa_guard_acquire(long long int* g) { char* b = (char*)g; if (b[0]) { if (can()) acquire((uintptr_t)g); return 0; } if (!can()) { return 1; } if (b[1]) { block_until([b] { return b[1] == 0; }, "a static initialiser"); if (b[0]) { acquire((uintptr_t)g); return 0; } } b[1] = 1; return 1; }
void __cxa_guard_release(long long int* g) { char* b = (char*)g; b[1] = 0; b[0] = 1; if (can()) { release((uintptr_t)g); point("static initialiser"); } }
void __cxa_guard_abort(long long int* g) { ((char*)g)[1] = 0; }

// ---- entry points of the instrumentation
#define ACC(N) \
void __tsan_read##N(void* p) { acc(p, N, false); } void __tsan_write##N(void* p) { acc(p, N, true); } \
void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } void __tsan_unaligned_write##N(void* p) { acc(p, N, true); } \
void __tsan_read##N##_pc(void* p, void*) { acc(p, N, false); } void __tsan_write##N##_pc(void* p, void*) { acc(p, N, true); } \
void __tsan_volatile_read##N(void* p) { acc(p, N, false); } void __tsan_volatile_write##N(void* p) { acc(p, N, true); } \
void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true); } \
void __tsan_read_write##N(void* p) { acc(p, N, false); acc(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false); } void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, true); } void __tsan_vptr_read(void** p) { acc(p, 8, false); }
static inline bool acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline void before(const volatile void* p) { point("atomic"); }
static inline void order(const volatile void* p, int m, bool rd, bool wr) { if (!can()) return; quiet q; if (rd && acq(m)) acquire((uintptr_t)p); if (wr && rel(m)) { if (!rd) { sync_vc[(uintptr_t)p] = VC(); } release((uintptr_t)p); } }
#define ATOM(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int m) { before(p); order(p, m, true, false); return *p; } \
void __tsan_atomic##N##_store(volatile T* p, T v, int m) { before(p); order(p, m, false, true); *p = v; } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int m) { before(p); order(p, m, true, true); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int m, int fm) { before(p); if (*p == *e) { order(p, m, true, true); *p = v; return 1; } order(p, fm, true, false); *e = *p; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int fm) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, m, fm); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int m, int fm) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, m, fm); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point("fence"); if (can()) { quiet q; acquire(1); release(1); } }
void __tsan_atomic_signal_fence(int) {}
}
namespace std {
	struct __atomic_futex_unsigned_base {
		bool _M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n);
		bool _M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n);
		static void _M_futex_notify_all(unsigned*);
	};
	bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
		auto p = [a, v] { return *(volatile unsigned*)a != v; };
		if (!timed) { block_until(p, "a future"); return true; }
		uint64_t d = s.count() * 1000000000ull + n.count(); return block_until_for(p, d > vtime() ? d - vtime() : 0, "a future");
	}
	bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
	void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { point("futex"); }
}
