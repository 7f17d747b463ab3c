// mcsched.h - controlled scheduler: explores the interleavings of the threads of the code under test.
// The code under test is compiled with -fsanitize=thread; sched.cpp provides the __tsan_ entry points (race detection by
// vector clocks) and the pthread functions. Threads are fibers of one real thread; every synchronisation operation is a
// scheduling point. Executions are re-run from a list of deviations from the default schedule.
#pragma once
#include "mc.h"
namespace sched {
struct Options { int bound = 2; bool races = true; bool spurious = false; bool early = true; /* timers may also expire while threads can run */ uint64_t max_steps = 20000; uint64_t max_runs = 0; };
// A scenario is executed by the main thread (thread 0). The execution ends when it returns.
struct Scenario { std::string name; std::function<void()> body; Options opt; };
// Explores every schedule whose first deviation is at position `first` (0: the default schedule only); returns false if there is no such position.
bool explore(const Scenario& s, uint64_t first);
void replay(const Scenario& s, const std::string& deviations);
extern std::vector<Scenario>* all_scenarios; extern double g_deadline; extern bool g_cut;
// to be called by the code of a scenario
void block_until(const std::function<bool()>& pred, const char* what = "condition");
bool block_until_for(const std::function<bool()>& pred, uint64_t ns, const char* what = "condition"); // false: timed out
void wait_quiescent(); // until no other thread can run
void point(const char* what = "point");
int self();
int live_threads();
bool running();
uint64_t vtime(); void advance(uint64_t ns);
extern int steady; // > 0: the default choice is made everywhere (reset by each execution)
extern int fail_create; // the n-th pthread_create from now on fails (0 none)
extern int exempt_threads;
struct quiet { quiet(); ~quiet(); }; // accesses are not observed and no scheduling points occur
[[noreturn]] void fail(const std::string& msg);
extern uint64_t n_points, n_accesses;
}
