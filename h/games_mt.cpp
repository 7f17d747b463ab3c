// X06: the game services of the samples under concurrent requests and engine threads, every schedule up to a preemption bound.
#if SPLIT < 2
#define GAME SPLIT
#include "games_mt.h"
#else
#include "mcsched.h"
#include "games_mt_common.h"
using namespace mc;
static int rcount; void script_rand0() { rcount = 0; }
extern "C" __attribute__((visibility("default"))) int rand() { return 1000 + 7 * rcount++; }
static std::vector<sched::Scenario> SC;
static void scen(const std::string& n, int bound) { sched::Options o; o.bound = bound; o.max_steps = 60000; SC.push_back({ n, [n] { (n[0] == 't' ? mt_t() : mt_c())->scenario(n.substr(2)); }, o }); }
int main(int argc, char** argv) {
	init(argc, argv); g_level = "model_checking"; G.distinct.init(22); bool T = G.thorough; int m = T ? 1 : 0;
	for (std::string g : { "t:", "c:" }) { bool c = g == "c:"; // cells are characters: '0' + row * columns + column
		std::string base = "c00k0k1";
		for (const char* s : { "|c00;c00", "|c00;c00;l0", "c00|k0;k0", "c00|k0;k1", "c00|k0m00;k1m11", "c00|k0;l0;k1", "c00|k0k1;k1k0" }) scen(g + s, 2 + m);
		for (const char* s : { "|m00;m01", "|m00;m00", "|m00;m11", "|m00;l0l0", "|m00m01;m11m12", "|m00;c00", "|m00;k0", "|m00l0;m11l1", "|m00;m11;l0", "|m00m02;m11;l0l1", "|m00;n;l0" }) scen(g + base + s, 2 + m);
		// the last move of the game against everything else; then the game is replaced
		std::string last = c ? std::string("m00m11m07m18m0>m1?") : "m00m13m01m14"; std::string fin = c ? "m0E" : "m02"; for (std::string s : { ";c00", ";l0l0", ";m15", ";c00;l0", ";l4;c00k0", ";c00;c00" }) scen(g + base + last + "|" + fin + s, 2 + m);
		for (std::string s : { "c00k0m00;l0l0", "c00;m05;l0", "c00k0k1m00;c00k0k1m00" }) scen(g + base + last + fin + "|" + s, 2 + m); }
	// engines: from a position near the end for the calculating one
	std::string nearly = "c01k0m00|"; for (const char* s : { "l0;l1", "m08;l0l1", "m04;m08", "m08m04;l2", "c01;m08" }) scen(std::string("t:c01k0m00|") + s, 1 + m);
	for (const char* s : { "c01|k0m00;l0", "c10|k1;l0", "c02|k0m00;l0", "c20|k1;l0", "c20|k1m14;l0l1", "c22|l0;l4", "c02k0m00|m08;l0l1", "|c22;l0", "c20|l0", "|c02k0m00" }) scen(std::string("t:") + s, 1 + m);
	for (const char* s : { "c02|k0m00;l0", "c20|k1;l0", "c02k0m00|m08;l0l1" }) scen(std::string("c:") + s, 1 + m);
	if (T) scen("t:c22|c22;l0", 1);
	if (const char* o = getenv("MC_ONLY")) { std::vector<sched::Scenario> k; for (auto& s : SC) if (s.name == o) k.push_back(s); SC = k; }
	sched::all_scenarios = &SC;
	G.run_case = [](const std::string& c) { size_t p = c.rfind('|'); std::string n = c.substr(0, p); for (auto& s : SC) if (s.name == n) { sched::replay(s, c.substr(p + 1)); return; } };
	maybe_replay();
	g_rule = "every schedule with up to the stated number of preemptions of each scenario is executed on the real services; the responses must correspond to one order of the requests; data races are found by happens-before on every execution";
	if (T) sched::g_deadline = 780;
	cover("scenarios", (uint64_t)SC.size()); std::string names; for (size_t i = 0; i < SC.size() && names.size() < 2000; i++) names += (names.empty() ? "" : "  ") + SC[i].name; cover("scenario_names", names); cover("preemptions", T ? "3 (2 with engines)" : "2 (1 with engines)");
	const uint64_t M = 2000; run_tasks(SC.size() * M, [&](uint64_t i) { sched::explore(SC[i % SC.size()], i / SC.size()); }, T ? 780 : 0);
	done();
}
#endif
