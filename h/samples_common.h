// Shared parts of the checks of the samples: threads that run when the check says so, one request at a time over memory, responses.
#pragma once
#include "mc.h"
#include "resp.h"
#include "jref.h"
#include "endpoint.h"
#include "xlog.h"
#ifdef X03
#define SLOG xlog()
#else
#define SLOG nullptr
#endif
#include <streambuf>
#include <map>
#include <set>
using namespace mc;
struct MemBuf : std::streambuf { // a connection: everything readable, everything written kept
	std::string in, out; MemBuf(const std::string& i) : in(i) { setg(&in[0], &in[0], &in[0] + in.size()); }
	int_type overflow(int_type c) override { if (c != traits_type::eof()) out += (char)c; return 0; }
	std::streamsize xsputn(const char* p, std::streamsize n) override { out.append(p, n); return n; }
};
// threads started by the code under test wait until settle() or until they are joined
void defer_threads(bool on); size_t settle(size_t max = 1000); size_t pending_threads();
void script_rand(const std::vector<int>& v); extern long rand_calls; // std::rand(): the script first, then a counter
struct GameApi { void (*run_case)(const std::string&); void (*board)(); void (*engines)(); void (*service)(); };
GameApi* game_t(); GameApi* game_c();
template <class E> std::string serve(E& e, const std::string& req) { // what endpoint::process_request() does around process_rest_request()
	MemBuf sb(req); auto r = e.one(&sb); (void)r; return sb.out;
}
inline std::vector<std::string> splitc(const std::string& s, char d) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find(d, p); v.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } return v; }
struct Answer { int status; std::string body; std::vector<Tok> t; };
inline Answer answer(const std::string& out, const std::string& what) {
	MC_CHECK(!out.empty(), "no response to %s", show(what).c_str());
	Resp r = resp(out); MC_CHECK(r.ok, "the response to %s is not one well-formed response (%s): %s", show(what).c_str(), r.why.c_str(), show(out).substr(0, 400).c_str());
	Answer a; a.status = atoi(r.status.c_str()); a.body = r.body;
	if (a.status == 200 && r.type == "application/json") { Ref j = ref(r.body, 64); MC_CHECK(j.done && !j.error && j.tolerated == ~size_t(0), "the body of the response to %s is not a JSON document: %s", show(what).c_str(), show(r.body).c_str()); a.t = j.toks; }
	return a;
}
// every body obtained from the given one by one edit
inline std::vector<std::string> edits(const std::string& b, const std::string& alphabet) {
	std::vector<std::string> v = { b }; for (size_t i = 0; i <= b.size(); i++) { v.push_back(b.substr(0, i)); if (i < b.size()) v.push_back(b.substr(0, i) + b.substr(i + 1)); for (char c : alphabet) { v.push_back(b.substr(0, i) + c + b.substr(i)); if (i < b.size()) v.push_back(b.substr(0, i) + c + b.substr(i + 1)); } } return v;
}
