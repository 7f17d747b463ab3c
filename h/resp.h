// An independent parser of HTTP responses.
#pragma once
#include <string>
#include "mc.h"
using mc::fmt;
struct Resp { bool ok = false; std::string why, status, type, body; bool has_type = false; long len = -1; std::string conn; };
static Resp resp(const std::string& o) {
	Resp r; size_t p = o.find("\r\n"); if (p == std::string::npos) { r.why = "no status line"; return r; }
	std::string l = o.substr(0, p); if (l.compare(0, 9, "HTTP/1.1 ") || l.size() < 13 || l[12] != ' ' || !isdigit(l[9]) || !isdigit(l[10]) || !isdigit(l[11])) { r.why = "bad status line"; return r; }
	r.status = l.substr(9, 3); p += 2; int lens = 0, types = 0, conns = 0;
	for (;;) {
		size_t q = o.find("\r\n", p); if (q == std::string::npos) { r.why = "headers not ended"; return r; }
		std::string h = o.substr(p, q - p); p = q + 2; if (h.empty()) break;
		size_t x = h.find(':'); if (x == std::string::npos) { r.why = "bad header"; return r; }
		std::string n = h.substr(0, x), v = h.substr(x + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1);
		for (auto& ch : n) ch = tolower(ch);
		if (n == "content-length") { lens++; char* e; r.len = strtol(v.c_str(), &e, 10); if (v.empty() || *e) { r.why = "bad length"; return r; } } else if (n == "content-type") { types++; r.type = v; r.has_type = true; } else if (n == "connection") { conns++; r.conn = v; }
	}
	r.body = o.substr(p);
	if (lens != 1 || types > 1 || conns > 1) { r.why = "repeated or missing header"; return r; }
	if (r.len != (long)r.body.size()) { r.why = fmt("announced length %ld, body of %zu bytes", r.len, r.body.size()); return r; }
	r.ok = true; return r;
}
