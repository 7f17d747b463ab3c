// An independent JSON parser that yields the token sequence the reader has to deliver.
#pragma once
#include "json.h"
#include <cstring>
#include <string>
#include <vector>
namespace it = abc::json::item;
// ---------------------------------------------------------------- reference parser
struct Tok { abc::json::item_t item; std::string text; double num; bool b; size_t begin, end; bool operator==(const Tok& o) const { return item == o.item && text == o.text && num == o.num && b == o.b; } };
struct Ref {
	std::vector<Tok> toks; bool error = false;   // error: the token after toks is wrong (or missing)
	size_t tolerated = ~size_t(0);               // index of the first token that only a tolerant reader accepts (nothing is required from there on)
	size_t maxdepth = 0; bool done = false;
};
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static int hx(char c) { return dg(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool ref_string(const std::string& s, size_t& i, std::string& out, bool& tol) { // at the opening quote
	if (i >= s.size() || s[i] != '"') return false; i++;
	for (;;) { if (i >= s.size()) return false; unsigned char c = s[i];
		if (c == '"') { i++; return true; }
		if (c == '\\') { if (i + 1 >= s.size()) return false; char e = s[i + 1]; i += 2; switch (e) { case '"': case '\\': case '/': out += e; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
			case 'u': { if (i + 4 > s.size()) return false; int v = 0; for (int k = 0; k < 4; k++) { int h = hx(s[i + k]); if (h < 0) return false; v = v * 16 + h; } i += 4; if (v > 255) return false; /* one byte per char: wide chars are reported */ out += (char)v; break; } default: return false; } continue; }
		if (c < 0x20) tol = true; out += (char)c; i++; }
}
static bool ref_number(const std::string& s, size_t& i, double& v, bool& tol) {
	size_t b = i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { if (s[i] == '+') tol = true; i++; }
	size_t d = i; while (i < s.size() && dg(s[i])) i++; if (i == d) return false; if (s[d] == '0' && i - d > 1) tol = true;
	if (i < s.size() && s[i] == '.') { i++; d = i; while (i < s.size() && dg(s[i])) i++; if (i == d) return false; }
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; d = i; while (i < s.size() && dg(s[i])) i++; if (i == d) return false; }
	if (i - b > 25) return false; // longer numbers are reported as not fitting
	v = strtod(s.substr(b, i - b).c_str(), nullptr); return true;
}
// the token sequence; nesting deeper than maxlevels is an error. Several values in a row at the top are the caller's business: parsing continues.
static Ref ref(const std::string& s, size_t maxlevels) {
	Ref r; std::vector<char> st; size_t i = 0; enum { VAL, VAL_OR_END, NAME_OR_END, NAME, AFTER } want = VAL; bool any = false;
	auto tol = [&](size_t k) { if (r.tolerated == ~size_t(0)) r.tolerated = k; };
	for (;;) {
		while (i < s.size() && sp(s[i])) i++;
		if (want == AFTER) { // inside a container
			if (i >= s.size()) { r.error = true; return r; }
			if (s[i] == ',') { i++; want = st.back() == '[' ? VAL : NAME; while (i < s.size() && sp(s[i])) i++; if (i < s.size() && s[i] == (st.back() == '[' ? ']' : '}')) { tol(r.toks.size()); } else continue; }
			if (i < s.size() && s[i] == (st.back() == '[' ? ']' : '}')) { Tok t{ (abc::json::item_t)(st.back() == '[' ? it::end_array : it::end_object), "", 0, false, i, i + 1 }; i++; st.pop_back(); r.toks.push_back(t); want = st.empty() ? VAL : AFTER; any = true; continue; }
			r.error = true; return r;
		}
		if (i >= s.size()) { if (st.empty() && any) { r.done = true; return r; } r.error = true; return r; }
		char c = s[i]; bool tl = false; Tok t{ 0, "", 0, false, i, i };
		if (st.empty() && any) { tol(r.toks.size()); }
		if (want == NAME || want == NAME_OR_END) {
			if (want == NAME_OR_END && c == '}') { t.item = it::end_object; t.end = ++i; st.pop_back(); r.toks.push_back(t); want = st.empty() ? VAL : AFTER; any = true; continue; }
			if (!ref_string(s, i, t.text, tl)) { r.error = true; return r; } while (i < s.size() && sp(s[i])) i++; if (i >= s.size() || s[i] != ':') { r.error = true; return r; } i++; t.item = it::property; t.end = i; if (tl) tol(r.toks.size()); r.toks.push_back(t); want = VAL; continue; }
		if (c == ']' && want == VAL_OR_END) { t.item = it::end_array; t.end = ++i; st.pop_back(); r.toks.push_back(t); want = st.empty() ? VAL : AFTER; any = true; continue; }
		if (c == '[' || c == '{') { if (st.size() + 1 > maxlevels) { r.error = true; return r; } st.push_back(c); r.maxdepth = std::max(r.maxdepth, st.size()); t.item = c == '[' ? it::begin_array : it::begin_object; t.end = ++i; r.toks.push_back(t); want = c == '[' ? VAL_OR_END : NAME_OR_END; continue; }
		auto lit = [&](const char* l) { size_t n = strlen(l); if (s.compare(i, n, l) == 0) { i += n; return true; } return false; };
		if (c == '"') { t.item = it::string; if (!ref_string(s, i, t.text, tl)) { r.error = true; return r; } }
		else if (c == '-' || c == '+' || dg(c)) { t.item = it::number; if (!ref_number(s, i, t.num, tl)) { r.error = true; return r; } }
		else if (lit("null")) t.item = it::null; else if (lit("true")) { t.item = it::boolean; t.b = true; } else if (lit("false")) t.item = it::boolean; else { r.error = true; return r; }
		t.end = i; if (tl) tol(r.toks.size()); r.toks.push_back(t); any = true; want = st.empty() ? VAL : AFTER;
	}
}
static bool may_skip_at(const Ref& r, size_t k) { // may a value start at token k?
	auto t = r.toks[k].item; return t != it::property && t != it::end_array && t != it::end_object; }
static size_t value_end(const Ref& r, size_t k) { int d = 0; for (; k < r.toks.size(); k++) { auto t = r.toks[k].item; if (t == it::begin_array || t == it::begin_object) d++; if (t == it::end_array || t == it::end_object) d--; if (d == 0) return k + 1; } return ~size_t(0); }
