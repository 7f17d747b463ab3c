// The log that the code under test is given. Normally none. Property X03 compiles the harnesses with -DX03: the same executions are
// then run without a log, with a log that accepts everything, one that filters everything, and ones whose destination is broken;
// a case whose verdict depends on that is a violation of X03.
#pragma once
#include "mc.h"
#include <streambuf>
#include "log.h"
using XLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;
#ifdef X03
struct XSink : std::streambuf { int how; unsigned long n = 0; explicit XSink(int h) : how(h) {}
	int_type overflow(int_type c) override { return put(c); } std::streamsize xsputn(const char* s, std::streamsize k) override { std::streamsize i = 0; while (i < k && put((unsigned char)s[i]) != traits_type::eof()) i++; return i; }
	int sync() override { return how == 1 ? 0 : -1; }
	int_type put(int_type c) { if (how == 1) { n += (unsigned long)c; return traits_type::not_eof(c); } if (how == 3) return traits_type::eof(); throw std::runtime_error("the log is broken"); } };
inline XLog* xlog_make(int mode) { switch (mode) { case 0: return nullptr; case 2: return new XLog(new XSink(1), new abc::log_filter(abc::severity::critical - 1)); case 5: return new XLog(nullptr, nullptr); default: return new XLog(new XSink(mode), nullptr); } }
// modes: 0 no log, 1 everything is logged, 2 everything is filtered, 3 the destination fails, 4 the destination throws, 5 no destination
inline XLog* xlog() { static XLog* l[6] = { nullptr, xlog_make(1), xlog_make(2), xlog_make(3), xlog_make(4), xlog_make(5) }; return l[mc::xmode]; }
#else
inline XLog* xlog() { return nullptr; } // of a type that cannot be used
#endif
