// A log that reads every byte it is given and formats every message, so that AddressSanitizer sees what logging touches.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include "xlog.h"
#ifdef X03
using TLog = XLog;
#else
struct TLog {
	volatile char mark = 0; void used() noexcept { mark = mark; } // so that the use of a missing log is noticed
	void put_any(abc::category_t, abc::severity_t, abc::tag_t, const char* format, ...) noexcept { used(); (void)format; }
	void put_anyv(abc::category_t, abc::severity_t, abc::tag_t, const char*, va_list) noexcept { used(); }
	void put_binary(abc::category_t, abc::severity_t, abc::tag_t, const void* b, std::size_t n) noexcept { used(); static volatile unsigned x; for (std::size_t i = 0; i < n; i++) x += static_cast<const unsigned char*>(b)[i]; }
	void put_blank_line(abc::category_t = 0, abc::severity_t = 0) noexcept { used(); }
	void* filter() noexcept { used(); return nullptr; }
};
#endif
