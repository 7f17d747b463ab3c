#pragma once
#include "mc.h"
#include "fakefs.h"
#include "vmem.h"
#include "log.h"
#include "xlog.h"
using Log = XLog;
#define NOLOG (xlog())

template <std::size_t N> struct Item {
	static constexpr uint32_t MAGIC = 0xA11CE5E7u;
	uint32_t magic; uint32_t id; unsigned char pad[N - 12]; uint32_t id2;
	static Item make(uint32_t id) { Item x; x.magic = MAGIC; x.id = id; memset(x.pad, (unsigned char)(id * 37 + 11), sizeof x.pad); x.id2 = ~id; return x; }
	bool ok() const { if (magic != MAGIC || id2 != ~id) return false; unsigned char c = (unsigned char)(id * 37 + 11); return pad[0] == c && pad[sizeof(pad) / 2] == c && pad[sizeof(pad) - 1] == c; }
};
#pragma pack(push, 1)
template <std::size_t N> struct PItem : Item<N> {};
#pragma pack(pop)

// hash of the file with item ids masked (containers are generic in the item value)
inline uint64_t masked_hash(std::string& s) {
	const uint32_t M = 0xA11CE5E7u;
	size_t i = 0;
	while (i + 8 <= s.size()) {
		const void* q = memchr(s.data() + i, (int)(M & 0xff), s.size() - i - 7);
		if (!q) break;
		size_t k = (const char*)q - s.data(); uint32_t v; memcpy(&v, s.data() + k, 4);
		if (v == M) { uint32_t id; memcpy(&id, s.data() + k + 4, 4); memset(&s[k + 4], 0, 4); unsigned char c = (unsigned char)(id * 37 + 11);
			size_t j = k + 8; while (j < s.size() && (unsigned char)s[j] == c) { s[j] = 0; j++; }
			uint32_t id2 = ~id; if (j + 4 <= s.size() && memcmp(&s[j], &id2, 4) == 0) memset(&s[j], 0, 4);
			i = j; }
		else i = k + 1;
	}
	return mc::hash_bytes(s.data(), s.size());
}
