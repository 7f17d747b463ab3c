// fakefs.h - in-memory stand-in for the few system calls of the page pool, bound with -Wl,--wrap.
// A file is one memfd mapped at several alias addresses; every mmap() hands out the next alias of the page, and
// memory that is not currently mapped by the code under test is ASan-poisoned, so any use of a stale page address
// is caught.  Every call can be made to fail.
#pragma once
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <cstdarg>
#include <string>
#include <vector>
#include <cstring>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define FFS_POISON(p, n) __asan_poison_memory_region(p, n)
#define FFS_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define FFS_POISON(p, n) (void)0
#define FFS_UNPOISON(p, n) (void)0
#endif

extern "C" {
	int __real_open64(const char*, int, ...); int __real_close(int);
	ssize_t __real_write(int, const void*, size_t); ssize_t __real_read(int, void*, size_t);
	int __real_ftruncate64(int, off64_t); void* __real_mmap64(void*, size_t, int, int, int, off64_t); int __real_munmap(void*, size_t);
	off64_t __real_lseek64(int, off64_t, int); int __real_fstat64(int, struct stat64*); int __real_fsync(int); int __real_msync(void*, size_t, int);
}

namespace fk {
constexpr size_t PG = 4096, MAXP = 2048, NALIAS = 3;
constexpr int FD0 = 700;
struct File { bool exists = false; size_t size = 0; char* alias[NALIAS] = {}; uint8_t refs[NALIAS][MAXP]; };
struct FS {
	File f[2];                    // two files: "ffs:0", "ffs:1"
	int fdfile[16]; off64_t fdpos[16];
	unsigned rot = 0;
	// accounting
	int open_fds = 0; int live_maps = 0; int max_live = 0;
	long calls = 0; long fail_at = -1; int fail_mode = 0; // 0 = error return, 1 = short write
	bool failed = false; const char* failed_call = ""; long spy_at = -1; const char* spy_call = ""; std::vector<const char*>* names = nullptr;
	bool misuse = false; std::string misuse_what;
	bool torn = false;            // a mapping beyond the end of the file was handed out
	bool any_modify = false; bool real = false; // real: calls on real files are passed on
} ;
inline FS S;
inline void misuse(const std::string& w) { if (!S.misuse) { S.misuse = true; S.misuse_what = w; } }

inline void init() {
	static bool done = false; if (done) return; done = true;
	for (auto& f : S.f) {
		int fd = memfd_create("ffs", 0);
		if (__real_ftruncate64(fd, MAXP * PG) != 0) abort();
		for (size_t a = 0; a < NALIAS; a++) {
			f.alias[a] = (char*)__real_mmap64(nullptr, MAXP * PG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			memset(f.refs[a], 0, MAXP);
		}
		__real_close(fd);
		for (size_t a = 1; a < NALIAS; a++) FFS_POISON(f.alias[a], MAXP * PG);
		FFS_POISON(f.alias[0], MAXP * PG);
	}
	for (int& x : S.fdfile) x = -1;
}
// forked workers must not share file contents: give this process its own memory
inline void privatize() {
	for (auto& f : S.f) {
		for (size_t a = 0; a < NALIAS; a++) { FFS_UNPOISON(f.alias[a], MAXP * PG); __real_munmap(f.alias[a], MAXP * PG); }
		int fd = memfd_create("ffs", 0);
		if (__real_ftruncate64(fd, MAXP * PG) != 0) abort();
		for (size_t a = 0; a < NALIAS; a++) { f.alias[a] = (char*)__real_mmap64(nullptr, MAXP * PG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); memset(f.refs[a], 0, MAXP); FFS_POISON(f.alias[a], MAXP * PG); }
		__real_close(fd);
		f.size = 0; f.exists = false;
	}
}
#if defined(__SANITIZE_ADDRESS__)
#define FFS_NOASAN __attribute__((no_sanitize("address")))
#else
#define FFS_NOASAN
#endif
FFS_NOASAN inline void raw_copy(char* d, const char* s, size_t n) { // not intercepted, ignores poisoning
	size_t i = 0; for (; i + 8 <= n; i += 8) { *(volatile uint64_t*)(d + i) = *(const volatile uint64_t*)(s + i); } for (; i < n; i++) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
}
FFS_NOASAN inline void raw_zero(char* d, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) *(volatile uint64_t*)(d + i) = 0; }

// Drops all mappings and descriptors, as the end of the process does; the file content stays.
inline void kill_process() {
	for (auto& f : S.f) for (size_t a = 0; a < NALIAS; a++) for (size_t p = 0; p < MAXP; p++) if (f.refs[a][p]) { f.refs[a][p] = 0; FFS_POISON(f.alias[a] + p * PG, PG); }
	for (int& x : S.fdfile) x = -1;
	S.open_fds = 0; S.live_maps = 0; S.misuse = false;
}
inline void reset_counts() { S.max_live = S.live_maps; S.calls = 0; S.fail_at = -1; S.fail_mode = 0; S.failed = false; S.failed_call = ""; }
inline void wipe(int i = 0) { auto& f = S.f[i]; if (f.size) raw_zero(f.alias[0], f.size); f.size = 0; f.exists = false; }
inline std::string content(int i = 0) { auto& f = S.f[i]; std::string s(f.size, 0); raw_copy(&s[0], f.alias[0], f.size); return s; }
inline void set_content(const std::string& s, int i = 0) { auto& f = S.f[i]; if (f.size > s.size()) raw_zero(f.alias[0], f.size); raw_copy(f.alias[0], s.data(), s.size()); f.size = s.size(); f.exists = true; }
inline bool is_mapped(const void* p) { for (auto& f : S.f) for (size_t a = 0; a < NALIAS; a++) { const char* b = f.alias[a]; if ((const char*)p >= b && (const char*)p < b + MAXP * PG) return f.refs[a][((const char*)p - b) / PG] != 0; } return false; }

inline void grow(File& f, size_t n) { // pages mapped beyond the old end become accessible
	for (size_t p = f.size / PG; p * PG < n; p++) for (size_t a = 0; a < NALIAS; a++) if (f.refs[a][p]) FFS_UNPOISON(f.alias[a] + p * PG, PG);
	f.size = n;
}
inline bool should_fail(const char* name) { long k = S.calls++; if (S.names) S.names->push_back(name); if (k == S.spy_at) S.spy_call = name; if (k == S.fail_at) { S.failed = true; S.failed_call = name; return true; } return false; }
} // namespace fk

extern "C" {
static int ffs_open(const char* path, int flags, mode_t) {
	using namespace fk;
	if (should_fail("open")) { errno = EACCES; return -1; }
	int i = path[4] - '0'; File& f = S.f[i];
	if (!f.exists) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } f.exists = true; f.size = 0; }
	if (flags & O_TRUNC) { if (f.size) raw_zero(f.alias[0], f.size); f.size = 0; }
	for (int k = 0; k < 16; k++) if (S.fdfile[k] < 0) { S.fdfile[k] = i; S.fdpos[k] = 0; S.open_fds++; return FD0 + k; }
	errno = EMFILE; return -1;
}
__attribute__((weak)) int __wrap_open64(const char* path, int flags, ...) {
	mode_t mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	if (strncmp(path, "ffs:", 4) == 0) return ffs_open(path, flags, mode);
	return __real_open64(path, flags, mode);
}
__attribute__((weak)) int __wrap_open(const char* path, int flags, ...) {
	mode_t mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	if (strncmp(path, "ffs:", 4) == 0) return ffs_open(path, flags, mode);
	return __real_open64(path, flags, mode);
}
static inline bool ffs_is(int fd) { return fd >= fk::FD0 && fd < fk::FD0 + 16; }
static inline fk::File* ffs_file(int fd) { int k = fk::S.fdfile[fd - fk::FD0]; return k < 0 ? nullptr : &fk::S.f[k]; }
__attribute__((weak)) int __wrap_close(int fd) {
	using namespace fk;
	if (!ffs_is(fd)) { if (fd < 0) { misuse("close of a negative descriptor"); errno = EBADF; return -1; } return __real_close(fd); }
	if (!ffs_file(fd)) { misuse("close of a descriptor that is not open"); errno = EBADF; return -1; }
	S.fdfile[fd - FD0] = -1; S.open_fds--;
	if (should_fail("close")) { errno = EIO; return -1; } // the descriptor is closed anyway
	return 0;
}
__attribute__((weak)) off64_t __wrap_lseek64(int fd, off64_t off, int wh) {
	using namespace fk;
	if (!ffs_is(fd)) return __real_lseek64(fd, off, wh);
	File* f = ffs_file(fd); if (!f) { misuse("lseek on closed descriptor"); errno = EBADF; return -1; }
	if (should_fail("lseek")) { errno = EIO; return -1; }
	off64_t& p = S.fdpos[fd - FD0];
	p = wh == SEEK_SET ? off : wh == SEEK_CUR ? p + off : (off64_t)f->size + off;
	return p;
}
__attribute__((weak)) off64_t __wrap_lseek(int fd, off64_t off, int wh) { return __wrap_lseek64(fd, off, wh); }
__attribute__((weak)) ssize_t __wrap_write(int fd, const void* b, size_t n) {
	using namespace fk;
	if (!ffs_is(fd)) return __real_write(fd, b, n);
	File* f = ffs_file(fd); if (!f) { misuse("write on closed descriptor"); errno = EBADF; return -1; }
	off64_t& p = S.fdpos[fd - FD0];
	if (should_fail("write")) { if (S.fail_mode == 0) { errno = ENOSPC; return -1; } n = n / 3; }
	if (p + n > MAXP * PG) { errno = ENOSPC; return -1; }
	raw_copy(f->alias[0] + p, (const char*)b, n); p += n; if ((size_t)p > f->size) grow(*f, p);
	S.any_modify = true;
	return n;
}
__attribute__((weak)) ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t o) { using namespace fk; off64_t s = S.fdpos[fd - FD0]; S.fdpos[fd - FD0] = o; ssize_t r = __wrap_write(fd, b, n); S.fdpos[fd - FD0] = s; return r; }
__attribute__((weak)) ssize_t __wrap_read(int fd, void* b, size_t n) {
	using namespace fk;
	if (!ffs_is(fd)) return __real_read(fd, b, n);
	File* f = ffs_file(fd); if (!f) { misuse("read on closed descriptor"); errno = EBADF; return -1; }
	if (should_fail("read")) { errno = EIO; return -1; }
	off64_t& p = S.fdpos[fd - FD0]; size_t k = p >= (off64_t)f->size ? 0 : std::min(n, f->size - (size_t)p);
	raw_copy((char*)b, f->alias[0] + p, k); p += k; return k;
}
__attribute__((weak)) ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t o) { using namespace fk; off64_t s = S.fdpos[fd - FD0]; S.fdpos[fd - FD0] = o; ssize_t r = __wrap_read(fd, b, n); S.fdpos[fd - FD0] = s; return r; }
__attribute__((weak)) int __wrap_ftruncate64(int fd, off64_t n) {
	using namespace fk; if (fd >= 0 && !ffs_is(fd)) return __real_ftruncate64(fd, n); File* f = ffs_is(fd) ? ffs_file(fd) : nullptr; if (!f) { misuse("ftruncate on closed descriptor"); errno = EBADF; return -1; }
	if (should_fail("ftruncate")) { errno = ENOSPC; return -1; }
	if ((size_t)n < f->size) raw_zero(f->alias[0] + n, f->size - n);
	if ((size_t)n > f->size) grow(*f, n); else f->size = n;
	S.any_modify = true; return 0;
}
__attribute__((weak)) int __wrap_ftruncate(int fd, off64_t n) { return __wrap_ftruncate64(fd, n); }
__attribute__((weak)) int __wrap_posix_fallocate64(int fd, off64_t o, off64_t n) { using namespace fk; File* f = ffs_file(fd); if (!f) return EBADF; if (should_fail("fallocate")) return ENOSPC; if ((size_t)(o + n) > f->size) grow(*f, o + n); return 0; }
__attribute__((weak)) int __wrap_fstat64(int fd, struct stat64* st) {
	using namespace fk; if (fd >= 0 && !ffs_is(fd)) return __real_fstat64(fd, st); File* f = ffs_is(fd) ? ffs_file(fd) : nullptr; if (!f) { errno = EBADF; return -1; }
	if (should_fail("fstat")) { errno = EIO; return -1; }
	memset(st, 0, sizeof *st); st->st_size = f->size; st->st_mode = S_IFREG | 0644; return 0;
}
__attribute__((weak)) int __wrap_fstat(int fd, struct stat* st) { return __wrap_fstat64(fd, (struct stat64*)st); }
__attribute__((weak)) int __wrap_fsync(int fd) { using namespace fk; if (fd >= 0 && !ffs_is(fd)) return __real_fsync(fd); if (!ffs_is(fd) || !ffs_file(fd)) { errno = EBADF; return -1; } if (should_fail("fsync")) { errno = EIO; return -1; } return 0; }
__attribute__((weak)) void* __wrap_mmap64(void* addr, size_t n, int prot, int flags, int fd, off64_t off) {
	using namespace fk;
	if (!ffs_is(fd)) { if ((flags & MAP_ANONYMOUS) || fd >= 0) return __real_mmap64(addr, n, prot, flags, fd, off); errno = EBADF; return MAP_FAILED; }
	File* f = ffs_file(fd); if (!f) { misuse("mmap on closed descriptor"); errno = EBADF; return MAP_FAILED; }
	if (should_fail("mmap")) { errno = ENOMEM; return MAP_FAILED; }
	if (off % PG || off < 0 || off + n > MAXP * PG) { errno = EINVAL; return MAP_FAILED; }
	size_t p0 = off / PG, np = (n + PG - 1) / PG;
	unsigned a = S.rot++ % NALIAS;
	for (unsigned k = 0; k < NALIAS; k++, a = (a + 1) % NALIAS) { bool freea = true; for (size_t p = p0; p < p0 + np; p++) if (f->refs[a][p]) freea = false; if (freea) break; }
	for (size_t p = p0; p < p0 + np; p++) { f->refs[a][p]++; if (p * PG < f->size) FFS_UNPOISON(f->alias[a] + p * PG, PG); else S.torn = true; }
	S.live_maps += np; if (S.live_maps > S.max_live) S.max_live = S.live_maps;
	return f->alias[a] + off;
}
__attribute__((weak)) void* __wrap_mmap(void* addr, size_t n, int prot, int flags, int fd, off64_t off) { return __wrap_mmap64(addr, n, prot, flags, fd, off); }
static bool ffs_find(void* ptr, fk::File*& f, size_t& a, size_t& p) {
	using namespace fk;
	for (auto& ff : S.f) for (a = 0; a < NALIAS; a++) { char* b = ff.alias[a]; if ((char*)ptr >= b && (char*)ptr < b + MAXP * PG) { f = &ff; p = ((char*)ptr - b) / PG; return true; } }
	return false;
}
__attribute__((weak)) int __wrap_munmap(void* ptr, size_t n) {
	using namespace fk; File* f; size_t a, p;
	if (S.real && !ffs_find(ptr, f, a, p)) return __real_munmap(ptr, n);
	if (!ffs_find(ptr, f, a, p)) { misuse("munmap of an address that is not a page mapping"); errno = EINVAL; return -1; }
	size_t np = (n + PG - 1) / PG;
	for (size_t q = p; q < p + np; q++) if (!f->refs[a][q]) { misuse("munmap of a page that is not mapped"); errno = EINVAL; return -1; }
	if (should_fail("munmap")) { errno = EINVAL; return -1; }
	for (size_t q = p; q < p + np; q++) { if (--f->refs[a][q] == 0) FFS_POISON(f->alias[a] + q * PG, PG); S.live_maps--; }
	return 0;
}
__attribute__((weak)) int __wrap_msync(void* ptr, size_t n_, int fl_) {
	using namespace fk; File* f; size_t a, p;
	if (S.real && !ffs_find(ptr, f, a, p)) return __real_msync(ptr, n_, fl_);
	if (!ffs_find(ptr, f, a, p) || !f->refs[a][p]) { misuse("msync of an address that is not mapped"); errno = ENOMEM; return -1; }
	if (should_fail("msync")) { errno = EIO; return -1; }
	return 0;
}
}
// link: -Wl,--wrap=open64,--wrap=open,...
