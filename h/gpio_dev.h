// gpio_dev.h - stand-in for GPIO chips, lines and SMBus adapters at the system call boundary (open/ioctl/close are wrapped).
#pragma once
#include "mc.h"
#include <sys/ioctl.h>
#include <stdarg.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
#include <deque>
namespace dev {
using mc::fmt;
struct Xfer { int addr; bool read; uint8_t reg; uint32_t size; std::vector<uint8_t> data; }; // data as on the wire
struct LineEv { uint32_t offset; int level; uint64_t t; };
struct Fd { int kind = 0; /* 1 chip, 2 line, 3 bus */ bool open = false; std::string path; int addr = -1; uint32_t offset = 0; bool output = false; int* level = nullptr; };
struct Target { uint8_t mem[256][2] = {}; uint8_t next = 0; std::vector<uint8_t> block; int block_count = -1; };
struct World {
	std::deque<Fd> fds; std::map<int, Target> targets; std::vector<Xfer> xfers; std::vector<LineEv> lines; std::map<uint32_t, int> level;
	int calls = 0, fail_at = 0, failed = 0, addr_calls = 0; std::string failed_what; std::function<void(const char*)> fail_fn; std::function<void(const char*)> before; std::function<uint64_t()> clock; std::function<int(uint32_t)> input;
	std::function<void(int, uint8_t, uint8_t*)> on_word_read; std::function<void(const LineEv&, int)> on_line; std::vector<std::string> trail; bool keep_trail = false;
	int open_count() const { int n = 0; for (auto& f : fds) n += f.open; return n; }
};
inline World* W = nullptr;
constexpr int BASE = 7000;
inline void bad(const std::string& m) { if (W && W->fail_fn) W->fail_fn(m.c_str()); else mc::violation(m); }
inline Fd* get(int fd, const char* w) {
	static Fd none; none = Fd();
	if (!W || fd < BASE || fd >= BASE + (int)W->fds.size() || !W->fds[fd - BASE].open) { bad(fmt("%s on a descriptor that is not open (%d)", w, fd)); return &none; }
	return &W->fds[fd - BASE];
}
inline int add(Fd f) { f.open = true; W->fds.push_back(f); return BASE + (int)W->fds.size() - 1; }
inline bool fails(const char* what) { W->calls++; if (W->before) W->before(what); if (W->calls == W->fail_at) { W->failed++; W->failed_what = what; mc::count(mc::FAULTS); return true; } return false; }
inline bool mine(const char* p) { return strncmp(p, "/dev/gpiochip", 13) == 0 || strncmp(p, "/dev/i2c-", 9) == 0; }
inline int do_open(const char* p) {
	bool f = fails("open"); if (f) { errno = EACCES; return -1; }
	Fd d; d.kind = strncmp(p, "/dev/i2c-", 9) == 0 ? 3 : 1; d.path = p; return add(d);
}
inline int do_close(int fd) { bool f = fails("close"); Fd* d = get(fd, "close"); d->open = false; if (f) { errno = EIO; return -1; } return 0; }
inline int do_ioctl(int fd, unsigned long req, void* arg) {
	const char* what = req == I2C_SLAVE_FORCE || req == I2C_SLAVE ? "address" : req == I2C_SMBUS ? "transfer" : req == I2C_FUNCS ? "functions" : req == GPIO_V2_GET_LINE_IOCTL ? "line request" : req == GPIO_V2_LINE_SET_VALUES_IOCTL ? "set values" : req == GPIO_V2_LINE_GET_VALUES_IOCTL ? "get values" : "information";
	bool f = fails(what); Fd* d = get(fd, what);
	if (req == I2C_SLAVE_FORCE || req == I2C_SLAVE) { W->addr_calls++; if (f) { d->addr = -2; errno = EBUSY; return -1; } d->addr = (int)(long)arg; return 0; }
	if (f) { errno = EREMOTEIO; return -1; }
	switch (req) {
	case I2C_FUNCS: if (d->kind != 3) break; *(unsigned long*)arg = 0x1234; return 0;
	case I2C_SMBUS: {
		if (d->kind != 3) break;
		i2c_smbus_ioctl_data* m = (i2c_smbus_ioctl_data*)arg; bool rd = m->read_write == I2C_SMBUS_READ; uint8_t reg = m->command; Xfer x{ d->addr, rd, reg, m->size, {} };
		if (d->addr < 0) { bad("a transfer while no device is addressed"); return -1; }
		Target& t = W->targets[d->addr]; i2c_smbus_data* b = m->data;
		if (m->size != I2C_SMBUS_BYTE || rd) if (!b) { errno = EFAULT; bad("a transfer without data"); return -1; }
		switch (m->size) {
		case I2C_SMBUS_BYTE: if (rd) { b->byte = t.next++; x.data = { b->byte }; } break;
		case I2C_SMBUS_BYTE_DATA: if (rd) b->byte = t.mem[reg][0]; else t.mem[reg][0] = b->byte; x.data = { b->byte }; break;
		case I2C_SMBUS_WORD_DATA: // the low byte goes first
			if (rd) { if (W->on_word_read) W->on_word_read(d->addr, reg, t.mem[reg]); b->word = (uint16_t)(t.mem[reg][0] | t.mem[reg][1] << 8); } else { t.mem[reg][0] = b->word & 255; t.mem[reg][1] = b->word >> 8; }
			x.data = { t.mem[reg][0], t.mem[reg][1] }; break;
		case I2C_SMBUS_BLOCK_DATA:
			if (rd) { if (t.block_count >= 0) b->block[0] = (uint8_t)t.block_count; else b->block[0] = (uint8_t)std::min<size_t>(t.block.size(), 32); for (size_t i = 0; i < 33 && i < t.block.size() && i < 32; i++) b->block[1 + i] = t.block[i]; x.data.assign(b->block, b->block + 1 + std::min<int>(b->block[0], 32)); }
			else { if (b->block[0] > 32) { errno = EINVAL; bad("a block of more than 32 bytes"); return -1; } t.block.assign(b->block + 1, b->block + 1 + b->block[0]); x.data.assign(b->block, b->block + 1 + b->block[0]); }
			break;
		default: bad(fmt("a transfer of unknown size %u", m->size)); return -1;
		}
		W->xfers.push_back(x); return 0; }
	case GPIO_GET_CHIPINFO_IOCTL: if (d->kind != 1) break; { gpiochip_info* i = (gpiochip_info*)arg; strcpy(i->name, "gpiochip0"); i->lines = 54; return 0; }
	case GPIO_V2_GET_LINEINFO_IOCTL: if (d->kind != 1) break; { gpio_v2_line_info* i = (gpio_v2_line_info*)arg; snprintf(i->name, sizeof i->name, "line%u", i->offset); return 0; }
	case GPIO_V2_GET_LINE_IOCTL: if (d->kind != 1) break; {
		gpio_v2_line_request* r = (gpio_v2_line_request*)arg; if (r->num_lines != 1) bad("a request of a number of lines other than one");
		Fd l; l.kind = 2; l.path = d->path; l.offset = r->offsets[0]; l.output = r->config.flags & GPIO_V2_LINE_FLAG_OUTPUT; r->fd = add(l); return 0; }
	case GPIO_V2_LINE_SET_VALUES_IOCTL: if (d->kind != 2) break; {
		gpio_v2_line_values* v = (gpio_v2_line_values*)arg; if (v->mask != 1) bad("the values of other lines are set"); if (!d->output) { errno = EPERM; return -1; }
		int old = W->level[d->offset]; W->level[d->offset] = v->bits & 1; if (W->on_line) W->on_line(LineEv{ d->offset, (int)(v->bits & 1), 0 }, old); W->lines.push_back(LineEv{ d->offset, (int)(v->bits & 1), W->clock ? W->clock() : 0 }); return 0; }
	case GPIO_V2_LINE_GET_VALUES_IOCTL: if (d->kind != 2) break; { gpio_v2_line_values* v = (gpio_v2_line_values*)arg; v->bits = (W->input ? W->input(d->offset) : W->level[d->offset]) & v->mask; return 0; }
	}
	errno = ENOTTY; bad(fmt("request %lx on a descriptor of kind %d", req, d->kind)); return -1;
}
}
// DEV_QUIET is defined by harnesses that run under the scheduler
#ifndef DEV_QUIET
#define DEV_QUIET
#endif
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_close(int); int __real_ioctl(int, unsigned long, ...);
__attribute__((used)) int __wrap_open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); if (!dev::W || !dev::mine(p)) return __real_open(p, fl, mode); DEV_QUIET return dev::do_open(p); }
__attribute__((used)) int __wrap_open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); if (!dev::W || !dev::mine(p)) return __real_open64(p, fl, mode); DEV_QUIET return dev::do_open(p); }
__attribute__((used)) int __wrap_close(int fd) { if (!dev::W || fd < dev::BASE) return __real_close(fd); DEV_QUIET return dev::do_close(fd); }
__attribute__((used)) int __wrap_ioctl(int fd, unsigned long req, ...) { va_list a; va_start(a, req); void* p = va_arg(a, void*); va_end(a); if (!dev::W || (fd >= 0 && fd < dev::BASE)) return __real_ioctl(fd, req, p); DEV_QUIET return dev::do_ioctl(fd, req, p); }
}
