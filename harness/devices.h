// Modelled devices: chips with lines, and a bus.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
// ---------------------------------------------------------------- devices
enum { FREE, CHIP, LINE, BUS };
static struct { int kind; int addr; unsigned pos; unsigned long long flags; } fds[20];
static int failures; static bool failed;			// how many calls may still fail; whether one did
static bool fails(const char* what) { if (failures > 0 && abc_choice(what, 2)) { failures--; failed = true; errno = EIO; return true; } return false; }
static int opened(void) { int n = 0; for (int i = 0; i < 20; i++) n += fds[i].kind != FREE; return n; }
static int new_fd(int kind) { int f = 3; while (fds[f].kind != FREE) f++; abc_assert(f < 20, "descriptors are closed"); fds[f].kind = kind; fds[f].addr = -1; return f; }
static char wanted_path[40]; static int opens;		// no wanted path: any
static const char* consumer = "abc"; static unsigned wanted_pos; static unsigned long long wanted_flags; static unsigned infos;
static int open_any(const char* p) { opens++; abc_assert(p && (!wanted_path[0] || !std::strcmp(p, wanted_path)), "the device that was asked for is opened"); if (fails("open_fails")) return -1; return new_fd(std::strstr(p, "i2c") ? BUS : CHIP); }
// lines
static int level[40]; static int puts_, gets_; static int (*level_now)(unsigned pos); static void (*level_put)(unsigned pos, int level);
// transfers on the bus
struct Xfer { int addr; unsigned rw, cmd, size; unsigned char data[34]; bool ok; };
static bool forgets; static int kept = 4; static Xfer xfer[160]; static int nx; static unsigned char (*answer)(const Xfer&, int byte); static int answer_size; static unsigned long functions;
static int smbus(int fd, i2c_smbus_ioctl_data* m) {
	if (forgets && nx == 160) nx = kept;
	abc_assert(nx < 160, "model"); Xfer& x = xfer[nx++]; x.addr = fds[fd].addr; x.rw = m->read_write; x.cmd = m->command; x.size = m->size;
	bool w = x.rw == I2C_SMBUS_WRITE;
	if (w) {
		if (x.size == I2C_SMBUS_BYTE_DATA) x.data[0] = m->data->byte;
		else if (x.size == I2C_SMBUS_WORD_DATA) { x.data[0] = m->data->word & 0xff; x.data[1] = m->data->word >> 8; }
		else if (x.size == I2C_SMBUS_BLOCK_DATA) { abc_assert(m->data->block[0] <= 32, "a block fits the bus"); std::memcpy(x.data, m->data->block, 1 + m->data->block[0]); }
		else abc_assert(x.size == I2C_SMBUS_BYTE, "a kind of transfer the bus knows");
	}
	x.ok = !fails("transfer_fails"); if (!x.ok) return -1;
	yield_here();
	if (!w) {
		int n = x.size == I2C_SMBUS_BYTE || x.size == I2C_SMBUS_BYTE_DATA ? 1 : x.size == I2C_SMBUS_WORD_DATA ? 2 : 0;
		if (n) { for (int i = 0; i < n; i++) x.data[i] = answer(x, i); if (n == 1) m->data->byte = x.data[0]; else m->data->word = x.data[0] | x.data[1] << 8; }
		else { abc_assert(x.size == I2C_SMBUS_BLOCK_DATA, "a kind of transfer the bus knows"); x.data[0] = (unsigned char)answer_size; for (int i = 1; i <= answer_size; i++) x.data[i] = answer(x, i); std::memcpy(m->data->block, x.data, 1 + answer_size); }
	}
	return 0;
}
extern "C" {
	int __wrap_open(const char* p, int) { return open_any(p); }
	int __wrap_open64(const char* p, int) { return open_any(p); }
	int __wrap_close(int f) { abc_assert(f >= 3 && f < 20 && fds[f].kind != FREE, "a descriptor is closed once"); fds[f].kind = FREE; return 0; }
	int __wrap_ioctl(int f, unsigned long req, void* arg) {
		abc_assert(f >= 3 && f < 20 && fds[f].kind != FREE, "a descriptor is used while it is open");
		yield_here();
		if (fds[f].kind == BUS) {
			req &= 0xffffffffu;
			if (req == I2C_FUNCS) { if (fails("functions_fails")) return -1; *(unsigned long*)arg = functions; return 0; }
			if (req == I2C_SLAVE_FORCE || req == I2C_SLAVE) { if (fails("address_fails")) return -1; fds[f].addr = (int)(long)arg; yield_here(); return 0; }
			abc_assert(req == I2C_SMBUS, "a command the bus knows"); return smbus(f, (i2c_smbus_ioctl_data*)arg);
		}
		if (fds[f].kind == CHIP) {
			if (fails("chip_fails")) return -1;
			if (req == GPIO_GET_CHIPINFO_IOCTL) { gpiochip_info* i = (gpiochip_info*)arg; std::strcpy(i->name, "chip"); i->lines = infos; return 0; }
			if (req == GPIO_V2_GET_LINEINFO_IOCTL) { gpio_v2_line_info* i = (gpio_v2_line_info*)arg; abc_assert(i->offset == wanted_pos, "the line that was asked for"); i->flags = infos; return 0; }
			abc_assert(req == GPIO_V2_GET_LINE_IOCTL, "a command a chip knows");
			gpio_v2_line_request* r = (gpio_v2_line_request*)arg; abc_assert(r->num_lines == 1 && !std::strcmp(r->consumer, consumer), "one line is asked for, by its consumer");
			int n = new_fd(LINE); fds[n].pos = r->offsets[0]; fds[n].flags = r->config.flags; r->fd = n; return 0;
		}
		gpio_v2_line_values* v = (gpio_v2_line_values*)arg; abc_assert(v->mask == 1, "the only line of the request");
		if (fails("line_fails")) return -1;
		if (req == GPIO_V2_LINE_GET_VALUES_IOCTL) { gets_++; v->bits = level_now ? level_now(fds[f].pos) : level[fds[f].pos]; return 0; }
		abc_assert(req == GPIO_V2_LINE_SET_VALUES_IOCTL, "a command a line knows"); abc_assert(fds[f].flags & GPIO_V2_LINE_FLAG_OUTPUT, "only an output is set"); puts_++;
		level[fds[f].pos] = (int)(v->bits & 1); if (level_put) level_put(fds[f].pos, level[fds[f].pos]); return 0;
	}
}
// ---------------------------------------------------------------- mathematics
extern "C" double __wrap_cos(double x) { double t = 1, r = 1; for (int i = 1; i < 24; i++) { t = -t * x * x / ((2 * i - 1) * (2 * i)); r += t; } return r; }
extern "C" double __wrap_sin(double x) { double t = x, r = x; for (int i = 1; i < 24; i++) { t = -t * x * x / ((2 * i) * (2 * i + 1)); r += t; } return r; }
