// GPIO chips and lines, the SMBus and what hangs on it, over modelled devices, time and threads.
#include <cstring>
#include <cstdio>
#include <new>
#include <ratio>
#include <cmath>
#include <cstdarg>
#include <stdexcept>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
#include "abcsym.h"
#ifndef K
#define K 2
#endif
#ifndef SWITCHES
#define SWITCHES 1
#endif
#define THREADS 6
#include "threads.h"
static long long tick;								// time that passes with every look at the clock
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { now_ns += tick; return time_point(duration(now_ns)); } } } }
#include "src/log.h"
#include "src/exception.h"
#define atomic vatomic
#define thread vthread
#define mutex vmutex
#define condition_variable vcondition_variable
#define this_thread vthis_thread
#include "src/gpio.h"
#undef atomic
#undef thread
#undef mutex
#undef condition_variable
#undef this_thread
using namespace abc;
struct Log { template <typename... A> void put_any(A...) noexcept {} template <typename... A> void put_binary(A...) noexcept {} };
static Log the_log; static Log* any_log(void) { return abc_choice("log", 2) ? &the_log : nullptr; }
#include "devices.h"
typedef gpio_smbus<Log> Bus; typedef gpio_smbus_target<Log> Target; typedef gpio_chip<Log> Chip;
static unsigned char sym_answer(const Xfer&, int) { unsigned char c; abc_sym(&c, 1, "answer"); return c; }

// ---------------------------------------------------------------- the bus
HARNESS h_open_bus() {
	char path[40]; int kind = (int)abc_choice("path", 4); failures = 1; functions = 0x5a5a; Log* log = any_log();
	std::strcpy(path, "/dev/i2c-1"); if (kind == 2) std::strcpy(path, "/dev/i2c-01234567890123456789012"); if (kind == 3) std::strcpy(path, "/dev/i2c-012345678901234567890");
	std::strcpy(wanted_path, path);
	bool made = false, refused = kind == 2 || kind == 1;
	try {
		if (kind == 0) { int pos = (int)abc_choice("pos", 3) * 5; std::snprintf(wanted_path, sizeof(wanted_path), "/dev/i2c-%d", pos); Bus b(pos, log); made = true; abc_assert(!std::strcmp(b.path(), wanted_path) && b.functionality() == functions && opened() == 1, "the bus is open"); }
		else { Bus b(kind == 1 ? nullptr : path, log); made = true; abc_assert(!std::strcmp(b.path(), path) && b.functionality() == functions && opened() == 1, "the bus is open"); }
	} catch (const std::logic_error&) { abc_reach("refused"); }
	abc_assert(made == !(failed || refused), "a bus is made if its device can be opened and asked, and refused otherwise");
	abc_assert(opened() == 0, "the device is closed in the end"); if (made) abc_reach("made");
}
static unsigned any_target(const char* name) { return (unsigned)abc_sym_u64(name, 0, 127); }
static void one_transfer(Bus& bus, Target& t, bool swap, unsigned addr) {	// one operation with its checks
	int n0 = nx; failed = false; bool r, refused = false; unsigned reg = (unsigned)abc_sym_u64("reg", 0, 255); int op = (int)abc_choice("op", 8);
	unsigned char byte = 0; std::uint16_t word = 0; unsigned char block[40]; std::size_t size = 0, cap = 0;
	unsigned want_size, rw = op < 4 ? I2C_SMBUS_WRITE : I2C_SMBUS_READ; int count = 1;
	answer_size = 0;
	switch (op) {
	case 0: r = bus.put_nodata(t, reg); want_size = I2C_SMBUS_BYTE; break;
	case 1: abc_sym(&byte, 1, "byte"); r = bus.put_byte(t, reg, byte); want_size = I2C_SMBUS_BYTE_DATA; break;
	case 2: abc_sym(&word, 2, "word"); r = bus.put_word(t, reg, word); want_size = I2C_SMBUS_WORD_DATA; break;
	case 3: { static const std::size_t sizes[] = { 0, 1, 3, 32, 33, 40 }; size = sizes[abc_choice("size", 6)]; abc_sym(block, size, "block"); r = bus.put_block(t, reg, block, size); want_size = I2C_SMBUS_BLOCK_DATA; refused = size > 32; break; }
	case 4: r = bus.get_noreg(t, byte); want_size = I2C_SMBUS_BYTE; break;
	case 5: r = bus.get_noreg_2(t, word); want_size = I2C_SMBUS_BYTE; count = 2; break;
	case 6: if (abc_choice("bits", 2)) { op = 8; r = bus.get_word(t, reg, word); want_size = I2C_SMBUS_WORD_DATA; } else { r = bus.get_byte(t, reg, byte); want_size = I2C_SMBUS_BYTE_DATA; } break;
	default: { static const std::size_t sizes[] = { 0, 1, 3, 32, 40 }; cap = size = sizes[abc_choice("size", 5)]; answer_size = (int)sizes[abc_choice("answer", 4)]; std::memset(block, 0xee, sizeof(block)); unsigned char* b = new unsigned char[cap ? cap : 1]; std::memcpy(b, block, cap); r = bus.get_block(t, reg, b, size); std::memcpy(block, b, cap); delete[] b; want_size = I2C_SMBUS_BLOCK_DATA; refused = !failed && (std::size_t)answer_size > cap; break; }
	}
	abc_assert(r == !(failed || refused), "an operation succeeds if and only if the device took part in all of it");
	if (op == 3 && refused) abc_assert(nx == n0, "a block that is too long is not sent");
	for (int i = n0; i < nx; i++) abc_assert(xfer[i].addr == (int)addr, "only the target is talked to");
	if (!r) { abc_reach("failed"); return; }
	abc_assert(nx == n0 + count, "what was asked for is done once");
	const Xfer& x = xfer[n0];
	for (int i = n0; i < nx; i++) abc_assert(xfer[i].rw == rw && xfer[i].size == want_size && (op == 4 || op == 5 || xfer[i].cmd == reg), "the transfer that was asked for is made");
	switch (op) {
	case 1: abc_assert(x.data[0] == byte, "the byte is sent"); break;
	case 2: abc_assert(x.data[swap ? 1 : 0] == (word & 0xff) && x.data[swap ? 0 : 1] == word >> 8, "the word is sent in the byte order of the target"); break;
	case 3: abc_assert(x.data[0] == size && !std::memcmp(x.data + 1, block, size), "the block is sent"); break;
	case 4: case 6: abc_assert(byte == x.data[0], "the byte is received"); break;
	case 5: abc_assert(word == (swap ? x.data[0] << 8 | xfer[n0 + 1].data[0] : xfer[n0 + 1].data[0] << 8 | x.data[0]), "the word is received in the byte order of the target"); break;
	case 8: abc_assert(word == (swap ? x.data[0] << 8 | x.data[1] : x.data[1] << 8 | x.data[0]), "the word is received in the byte order of the target"); break;
	case 7: abc_assert(size == (std::size_t)answer_size && !std::memcmp(block, x.data + 1, size), "the block is received"); for (std::size_t i = size; i < cap; i++) abc_assert(block[i] == 0xee, "nothing else is written"); break;
	}
	abc_reach("done");
}
HARNESS h_transfers() {
	std::strcpy(wanted_path, "/dev/i2c-1"); answer = sym_answer; Log* log = any_log();
	Bus bus(1, log); unsigned a = any_target("address"), b = any_target("other"); bool s = abc_choice("swap", 2);
	Target ta((gpio_smbus_address_t)a, 1000, s, log), tb((gpio_smbus_address_t)b, 1000, !s, log);
	failures = 1; int k = 1 + (int)abc_choice("ops", K);
	for (int i = 0; i < k; i++) { bool second = i && abc_choice("target", 2); one_transfer(bus, second ? tb : ta, second ? !s : s, second ? b : a); }
	abc_reach("end");
}
struct Shared { Bus* bus; Target* t; unsigned addr; int kind; };
static unsigned char of_address(const Xfer& x, int) { return (unsigned char)(x.addr ^ 0x80); }
static void talk(Shared* s) {	// one transfer of a thread
	if (s->kind == 0) { std::uint16_t w = 0; abc_assert(s->bus->get_word(*s->t, 7, w), "the bus does not fail"); abc_assert(w == ((s->addr ^ 0x80) << 8 | (s->addr ^ 0x80)), "what is received comes from the target"); }
	else if (s->kind == 1) abc_assert(s->bus->put_byte(*s->t, (gpio_smbus_register_t)s->addr, 1), "the bus does not fail");
	else { std::uint16_t w = 0; abc_assert(s->bus->get_noreg_2(*s->t, w), "the bus does not fail"); abc_assert(w == ((s->addr ^ 0x80) << 8 | (s->addr ^ 0x80)), "what is received comes from the target"); }
}
HARNESS h_shared_bus() {	// threads that talk to different targets over one bus
	std::strcpy(wanted_path, "/dev/i2c-1"); answer = of_address; Log* log = any_log();
	Bus bus(1, log); unsigned a = any_target("address"), b = any_target("other"); abc_assume(a != b);
	Target ta((gpio_smbus_address_t)a, 1000, false, log), tb((gpio_smbus_address_t)b, 1000, true, log);
	Shared s1 = { &bus, &ta, a, (int)abc_choice("kind", 3) }, s2 = { &bus, &tb, b, (int)abc_choice("kind", 3) };
	if (abc_choice("used", 2)) { Shared s = { &bus, &ta, a, 1 }; talk(&s); }
	preempt = true; budget = SWITCHES;
	std::vthread t1(talk, &s1), t2(talk, &s2); t1.detach(); t2.detach(); schedule();
	for (int i = 0; i < nx; i++) if (xfer[i].rw == I2C_SMBUS_WRITE) abc_assert(xfer[i].addr == (int)xfer[i].cmd, "only the target is talked to");
	abc_reach("end");
}
// ---------------------------------------------------------------- pulse width modulation over the bus
#ifndef CLOCK
#define CLOCK 72000000
#endif
static unsigned word_of(const Xfer& x) { return x.data[0] | x.data[1] << 8; }
struct Timer { unsigned autoreload, prescaler; };
static Timer timer_of(int from) {
	Timer t = { 0, 0 };
	for (int i = from; i < nx; i++) { abc_assert(xfer[i].rw == I2C_SMBUS_WRITE && xfer[i].size == I2C_SMBUS_WORD_DATA && xfer[i].addr == 0x14, "the timer is programmed"); if (xfer[i].cmd == 0x44) t.autoreload = word_of(xfer[i]) + 1; else if (xfer[i].cmd == 0x40) t.prescaler = word_of(xfer[i]) + 1; else abc_assert(0, "only the timer is programmed"); }
	abc_assert(t.autoreload && t.prescaler, "the timer is programmed"); return t;
}
HARNESS h_frequency() {		// any frequency; the whole period is used
	std::strcpy(wanted_path, "/dev/i2c-1"); Log* log = any_log(); Bus bus(1, log);
	std::uint64_t clock = CLOCK; Target t(0x14, clock, false, log);
	std::uint16_t f; abc_sym(&f, 2, "frequency");
	bool made = false;
	try {
		gpio_smbus_pwm<Log> p(&bus, t, f, 0x20, 0x44, 0x40, log); made = true;
		abc_assert(f != 0 && f <= clock, "a frequency that is not possible is refused");
		Timer r = timer_of(0); std::uint64_t period = clock / f, got = (std::uint64_t)r.autoreload * r.prescaler;
		abc_assert(got <= period && period - got < r.autoreload, "the frequency is the one that was asked for, up to one step of the prescaler");
		unsigned d = (unsigned)abc_sym_u64("duty", 0, 65535), e = (unsigned)abc_sym_u64("duty2", 0, 65535); abc_assume(d <= e);
		int n = nx; p.set_duty_cycle((gpio_pwm_duty_cycle_t)d); p.set_duty_cycle((gpio_pwm_duty_cycle_t)e);
		abc_assert(nx == n + 2 && xfer[n].cmd == 0x20 && xfer[n + 1].cmd == 0x20 && xfer[n].size == I2C_SMBUS_WORD_DATA && xfer[n].addr == 0x14, "the pulse width is set");
		unsigned w = word_of(xfer[n]), v = word_of(xfer[n + 1]);
		abc_assert(w <= v && v <= r.autoreload, "a pulse is never longer than the period, and grows with the duty cycle");
		if (d == 0) abc_assert(w == 0, "no duty is no pulse"); if (d >= 100) abc_assert(w == r.autoreload, "full duty, or more, is the whole period");
		if (d <= 100) abc_assert(w * 100 <= d * r.autoreload + 100 && w * 100 + 100 >= d * r.autoreload, "the pulse is the given part of the period");
		abc_reach("made");
	} catch (const std::logic_error&) { abc_assert(f == 0 || f > clock, "a frequency that is possible is not refused"); abc_assert(!nx, "nothing is programmed"); abc_reach("refused"); }
}
#ifndef PAIRS
#define PAIRS 2
#endif
HARNESS h_widths() {		// servos: any pulse widths
	std::strcpy(wanted_path, "/dev/i2c-1"); Log* log = any_log(); Bus bus(1, log);
	static const unsigned fr[] = { 50, 333, 60, 1000 }; unsigned f = fr[abc_choice("frequency", PAIRS)]; std::uint64_t clock = f == 333 ? 16000000 : 72000000; Target t(0x14, clock, false, log);
	static const unsigned los[] = { 0, 500, 1000 }; unsigned lo, hi;
	if (abc_choice("which", 2)) { lo = los[abc_choice("min", 3)]; hi = (unsigned)abc_sym_u64("max", 1, 1000000 / f); } else { hi = abc_choice("max", 2) ? 1000000 / f : 1500; lo = (unsigned)abc_sym_u64("min", 0, 1000000 / f); }
	abc_assume(lo <= hi && hi <= 1000000 / f);
	gpio_smbus_servo<std::chrono::milliseconds, Log> s(&bus, t, std::chrono::microseconds(lo), std::chrono::microseconds(hi), std::chrono::milliseconds(250), f, 0x20, 0x44, 0x40, log);
	Timer r = timer_of(0); int n = nx;
	static const unsigned ds[] = { 0, 1, 70, 100, 101, 65535 }; unsigned d = ds[abc_choice("duty", 6)]; long long t0 = now_ns;
	s.set_duty_cycle((gpio_pwm_duty_cycle_t)d);
	abc_assert(nx == n + 2 && xfer[n].cmd == 0x20 && xfer[n + 1].cmd == 0x20 && now_ns - t0 == 250000000, "the pulse width is set for the given time");
	unsigned w = word_of(xfer[n]); abc_assert(word_of(xfer[n + 1]) == 0, "and then there are no pulses");
	if (d == 0) abc_assert(w == 0, "no duty is no pulse"); else if (d >= 100) abc_assert(w == r.autoreload, "full duty, or more, is the whole period");
	else {	// w steps of prescaler/clock seconds, against lo + d% of hi-lo microseconds, up to two steps
		std::uint64_t ideal = (std::uint64_t)(lo * 100 + d * (hi - lo)) * (clock / 1000000), step = 100 * r.prescaler, is = w * (std::uint64_t)step;
		abc_assert(is <= ideal + 2 * step && ideal <= is + 3 * step, "the pulse is as long as was asked for");
	}
	abc_reach("end");
}
HARNESS h_motor() {
	std::strcpy(wanted_path, "/dev/gpiochip0"); Log* log = any_log(); Chip chip(0, "abc", log); std::strcpy(wanted_path, "/dev/i2c-1"); Bus bus(1, log); Target t(0x14, 72000000, true, log);
	std::strcpy(wanted_path, "/dev/gpiochip0"); unsigned pos = (unsigned)abc_choice("pos", 3) * 9;
	{
		gpio_smbus_motor<Log> m(&chip, pos, &bus, t, 50, 0x20, 0x44, 0x40, log);
		abc_assert(m.is_forward(), "a motor starts forward");
		for (int i = 0; i < 3; i++) { bool f = abc_choice("forward", 2); puts_ = 0; m.set_forward(f); abc_assert(m.is_forward() == f && puts_ == 1 && level[pos] == (f ? 0 : 1), "the direction is set"); }
		int n = nx; unsigned d = (unsigned)abc_sym_u64("duty", 0, 100); m.set_duty_cycle((gpio_pwm_duty_cycle_t)d);
		unsigned a = 0; for (int i = 0; i < n; i++) if (xfer[i].cmd == 0x44) a = (unsigned)(xfer[i].data[1] | xfer[i].data[0] << 8) + 1;
		abc_assert(nx == n + 1 && xfer[n].cmd == 0x20, "the power is set"); unsigned w = (unsigned)(xfer[n].data[1] | xfer[n].data[0] << 8);
		abc_assert(w * 100 <= d * a + 100 && w * 100 + 100 >= d * a, "the pulse is the given part of the period");
	}
	abc_assert(opened() == 1, "the line is released"); abc_reach("end");
}
// ---------------------------------------------------------------- chips and lines
HARNESS h_chip() {
	char path[40], cons[40]; Log* log = any_log(); failures = 1; int kind = (int)abc_choice("path", 4), ck = (int)abc_choice("consumer", 4);
	std::strcpy(path, "/dev/gpiochip7"); if (kind == 2) std::strcpy(path, "/dev/gpiochip123456789012345678"); if (kind == 3) std::strcpy(path, "/dev/gpiochip12345678901234567x");
	if (kind == 2) path[31] = 0, path[30] = 'y'; if (kind == 3) std::strcat(path, "zz");
	std::strcpy(cons, "c"); if (ck == 2) std::strcpy(cons, "0123456789012345678901234567890"); if (ck == 3) std::strcpy(cons, "01234567890123456789012345678901");
	std::strcpy(wanted_path, path); bool refused = kind == 1 || std::strlen(path) >= 32 || ck == 1 || ck == 3; infos = (unsigned)abc_sym_u64("infos", 0, 0xffffffff);
	alignas(Chip) char mem[sizeof(Chip)]; Chip* c = nullptr;
	try { c = new (mem) Chip(kind == 1 ? nullptr : path, ck == 1 ? nullptr : cons, log); } catch (const std::logic_error&) { abc_reach("refused"); }
	abc_assert((c != nullptr) == !(refused || failed), "a chip is made if its device can be opened, and refused otherwise"); abc_assert(opened() == 0, "the device is closed in the end");
	if (!c) return;
	abc_assert(!std::strcmp(c->path(), path) && !std::strcmp(c->consumer(), cons), "a chip knows its device and consumer");
	failed = false;
	{ gpio_chip_info i = c->chip_info(); abc_assert(i.is_valid == !failed, "the information is valid if the device gave it"); if (i.is_valid) abc_assert(i.lines == infos && !std::strcmp(i.name, "chip"), "the information is what the device gave"); }
	wanted_pos = (unsigned)abc_sym_u64("pos", 0, 0xffffffff); failed = false;
	{ gpio_line_info i = c->line_info(wanted_pos); abc_assert(i.is_valid == !failed, "the information is valid if the device gave it"); if (i.is_valid) abc_assert(i.flags == infos && i.offset == wanted_pos, "the information is what the device gave"); if (failed) abc_reach("invalid"); }
	abc_assert(opened() == 0, "the device is closed in the end"); abc_reach("end");
}
typedef gpio_output_line<Log> Out; typedef gpio_input_line<Log> In;
HARNESS h_lines() {
	std::strcpy(wanted_path, "/dev/gpiochip0"); Log* log = any_log(); consumer = "0123456789012345678901234567890"; Chip chip(0, consumer, log);
	failures = 2; unsigned pos = (unsigned)abc_choice("pos", 3) * 13; bool out = abc_choice("out", 2), made = false, nochip = abc_choice("nochip", 2);
	try {
		if (out) {
			Out l(nochip ? nullptr : &chip, pos, log); made = true; abc_assert(!failed && opened() == 1 && fds[3].flags + fds[4].flags == GPIO_V2_LINE_FLAG_OUTPUT, "a line is asked for as an output");
			auto act = [&](Out& o) { failed = false; gpio_level_t v; abc_sym(&v, 4, "level"); puts_ = 0; gpio_level_t r; long long t0 = now_ns; bool timed = abc_choice("timed", 2); if (timed) r = o.put_level(v, std::chrono::microseconds(10)); else r = o.put_level(v);
				if (v > 1) abc_assert(r == gpio_level::invalid && !puts_, "a level that does not exist is not set"); else if (failed) abc_assert(r == gpio_level::invalid, "a failure is told"); else { abc_assert(r == v && puts_ == 1 && level[pos] == (int)v, "the level is set"); abc_assert(now_ns - t0 == (timed ? 10000 : 0), "for the given time"); abc_reach("set"); } };
			act(l);
			if (abc_choice("move", 2)) { Out m(std::move(l)); abc_assert(opened() == 1, "a move moves the line"); act(m); abc_reach("moved"); }
		}
		else {
			In l(nochip ? nullptr : &chip, pos, log); made = true; abc_assert(!failed && opened() == 1, "one descriptor"); abc_assert(fds[3].flags + fds[4].flags == GPIO_V2_LINE_FLAG_INPUT, "a line is asked for as an input");
			auto act = [&](In& o) { failed = false; abc_sym(&level[pos], 4, "bits"); gpio_level_t r = o.get_level(); if (failed) abc_assert(r == gpio_level::invalid, "a failure is told"); else { abc_assert(r == (unsigned)(level[pos] & 1), "the level is read"); abc_reach("read"); } };
			act(l);
			if (abc_choice("move", 2)) { In m(std::move(l)); abc_assert(opened() == 1, "a move moves the line"); act(m); abc_reach("moved"); }
		}
	} catch (const std::exception&) { abc_assert(!made && (failed || nochip), "a line is refused only if the device refuses it"); abc_reach("refused"); }
	abc_assert(made == !(nochip || (failed && !made)), "a line is made if it can be");
	abc_assert(opened() == 0, "all descriptors are closed in the end"); abc_reach("end");
}
static long long change_at[3]; static int start_level; static bool errors_until;
static int changing(unsigned) { int l = start_level; for (int i = 0; i < 3; i++) if (now_ns >= change_at[i]) l = !l; return l; }
HARNESS h_expect() {	// a level that comes, or not, in time
	std::strcpy(wanted_path, "/dev/gpiochip0"); Log* log = any_log(); Chip chip(0, "abc", log); In l(&chip, 4, log); level_now = changing;
	tick = (long long)abc_sym_u64("tick", 25000, 60000); long long t0 = now_ns, timeout = (long long)abc_sym_u64("timeout", 0, 100) * 1000;
	start_level = (int)abc_choice("start", 2); change_at[0] = now_ns + (long long)abc_sym_u64("at", 0, 400000); change_at[1] = change_at[2] = now_ns + 100000000;
	unsigned want = (unsigned)abc_choice("want", 2);
	gpio_level_t r = l.expect_level(want, std::chrono::microseconds(timeout / 1000));
	abc_assert(r == want || r == gpio_level::invalid, "either the level or a failure");
	if (r == want) { abc_assert(changing(4) == (int)want, "the level is there"); abc_reach("came"); }
	else { abc_assert(now_ns - t0 > timeout, "the wait is not given up before the time is over"); abc_reach("late"); }
	abc_assert(now_ns - t0 <= timeout + 5 * tick + 1000, "the wait ends when the time is over");
	if (start_level == (int)want && change_at[0] - t0 > 2 * tick) abc_assert(r == want, "a level that is there at once is found"); abc_reach("end");
}
// ---------------------------------------------------------------- the distance
static int echo(unsigned pos) { return pos == 6 ? changing(pos) : 0; }
static int trig[8]; static int ntrig; static long long trig_at[8];
static void trigger(unsigned pos, int l) { abc_assert(pos == 5 && ntrig < 8, "only the trigger is set"); trig[ntrig] = l; trig_at[ntrig++] = now_ns; }
HARNESS h_distance() {
	std::strcpy(wanted_path, "/dev/gpiochip0"); Log* log = nullptr; Chip chip(0, "abc", log); typedef gpio_ultrasonic<std::centi, Log> U;
	{
	U first(&chip, 5, 6, log); bool moved = abc_choice("move", 2); U u(std::move(first)); (void)moved;
	level_now = echo; level_put = trigger;
	static const std::size_t max_cm[] = { 100, 20, 200 };
	int n = 1 + (int)abc_choice("calls", 2);
	for (int i = 0; i < n; i++) {
		bool first_of_two = i + 1 < n;		// an earlier call, for another distance, without an echo
		std::size_t max = max_cm[abc_choice("max", 3)]; long long timeout = (long long)max * 2 * 1000000000 / 34300, t0, unit = timeout / 32;
		tick = 0; ntrig = 0; t0 = now_ns + 20000;
		tick = first_of_two ? 4 * unit : unit + (long long)abc_choice("tick", 2) * unit;
		start_level = first_of_two ? 0 : (int)abc_choice("start", 2);
		change_at[0] = t0 + (first_of_two ? 99 * timeout : (long long)abc_sym_u64("first", 0, 3) * 12 * unit + unit / 2); change_at[1] = change_at[0] + (long long)abc_sym_u64("second", 0, 3) * 12 * unit + unit / 3; change_at[2] = change_at[1] + 14 * unit;
		std::size_t d = u.measure_distance(max);
		abc_assert(ntrig == 3 && trig[0] == 0 && trig[1] == 1 && trig[2] == 0 && trig_at[1] - trig_at[0] >= 10000 && trig_at[2] - trig_at[1] >= 10000, "one pulse is sent");
		abc_assert(now_ns - t0 <= timeout + 14 * tick, "no longer is waited for than sound needs for the greatest distance");
		long long up = start_level ? change_at[1] : change_at[0], down = start_level ? change_at[2] : change_at[1];
		long long slack = 6 * tick; std::size_t slack_cm = (std::size_t)(slack * 34300 / 2000000000) + 2, real = (std::size_t)((down - up) * 34300 / 2000000000);
		if (down + slack < t0 + timeout && down - up > slack && change_at[0] - t0 > slack && (!start_level || up - change_at[0] > slack)) { abc_assert(d + slack_cm >= real && d <= real + slack_cm, "an echo that comes in time tells the distance"); abc_reach("measured"); }
		else if (up > t0 + timeout + slack) { abc_assert(d == max, "if no echo comes in time, the distance is the greatest one"); abc_reach("nothing"); }
		abc_assert(d <= max + slack_cm, "a distance is not greater than the greatest one");
		now_ns += 1000000;
	}
	}
	abc_assert(opened() == 0, "all descriptors are closed in the end"); abc_reach("end");
}
// ---------------------------------------------------------------- sensors on the bus
static std::int16_t sample[140]; static int nsample, gray; static bool first_byte;
HARNESS h_grayscale() {
	std::strcpy(wanted_path, "/dev/i2c-1"); Log* log = any_log(); Bus bus(1, log); bool swap = abc_choice("swap", 2); Target t(0x14, 72000000, swap, log);
	try { gpio_smbus_grayscale<Log> none(nullptr, t, 1, 2, 3, log); abc_assert(0, "a bus is needed"); } catch (const std::logic_error&) {}
	gpio_smbus_grayscale<Log> g(&bus, t, 0x12, 0x11, 0x10, log); answer = sym_answer; failures = 1;
	std::uint16_t v[3] = { 0x1234, 0x5678, 0x9abc }, o[3] = { 0x1234, 0x5678, 0x9abc }; g.get_values(v[0], v[1], v[2]);
	unsigned sel = 0; bool have[3] = { false, false, false }; int k = 0; unsigned char b[2]; std::uint16_t want[3] = { 0, 0, 0 };
	for (int i = 0; i < nx; i++) {
		Xfer& x = xfer[i]; abc_assert(x.addr == 0x14, "only the target is talked to");
		if (x.rw == I2C_SMBUS_WRITE) { if (x.ok) { abc_assert(word_of(x) == 0, "a sensor is chosen"); sel = x.cmd; } k = 0; }
		else if (x.ok) { b[k++] = x.data[0]; if (k == 2) { abc_assert(sel >= 0x10 && sel <= 0x12, "a sensor is chosen before it is read"); int c = 0x12 - (int)sel; want[c] = (std::uint16_t)(swap ? b[0] << 8 | b[1] : b[1] << 8 | b[0]); have[c] = true; k = 0; } }
		else k = 2;
	}
	if (!failed) for (int c = 0; c < 3; c++) abc_assert(have[c], "all sensors are read");
	for (int c = 0; c < 3; c++) abc_assert(v[c] == (have[c] ? want[c] : o[c]), "a value is what its sensor said; a sensor that can not be read changes nothing");
	if (failed) abc_reach("failed"); abc_reach("end");
}
static const unsigned regs[7] = { 0x3b, 0x3d, 0x3f, 0x43, 0x45, 0x47, 0x41 };
static std::int16_t by_channel[7]; static unsigned char motion_answer(const Xfer& x, int i) { for (int c = 0; c < 7; c++) if (x.cmd == regs[c]) { abc_assert(x.size == I2C_SMBUS_WORD_DATA, "a word is read"); std::uint16_t v = (std::uint16_t)by_channel[c]; return (unsigned char)(i ? v & 0xff : v >> 8); } abc_assert(0, "only the channels are read"); return 0; }
static std::int16_t* parts(gpio_smbus_motion_measurements& m, int c) { std::int16_t* p[] = { &m.accel_x, &m.accel_y, &m.accel_z, &m.gyro_x, &m.gyro_y, &m.gyro_z, &m.temperature }; return p[c]; }
HARNESS h_measure() {	// the channels of the motion sensor
	std::strcpy(wanted_path, "/dev/i2c-1"); Log* log = any_log(); Bus bus(1, log);
	try { gpio_smbus_motion<Log> none(nullptr, log); abc_assert(0, "a bus is needed"); } catch (const std::logic_error&) {}
	gpio_smbus_motion<Log> m(&bus, log); abc_assert(nx == 4, "the sensor is set up");
	static const unsigned set[4][2] = { { 0x6b, 0 }, { 0x1a, 3 }, { 0x1c, 0x18 }, { 0x1b, 0x18 } }; for (int i = 0; i < 4; i++) { bool is = false; for (int j = 0; j < 4; j++) is = is || (xfer[j].addr == 0x68 && xfer[j].rw == I2C_SMBUS_WRITE && xfer[j].size == I2C_SMBUS_BYTE_DATA && xfer[j].cmd == set[i][0] && xfer[j].data[0] == set[i][1]); abc_assert(is, "the sensor is set up"); }
	answer = motion_answer; abc_sym(by_channel, sizeof(by_channel), "channels"); unsigned mask = (unsigned)abc_choice("mask", 128);
	if (mask == 127 || mask == 65) failures = 1;
	gpio_smbus_motion_measurements r; std::memset(&r, 0x55, sizeof(r)); m.get_measurements((gpio_smbus_motion_channel_t)mask, r);
	for (int c = 0; c < 7; c++) {
		bool read = false; for (int i = 4; i < nx; i++) read = read || (xfer[i].cmd == regs[c] && xfer[i].ok);
		if (!failed) abc_assert(read == !!(mask >> c & 1), "the channels that are asked for are read");
		abc_assert(*parts(r, c) == (read ? by_channel[c] : 0), "a channel has the value the sensor gave, and 0 if it was not read");
	}
	if (failed) abc_reach("failed"); abc_reach("end");
}
static unsigned char sampled(const Xfer& x, int i) { abc_assert(x.size == I2C_SMBUS_WORD_DATA && nsample < 140, "model"); std::uint16_t v = (std::uint16_t)sample[nsample]; if (i) nsample++; return (unsigned char)(i ? v & 0xff : v >> 8); }
HARNESS h_calibrate() {		// the average of the samples
	std::strcpy(wanted_path, "/dev/i2c-1"); Log* log = any_log(); Bus bus(1, log); gpio_smbus_motion<Log> m(&bus, log);
	answer = sampled; int ch = (int)abc_choice("channel", 6); static const int many[] = { 20, 10, 1 }, rest[] = { 0, 32767, -32768, 700 }; int n = many[abc_choice("many", 3)], r = rest[abc_choice("rest", 4)];
	abc_sym(sample, 5 * 2, "skipped"); std::int16_t v; abc_sym(&v, 2, "sample"); for (int i = 0; i < 20; i++) sample[5 + i] = i < n ? v : (std::int16_t)r;
	m.calibrate((gpio_smbus_motion_channel_t)(1u << ch)); abc_assert(nsample == 25, "25 samples are taken");
	gpio_smbus_motion_measurements c = m.calibration(); int sum = v * n + r * (20 - n);
	int avg = *parts(c, ch); abc_assert(avg * 20 - sum < 20 && sum - avg * 20 < 20, "a calibrated channel is the average of what the sensor gives at rest");
	for (int i = 0; i < 7; i++) if (i != ch) abc_assert(*parts(c, i) == 0, "other channels are not calibrated");
	abc_reach("end");
}
#ifndef BITS
#define BITS 6
#endif
#ifndef BLOCKS
#define BLOCKS 4
#endif
static bool close_to(double a, double b) { double d = a - b; return d < 1e-9 * 4096 && d > -1e-9 * 4096; }
static double* parts(gpio_smbus_motion_values& v, int c) { double* p[] = { &v.accel_x, &v.accel_y, &v.accel_z, &v.gyro_x, &v.gyro_y, &v.gyro_z, &v.temperature }; return p[c]; }
HARNESS h_values() {	// physical values
	std::strcpy(wanted_path, "/dev/i2c-1"); Log* log = any_log(); Bus bus(1, log); gpio_smbus_motion<Log> m(&bus, log); answer = motion_answer;
	unsigned mask = (unsigned)abc_choice("mask", 128); static const std::int16_t xs[] = { 2048, -300, 32767, -32768, 1, 0, 5000 }, cs[] = { 2000, 17, -32768, 32767, 0, -1, 77 };
	gpio_smbus_motion_measurements x, cal; gpio_smbus_motion_values v; int rot = (int)abc_choice("turn", 7);
	for (int c = 0; c < 7; c++) { by_channel[c] = *parts(x, c) = xs[(c + rot) % 7]; *parts(cal, c) = cs[(c + 2 * rot) % 7]; *parts(v, c) = 77; }
	bool whole = abc_choice("whole", 2);	// with the measurement, and the calibration of the sensor
	if (whole) { cal = m.calibration(); m.get_values((gpio_smbus_motion_channel_t)mask, v); } else m.get_values_from_measurements((gpio_smbus_motion_channel_t)mask, x, cal, v);
	for (int c = 0; c < 7; c++) {
		double a = *parts(v, c), s = *parts(x, c), k = *parts(cal, c);
		if (!(mask >> c & 1)) abc_assert(a == 0, "a channel that is not asked for is 0");
		else if (c == 6) abc_assert(close_to((a - 36.53) * 340, s), "the temperature");
		else abc_assert(close_to(a * 32767, (s - k) * (c < 3 ? 16 : 2000)), "a value is the measurement, less its calibration, as a part of the full scale");
	}
	abc_reach("end");
}
HARNESS h_scale() {		// any measurement, in blocks
	std::strcpy(wanted_path, "/dev/i2c-1"); Bus bus(1, nullptr); gpio_smbus_motion<Log> m(&bus, nullptr);
	gpio_smbus_motion_measurements x{}, cal{}; gpio_smbus_motion_values v; static const int cs[] = { 0, 3, 6 }; int c = cs[abc_choice("channel", 3)];
	static const unsigned char blocks[] = { 0x00, 0x7f, 0x80, 0xff, 0x08, 0xf7, 0x40, 0xc0, 0x01, 0x1f, 0x2a, 0x55, 0x99, 0xb3, 0xd2, 0xe6 };
	unsigned hi = blocks[abc_choice("block", BLOCKS)]; std::int16_t s = (std::int16_t)(hi << 8 | (unsigned)abc_sym_u64("measurement", 0, (1u << BITS) - 1)), k = (std::int16_t)(c == 6 ? 0 : (int)abc_choice("calibration", 2) * 2048);
	*parts(x, c) = s; *parts(cal, c) = k;
	m.get_values_from_measurements((gpio_smbus_motion_channel_t)(1u << c), x, cal, v); double a = *parts(v, c);
	if (c < 6) abc_assert(close_to(a * 32767, (double)(s - k) * (c < 3 ? 16 : 2000)), "a value is the measurement, less its calibration, as a part of the full scale");
	else abc_assert(close_to((a - 36.53) * 340, (double)s), "the temperature");
	abc_reach("end");
}
// ---------------------------------------------------------------- threads
static struct { int level; long long at; } edge[64]; static int nedges;
static int edge_level = -1;
static void edges(unsigned, int l) { if (edge_level == l) return; edge_level = l; abc_assert(nedges < 64, "model"); edge[nedges].level = l; edge[nedges++].at = now_ns; }
static Chip* chip_; static Log* log_; static unsigned duty, duty2; static int scenario;
typedef gpio_pwm_emulator<Log> Emu;
static void emulator_user(int) {
	unsigned f = scenario == 3 ? 100 : 50; long long period = 1000000000 / f;
	{
		Emu* e = scenario == 3 ? new Emu(chip_, 9, std::chrono::microseconds(1000), std::chrono::microseconds(3000), 100, log_) : new Emu(chip_, 9, 50, log_);
		if (scenario == 0) { delete e; }
		else if (scenario == 1) { e->set_duty_cycle((gpio_pwm_duty_cycle_t)duty); if (duty2 != 65535) e->set_duty_cycle((gpio_pwm_duty_cycle_t)duty2); delete e; }
		else {
			e->set_duty_cycle((gpio_pwm_duty_cycle_t)duty);
			sleep_ns(now_ns + 200000000 + period); nedges = 0; long long from = now_ns; sleep_ns(now_ns + 2 * period + period / 2);
			if (duty == 0 || duty >= 100) abc_assert(!nedges && level[9] == (duty ? 1 : 0), "a constant level does not change");
			else {
				long long want = scenario == 3 ? 1000000 + (long long)duty * 2000000 / 100 : (long long)duty * period / 100; int highs = 0;
				for (int i = 0; i + 1 < nedges; i++) { long long l = edge[i + 1].at - edge[i].at; if (edge[i].level) { abc_assert(l > want - 2000 && l < want + 2000, "the level is high for the given part of every period"); highs++; } else abc_assert(l > period - want - 2000 && l < period - want + 2000, "the level is low for the rest of the period"); }
				abc_assert(highs >= 1 && edge[0].at - from <= period, "pulses are made"); abc_reach("pulses");
			}
			if (duty2 == 65535) e->set_duty_cycle((gpio_pwm_duty_cycle_t)30, std::chrono::milliseconds(40));
			else e->set_duty_cycle((gpio_pwm_duty_cycle_t)duty2);
			sleep_ns(now_ns + 200000000 + period); if (duty2 == 65535) { nedges = 0; sleep_ns(now_ns + 2 * period); abc_assert(level[9] == 0 && !nedges, "pulses end with the duration"); abc_reach("timed"); }
			else if (duty2 == 0 || duty2 == 100) abc_assert(level[9] == (duty2 ? 1 : 0), "a change is followed within a period");
			delete e;
		}
	}
	abc_assert(level[9] == 0, "the level is low in the end"); abc_assert(opened() == 0, "the line is released");
}
static void emulator(int sc, int switches) {
	std::strcpy(wanted_path, "/dev/gpiochip0"); log_ = any_log(); Chip chip(0, "abc", log_); chip_ = &chip; scenario = sc; level_put = edges;
	std::vthread t(emulator_user, 0); t.detach(); preempt = switches > 0; budget = switches; spurious = switches > 0; schedule(); abc_reach("end");
}
HARNESS h_emulator_ends() { duty = (unsigned)abc_sym_u64("duty", 0, 65535); duty2 = abc_choice("again", 2) ? 65535 : 100; emulator((int)abc_choice("scenario", 2), SWITCHES); }
HARNESS h_emulator_pulses() { duty = (unsigned)abc_sym_u64("duty", 0, 120); static const unsigned d2[] = { 0, 100, 40, 65535 }; duty2 = d2[abc_choice("then", 4)]; emulator(2 + (int)abc_choice("servo", 2), 0); }
static void emulator_bad(int) {
	unsigned f = (unsigned)abc_choice("frequency", 3) * 500; unsigned lo = (unsigned)abc_sym_u64("min", 0, 3000), hi = (unsigned)abc_sym_u64("max", 0, 3000); bool whole = abc_choice("whole", 2), made = false; failures = 1;
	try { if (whole) { Emu e(chip_, 9, (gpio_pwm_pulse_frequency_t)f, log_); made = true; } else { Emu e(chip_, 9, std::chrono::microseconds(lo), std::chrono::microseconds(hi), (gpio_pwm_pulse_frequency_t)f, log_); made = true; } }
	catch (const std::exception&) { abc_reach("refused"); }
	bool ok = f != 0 && (whole || (lo <= hi && hi <= 1000000 / f)); 
	if (!failed) abc_assert(made == ok, "an emulator is made if its pulses fit its period, and refused otherwise"); abc_assert(opened() == 0, "the line is released");
}
HARNESS h_emulator_refused() {
	std::strcpy(wanted_path, "/dev/gpiochip0"); log_ = any_log(); Chip chip(0, "abc", log_); chip_ = &chip;
	std::vthread t(emulator_bad, 0); t.detach(); preempt = false; schedule(); abc_reach("end");
}
static Bus* bus_; typedef gpio_smbus_motion_tracker<std::centi, Log> Tracker; static int plan[K];
static void tracker_user(int) {
	gpio_smbus_motion<Log> motion(bus_, log_);
	{
		Tracker* t = new Tracker(&motion, log_); bool run = false; std::int16_t d; abc_sym(&d, 2, "depth"); t->set_depth(d); t->set_width(-3);
		abc_assert(!t->is_running(), "a tracker waits to be started");
		for (int i = 0; i < K; i++) {
			if (plan[i] == 0) { t->start(); run = true; } else if (plan[i] == 1) { t->stop(); run = false; }
			else if (plan[i] == 2) sleep_ns(now_ns + 3000000);
			else { sleep_ns(now_ns + 250000000); int n = nx = 4; sleep_ns(now_ns + 2100000); if (run) { abc_assert(nx >= n + 4, "a tracker that was started keeps track"); abc_reach("running"); } else { abc_assert(nx <= n, "a tracker that was stopped does not"); abc_reach("stopped"); } nx = 4; }
			abc_assert(t->is_running() == run, "the tracker tells whether it runs");
		}
		abc_assert(t->depth() == d && t->width() == -3 && t->direction() == 0 && t->speed() == 0, "without motion, nothing moves");
		delete t;
	}
	int n = nx = 4; sleep_ns(now_ns + 5000000); abc_assert(nx == n, "nothing goes on after the end");
}
HARNESS h_tracker() {
	std::strcpy(wanted_path, "/dev/i2c-1"); log_ = any_log(); Bus bus(1, log_); bus_ = &bus; answer = motion_answer; tick = 1000;
	for (int i = 0; i < K; i++) plan[i] = (int)abc_choice("step", 4);
	std::vthread t(tracker_user, 0); t.detach(); preempt = true; budget = SWITCHES; forgets = spurious = true; schedule(); abc_reach("end");
}
static void tracker_bad(int) { try { Tracker t(nullptr, log_); abc_assert(0, "a sensor is needed"); } catch (const std::logic_error&) { abc_reach("refused"); } }
HARNESS h_tracker_refused() { log_ = any_log(); std::vthread t(tracker_bad, 0); t.detach(); preempt = false; schedule(); abc_reach("end"); }

// The path of a tracker: constant acceleration and turn, in exact steps of 1 ms.
static int accel_m, gyro_m; static double from_dir, from_speed; static const double PI = 3.14159265358979323846;
static bool near_to(double a, double b, double e) { double d = a - b; return d < e && d > -e; }
static void path_user(int) {
	gpio_smbus_motion<Log> motion(bus_, log_);
	{
		Tracker t(&motion, log_); sleep_ns(now_ns + 250000000);
		bool again = abc_choice("again", 2); if (again) { t.start(); sleep_ns(now_ns + 2500000); t.stop(); sleep_ns(now_ns + 250000000); abc_assert(t.speed() == 0, "a tracker that was stopped has no speed"); }
		by_channel[0] = (std::int16_t)accel_m; by_channel[5] = (std::int16_t)gyro_m;
		t.start(); sleep_ns(now_ns + 500000 + (long long)abc_choice("before", 2) * 1000000);
		t.set_depth(7); t.set_width(-3); t.set_direction(from_dir); t.set_speed(from_speed);
		sleep_ns(now_ns + K * 1000000);
		double h = gyro_m * 2000.0 / 32767 * .0005 * PI / 180, chord = gyro_m ? __wrap_sin(h) / h : 1;
		double a = accel_m * 16.0 / 32767 * 9.80665 * 100, w = gyro_m * 2000.0 / 32767, v = from_speed, dir = from_dir, x = 7, y = -3;
		for (int i = 0; i < K; i++) { double d = chord * (v * .001 + a * .0000005), mid = (dir + w * .0005) * PI / 180; x += d * __wrap_cos(mid); y += d * __wrap_sin(mid); v += a * .001; dir += w * .001; }
		abc_assert(near_to(t.speed(), v, 1e-2 * .001 * K + 1e-9), "the speed is the acceleration over time");
		abc_assert(near_to(t.direction(), dir, 1e-6), "the direction is the turn over time");
		abc_assert(near_to(t.depth(), x, 1e-5) && near_to(t.width(), y, 1e-5), "the place is the speed over time, along the direction");
		abc_reach("end");
	}
}
HARNESS h_tracker_path() {
	std::strcpy(wanted_path, "/dev/i2c-1"); log_ = any_log(); Bus bus(1, log_); bus_ = &bus; answer = motion_answer; tick = 0;
	static const int as[] = { 0, 100, -2048, 32767 }, gs[] = { 0, 1, -300, 32767, -32768 }, ds[] = { 0, 90, -135, 37 }, vs[] = { 0, 120, -5 };
	accel_m = as[abc_choice("accel", 4)]; gyro_m = gs[abc_choice("gyro", 5)]; from_dir = ds[abc_choice("direction", 4)]; from_speed = vs[abc_choice("speed", 3)];
	std::vthread t(path_user, 0); t.detach(); preempt = false; schedule();
}
