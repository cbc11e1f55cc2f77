// The sample car over modelled devices, connections, time and threads.
#include <cstring>
#include <cstdio>
#include <new>
#include <ratio>
#include <cmath>
#include <tuple>
#include <stdexcept>
#include <sys/stat.h>
#include "abcsym.h"
#define ABC_FILEBUF 4
#ifndef SWITCHES
#define SWITCHES 0
#endif
#ifndef K
#define K 2
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef AFTER
#define AFTER 0
#endif
#ifndef ORDER
#define ORDER 1
#endif
#ifndef BITS
#define BITS 10
#endif
#ifndef N
#define N 3
#endif
#define REQ 2
#define CONN_OUT 900
#define THREADS 6
#include "threads.h"
static long long tick;								// time that passes with every look at the clock
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { now_ns += tick; return time_point(duration(now_ns)); } } } }
#include "src/log.h"
#include "src/exception.h"
#include "src/socket.h"
#include "src/http.h"
#include <fstream>
#include <future>
#define atomic_int32_t vatomic_int
#define atomic_bool vatomic_bool
#define atomic vatomic
#define atomic_int vatomic_int
#define thread vthread
#define mutex vmutex
#define condition_variable vcondition_variable
#define this_thread vthis_thread
#include "src/endpoint.h"
#include "src/gpio.h"
#include "fakes.h"
#include "samples/picar_4wd/car.h"
#undef atomic
#undef atomic_int
#undef thread
#undef mutex
#undef condition_variable
#undef this_thread
using namespace abc; using namespace abc::samples;
#include "devices.h"
struct Small { static constexpr std::size_t method_size = 8, resource_size = 40, protocol_size = 12, file_chunk_size = 4, fsize_size = 8; };
constexpr std::size_t Small::method_size; constexpr std::size_t Small::resource_size; constexpr std::size_t Small::protocol_size; constexpr std::size_t Small::file_chunk_size; constexpr std::size_t Small::fsize_size;
struct Ep : car_endpoint<Small, null_log> { using base = car_endpoint<Small, null_log>; using base::base; using base::process_request; };
extern "C" {	// no request is for a file
	int abc_file_open(const char*, int) { abc_assert(0, "no file is opened"); return -1; }
	long abc_file_read(int, char*, long) { return -1; }
	long abc_file_write(int, const char*, long) { return -1; }
	void abc_file_close(int) {}
}
static bool given; static double number;			// the number that is read, or the one that is written, if it is short
extern "C" double __wrap_strtod(const char* s, char**) {
	if (given) return number;
	int i = 0; bool neg = s[0] == '-'; if (neg) i++; double v = 0;
	for (; i < 6 && s[i]; i++) { int d = -1; for (int c = 0; c <= 9; c++) if (s[i] == '0' + c) { d = c; break; } if (d < 0) break; v = v * 10 + d; }
	return neg ? -v : v;
}
extern "C" double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }
// ---------------------------------------------------------------- the car
enum { FL, FR, RL, RR };
static const unsigned dir_line[4] = { 23, 24, 13, 20 }, pwm_reg[4] = { 0x2d, 0x2c, 0x28, 0x29 }, reload_reg[4] = { 0x47, 0x47, 0x46, 0x46 };
static unsigned word_of(const Xfer& x) { return (unsigned)(x.data[1] | x.data[0] << 8); }	// the hat has the other byte order
static unsigned reload(unsigned reg) { unsigned a = 0; for (int i = 0; i < nx && !a; i++) if (xfer[i].addr == 0x14 && xfer[i].rw == I2C_SMBUS_WRITE && xfer[i].cmd == reg) a = word_of(xfer[i]) + 1; return a; }
static unsigned reloads[5]; static int cm; static bool limited;		// whether less power was left near an obstacle
static int seen; static unsigned power_word[4], servo_word, servo_pulse; static bool resets; static int dir_now[4]; static unsigned gray_reg; static unsigned char gray[3];
static void look(void) {							// at what was sent to the wheels since
	for (; seen < nx; seen++) {
		const Xfer& x = xfer[seen]; if (x.addr != 0x14 || x.rw != I2C_SMBUS_WRITE) continue;
		for (int m = 0; m < 4; m++) if (x.cmd == pwm_reg[m]) { power_word[m] = word_of(x); if (cm == 15 && m == FL && power_word[m] * 10 > reloads[m] * 7 && power_word[m] * 10 < reloads[m] * 8) limited = true; }
		if (x.cmd >= 0x10 && x.cmd <= 0x12) gray_reg = x.cmd;
		if (x.cmd == 0x20) { if (word_of(x)) servo_pulse = word_of(x); servo_word = word_of(x); }
	}
}
// an echo
static long long echo_at, echo_end; static int at_trigger;
static int echo(unsigned pos) { abc_assert(pos == 6, "only the echo is read"); return now_ns >= echo_at && now_ns < echo_end; }
static void changed(unsigned pos, int l) {
	look();
	if (pos == 5) { if (at_trigger && !l) { echo_at = now_ns + 100000 + 4 * tick; echo_end = cm < 0 ? echo_at : echo_at + cm * 58309ll + 10000; } at_trigger = l; return; }
	if (pos == 21) { if (!l) { for (unsigned& w : power_word) w = 0; servo_word = 0; resets = true; } return; }
	for (int m = 0; m < 4; m++) if (pos == dir_line[m]) { if (l != dir_now[m]) abc_assert(!power_word[m], "a wheel is stopped before its direction is changed"); dir_now[m] = l; return; }
	abc_assert(0, "only the lines of the car are set");
}
static unsigned char answers(const Xfer& x, int) { look(); return x.addr != 0x14 ? 0 : gray_reg == 0x12 ? gray[0] : gray_reg == 0x11 ? gray[1] : gray_reg == 0x10 ? gray[2] : 0; }
static Ep* car; static bool car_ends;			// whether a shutdown was asked for, after which requests are not answered any more
static void make(void) {
	static endpoint_config* c = new endpoint_config("8080", 5, "w", "/r/"); consumer = "picar_4wd"; answer = answers; level_now = echo; level_put = changed; tick = 10000; cm = -1; functions = 1; forgets = true; kept = 40;
	car = new Ep(c, nullptr); abc_assert(resets, "the hat is reset at the start");
	for (int m = 0; m < 4; m++) { reloads[m] = reload(reload_reg[m]); abc_assert(reloads[m] > 100, "the timers are set"); } reloads[4] = reload(0x44); abc_assert(reloads[4] > 100, "the timers are set");
	seen = nx = 4; kept = 4;
}
static void look_for_room(void) { look(); if (nx > 60) seen = nx = 4; }		// the log of transfers is short
static int request(int c, const char* in, std::size_t n) {
	look_for_room(); Conn& k = conn[c]; k.in = in; k.nin = n; k.rin = k.nout = 0;
	try { car->process_request(Cli(c)); } catch (...) { abc_assert(0, "no request makes an exception leave a thread of the server, which would end the process"); }
	look();
	abc_assert(!k.open, "the connection is closed after the request"); if (car_ends && !k.nout) return 0;
	abc_assert(k.nout, "every request gets a response");
	return parse(k).status;
}
#define JSON_REQUEST "Content-Type: application/json\r\n\r\n"
static int post(int c, const char* resource, const char* property, int v) { char in[160]; std::snprintf(in, sizeof(in), "POST %s HTTP/1.1\r\n" JSON_REQUEST "{\"%s\":%d}", resource, property, v); return request(c, in, std::strlen(in)); }
// what the wheels do, as a reference
struct Model {
	bool forward; int power, turn;
	void side_powers(int& l, int& r) const {
		int a = turn < 0 ? -turn : turn, d = a == 30 ? 11 : a == 60 ? 25 : a == 90 ? 50 : 0; if (turn < 0) d = -d;
		l = power + d; r = power - d; int hi = l > r ? l : r, lo = l > r ? r : l, by = hi > 100 ? 100 - hi : lo < 0 ? -lo : 0; l += by; r += by;
	}
	void check(const char* what) const {
		int l, r; side_powers(l, r);
		for (int m = 0; m < 4; m++) {
			unsigned w = power_word[m], d = (unsigned)(m == FL || m == RL ? l : r), a = reloads[m];
			if (l || r) abc_assert(dir_now[m] == (forward ? 0 : 1), "the wheels turn in the direction that was asked for");
			abc_assert(d ? w * 100 <= d * a + 100 && w * 100 + 100 >= d * a : !w, what);
		}
	}
	void set_power(int p) { if (p) forward = p > 0; else { turn = 0; forward = true; } power = p < 0 ? -p : p; }
};
static Model model;
static const char* const WHEELS = "the wheels have the power that was asked for";
static void drive_any(int c) {
	if (abc_choice("what", 2)) { int p = 25 * ((int)abc_choice("power", 9) - 4); abc_assert(post(c, "/power", "power", p) == 200, "a power is accepted"); model.set_power(p); abc_reach("power"); }
	else { int t = 30 * ((int)abc_choice("turn", 7) - 3); abc_assert(post(c, "/turn", "turn", t) == 200, "a turn is accepted"); model.turn = t; abc_reach("turn"); }
	model.check(WHEELS);
}
static long told[8]; static int ntold;
static void autos(void) {
	const char* in = "GET /autos HTTP/1.1\r\n\r\n"; abc_assert(request(0, in, std::strlen(in)) == 200, "the measurements are told"); Response r = parse(conn[0]);
	abc_assert(r.type_len >= 16 && !std::memcmp(r.type, "application/json", 16) && r.length && r.body[0] == '{' && r.body[r.length - 1] == '}', "the body is JSON"); ntold = 0;
	for (std::size_t i = 0; i < r.length;) { if (r.body[i] < '0' || r.body[i] > '9') { i++; continue; } long v = 0; while (i < r.length && r.body[i] >= '0' && r.body[i] <= '9') v = v * 10 + (r.body[i++] - '0'); abc_assert(ntold < 8, "model"); told[ntold++] = v; }
	abc_assert(ntold == 6, "the distance to an obstacle, the grayscales, depth and width are told");
}
static void round_of_autos(void) {					// the car looks around
	static const int cms[] = { -1, 2, 7, 15, 25, 40 }; unsigned o = (unsigned)abc_choice("obstacle", 6); cm = cms[o]; for (unsigned i = 0; i < 3; i++) gray[i] = (unsigned char)(5 * o + i + 1);
	sleep_ns(now_ns + 30000000); look_for_room(); autos();
	if (cm < 0) abc_assert(told[0] == 100, "no obstacle is told if there is none"); else abc_assert(told[0] + 2 >= cm && told[0] <= cm + 2, "the distance to an obstacle is told");
	for (int i = 0; i < 3; i++) abc_assert(told[1 + i] == gray[i] * 257, "the grayscales are told");
	long d = told[0]; int most = d < 5 ? 0 : d < 10 ? 25 : d < 20 ? 50 : d < 30 ? 75 : 100;
	if (model.forward && model.power > most) { model.power -= 25; if (!model.power) model.turn = 0; abc_reach("limited"); }
	model.check("near an obstacle ahead, less power is left, and otherwise as much as was asked for");
}
static void end_of_car(void) {
	const char* in = "POST /shutdown HTTP/1.1\r\n\r\n"; resets = false; car_ends = true; abc_assert(request(0, in, std::strlen(in)) == 200 && promised <= 1, "shutdown can be asked for"); abc_assert(resets, "the hat is reset at the end"); preempt = false; in_order = true;
	for (unsigned w : power_word) abc_assert(!w, "no wheel turns after the end");
	sleep_ns(now_ns + 5000000); look_for_room(); for (unsigned w : power_word) abc_assert(!w, "no wheel turns after the end");
	delete car; abc_assert(opened() == 0, "all devices are closed in the end");
}
static void run(void (*f)(int), bool p) { std::vthread t(f, 0); t.detach(); preempt = p; budget = SWITCHES; schedule(); }
static void drive(int) {
	for (int i = 0; i < K; i++) drive_any(0);
	for (int i = 0; i < ROUNDS; i++) { if (i) { sleep_ns(now_ns + 100000000); look_for_room(); sleep_ns(now_ns + 115000000); look_for_room(); } round_of_autos(); }
	for (int i = 0; i < AFTER; i++) drive_any(0);
	abc_reach("end"); finished = true;
}
HARNESS h_drive() { make(); in_order = true; model.forward = true; run(drive, false); }

// any number
HARNESS h_number() {
	make(); model.forward = true; static const char* const resource[] = { "/power", "/turn", "/servo" }; static const char* const property[] = { "power", "turn", "angle" };
	unsigned r = (unsigned)abc_choice("resource", 3); int hi = r ? 90 : 100, step = r ? 30 : 25; if (r == 1) { post(0, "/power", "power", 50); model.set_power(50); }
	long v = (long)abc_sym_u64("number", 0, 1u << BITS) - (1 << (BITS - 1)); number = (double)v; given = true; servo_pulse = 0; long long t0 = now_ns;
	char in[160]; std::snprintf(in, sizeof(in), "POST %s HTTP/1.1\r\n" JSON_REQUEST "{\"%s\":1}", resource[r], property[r]); int s = request(0, in, std::strlen(in)); given = false;
	bool ok = (v >= -hi) & (v <= hi) & (v % step == 0); abc_assert((s == 200) == ok && (s == 200 || s == 400), "a number is accepted if and only if it is one of the steps of its range");
	if (ok && r == 0) model.set_power((int)v);
	if (ok && r == 1) model.turn = (int)v;
	if (r == 2) {
		if (ok) {	// -90 to 90 degrees are 180/184 of the pulses from 2500 to 500 us
			long us = (long)servo_pulse * 20000 / (long)reloads[4], want = 1500 - v * 2000 / 184; abc_assert(us >= want - 45 && us <= want + 45 && us >= 500 && us <= 2500, "the servo is turned by the angle that was asked for"); abc_assert(now_ns - t0 >= 250000000, "the servo gets its time");
		}
		else abc_assert(!servo_pulse, "a request that is refused does nothing"); abc_assert(!servo_word, "the servo gets no pulses in the end");
	}
	model.check(WHEELS); abc_reach(ok ? "accepted" : "refused");
}
HARNESS h_errors() {
	make(); model.forward = true; post(0, "/power", "power", 50); post(0, "/turn", "turn", -30); model.set_power(50); model.turn = -30; servo_pulse = 0; resets = false;
	static const char* const method[] = { "GET", "POST", "PUT", "post" }; unsigned m = (unsigned)abc_choice("method", 4); bool post = m == 1 || m == 3;
	static const char* const resource[] = { "/power", "/turn", "/servo", "/autos", "/powers", "/", "/Power", "/turn/" }; unsigned r = (unsigned)abc_choice("resource", 8), kind = r == 6 ? 0 : r;
	static const char* const headers[] = { "", "Content-Type: application/json\r\n", "Content-Type: text/plain\r\n", "Content-Type: application/json\r\nContent-Type: application/json\r\n", "Accept: x\r\ncontent-type: application/json; charset=utf-8\r\nA: b\r\n" }; unsigned h = (unsigned)abc_choice("headers", 8);
	// a value that does not fit, one that does, and one that does up to its space
	char longer[1200]; std::memset(longer, 'x', sizeof(longer)); std::memcpy(longer, "A: ", 3);
	std::snprintf(longer + (h == 5 ? 1100 : h == 6 ? 1026 : 1027), 60, "%s\r\nContent-Type: application/json\r\n", h == 7 ? " x" : "");
	static const char* const body[] = { "{\"power\":75}", "{\"turn\":60}", "{\"angle\":30}", "", "{", "[75]", "{\"power\":101}", "{\"power\":\"75\"}", "{\"turn\":45}", "{\"turn\":-120}", "{\"angle\":null}", "{\"angle\":10}", "{\"power\"", "75", "{\"power\":-101}", "{\"power\":30}" }; unsigned b = (unsigned)abc_choice("body", 16);
	char in[1500]; std::snprintf(in, sizeof(in), "%s %s HTTP/1.1\r\n%s\r\n%s", method[m], resource[r], h > 4 ? longer : headers[h], body[b]);
	int s = request(0, in, std::strlen(in)); bool json = h == 1 || h == 4 || h == 6;
	if (kind > 3) abc_assert(s == 404, "another resource is not found");
	else if (kind == 3) abc_assert(s == (m == 0 ? 200 : 405), "the measurements are told");
	else if (!post) abc_assert(s == 405, "another method is not allowed");
	else if (h && !json) abc_assert(s == 400, "what is not JSON is a bad request");
	else if (kind != b) abc_assert(s == 400, "another body is a bad request");
	else if (h) { abc_assert(s == 200, "a request is accepted"); abc_reach("accepted"); }
	bool done = s == 200 && kind < 3; if (done && kind == 0) model.set_power(75); if (done && kind == 1) model.turn = 60;
	abc_assert(!resets && !promised && !servo_pulse == !(done && kind == 2), "nothing else is done"); model.check(WHEELS); if (s >= 400) abc_reach("refused"); abc_reach("end");
}
HARNESS h_garbage() {
	make(); model.forward = true; post(0, "/power", "power", 50); model.set_power(50); servo_pulse = 0; resets = false;
	static const char* const start[] = { "POST /power HTTP/1.1\r\n" JSON_REQUEST, "POST /turn HTTP/1.1\r\n" JSON_REQUEST "{\"", "POST /servo HTTP/1.1\r\n", "GET /aut", "POST /servo HTTP/1.1\r\n" JSON_REQUEST "{\"angle\":" };
	unsigned w = (unsigned)abc_choice("start", 5); std::size_t len = abc_choice("len", N + 1); char in[200]; std::strcpy(in, start[w]); std::size_t n = std::strlen(in); abc_sym(in + n, len, "bytes");
	int s = request(0, in, n + len); if (w == 4 && s == 200) abc_assert(servo_pulse, "an angle is accepted"); else { abc_assert(s >= 400 && !servo_pulse, "what is not understood is an error"); }
	abc_assert(!resets && !promised, "nothing else is done"); model.check(WHEELS); abc_reach("end");
}
// requests at the same time, and the car looking around
static int scenario, left_; static bool same(const Model& m) { int l, r; m.side_powers(l, r); for (int i = 0; i < 4; i++) { unsigned w = power_word[i], d = (unsigned)(i == FL || i == RL ? l : r), a = reloads[i]; if ((l || r) && dir_now[i] != (m.forward ? 0 : 1)) return false; if (d ? !(w * 100 <= d * a + 100 && w * 100 + 100 >= d * a) : w != 0) return false; } return true; }
static void other(int) {
	int s = 200;
	switch (scenario) { case 0: sleep_ns(now_ns + (long long)abc_choice("when", 4) * 1000000); s = post(1, "/power", "power", 0); break; case 1: s = post(1, "/turn", "turn", 60); break; case 2: case 3: s = post(1, "/power", "power", -50); break; }
	abc_assert(s == 200 || (!s && scenario == 3), "a request is accepted"); left_--;
}
static void several(int) {
	scenario = (int)abc_choice("scenario", 4); int first = 100; model.forward = true;
	abc_assert(post(0, "/power", "power", first) == 200, "a power is accepted"); model.set_power(first); model.check(WHEELS);
	preempt = true; left_ = 1; tick = 200000;
	{ std::vthread t(other, 0); t.detach(); }
	bool end = false;
	switch (scenario) {
	case 0: cm = 15; break;											// an obstacle while it is stopped
	case 1: case 2: abc_assert(post(0, "/power", "power", 75) == 200, "a power is accepted"); break;
	case 3: { car_ends = true; const char* in = "POST /shutdown HTTP/1.1\r\n\r\n"; abc_assert(request(0, in, std::strlen(in)) == 200, "shutdown can be asked for"); end = true; break; }
	}
	sleep_ns(now_ns + 6000000); preempt = false; in_order = true; sleep_ns(now_ns + 15000000); abc_assert(!left_ || end, "a request ends"); look();
	Model a = model; bool ok = false;
	switch (scenario) {
	case 0: a.set_power(0); ok = same(a); break;
	case 1: a.set_power(75); a.turn = 60; ok = same(a); break;
	case 2: { Model b = a; a.set_power(75); b.set_power(-50); ok = same(a) || same(b); break; }
	case 3: ok = true; for (unsigned w : power_word) ok = ok && !w; break;
	}
	abc_assert(ok, end ? "no wheel turns after the end" : "requests at the same time have the effect of one after the other"); abc_reach("end"); if (limited) abc_reach("limited"); finished = true;
}
HARNESS h_several() { make(); in_order = ORDER; run(several, false); }
static void ends(int) { if (abc_choice("power", 2)) post(0, "/power", "power", 100); preempt = true; tick = 200000; sleep_ns(now_ns + (long long)abc_choice("when", 4) * 1500000); end_of_car(); abc_reach("end"); if (limited) abc_reach("limited"); }
HARNESS h_end() { make(); in_order = ORDER; if (abc_choice("near", 2)) cm = 15; model.forward = true; run(ends, false); }
