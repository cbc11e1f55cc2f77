// The sample REST service that solves systems of two linear equations, over modelled connections.
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <new>
#include <tuple>
#include <thread>
#include <mutex>
#include <atomic>
#include <stdexcept>
#include <sys/stat.h>
#include "abcsym.h"
#define ABC_FILEBUF 4
#define SWITCHES 0
#define REQ 1
#define CONN_OUT 900
#ifndef N
#define N 4
#endif
#ifndef BITS
#define BITS 0
#endif
#ifndef VALUES
#define VALUES 3
#endif
#include "threads.h"
#include "src/log.h"
#include "src/socket.h"
#include "src/http.h"
#include <fstream>
#include <future>
#define atomic_int32_t vatomic_int
#define atomic_bool vatomic_bool
#define atomic vatomic
#define atomic_int vatomic_int
#define thread vthread
#define mutex vmutex
#include "src/endpoint.h"
#include "fakes.h"
#include "samples/basic/equations.h"
#undef atomic
#undef atomic_int
#undef thread
#undef mutex
using namespace abc; using namespace abc::samples;
struct Small { static constexpr std::size_t method_size = 8, resource_size = 40, protocol_size = 12, file_chunk_size = 4, fsize_size = 8; };
constexpr std::size_t Small::method_size; constexpr std::size_t Small::resource_size; constexpr std::size_t Small::protocol_size; constexpr std::size_t Small::file_chunk_size; constexpr std::size_t Small::fsize_size;
struct Ep : equations_endpoint<Small, null_log> { using base = equations_endpoint<Small, null_log>; using base::base; using base::process_request; };
static endpoint_config& config() { static endpoint_config* c = nullptr; if (!c) c = new endpoint_config("8080", 5, "w", "/r/"); return *c; }
extern "C" {	// no request is for a file
	int abc_file_open(const char*, int) { abc_assert(0, "no file is opened"); return -1; }
	long abc_file_read(int, char*, long) { return -1; }
	long abc_file_write(int, const char*, long) { return -1; }
	void abc_file_close(int) {}
}
// the numbers that are read, in order, and those that are written
static double in_number[8]; static int nread; static double out_number[8]; static int nwritten;
extern "C" double __wrap_strtod(const char*, char**) { return nread < 8 ? in_number[nread++] : 0; }
extern "C" double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }
extern "C" int __wrap_snprintf(char* b, std::size_t n, const char* f, ...) {
	va_list ap; va_start(ap, f); int r;
	if (f[0] == '%' && std::strchr(f, 'g')) { double d = va_arg(ap, double); abc_assert(nwritten < 3, "three numbers are answered"); out_number[nwritten++] = d; const char* s = "-2.5e+10"; for (r = 0; s[r]; r++) if ((std::size_t)r + 1 < n) b[r] = s[r]; b[r] = 0; }
	else r = vsnprintf(b, n, f, ap);
	va_end(ap); return r;
}
static Response request(const char* in, std::size_t n) {
	static Ep ep(&config(), nullptr);
	Conn& k = conn[0]; k.in = in; k.nin = n; k.rin = k.nout = 0; nread = nwritten = 0;
	try { ep.process_request(Cli(0)); } catch (...) { abc_assert(0, "no request makes an exception leave a thread of the server, which would end the process"); }
	abc_assert(!k.open, "the connection is closed after the request"); abc_assert(k.nout, "every request gets a response");
	return parse(k);
}
#define JSON_REQUEST "Content-Type: application/json\r\n\r\n"
static const char* const format[] = { "{\"a\":[[1,1],[1,1]],\"b\":[1,1]}", "{\"b\":[1,1],\"a\":[[1,1],[1,1]]}", "{\"c\":{\"a\":\"\"},\"a\":[[1,1],[1,1]],\"d\":[true,null],\"b\":[1,1]}" };
static void ask(unsigned f, Response& r) { char in[200]; std::snprintf(in, sizeof(in), "POST /problem HTTP/1.1\r\n" JSON_REQUEST "%s", format[f]); r = request(in, std::strlen(in)); }
static const char expected[] = "{\"status\":-2.5e+10,\"x\":-2.5e+10,\"y\":-2.5e+10}";
static void solved(const Response& r) {
	abc_assert(r.status == 200 && nwritten == 3 && r.length == sizeof(expected) - 1 && !std::memcmp(r.body, expected, sizeof(expected) - 1), "the answer is complete");
}
static bool near(double v) { return (v < 1e-9) & (v > -1e-9); }
// small whole numbers: the answer is that of exact arithmetic
HARNESS h_solve() {
	long v[6]; unsigned f = (unsigned)abc_choice("order", 3);
	for (int i = 0; i < 6; i++) { v[i] = (long)abc_choice("number", VALUES) - 1; in_number[i] = (double)v[i]; }
	const long* a = f == 1 ? v + 2 : v; const long* b = f == 1 ? v : v + 4;
	Response r; ask(f, r); solved(r);
	long det = a[0] * a[3] - a[1] * a[2];
	if (det) {
		abc_assert(out_number[0] == 1, "a system with one solution has one"); double x = out_number[1], y = out_number[2];
		abc_assert(near(a[0] * x + a[1] * y - b[0]) && near(a[2] * x + a[3] * y - b[1]), "the solution solves the system"); abc_reach("one");
	}
	else {
		long dx = b[0] * a[3] - a[1] * b[1], dy = a[0] * b[1] - b[0] * a[2];
		bool impossible = (!a[0] && !a[1] && b[0]) || (!a[2] && !a[3] && b[1]);
		if (dx || dy || impossible) { abc_assert(out_number[0] == 0, "a contradiction has no solution"); abc_reach("none"); }
		else { abc_assert(out_number[0] == 2, "a dependent system has many solutions"); abc_reach("many"); }
	}
}
// any two numbers with BITS leading bits of a fraction: one complete answer or an error
HARNESS h_numbers() {
	double p, q; std::uint64_t top[2]; abc_sym(top, sizeof top, "numbers"); for (std::uint64_t& t : top) t = t >> (52 - BITS) << (52 - BITS); std::memcpy(&p, top, sizeof(p)); std::memcpy(&q, top + 1, sizeof(q)); abc_assume((p == p) & (q == q));
	in_number[0] = p; in_number[3] = 1; in_number[4] = q; in_number[5] = 1;			// px = q, y = 1
	Response r; ask(2, r);
	if (r.status == 200) { solved(r); abc_reach("solved"); } else { abc_assert(r.status >= 400, "what has no answer is an error"); abc_reach("refused"); }
}
HARNESS h_errors() {
	static const char* const method[] = { "GET", "POST", "PUT" }; unsigned m = (unsigned)abc_choice("method", 3);
	static const char* const resource[] = { "/problem", "/problems", "/", "/shutdown", "/PROBLEM" }; unsigned s = (unsigned)abc_choice("resource", 5);
	static const char* const headers[] = { "", "Content-Type: application/json\r\n", "Content-Type: text/plain\r\n", "Content-Type: application/json\r\nContent-Type: application/json\r\n", "Accept: x\r\ncontent-type: application/json; charset=utf-8\r\nA: b\r\n" }; unsigned h = (unsigned)abc_choice("headers", 8);
	// a value that does not fit, one that does, and one that does up to its space
	char longer[1200]; std::memset(longer, 'x', sizeof(longer)); std::memcpy(longer, "A: ", 3);
	std::snprintf(longer + (h == 5 ? 1100 : h == 6 ? 1026 : 1027), 60, "%s\r\nContent-Type: application/json\r\n", h == 7 ? " x" : "");
	static const char* const body[] = { "{\"a\":[[1,1],[1,1]],\"b\":[1,1]}", "", "[]", "{\"a\":[[1,1],[1,1]]}", "{\"b\":[1,1]}", "{\"a\":[1,1],\"b\":[1,1]}", "{\"a\":[[1,1],[1,1]],\"b\":[1,1,1]}", "{\"a\":[[1,1],[1,1],[1,1]],\"b\":[1,1]}", "{\"a\":[[1,1],[1]],\"b\":[1,1]}", "{\"a\":[[1,1],[1,\"1\"]],\"b\":[1,1]}", "{\"a\":[[1,1],[1,1]],\"b\":[1,1]", "{\"a\":[[1,1],[1,1]] \"b\":[1,1]}", "{\"a\":[[1,1],[1,1]],\"b\":null}" };
	unsigned b = (unsigned)abc_choice("body", 13);
	for (int i = 0; i < 8; i++) in_number[i] = i == 0 || i == 3 ? 2 : 1;
	char in[1500]; std::snprintf(in, sizeof(in), "%s %s HTTP/1.1\r\n%s\r\n%s", method[m], resource[s], h > 4 ? longer : headers[h], body[b]);
	Response r = request(in, std::strlen(in));
	if (s == 3 && m == 1) { abc_assert(r.status == 200 && promised == 1, "shutdown can be asked for"); return; }
	abc_assert(!promised, "the end of the shutdown is reported when it was asked for");
	if (s != 0 && s != 4) { abc_assert(r.status == 404, "another resource is not found"); return; }
	if (m != 1) { abc_assert(r.status == 405, "another method is not allowed"); return; }
	if (h == 2 || h == 3 || h == 5 || h == 7 || b) { abc_assert(r.status == 400, "what is not a problem's JSON is a bad request"); abc_reach("refused"); return; }
	if (h) { solved(r); abc_assert(out_number[0] == 1, "a system with one solution has one"); abc_reach("solved"); }
}
HARNESS h_garbage() {
	char in[200]; static const char* const start[] = { "POST /problem HTTP/1.1\r\n" JSON_REQUEST, "POST /problem HTTP/1.1\r\n" JSON_REQUEST "{\"a\":[[1,", "POST /problem HTTP/1.1\r\n", "POST /probl" };
	unsigned w = (unsigned)abc_choice("start", 4); std::size_t len = abc_choice("len", N + 1);
	std::strcpy(in, start[w]); std::size_t n = std::strlen(in); abc_sym(in + n, len, "bytes");
	Response r = request(in, n + len); abc_assert(r.status >= 400, "what is not a problem is an error"); abc_reach("end");
}
