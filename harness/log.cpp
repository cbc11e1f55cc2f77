// Line and log streams, timestamps, character classes, buffer streams.
#include <cstring>
#include <cstdio>
#include <new>
#include "abcsym.h"
#include "src/buffer_streambuf.h"
#include "src/timestamp.h"
#include "src/table.h"
#include "src/log.h"
#include "src/ascii.h"
using namespace abc;
#ifndef SIZE
#define SIZE 8
#endif
#ifndef N
#define N 4
#endif
#ifndef K
#define K 3
#endif
struct Buf : buffer_streambuf {
	using buffer_streambuf::basic_buffer_streambuf;
	std::size_t written() { return pptr() - pbase(); }
};
// ---------------------------------------------------------------- lines
struct Expect {		// what has been put into the current line, and what the table must hold
	char t[K * (N + 1) + 8]; std::size_t n = 0; std::size_t taken = 0;
	void line(const char* p, std::size_t len) {		// the line as observed
		abc_assert(n < SIZE ? len == n : len + 1 >= SIZE && len <= SIZE, "a line holds all that was put, up to its size");
		for (std::size_t i = 0; i < len && i < SIZE; i++) abc_assert(p[i] == t[i], "a line starts with what was put, in order");
	}
};
HARNESS h_line() {
	char* out = new char[(K + 3) * (SIZE + 2)];
	Buf sb(nullptr, 0, 0, out, 0, (K + 3) * (SIZE + 2));
	table_ostream table(&sb);
	Expect e; char text[N + 1];
	alignas(16) char mem[2][sizeof(line_ostream<SIZE>)]; int cur = 0; bool moved = false;
	line_ostream<SIZE>* line = new (mem[0]) line_ostream<SIZE>(&table);
	for (int k = 0; k < K; k++) {
		unsigned op = (unsigned)abc_choice("op", moved ? 4 : 5);
		if (op <= 1) {
			std::size_t len = abc_choice("len", N + 1); abc_sym(text, N, "text"); text[len] = 0;
			for (std::size_t i = 0; i < len; i++) { abc_assume(text[i] != 0 && text[i] != '\n'); e.t[e.n++] = text[i]; }
			if (op == 0) line->put_any("%s", text); else { line->put_any("%c%s", '-', text); std::memmove(e.t + e.n - len + 1, e.t + e.n - len, len); e.t[e.n - len] = '-'; e.n++; }
			if (e.n > SIZE) abc_reach("long");
		}
		else if (op == 2) { const char* p = line->get(); std::size_t l = 0; while (l <= SIZE && p[l]) l++; e.line(p, l); }
		else if (op == 3) {
			std::size_t before = sb.written(); line->flush();
			std::size_t len = sb.written() - before;
			abc_assert(len > 0 && out[sb.written() - 1] == '\n', "a flushed line ends with a line feed");
			for (std::size_t i = 0; i + 1 < len; i++) abc_assert(out[before + i] != '\n', "one line feed per line");
			e.line(out + before, len - 1); e.n = 0; abc_reach("flush");
		}
		else {
			line_ostream<SIZE>* l2 = new (mem[1]) line_ostream<SIZE>(std::move(*line));
			std::size_t before = sb.written();
			line->~line_ostream<SIZE>();
			abc_assert(sb.written() == before, "a line that was moved away is not put out by the old stream");
			abc_uninit(mem[0], sizeof mem[0]);
			line = l2; moved = true; abc_reach("moved");
		}
	}
	std::size_t before = sb.written();
	line->~line_ostream<SIZE>();
	std::size_t len = sb.written() - before;
	if (e.n) { abc_assert(len > 0 && out[sb.written() - 1] == '\n', "an unfinished line is put out at the end"); e.line(out + before, len - 1); }
	else abc_assert(len <= 1 && (len == 0 || out[sb.written() - 1] == '\n'), "nothing else is put out");
	abc_reach("end");
	delete[] out;
}
// ---------------------------------------------------------------- log entries
struct Clk {
	typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Clk> time_point; static const bool is_steady = false;
	static long long t; static time_point now() noexcept { return time_point(duration(t)); }
};
long long Clk::t = 0;
static void hexs(char* o, unsigned long long v, unsigned digits) { for (unsigned i = 0; i < digits; i++) o[digits - 1 - i] = "0123456789abcdef"[(v >> (4 * i)) & 15]; }
static void dec(char* o, unsigned v, unsigned digits) { for (unsigned i = 0; i < digits; i++) { o[digits - 1 - i] = (char)('0' + v % 10); v /= 10; } }
struct Ref { char b[256]; std::size_t n = 0; void s(const char* p) { while (*p) b[n++] = *p++; } void s(const char* p, std::size_t l) { while (l--) b[n++] = *p++; } };
#ifndef LSIZE
#define LSIZE 160
#endif
#ifndef FORMAT
#define FORMAT 0
#endif
#if FORMAT == 0
typedef debug_line_ostream<LSIZE, Clk> Line;
#elif FORMAT == 1
typedef diag_line_ostream<LSIZE, Clk> Line;
#else
typedef test_line_ostream<LSIZE, Clk> Line;
#endif
static void tid(Ref& r, bool pad) {
	line_ostream<64> l; l.put_thread_id(std::this_thread::get_id()); const char* p = l.get(); std::size_t n = std::strlen(p);
	abc_assert(n > 0 && n <= 16, "thread id");
	if (pad) for (std::size_t i = n; i < 16; i++) r.s(" ");
	r.s(p);
}
static void props(Ref& r, category_t c, severity_t s, tag_t t) {
	// 2026-11-19 20:23:42.007
	if (FORMAT == 0) {
		char x[17] = {};
		r.s("2026-11-19 20:23:42.007 | "); tid(r, true); r.s(" | "); hexs(x, c, 4); r.s(x, 4); r.s(" | ");
		hexs(x, s, 2); if (s < 16) r.s(x + 1, 1); else r.s(x, 2); r.s(" | ");
		char h[16]; hexs(h, t, 16); std::size_t z = 0; while (z < 15 && h[z] == '0') h[z++] = ' '; r.s(h, 16); r.s(" | ");
	}
	else if (FORMAT == 1) {
		char x[17] = {};
		r.s("2026-11-19T20:23:42.007Z,"); tid(r, false); r.s(","); hexs(x, c, 4); r.s(x, 4); r.s(",");
		hexs(x, s, 2); if (s < 16) r.s(x + 1, 1); else r.s(x, 2); r.s(",");
		char h[16]; hexs(h, t, 16); std::size_t z = 0; while (z < 15 && h[z] == '0') z++; r.s(h + z, 16 - z); r.s(",");
	}
	else {
		r.s("2026-11-19 20:23:42.007 ");
		if (s > 8) s = 8;
		for (int i = 1; i < s; i++) r.s("  ");
	}
}
static const long long NOW = 1795119822ll * 1000000000 + 7000000;	// 2026-11-19 20:23:42.007
HARNESS h_entry() {
	Clk::t = NOW;
	char out[2 * LSIZE]; Buf sb(nullptr, 0, 0, out, 0, sizeof out);
	severity_t min = (severity_t)abc_sym_u64("min", 0, 255), s = (severity_t)abc_sym_u64("severity", 0, 255); category_t c = (category_t)abc_sym_u64("category", 0, 0xffff);
	tag_t t = abc_sym_u64("tag", 0, UINT64_MAX);
	bool filtered = abc_choice("filter", 2) != 0;
	unsigned how = (unsigned)abc_choice("how", 4);		// an entry of the log, an entry after the minimum was changed, a blank line, or a line of its own
	severity_t first = how == 1 ? (severity_t)abc_sym_u64("first_min", 0, 255) : min;
	log_filter filter(first); if (how == 1) { abc_assert(filter.min_severity(min) == first, "the minimum that is replaced is returned"); abc_reach("changed"); } abc_assert(filter.min_severity() == min, "the minimum that was set");
	log_ostream<Line, log_filter> log(&sb, filtered ? &filter : nullptr);
	std::size_t len = abc_choice("len", N + 1); char text[N + 1]; abc_sym(text, N, "text"); text[len] = 0; for (std::size_t i = 0; i < len; i++) abc_assume(text[i] != 0);
	if (how == 2) {
		log.put_blank_line(c, s); bool put = !filtered || s <= min;
		abc_assert(sb.written() == (put ? 1u : 0u) && (!put || out[0] == '\n'), "a blank line is put unless its severity is below the minimum"); abc_reach("blank"); return;
	}
	if (how == 3) { filtered = false; Line line(&log); line.put_any(c, s, t, "%s:%u", text, 7u); }
	else log.put_any(c, s, t, "%s:%u", text, 7u);
	if (filtered && s > min) { abc_reach("suppressed"); abc_assert(sb.written() == 0, "an entry below the minimum severity leaves no trace"); return; }
	Ref r; props(r, c, s, t); r.s(text); r.s(":7");
	std::size_t n = sb.written();
	abc_assert(n > 0 && out[n - 1] == '\n', "one line is put per entry"); n--;
	abc_assert(r.n < LSIZE ? n == r.n : n + 1 >= LSIZE && n <= LSIZE, "the line is complete, or cut at its size");
	for (std::size_t i = 0; i < n && i < r.n; i++) abc_assert(out[i] == r.b[i], "the line holds the fields and the text");
	abc_reach("line");
}
HARNESS h_binary() {
	Clk::t = NOW;
	std::size_t len = abc_choice("len", N + 1); unsigned char* data = new unsigned char[len];
	for (std::size_t i = 0; i < len; i++) data[i] = (unsigned char)(i * 7 + 3);
	if (len) { abc_sym(data, 1, "first"); abc_sym(data + len - 1, 1, "last"); abc_sym(data + abc_choice("at", len), 1, "any"); }		// three bytes are arbitrary, one of them anywhere
	char out[4 * LSIZE]; Buf sb(nullptr, 0, 0, out, 0, sizeof out);
	log_filter filter((severity_t)abc_sym_u64("min", 0, 255)); bool filtered = abc_choice("filter", 2);
	log_ostream<Line, log_filter> log(&sb, filtered ? &filter : nullptr);
	if (filtered) { log.put_binary(0x8001, 3, 0x1234, data, len); if (filter.min_severity() < 3) { abc_assert(sb.written() == 0, "an entry below the minimum severity leaves no trace"); delete[] data; return; } }
	else { Line line(&log); line.put_binary(0x8001, 3, 0x1234, data, len); }
	std::size_t p = 0;
	for (std::size_t o = 0; o < len || o == 0; o += 16) {
		Ref r; props(r, 0x8001, 3, 0x1234);
		if (o < len) {
			char x[8]; hexs(x, o, 4); x[4] = ':'; r.s(x, 5);
			for (unsigned i = 0; i < 16; i++) { if (i % 8 == 0) r.s(" "); hexs(x, o + i < len ? data[o + i] : 0, 2); r.s(o + i < len ? x : "  ", 2); r.s(" "); }
			r.s(" ");
			for (unsigned i = 0; i < 16; i++) { char c = o + i < len ? (char)data[o + i] : ' '; if (o + i < len && (data[o + i] < 0x20 || data[o + i] > 0x7e)) c = '.'; r.s(&c, 1); }
		}
		r.s("\n");
		abc_assert(p + r.n <= sb.written(), "a line per 16 bytes");
		for (std::size_t i = 0; i < r.n; i++) abc_assert(out[p + i] == r.b[i], "the dump shows every byte once, in order");
		p += r.n;
	}
	abc_assert(p == sb.written(), "nothing but the dump is put");
	abc_reach("end");
	delete[] data;
}
HARNESS h_thread_id() {
	line_ostream<64> l;
	l.put_thread_id(std::thread::id(), "<%s>");
	const char* p = l.get(); std::size_t n = std::strlen(p);
	abc_assert(n >= 2 && n <= 64 && p[0] == '<' && p[n - 1] == '>', "no thread: some short text");
	abc_reach("end");
}
// ---------------------------------------------------------------- timestamps
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int cum[13] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 };
#ifndef DAYS
#define DAYS 106751
#endif
#ifndef CHUNK
#define CHUNK 1461
#endif
HARNESS h_date() {
	// days are handled in blocks of CHUNK so that the solver sees small ranges
	long long base = (long long)abc_choice("block", DAYS / CHUNK + 1) * CHUNK;
	int off = (int)abc_sym_u64("day", 0, CHUNK - 1);
	int days = (int)base + off;
	timestamp<Clk> ts(nullptr);
	ts.reset_date(days);
	int y = ts.year(), m = ts.month(), d = ts.day();
	abc_assert(y >= 1970 && m >= 1 && m <= 12 && d >= 1, "a date");
	m = (int)abc_concretize(m); y = (int)abc_concretize(y);
	abc_assert(d <= cum[m] - cum[m - 1] + (m == 2 && leap(y)), "a day of that month");
	int p = y - 1;
	int n = (y - 1970) * 365 + (p / 4 - p / 100 + p / 400) - (1969 / 4 - 1969 / 100 + 1969 / 400) + cum[m - 1] + (m > 2 && leap(y)) + d - 1;
	abc_assert(n == days, "the civil date of that day");
	if (m == 2 && d == 29) abc_reach("leap day");
	abc_reach("end");
}
#ifndef HOURS
#define HOURS 24
#endif
HARNESS h_time() {
	// every second of the day, with an arbitrary fraction
	long long h = (long long)abc_choice("h", HOURS), mi = (long long)abc_choice("m", 60), s = (long long)abc_choice("s", 60), ns = (long long)abc_sym_u64("ns", 0, 999999999);
	timestamp<Clk> ts(nullptr);
	ts.reset_time(((h * 60 + mi) * 60 + s) * 1000000000ll + ns);
	abc_assert(ts.hours() == h && ts.minutes() == mi && ts.seconds() == s, "the time of day");
	abc_assert(ts.nanoseconds() == ns && ts.microseconds() == ns / 1000 && ts.milliseconds() == ns / 1000000, "the fraction of the second");
	abc_reach("end");
}
HARNESS h_instant() {
	// an instant splits into its day and its time of day
	long long day = (long long)abc_choice("day", DAYS / CHUNK + 1) * CHUNK, h = (long long)abc_choice("h", 24), ns = (long long)abc_sym_u64("ns", 0, 3599999999999ll);
	timestamp<Clk> a{ Clk::time_point(Clk::duration(day * 86400000000000ll + h * 3600000000000ll + ns)) }, b(nullptr), c(nullptr);
	b.reset_date((int)day); c.reset_time(h * 3600000000000ll + ns);
	abc_assert(a.year() == b.year() && a.month() == b.month() && a.day() == b.day(), "the date of the instant");
	abc_assert(a.hours() == h && a.hours() == c.hours(), "the hour of the instant");
	abc_reach("end");
}
HARNESS h_compare_ts() {
	long long x = (long long)abc_sym_u64("x", 0, 1000), y = (long long)abc_sym_u64("y", 0, 1000), d1 = (long long)abc_choice("d1", 3), d2 = (long long)abc_choice("d2", 3);
	Clk::time_point p{ Clk::duration(d1 * 86400000000000ll + x) }, q{ Clk::duration(d2 * 86400000000000ll + y) };
	timestamp<Clk> a(p), b(q);
	abc_assert((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "timestamps are ordered as their instants");
	abc_reach("end");
}
// ---------------------------------------------------------------- characters
HARNESS h_ascii() {
	char c = (char)abc_sym_u64("c", 0, 255); unsigned char u = (unsigned char)c;
	bool up = u >= 'A' && u <= 'Z', lo = u >= 'a' && u <= 'z', dg = u >= '0' && u <= '9', hx = dg || (u >= 'a' && u <= 'f') || (u >= 'A' && u <= 'F');
	abc_assert(ascii::is_ascii(c) == (u < 128) && ascii::is_digit(c) == dg && ascii::is_hex(c) == hx && ascii::is_upperalpha(c) == up && ascii::is_loweralpha(c) == lo && ascii::is_alpha(c) == (up || lo), "classes");
	abc_assert(ascii::is_space(c) == (u == ' ' || u == 9) && ascii::is_control(c) == (u < 32 || u == 127) && ascii::is_stdprint(c) == (u >= 32 && u < 127) && ascii::is_abcprint(c) == (u > 32 && u < 127) && ascii::is_abcprint_or_space(c) == ((u >= 32 && u < 127) || u == 9), "print classes");
	abc_assert((unsigned char)ascii::to_upper(c) == (lo ? u - 32 : u) && (unsigned char)ascii::to_lower(c) == (up ? u + 32 : u), "case");
	if (hx) abc_assert(ascii::hex(c) == (dg ? u - '0' : (u | 32) - 'a' + 10), "hex value");
	bool tok = u > 32 && u < 127; for (const char* p = "()<>[]{}@,;:\\/\"?="; *p; p++) tok = tok && c != *p;
	abc_assert(ascii::http::is_token(c) == tok, "token");
	abc_reach("end");
}
HARNESS h_compare() {
	std::size_t la = abc_choice("la", N + 1), lb = abc_choice("lb", N + 1);
	char* a = new char[la + 1]; char* b = new char[lb + 1];
	abc_sym(a, la, "a"); abc_sym(b, lb, "b"); a[la] = 0; b[lb] = 0;
	for (std::size_t i = 0; i < la; i++) abc_assume(a[i] != 0);
	for (std::size_t i = 0; i < lb; i++) abc_assume(b[i] != 0);
	std::size_t n = abc_choice("n", N + 2);
	bool ci = abc_choice("ci", 2), lim = abc_choice("limited", 2);
	bool r = lim ? (ci ? ascii::are_equal_i_n(a, b, n) : ascii::are_equal_n(a, b, n)) : (ci ? ascii::are_equal_i(a, b) : ascii::are_equal(a, b));
	std::size_t ea = lim && n < la ? n : la, eb = lim && n < lb ? n : lb;
	bool e = ea == eb;
	for (std::size_t i = 0; i < ea && i < eb; i++) { unsigned char x = a[i], y = b[i]; if (ci) { if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; } if (x != y) e = false; }
	abc_assert(r == e, "strings are equal exactly if their characters are");
	abc_reach(r ? "equal" : "different");
	abc_assert(ascii::are_equal(nullptr, nullptr) && !ascii::are_equal(a, nullptr) && !ascii::are_equal_i(nullptr, b), "no string");
	delete[] a; delete[] b;
}
// ---------------------------------------------------------------- buffer streams
HARNESS h_buffer() {
	std::size_t gcap = abc_choice("gcap", N + 1), pcap = abc_choice("pcap", N + 1);
	char* g = new char[gcap]; char* p = new char[pcap]; abc_sym(g, gcap, "in"); char w[N + 2]; abc_sym(w, N + 2, "out");
	char g0[N + 1]; std::memcpy(g0, g, gcap);
	Buf a(g, 0, gcap, p, 0, pcap);
	buffer_streambuf* sb = &a; alignas(16) char mem[sizeof(buffer_streambuf)];
	std::size_t gi = 0, pi = 0, wi = 0;
	for (int k = 0; k < K; k++) {
		switch (abc_choice("op", sb == &a ? 5 : 4)) {
			case 4: sb = new (mem) buffer_streambuf(std::move(a)); abc_reach("moved"); break;
			case 0: { int c = sb->sbumpc(); abc_assert(c == (gi < gcap ? (int)(unsigned char)g0[gi] : -1), "the next byte, or the end"); if (gi < gcap) gi++; break; }
			case 1: { int c = sb->sputc(w[wi]); abc_assert(pi < pcap ? c == (int)(unsigned char)w[wi] : c == -1, "a byte fits or is refused"); if (pi < pcap) { pi++; wi++; } else abc_reach("full"); break; }
			case 2: { char t[3]; std::size_t n = sb->sgetn(t, 3); abc_assert(n == (gcap - gi < 3 ? gcap - gi : 3), "as many bytes as there are"); for (std::size_t i = 0; i < n; i++) abc_assert(t[i] == g0[gi + i], "the bytes"); gi += n; break; }
			case 3: { std::size_t want = N + 2 - wi < 2 ? N + 2 - wi : 2; std::size_t n = sb->sputn(w + wi, want); abc_assert(n == (pcap - pi < want ? pcap - pi : want), "as many bytes as fit"); pi += n; wi += n; break; }
		}
	}
	for (std::size_t i = 0; i < pi; i++) abc_assert(p[i] == w[i], "the bytes are in the buffer");
	abc_reach("end");
	delete[] g; delete[] p;
}
