// Sequences of files over a modelled file system and clock.
#include <cstring>
#include <cstdio>
#include <new>
#include <chrono>
#include <iostream>
#include "abcsym.h"
#ifndef ABC_FILEBUF
#define ABC_FILEBUF 4
#endif
#ifndef N
#define N 5
#endif
#ifndef K
#define K 4
#endif
#include "src/log.h"
#include "src/timestamp.h"
#include <fstream>
#include "src/multifile.h"
using namespace abc;
struct Clk {
	typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Clk> time_point; static const bool is_steady = false;
	static long long t; static time_point now() noexcept { return time_point(duration(t)); }
};
long long Clk::t = 0;
static const long long second = 1000000000LL;
// ---------------------------------------------------------------- files
static struct { char name[40]; char data[K * N + 8]; std::size_t size; bool open; } file[K + 3];
static int files; static bool fails;
extern "C" {
	int abc_file_open(const char* p, int mode) {
		abc_assert(mode != 0, "files are written"); std::size_t n = std::strlen(p); abc_assert(n < 40 && files < K + 3, "model");
		for (int i = 0; i < files; i++) abc_assert(std::strcmp(p, file[i].name), "a file that was written earlier is never opened, and emptied, again");
		std::strcpy(file[files].name, p); file[files].size = 0; file[files].open = true; return files++;
	}
	long abc_file_read(int, char*, long) { abc_assert(0, "files are written"); return -1; }
	long abc_file_write(int f, const char* b, long n) { abc_assert(file[f].open && f == files - 1, "only the current file is written"); if (fails) return 0; abc_assert(file[f].size + n <= sizeof(file[f].data), "model"); std::memcpy(file[f].data + file[f].size, b, n); file[f].size += n; return n; }
	void abc_file_close(int f) { abc_assert(file[f].open, "a file is closed once"); file[f].open = false; }
}
// ---------------------------------------------------------------- expected names
static void dec(char*& o, unsigned v, unsigned digits) { for (unsigned i = 0; i < digits; i++) { o[digits - 1 - i] = (char)('0' + v % 10); v /= 10; } o += digits; }
static void name_at(char* o, const char* dir, long long t) {
	std::size_t n = std::strlen(dir); std::memcpy(o, dir, n); o += n; if (n && o[-1] != '/') *o++ = '/';
	long long s = t / second; unsigned days = (unsigned)(s / 86400), rest = (unsigned)(s % 86400), y = 1970, m = 0;
	static const unsigned len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	for (;;) { unsigned l = 365 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)); if (days < l) break; days -= l; y++; }
	for (;; m++) { unsigned l = len[m] + (m == 1 && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)); if (days < l) break; days -= l; }
	dec(o, y, 4); dec(o, m + 1, 2); dec(o, days + 1, 2); *o++ = '_'; dec(o, rest / 3600, 2); dec(o, rest / 60 % 60, 2); dec(o, rest % 60, 2); *o = 0;
}
static char expect[64]; static uint64_t limit = 1;		// the size or the time after which a new file is begun
static const char* const dir = "w/l"; enum { MAXPATH = 19 };		// "w/l" "/" and 15 chars: the longest path that fits
#if KIND == 0
typedef size_multifile_streambuf<MAXPATH, Clk> Multi;
static Multi* make(void* p, const char* d) { return new (p) Multi((std::size_t)limit, d); }
#elif KIND == 1
typedef duration_multifile_streambuf<MAXPATH, Clk> Multi;
static Multi* make(void* p, const char* d) { return new (p) Multi(Clk::duration((long long)limit), d); }
#else
typedef multifile_streambuf<MAXPATH, Clk> Multi;
static Multi* make(void* p, const char* d) { return new (p) Multi(d); }
#endif
static const long long starts[] = { 0, 951782399LL * second + 999999999, 1735689599LL * second, 1709164799LL * second + 1 };	// the epoch, and the last seconds before Feb 29 2000, Jan 1 2025, and Feb 29 2024
static bool conserved(const char* all, std::size_t n) {
	std::size_t at = 0;
	for (int i = 0; i < files; i++) { if (at + file[i].size > n || std::memcmp(all + at, file[i].data, file[i].size)) return false; at += file[i].size; }
	return at == n;
}
HARNESS h_sequence() {
	Clk::t = starts[abc_choice("start", 4)];
	if (KIND == 0) limit = abc_sym_u64("limit", 0, 1ull << 40); if (KIND == 1) limit = abc_sym_u64("limit", 0, 1ull << 40);
	alignas(16) static char mem[2][sizeof(Multi)]; int cur = 0; bool moved = false;
	Multi* m = make(mem[0], dir); long long opened = Clk::t;
	name_at(expect, dir, opened); abc_assert(files == 1 && !std::strcmp(file[0].name, expect) && !std::strcmp(m->path(), expect), "a file is named after the UTC time when it is opened");
	char all[K * N + 8]; std::size_t n = 0, in_file = 0; bool reported = false;
	int fail_at = (int)abc_choice("fail_at", K + 1);
	for (int k = 0; k < K; k++) {
		if (k + 1 == fail_at) { fails = true; abc_reach("failing"); }
		unsigned op = (unsigned)abc_choice("op", moved ? 3 : 4);
		if (op == 0) { std::size_t len = 1 + abc_choice("len", N); abc_sym(all + n, len, "bytes"); std::streamsize r = m->sputn(all + n, len); if (r != (std::streamsize)len) { abc_assert(fails, "all is taken"); reported = true; } n += len; in_file += len; }
		else if (op == 1) { abc_sym(all + n, 1, "byte"); if (m->sputc(all[n]) != (unsigned char)all[n]) { abc_assert(fails, "all is taken"); reported = true; } n++; in_file++; }
		else if (op == 2) {
			static const long long by[] = { second, 2 * second - 1, 2 * second, 62 * second }; Clk::t += by[abc_choice("passed", KIND == 1 ? 4 : 1)];
			int before = files;
#if KIND == 2
			m->reopen(); bool due = true;
#else
			if (m->pubsync() == -1) { abc_assert(fails, "flushing succeeds"); reported = true; }
			bool due = KIND == 0 ? in_file >= limit : (uint64_t)(Clk::t - opened) >= limit;
#endif
			if (fails) { abc_assert(KIND == 2 || reported || conserved(all, n), "data that could not be written is reported at the latest by flush"); abc_assert(files <= before + 1, "one new file"); if (files != before) break; abc_reach("failed"); if (n) break; continue; }
			abc_assert(files == before + due, "a new file is begun by a flush, and only when the size or the time is reached"); 
			abc_assert(conserved(all, n), "all that was flushed is in the files, in order, once");
			if (due) { opened = Clk::t; in_file = 0; abc_reach("rotated"); }
			name_at(expect, dir, opened); abc_assert(!std::strcmp(file[files - 1].name, expect) && !std::strcmp(m->path(), expect), "a file is named after the UTC time when it is opened");
		}
		else { Multi* m2 = new (mem[1]) Multi(std::move(*m)); m->~Multi(); m = m2; cur = 1; moved = true; abc_reach("moved"); }
	}
	m->~Multi();
	if (!fails) abc_assert(conserved(all, n), "all is in the files, in order, once");
	for (int i = 0; i < files; i++) abc_assert(!file[i].open, "every file is closed");
	abc_reach("end");
}
HARNESS h_paths() {		// any directory, up to and beyond the limit
	Clk::t = starts[2];
	char d[MAXPATH + 3]; std::size_t len = abc_choice("len", 8); abc_sym(d, 8, "dir"); d[len] = 0; for (std::size_t i = 0; i < len; i++) abc_assume(d[i] != 0);
	alignas(16) static char mem[2][sizeof(Multi)]; Multi* m = nullptr;
	bool null = abc_choice("null", 2);
	try { m = make(mem[0], null ? nullptr : d); } catch (const std::exception&) { }
	if (null) { abc_assert(!m, "no path is refused"); return; }
	if (m) {
		name_at(expect, d, Clk::t); abc_assert(std::strlen(expect) <= MAXPATH, "a path that is too long is refused");
		abc_assert(files == 1 && !std::strcmp(file[0].name, expect) && !std::strcmp(m->path(), expect), "the file is in the directory, with its whole name"); abc_reach("made");
		Multi* m2 = new (mem[1]) Multi(std::move(*m)); m->~Multi();
		abc_assert(!std::strcmp(m2->path(), expect), "moving keeps the path"); m2->~Multi();
	}
	else { abc_assert(!files && len + 1 + 15 > MAXPATH, "a path that fits is taken"); abc_reach("refused"); }
}
