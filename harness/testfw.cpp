// The test framework: suites of methods that pass, fail or throw, and comparisons of any values.
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <new>
#include <chrono>
#include "abcsym.h"
static long long now_ns;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(now_ns)); } } } }
#include "src/test.h"
using namespace abc;
#ifndef N
#define N 4
#endif
#ifndef METHODS
#define METHODS 2
#endif
#ifndef LONGEST
#define LONGEST 33
#endif
// random numbers: some sequence for each seed
static unsigned rand_state;
extern "C" void __wrap_srand(unsigned s) { rand_state = s; }
extern "C" int __wrap_rand() { rand_state = rand_state * 1103515245u + 12345u; int r = (int)(rand_state >> 1); return r ? r : 1; }
// the log
struct Rec { severity_t severity; tag_t tag; char text[360]; };
struct TLog {
	Rec rec[64]; int n; int blanks;
	void put_any(category_t, severity_t s, tag_t t, const char* format, ...) noexcept {
		abc_assert(n < 64, "model"); Rec& r = rec[n++]; r.severity = s; r.tag = t;
		va_list l; va_start(l, format); std::vsnprintf(r.text, sizeof(r.text), format, l); va_end(l);
	}
	void put_blank_line(category_t, severity_t) noexcept { blanks++; }
};
static TLog tlog;
static bool begins(const char* s, const char* p) { return !std::strncmp(s, p, std::strlen(p)); }
// ---------------------------------------------------------------- suites
enum { PASSES, FAILS, THROWS, THROWS_ODDLY, COMPARES };
static int behaviour[9], called[32], ncalled; static bool compared[9]; static unsigned drawn[9], the_seed; static bool logged;
static const char* const cname[] = { "cat0", "cat1", "cat2" }; static const char* const mname[] = { "meth0", "meth1", "meth2" };
static bool body(int c, int m, test_context<TLog>& x) {
	int i = c * 3 + m; abc_assert(ncalled < 32, "model"); called[ncalled++] = i; drawn[i] = (unsigned)std::rand();
	abc_assert(!std::strcmp(x.category_name, cname[c]) && !std::strcmp(x.method_name, mname[m]) && x.log == (logged ? &tlog : nullptr) && !std::strcmp(x.process_path, "path"), "a method is told where it is");
	the_seed = x.seed;
	switch (behaviour[i]) {
	case FAILS: return false;
	case THROWS: throw std::runtime_error("no good");
	case THROWS_ODDLY: throw 5;
	case COMPARES: compared[i] = x.are_equal((int)abc_choice("actual", 2), 1, 7, "%d"); return compared[i];
	}
	return true;
}
static int count(const char* name, const char* what) {
	int n = 0; for (int i = 0; i < tlog.n; i++) if (std::strstr(tlog.rec[i].text, name) && std::strstr(tlog.rec[i].text, what)) { abc_assert(tlog.rec[i].severity == severity::critical, "a result is told whatever is filtered"); n++; } return n;
}
HARNESS h_suite() {
	int nc = (int)abc_choice("categories", 3), nm[3]; logged = abc_choice("logged", 2); std::vector<named_test_category<TLog>> cats; now_ns = 1;
	for (int c = 0; c < nc; c++) {
		nm[c] = (int)abc_choice("methods", METHODS + 1); test_category<TLog> cat;
		for (int m = 0; m < nm[c]; m++) { behaviour[c * 3 + m] = (int)abc_choice("behaviour", 5); cat.push_back(named_test_method<TLog>(mname[m], [c, m](test_context<TLog>& x) { return body(c, m, x); })); }
		cats.push_back(named_test_category<TLog>(cname[c], std::move(cat)));
	}
	bool random = abc_choice("random", 2); unsigned s = random ? 0 : (unsigned)abc_sym_u64("seed", 1, 0xffffffffu); if (random) now_ns = (long long)abc_sym_u64("now", 0, 1ull << 62);
	test_suite<TLog> suite(std::move(cats), logged ? &tlog : nullptr, s, "path");
	bool passed = suite.run(), want = true; int k = 0;
	for (int c = 0; c < nc; c++) {
		bool cp = true;
		for (int m = 0; m < nm[c]; m++) {
			int i = c * 3 + m; bool mp = behaviour[i] == PASSES || (behaviour[i] == COMPARES && compared[i]); cp = cp && mp;
			abc_assert(k < ncalled && called[k] == i, "every method runs once, in order, whatever those before it did"); k++;
		}
		want = want && cp;
		if (logged) abc_assert(count(cname[c], "PASS") == cp && count(cname[c], "FAIL") == !cp, "a category passes if and only if all of its methods do");
	}
	abc_assert(k == ncalled, "every method runs once"); abc_assert(passed == want, "the suite passes if and only if all methods do");
	if (logged) {
		abc_assert(count("summary", "PASS") == want && count("summary", "FAIL") == !want, "the summary tells whether the suite passed");
		int at = 0;
		for (int j = 0; j < k; j++) {		// each method's result follows in its order
			int i = called[j]; bool mp = behaviour[i] == PASSES || (behaviour[i] == COMPARES && compared[i]);
			while (at < tlog.n && !(std::strstr(tlog.rec[at].text, mname[i % 3]) && (std::strstr(tlog.rec[at].text, "PASS") || std::strstr(tlog.rec[at].text, "FAIL")))) at++;
			abc_assert(at < tlog.n && (std::strstr(tlog.rec[at].text, "PASS") != nullptr) == mp, "a method passes if and only if it returns true"); at++;
			if (behaviour[i] == THROWS) { int n = 0; for (int q = 0; q < at; q++) n += std::strstr(tlog.rec[q].text, "no good") != nullptr; abc_assert(n > 0, "what was thrown is told"); abc_reach("thrown"); }
		}
	}
	// the same numbers are drawn again with the seed that was told
	if (k) {
		if (!random) abc_assert(the_seed == s, "the seed is the one that was given");
		__wrap_srand(the_seed); for (int j = 0; j < k; j++) abc_assert((unsigned)std::rand() == drawn[called[j]], "a run with the same seed draws the same random numbers"); abc_reach("drawn");
	}
	abc_reach(want ? "passed" : "failed");
}
// ---------------------------------------------------------------- comparisons
static void told(bool same, tag_t tag, const char* a, const char* e) {
	abc_assert(tlog.n == 1 && tlog.rec[0].tag == tag && tlog.rec[0].severity == (same ? severity::optional : severity::important), "a comparison is told once, with its tag, more urgently if it fails");
	char w[360]; std::snprintf(w, sizeof(w), "%s: are_equal(actual=%s, expected=%s)", same ? "Pass" : "Fail", a, e); abc_assert(!std::strcmp(w, tlog.rec[0].text), "the values are told");
	tlog.n = 0;
}
HARNESS h_values() {
	bool logged = abc_choice("logged", 2); test_context<TLog> x("c", "m", logged ? &tlog : nullptr, 1, "p"); tag_t tag = abc_sym_u64("tag", 0, UINT64_MAX);
	if (abc_choice("kind", 2)) {
		int a = (int)abc_sym_u64("a", 0, 0xffffffffu), b = (int)abc_sym_u64("b", 0, 0xffffffffu); bool r = x.are_equal(a, b, tag, "%x"); abc_assert(r == (a == b), "equal values are equal");
		if (logged) { char p[12], q[12]; std::snprintf(p, sizeof(p), "%x", a); std::snprintf(q, sizeof(q), "%x", b); told(r, tag, p, q); } abc_reach(r ? "equal" : "different");
	}
	else {
		std::size_t la = abc_choice("la", N + 1), lb = abc_choice("lb", N + 1); char a[N + 1], b[N + 1]; abc_sym(a, la, "a"); abc_sym(b, lb, "b"); a[la] = b[lb] = 0;
		for (std::size_t i = 0; i < la; i++) abc_assume(a[i] != 0); for (std::size_t i = 0; i < lb; i++) abc_assume(b[i] != 0);
		bool r = x.are_equal((const char*)a, (const char*)b, tag), w = la == lb; for (std::size_t i = 0; i < la && i < lb; i++) w = w && a[i] == b[i];
		abc_assert(r == w, "equal strings are equal"); if (logged) told(r, tag, a, b); abc_reach(r ? "equal" : "different");
	}
}
static char hexd(unsigned v) { return "0123456789abcdef"[v & 15]; }
static void dump(char* o, const unsigned char* d, std::size_t n, std::size_t at) {
	for (int i = 12; i >= 0; i -= 4) *o++ = hexd((unsigned)(at >> i)); *o++ = ':';
	for (std::size_t i = 0; i < 16; i++) { if (i % 8 == 0) *o++ = ' '; *o++ = at + i < n ? hexd(d[at + i] >> 4) : ' '; *o++ = at + i < n ? hexd(d[at + i]) : ' '; *o++ = ' '; }
	*o++ = ' '; for (std::size_t i = 0; i < 16; i++) *o++ = at + i >= n ? ' ' : d[at + i] < 0x20 || d[at + i] > 0x7e ? '.' : (char)d[at + i]; *o = 0;
}
HARNESS h_blobs() {
	bool logged = abc_choice("logged", 2); test_context<TLog> x("c", "m", logged ? &tlog : nullptr, 1, "p"); std::size_t n = abc_choice("size", LONGEST + 1); unsigned char* a = new unsigned char[n]; unsigned char* b = new unsigned char[n];
	for (std::size_t i = 0; i < n; i++) a[i] = b[i] = (unsigned char)(i * 11 + 5);
	if (n) { std::size_t at = abc_choice("at", n); abc_sym(a + at, 1, "a"); abc_sym(b + at, 1, "b"); }	// one byte is arbitrary on both sides, anywhere
	bool w = true; for (std::size_t i = 0; i < n; i++) w = w && a[i] == b[i];
	bool r = x.are_equal(a, b, n, 9); abc_assert(r == w, "equal blobs are equal");
	if (logged) {
		abc_assert(tlog.n == (int)((n + 15) / 16), "all bytes of both blobs are told, 16 at a time");
		for (int i = 0; i < tlog.n; i++) {
			char p[80], q[80], t[360]; dump(p, a, n, (std::size_t)i * 16); dump(q, b, n, (std::size_t)i * 16); std::snprintf(t, sizeof(t), "%s: are_equal(actual=%s, expected=%s)", r ? "Pass" : "Fail", p, q);
			abc_assert(tlog.rec[i].tag == 9 && tlog.rec[i].severity == (r ? severity::optional : severity::important) && !std::strcmp(t, tlog.rec[i].text), "the bytes are told");
		}
	}
	abc_reach(r ? "equal" : "different"); delete[] a; delete[] b;
}
