// JSON reader on arbitrary bytes: memory safety, termination, token well-formedness.
#include <cstring>
#include <cstdio>
#include <exception>
#include <stdexcept>
#include "abcsym.h"
#include "src/buffer_streambuf.h"
#include "src/json.h"
using namespace abc;

#ifndef N
#define N 4
#endif
#ifndef LEVELS
#define LEVELS size::_16
#endif
#ifndef CAP
#define CAP 24		// token buffer size, from the type's own size up
#endif
extern "C" double __wrap_strtod(const char* s, char**) { size_t n = 0; while (s[n]) n++; return (double)n; }
extern "C" double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }
static const char GUARD = 0x5a;

// every token of an arbitrary text, into a token buffer of an arbitrary size, until the stream is no longer good
HARNESS h_tokens() {
	char in[N];
	abc_sym(in, N, "in");
	buffer_streambuf sb(in, 0, N, nullptr, 0, 0);
	json_istream<LEVELS> js(&sb);
	std::size_t cap = sizeof(json::token_t) + abc_choice("cap", CAP - sizeof(json::token_t) + 1);
	char* mem = new char[cap];		// an object of exactly this size: every write beyond it is seen
	json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	int n = 0;
	for (;; n++) {
		abc_assert(n <= N, "each token consumes input");
		js.get_token(t, cap);
		if (!js.good()) break;
		abc_reach("token");
		if (t->item == json::item::string || t->item == json::item::property) {
			abc_reach("string");
			const char* s = t->item == json::item::string ? t->value.string : t->value.property;
			bool nul = false;
			for (const char* p = s; p < mem + cap; p++) if (!*p) { nul = true; break; }
			abc_assert(nul, "a string token is terminated inside the caller's buffer");
		}
	}
	abc_observe("tokens", (uint64_t)n);
	abc_reach("end");
	delete[] mem;
}

// skipping an arbitrary text value by value terminates and touches nothing
HARNESS h_skip() {
	char in[N];
	abc_sym(in, N, "in");
	buffer_streambuf sb(in, 0, N, nullptr, 0, 0);
	json_istream<LEVELS> js(&sb);
	int n = 0;
	for (;; n++) {
		abc_assert(n <= N, "each skipped value consumes input");
		js.skip_value();
		if (!js.good()) break;
		abc_reach("value");
	}
	abc_observe("values", (uint64_t)n);
	abc_reach("end");
}

// a string whose end is arbitrary, around the size of the smallest token buffer
HARNESS h_string_end() {
	char in[2 + 9 + N]; std::size_t n = 0;
	bool prop = abc_choice("prop", 2) != 0;
	if (prop) in[n++] = '{';
	in[n++] = '"';
	std::size_t pre = 4 + abc_choice("pre", 6); for (std::size_t i = 0; i < pre; i++) in[n++] = 'a';
	abc_sym(in + n, N, "in"); n += N;
	buffer_streambuf sb(in, 0, n, nullptr, 0, 0);
	json_istream<LEVELS> js(&sb);
	std::size_t cap = sizeof(json::token_t) + abc_choice("cap", 3);
	char* mem = new char[cap]; json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	for (std::size_t k = 0; k < n; k++) {
		js.get_token(t, cap);
		if (!js.good()) { abc_reach("end"); break; }
		if (t->item == json::item::string || t->item == json::item::property) {
			const char* s = t->item == json::item::string ? t->value.string : t->value.property;
			std::size_t len = 0; while (s + len < mem + cap && s[len]) len++;
			abc_assert(s + len < mem + cap, "a string token is terminated inside the caller's buffer");
			if (k == (prop ? 1u : 0u)) { abc_assert(len >= pre, "a string that is delivered is delivered whole"); abc_reach("string"); }
		}
	}
	delete[] mem;
}

// a number literal of any shape and length up to DIG characters
#ifndef DIG
#define DIG 32
#endif
HARNESS h_number() {
	char in[DIG + 2];
	std::size_t n = abc_choice("len", DIG - 23) + 23;
	for (std::size_t i = 0; i < n; i++) in[i] = '7';
	// the first character and two more at arbitrary positions are arbitrary
	std::size_t p = abc_choice("p", n - 2) + 1;
	std::size_t q = abc_choice("q", n - 1 - p) + p + 1;
	for (int k = 0; k < 3; k++) { char c; abc_sym(&c, 1, "c"); abc_assume(c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' || (c >= '0' && c <= '9')); in[k == 0 ? 0 : k == 1 ? p : q] = c; }
	in[n] = ' ';
	buffer_streambuf sb(in, 0, n + 1, nullptr, 0, 0);
	json_istream<LEVELS> js(&sb);
	char mem[sizeof(json::token_t)];
	json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	js.get_token(t, sizeof mem);
	if (js.good()) { abc_reach("ok"); abc_assert(t->item == json::item::number, "a number literal is read as a number"); }
	abc_reach("end");
}

// nesting up to the limit is read, deeper nesting is refused
HARNESS h_levels() {
	char in[LEVELS + 3]; std::size_t n = 1 + abc_choice("depth", LEVELS + 2);
	abc_sym(in, n, "in"); for (std::size_t i = 0; i < n; i++) abc_assume(in[i] == '[' || in[i] == ' ');
	buffer_streambuf sb(in, 0, n, nullptr, 0, 0);
	json_istream<LEVELS> js(&sb); char raw[64]; std::size_t deep = 0, got = 0;
	for (std::size_t i = 0; i < n; i++) deep += in[i] == '[';
	for (;; got++) { abc_assert(got <= LEVELS, "a text nested deeper than the limit is refused"); js.get_token((json::token_t*)raw, sizeof(raw)); if (!js.good()) break; abc_assert(((json::token_t*)raw)->item == json::item::begin_array, "an array begins"); }
	abc_assert(got == (deep < LEVELS ? deep : LEVELS), "a text is read down to the limit of nesting"); if (deep > LEVELS) abc_reach("refused");
	abc_reach("end");
}
