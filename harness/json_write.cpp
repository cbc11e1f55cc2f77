// JSON writer: any sequence of calls; what it accepts is well-formed and reads back as written.
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <exception>
#include <stdexcept>
#include "abcsym.h"
#include "src/buffer_streambuf.h"
#include "src/json.h"
using namespace abc;
#ifndef K
#define K 5
#endif
#ifndef LEVELS
#define LEVELS 3
#endif
// number formatting: the shape of the text depends only on the class of the value
extern "C" int __wrap_snprintf(char* b, std::size_t n, const char* f, ...) {
	va_list ap; va_start(ap, f); int r;
	if (f[0] == '%' && std::strchr(f, 'g') && std::strchr(f, '*') == nullptr) {
		double d = va_arg(ap, double); const char* s = d != d ? "nan" : d - d != 0 ? (d > 0 ? "inf" : "-inf") : d < 0 ? "-1.5" : "2.5e+10";
		r = 0; while (s[r]) { if ((std::size_t)r + 1 < n) b[r] = s[r]; r++; } if (n) b[(std::size_t)r < n ? r : n - 1] = 0;
	}
	else r = vsnprintf(b, n, f, ap);
	va_end(ap); return r;
}
static double conv(const char* s) { return s[0] == '-' ? -1.5 : 2.5e10; }
extern "C" double __wrap_strtod(const char* s, char**) { return conv(s); }
extern "C" double __wrap_atof(const char* s) { return conv(s); }

struct Op { json::item_t item; bool flag; char s[2]; int n; double d; };
static Op ops[K + 2 * LEVELS + 2];

static bool well_formed_string_bytes(const char* p, std::size_t n) {
	bool in = false;
	for (std::size_t i = 0; i < n; i++) {
		unsigned char c = (unsigned char)p[i];
		if (!in) { if (c == '"') in = true; continue; }
		if (c < 0x20) return false;
		if (c == '\\') { i++; continue; }
		if (c == '"') in = false;
	}
	return !in;
}

static void run(int kinds, std::size_t cap, bool viaToken) {
	char* mem = new char[cap ? cap : 1];
	buffer_streambuf sb(nullptr, 0, 0, mem, 0, cap);
	typedef json_ostream<LEVELS> OS;
	alignas(OS) static char room[2][sizeof(OS)]; int at = 0;
	OS* jp = new (room[0]) OS(&sb);
#define js (*jp)
#ifdef MOVED
#define MOVE at = 1 - at; { bool good = js.good(); OS* np = new (room[at]) OS(std::move(*jp)); jp->~OS(); jp = np; abc_assert(js.good() == good, "a moved stream is as good or bad as it was"); }
#else
#define MOVE (void)at;
#endif
	bool stack[LEVELS + 1]; int levels = 0; bool needProp = false; int n = 0; bool bad = false;
	int wsAt = (int)abc_choice("wsAt", K) - 1;		// -1: no white space
	// after K arbitrary calls, the document is completed
	for (int k = 0; (k < K || levels > 0) && !bad; k++) {
		Op& o = ops[k]; o.n = 0; o.flag = false; o.d = 0;
		bool inObj = levels > 0 && stack[levels - 1];
#ifdef MOVED
		MOVE
#endif
		unsigned c = k < K ? (unsigned)abc_choice("op", kinds) : !inObj ? 1 : needProp ? 3 : 5;
		bool legal = true, deep = false;
		static const json::item_t items[] = { json::item::begin_array, json::item::end_array, json::item::begin_object, json::item::end_object, json::item::property, json::item::null, json::item::string, json::item::number, json::item::boolean };
		o.item = items[c];
		switch (c) {
		case 0: case 2: legal = !(inObj && needProp); if (legal && levels >= LEVELS) deep = true; break;
		case 1: legal = levels > 0 && !inObj; break;
		case 3: legal = inObj && needProp; break;
		case 4: legal = inObj && needProp; o.n = 1; break;
		case 6: legal = !(inObj && needProp); o.n = 1; break;
		default: legal = !(inObj && needProp); break;
		}
		if (o.n) { abc_sym(o.s, 1, "char"); if (viaToken) abc_assume(o.s[0] != 0); o.s[1] = 0; }
		if (c == 8) o.flag = abc_sym_u64("flag", 0, 1) != 0;
		if (c == 7) { abc_sym(&o.d, sizeof o.d, "number"); if (!(o.d - o.d == 0)) legal = false; }		// not a JSON number
		if (viaToken) {
			char tm[32]; json::token_t* t = reinterpret_cast<json::token_t*>(tm);
			t->item = o.item;
			if (o.item == json::item::boolean) t->value.boolean = o.flag;
			if (o.item == json::item::number) t->value.number = o.d;
			if (o.n) { t->value.string[0] = o.s[0]; t->value.string[1] = 0; }
			js.put_token(t);
		}
		else switch (c) {
		case 0: js.put_begin_array(); break;
		case 1: js.put_end_array(); break;
		case 2: js.put_begin_object(); break;
		case 3: js.put_end_object(); break;
		case 4: js.put_property(o.s, 1); break;
		case 5: js.put_null(); break;
		case 6: js.put_string(o.s, 1); break;
		case 7: js.put_number(o.d); break;
		case 8: js.put_boolean(o.flag); break;
		}
		if (!legal || deep) { abc_assert(!js.good(), "a call that would make the text malformed is refused"); bad = true; MOVE abc_reach("refused"); break; }
		if (!js.good()) { abc_assert(cap < 100, "a legal call is accepted"); abc_reach("full"); MOVE jp->~OS(); delete[] mem; return; }
		n++;
		switch (c) {
		case 0: stack[levels++] = false; needProp = false; break;
		case 2: stack[levels++] = true; needProp = true; break;
		case 1: case 3: levels--; needProp = true; break;
		case 4: needProp = false; break;
		default: needProp = true; break;
		}
		if (levels == 0) js.put_space();		// top-level values are separated by the caller
		else if (k == wsAt) js.put_lf();
	}
	jp->~OS();
#undef js
	if (bad) { delete[] mem; return; }
	abc_reach("complete");
	// how much was written
	std::size_t len = 0; { struct P : buffer_streambuf { using buffer_streambuf::basic_buffer_streambuf; std::size_t len() { return pptr() - pbase(); } }; len = static_cast<P&>(sb).len(); }
	abc_assert(well_formed_string_bytes(mem, len), "strings are written as JSON strings");
	buffer_streambuf rb(mem, 0, len, nullptr, 0, 0);
	json_istream<LEVELS> rd(&rb);
	for (int i = 0; i < n; i++) {
		char tm[64]; json::token_t* t = reinterpret_cast<json::token_t*>(tm);
		rd.get_token(t, sizeof tm);
		const Op& o = ops[i];
		abc_assert(!rd.fail() && !rd.bad(), "what was written is well-formed");
		abc_assert(t->item == o.item, "what was written reads back");
		if (o.item == json::item::boolean) abc_assert(t->value.boolean == o.flag, "a boolean reads back");
		if (o.item == json::item::number) abc_assert(t->value.number == (o.d < 0 ? -1.5 : 2.5e10), "a number reads back");
		if (o.n) { const char* s = o.item == json::item::string ? t->value.string : t->value.property; abc_assert(rd.gcount() == sizeof(json::item_t) + 1 && s[0] == o.s[0] && s[1] == 0, "a string reads back"); }
	}
	char tm[64]; rd.get_token(reinterpret_cast<json::token_t*>(tm), sizeof tm);
	abc_assert(!rd.good(), "nothing else was written");
	delete[] mem;
}
HARNESS h_write() { run(9, 200, false); }
HARNESS h_write_token() { run(9, 200, true); }
// a full output buffer: never a write outside it, and the failure is visible
HARNESS h_write_full() { run(8, abc_choice("cap", 10), false); }
