// JSON reader against a reference: well-formed texts are read exactly, malformed ones are refused.
#include <cstring>
#include <cstdio>
#include <exception>
#include <stdexcept>
#include "abcsym.h"
#include "src/buffer_streambuf.h"
#include "src/json.h"
using namespace abc;

#ifndef N
#define N 6
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
static char gLit[64]; static int gLits = 0;
extern "C" double __wrap_strtod(const char* s, char**) { size_t n = 0; while (s[n] && n < 63) { gLit[n] = s[n]; n++; } gLit[n] = 0; gLits++; return 1000.0 + gLits; }
extern "C" double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }

struct Tok { json::item_t item; bool flag; int n; char s[16]; };

static void read_and_compare(json_istream<size::_16>& js, const Tok& e) {
	char mem[64]; json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	int lits = gLits;
	js.get_token(t, sizeof mem);
	abc_assert(!js.fail() && !js.bad(), "a well-formed text is accepted");
	abc_assert(t->item == e.item, "the kind of the token is the text's");
	if (e.item == json::item::boolean) abc_assert(t->value.boolean == e.flag, "the boolean is the text's");
	if (e.item == json::item::number) {
		abc_assert(gLits == lits + 1 && t->value.number == 1000.0 + gLits, "the number is the converted literal");
		bool same = true; for (int i = 0; i < e.n; i++) same = same && gLit[i] == e.s[i];
		abc_assert(same && gLit[e.n] == 0, "the converted literal is the text's");
	}
	if (e.item == json::item::string || e.item == json::item::property) {
		const char* s = e.item == json::item::string ? t->value.string : t->value.property;
		abc_assert(js.gcount() == sizeof(json::item_t) + (std::size_t)e.n, "the length of the string is the text's");
		bool same = true; for (int i = 0; i < e.n; i++) same = same && s[i] == e.s[i];
		abc_assert(same && s[e.n] == 0, "the content of the string is the text's");
	}
}

// ---- generated well-formed documents
static char text[256]; static int tn; static Tok toks[64]; static int tkn; static int wsAt, wsN;
static void out(char c) { text[tn++] = c; }
static void outs(const char* s) { while (*s) out(*s++); }
static void ws() { if (wsN++ == wsAt) { char c; abc_sym(&c, 1, "ws"); abc_assume(c == ' ' || c == '\t' || c == '\r' || c == '\n'); out(c); } }
static char hexv(char c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
static void gen_string(Tok& t, int maxn) {
	out('"');
	t.n = (int)abc_choice("slen", maxn + 1);
	for (int i = 0; i < t.n; i++) {
		unsigned k = (unsigned)abc_choice("esc", 10);
		char c;
		if (k == 0) { abc_sym(&c, 1, "ch"); abc_assume(c != '"' && c != '\\' && (unsigned char)c >= 0x20); out(c); t.s[i] = c; }
		else if (k <= 8) { static const char e[] = "\"\\/bfnrt", v[] = "\"\\/\b\f\n\r\t"; out('\\'); out(e[k - 1]); t.s[i] = v[k - 1]; }
		else {
			char h[2]; abc_sym(h, 2, "hex");
			for (int j = 0; j < 2; j++) abc_assume((h[j] >= '0' && h[j] <= '9') || (h[j] >= 'a' && h[j] <= 'f') || (h[j] >= 'A' && h[j] <= 'F'));
			outs("\\u00"); out(h[0]); out(h[1]); t.s[i] = (char)(hexv(h[0]) * 16 + hexv(h[1]));
		}
	}
	out('"');
}
static void dig(Tok& t, bool nz) { char c; abc_sym(&c, 1, "d"); abc_assume(c >= (nz ? '1' : '0') && c <= '9'); out(c); t.s[t.n++] = c; }
static void lit(Tok& t, char c) { out(c); t.s[t.n++] = c; }
static void gen_number(Tok& t) {
	t.n = 0;
	if (abc_choice("neg", 2)) lit(t, '-');
	if (abc_choice("zero", 2)) lit(t, '0'); else { dig(t, true); if (abc_choice("two", 2)) dig(t, false); }
	if (abc_choice("frac", 2)) { lit(t, '.'); dig(t, false); }
	unsigned e = (unsigned)abc_choice("exp", 4);
	if (e) { lit(t, abc_choice("E", 2) ? 'E' : 'e'); if (e == 2) lit(t, '+'); if (e == 3) lit(t, '-'); dig(t, false); }
}
static void gen_value(int depth, int strn) {
	unsigned k = (unsigned)abc_choice("kind", depth > 0 ? 7 : 5);
	Tok& t = toks[tkn++]; t.n = 0;
	switch (k) {
	case 0: t.item = json::item::null; outs("null"); break;
	case 1: t.item = json::item::boolean; t.flag = true; outs("true"); break;
	case 2: t.item = json::item::boolean; t.flag = false; outs("false"); break;
	case 3: t.item = json::item::number; if (strn) gen_number(t); else { t.n = 0; lit(t, '0'); } break;
	case 4: t.item = json::item::string; gen_string(t, strn); break;
	case 5: {
		t.item = json::item::begin_array; out('['); ws();
		unsigned n = (unsigned)abc_choice("elems", 3);
		for (unsigned i = 0; i < n; i++) { if (i) { out(','); ws(); } gen_value(depth - 1, 0); ws(); }
		toks[tkn++].item = json::item::end_array; out(']');
		break;
	}
	case 6: {
		t.item = json::item::begin_object; out('{'); ws();
		unsigned n = (unsigned)abc_choice("members", 3);
		for (unsigned i = 0; i < n; i++) { if (i) { out(','); ws(); } Tok& p = toks[tkn++]; p.item = json::item::property; gen_string(p, strn); ws(); out(':'); ws(); gen_value(depth - 1, 0); ws(); }
		toks[tkn++].item = json::item::end_object; out('}');
		break;
	}
	}
}
static void generate(int depth, int strn) { tn = tkn = 0; wsN = 0; wsAt = (int)abc_choice("wsAt", 5); ws(); gen_value(depth, strn); ws(); }

// deeply nested documents of simple values
static void gen_nested(int depth) {
	Tok& t = toks[tkn++]; t.n = 0;
	unsigned k = depth > 0 ? (unsigned)abc_choice("kind", 3) : 0;
	if (k == 0) { if (abc_choice("null", 2)) { t.item = json::item::null; outs("null"); } else { t.item = json::item::number; lit(t, '7'); } return; }
	t.item = k == 1 ? json::item::begin_array : json::item::begin_object; out(k == 1 ? '[' : '{');
	unsigned n = (unsigned)abc_choice("elems", 3), deep = n ? (unsigned)abc_choice("deep", n) : 0;
	for (unsigned i = 0; i < n; i++) {
		if (i) out(',');
		if (k == 2) { Tok& p = toks[tkn++]; p.item = json::item::property; p.n = 1; out('"'); char c; abc_sym(&c, 1, "ch"); abc_assume(c != '"' && c != '\\' && (unsigned char)c >= 0x20); p.s[0] = c; out(c); out('"'); out(':'); }
		if (i == deep) gen_nested(depth - 1); else { Tok& v = toks[tkn++]; v.item = json::item::boolean; v.flag = true; outs("true"); }
	}
	toks[tkn++].item = k == 1 ? json::item::end_array : json::item::end_object; out(k == 1 ? ']' : '}');
}
// the stream may be moved between any two tokens
typedef json_istream<size::_16> IS;
alignas(IS) static char isRoom[2][sizeof(IS)];
static IS* moved(IS* from) { IS* to = from == (IS*)isRoom[0] ? (IS*)isRoom[1] : (IS*)isRoom[0]; std::size_t c = from->gcount(); new (to) IS(std::move(*from)); abc_assert(to->gcount() == c, "a moved stream keeps its count"); from->~IS(); return to; }
HARNESS h_nested() {
	tn = tkn = 0; gen_nested(DEPTH);
	buffer_streambuf sb(text, 0, tn, nullptr, 0, 0);
	IS* js = new (isRoom[0]) IS(&sb);
	for (int i = 0; i < tkn; i++) { read_and_compare(*js, toks[i]); js = moved(js); }
	abc_observe("tokens", (uint64_t)tkn); abc_reach("read");
	char mem[64]; json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	js->get_token(t, sizeof mem);
	abc_assert(!js->good() && t->item == json::item::none, "nothing follows the last token");
	js->~IS();
	// skipped as a whole
	outs(" \"z\" ");
	buffer_streambuf sb2(text, 0, tn, nullptr, 0, 0);
	IS js2(&sb2); js2.skip_value();
	abc_assert(js2.good(), "a well-formed value can be skipped");
	Tok z; z.item = json::item::string; z.n = 1; z.s[0] = 'z';
	read_and_compare(js2, z); abc_reach("skipped");
}
HARNESS h_document() {
	generate(DEPTH, 1);
	buffer_streambuf sb(text, 0, tn, nullptr, 0, 0);
	json_istream<size::_16> js(&sb);
	for (int i = 0; i < tkn; i++) read_and_compare(js, toks[i]);
	abc_observe("tokens", (uint64_t)tkn); abc_reach("read");
	char mem[64]; json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	js.get_token(t, sizeof mem);
	abc_assert(!js.good() && t->item == json::item::none, "nothing follows the last token");
}
// scalars with longer strings and every number shape
HARNESS h_scalar() {
	generate(0, 2);
	buffer_streambuf sb(text, 0, tn, nullptr, 0, 0);
	json_istream<size::_16> js(&sb);
	read_and_compare(js, toks[0]); abc_reach("read");
}
// skipping a whole value leaves the reader exactly behind it
HARNESS h_skip_document() {
	generate(DEPTH, 1);
	outs(" \"z\" ");
	buffer_streambuf sb(text, 0, tn, nullptr, 0, 0);
	json_istream<size::_16> js(&sb);
	js.skip_value();
	abc_assert(js.good(), "a well-formed value can be skipped");
	Tok z; z.item = json::item::string; z.n = 1; z.s[0] = 'z';
	read_and_compare(js, z); abc_reach("read");
	// inside an array: skip the first element only
	char mem[64]; json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	char text2[160]; int n = 0; text2[n++] = '['; for (int i = 0; i < tn; i++) { if (i == tn - 5) text2[n++] = ','; text2[n++] = text[i]; } text2[n++] = ']';
	buffer_streambuf sb2(text2, 0, n, nullptr, 0, 0);
	json_istream<size::_16> js2(&sb2);
	js2.get_token(t, sizeof mem);
	js2.skip_value();
	abc_assert(js2.good(), "a well-formed element can be skipped");
	read_and_compare(js2, z);
	js2.get_token(t, sizeof mem);
	abc_assert(t->item == json::item::end_array && js2.good(), "the array ends behind its last element");
}

// ---- arbitrary texts over the structural alphabet, against a reference recogniser
static const char* rp; static const char* re; static Tok rt[2 * N + 2]; static int rn; static bool rAgnostic;
static bool rlit(const char* w) { for (; *w; w++) { if (rp == re || *rp != *w) return false; rp++; } return true; }
static void rws() { while (rp < re && (*rp == ' ' || *rp == '\t' || *rp == '\n' || *rp == '\r')) rp++; }
static bool rdig() { bool any = false; while (rp < re && *rp >= '0' && *rp <= '9') { rp++; any = true; } return any; }
static bool rstring(Tok& t) {
	t.n = 0;
	if (rp == re || *rp != '"') return false; rp++;
	for (;;) {
		if (rp == re) return false;
		char c = *rp++;
		if (c == '"') return true;
		if (c == '\\') {
			if (rp == re) return false;
			char e = *rp++;
			if (e == '"' || e == '\\' || e == '/') t.s[t.n++] = e;
			else if (e == 'n') t.s[t.n++] = '\n';
			else return false;		// the alphabet has no other letter that makes an escape
		}
		else t.s[t.n++] = c;
	}
}
// one value; every complete token is recorded; false: malformed at this point
static bool rvalue(int depth) {
	rws();
	if (rp == re) return false;
	Tok& t = rt[rn]; char c = *rp;
	if (c == 'n') { if (!rlit("null")) return false; t.item = json::item::null; rn++; return true; }
	if (c == '"') { t.item = json::item::string; if (!rstring(t)) return false; rn++; return true; }
	if (c == '-' || c == '+' || (c >= '0' && c <= '9')) {
		t.item = json::item::number; t.n = 0; const char* b = rp;
		if (c == '+') rAgnostic = true;
		if (c == '-' || c == '+') rp++;
		const char* d = rp;
		if (!rdig()) rAgnostic = true;
		if (rp - d > 1 && *d == '0') rAgnostic = true;		// leading zeros: tolerated or not
		for (const char* q = b; q < rp; q++) t.s[t.n++] = *q;
		if (rp < re && (*rp == 'e' || *rp == '.')) rAgnostic = true;
		rn++; return !rAgnostic;
	}
	if (c == '[') {
		rp++; t.item = json::item::begin_array; rn++;
		rws(); if (rp < re && *rp == ']') { rp++; rt[rn++].item = json::item::end_array; return true; }
		for (;;) {
			if (!rvalue(depth + 1)) return false;
			rws(); if (rp == re) return false;
			if (*rp == ']') { rp++; rt[rn++].item = json::item::end_array; return true; }
			if (*rp != ',') return false;
			rp++; rws(); if (rp < re && *rp == ']') { rAgnostic = true; return false; }
		}
	}
	if (c == '{') {
		rp++; t.item = json::item::begin_object; rn++;
		rws(); if (rp < re && *rp == '}') { rp++; rt[rn++].item = json::item::end_object; return true; }
		for (;;) {
			rws(); Tok& p = rt[rn]; p.item = json::item::property; if (!rstring(p)) return false;
			rws(); if (rp == re || *rp != ':') return false; rp++; rn++;
			if (!rvalue(depth + 1)) return false;
			rws(); if (rp == re) return false;
			if (*rp == '}') { rp++; rt[rn++].item = json::item::end_object; return true; }
			if (*rp != ',') return false;
			rp++; rws(); if (rp < re && *rp == '}') { rAgnostic = true; return false; }
		}
	}
	return false;
}
HARNESS h_structure() {
	char in[N];
	abc_sym(in, N, "in");
	for (int i = 0; i < N; i++) { char c = in[i]; abc_assume(c == '[' || c == ']' || c == '{' || c == '}' || c == ',' || c == ':' || c == '"' || c == 'n' || c == 'u' || c == 'l' || c == '1' || c == ' ' || c == '\\' || c == '-'); }
	rp = in; re = in + N; rn = 0; rAgnostic = false;
	bool clean = false; int bad_from = 0;
	for (;;) { rws(); if (rp == re) { clean = true; break; } bad_from = rn; if (!rvalue(0)) break; }
	buffer_streambuf sb(in, 0, N, nullptr, 0, 0);
	json_istream<size::_16> js(&sb);
	char mem[64]; json::token_t* t = reinterpret_cast<json::token_t*>(mem);
	int got = 0;
	for (;; got++) {
		gLit[0] = 0;
		js.get_token(t, sizeof mem);
		if (js.fail() || js.bad()) break;
		abc_assert(got < rn || rAgnostic, "a malformed text is refused");
		if (got >= rn) break;
		abc_assert(t->item == rt[got].item, "tokens follow the text");
		if (t->item == json::item::string || t->item == json::item::property) {
			const char* s = t->item == json::item::string ? t->value.string : t->value.property;
			for (int i = 0; i < rt[got].n; i++) abc_assert(s[i] == rt[got].s[i], "the content of the string is the text's");
			abc_assert(s[rt[got].n] == 0, "the string ends where the text's does");
		}
		if (t->item == json::item::number && !rAgnostic) for (int i = 0; i < rt[got].n; i++) abc_assert(gLit[i] == rt[got].s[i], "the number is the text's");
	}
	if (clean) { abc_assert(got == rn, "a well-formed text is read to its end"); if (rn >= 3) abc_reach("clean"); }
	else if (!rAgnostic) abc_reach("malformed");
	abc_observe("got", (uint64_t)got);
}
