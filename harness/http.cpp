// HTTP streams.
#include <cstring>
#include <cstdio>
#include <exception>
#include <stdexcept>
#include "abcsym.h"
#include "src/buffer_streambuf.h"
#include "src/http.h"
using namespace abc;
#ifndef N
#define N 4
#endif
#ifndef CAP
#define CAP 4
#endif
struct Buf : buffer_streambuf {
	using buffer_streambuf::basic_buffer_streambuf;
	std::size_t written() { return pptr() - pbase(); }
	std::size_t left() { return egptr() - gptr(); }
	const char* here() { return gptr(); }
};
static bool print(char c) { return c >= 0x21 && c <= 0x7e; }
static bool space(char c) { return c == ' ' || c == '\t'; }
static bool tokench(char c) { if (!print(c)) return false; for (const char* p = "()<>[]{}@,;:\\/\"?="; *p; p++) if (c == *p) return false; return true; }
static bool digit(char c) { return c >= '0' && c <= '9'; }

// ---------------------------------------------------------------- any bytes
// what an item is made of: read independently of the stream, from where the item starts
enum Shape { METHOD, RESOURCE, REQUEST_PROTOCOL, PROTOCOL, STATUS, REASON, NAME, VALUE };
struct Walk {
	const char* p; const char* e; char t[64]; std::size_t n; bool ok;
	char at() const { return p < e ? *p : (char)0x80; }
	bool one(char c) { if (at() != c) return ok = false; p++; return true; }
	void keep(bool (*is)(char)) { while (is(at())) t[n++] = *p++; }
	void spaces() { while (space(at())) p++; }
	void crlf() { one('\r'); if (ok) one('\n'); }
	static bool printsp(char c) { return print(c) || space(c); }
	static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
	void protocol() {
		keep(alpha); ok = n == 4 && (t[0] | 32) == 'h' && (t[1] | 32) == 't' && (t[2] | 32) == 't' && (t[3] | 32) == 'p';
		if (ok && one('/')) { t[n++] = '/'; keep(digit); if (one('.')) { t[n++] = '.'; keep(digit); spaces(); } }
	}
	void read(Shape s) {
		n = 0; ok = true;
		switch (s) {
		case METHOD: keep(tokench); spaces(); break;
		case RESOURCE: keep(print); spaces(); break;
		case REQUEST_PROTOCOL: protocol(); if (ok) crlf(); break;
		case PROTOCOL: protocol(); break;
		case STATUS: keep(digit); spaces(); break;
		case REASON: keep(printsp); crlf(); break;
		case NAME: keep(tokench); spaces(); if (n) { one(':'); spaces(); } else crlf(); break;
		case VALUE:
			do { for (;;) { bool sp = space(at()); spaces(); if (!print(at())) break; if (n && sp) t[n++] = ' '; keep(print); } crlf(); } while (ok && space(at()));
			break;
		}
	}
};
// a text item: a buffer of exactly `size` bytes; the result must be terminated inside it
template <typename F> static std::size_t item(abc::istream& is, Buf& sb, Shape shape, std::size_t size, F get) {
	char* b = new char[size]; abc_uninit(b, size); bool was = is.good(); Walk w; w.p = sb.here(); w.e = w.p + sb.left();
	get(b, size);
	std::size_t n = is.gcount();
	abc_assert(n < size, "the reported length fits the buffer");
	abc_assert(b[n] == 0, "the text is terminated behind its reported length");
	for (std::size_t i = 0; i < n; i++) abc_assert(b[i] != 0, "no terminator inside the reported length");
	if (was && is.good()) {
		w.read(shape);
		abc_assert(w.ok, "an item that is not well-formed turns the stream bad");
		abc_assert(w.p == sb.here(), "an item is read to its end and no further");
		abc_assert(w.n == n && !std::memcmp(w.t, b, n), "the text is what the item says");
	}
	delete[] b;
	return n;
}
static std::size_t cap() { return 2 + abc_choice("cap", CAP); }

static void headers(http_request_istream<>& is, Buf& sb, std::size_t limit) {
	for (std::size_t k = 0; is.good() && is.next() == http::item::header_name; k++) {
		abc_assert(k <= limit, "each header consumes input");
		item(is, sb, NAME, cap(), [&](char* b, std::size_t n) { is.get_header_name(b, n); });
		if (!is.good() || is.next() != http::item::header_value) break;
		item(is, sb, VALUE, cap(), [&](char* b, std::size_t n) { is.get_header_value(b, n); });
		abc_reach("header");
	}
	if (is.good() && is.next() == http::item::body) abc_reach("body");
}
HARNESS h_request_line() {
	char in[N]; abc_sym(in, N, "in");
	Buf sb(in, 0, N, nullptr, 0, 0);
	http_request_istream<> is(&sb);
	item(is, sb, METHOD, cap(), [&](char* b, std::size_t n) { is.get_method(b, n); });
	item(is, sb, RESOURCE, cap() + 1, [&](char* b, std::size_t n) { is.get_resource(b, n); });
	if (is.good()) abc_reach("resource");
	item(is, sb, REQUEST_PROTOCOL, 7 + cap(), [&](char* b, std::size_t n) { is.get_protocol(b, n); });
	abc_reach("end");
}
HARNESS h_protocol() {
	char in[N + 14]; std::memcpy(in, "G / HTTP/", 9); abc_sym(in + 9, N, "in");
	Buf sb(in, 0, 9 + N, nullptr, 0, 0);
	http_request_istream<> is(&sb);
	item(is, sb, METHOD, 8, [&](char* b, std::size_t n) { is.get_method(b, n); });
	item(is, sb, RESOURCE, 8, [&](char* b, std::size_t n) { is.get_resource(b, n); });
	item(is, sb, REQUEST_PROTOCOL, 6 + cap(), [&](char* b, std::size_t n) { is.get_protocol(b, n); });
	if (is.good()) abc_reach("protocol");
}
HARNESS h_status_line() {
	char in[N + 14]; std::memcpy(in, "HTTP/1.1", 8); abc_sym(in + 8, N, "in");
	Buf sb(in, 0, 8 + N, nullptr, 0, 0);
	http_response_istream<> is(&sb);
	item(is, sb, PROTOCOL, 16, [&](char* b, std::size_t n) { is.get_protocol(b, n); });
	item(is, sb, STATUS, cap(), [&](char* b, std::size_t n) { is.get_status_code(b, n); });
	item(is, sb, REASON, cap(), [&](char* b, std::size_t n) { is.get_reason_phrase(b, n); });
	if (is.good()) abc_reach("reason");
}
HARNESS h_headers() {
	char in[16 + N]; std::memcpy(in, "G / HTTP/1.1\r\n", 14); abc_sym(in + 14, N, "in");
	Buf sb(in, 0, 14 + N, nullptr, 0, 0);
	http_request_istream<> is(&sb);
	item(is, sb, METHOD, 4, [&](char* b, std::size_t n) { is.get_method(b, n); });
	item(is, sb, RESOURCE, 4, [&](char* b, std::size_t n) { is.get_resource(b, n); });
	item(is, sb, REQUEST_PROTOCOL, 9, [&](char* b, std::size_t n) { is.get_protocol(b, n); });
	abc_assert(is.good(), "a well-formed request line is accepted");
	headers(is, sb, N);
	abc_reach("end");
}

// ---------------------------------------------------------------- body
HARNESS h_body() {
	std::size_t len = abc_choice("len", N + 1);
	char in[4 + N]; std::memcpy(in, "a:\r\n", 0);
	const char* head = "HTTP/1.1 200 OK\r\n\r\n"; std::size_t hl = std::strlen(head);
	char* mem = new char[hl + len]; std::memcpy(mem, head, hl); abc_sym(in, N, "body"); std::memcpy(mem + hl, in, len);
	Buf sb(mem, 0, hl + len, nullptr, 0, 0);
	http_response_istream<> is(&sb);
	char t[16];
	is.get_protocol(t, 16); is.get_status_code(t, 16); is.get_reason_phrase(t, 16); is.get_header_name(t, 16);
	abc_assert(is.good() && is.next() == http::item::body, "the headers end at the empty line");
	std::size_t got = 0;
	for (int k = 0; k < 2 * N + 2 && is.good(); k++) {
		std::size_t want = 1 + abc_choice("want", N);
		char* b = new char[want];
		is.get_body(b, want);
		std::size_t n = is.gcount();
		abc_assert(n <= want, "no more body than asked for");
		abc_assert(n <= len - got, "no more body than there is");
		for (std::size_t i = 0; i < n; i++) abc_assert(b[i] == in[got + i], "the body arrives byte for byte");
		if (got + want <= len) abc_assert(n == want && is.good(), "as much body as asked for when there is enough");
		got += n; delete[] b;
	}
	abc_assert(got == len, "the whole body is delivered");
	abc_reach("end");
	delete[] mem;
}
HARNESS h_put_body() {
	char body[N]; abc_sym(body, N, "body");
	std::size_t len = abc_choice("len", N + 1), c = abc_choice("cap", N + 3);
	char* mem = new char[21 + c];
	Buf sb(nullptr, 0, 0, mem, 0, 19 + c);
	http_response_ostream<> os(&sb);
	os.put_protocol("HTTP/1.1"); os.put_status_code("200"); os.put_reason_phrase("OK"); os.end_headers();
	abc_assert(os.good() && sb.written() == 19, "head");
	std::size_t a = abc_choice("first", len + 1);
	os.put_body(body, a); os.put_body(body + a, len - a);
	abc_assert(os.good() == (len <= c), "the stream is good exactly if the body fitted");
	for (std::size_t i = 0; i < len && i < c; i++) abc_assert(mem[19 + i] == body[i], "the body is written byte for byte");
	abc_reach("end");
	delete[] mem;
}

// ---------------------------------------------------------------- round trip
static std::size_t sym_text(char* b, std::size_t maxn, std::size_t minn, const char* name, bool (*ok)(char)) {
	std::size_t n = minn + abc_choice("len", maxn - minn + 1);
	abc_sym(b, maxn, name); for (std::size_t i = 0; i < n; i++) abc_assume(ok(b[i])); b[n] = 0; return n;
}
// the documented normal form of a header value: runs of white space (line folding included) are one space, none at the ends
static bool normal_value(const char* v, std::size_t n, char* o, std::size_t& on) {
	on = 0; bool sp = false;
	for (std::size_t i = 0; i < n;) {
		if (space(v[i])) { sp = true; i++; }
		else if (v[i] == '\r' && i + 2 < n && v[i + 1] == '\n' && space(v[i + 2])) { sp = true; i += 3; }
		else if (print(v[i])) { if (sp && on) o[on++] = ' '; sp = false; o[on++] = v[i++]; }
		else return false;
	}
	return true;
}
static bool printsp(char c) { return print(c) || space(c); }
HARNESS h_request_roundtrip() {
	char mem[128]; char m[8], r[N + 4], hn[8], hv[N + 4], nv[N + 4]; std::size_t nvn;
	std::size_t mn = sym_text(m, 2, 1, "method", tokench), rn = sym_text(r, N - 1, 1, "resource", print), hnn = sym_text(hn, 2, 1, "name", tokench), hvn = sym_text(hv, N, 0, "value", printsp);
	char ver[9] = "HTTP/1.1"; char v[2]; abc_sym(v, 2, "version"); abc_assume(digit(v[0]) && digit(v[1])); ver[5] = v[0]; ver[7] = v[1];
	char body[2]; abc_sym(body, 2, "body");
	Buf wb(nullptr, 0, 0, mem, 0, sizeof mem);
	http_request_ostream<> os(&wb);
	os.put_method(m); os.put_resource(r, rn); os.put_protocol(ver);
	std::size_t hdrs = abc_choice("headers", 3);
	for (std::size_t i = 0; i < hdrs; i++) { os.put_header_name(hn, i ? hnn : (std::size_t)size::strlen); os.put_header_value(hv, hvn); }
	os.end_headers(); os.put_body(body, 2);
	abc_assert(os.good(), "a legal request is accepted");
	Buf rb(mem, 0, wb.written(), nullptr, 0, 0);
	http_request_istream<> is(&rb);
	char b[32];
	is.get_method(b, sizeof b); abc_assert(is.good() && is.gcount() == mn && std::strcmp(b, m) == 0, "the method arrives");
	is.get_resource(b, sizeof b); abc_assert(is.good() && is.gcount() == rn && std::strcmp(b, r) == 0, "the resource arrives");
	is.get_protocol(b, sizeof b); abc_assert(is.good() && std::strcmp(b, ver) == 0, "the protocol arrives");
	abc_assert(normal_value(hv, hvn, nv, nvn), "reference"); nv[nvn] = 0;
	for (std::size_t i = 0; i < hdrs; i++) {
		is.get_header_name(b, sizeof b); abc_assert(is.good() && is.next() == http::item::header_value && is.gcount() == hnn && std::strcmp(b, hn) == 0, "the header name arrives");
		is.get_header_value(b, sizeof b); abc_assert(is.good() && is.gcount() == nvn && std::strcmp(b, nv) == 0, "the header value arrives");
	}
	is.get_header_name(b, sizeof b); abc_assert(is.good() && is.gcount() == 0 && is.next() == http::item::body, "the headers end");
	is.get_body(b, 2); abc_assert(is.good() && is.gcount() == 2 && b[0] == body[0] && b[1] == body[1], "the body arrives");
	abc_assert(rb.left() == 0, "nothing else was sent");
	abc_reach("end");
}
HARNESS h_response_roundtrip() {
	char mem[128]; char c[8], p[N + 4];
	std::size_t cn = sym_text(c, 3, 1, "code", digit), pn = sym_text(p, N, 0, "reason", printsp);
	abc_assume(pn == 0 || print(p[0]));
	bool none = abc_choice("none", 2) != 0; if (none) { abc_assume(pn == 0); }
	Buf wb(nullptr, 0, 0, mem, 0, sizeof mem);
	http_response_ostream<> os(&wb);
	os.put_protocol("HTTP/1.0"); os.put_status_code(c, cn); if (none) os.put_reason_phrase(nullptr); else os.put_reason_phrase(p, pn);
	os.put_header_name("A"); os.put_header_value("b  c"); os.end_headers();
	abc_assert(os.good(), "a legal response is accepted");
	Buf rb(mem, 0, wb.written(), nullptr, 0, 0);
	http_response_istream<> is(&rb);
	char b[32];
	is.get_protocol(b, sizeof b); abc_assert(is.good() && std::strcmp(b, "HTTP/1.0") == 0, "the protocol arrives");
	is.get_status_code(b, sizeof b); abc_assert(is.good() && is.gcount() == cn && std::strcmp(b, c) == 0, "the status code arrives");
	is.get_reason_phrase(b, sizeof b); abc_assert(is.good() && is.gcount() == pn && std::strncmp(b, p, pn) == 0 && b[pn] == 0, "the reason phrase arrives");
	is.get_header_name(b, sizeof b); abc_assert(is.good() && std::strcmp(b, "A") == 0, "the header name arrives");
	is.get_header_value(b, sizeof b); abc_assert(is.good() && std::strcmp(b, "b c") == 0, "the header value arrives");
	is.get_header_name(b, sizeof b); abc_assert(is.good() && is.gcount() == 0 && is.next() == http::item::body && rb.left() == 0, "the headers end");
	abc_reach("end");
}

// ---------------------------------------------------------------- no injection
// one field of a request or response carries arbitrary bytes: either the stream turns bad, or the field reads back whole; lines are never added
HARNESS h_injection() {
	char mem[128]; char v[N + 1]; std::size_t n = abc_choice("len", N + 1); abc_sym(v, N, "field"); v[N] = 0;
	unsigned f = (unsigned)abc_choice("which", 6);
	Buf wb(nullptr, 0, 0, mem, 0, sizeof mem);
	bool ok; std::size_t lines; char b[64]; char nv[N + 1]; std::size_t nvn = n; std::memcpy(nv, v, N); bool legal = true;
	if (f < 4) {
		http_request_ostream<> os(&wb);
		if (f == 0) os.put_method(v, n); else os.put_method("GET");
		if (f == 1) os.put_resource(v, n); else os.put_resource("/");
		os.put_protocol("HTTP/1.1");
		if (f == 2) os.put_header_name(v, n); else os.put_header_name("A");
		if (f == 3) os.put_header_value(v, n); else os.put_header_value("b");
		os.end_headers();
		ok = os.good(); lines = 3;
		if (f == 3) legal = normal_value(v, n, nv, nvn);
		else for (std::size_t i = 0; i < n; i++) legal = legal && (f == 1 ? print(v[i]) : tokench(v[i]));
		if (f == 3 && n >= 3 && v[n - 3] == '\r' && v[n - 2] == '\n' && space(v[n - 1])) return;	// a line folded with nothing behind it: unspecified
		if (n == 0 && f < 3) return;		// an empty method, resource or name is the caller's mistake
		abc_assert(ok == legal, "a field is accepted exactly if it can be sent");
		if (ok) {
			abc_reach("sent");
			Buf rb(mem, 0, wb.written(), nullptr, 0, 0); http_request_istream<> is(&rb);
			is.get_method(b, sizeof b); if (f == 0) abc_assert(is.gcount() == n && std::memcmp(b, v, n) == 0, "the method arrives");
			is.get_resource(b, sizeof b); if (f == 1) abc_assert(is.gcount() == n && std::memcmp(b, v, n) == 0, "the resource arrives");
			is.get_protocol(b, sizeof b);
			is.get_header_name(b, sizeof b); if (f == 2) abc_assert(is.gcount() == n && std::memcmp(b, v, n) == 0, "the header name arrives");
			is.get_header_value(b, sizeof b); if (f == 3) abc_assert(is.gcount() == nvn && std::memcmp(b, nv, nvn) == 0, "the header value arrives");
			abc_assert(is.good(), "what was sent is well-formed");
		}
	}
	else {
		http_response_ostream<> os(&wb);
		os.put_protocol("HTTP/1.1");
		if (f == 4) os.put_status_code(v, n); else os.put_status_code("200");
		if (f == 5) os.put_reason_phrase(v, n); else os.put_reason_phrase("OK");
		os.end_headers();
		ok = os.good(); lines = 2;
		for (std::size_t i = 0; i < n; i++) legal = legal && (f == 4 ? digit(v[i]) : printsp(v[i]));
		if (n == 0 && f == 4) return;
		abc_assert(ok == legal, "a field is accepted exactly if it can be sent");
	}
	std::size_t crlf = 0;
	for (std::size_t i = 0; i < wb.written(); i++) {
		if (mem[i] == '\n') { crlf++; abc_assert(i > 0 && mem[i - 1] == '\r', "no bare line feed"); }
		if (mem[i] == '\r') abc_assert(i + 1 < wb.written() && mem[i + 1] == '\n', "no bare carriage return");
	}
	abc_assert(ok ? crlf == lines : crlf <= lines, "no field adds a line");
	abc_reach("end");
}

// ---------------------------------------------------------------- order
#ifndef K
#define K 6
#endif
template <typename F> static bool throws(F f) { try { f(); } catch (const std::logic_error&) { return true; } return false; }
template <typename S> static void move_stream(S*& p) { bool good = p->good(), eof = p->eof(), fail = p->fail(); S* q = new S(std::move(*p)); delete p; p = q; abc_assert(p->good() == good && p->eof() == eof && p->fail() == fail, "a moved stream is as good or bad as it was"); if (!good) abc_reach("bad"); }
HARNESS h_order() {
	char mem[256]; Buf wb(nullptr, 0, 0, mem, 0, sizeof mem);
	char src[] = "G / HTTP/1.1\r\na: b\r\nc: d\r\n\r\nxyxyxy", src2[] = "HTTP/1.1 200 OK\r\na: b\r\nc: d\r\n\r\nxyxyxy";
	unsigned side = (unsigned)abc_choice("side", 4);
	Buf qb(src, 0, sizeof src - 1, nullptr, 0, 0), pb(src2, 0, sizeof src2 - 1, nullptr, 0, 0);
	http_request_ostream<>* qop = new http_request_ostream<>(&wb); http_response_ostream<>* pop = new http_response_ostream<>(&wb); http_request_istream<>* qip = new http_request_istream<>(&qb); http_response_istream<>* pip = new http_response_istream<>(&pb);
#define qo (*qop)
#define po (*pop)
#define qi (*qip)
#define pi (*pip)
#ifdef MOVED
	int move_at = (int)abc_choice("moved", K);
#endif
	// states: 0 method/-, 1 resource/status, 2 protocol/.., 3 header name, 4 header value, 5 body
	int st = 0; int hdr = 0; char b[32];
	for (int k = 0; k < K; k++) {
#ifdef MOVED
		if (k == move_at) {		// the stream moves, and goes on where it was
			if (side == 0) move_stream(qop); if (side == 1) move_stream(pop);
			if (side == 2) { std::size_t n = qi.gcount(); move_stream(qip); abc_assert(qi.gcount() == n, "a moved stream keeps its count"); }
			if (side == 3) { std::size_t n = pi.gcount(); move_stream(pip); abc_assert(pi.gcount() == n, "a moved stream keeps its count"); }
		}
#endif
		unsigned c = (unsigned)abc_choice("call", side < 2 ? 7 : 6);
		std::size_t before = wb.written(), left = qb.left() + pb.left();
		bool t = false; int want = 0, next = 0;
		if (side == 0) switch (c) {
			case 0: t = throws([&] { qo.put_method("G"); }); want = 0; next = 1; break;
			case 1: t = throws([&] { qo.put_resource("/"); }); want = 1; next = 2; break;
			case 2: t = throws([&] { qo.put_protocol("HTTP/1.1"); }); want = 2; next = 3; break;
			case 3: t = throws([&] { qo.put_header_name("a"); }); want = 3; next = 4; break;
			case 4: t = throws([&] { qo.put_header_value("b"); }); want = 4; next = 3; break;
			case 5: t = throws([&] { qo.put_body("x"); }); want = 5; next = 5; break;
			case 6: t = throws([&] { qo.end_headers(); }); want = 3; next = 5; break;
		}
		else if (side == 1) switch (c) {
			case 0: t = throws([&] { po.put_protocol("HTTP/1.1"); }); want = 0; next = 1; break;
			case 1: t = throws([&] { po.put_status_code("200"); }); want = 1; next = 2; break;
			case 2: t = throws([&] { po.put_reason_phrase("OK"); }); want = 2; next = 3; break;
			case 3: t = throws([&] { po.put_header_name("a"); }); want = 3; next = 4; break;
			case 4: t = throws([&] { po.put_header_value("b"); }); want = 4; next = 3; break;
			case 5: t = throws([&] { po.put_body("x"); }); want = 5; next = 5; break;
			case 6: t = throws([&] { po.end_headers(); }); want = 3; next = 5; break;
		}
		else if (side == 2) switch (c) {
			case 0: t = throws([&] { qi.get_method(b, 32); }); want = 0; next = 1; break;
			case 1: t = throws([&] { qi.get_resource(b, 32); }); want = 1; next = 2; break;
			case 2: t = throws([&] { qi.get_protocol(b, 32); }); want = 2; next = 3; break;
			case 3: t = throws([&] { qi.get_header_name(b, 32); }); want = 3; next = hdr < 2 ? 4 : 5; break;
			case 4: t = throws([&] { qi.get_header_value(b, 32); }); want = 4; next = 3; break;
			case 5: t = throws([&] { qi.get_body(b, 1); }); want = 5; next = 5; break;
		}
		else switch (c) {
			case 0: t = throws([&] { pi.get_protocol(b, 32); }); want = 0; next = 1; break;
			case 1: t = throws([&] { pi.get_status_code(b, 32); }); want = 1; next = 2; break;
			case 2: t = throws([&] { pi.get_reason_phrase(b, 32); }); want = 2; next = 3; break;
			case 3: t = throws([&] { pi.get_header_name(b, 32); }); want = 3; next = hdr < 2 ? 4 : 5; break;
			case 4: t = throws([&] { pi.get_header_value(b, 32); }); want = 4; next = 3; break;
			case 5: t = throws([&] { pi.get_body(b, 1); }); want = 5; next = 5; break;
		}
		abc_assert(t == (want != st), "a call is refused exactly if it is out of order");
		if (t) { abc_assert(wb.written() == before && qb.left() + pb.left() == left, "a refused call neither writes nor reads"); abc_reach("refused"); continue; }
		if (side == 0) abc_assert(qo.good(), "in order"); if (side == 1) abc_assert(po.good(), "in order");
		if (side == 2) abc_assert(qi.good(), "in order"); if (side == 3) abc_assert(pi.good(), "in order");
		if (want == 4) hdr++;
		st = next;
		if (st == 5) abc_reach("body");
	}
	// start over
	if (abc_choice("reset", 2)) {
		if (side == 0) { qo.reset(); abc_assert(!throws([&] { qo.put_method("G"); }), "a reset stream starts over"); }
		if (side == 1) { po.reset(); abc_assert(!throws([&] { po.put_protocol("HTTP/1.1"); }), "a reset stream starts over"); }
		if (side == 2) { qi.reset(); abc_assert(!throws([&] { qi.get_method(b, 32); }), "a reset stream starts over"); }
		if (side == 3) { pi.reset(); abc_assert(!throws([&] { pi.get_protocol(b, 32); }), "a reset stream starts over"); }
	}
	delete qop; delete pop; delete qip; delete pip;
	abc_reach("end");
#undef qo
#undef po
#undef qi
#undef pi
}

// ---------------------------------------------------------------- resource and parameters
static bool eq(const char* a, std::size_t n, const char* b) { for (std::size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return b[n] == 0; }
HARNESS h_parameters() {
	// the resource arrives over the stream, into a buffer whose remaining bytes are arbitrary
	std::size_t n = 1 + abc_choice("len", N);
	char* in = new char[n + 1]; abc_sym(in, n, "resource"); for (std::size_t i = 0; i < n; i++) abc_assume(print(in[i])); in[n] = ' ';
	char whole[N + 8]; whole[0] = 'G'; whole[1] = ' '; std::memcpy(whole + 2, in, n + 1);
	Buf sb(whole, 0, n + 3, nullptr, 0, 0);
	http_request_istream<> is(&sb);
	char t[4]; is.get_method(t, sizeof t);
	std::size_t size = n + 2 + abc_choice("extra", 3);
	char* b = new char[size]; abc_sym(b, size, "old");
	is.get_resource(b, size);
	abc_assert(is.gcount() == n, "the resource fits");
	http_request_istream<>::split_resource(b, size);
	// reference: path before the first '?', then '&'-separated items up to the first empty one
	std::size_t q = 0; while (q < n && in[q] != '?') q++;
	abc_assert(eq(in, q, b), "the path is what precedes the query");
	char name[2]; abc_sym(name, 1, "name"); name[1] = 0; abc_assume(print(name[0]) && name[0] != '=' && name[0] != '&');
	const char* v = http_request_istream<>::get_resource_parameter(b, size, name);
	const char* rv = nullptr; std::size_t rn = 0; bool agnostic = false;
	for (std::size_t i = q + 1; i < n + 1 && q < n;) {
		std::size_t e = i; while (e < n && in[e] != '&') e++;
		if (e == i) { agnostic = true; break; }		// an empty item ends the list
		if (!rv && e - i >= 2 && in[i] == name[0] && in[i + 1] == '=') { rv = in + i + 2; rn = e - i - 2; break; }
		i = e + 1;
	}
	if (rv) { abc_reach("found"); abc_assert(v != nullptr && eq(rv, rn, v), "a parameter has the value the resource gives it"); }
	else if (!agnostic) { abc_reach("absent"); abc_assert(v == nullptr, "an absent parameter is reported absent"); }
	else if (v) abc_assert(v > b && v < b + size, "a value lies inside the buffer");
	delete[] in; delete[] b;
}
