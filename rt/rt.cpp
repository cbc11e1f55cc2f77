// Models of the C library and of the non-template parts of libstdc++ for the symbolic
// executor.  Linked into every harness module; functions named abcrt_X stand for X.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <ios>

extern "C" int abc_fmt_double(char* out, size_t size, double d, int prec, int conv);

extern "C" {
int abc_errno = 0;

size_t abcrt_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int abcrt_strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int abcrt_strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static inline unsigned char low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abcrt_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abcrt_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int abcrt_strcasecmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = low(*a), y = low(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int abcrt_strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = low(*a), y = low(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int abcrt_memcmp(const void* p, const void* q, size_t n) { const unsigned char* a = (const unsigned char*)p; const unsigned char* b = (const unsigned char*)q; for (; n; a++, b++, n--) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int abcrt_bcmp(const void* p, const void* q, size_t n) { const unsigned char* a = (const unsigned char*)p; const unsigned char* b = (const unsigned char*)q; for (; n; a++, b++, n--) if (*a != *b) return 1; return 0; }
void* abcrt_memchr(const void* p, int c, size_t n) { const unsigned char* a = (const unsigned char*)p; for (; n; a++, n--) if (*a == (unsigned char)c) return (void*)a; return nullptr; }
char* abcrt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* abcrt_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* abcrt_strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return nullptr; } }
char* abcrt_strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* abcrt_stpcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
char* abcrt_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* abcrt_strcat(char* d, const char* s) { abcrt_strcpy(d + abcrt_strlen(d), s); return d; }
size_t abcrt_strspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t abcrt_strcspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
int abcrt_isdigit(int c) { return c >= '0' && c <= '9'; }
int abcrt_isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int abcrt_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int abcrt_abs(int v) { return v < 0 ? -v : v; }

namespace {
	struct Out { char* b; size_t size, n; };
	inline void put(Out& o, char c) { if (o.n + 1 < o.size) o.b[o.n] = c; o.n++; }
	void pad(Out& o, int n, char c) { for (; n > 0; n--) put(o, c); }
}
int abcrt_vsnprintf(char* buf, size_t size, const char* f, va_list ap) {
	Out o{ buf, size, 0 };
	for (; *f; f++) {
		if (*f != '%') { put(o, *f); continue; }
		f++;
		bool left = false, zero = false, alt = false, plus = false;
		for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else if (*f == ' ') {} else break; }
		int width = 0, prec = -1;
		if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		int sz = 4;
		for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') sz = 8; else if (*f == 'h') { sz = sz == 2 ? 1 : 2; } else if (*f == 'L') {} else break; }
		char c = *f;
		if (c == '%') { put(o, '%'); continue; }
		if (c == 'c') { char ch = (char)va_arg(ap, int); if (!left) pad(o, width - 1, ' '); put(o, ch); if (left) pad(o, width - 1, ' '); continue; }
		if (c == 's') {
			const char* s = va_arg(ap, const char*); if (!s) s = "(null)";
			int n = 0; while ((prec < 0 || n < prec) && s[n]) n++;
			if (!left) pad(o, width - n, ' ');
			for (int i = 0; i < n; i++) put(o, s[i]);
			if (left) pad(o, width - n, ' ');
			continue;
		}
		if (c == 'g' || c == 'f' || c == 'e' || c == 'G') {
			double d = va_arg(ap, double); char t[400]; int n = abc_fmt_double(t, sizeof t, d, prec < 0 ? 6 : prec, c);
			if (!left) pad(o, width - n, ' '); for (int i = 0; i < n; i++) put(o, t[i]); if (left) pad(o, width - n, ' ');
			continue;
		}
		uint64_t v; bool neg = false; unsigned base = 10; bool upper = false;
		if (c == 'd' || c == 'i') {
			int64_t x = sz == 8 ? va_arg(ap, int64_t) : (int64_t)va_arg(ap, int);
			if (sz == 2) x = (int16_t)x; if (sz == 1) x = (int8_t)x;
			neg = x < 0; v = neg ? 0 - (uint64_t)x : (uint64_t)x;
		}
		else {
			v = (sz == 8 || c == 'p') ? va_arg(ap, uint64_t) : (uint64_t)va_arg(ap, unsigned);
			if (sz == 2) v = (uint16_t)v; if (sz == 1) v = (uint8_t)v;
			base = c == 'o' ? 8 : (c == 'x' || c == 'X' || c == 'p') ? 16 : 10; upper = c == 'X';
			if (c == 'p') alt = true;
		}
		char t[32]; int n = 0;
		if (base == 10 && v <= 0xffffffffu) { uint32_t w = (uint32_t)v; do { t[n++] = (char)('0' + w % 10); w /= 10; } while (w); }
		else if (base == 16) { do { unsigned d = v & 15; t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v >>= 4; } while (v); }
		else do { unsigned d = (unsigned)(v % base); t[n++] = (char)('0' + d); v /= base; } while (v);
		if (prec == 0 && n == 1 && t[0] == '0') n = 0;
		int digits = n > prec ? n : prec;
		int extra = (neg || plus ? 1 : 0) + (alt && base == 16 ? 2 : 0);
		int total = digits + extra;
		if (!left && !(zero && prec < 0)) pad(o, width - total, ' ');
		if (neg) put(o, '-'); else if (plus) put(o, '+');
		if (alt && base == 16) { put(o, '0'); put(o, upper ? 'X' : 'x'); }
		if (!left && zero && prec < 0) pad(o, width - total, '0');
		pad(o, digits - n, '0');
		while (n > 0) put(o, t[--n]);
		if (left) pad(o, width - total, ' ');
	}
	if (size) buf[o.n < size ? o.n : size - 1] = 0;
	return (int)o.n;
}
int abcrt_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = abcrt_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int abcrt_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = abcrt_vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
// sscanf: %u and %Ns only, as used by the samples
static int abcrt_vsscanf(const char* s, const char* f, va_list ap) {
	int r = 0;
	for (; *f; f++) {
		if (*f != '%') { if (*s != *f) break; s++; continue; }
		f++; int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
		if (*f == 'u' || *f == 'd') { bool neg = false; while (*s == ' ') s++; if (*s == '-' || *s == '+') { neg = *s == '-'; s++; } if (*s < '0' || *s > '9') break; unsigned v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (unsigned)(*s++ - '0'); *va_arg(ap, unsigned*) = neg ? 0u - v : v; r++; }
		else if (*f == 's') { char* d = va_arg(ap, char*); while (*s == ' ') s++; if (!*s) break; int n = 0; while (*s && *s != ' ' && (w == 0 || n < w)) d[n++] = *s++; d[n] = 0; r++; }
		else break;
	}
	return r;
}
int abcrt_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = abcrt_vsscanf(s, f, ap); va_end(ap); return r; }
int abcrt___isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = abcrt_vsscanf(s, f, ap); va_end(ap); return r; }
int abcrt___isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = abcrt_vsscanf(s, f, ap); va_end(ap); return r; }

static unsigned rnd_state = 1;
int abcrt_rand(void) { rnd_state = rnd_state * 1103515245u + 12345u; return (int)((rnd_state >> 16) & 0x7fff); }

int abcrt_pthread_mutex_lock(void*) { return 0; }
int abcrt_pthread_mutex_unlock(void*) { return 0; }
int abcrt_pthread_mutex_trylock(void*) { return 0; }
int abcrt_sched_yield(void) { return 0; }
uint64_t abcrt_pthread_self(void) { return 0x1234; }
int abcrt___libc_single_threaded = 1;
}

// a locale is a pointer to an empty facet table: facets are reported as absent
extern void* const facet_table[4];
static const void* const no_facets_[8] = { nullptr, facet_table, (void*)3 };
#define no_facets ((void*)no_facets_)
extern "C" void abcrt__ZNSt6localeC1Ev(void** p) { *p = no_facets; }
extern "C" void abcrt__ZNSt6localeC1ERKS_(void** p, void*) { *p = no_facets; }
extern "C" void* abcrt__ZNSt6localeaSERKS_(void** p, void*) { return p; }
namespace { struct IosX : std::ios_base { public: using std::ios_base::_M_precision; using std::ios_base::_M_width; using std::ios_base::_M_flags; using std::ios_base::_M_exception; using std::ios_base::_M_streambuf_state; using std::ios_base::_M_callbacks; using std::ios_base::_M_ios_locale; void ctor() { _M_precision = 0; _M_width = 0; _M_flags = std::ios_base::fmtflags(0); _M_exception = std::ios_base::goodbit; _M_streambuf_state = std::ios_base::goodbit; _M_callbacks = nullptr; _M_word_size = 8; _M_word = _M_local_word; *(void**)&_M_ios_locale = no_facets; } void init() { _M_precision = 6; _M_width = 0; _M_flags = std::ios_base::skipws | std::ios_base::dec; } }; }
extern "C" void abcrt__ZNSt8ios_baseC2Ev(std::ios_base* p) { static_cast<IosX*>(p)->ctor(); }
extern "C" void abcrt__ZNSt8ios_base7_M_initEv(std::ios_base* p) { static_cast<IosX*>(p)->init(); }
extern "C" void abcrt__ZNSt8ios_base7_M_moveERS_(std::ios_base* p, std::ios_base* q) { IosX* a = static_cast<IosX*>(p); IosX* b = static_cast<IosX*>(q); a->_M_precision = b->_M_precision; a->_M_width = b->_M_width; a->_M_flags = b->_M_flags; a->_M_exception = b->_M_exception; a->_M_streambuf_state = b->_M_streambuf_state; a->_M_callbacks = b->_M_callbacks; }
// streams print integers (dec and hex) through this facet; there are no others
#include <ostream>
#include <locale>
extern "C" void abcrt__ZNSt6locale5facetD2Ev(void*) {}
extern "C" int abcrt_isprint(int c) { return c >= 0x20 && c <= 0x7e; }
namespace {
	struct NumPut {
		virtual ~NumPut() {}
		int refs = 1; void* data = nullptr;
		typedef std::ostreambuf_iterator<char> It;
		static It num(It s, std::ios_base& io, char fill, unsigned long long v, bool neg) {
			char t[32]; int n = 0; unsigned base = (io.flags() & std::ios_base::hex) ? 16 : 10;
			do { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
			if (neg) t[n++] = '-';
			long w = io.width(); io.width(0);
			for (; w > n; w--) *s++ = fill;
			while (n) *s++ = t[--n];
			return s;
		}
		virtual It put_bool(It s, std::ios_base& io, char f, bool v) const { return num(s, io, f, v, false); }
		virtual It put_l(It s, std::ios_base& io, char f, long v) const { bool h = io.flags() & std::ios_base::hex; return num(s, io, f, v < 0 && !h ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0 && !h); }
		virtual It put_ul(It s, std::ios_base& io, char f, unsigned long v) const { return num(s, io, f, v, false); }
		virtual It put_ll(It s, std::ios_base& io, char f, long long v) const { return put_l(s, io, f, (long)v); }
		virtual It put_ull(It s, std::ios_base& io, char f, unsigned long long v) const { return num(s, io, f, v, false); }
	};
	NumPut num_put_model;
	char ctype_mem[sizeof(std::ctype<char>)];
	struct CtypeY : std::ctype<char> { static void init() { CtypeY* c = (CtypeY*)ctype_mem; if (c->_M_widen_ok == 1) return; c->_M_widen_ok = 1; for (int i = 0; i < 256; i++) c->_M_widen[i] = (char)i; } };
}
extern void* const facet_table[4] = { nullptr, (void*)&num_put_model, (void*)ctype_mem, nullptr };
extern "C" size_t abcrt__ZNKSt6locale2id5_M_idEv(void* id) { if (id == &std::num_put<char>::id) return 1; if (id == &std::ctype<char>::id) { CtypeY::init(); return 2; } return 0; }
