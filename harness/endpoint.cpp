// The endpoint over modelled connections, files and threads.
#include <cstring>
#include <cstdio>
#include <new>
#include <tuple>
#include <thread>
#include <mutex>
#include <atomic>
#include <stdexcept>
#include <sys/stat.h>
#include "abcsym.h"
#define ABC_FILEBUF 4
#ifndef N
#define N 6
#endif
#ifndef REQ
#define REQ 3
#endif
#ifndef SWITCHES
#define SWITCHES 2
#endif
#include "threads.h"
#include "src/log.h"
#include "src/socket.h"
#include "src/http.h"
#include <fstream>
#include <future>
#define atomic_int32_t vatomic_int
#define atomic_bool vatomic_bool
#define atomic vatomic
#define atomic_int vatomic_int
#define thread vthread
#define mutex vmutex
#include "src/endpoint.h"
#undef atomic
#undef atomic_int
#undef thread
#undef mutex
using namespace abc;

#include "conn.h"
struct Limits { static constexpr std::size_t method_size = 8, resource_size = 28, protocol_size = 12, file_chunk_size = 4, fsize_size = 8; };
constexpr std::size_t Limits::method_size; constexpr std::size_t Limits::resource_size; constexpr std::size_t Limits::protocol_size; constexpr std::size_t Limits::file_chunk_size; constexpr std::size_t Limits::fsize_size;
struct Ep : endpoint<Srv, Cli, Limits, null_log> {
	using base = endpoint<Srv, Cli, Limits, null_log>;
	using base::base; using base::process_request;
	Srv create_server_socket() override { return Srv(); }
	void process_rest_request(http_server_stream<null_log>& http, const char* method, const char* resource) override { if (!std::strcmp(resource, "/throw")) throw std::runtime_error("handler"); base::process_rest_request(http, method, resource); }
};
// ---------------------------------------------------------------- files
static struct { bool exists, dir, readable; std::size_t size, grown; char data[16]; int open, opened; std::size_t left[8]; } file;
static char touched[64]; static int touches;
static const char* const root = "w";
static void confined(const char* p) {	// nothing outside the root directory is looked at
	std::size_t n = std::strlen(p); abc_assert(n < sizeof(touched), "a path fits its limits");
	abc_assert(p[0] == 'w' && (p[1] == '/' || !p[1]), "only files under the root directory are looked at");
	int depth = 0;
	for (std::size_t i = 1; i < n;) {
		std::size_t e = i; while (e < n && p[e] != '/') e++;
		if (e - i == 2 && p[i] == '.' && p[i + 1] == '.') depth--; else if (e > i && !(e - i == 1 && p[i] == '.')) depth++;
		abc_assert(depth >= 0, "only files under the root directory are looked at");
		i = e + 1;
	}
	std::strcpy(touched, p); touches++;
}
extern "C" {
	static int look(const char* p, struct stat* st) { confined(p); if (!file.exists) return -1; std::memset(st, 0, sizeof(*st)); st->st_mode = file.dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = file.dir ? 4096 : (off_t)file.size; return 0; }
	int __wrap_stat(const char* p, struct stat* st) { return look(p, st); }
	int __wrap_stat64(const char* p, struct stat* st) { return look(p, st); }
	int abc_file_open(const char* p, int mode) { confined(p); abc_assert(mode == 0, "files are only read"); if (!file.exists || !file.readable) return -1; abc_assert(file.opened < 8, "model"); file.left[file.opened] = file.dir ? 0 : file.size + file.grown; file.open++; return file.opened++; }
	long abc_file_read(int f, char* b, long n) { abc_assert(file.open, "model"); std::size_t& left = file.left[f]; if (file.dir) return -1; long k = (long)left < n ? (long)left : n; std::memcpy(b, file.data + (file.size + file.grown - left), k); left -= k; return k; }
	long abc_file_write(int, const char*, long) { abc_assert(0, "files are only read"); return -1; }
	void abc_file_close(int) { file.open--; }
}
// ----------------------------------------------------------------
static Response serve(Ep& ep, const char* in, std::size_t n) {
	Conn& k = conn[0]; k.in = in; k.nin = n; k.rin = k.nout = 0;
	try { ep.process_request(Cli(0)); } catch (...) { abc_assert(0, "no request makes an exception leave a thread of the server, which would end the process"); }
	abc_assert(!k.open, "the connection is closed after the request"); abc_assert(!file.open, "the file is closed after the request");
	return k.nout ? parse(k) : Response();
}
static endpoint_config& config() { static endpoint_config* c = nullptr; if (!c) c = new endpoint_config("8080", 5, root, "/r/"); return *c; }

static void any_name(char& c) { abc_sym(&c, 1, "name"); abc_assume((unsigned char)(c - 'a') < 26); }
HARNESS h_paths() {		// any file path
	Ep ep(&config(), nullptr);
	file.exists = abc_choice("exists", 2); file.readable = true; file.size = 3; abc_sym(file.data, 3, "data");
	char in[N + 40]; std::strcpy(in, "GET /r/"); std::size_t n = 7, len = abc_choice("len", N + 1);
	abc_sym(in + n, len, "path"); for (std::size_t i = 0; i < len; i++) abc_assume(in[n + i] >= 0x21 && in[n + i] <= 0x7e); 
	n += len; std::strcpy(in + n, " HTTP/1.1\r\n\r\n"); n += 13;
	Response r = serve(ep, in, n);
	if (r.status == 200) { abc_assert(file.exists && r.length == 3 && !std::memcmp(r.body, file.data, 3), "a file is sent as it is"); abc_assert(touches && std::strlen(touched) == 4 + len && !std::memcmp(touched + 1, in + 4, 3 + len), "the file that was asked for is sent"); abc_reach("sent"); }
	else { abc_assert(r.status >= 400 && r.status < 500, "a file that is not sent is a client error"); abc_reach("refused"); }
	bool plain = true; for (std::size_t i = 0; i < len; i++) plain = plain && in[7 + i] != '.' && in[7 + i] != '?' && in[7 + i] != '/' && in[7 + i] != '\\' && in[7 + i] != '%';
	if (plain) abc_assert(r.status == (file.exists ? 200 : 404), "a plain file name is sent if the file exists, and not found otherwise");
	abc_reach("end");
}
HARNESS h_dots() {		// the same over path segments, so that longer paths are covered
	Ep ep(&config(), nullptr);
	file.exists = file.readable = true; file.size = 1; file.data[0] = 'x';
	static const char* const seg[] = { "..", ".", "a", "", "..." , "a..", "..b" };
	char in[64]; std::strcpy(in, "GET /r"); std::size_t n = 6, from = 4;
	int parts = 1 + (int)abc_choice("parts", 4), depth = 1; bool up = false, odd = false;
	for (int i = 0; i < parts; i++) { int s = (int)abc_choice("segment", 7); in[n++] = '/'; std::strcpy(in + n, seg[s]); n += std::strlen(seg[s]); if (s == 0) up = true; if (s == 1 || s == 3) odd = true; }
	std::size_t len = n - from;
	std::strcpy(in + n, " HTTP/1.1\r\n\r\n"); n += 13;
	Response r = serve(ep, in, n);
	if (!up && !odd) { abc_assert(r.status == 200, "a file under the root directory is sent"); abc_reach("sent"); }
	else if (r.status != 200) abc_reach("refused");
	abc_reach("end");
}
HARNESS h_files() {		// any kind of file, method and length
	Ep ep(&config(), nullptr);
	file.exists = abc_choice("exists", 2); file.dir = abc_choice("dir", 2); file.readable = abc_choice("readable", 2); file.size = abc_choice("size", 11); abc_sym(file.data, 10, "data");
	static const char* const method[] = { "GET", "get", "POST", "HEAD", "GE", "GETS" }; unsigned m = (unsigned)abc_choice("method", 6);
	static const char* const name[] = { "/r/f", "/r/f.html", "/r/f.css", "/r/f.js", "/r/f.txt", "/r/f.PNG", "/r/f.x", "/r/f.jpg", "/favicon.ico", "/R/f.svg" }; unsigned f = (unsigned)abc_choice("name", 10);
	static const char* const type[] = { 0, "text/html; charset=utf-8", "text/css; charset=utf-8", "text/javascript; charset=utf-8", "text/plain; charset=utf-8", "image/png", 0, "image/jpeg", 0, "image/svg+xml" };
	if (!m && !f) file.grown = abc_choice("grown", 2) * 3;		// since it was looked at
	char in[64]; std::snprintf(in, sizeof(in), "%s %s HTTP/1.1\r\n\r\n", method[m], name[f]);
	Response r = serve(ep, in, std::strlen(in));
	bool favicon_rest = f == 8 && m > 1;
	if (favicon_rest) { abc_assert(r.status == 200, "a request that is not for a file goes to the REST handler"); abc_assert(!touches, "and looks at no file"); }
	else if (m > 1) { abc_assert(r.status == 405 && !touches, "files can only be got"); abc_reach("not allowed"); }
	else if (!file.exists) { abc_assert(r.status == 404, "a file that does not exist is not found"); abc_reach("not found"); }
	else if (file.dir || !file.readable) { abc_assert(r.status >= 400 && r.status < 500, "what can not be read as a file is not sent"); abc_reach("unreadable"); }
	else {
		abc_assert(r.status == 200, "a file that can be read is sent");
		abc_assert(r.length == file.size, "the whole file is sent"); for (std::size_t i = 0; i < file.size; i++) abc_assert(r.body[i] == file.data[i], "the file is sent as it is");
		abc_assert(type[f] ? r.type_len == std::strlen(type[f]) && !std::memcmp(r.type, type[f], r.type_len) : !r.type_len, "the content type follows the extension");
		abc_reach("sent");
	}
	abc_reach("end");
}
HARNESS h_types() {		// any extension, behind any other dots
	Ep ep(&config(), nullptr);
	file.exists = file.readable = true; file.size = 1; file.data[0] = 'x';
	static const char* const name[] = { "f", "f.min", "a.css/f", "f.html", "..f", "" }; unsigned f = (unsigned)abc_choice("name", 6);
	static const struct { const char* ext; const char* type; } known[] = { { "html", "text/html" }, { "css", "text/css" }, { "js", "text/javascript" }, { "txt", "text/plain" }, { "xml", "text/xml" }, { "png", "image/png" }, { "jpeg", "image/jpeg" }, { "jpg", "image/jpeg" }, { "gif", "image/gif" }, { "bmp", "image/bmp" }, { "svg", "image/svg+xml" } };
	char in[64], x[6] = { 0 }; unsigned len = 2 + (unsigned)abc_choice("len", 4); abc_sym(x, len, "extension"); for (unsigned i = 0; i < len; i++) abc_assume((x[i] > ' ') & (x[i] < 0x7f) & (x[i] != '.') & (x[i] != '/') & (x[i] != '?') & (x[i] != '%') & (x[i] != '\\') & (x[i] != '&') & (x[i] != '#'));
	std::snprintf(in, sizeof(in), "GET /r/%s.", name[f]); std::size_t n = std::strlen(in); std::memcpy(in + n, x, len); n += len; std::memcpy(in + n, " HTTP/1.1\r\n\r\n", 13); n += 13;
	Response r = serve(ep, in, n);
	abc_assert(r.status == 200, "a file that can be read is sent");
	const char* type = nullptr;
	for (auto& k : known) { bool same = std::strlen(k.ext) == len; for (unsigned i = 0; same && i < len; i++) same = (x[i] == k.ext[i]) | (x[i] == k.ext[i] - 32); if (same) type = k.type; }
	if (type) { std::size_t t = std::strlen(type); abc_assert(r.type_len >= t && !std::memcmp(r.type, type, t) && (r.type_len == t || r.type[t] == ';'), "the content type follows the extension"); abc_reach("known"); }
	else { abc_assert(!r.type_len, "the content type follows the extension"); abc_reach("unknown"); }
}
HARNESS h_garbage() {	// any bytes, up to a first line, or cut short
	Ep ep(&config(), nullptr);
	file.exists = file.readable = true; file.size = 2; file.data[0] = file.data[1] = 'x';
	char in[N + 40]; std::size_t n = 0;
	if (abc_choice("started", 2)) { std::strcpy(in, "GET /r/a"); n = 8; }
	std::size_t len = abc_choice("len", N + 1); abc_sym(in + n, len, "bytes"); n += len;
	Response r = serve(ep, in, n);
	if (r.status) abc_reach("answered"); else abc_reach("dropped");
	if (r.status == 200 && touches) abc_reach("sent");
	abc_reach("end");
}
HARNESS h_long() {		// a first line around and above the limits
	Ep ep(&config(), nullptr);
	file.exists = file.readable = true; file.size = 2; file.data[0] = file.data[1] = 'x';
	char in[160]; std::size_t n = 0, a = 1 + abc_choice("method", 12), b = abc_choice("path", 40), c = abc_choice("protocol", 8);
	if (a == 3) std::memcpy(in, "GET", 3); else std::memset(in, 'G', a);
	n = a; in[n++] = ' '; std::memcpy(in + n, "/r/", 3); n += 3; char fill; abc_sym(&fill, 1, "fill"); abc_assume((fill >= 'a' && fill <= 'z') || (fill >= '0' && fill <= '9')); std::memset(in + n, fill, b); n += b;
	bool glued = a == 3 && abc_choice("glued", 2);	// a rest of the path that looks like a protocol
	if (!glued) in[n++] = ' ';
	std::memcpy(in + n, "HTTP/1.", 7); n += 7; std::memset(in + n, '1', c); n += c; std::memcpy(in + n, "\r\n\r\n", 4); n += 4;
	Response r = serve(ep, in, n);
	if (glued) abc_assert(r.status != 200, "a line without a protocol is not served");
	else if (touches) abc_assert(std::strlen(touched) == 4 + b, "a path that is too long is not cut and served");
	if (r.status == 200) { abc_assert(a == 3 && touches, "only a request that was read whole is served"); abc_reach("sent"); } else abc_reach("refused");
	abc_reach("end");
}
HARNESS h_rest() {
	Ep ep(&config(), nullptr);
	static char line[][48] = { "POST /x HTTP/1.1\r\n\r\n", "GET /q?a=b HTTP/1.1\r\nA: b\r\n\r\n", "PUT / HTTP/1.0\r\n\r\nbody", "POST /shutdown HTTP/1.1\r\n\r\n", "GET /shutdown HTTP/1.1\r\n\r\n", "GET /favicon.icons HTTP/1.1\r\n\r\n" };
	unsigned l = (unsigned)abc_choice("line", 6);
	if (l == 0) any_name(line[l][6]); if (l == 1) { any_name(line[l][5]); any_name(line[l][7]); } if (l == 4) any_name(line[l][5]);
	Response r = serve(ep, line[l], std::strlen(line[l]));
	abc_assert(r.status == 200 && !touches, "a request that is not for a file goes to the REST handler");
	abc_assert(promised == (l == 3), "only POST /shutdown shuts down, and an idle server reports its end at once");
	Response r2 = (promised = 0, serve(ep, line[0], std::strlen(line[0])));
	abc_assert(l == 3 ? !conn[0].nout : r2.status == 200, "after a shutdown no request is answered"); abc_reach("end");
}
// ---------------------------------------------------------------- shutdown among concurrent requests
HARNESS h_shutdown() {
	preempt = true; budget = SWITCHES; file.exists = file.readable = true; file.size = 2; file.data[0] = file.data[1] = 'x';
	static char line[3][32] = { "GET /r/a HTTP/1.1\r\n\r\n", "POST /shutdown HTTP/1.1\r\n\r\n", "GET /xa HTTP/1.1\r\n\r\n" };
	any_name(line[0][7]); any_name(line[2][6]); abc_sym(file.data, 2, "data");
	nconn = REQ; int shut = (int)abc_choice("shutdown", REQ), second = (int)abc_choice("second", 2);
	for (int i = 0; i < REQ; i++) { const char* l = i == shut || (second && i == REQ - 1) ? line[1] : line[i % 2 ? 2 : 0]; conn[i].in = l; conn[i].nin = std::strlen(l); conn[i].broken = false; }
	if (abc_choice("broken", 2)) conn[REQ - 1].broken = true;
	Ep* ep = new Ep(&config(), nullptr);
	ep->start_async();
	schedule();
	bool answered = false, any = false;
	for (int i = 0; i < REQ; i++) {
		any = any || conn[i].nout;
		abc_assert(!conn[i].open || i >= accepted, "every connection is closed in the end");
		if (conn[i].nout) { Response r = parse(conn[i]); abc_assert(r.status == 200, "a request that is answered is answered whole"); if (conn[i].in == line[0]) abc_assert(r.length == 2 && !std::memcmp(r.body, file.data, 2), "a file is sent as it is"); if (conn[i].in == line[1]) answered = true; abc_reach("answered"); } else if (i < accepted) abc_reach("refused");
	}
	abc_assert(any || conn[REQ - 1].broken, "requests are answered");
	abc_assert(answered || conn[REQ - 1].broken ? true : promised == 0, "the end of a shutdown is only reported after a shutdown");
	if (answered) { abc_assert(promised == 1, "the end of the shutdown is reported"); abc_reach("shut down"); }
	abc_reach("end");
}
HARNESS h_accept() {	// a connection that can not be accepted, and a request whose handler throws
	accept_fails = true; preempt = true; budget = SWITCHES;
	file.exists = file.readable = true; file.size = 2; file.data[0] = file.data[1] = 'x';
	static char line[][32] = { "GET /r/a HTTP/1.1\r\n\r\n", "PUT /throw HTTP/1.1\r\n\r\n", "POST /shutdown HTTP/1.1\r\n\r\n" };
	any_name(line[0][7]);
	nconn = 3; for (int i = 0; i < 3; i++) { conn[i].in = line[i]; conn[i].nin = std::strlen(conn[i].in); }
	Ep* ep = new Ep(&config(), nullptr);
	ep->start_async();
	schedule();
	abc_assert(accepted == 3, "the server goes on accepting connections");
	for (int i = 0; i < 3; i++) abc_assert(!conn[i].open, "every connection is closed in the end");
	abc_assert(conn[2].nout && parse(conn[2]).status == 200, "the server goes on answering requests");
	abc_assert(promised == 1, "a request that failed does not hold up a shutdown"); abc_reach("end");
}
