// Modelled connections, and a reader of the responses sent over them.
#pragma once
#ifndef CONN_OUT
#define CONN_OUT 600
#endif
// ---------------------------------------------------------------- connections
struct Conn { const char* in; std::size_t nin, rin; char out[CONN_OUT]; std::size_t nout; bool open, broken; };
static Conn conn[REQ + 1]; static int nconn, accepted; static int promised; static bool late;
extern "C" void abc_promise_set(void) { abc_assert(!promised, "the end of the shutdown is reported once"); promised++; }
struct Cli {
	int c;
	explicit Cli(int c_) : c(c_) { if (c >= 0) conn[c].open = true; }
	Cli(Cli&& o) noexcept : c(o.c) { o.c = -1; }
	Cli(const Cli&) = delete;
	~Cli() { if (c >= 0) conn[c].open = false; }
	std::size_t receive(void* b, std::size_t n) {
		Conn& k = conn[c]; abc_assert(k.open, "the connection is open while it is read"); if (!k.rin) yield_here();
		std::size_t m = k.nin - k.rin < n ? k.nin - k.rin : n; std::memcpy(b, k.in + k.rin, m); k.rin += m; return m;
	}
	std::size_t send(const void* b, std::size_t n) {
		Conn& k = conn[c]; abc_assert(k.open, "the connection is open while it is written"); if (k.nout == 3) yield_here();
		abc_assert(!promised, "the end of the shutdown is reported after the last response");
		if (k.broken) return 0;
		abc_assert(k.nout + n <= sizeof(k.out), "model"); std::memcpy(k.out + k.nout, b, n); k.nout += n; return n;
	}
};
static bool accept_fails;
struct Srv {
	bool bound = false, listening = false;
	Srv() {} Srv(Srv&& o) noexcept : bound(o.bound), listening(o.listening) {}
	void bind(const char* port) { abc_assert(port && port[0] == '8', "the configured port"); bound = true; }
	void listen(int n) { abc_assert(bound && n == 5, "the configured queue"); listening = true; }
	Cli accept() {
		abc_assert(listening, "connections are accepted on a listening socket"); yield_here();
		if (accept_fails && abc_choice("accept_fails", 2)) { accept_fails = false; throw std::runtime_error("accept"); }
		if (accepted == nconn) block();
		if (promised) { abc_assert(!late, "after the end of the shutdown the endpoint stops accepting"); late = true; }	// the one it was waiting for
		return Cli(accepted++);
	}
};
// ---------------------------------------------------------------- responses
struct Response { int status; const char* body; std::size_t length; const char* type; std::size_t type_len; };
static bool starts(const char* p, const char* end, const char* s) { std::size_t n = std::strlen(s); return (std::size_t)(end - p) >= n && !std::memcmp(p, s, n); }
static Response parse(const Conn& k) {
	Response r = {}; const char* p = k.out; const char* end = k.out + k.nout; long length = -1; bool close = false;
	abc_assert(starts(p, end, "HTTP/1.1 "), "a response starts with the protocol"); p += 9;
	abc_assert(end - p > 4 && p[3] == ' ', "a status code"); r.status = (p[0] - '0') * 100 + (p[1] - '0') * 10 + (p[2] - '0'); abc_assert(r.status >= 200 && r.status < 600, "a status code"); p += 4;
	const char* reason = p; while (p < end && *p != '\r') p++;
	abc_assert(p > reason && (*reason < '0' || *reason > '9'), "a reason phrase");
	abc_assert(starts(p, end, "\r\n"), "the status line ends"); p += 2;
	while (!starts(p, end, "\r\n")) {
		const char* h = p; while (p < end && *p != '\r') p++;
		abc_assert(starts(p, end, "\r\n"), "a header ends");
		if (starts(h, p, "Content-Length: ")) { abc_assert(length < 0, "one content length"); length = 0; for (const char* d = h + 16; d < p; d++) { abc_assert(*d >= '0' && *d <= '9', "a content length is a number"); length = length * 10 + (*d - '0'); } abc_assert(h + 16 < p, "a content length is a number"); }
		if (starts(h, p, "Connection: close")) close = true;
		if (starts(h, p, "Content-Type: ")) { r.type = h + 14; r.type_len = p - r.type; }
		p += 2;
	}
	p += 2; r.body = p; r.length = end - p;
	abc_assert(length >= 0 && (std::size_t)length == r.length, "the content length is the length of the body that is sent");
	abc_assert(close, "the response says that the connection is closed");
	return r;
}
