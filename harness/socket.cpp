// Sockets over a model of the network: descriptors, addresses, one peer, and faults.
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <new>
#include <istream>
#include <streambuf>
#include "abcsym.h"
#include "src/log.h"
#include "src/socket.h"
#ifdef H_TLS
#pragma push_macro("N")
#pragma push_macro("K")
#undef N
#undef K
#include "src/openssl_socket.h"
#pragma pop_macro("N")
#pragma pop_macro("K")
#endif
using namespace abc;
#ifndef N
#define N 3
#endif
#ifndef K
#define K 4
#endif
static bool faults;						// calls may fail
static bool faulted;					// whether one has failed
static bool flip(const char* n) { bool f = faults && abc_choice(n, 2); faulted = faulted || f; return f; }
namespace net {
	enum { FDS = 12, BASE = 40 };
	static struct { bool open, shut; int family, type, bound, connected, listening; } fd[FDS];
	static int nfd, lists;
	static unsigned char in[64]; static std::size_t nin, rin; static int end;	// what the peer sends; end: 0 closes, 1 fails
	static unsigned char out[64]; static std::size_t nout;						// what reached the peer
	static int gone = -1;					// the n-th send from now finds the peer gone
	static int fail_send = -1;				// the n-th send from now sends nothing
	static unsigned char peer[28]; static socklen_t peer_len;					// address of the last peer
	static const char* host = "h";												// which host a lookup should be for
	static int short_send = -1;				// the n-th send from now sends all but one byte
	static addrinfo ai[2]; static unsigned char ai_addr[2][28]; static int tried[4], ntried;
	static int fresh(int family, int type) { abc_assert(nfd < FDS, "model"); fd[nfd].open = true; fd[nfd].shut = false; fd[nfd].family = family; fd[nfd].type = type; return BASE + nfd++; }
	static bool live(int d) { return d >= BASE && d < BASE + nfd && fd[d - BASE].open; }
	static void closed() { for (int i = 0; i < nfd; i++) abc_assert(!fd[i].open, "every descriptor is closed when its socket is gone"); abc_assert(lists == 0, "address lists are freed"); }
	static int count() { int n = 0; for (int i = 0; i < nfd; i++) n += fd[i].open; return n; }
}
using net::BASE;
extern "C" {
	int __wrap_socket(int family, int type, int protocol) {
		abc_assert(family == AF_INET || family == AF_INET6, "a socket of the family that was asked for");
		abc_assert((type == SOCK_STREAM && protocol == IPPROTO_TCP) || (type == SOCK_DGRAM && protocol == IPPROTO_UDP), "kind and protocol match");
		if (flip("socket_fails")) { errno = EMFILE; return -1; }
		return net::fresh(family, type);
	}
	int __wrap_close(int d) { abc_assert(net::live(d), "close of a descriptor that is open"); net::fd[d - BASE].open = false; return 0; }
	int __wrap_shutdown(int d, int) { abc_assert(net::live(d), "shutdown of a descriptor that is open"); net::fd[d - BASE].shut = true; return 0; }
	int __wrap_setsockopt(int d, int, int, const void*, socklen_t) { abc_assert(net::live(d), "setsockopt of a descriptor that is open"); return 0; }
	int __wrap_getaddrinfo(const char* host, const char* port, const addrinfo* h, addrinfo** r) {
		abc_assert(host && !std::strcmp(host, net::host) && port && !std::strcmp(port, "1"), "the lookup is for the host and the port that were asked for");
		abc_assert(h && (h->ai_family == AF_INET || h->ai_family == AF_INET6) && h->ai_flags == 0, "the lookup asks for the family of the socket");
		*r = nullptr; net::ntried = 0;
		int n = faults ? (int)abc_choice("addresses", 4) : 2;
		if (n == 3 || n == 0) faulted = true;
		if (n == 3) return EAI_NONAME;
		socklen_t len = h->ai_family == AF_INET ? 16 : 28;
		for (int i = 0; i < n; i++) { net::ai[i] = addrinfo(); net::ai[i].ai_family = h->ai_family; net::ai_addr[i][0] = (unsigned char)h->ai_family; net::ai_addr[i][2] = (unsigned char)i; net::ai[i].ai_addr = (sockaddr*)net::ai_addr[i]; net::ai[i].ai_addrlen = len; net::ai[i].ai_next = i + 1 < n ? &net::ai[i + 1] : nullptr; }
		if (n) *r = net::ai;
		net::lists += n > 0; return 0;
	}
	void __wrap_freeaddrinfo(addrinfo* a) { if (a) { abc_assert(a == net::ai && net::lists > 0, "an address list is freed once"); net::lists--; } }
	static int tie(int d, const sockaddr* a, socklen_t len, bool bind) {
		abc_assert(net::live(d), "bind or connect of a descriptor that is open");
		const unsigned char* b = (const unsigned char*)a;
		abc_assert(len >= (net::fd[d - BASE].family == AF_INET ? 16u : 28u) && (b[0] | b[1] << 8) == net::fd[d - BASE].family, "the address is of the family of the socket, and whole");
		for (socklen_t i = 0; i < (net::fd[d - BASE].family == AF_INET ? 16u : 28u); i++) net::peer[i] = b[i];
		abc_assert(net::ntried < 4, "model"); net::tried[net::ntried++] = b[2];
		if (flip("tie_fails")) { errno = ECONNREFUSED; return -1; }
		(bind ? net::fd[d - BASE].bound : net::fd[d - BASE].connected) = 1;
		return 0;
	}
	int __wrap_bind(int d, const sockaddr* a, socklen_t len) { return tie(d, a, len, true); }
	int __wrap_connect(int d, const sockaddr* a, socklen_t len) { return tie(d, a, len, false); }
	int __wrap_listen(int d, int) { if (!net::live(d) || flip("listen_fails")) { errno = EBADF; return -1; } net::fd[d - BASE].listening = 1; return 0; }
	int __wrap_accept(int d, sockaddr*, socklen_t*) { if (!net::live(d) || !net::fd[d - BASE].listening || flip("accept_fails")) { errno = EBADF; return -1; } int r = net::fresh(net::fd[d - BASE].family, SOCK_STREAM); net::fd[r - BASE].connected = 1; return r; }
	ssize_t __wrap_send(int d, const void* b, size_t n, int flags) {
		abc_assert(net::live(d), "send to a descriptor that is open");
		if (net::gone >= 0 && net::gone-- == 0) { net::gone = 0; abc_assert(flags & MSG_NOSIGNAL, "a peer that has gone away fails the send, and does not end the process"); errno = EPIPE; return -1; }
		abc_assert(!(flags & (MSG_OOB | MSG_DONTWAIT)), "a send waits until it can send, in order");
		if (net::short_send >= 0 && net::short_send-- == 0 && n > 0) n--;
		if (net::fail_send >= 0 && net::fail_send-- == 0) { errno = ENOBUFS; return -1; }
		for (size_t i = 0; i < n; i++) { abc_assert(net::nout < sizeof(net::out), "model"); net::out[net::nout++] = ((const unsigned char*)b)[i]; }
		return (ssize_t)n;
	}
	static ssize_t take(void* b, size_t n) {
		size_t k = net::nin - net::rin < n ? net::nin - net::rin : n;
		if (!k && n) { if (net::end) { errno = ECONNRESET; return -1; } return 0; }
		for (size_t i = 0; i < k; i++) ((unsigned char*)b)[i] = net::in[net::rin++];
		return (ssize_t)k;
	}
	static void plain(int flags) { abc_assert(!(flags & (MSG_OOB | MSG_DONTWAIT | MSG_PEEK | MSG_TRUNC | MSG_ERRQUEUE)), "what is received is waited for, and taken"); }
	ssize_t __wrap_recv(int d, void* b, size_t n, int flags) { plain(flags); abc_assert(net::live(d), "recv from a descriptor that is open"); return take(b, n); }
	ssize_t __wrap_sendto(int d, const void* b, size_t n, int, const sockaddr* a, socklen_t len) {
		abc_assert(net::live(d) && net::fd[d - BASE].type == SOCK_DGRAM, "sendto a datagram socket that is open");
		abc_assert(len >= net::peer_len, "the whole address is given to sendto");
		for (socklen_t i = 0; i < net::peer_len; i++) abc_assert(((const unsigned char*)a)[i] == net::peer[i], "a reply goes to the address the request came from");
		for (size_t i = 0; i < n; i++) { abc_assert(net::nout < sizeof(net::out), "model"); net::out[net::nout++] = ((const unsigned char*)b)[i]; }
		return (ssize_t)n;
	}
	ssize_t __wrap_recvfrom(int d, void* b, size_t n, int flags, sockaddr* a, socklen_t* len) {
		plain(flags);
		abc_assert(net::live(d) && net::fd[d - BASE].type == SOCK_DGRAM, "recvfrom a datagram socket that is open");
		net::peer_len = net::fd[d - BASE].family == AF_INET ? 16 : 28;
		abc_sym(net::peer, net::peer_len, "peer"); net::peer[0] = (unsigned char)net::fd[d - BASE].family; net::peer[1] = 0;
		for (socklen_t i = 0; i < net::peer_len && i < *len; i++) ((unsigned char*)a)[i] = net::peer[i];
		*len = net::peer_len;
		return take(b, n);
	}
}
typedef tcp_client_socket<> Tcp;
typedef socket_streambuf<Tcp> Sb;
struct SbX : Sb { using Sb::Sb; };

// ---------------------------------------------------------------- reading a stream
HARNESS h_read() {
	{
		Tcp s; s.connect("h", "1");
		net::nin = abc_choice("bytes", N + 1); abc_sym(net::in, N, "in"); net::end = (int)abc_choice("end", 2);
		alignas(16) char mem[2][sizeof(Sb)]; Sb* sb = new (mem[0]) Sb(&s); int cur = 0;
		std::size_t pos = 0; unsigned char got[4];
		const int eof = std::char_traits<char>::eof();
		for (int k = 0; k < K; k++) {
			unsigned op = (unsigned)abc_choice("op", cur ? 3 : 4);
			int c = 0, want = pos < net::nin ? net::in[pos] : eof;
			if (op == 0) { c = sb->sgetc(); abc_assert(c == want, "the next byte of the stream, or its end"); }
			else if (op == 1) { c = sb->sbumpc(); abc_assert(c == want, "the next byte of the stream, or its end"); pos += pos < net::nin; }
			else if (op == 2) {
				std::streamsize n = sb->sgetn((char*)got, 2); std::size_t left = net::nin - pos;
				abc_assert(n == (std::streamsize)(left < 2 ? left : 2), "as many bytes as asked for, or as there are");
				for (std::streamsize i = 0; i < n; i++) abc_assert(got[i] == net::in[pos + i], "the bytes of the stream, in order");
				pos += n; c = n < 2 ? eof : 0;
			}
			else { Sb* m = new (mem[1]) Sb(std::move(*sb)); sb->~Sb(); sb = m; cur = 1; abc_reach("moved"); }
			if (c == eof) abc_reach("eof");
		}
		sb->~Sb();
	}
	net::closed();
	abc_reach("end");
}
// ---------------------------------------------------------------- writing a stream
HARNESS h_write() {
	{
		Tcp s; s.connect("h", "1");
		alignas(16) char mem[2][sizeof(Sb)]; Sb* sb = new (mem[0]) Sb(&s); int cur = 0;
		unsigned char put[K * 3 + 4]; std::size_t n = 0; bool failed = false;
		unsigned f = (unsigned)abc_choice("fault", 4); int at = f ? (int)abc_choice("at", K + 2) : 0;
		if (f == 1) net::gone = at; else if (f == 2) net::fail_send = at; else if (f == 3) net::short_send = at;
		const int eof = std::char_traits<char>::eof();
		for (int k = 0; k < K && !failed; k++) {
			unsigned op = (unsigned)abc_choice("op", cur ? 3 : 4);
			if (op == 0) { abc_sym(put + n, 1, "ch"); int r = sb->sputc((char)put[n]); if (r == eof) failed = true; else { abc_assert(r == put[n], "the character that was put is returned"); n++; } }
			else if (op == 1) { abc_sym(put + n, 3, "text"); std::streamsize r = sb->sputn((const char*)put + n, 3); abc_assert(r >= 0 && r <= 3, "the number of characters taken"); n += r; failed = r < 3; }
			else if (op == 2) { int r = sb->pubsync(); if (r) failed = true; else { abc_assert(net::nout == n, "all that was put has reached the peer after a flush"); abc_reach("flushed"); } }
			else { Sb* m = new (mem[1]) Sb(std::move(*sb)); sb->~Sb(); sb = m; cur = 1; abc_reach("moved"); }
			abc_assert(net::nout <= n, "nothing reaches the peer that was not put");
			for (std::size_t i = 0; i < net::nout; i++) abc_assert(net::out[i] == put[i], "the peer gets what was put, in order and once");
		}
		if (failed) { abc_assert(f != 0, "writing does not fail without a reason"); abc_reach("failed"); }
		sb->~Sb();
	}
	net::closed();
	abc_reach("end");
}
// ---------------------------------------------------------------- descriptors
HARNESS h_client() {
	faults = true;
	{
		int fam = abc_choice("v6", 2) ? AF_INET6 : AF_INET; bool udp = abc_choice("udp", 2);
		Tcp t0(fam); udp_socket<> u0(fam); Tcp t(std::move(t0)); udp_socket<> u(std::move(u0)); bool open = false;	// moved before they are opened
		for (int k = 0; k < K; k++) {
			unsigned op = (unsigned)abc_choice("op", 5); bool threw = false, logic = false; char b[2] = { 1, 2 };
			int before = net::count();
			if (op == 0 || op == 1) {
				bool any = op == 1 && abc_choice("any", 2); net::host = !any ? "h" : fam == AF_INET ? "0.0.0.0" : "::";
				faulted = false; bool legal = op == 0 || !open;
				try { if (op == 0) { if (udp) u.connect("h", "1"); else t.connect("h", "1"); } else if (any) { if (udp) u.bind("1"); else t.bind("1"); } else { if (udp) u.bind("h", "1"); else t.bind("h", "1"); } } catch (const std::exception&) { threw = true; }
				bool is = udp ? u.is_open() : t.is_open();
				abc_assert(!threw || !legal || faulted, "bind and connect work if nothing fails");
				if (!threw) {
					abc_assert(is, "a socket that is bound or connected is open"); int d = (udp ? u.fd() : t.fd()) - BASE;
					abc_assert(net::live(d + BASE) && net::fd[d].family == fam && net::fd[d].type == (udp ? SOCK_DGRAM : SOCK_STREAM), "the socket is of the kind and family that was asked for");
					abc_assert(op == 0 ? net::fd[d].connected : net::fd[d].bound, "bind binds and connect connects");
					for (int i = 0; i < net::ntried; i++) abc_assert(net::tried[i] == i, "the addresses of a host are tried in order"); abc_reach("tied");
				}
				else if (op == 1 && !open) abc_assert(!is, "a bind that fails leaves the socket closed");
				else if (op == 1) abc_assert(is, "a bind of an open socket is refused and leaves it as it is");
				open = is;
			}
			else if (op == 2) {
				std::size_t n = 99; net::nin = net::rin + abc_choice("has", 2); net::end = (int)abc_choice("end", 2);
				try { n = udp ? u.receive(b, 2) : t.receive(b, 2); } catch (const std::logic_error&) { threw = true; }
				abc_assert(threw == !open, "only a closed socket refuses to receive");
				if (!threw) abc_assert(n <= 1, "receive returns the number of bytes received, and 0 if there are none");
				net::nin = net::rin = 0;
			}
			else if (op == 3) {
				std::size_t n = 99; net::nout = 0; net::fail_send = abc_choice("fail", 2) ? 0 : -1; bool fail = net::fail_send == 0;
				try { n = udp ? u.send(b, 2) : t.send(b, 2); } catch (const std::logic_error&) { threw = true; }
				abc_assert(threw == !open, "only a closed socket refuses to send");
				if (!threw) abc_assert(n == (fail ? 0u : 2u) && net::nout == n, "send returns the number of bytes sent");
			}
			else { if (udp) u.close(); else t.close(); open = false; abc_assert(!(udp ? u.is_open() : t.is_open()), "a closed socket is not open"); }
			abc_assert(net::count() == (open ? 1 : 0), "a socket holds one descriptor while it is open, and none otherwise");
		}
		if (udp) { udp_socket<> m(std::move(u)); abc_assert(!u.is_open() && m.is_open() == open, "a move takes the descriptor"); }
		else { Tcp m(std::move(t)); abc_assert(!t.is_open() && m.is_open() == open, "a move takes the descriptor"); }
		abc_assert(net::count() == 0, "the descriptor goes with the socket it was moved to");
	}
	net::closed();
	abc_reach("end");
}
HARNESS h_server() {
	faults = true;
	{
		int fam = abc_choice("v6", 2) ? AF_INET6 : AF_INET; net::host = fam == AF_INET ? "0.0.0.0" : "::"; tcp_server_socket<> s(fam); bool ok = true;
		try { s.bind("1"); s.listen(5); } catch (const std::runtime_error&) { ok = false; abc_assert(faulted, "bind and listen work if nothing fails"); }
		if (ok) abc_assert(net::fd[s.fd() - BASE].listening && net::fd[s.fd() - BASE].bound, "a server listens on the socket it bound");
		for (int k = 0; k < 2; k++) {
			int before = net::count(); faulted = !ok;
			try {
				Tcp c = s.accept(); Tcp d(std::move(c));
				abc_assert(ok && d.is_open() && !c.is_open() && d.fd() != s.fd() && net::count() == before + 1, "accept returns a connection of its own"); abc_reach("accepted");
				char b = 7; net::nout = 0; abc_assert(d.send(&b, 1) == 1 && net::nout == 1 && net::out[0] == 7, "the connection can be used");
			} catch (const std::runtime_error&) { abc_reach("refused"); abc_assert(faulted, "a connection is accepted if nothing fails"); }
			abc_assert(net::count() == before, "a connection is closed when its socket is gone");
		}
		tcp_server_socket<> m(std::move(s)); abc_assert(!s.is_open(), "a move takes the descriptor");
	}
	net::closed();
	abc_reach("end");
}
HARNESS h_datagram() {
	{
		int fam = abc_choice("v6", 2) ? AF_INET6 : AF_INET; net::host = fam == AF_INET ? "0.0.0.0" : "::"; udp_socket<> u(fam); u.bind("1"); net::host = "h";
		socket::address* a = new socket::address(); char b[4];
		for (int k = 0; k < 2; k++) {
			net::nin = 4; net::rin = 0; abc_sym(net::in, 4, "in");
			abc_assert(u.receive(b, 4, a) == 4, "a datagram is received");
			for (int i = 0; i < 4; i++) abc_assert((unsigned char)b[i] == net::in[i], "as it was sent");
			net::nout = 0;
			if (abc_choice("reply", 2)) { abc_assert(u.send(b, 4, a) == 4 && net::nout == 4, "a reply is sent"); for (int i = 0; i < 4; i++) abc_assert(net::out[i] == net::in[i], "as it was given"); }
			else { unsigned char p[28]; std::memcpy(p, net::peer, 28); u.connect(*a); for (socklen_t i = 0; i < net::peer_len; i++) abc_assert(net::peer[i] == p[i], "connect goes to the address the request came from"); }
		}
		{
			udp_socket<> w(fam); unsigned char p[28]; std::memcpy(p, net::peer, 28); w.connect(*a); abc_assert(w.is_open() && net::fd[w.fd() - BASE].connected, "a socket that is connected is open");
			for (socklen_t i = 0; i < net::peer_len; i++) abc_assert(net::peer[i] == p[i], "connect goes to the address that was given");
			bool threw = false; try { w.bind("1"); } catch (const std::runtime_error&) { threw = true; } abc_assert(threw && w.is_open(), "a bind of an open socket is refused");
		}
		delete a;
		Tcp t; t.connect("h", "1"); socket::address x; bool threw = false;
		try { if (abc_choice("dir", 2)) t.send(b, 1, &x); else t.receive(b, 1, &x); } catch (const std::logic_error&) { threw = true; }
		abc_assert(threw, "a stream socket takes no address");
	}
	net::closed();
	abc_reach("end");
}
// ---------------------------------------------------------------- TLS
#ifdef H_TLS
namespace tls {
	struct Ctx { int refs; bool client; int verify; bool cert, key; };
	struct Ssl { Ctx* ctx; int fd; bool shook, live; };
	static int ctxs, ssls; static bool want_verify;
	static Ssl* ssl(const SSL* s) { Ssl* p = (Ssl*)s; abc_assert(p && p->live, "a TLS connection is used while it lives"); return p; }
	static void drop(Ctx* c) { abc_assert(c->refs > 0, "a TLS context is freed once"); if (--c->refs == 0) ctxs--; }
}
extern "C" {
	const SSL_METHOD* __wrap_TLS_client_method() { return flip("method") ? nullptr : (const SSL_METHOD*)1; }
	const SSL_METHOD* __wrap_TLS_server_method() { return flip("method") ? nullptr : (const SSL_METHOD*)2; }
	SSL_CTX* __wrap_SSL_CTX_new(const SSL_METHOD* m) { if (flip("ctx")) return nullptr; tls::Ctx* c = new tls::Ctx(); c->refs = 1; c->client = m == (const SSL_METHOD*)1; c->verify = -1; tls::ctxs++; return (SSL_CTX*)c; }
	void __wrap_SSL_CTX_free(SSL_CTX* c) { if (c) tls::drop((tls::Ctx*)c); }
	void __wrap_SSL_CTX_set_verify(SSL_CTX* c, int mode, SSL_verify_cb) { ((tls::Ctx*)c)->verify = mode; }
	static void* pw; static pem_password_cb* pwcb;
	void __wrap_SSL_CTX_set_default_passwd_cb(SSL_CTX*, pem_password_cb* cb) { pwcb = cb; }
	void __wrap_SSL_CTX_set_default_passwd_cb_userdata(SSL_CTX*, void* u) { pw = u; }
	int __wrap_SSL_CTX_use_certificate_file(SSL_CTX* c, const char*, int) { if (flip("cert")) return abc_choice("cert_error", 2) ? 0 : -1; ((tls::Ctx*)c)->cert = true; return 1; }
	static const char* secret; static std::size_t secret_len;
	int __wrap_SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char*, int) {
		if (flip("key")) return abc_choice("key_error", 2) ? 0 : -1;
		char b[6]; int n = pwcb(b, sizeof(b), 0, pw);
		std::size_t want = secret_len < 5 ? secret_len : 5;
		abc_assert(n == (int)want, "the password callback returns the length of the password"); for (std::size_t i = 0; i < want; i++) abc_assert(b[i] == secret[i], "the password of the private key is the one given");
		((tls::Ctx*)c)->key = true; return 1;
	}
	SSL* __wrap_SSL_new(SSL_CTX* c) {
		tls::Ctx* x = (tls::Ctx*)c; abc_assert(x && x->refs > 0, "a TLS context is used while it lives");
		if (flip("ssl")) return nullptr;
		x->refs++; tls::Ssl* s = new tls::Ssl(); s->ctx = x; s->fd = -1; s->live = true; tls::ssls++; return (SSL*)s;
	}
	int __wrap_SSL_set_fd(SSL* s, int d) { tls::Ssl* p = tls::ssl(s); abc_assert(net::live(d), "TLS runs over a descriptor that is open"); if (flip("set_fd")) return 0; p->fd = d; p->shook = false; return 1; }
	static int shake(SSL* s, bool client) {
		tls::Ssl* p = tls::ssl(s); abc_assert(p->ctx->client == client, "a client connects and a server accepts"); abc_assert(net::live(p->fd), "the handshake runs over a descriptor that is open");
		abc_assert(p->ctx->verify == (tls::want_verify ? SSL_VERIFY_PEER : SSL_VERIFY_NONE), "the peer is verified if and only if that was asked for");
		if (!client) abc_assert(p->ctx->cert && p->ctx->key, "a server has a certificate and a key");
		if (flip("shake")) return abc_choice("shake_error", 2) ? 0 : -1;
		p->shook = true; return 1;
	}
	int __wrap_SSL_connect(SSL* s) { return shake(s, true); }
	int __wrap_SSL_accept(SSL* s) { return shake(s, false); }
	int __wrap_SSL_get_error(const SSL* s, int) { tls::ssl(s); return SSL_ERROR_SSL; }
	int __wrap_SSL_shutdown(SSL* s) { tls::Ssl* p = tls::ssl(s); (void)p; return 1; }
	void __wrap_SSL_free(SSL* s) { if (!s) return; tls::Ssl* p = tls::ssl(s); p->live = false; tls::ssls--; tls::drop(p->ctx); }
	int __wrap_SSL_write(SSL* s, const void* b, int n) { tls::Ssl* p = tls::ssl(s); abc_assert(p->shook, "nothing is sent before the handshake is done"); abc_assert(n > 0, "model"); if (flip("write")) return -1; for (int i = 0; i < n; i++) net::out[net::nout++] = ((const unsigned char*)b)[i]; return n; }
	int __wrap_SSL_read(SSL* s, void* b, int n) { tls::Ssl* p = tls::ssl(s); abc_assert(p->shook, "nothing is read before the handshake is done"); if (flip("read")) return -1; return (int)take(b, n); }
}
typedef openssl_tcp_client_socket<> TlsC; typedef openssl_tcp_server_socket<> TlsS;
static void tls_closed() { net::closed(); abc_assert(tls::ssls == 0, "every TLS connection is freed when its socket is gone"); abc_assert(tls::ctxs == 0, "every TLS context is freed when its socket is gone"); }
static void exchange(TlsC& c) {
	char b[2] = { 5, 6 }; net::nout = 0; faulted = false; std::size_t n = c.send(b, 2); abc_assert(n == 2 || faulted, "what is sent is sent if nothing fails");
	abc_assert(n == net::nout && (n == 0 || n == 2), "send returns the number of bytes sent");
	net::nin = 1; net::rin = 0; net::end = 0; faulted = false; n = c.receive(b, 2); abc_assert(n == 1 || faulted, "what was sent is received if nothing fails"); abc_assert(n == net::rin, "receive returns the number of bytes received");
	abc_reach("exchanged");
}
HARNESS h_tls_client() {
	faults = true;
	try {
		bool verify = tls::want_verify = abc_choice("verify", 2);
		TlsC c(verify, abc_choice("v6", 2) ? AF_INET6 : AF_INET);
		bool conn = false;
		for (int k = 0; k < 2 && !conn; k++) { faulted = false; try { c.connect("h", "1"); conn = true; } catch (const std::exception&) { abc_reach("refused"); abc_assert(faulted, "a connection is made if nothing fails"); if (abc_choice("give_up", 2)) c.close(); } }
		if (conn) {
			abc_assert(net::count() == 1 && tls::ssls == 1, "a connection holds one descriptor and one TLS connection");
			if (abc_choice("move", 2)) { TlsC m(std::move(c)); abc_assert(!c.is_open() && m.is_open(), "a move takes the connection"); exchange(m); }
			else { exchange(c); c.close(); bool threw = false; char b = 0; try { c.send(&b, 1); } catch (const std::logic_error&) { threw = true; } abc_assert(threw, "a closed socket refuses to send"); }
		}
	} catch (const std::logic_error&) { abc_reach("not made"); abc_assert(faulted, "a socket is made if nothing fails"); }
	tls_closed();
	abc_reach("end");
}
HARNESS h_tls_server() {
	faults = true;
	secret_len = abc_choice("secret", 4); char* s = new char[secret_len + 1]; abc_sym(s, secret_len, "password"); for (std::size_t i = 0; i < secret_len; i++) abc_assume(s[i] != 0); s[secret_len] = 0; secret = s;
	try {
		bool verify = tls::want_verify = abc_choice("verify", 2);
		TlsS srv("cert", "key", s, verify);
		try {
			net::host = "0.0.0.0"; srv.bind("1"); srv.listen(5);
			TlsS* use = &srv; TlsS moved(std::move(srv)); use = &moved;
			for (int k = 0; k < 2; k++) {
				int before = net::count(); faulted = false;
				try { TlsC c = use->accept(); abc_assert(c.is_open() && net::count() == before + 1 && tls::ssls == 1, "accept returns a connection of its own"); exchange(c); abc_reach("accepted"); }
				catch (const std::exception&) { abc_reach("refused"); abc_assert(faulted, "a connection is accepted if nothing fails"); }
				abc_assert(net::count() == before && tls::ssls == 0, "a connection that is refused or gone leaves nothing behind");
			}
		} catch (const std::exception&) { abc_assert(faulted, "a server listens if nothing fails"); }
	} catch (const std::logic_error&) { abc_reach("not made"); abc_assert(faulted, "a socket is made if nothing fails"); }
	tls_closed();
	abc_reach("end");
}
#endif
