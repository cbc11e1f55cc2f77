// The games' REST interface, over modelled connections and threads.
#define CONN_OUT 800
#define REQ 1
#define THREADS 32
#define GAME_FAKES "fakes.h"
#define DETACHED yield_here();
#ifndef N
#define N 4
#endif
#ifndef FIRST
#define FIRST 2
#endif
#ifndef CELLS
#define CELLS (COLS > 6 ? 8 : 4)
#endif
#ifndef ENGINE_O
#define ENGINE_O 0
#endif
#include "games.h"
struct Small { static constexpr std::size_t method_size = 8, resource_size = 40, protocol_size = 12, file_chunk_size = 4, fsize_size = 8; };
constexpr std::size_t Small::method_size; constexpr std::size_t Small::resource_size; constexpr std::size_t Small::protocol_size; constexpr std::size_t Small::file_chunk_size; constexpr std::size_t Small::fsize_size;
typedef abc::samples::log_ostream GLog;
struct Ep : game_endpoint<Small, GLog> { using base = game_endpoint<Small, GLog>; using base::base; using base::process_request; };
static endpoint_config& config() { static endpoint_config* c = nullptr; if (!c) c = new endpoint_config("8080", 5, "w", "/r/"); return *c; }
extern "C" {	// no request is for a file
	int abc_file_open(const char*, int) { abc_assert(0, "no file is opened"); return -1; }
	long abc_file_read(int, char*, long) { return -1; }
	long abc_file_write(int, const char*, long) { return -1; }
	void abc_file_close(int) {}
}
// ids are 1, 2, 3, ... in the order in which they are drawn
static int draws; extern "C" int __wrap_rand(void) { draws++; return draws % 2 ? 0 : draws / 2; }
// a number is read as it is written, if it is short
extern "C" double __wrap_strtod(const char* s, char**) {
	char t[8]; int n = 0; for (; n < 7 && s[n]; n++) { t[n] = s[n]; for (char c = '0'; c <= '9'; c++) if (s[n] == c) { t[n] = c; break; } }
	int i = 0; bool neg = t[0] == '-'; if (neg) i++;
	double v = 0; while (i < n && t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0');
	if (i < n && t[i] == '.') { double k = 1; i++; while (i < n && t[i] >= '0' && t[i] <= '9') { k /= 10; v += k * (t[i++] - '0'); } }
	return neg ? -v : v;
}
extern "C" double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }

static Ep* server;
static Response request(const char* in, std::size_t n) {		// in a thread of its own, as the endpoint does
	Conn& k = conn[0]; k.in = in; k.nin = n; k.rin = k.nout = 0;
	std::vthread t([]() { try { server->process_request(Cli(0)); } catch (...) { abc_assert(0, "no request makes an exception leave a thread of the server, which would end the process"); } }); t.detach();
	schedule();
	abc_assert(!k.open, "the connection is closed after the request"); abc_assert(k.nout, "every request gets a response");
	return parse(k);
}
static Response request(const char* in) { return request(in, std::strlen(in)); }
#define JSON_REQUEST "Content-Type: application/json\r\n\r\n"
// numbers in a body, in order
struct Numbers { long v[100]; int n; bool winner, moves; };
static bool holds(const Response& r, const char* s) { std::size_t n = std::strlen(s); for (std::size_t i = 0; i + n <= r.length; i++) if (!std::memcmp(r.body + i, s, n)) return true; return false; }
static Numbers numbers(const Response& r) {
	Numbers x = {}; x.winner = holds(r, "\"winner\""); x.moves = holds(r, "\"moves\"");
	abc_assert(r.type_len >= 16 && !std::memcmp(r.type, "application/json", 16), "the body is JSON");
	abc_assert(r.length && r.body[0] == '{' && r.body[r.length - 1] == '}', "the body is JSON");
	for (std::size_t i = 0; i < r.length;) { if (r.body[i] < '0' || r.body[i] > '9') { i++; continue; } long v = 0; while (i < r.length && r.body[i] >= '0' && r.body[i] <= '9') v = v * 10 + (r.body[i++] - '0'); abc_assert(x.n < 100, "model"); x.v[x.n++] = v; }
	return x;
}
static void post_types(char* in, const char* x, const char* o) { std::snprintf(in, 200, "POST /games HTTP/1.1\r\n" JSON_REQUEST "{\"players\":[\"%s\",\"%s\"]}", x, o); }
// all moves since one, as the server tells them
static int list(long game, int since, Move* moves, bool& over, long& winner) {
	char in[80]; std::snprintf(in, sizeof(in), "GET /games/%ld/moves?since=%d HTTP/1.1\r\n\r\n", game, since);
	Response r = request(in); abc_assert(r.status == 200, "the moves of a game are told"); Numbers x = numbers(r); abc_assert(x.moves, "the moves of a game are told");
	int n = 0, i = 0; for (; i + 3 <= x.n; i += 3) { abc_assert(x.v[i] == since + n, "moves are numbered"); moves[n].row = x.v[i + 1]; moves[n].col = x.v[i + 2]; n++; }
	over = x.winner; abc_assert(x.n == i + (over ? 1 : 0), "the moves and the winner are told"); winner = over ? x.v[i] : -1; return n;
}

// any history of requests on a game
HARNESS h_play() {
	static Ep ep(&config(), nullptr); server = &ep; preempt = SWITCHES > 0; budget = SWITCHES;
	char in[200]; Model m; m.clear(); Move told[ROWS * COLS + 1]; bool claimed[2] = { false, false };
	unsigned engine = ENGINE_O ? 2 : 0;		// whether the second player is an engine
	static const char* const who[] = { "external", "slow_engine" };
	post_types(in, who[engine == 1], who[engine == 2]);
	Response c = request(in); abc_assert(c.status == 200, "a game is made"); Numbers cx = numbers(c); abc_assert(cx.n == 1, "a game has an id");
	long game = cx.v[0], ids[2] = { 0, 0 };
	if (engine) claimed[engine - 1] = true;
	int at = 0;			// moves made
	for (int k = 0; k < K; k++) {
		bool fixed = k < FIRST && !(k == 1 && engine);		// the players are there
		unsigned what = fixed ? 0u : (unsigned)abc_choice("request", 3); int accepted = -1;
		char g = (char)('0' + game), d[2];
		if (!fixed) { abc_sym(&g, 1, "game"); abc_assume((unsigned char)(g - '0') < 10); }
		if (what == 0) {
			d[0] = '0'; if (!fixed) { abc_sym(d, 1, "player"); abc_assume((unsigned char)(d[0] - '0') < 10); } else if (engine == 1 || k == 1) d[0] = '1';
			std::snprintf(in, sizeof(in), "POST /games/%c/players/%c HTTP/1.1\r\n\r\n", g, d[0]);
			Response r = request(in);
			bool bad = (g == '0') | (d[0] > '1');
			if (bad) abc_assert(r.status == 400, "an impossible game or player is a bad request");
			else if (g != '0' + game) abc_assert(r.status == 404, "a game that there is not is not found");
			else if (claimed[d[0] - '0']) { abc_assert(r.status == 403, "a player is claimed once"); abc_reach("claimed twice"); }
			else { int p = d[0] - '0'; abc_assert(r.status == 200, "a player is claimed"); Numbers x = numbers(r); abc_assert(x.n == 1 && x.v[0] && x.v[0] != ids[1 - p], "a player has an id of its own"); ids[p] = x.v[0]; claimed[p] = true; abc_reach("claimed"); }
		}
		else if (what == 1) {
			char p, row, col; abc_sym(&p, 1, "player"); abc_assume((unsigned char)(p - '0') < 10); row = (char)('0' + abc_choice("row", CELLS)); col = (char)('0' + abc_choice("col", CELLS));
			std::snprintf(in, sizeof(in), "POST /games/%c/players/%c/moves HTTP/1.1\r\n" JSON_REQUEST "{\"row\":%c,\"col\":%c}", g, p, row, col);
			Response r = request(in);
			if ((g == '0') | (p == '0')) abc_assert(r.status == 400, "an impossible game or player is a bad request");
			else if (row - '0' >= ROWS || col - '0' >= COLS) abc_assert(r.status == 400, "a move off the board is a bad request");
			else if (g != '0' + game) abc_assert(r.status == 404, "a game that there is not is not found");
			else if ((p != '0' + ids[0] || !ids[0]) & (p != '0' + ids[1] || !ids[1])) { if (!claimed[0] || !claimed[1]) { abc_reach("guessed"); return; } abc_assert(r.status == 404, "only a player who knows its id makes moves"); }
			else {
				bool mine = (p == '0' + ids[0] && ids[0]) == (m.turn == X);
				if (mine && m.legal(row - '0', col - '0')) {
					abc_assert(r.status == 200, "a legal move is accepted"); Numbers x = numbers(r);
					abc_assert(x.n >= 1 && x.v[0] == at, "an accepted move is told its own number");
					accepted = at; m.move(row - '0', col - '0'); at++; abc_reach("moved");
					if (m.over) abc_assert(x.winner && x.n == 2 && x.v[1] == (long)m.winner, "the winner is told when the game is over");
				}
				else { abc_assert(r.status == 403, "a move that is not legal, or not the player's turn, is refused"); abc_reach("refused"); }
			}
		}
		else {
			char s = '0'; abc_sym(&s, 1, "since"); abc_assume((unsigned char)(s - '0') < 10);
			std::snprintf(in, sizeof(in), "GET /games/%c/moves?since=%c HTTP/1.1\r\n\r\n", g, s);
			Response r = request(in);
			if (g == '0') abc_assert(r.status == 400, "an impossible game is a bad request");
			else if (g != '0' + game) abc_assert(r.status == 404, "a game that there is not is not found");
			else { abc_assert(r.status == 200, "the moves of a game are told"); Numbers x = numbers(r); int n = at > s - '0' ? at - (s - '0') : 0; abc_assert(x.n == n * 3 + (x.winner ? 1 : 0) && x.winner == m.over && (!n || x.v[0] == s - '0'), "the moves since the given one are told"); abc_reach("listed"); }
		}
		// what has happened to the game: what was accepted, and one answer if an engine is next
		bool over; long winner; int n = list(game, 0, told, over, winner);
		if (accepted >= 0) abc_assert(n > accepted && told[accepted].row == in[std::strlen(in) - 10] - '0' && told[accepted].col == in[std::strlen(in) - 2] - '0', "the move that was accepted is made");
		if (engine && claimed[0] && claimed[1] && !m.over && m.turn == (engine == 1 ? X : O)) { abc_assert(n == at + 1, "an engine whose turn it is makes one move"); abc_assert(m.move(told[at].row, told[at].col), "an engine makes legal moves"); at++; abc_reach("engine"); }
		abc_assert(n == at, "nothing but an accepted move changes the game");
		abc_assert(over == m.over, "the winner is told when the game is over, and not before"); if (over) abc_assert(winner == (long)m.winner, "the winner is told when the game is over");
	}
	abc_reach("end");
}
// anything that is asked, in any way
HARNESS h_errors() {
	static Ep ep(&config(), nullptr); server = &ep; char in[1600]; Move told[ROWS * COLS + 1]; bool over; long winner;
	post_types(in, "external", "external"); abc_assert(request(in).status == 200, "a game is made");		// game 1, players 2 and 3
	static const char* const method[] = { "GET", "POST", "PUT", "post" }; unsigned m = (unsigned)abc_choice("method", 4); bool post = m == 1 || m == 3;
	static const char* const resource[] = { "/games", "/games/", "/games/1", "/games/1/", "/games/1/players/0", "/games/1/players/", "/games/1/players/2/moves", "/games/1/players/2/move", "/games/1/players/2/movesmoves", "/games/1/moves?since=0", "/games/1/moves", "/gamesx", "/shutdown", "/other", "/game", "/games/1/players/0/x" };
	unsigned r = (unsigned)abc_choice("resource", 16);
	static const char* const headers[] = { "", "Content-Type: application/json\r\n", "Content-Type: text/plain\r\n", "Content-Type: application/json\r\nContent-Type: application/json\r\n", "Accept: x\r\ncontent-type: application/json; charset=utf-8\r\nA: b\r\n", "Accept: x\r\n" };
	unsigned h = (unsigned)abc_choice("headers", r == 0 || r == 6 ? 9 : 6); bool json = h == 1 || h == 4 || h == 7;
	// a value that does not fit, one that does, and one that does up to its space
	char longer[1200]; std::memset(longer, 'x', sizeof(longer)); std::memcpy(longer, "A: ", 3);
	std::snprintf(longer + (h == 6 ? 1100 : h == 7 ? 1026 : 1027), 60, "%s\r\nContent-Type: application/json\r\n", h == 8 ? " x" : "");
	static const char* const body[] = { "{\"players\":[\"external\",\"external\"]}", "{\"row\":0,\"col\":1}", "", "{", "[]", "{\"row\":0}", "{\"row\":-1,\"col\":0}", "{\"row\":0,\"col\":9}", "{\"row\":\"0\",\"col\":0}", "{\"col\":0,\"row\":0}", "{\"row\":0,\"col\":" };
	unsigned b = (unsigned)abc_choice("body", r == 6 || r == 0 ? 11 : 2);
	std::snprintf(in, sizeof(in), "%s %s HTTP/1.1\r\n%s\r\n%s", method[m], resource[r], h > 5 ? longer : headers[h], body[b]);
	Response a = request(in); int s = a.status;
	bool moved = false;
	if (r == 0) {
		if (!post) abc_assert(s == 405, "another method is not allowed");
		else if (!json || b) abc_assert(s == 400, "what is not a game's JSON is a bad request");
		else { abc_assert(s == 503 || s == 200, "a game is made if there is room"); abc_reach(s == 503 ? "full" : "made"); }
	}
	else if (r == 4) { abc_assert(s == (post ? 200 : 405), "a player is claimed"); if (s == 200) { Numbers x = numbers(a); abc_assert(x.n == 1 && x.v[0] == 2, "a player has an id"); } }
	else if (r == 6) {
		if (!post) abc_assert(s == 405, "another method is not allowed");
		else if (!json || b != 1) abc_assert(s == 400, "what is not a move's JSON is a bad request");
		else { abc_assert(s == 200, "a legal move is accepted"); moved = true; abc_reach("moved"); }
	}
	else if (r == 9) { abc_assert(s == (m == 0 ? 200 : 405), "the moves of a game are told"); if (s == 200) { Numbers x = numbers(a); abc_assert(x.moves && !x.n, "the moves of a game are told"); } }
	else if (r == 12) { abc_assert(s == (post ? 200 : 405), "shutdown can be asked for"); abc_assert(promised == (s == 200), "the end of the shutdown is reported when it was asked for"); }
	else abc_assert(s == 400 || s == 404 || s == 405 || (r == 15 && s == 200), "what is not understood is an error");
	if (r != 12 && !(r == 0 && s == 200)) { int n = list(1, 0, told, over, winner); abc_assert(n == (moved ? 1 : 0) && !over, "nothing but an accepted move changes the game"); }
	abc_reach("end");
}
// the kinds of players
HARNESS h_create() {
	static Ep ep(&config(), nullptr); server = &ep; char in[2400], text[2][1200];
	static const char* const known[] = { "external", "fast_engine", "slow_engine", "External", "external ", "", "none" };
	static const unsigned lengths[] = { 63, 64, 65, 66, 100, 1023, 1024, 1025 };
	unsigned odd = (unsigned)abc_choice("odd", 2); bool good = true;
	for (unsigned i = 0; i < 2; i++) {
		unsigned k = i == odd ? (unsigned)abc_choice("type", 7 + 8 + 1) : 0;
		if (k < 7) { std::strcpy(text[i], known[k]); good = good && k < 3; }
		else if (k < 15) { std::memset(text[i], 'x', lengths[k - 7]); text[i][lengths[k - 7]] = 0; good = false; }
		else { std::strcpy(text[i], "externa?"); char c; abc_sym(&c, 1, "letter"); abc_assume((c >= ' ') & (c != '"') & (c != '\\')); text[i][7] = c; good = good && c == 'l'; }
	}
	static const char* const format[] = { "{\"players\":[\"%s\",\"%s\"]}", "{\"a\":[{\"players\":1}],\"players\":[\"%s\",\"%s\"],\"b\":null}", "{\"players\":[\"%s\",\"%s\",\"external\"]}", "{\"players\":[\"%s\"]}", "{\"players\":\"%s\"}", "{\"player\":[\"%s\",\"%s\"]}", "{ \"players\" : [ \"%s\" , \"%s\" ] }" };
	unsigned f = (unsigned)abc_choice("format", 7);
	std::strcpy(in, "POST /games HTTP/1.1\r\n" JSON_REQUEST); std::size_t n = std::strlen(in);
	std::snprintf(in + n, sizeof(in) - n, format[f], text[0], text[1]);
	bool valid = good && (f < 2 || f == 6);
	player_agent::_vmem = nullptr;
	Conn& k = conn[0]; k.in = in; k.nin = std::strlen(in); k.rin = k.nout = 0;
	try { ep.process_request(Cli(0)); } catch (...) { abc_assert(0, "no request makes an exception leave a thread of the server, which would end the process"); }
	abc_assert(!k.open && k.nout, "every request gets a response"); Response r = parse(k);		// engines, if any, do not get to move
	if (valid) { abc_assert(r.status == 200, "a game is made"); Numbers x = numbers(r); abc_assert(x.n == 1 && x.v[0] == 1, "a game has an id"); abc_reach("made"); }
	else { abc_assert(r.status == 400, "what is not a game's JSON is a bad request"); abc_reach("refused"); }
	abc_reach("end");
}
// any bytes as the resource or the body
HARNESS h_garbage() {
	static Ep ep(&config(), nullptr); server = &ep; char in[200]; Move told[ROWS * COLS + 1]; bool over; long winner;
	post_types(in, "external", "external"); abc_assert(request(in).status == 200, "a game is made");		// game 1, players 2 and 3
	unsigned what = (unsigned)abc_choice("what", 6); std::size_t n, len = abc_choice("len", N + 1);
	static const char* const start[] = { "GET /games/1", "POST /games/1/players/2", "POST /games/1/", "POST /games HTTP/1.1\r\n" JSON_REQUEST, "POST /games/1/players/2/moves HTTP/1.1\r\n" JSON_REQUEST "{\"row\":0,", "POST /games HTTP/1.1\r\n" JSON_REQUEST "{\"players\":[" };
	std::strcpy(in, start[what]); n = std::strlen(in); abc_sym(in + n, len, "bytes");
	if (what < 3) { for (std::size_t i = 0; i < len; i++) abc_assume(in[n + i] >= 0x21 && in[n + i] <= 0x7e); n += len; std::strcpy(in + n, " HTTP/1.1\r\n" JSON_REQUEST "{\"row\":1,\"col\":1}"); n += std::strlen(in + n); } else n += len;
	Response r = request(in, n);
	if (what > 2) abc_assert(r.status == 400, "what is not the right JSON is a bad request");
	int k = list(1, 0, told, over, winner); abc_assert(k == 0 && !over, "nothing but an accepted move changes the game");
	abc_reach("end");
}
