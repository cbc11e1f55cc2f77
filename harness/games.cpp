// The games among the samples: rules, turns, engines, REST interface.
#include "games.h"
static void shows(const Board& b, const Model& m) { unsigned diff = 0; for (int r = 0; r < ROWS; r++) for (int c = 0; c < COLS; c++) diff |= (unsigned)(b.get_move({ r, c }) ^ m.cell[r][c]); abc_assert(!diff, "the board shows the moves that were made"); }
static void agree(const Board& b, const Model& m) {
	abc_assert(b.is_game_over() == m.over, "the game is over when someone has won or the board is full, and not before");
	abc_assert(b.winner() == m.winner, "the winner is the one who has a row");
	abc_assert(b.move_count() == (unsigned)m.count, "moves are counted");
	if (!m.over) abc_assert(b.current_player_id() == m.turn, "players take turns");
	shows(b, m);
}
static void any_move(Move& mv) {		// on the board, or anywhere outside it
	unsigned k = (unsigned)abc_choice("cell", ROWS * COLS + 1);
	if (k) { mv.row = (k - 1) / COLS; mv.col = (k - 1) % COLS; return; }
	int v[2]; abc_sym(v, sizeof v, "move"); abc_assume((v[0] < 0) | (v[0] >= ROWS) | (v[1] < 0) | (v[1] >= COLS)); mv.row = v[0]; mv.col = v[1];
}

#ifndef CONNECT4
// any move whatsoever from every position that can come up
HARNESS h_position() {
	Board b; fresh(b); Model m; m.clear();
	int xs = 0, os = 0; player_id_t cells[9];
	for (int i = 0; i < 9; i++) { unsigned k = (unsigned)abc_choice("cell", 3); cells[i] = k == 0 ? NONE : k == 1 ? X : O; xs += k == 1; os += k == 2; }
	if (xs != os && xs != os + 1) return;
	Model w; w.clear(); for (int i = 0; i < 9; i++) w.cell[i / 3][i % 3] = cells[i];
	if (w.wins(X) || w.wins(O)) return;			// the game has ended
	for (int n = 0; n < xs + os; n++) {
		int i = 0; while (cells[i] != m.turn) i++;
		abc_assert(b.accept_move({ i / 3, i % 3 }) && m.move(i / 3, i % 3), "a legal move is accepted"); cells[i] = NONE;
	}
	if (m.over) { agree(b, m); return; }
	board_state_t before = b.state(); abc_reach("position");
	Move mv; any_move(mv);
	bool ok = b.accept_move(mv);
	abc_assert(ok == m.legal(mv.row, mv.col), "a move is accepted if and only if it is legal");
	if (!ok) { abc_assert(b.state() == before, "a refused move changes nothing"); agree(b, m); abc_reach("refused"); return; }
	Model m0 = m; m.move(mv.row, mv.col); agree(b, m);
	abc_assert(b.state() != before, "every position has its own state");
	Move again; any_move(again);
	if (m.over) { abc_assert(!b.accept_move(again), "no move is accepted when the game is over"); agree(b, m); abc_reach("over"); }
	abc_assert(b.undo_move(mv), "a move can be undone"); agree(b, m0); abc_assert(b.state() == before, "undoing a move restores the position");
	abc_reach("end");
}
#else
// any arrangement along the four lines through the last move
static void inject(Board& b, board_state_t s, player_id_t turn, unsigned count) {
	// where the board keeps its state is found out by looking at it
	Board p; std::memset((void*)&p, 0, sizeof p); fresh(p); unsigned char z[sizeof(Board)]; std::memcpy(z, (void*)&p, sizeof p);
	p.accept_move({ 0, 3 }); p.accept_move({ 0, 2 }); board_state_t st = p.state();
	int at = -1; for (int i = 0; i + 8 <= (int)sizeof p; i++) if (!std::memcmp((char*)&p + i, &st, 8)) { at = i; break; }
	abc_assert(at >= 0, "model");
	if (turn == O) b.accept_move({ 0, 0 });		// the other player's turn
	std::memcpy((char*)&b + at, &s, 8); (void)count;
}
HARNESS h_position() {
	Board b; std::memset((void*)&b, 0, sizeof b); fresh(b);
	int c = (int)abc_choice("col", COLS), r = (int)abc_choice("row", ROWS);
	int d = (int)abc_choice("axis", 4); static const int dr[] = { 0, 1, 1, 1 }, dc[] = { 1, 0, 1, -1 };
	player_id_t me = (r + c) % 2 ? O : X, op = me == X ? O : X;
	Model m; m.clear(); m.turn = me;
	int h[COLS]; for (int i = 0; i < COLS; i++) h[i] = 0; h[c] = r;
	for (int i = 0; i < r; i++) m.cell[i][c] = op;
	for (int s = -1; s <= 1; s += 2) { int n = d == 1 ? 6 : (int)abc_choice("there", 5); for (int k = 1; k < 6; k++) {
		int rr = r + s * k * dr[d], cc = c + s * k * dc[d]; if (!Model::on(rr, cc)) break;
		if (d == 1 && s == 1) break; bool there = k <= n;
		if (there) { if (d != 1) { h[cc] = rr + 1; for (int i = 0; i < rr; i++) m.cell[i][cc] = op; } m.cell[rr][cc] = (player_id_t)abc_sym_u64("whose", 0, 1); }
		else { h[cc] = rr; for (int i = 0; i < rr; i++) m.cell[i][cc] = op; }
	} }
	board_state_t s = 0; int count = 0;
	for (int i = 0; i < COLS; i++) { s |= (board_state_t)h[i] << (sizes_pos + i * col_size_bit_count); for (int j = 0; j < h[i]; j++) { s |= (board_state_t)(m.cell[j][i] & move_mask) << (moves_pos + i * col_bit_count + j * move_bit_count); count++; } }
	inject(b, s, me, (unsigned)count);
	abc_assert(b.accept_move({ r, c }), "a legal move is accepted");
	m.cell[r][c] = me; bool win = false;
	for (int k0 = 0; k0 < RUN; k0++) { unsigned miss = 0; for (int k = 0; k < RUN; k++) { int rr = r + (k - k0) * dr[d], cc = c + (k - k0) * dc[d]; miss |= Model::on(rr, cc) ? m.cell[rr][cc] ^ me : 1u; } win |= miss == 0; }
	abc_assert(b.is_game_over() == win && b.winner() == (win ? me : NONE), "the game is won when four in a row have been made, and not before"); if (win) abc_reach("win");
	shows(b, m);
	abc_assert(b.current_player_id() == (win ? me : op), "players take turns");
	abc_assert(b.undo_move({ r, c }) && b.state() == s && !b.is_game_over() && b.current_player_id() == me, "undoing a move restores the position");
	abc_reach("end");
}
#endif
// a game: any sequence of moves by anyone
HARNESS h_game() {
	game g; g.reset(player_type::external, player_type::external, nullptr);
	Model m; m.clear(); Move made[K];
	int first = 0;
#ifdef FIRST
	first = FIRST;		// a few moves without a winner
	static const int fr[] = { 0, 0, 1, 0 }, fc[] = { 0, 1, 0, 2 };
	for (int i = 0; i < first; i++) { g.accept_move(m.turn, { fr[i], fc[i] }); m.move(fr[i], fc[i]); schedule(); }
#endif
	for (int k = 0; k < K; k++) {
		player_id_t p; abc_sym(&p, 1, "player"); Move mv; any_move(mv);
		bool want = p == m.turn && m.legal(mv.row, mv.col);
		bool ok = g.accept_move(p, mv); schedule();
		abc_assert(ok == want, "a move is accepted if and only if it is legal and the player's turn");
		if (ok) { made[m.count - first] = mv; m.move(mv.row, mv.col); abc_reach("accepted"); } else abc_reach("refused");
	}
	agree(g.board(), m);
	for (int i = first; i < m.count; i++) abc_assert(g.moves()[i].row == made[i - first].row && g.moves()[i].col == made[i - first].col, "the moves of a game are recorded in order");
	abc_reach("end");
}

#ifdef ENGINE
// ---------------------------------------------------------------- the learning engine
#ifndef EMPTY
#define EMPTY 3
#endif
// draws: every remainder by any sum of scores
#ifdef CONNECT4
#define RAND_LIMIT 1023
#else
#define RAND_LIMIT 255
#endif
static int nrand; extern "C" int __wrap_rand(void) { abc_assert(nrand++ < 2, "the engine draws once"); return (int)abc_sym_u64("rand", 0, RAND_LIMIT); }
#ifdef CONNECT4
static score_t& slot(scores& v, int, int c) { return v[c]; }
static const int fr[] = { 0,1,0,2,1,2,3,4,5,3,4,5,0,0,1,2,1,3,2,3,4,5,4,5,0,0,1,2,3,1,2,4,5,3,4,5,0,1,2 }, fc[] = { 1,1,0,1,0,0,0,0,0,1,1,1,2,3,3,3,2,3,2,2,3,3,2,2,4,5,4,4,4,5,5,4,4,5,5,5,6,6,6 };
#else
static score_t& slot(scores& v, int r, int c) { return v[r][c]; }
static const int fr[] = { 0, 0, 1, 2, 0, 1, 1 }, fc[] = { 0, 1, 0, 0, 2, 1, 2 };
#endif
static int playable(const Model& m, int* rows, int* cols) { int n = 0; for (int r = 0; r < ROWS; r++) for (int c = 0; c < COLS; c++) if (m.legal(r, c)) { rows[n] = r; cols[n++] = c; } return n; }
static void store(vmem_bundle& mem, board_state_t s, const KB::value_type& item) { abc_assert(mem.state_scores_map.insert(item).second, "model"); (void)s; }
// whatever it has learned, and whatever it draws, the engine makes a legal move
HARNESS h_engine() {
	vmem_bundle mem("p", nullptr); player_agent::_vmem = &mem;
	game g; Model m; m.clear();
#ifdef CONNECT4
	static const int befores[] = { 0, 21, 26, 33, 37 };
#else
	static const int befores[] = { 0, 1, 4, 5, 6 };
#endif
	int before = befores[abc_choice("before", sizeof(befores) / sizeof(befores[0]))];
	bool x = before % 2 == 0;
	g.reset(x ? player_type::fast_engine : player_type::external, x ? player_type::external : player_type::fast_engine, nullptr);
	for (int i = 0; i < before; i++) abc_assert(m.move(fr[i], fc[i]) && !m.over, "model");
	int rows[ROWS * COLS], cols[ROWS * COLS], n = playable(m, rows, cols);
	// the position comes up with the engine's moves made for it
	for (int i = 0; i < before; i++) abc_assert(const_cast<Board&>(g.board()).accept_move({ fr[i], fc[i] }), "a legal move is accepted");
	unsigned how = (unsigned)abc_choice("learned", n <= EMPTY ? 3 : 2);
	KB::value_type item; item.key = g.board().state(); std::memset(&item.value, score::none, sizeof item.value);
	if (how) for (int i = 0; i < n; i++) { score_t v; if (how == 1) v = score::min; else { abc_sym(&v, 1, "score"); abc_assume((v == score::none) | ((v >= score::min) & (v <= score::max))); } slot(item.value, rows[i], cols[i]) = v; }
	if (how) store(mem, item.key, item); else abc_reach("unknown");
	g.start(); schedule();
	abc_assert(g.board().move_count() == (unsigned)before + 1, "the engine makes a legal move, whatever it has learned");
	int at = -1; for (int i = 0; i < n; i++) if (g.board().get_move({ rows[i], cols[i] }) == (x ? X : O)) at = i;
	abc_assert(at >= 0 && g.moves()[before].row == rows[at] && g.moves()[before].col == cols[at], "the engine's move is recorded");
	bool best = false, isbest = how && slot(item.value, rows[at], cols[at]) == score::max; if (how) for (int i = 0; i < n; i++) best = best || slot(item.value, rows[i], cols[i]) == score::max;
	if (best) { abc_assert(isbest, "a move with the highest score is preferred"); abc_reach("best"); }
	abc_reach("end");
}
// after a game against the other engine, the moves of the learning engine - and no others - are scored
HARNESS h_learn() {
	vmem_bundle mem("p", nullptr); player_agent::_vmem = &mem;
	game g; bool x = abc_choice("x", 2) != 0; player_id_t me = x ? X : O;
	g.reset(x ? player_type::fast_engine : player_type::slow_engine, x ? player_type::slow_engine : player_type::fast_engine, nullptr);
#ifdef CONNECT4
	static const int wr[][12] = { { 0, 0, 1, 1, 2, 2, 3, -1 }, { 0, 0, 1, 1, 2, 2, 0, 3, -1 } }, wc[][12] = { { 0, 1, 0, 1, 0, 1, 0 }, { 0, 1, 0, 1, 0, 1, 2, 1 } };
	unsigned line = (unsigned)abc_choice("game", 2); player_id_t winner = line == 0 ? X : O;
#else
	static const int wr[][12] = { { 0, 1, 0, 1, 0, -1 }, { 0, 1, 0, 1, 2, 1, -1 }, { 0, 0, 0, 1, 1, 1, 2, 2, 2, -1 } }, wc[][12] = { { 0, 0, 1, 1, 2 }, { 0, 0, 1, 1, 2, 2 }, { 0, 1, 2, 1, 0, 2, 1, 0, 2 } };
	unsigned line = (unsigned)abc_choice("game", 3); player_id_t winner = line == 0 ? X : line == 1 ? O : NONE;
#endif
	score_t was[12]; bool known[12]; Board b; fresh(b); int n = 0;
	int at = (int)abc_choice("known", 3);		// what is known of the first moves of the engine
	for (; wr[line][n] >= 0; n++) {
		known[n] = false; was[n] = score::none;
		if (b.current_player_id() == me && n / 2 <= at) { known[n] = true; KB::value_type item; item.key = b.state(); std::memset(&item.value, 7, sizeof item.value); abc_sym(&was[n], 1, "score"); abc_assume((was[n] == score::none) | ((was[n] >= score::min) & (was[n] <= score::max))); slot(item.value, wr[line][n], wc[line][n]) = was[n]; store(mem, item.key, item); }
		b.accept_move({ wr[line][n], wc[line][n] });
	}
	for (int i = 0; i < n; i++) { abc_assert(g.accept_move(i % 2 ? O : X, { wr[line][i], wc[line][i] }), "a legal move is accepted"); }	// nobody else moves: the engines' threads do not run
	abc_assert(g.board().is_game_over() && g.board().winner() == winner, "model");
	fresh(b); int items = 0;
	for (int i = 0; i < n; i++) {
		bool mine = b.current_player_id() == me; KB::iterator it = mem.state_scores_map.find(b.state());
		abc_assert(it.can_deref() == mine, "the positions in which the learning engine moved are learned, and no others");
		if (mine) {
			items++;
			score_t old = was[i] == score::none ? score::mid : was[i], v = slot(it->value, wr[line][i], wc[line][i]);
			abc_assert((v >= score::min) & (v <= score::max), "a score stays within its range");
			if (winner == me) abc_assert((v > old) | (v == score::max), "a move that won is scored higher");
			else if (winner != NONE) abc_assert((v < old) | (v == score::min), "a move that lost is scored lower");
			for (int r = 0; r < ROWS; r++) for (int c = 0; c < COLS; c++) if (c != wc[line][i]
#ifndef CONNECT4
				|| r != wr[line][i]
#endif
				) abc_assert(slot(it->value, r, c) == (known[i] ? 7 : score::none), "the other moves keep their scores");
		}
		b.accept_move({ wr[line][i], wc[line][i] });
	}
	int all = 0; for (KB::iterator it = mem.state_scores_map.begin(); it != mem.state_scores_map.end(); it++) all++;
	abc_assert(all == items, "nothing else is learned"); abc_reach("end");
}
// the slow engine finds the best outcome: against every play it makes legal moves only, and none that gives away a win or a draw
static int outcome(const Model& m, player_id_t me) {		// 1 = me wins with best play, 0 = draw, -1 = me loses
	if (m.over) return m.winner == NONE ? 0 : m.winner == me ? 1 : -1;
	bool mine = m.turn == me; int best = mine ? -2 : 2;
	for (int c = 0; c < COLS; c++) for (int r = 0; r < ROWS; r++) if (m.legal(r, c)) { Model n = m; n.move(r, c); int v = outcome(n, me); if (mine ? v > best : v < best) best = v; if (best == (mine ? 1 : -1)) return best; }
	return best;
}
HARNESS h_slow() {
	vmem_bundle mem("p", nullptr); player_agent::_vmem = &mem;
	game g; Model m; m.clear();
#ifdef CONNECT4
	static const int befores[] = { 33, 34, 36, 37 };
#else
	static const int befores[] = { 2, 3, 4, 5, 6 };
#endif
	int before = befores[abc_choice("before", sizeof(befores) / sizeof(befores[0]))];
	bool x = before % 2 == 0; player_id_t me = x ? X : O;
	g.reset(x ? player_type::slow_engine : player_type::external, x ? player_type::external : player_type::slow_engine, nullptr);
	for (int i = 0; i < before; i++) { abc_assert(m.move(fr[i], fc[i]) && !m.over, "model"); abc_assert(const_cast<Board&>(g.board()).accept_move({ fr[i], fc[i] }), "a legal move is accepted"); }
	if (outcome(m, me) < 0) { abc_reach("lost"); return; }		// an engine that plays from the start does not come here
	g.start(); bool first = true;
	for (;;) {
		schedule();
		if (!first || m.turn == me) {
			int v = outcome(m, me), r, c; bool found = false;
			for (int i = 0; i < ROWS && !found; i++) for (int j = 0; j < COLS && !found; j++) if (m.legal(i, j) && g.board().get_move({ i, j }) == me) { r = i; c = j; found = true; }
			abc_assert(g.board().move_count() == (unsigned)m.count + 1 && found, "the engine makes a legal move");
			m.move(r, c);
			abc_assert(outcome(m, me) == v, "the slow engine does not give away a win or a draw");
		}
		first = false;
		if (m.over) break;
		int rows[ROWS * COLS], cols[ROWS * COLS], n = playable(m, rows, cols), at = (int)abc_choice("play", (unsigned)n);
		m.move(rows[at], cols[at]);
		abc_assert(g.accept_move(x ? O : X, { rows[at], cols[at] }), "a legal move is accepted");
		if (m.over) break;
	}
	abc_assert(g.board().is_game_over() && g.board().winner() == m.winner, "the game ends as the rules say"); abc_reach("end");
}
#else
extern "C" int __wrap_rand(void) { static int n; return n += 5; }	// the engines move only in the other units
#endif
