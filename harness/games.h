// The sample games over the models of files and threads, and their rules as a reference.
#pragma once
#include <cstring>
#include <cstdio>
#include <new>
#include <tuple>
#include <thread>
#include <mutex>
#include <atomic>
#include <stdexcept>
#include <sys/stat.h>
#include "abcsym.h"
#define ABC_FILEBUF 4
#ifndef SWITCHES
#define SWITCHES 0
#endif
#ifndef K
#define K 3
#endif
#include "threads.h"
#include "vfs.h"
#include "src/log.h"
#include "src/socket.h"
#include "src/http.h"
#include "src/vmem.h"
#include <fstream>
#include <future>
#define atomic_int32_t vatomic_int
#define atomic_bool vatomic_bool
#define atomic vatomic
#define atomic_int vatomic_int
#define thread vthread
#define mutex vmutex
#include "src/endpoint.h"
#ifdef GAME_FAKES
#include GAME_FAKES
#endif
#ifdef CONNECT4
#include "samples/connect4/game.h"
#else
#include "samples/tictactoe/game.h"
#endif
#undef atomic
#undef atomic_int
#undef thread
#undef mutex
using namespace abc;
using namespace abc::samples;
typedef abc::samples::vmem_map KB; typedef abc::samples::board Board; typedef abc::samples::move Move;
vmem_bundle* player_agent::_vmem = nullptr;

#ifdef CONNECT4
static const int ROWS = 6, COLS = 7, RUN = 4;
static void fresh(Board& b) { b.reset(nullptr); }
#else
static const int ROWS = 3, COLS = 3, RUN = 3;
static void fresh(Board& b) { b.reset(); }
#endif
static const player_id_t X = player_id::x, O = player_id::o, NONE = player_id::none;
// ---------------------------------------------------------------- the rules, as a reference
struct Model {
	player_id_t cell[ROWS][COLS]; player_id_t turn; int count; bool over; player_id_t winner;
	void clear() { for (int r = 0; r < ROWS; r++) for (int c = 0; c < COLS; c++) cell[r][c] = NONE; turn = X; count = 0; over = false; winner = NONE; }
	static bool on(long r, long c) { return r >= 0 && r < ROWS && c >= 0 && c < COLS; }
	bool legal(int r, int c) const {
		if (over || !on(r, c) || cell[r][c] != NONE) return false;
#ifdef CONNECT4
		if (r > 0 && cell[r - 1][c] == NONE) return false;
#endif
		return true;
	}
	bool wins(player_id_t p) const {		// any RUN in a row
		static const int dr[] = { 0, 1, 1, 1 }, dc[] = { 1, 0, 1, -1 };
		for (int r = 0; r < ROWS; r++) for (int c = 0; c < COLS; c++) for (int d = 0; d < 4; d++) {
			if (!on(r + dr[d] * (RUN - 1), c + dc[d] * (RUN - 1))) continue;
			int k = 0; while (k < RUN && cell[r + dr[d] * k][c + dc[d] * k] == p) k++;
			if (k == RUN) return true;
		}
		return false;
	}
	bool move(int r, int c) {
		if (!legal(r, c)) return false;
		cell[r][c] = turn; count++;
		if (wins(turn)) { over = true; winner = turn; } else if (count == ROWS * COLS) over = true; else turn = turn == X ? O : X;
		return true;
	}
};
