// abcsym - hash-consed bit-vector expressions and their lowering to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cmath>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
	CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
	FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO, FSQRT, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
	Op op;
	uint8_t nk;
	uint32_t w;		// width in bits
	uint32_t aux;	// EXTRACT: low bit; VAR: variable index
	uint32_t id;
	uint32_t tz;	// known trailing zero bits
	u128 c;
	const Expr* k[3];
	u64 lo, hi;		// unsigned interval (w <= 64)
	const VarSet* vars;
	mutable Z3_ast z;
	mutable uint32_t epoch;
	mutable u128 val;
	bool isConst() const { return op == CONST; }
	u64 u() const { return (u64)c; }
};
typedef const Expr* E;

inline u128 maskw(uint32_t w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, uint32_t w) {
	if (w >= 128) return (i128)v;
	u128 s = (u128)1 << (w - 1);
	return (i128)((v ^ s) - s);
}

struct VarInfo { std::string name; uint32_t w; u64 hi; };	// hi: an upper bound that holds on every path
extern std::vector<VarInfo> gVars;

E mkConst(u128 v, uint32_t w);
E mkVar(const std::string& name, uint32_t w, u64 hi = ~0ull);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, uint32_t lo, uint32_t w);
E mkConcat(E hi, E lo);
E mkZext(E a, uint32_t w);
E mkSext(E a, uint32_t w);
E mkNot(E a);					// 1-bit negation
E mkCast(Op op, E a, uint32_t w);
inline E mkBool(bool b) { return mkConst(b, 1); }
inline E mkAnd(E a, E b) { return mkBin(AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(OR, a, b); }
inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
bool exprHasFP(E e);

// Assignment of variables: index -> value.
struct Model {
	std::unordered_map<uint32_t, u64> v;
	u64 get(uint32_t i) const { auto it = v.find(i); return it == v.end() ? 0 : it->second; }
};
typedef std::shared_ptr<const Model> ModelP;

u128 evalExpr(E e, const Model& m);

enum Res { UNSAT, SAT, UNKNOWN };

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, assertQueries = 0; double time = 0, maxq = 0; };
extern SolverStats gS;

// Decides the conjunction of cons (restricted to what shares variables with e) and e.
Res solve(const std::vector<E>& cons, E e, const Model& base, Model* out, unsigned timeoutMs);
std::string exprStr(E e, int depth = 6);
extern u64 gExprCount;
