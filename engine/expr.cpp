#include "expr.h"
#include <unordered_set>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

std::vector<VarInfo> gVars;
SolverStats gS;
u64 gExprCount = 0;

namespace {
	struct KeyHash {
		size_t operator()(const Expr* e) const {
			u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 0xC2B2AE3D27D4EB4Full + e->aux * 0x165667B19E3779F9ull;
			h ^= (u64)e->c + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
			h ^= (u64)(e->c >> 64) * 31;
			for (int i = 0; i < e->nk; i++) h ^= (u64)e->k[i]->id * 0x9E3779B97F4A7C15ull + (h << 7) + (h >> 3);
			return h;
		}
	};
	struct KeyEq {
		bool operator()(const Expr* a, const Expr* b) const {
			if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->nk != b->nk || a->c != b->c) return false;
			for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
			return true;
		}
	};
	std::unordered_set<const Expr*, KeyHash, KeyEq> table;
	std::vector<Expr*> slabs; size_t slabUsed = 0; const size_t SLAB = 4096;
	Expr* allocExpr() {
		if (slabs.empty() || slabUsed == SLAB) { slabs.push_back((Expr*)calloc(SLAB, sizeof(Expr))); slabUsed = 0; }
		return &slabs.back()[slabUsed++];
	}
	struct VSHash { size_t operator()(const VarSet& v) const { u64 h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
	std::unordered_set<VarSet, VSHash> vsTable;
	const VarSet* internVS(VarSet&& v) { return &*vsTable.insert(std::move(v)).first; }
	const VarSet* emptyVS = internVS(VarSet());
	std::unordered_map<u64, const VarSet*> unionCache;
	const VarSet* unionVS(const VarSet* a, const VarSet* b) {
		if (a == b || b->empty()) return a;
		if (a->empty()) return b;
		VarSet r; r.reserve(a->size() + b->size());
		std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
		if (r.size() == a->size()) return a;
		if (r.size() == b->size()) return b;
		return internVS(std::move(r));
	}

	void interval(Expr* e) {
		if (e->w > 64) { e->lo = 0; e->hi = ~0ull; return; }
		u64 M = (u64)maskw(e->w);
		u64 lo = 0, hi = M;
		E a = e->nk > 0 ? e->k[0] : nullptr, b = e->nk > 1 ? e->k[1] : nullptr;
		bool small = a && a->w <= 64;
		switch (e->op) {
		case CONST: lo = hi = (u64)e->c; break;
		case VAR: hi = gVars[e->aux].hi; break;
		case ADD: { u128 h = (u128)a->hi + b->hi; if (h <= M) { lo = a->lo + b->lo; hi = (u64)h; }
			// a + negative constant
			else if (b->isConst() && b->lo > M / 2) { u64 neg = (u64)((u128)M + 1 - b->lo); if (a->lo >= neg) { lo = a->lo - neg; hi = a->hi - neg; } }
			break; }
		case SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
		case MUL: { u128 h = (u128)a->hi * b->hi; if (h <= M) { lo = a->lo * b->lo; hi = (u64)h; } break; }
		case UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
		case UREM: if (b->lo > 0) { if (a->hi < b->lo) { lo = a->lo; hi = a->hi; } else hi = b->hi - 1; if (hi > a->hi) hi = a->hi; } break;
		case AND: hi = std::min(a->hi, b->hi); break;
		case OR: { lo = std::max(a->lo, b->lo); u64 m = a->hi | b->hi; int n = m ? 64 - __builtin_clzll(m) : 0; hi = n >= 64 ? ~0ull : ((1ull << n) - 1); break; }
		case XOR: { u64 m = a->hi | b->hi; int n = m ? 64 - __builtin_clzll(m) : 0; hi = n >= 64 ? ~0ull : ((1ull << n) - 1); break; }
		case SHL: if (b->isConst() && b->lo < e->w) { u128 h = (u128)a->hi << b->lo; if (h <= M) { lo = a->lo << b->lo; hi = (u64)h; } } break;
		case LSHR: if (b->isConst()) { if (b->lo < e->w) { lo = a->lo >> b->lo; hi = a->hi >> b->lo; } else lo = hi = 0; } else hi = a->hi; break;
		case ZEXT: lo = a->lo; hi = a->hi; break;
		case SEXT: if (a->hi <= (u64)maskw(a->w - 1)) { lo = a->lo; hi = a->hi; } break;
		case ITE: lo = std::min(b->lo, e->k[2]->lo); hi = std::max(b->hi, e->k[2]->hi); break;
		case CONCAT: { lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; if (b->w >= 64) { lo = 0; hi = M; } break; }
		case EXTRACT: if (small) { if (e->aux == 0) { if (a->hi <= M) { lo = a->lo; hi = a->hi; } } else { u64 h = a->hi >> e->aux; if (h <= M) { lo = a->lo >> e->aux; hi = h; } } } break;
		default: break;
		}
		e->lo = lo; e->hi = std::min(hi, M);
	}
	uint32_t trailing(const Expr* e) {
		switch (e->op) {
		case CONST: { if (e->c == 0) return e->w; u64 l = (u64)e->c; if (l) return __builtin_ctzll(l); return 64; }
		case ADD: case SUB: case OR: case XOR: return std::min(e->k[0]->tz, e->k[1]->tz);
		case AND: return std::max(e->k[0]->tz, e->k[1]->tz);
		case MUL: return std::min(e->w, e->k[0]->tz + e->k[1]->tz);
		case SHL: return e->k[1]->isConst() ? (uint32_t)std::min<u128>(e->w, e->k[0]->tz + e->k[1]->c) : e->k[0]->tz;
		case ITE: return std::min(e->k[1]->tz, e->k[2]->tz);
		case ZEXT: case SEXT: return e->k[0]->tz;
		case CONCAT: return e->k[1]->tz < e->k[1]->w ? e->k[1]->tz : e->k[1]->w + e->k[0]->tz;
		case EXTRACT: return e->aux == 0 ? std::min(e->w, e->k[0]->tz) : (e->k[0]->tz > e->aux ? std::min(e->w, e->k[0]->tz - e->aux) : 0);
		default: return 0;
		}
	}
	E intern(const Expr& p) {
		auto it = table.find(&p);
		if (it != table.end()) return *it;
		Expr* e = allocExpr();
		*e = p;
		e->id = (uint32_t)++gExprCount;
		e->z = nullptr; e->epoch = 0;
		if (e->op == VAR) e->vars = internVS(VarSet{ e->aux });
		else {
			const VarSet* v = emptyVS;
			for (int i = 0; i < e->nk; i++) v = unionVS(v, e->k[i]->vars);
			e->vars = v;
		}
		interval(e);
		e->tz = trailing(e);
		table.insert(e);
		if (e->w <= 64 && e->lo == e->hi && e->op != CONST) return mkConst(e->lo, e->w);
		return e;
	}
	E raw(Op op, uint32_t w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
		Expr p; memset((void*)&p, 0, sizeof p);
		p.op = op; p.w = w; p.aux = aux; p.k[0] = a; p.k[1] = b; p.k[2] = c; p.nk = c ? 3 : b ? 2 : a ? 1 : 0;
		return intern(p);
	}

	double asD(u128 v) { double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
	float asF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
	u128 frD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
	u128 frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

	u128 foldBin(Op op, u128 a, u128 b, uint32_t w) {
		u128 M = maskw(w);
		i128 sa = sextw(a, w), sb = sextw(b, w);
		switch (op) {
		case ADD: return (a + b) & M;
		case SUB: return (a - b) & M;
		case MUL: return (a * b) & M;
		case UDIV: return b == 0 ? M : a / b;
		case SDIV: if (b == 0) return sa < 0 ? 1 : M; if (sb == -1) return (u128)(-sa) & M; return (u128)(sa / sb) & M;
		case UREM: return b == 0 ? a : a % b;
		case SREM: if (b == 0) return a; if (sb == -1) return 0; return (u128)(sa % sb) & M;
		case AND: return a & b;
		case OR: return a | b;
		case XOR: return a ^ b;
		case SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
		case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
		case ASHR: return b >= w ? (sa < 0 ? M : 0) : (u128)(sa >> (unsigned)b) & M;
		case EQ: return a == b;
		case ULT: return a < b;
		case ULE: return a <= b;
		case SLT: return sa < sb;
		case SLE: return sa <= sb;
		case FADD: return w == 64 ? frD(asD(a) + asD(b)) : frF(asF(a) + asF(b));
		case FSUB: return w == 64 ? frD(asD(a) - asD(b)) : frF(asF(a) - asF(b));
		case FMUL: return w == 64 ? frD(asD(a) * asD(b)) : frF(asF(a) * asF(b));
		case FDIV: return w == 64 ? frD(asD(a) / asD(b)) : frF(asF(a) / asF(b));
		case FREM: return w == 64 ? frD(fmod(asD(a), asD(b))) : frF(fmodf(asF(a), asF(b)));
		case FEQ: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
		case FLT: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
		case FLE: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
		case FUNO: return w == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
		default: abort();
		}
	}
	u128 foldCast(Op op, u128 a, uint32_t from, uint32_t to) {
		switch (op) {
		case FSQRT: return to == 64 ? frD(sqrt(asD(a))) : frF(sqrtf(asF(a)));
		case FPTOSI: { double d = from == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.2233720368547748e18)) return 0x8000000000000000ull & maskw(to); return (u128)(i128)(i64)d & maskw(to); }
		case FPTOUI: { double d = from == 64 ? asD(a) : asF(a); if (!(d > -1.0 && d < 1.8446744073709550e19)) return 0x8000000000000000ull & maskw(to); return (u128)(u64)d & maskw(to); }
		case SITOFP: { i128 s = sextw(a, from); return to == 64 ? frD((double)s) : frF((float)s); }
		case UITOFP: return to == 64 ? frD((double)a) : frF((float)a);
		case FPEXT: return frD((double)asF(a));
		case FPTRUNC: return frF((float)asD(a));
		default: abort();
		}
	}
	bool isCmp(Op op) { return (op >= EQ && op <= SLE) || (op >= FEQ && op <= FUNO); }
	bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }
}

E mkConst(u128 v, uint32_t w) {
	if (w > 128) { // wide constants are concatenations
		E lo = mkConst(v, 128);
		E hi = mkConst(0, w - 128);
		return raw(CONCAT, w, hi, lo);
	}
	Expr p; memset((void*)&p, 0, sizeof p);
	p.op = CONST; p.w = w; p.c = v & maskw(w);
	return intern(p);
}
E mkVar(const std::string& name, uint32_t w, u64 hi) {
	gVars.push_back({ name, w, w <= 64 ? std::min(hi, (u64)maskw(w)) : hi });
	Expr p; memset((void*)&p, 0, sizeof p);
	p.op = VAR; p.w = w; p.aux = (uint32_t)gVars.size() - 1;
	return intern(p);
}
E mkNot(E a) { assert(a->w == 1); return mkBin(XOR, a, mkConst(1, 1)); }

E mkBin(Op op, E a, E b) {
	assert(a->w == b->w);
	uint32_t w = a->w;
	if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->c, b->c, w), isCmp(op) ? 1 : w);
	if (op == FADD || op == FSUB) {	// x + -0 is x; so is x + 0, unless x is -0, which no integer is
		for (int i = 0; i < (op == FADD ? 2 : 1); i++) {
			E c = i ? a : b, x = i ? b : a; if (!c->isConst()) continue;
			bool neg = c->c == (u128)1 << (w - 1), pos = c->c == 0; if (op == FSUB) std::swap(neg, pos);
			if (neg || (pos && (x->op == SITOFP || x->op == UITOFP))) return x;
		}
	}
	if (w > 128 && !(op == EQ)) { if (op==AND||op==OR||op==XOR) return raw(op,w,a,b); }
	if (commut(op)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
	u128 M = maskw(w);
	bool bc = b->isConst();
	switch (op) {
	case ADD:
		if (bc) {
			if (b->c == 0) return a;
			if (a->op == ADD && a->k[1]->isConst()) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
			if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
		}
		else {
			if (a->op == ADD && a->k[1]->isConst()) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
			if (b->op == ADD && b->k[1]->isConst()) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
			if (a->op == SUB && a->k[1] == b) return a->k[0];
			if (b->op == SUB && b->k[1] == a) return b->k[0];
		}
		break;
	case SUB:
		if (a == b) return mkConst(0, w);
		if (bc) return mkBin(ADD, a, mkConst((~b->c + 1) & M, w));
		if (a->op == ADD) {
			if (a->k[0] == b) return a->k[1];
			if (a->k[1] == b) return a->k[0];
			if (a->k[1]->isConst()) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
		}
		if (b->op == ADD && b->k[1]->isConst()) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst((~b->k[1]->c + 1) & M, w));
		break;
	case MUL:
		if (bc) {
			if (b->c == 0) return b;
			if (b->c == 1) return a;
			if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (((u128)1 << n) != b->c) n++; return mkBin(SHL, a, mkConst(n, w)); }
		}
		break;
	case UDIV:
		if (bc && b->c == 1) return a;
		if (bc && b->c && (b->c & (b->c - 1)) == 0) { unsigned n = 0; while (((u128)1 << n) != b->c) n++; return mkBin(LSHR, a, mkConst(n, w)); }
		if (bc && w <= 64) { u64 mx = std::max(a->hi, (u64)b->c); unsigned n = mx ? 64 - __builtin_clzll(mx) : 1; if (n < w) return mkZext(mkBin(op, mkExtract(a, 0, n), mkConst(b->c, n)), w); }
		break;
	case SDIV:
		if (bc && b->c == 1) return a;
		if (w <= 64 && a->hi <= (u64)(M >> 1) && b->hi <= (u64)(M >> 1)) return mkBin(UDIV, a, b);
		break;
	case UREM:
		if (bc && b->c == 1) return mkConst(0, w);
		if (bc && w <= 64 && b->lo > 0 && a->lo / b->lo == a->hi / b->lo) return mkBin(SUB, a, mkConst(a->lo / b->lo * b->lo, w));
		if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkConst(b->c - 1, w));
		if (bc && w <= 64) { u64 mx = std::max(a->hi, (u64)b->c); unsigned n = mx ? 64 - __builtin_clzll(mx) : 1; if (n < w) return mkZext(mkBin(op, mkExtract(a, 0, n), mkConst(b->c, n)), w); }
		break;
	case SREM:
		if (bc && b->c == 1) return mkConst(0, w);
		if (w <= 64 && a->hi <= (u64)(M >> 1) && b->hi <= (u64)(M >> 1)) return mkBin(UREM, a, b);
		break;
	case AND:
		if (a == b) return a;
		if (bc) {
			if (b->c == 0) return b;
			if (b->c == M) return a;
			if (w <= 64 && (b->c & (b->c + 1)) == 0 && a->hi <= (u64)b->c) return a;
			if ((b->c & (b->c + 1)) == 0 && w <= 128) { unsigned n = 0; while ((((u128)1 << n) - 1) != b->c) n++; return mkZext(mkExtract(a, 0, n), w); }
			if (a->op == AND && a->k[1]->isConst()) return mkBin(AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
		}
		if (w == 1) { if (a->op == XOR && a->k[0] == b && a->k[1]->isConst()) return mkConst(0, 1); if (b->op == XOR && b->k[0] == a && b->k[1]->isConst()) return mkConst(0, 1); }
		break;
	case OR:
		if (a == b) return a;
		if (bc) { if (b->c == 0) return a; if (b->c == M) return b; }
		if (w == 1) { if (a->op == XOR && a->k[0] == b && a->k[1]->isConst()) return mkConst(1, 1); if (b->op == XOR && b->k[0] == a && b->k[1]->isConst()) return mkConst(1, 1); }
		// disjoint pieces: zext(x) | (y << n)
		if (w <= 64) {
			E x = a, y = b;
			for (int t = 0; t < 2; t++, std::swap(x, y)) {
				uint32_t n = y->tz;
				if (n > 0 && n < w && x->hi <= (u64)maskw(n)) return mkConcat(mkExtract(y, n, w - n), mkExtract(x, 0, n));
			}
		}
		break;
	case XOR:
		if (a == b) return mkConst(0, w);
		if (bc) { if (b->c == 0) return a; if (a->op == XOR && a->k[1]->isConst()) return mkBin(XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); }
		if (w == 1 && bc && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(XOR, a->k[1], b), mkBin(XOR, a->k[2], b));
		break;
	case SHL:
		if (bc) {
			if (b->c == 0) return a;
			if (b->c >= w) return mkConst(0, w);
			unsigned n = (unsigned)b->c;
			return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
		}
		break;
	case LSHR:
		if (bc) {
			if (b->c == 0) return a;
			if (b->c >= w) return mkConst(0, w);
			unsigned n = (unsigned)b->c;
			return mkZext(mkExtract(a, n, w - n), w);
		}
		break;
	case ASHR:
		if (bc) {
			if (b->c == 0) return a;
			unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
			return mkSext(mkExtract(a, n, w - n), w);
		}
		break;
	case EQ:
		if (a == b) return mkBool(true);
		if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkBool(false);
		if (w == 1 && bc) return b->c ? a : mkNot(a);
		if (bc) {
			if (a->op == ZEXT) { if (a->k[0]->w < 128 && (b->c >> a->k[0]->w) != 0) return mkBool(false); return mkEq(a->k[0], mkConst(b->c, a->k[0]->w)); }
			if (a->op == SEXT) {
				u128 low = b->c & maskw(a->k[0]->w);
				if (((u128)sextw(low, a->k[0]->w) & M) != b->c) return mkBool(false);
				return mkEq(a->k[0], mkConst(low, a->k[0]->w));
			}
			if (a->op == ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkConst((b->c - a->k[1]->c) & M, w));
			if (a->op == XOR && a->k[1]->isConst()) return mkEq(a->k[0], mkConst((b->c ^ a->k[1]->c) & M, w));
			if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) {
				bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
				if (t && f) return mkBool(true);
				if (t) return a->k[0];
				if (f) return mkNot(a->k[0]);
				return mkBool(false);
			}
			if (a->op == CONCAT && w <= 128) return mkAnd(mkEq(a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)), mkEq(a->k[1], mkConst(b->c, a->k[1]->w)));
			if (a->op == SUB && b->c == 0) return mkEq(a->k[0], a->k[1]);
		}
		if ((a->op == ZEXT && b->op == ZEXT) || (a->op == SEXT && b->op == SEXT)) if (a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
		if (a->op == CONCAT && b->op == CONCAT && a->k[0]->w == b->k[0]->w) return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
		break;
	case ULT:
		if (a == b) return mkBool(false);
		if (w <= 64) { if (a->hi < b->lo) return mkBool(true); if (a->lo >= b->hi) return mkBool(false); }
		if (bc && b->c == 1) return mkEq(a, mkConst(0, w));
		if (a->isConst() && a->c == 0) return mkNot(mkEq(b, a));
		if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULT, a->k[0], b->k[0]);
		if (a->op == ZEXT && bc && w <= 64) return mkBin(ULT, a->k[0], mkConst(b->c, a->k[0]->w));
		if (b->op == ZEXT && a->isConst() && w <= 64) return mkBin(ULT, mkConst(a->c, b->k[0]->w), b->k[0]);
		break;
	case ULE:
		return mkNot(mkBin(ULT, b, a));
	case SLT:
		if (a == b) return mkBool(false);
		if (w <= 64) {
			u64 H = (u64)(M >> 1);
			if (a->hi <= H && b->hi <= H) return mkBin(ULT, a, b);
			if (a->lo > H && b->lo > H) return mkBin(ULT, a, b);
			if (a->hi <= H && b->lo > H) return mkBool(false);
			if (a->lo > H && b->hi <= H) return mkBool(true);
		}
		if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(SLT, a->k[0], b->k[0]);
		if (a->op == SEXT && bc) { i128 s = sextw(b->c, w); uint32_t kw = a->k[0]->w; if (s >= sextw((u128)1 << (kw - 1), kw) && s <= (i128)maskw(kw - 1)) return mkBin(SLT, a->k[0], mkConst((u128)s, kw)); }
		if (b->op == SEXT && a->isConst()) { i128 s = sextw(a->c, w); uint32_t kw = b->k[0]->w; if (s >= sextw((u128)1 << (kw - 1), kw) && s <= (i128)maskw(kw - 1)) return mkBin(SLT, mkConst((u128)s, kw), b->k[0]); }
		break;
	case SLE:
		return mkNot(mkBin(SLT, b, a));
	default: break;
	}
	return raw(op, isCmp(op) ? 1 : w, a, b);
}

E mkIte(E c, E a, E b) {
	if (c->isConst()) return c->c ? a : b;
	if (a == b) return a;
	assert(a->w == b->w);
	if (a->w == 1) {
		if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
		if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
		if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
	}
	if (c->op == XOR && c->k[1]->isConst()) return mkIte(c->k[0], b, a);
	if (a->op == ITE && a->k[0] == c) a = a->k[1];
	if (b->op == ITE && b->k[0] == c) b = b->k[2];
	if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
	if (a == b) return a;
	return raw(ITE, a->w, c, a, b);
}

E mkExtract(E a, uint32_t lo, uint32_t w) {
	assert(lo + w <= a->w && w > 0);
	if (w == a->w) return a;
	if (a->isConst()) return mkConst(a->c >> lo, w);
	switch (a->op) {
	case EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
	case CONCAT: {
		uint32_t lw = a->k[1]->w;
		if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
		if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
		return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
	}
	case ZEXT: {
		uint32_t kw = a->k[0]->w;
		if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
		if (lo >= kw) return mkConst(0, w);
		return mkZext(mkExtract(a->k[0], lo, kw - lo), w);
	}
	case SEXT: {
		uint32_t kw = a->k[0]->w;
		if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
		if (lo == 0) return mkSext(a->k[0], w);
		if (lo < kw) return mkSext(mkExtract(a->k[0], lo, kw - lo), w);
		break;
	}
	case AND: case OR: case XOR:
		return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
	case ADD: case SUB: case MUL:
		if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		break;
	case ITE:
		if ((a->k[1]->isConst() || a->k[2]->isConst()) || w == 8 || w == 1) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
		break;
	default: break;
	}
	return raw(EXTRACT, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
	uint32_t w = hi->w + lo->w;
	if (hi->isConst() && lo->isConst() && w <= 128) return mkConst((hi->c << lo->w) | lo->c, w);
	if (hi->isConst() && hi->c == 0 && w <= 128) return mkZext(lo, w);
	if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
	if (hi->op == EXTRACT && hi->k[0] == lo && hi->aux == lo->w) return mkExtract(lo, 0, w); // (only when lo is wider - unreachable)
	if (lo->op == CONCAT) {
		E lh = lo->k[0];
		if (hi->op == EXTRACT && lh->op == EXTRACT && hi->k[0] == lh->k[0] && hi->aux == lh->aux + lh->w) return mkConcat(mkConcat(hi, lh), lo->k[1]);
		if (hi->isConst() && lh->isConst() && hi->w + lh->w <= 128) return mkConcat(mkConcat(hi, lh), lo->k[1]);
	}
	// sign/zero-extension recombination: hi is the zero part of zext
	if (lo->op == ITE && hi->op == ITE && lo->k[0] == hi->k[0]) return mkIte(lo->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
	if (lo->op == ITE && hi->isConst()) { if (lo->k[1]->isConst() && lo->k[2]->isConst()) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2])); }
	if (hi->op == ITE && lo->isConst()) { if (hi->k[1]->isConst() && hi->k[2]->isConst()) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo)); }
	return raw(CONCAT, w, hi, lo);
}
E mkZext(E a, uint32_t w) {
	if (a->w == w) return a;
	assert(w > a->w);
	if (a->isConst()) return mkConst(a->c, w);
	if (a->op == ZEXT) return mkZext(a->k[0], w);
	if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
	return raw(ZEXT, w, a);
}
E mkSext(E a, uint32_t w) {
	if (a->w == w) return a;
	assert(w > a->w);
	if (a->isConst()) return mkConst((u128)sextw(a->c, a->w), w);
	if (a->op == SEXT) return mkSext(a->k[0], w);
	if (a->op == ZEXT) return mkZext(a->k[0], w);
	if (a->w <= 64 && a->hi <= (u64)maskw(a->w - 1)) return mkZext(a, w);
	if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
	return raw(SEXT, w, a);
}
E mkCast(Op op, E a, uint32_t w) {
	if (a->isConst()) return mkConst(foldCast(op, a->c, a->w, w), w);
	return raw(op, w, a);
}

static uint32_t gEpoch = 0;
static u128 ev(E e, const Model& m) {
	if (e->op == CONST) return e->c;
	if (e->epoch == gEpoch) return e->val;
	u128 r;
	switch (e->op) {
	case VAR: r = m.get(e->aux) & maskw(e->w); break;
	case ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
	case CONCAT: r = e->w > 128 ? ev(e->k[1], m) : (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
	case EXTRACT: r = (ev(e->k[0], m) >> e->aux) & maskw(e->w); break;
	case ZEXT: r = ev(e->k[0], m); break;
	case SEXT: r = (u128)sextw(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
	case FSQRT: case FPTOSI: case FPTOUI: case SITOFP: case UITOFP: case FPEXT: case FPTRUNC:
		r = foldCast(e->op, ev(e->k[0], m), e->k[0]->w, e->w); break;
	default: r = foldBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w); break;
	}
	e->epoch = gEpoch; e->val = r;
	return r;
}
u128 evalExpr(E e, const Model& m) { gEpoch++; return ev(e, m); }

// ---------------------------------------------------------------- Z3
static Z3_context ctx = nullptr;
static Z3_sort fp64, fp32;
static Z3_ast rne, rtz;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static void initZ3() {
	if (ctx) return;
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);	// terms live as long as the process
	Z3_del_config(cfg);
	Z3_set_error_handler(ctx, zerr);
	fp64 = Z3_mk_fpa_sort_double(ctx); Z3_inc_ref(ctx, (Z3_ast)fp64);
	fp32 = Z3_mk_fpa_sort_single(ctx); Z3_inc_ref(ctx, (Z3_ast)fp32);
	rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
	rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
}
static Z3_ast keep(E e, Z3_ast a) { Z3_inc_ref(ctx, a); e->z = a; return a; }
static Z3_ast zconst(u128 v, uint32_t w) {
	if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
	Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
	Z3_inc_ref(ctx, h);
	Z3_ast l = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
	Z3_inc_ref(ctx, l);
	Z3_ast r = Z3_mk_concat(ctx, h, l);
	return r;
}
static Z3_ast tz3(E e);
static Z3_ast tbool(E e) { // 1-bit as Bool
	if (e->op == CONST) return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
	Z3_ast a = e->nk > 0 ? nullptr : nullptr; (void)a;
	switch (e->op) {
	case EQ: if (e->k[0]->w == 1) return Z3_mk_iff(ctx, tbool(e->k[0]), tbool(e->k[1])); return Z3_mk_eq(ctx, tz3(e->k[0]), tz3(e->k[1]));
	default: break;
	}
	return tz3(e);
}
// Floating point operations are kept in the FP sort between each other; only what is used as bits goes through to_ieee_bv.
static std::unordered_map<E, Z3_ast> fpCache;
static Z3_ast bvOf(E e);
static Z3_ast toFP(E e) {
	auto it = fpCache.find(e);
	if (it != fpCache.end()) return it->second;
	Z3_sort so = e->w == 64 ? fp64 : fp32; Z3_ast r;
	switch (e->op) {
	case FADD: r = Z3_mk_fpa_add(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
	case FSUB: r = Z3_mk_fpa_sub(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
	case FMUL: r = Z3_mk_fpa_mul(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
	case FDIV: r = Z3_mk_fpa_div(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
	case FREM: r = Z3_mk_fpa_rem(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
	case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, toFP(e->k[0])); break;
	case SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, bvOf(e->k[0]), so); break;
	case UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bvOf(e->k[0]), so); break;
	case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, toFP(e->k[0]), so); break;
	case ITE: r = Z3_mk_ite(ctx, tz3(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break;
	default: r = Z3_mk_fpa_to_fp_bv(ctx, tz3(e), so);
	}
	Z3_inc_ref(ctx, r);
	return fpCache[e] = r;
}
// 1-bit expressions are translated to Bool, everything else to BitVec.
static Z3_ast b2v(E e) { // 1-bit expr as BV1
	Z3_ast b = tz3(e);
	Z3_ast r = Z3_mk_ite(ctx, b, zconst(1, 1), zconst(0, 1));
	Z3_inc_ref(ctx, r);
	return r;
}
static Z3_ast bvOf(E e) { return e->w == 1 ? b2v(e) : tz3(e); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(ctx, v, zconst(1, 1)); }
static Z3_ast inc(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
// x / d and x % d for a constant d: fresh q, r with x = q * d + r, r < d (asserted in every
// query in which the expression occurs), in as few bits as the range of x allows
static bool divByConst(E e) { return (e->op == UDIV || e->op == UREM) && e->w <= 64 && e->w > 1 && e->k[1]->isConst() && e->k[1]->c > 1 && e->k[0]->hi < ~0ull / 2 && e->k[1]->lo < (1ull << 62); }
static unsigned bitsOf(u64 v) { return v ? 64 - __builtin_clzll(v) : 1; }
struct DivRec { Z3_ast q, r; unsigned qw, rw; std::vector<Z3_ast> side; };
static std::map<std::pair<uint32_t, u64>, DivRec> divRecs;
static Z3_ast tz3(E e);
static DivRec& divRec(E e) {
	E x = e->k[0]; u64 d = (u64)e->k[1]->c;
	auto key = std::make_pair((uint32_t)x->id, d);
	auto it = divRecs.find(key);
	if (it != divRecs.end()) return it->second;
	DivRec R;
	u64 qmax = x->hi / d;
	R.qw = bitsOf(qmax); R.rw = bitsOf(std::min(d - 1, x->hi));
	unsigned W = bitsOf(x->hi + d); if (W < R.qw) W = R.qw; if (W < R.rw) W = R.rw; if (W < bitsOf(d)) W = bitsOf(d);
	R.q = inc(Z3_mk_fresh_const(ctx, "q", Z3_mk_bv_sort(ctx, R.qw)));
	R.r = inc(Z3_mk_fresh_const(ctx, "r", Z3_mk_bv_sort(ctx, R.rw)));
	Z3_ast xz = tz3(x);
	Z3_ast xw = inc(x->w > W ? Z3_mk_extract(ctx, W - 1, 0, xz) : Z3_mk_zero_ext(ctx, W - x->w, xz));
	Z3_ast qz = inc(Z3_mk_zero_ext(ctx, W - R.qw, R.q)), rz = inc(Z3_mk_zero_ext(ctx, W - R.rw, R.r));
	Z3_ast dz = inc(Z3_mk_unsigned_int64(ctx, d, Z3_mk_bv_sort(ctx, W)));
	Z3_ast m = inc(Z3_mk_bvmul(ctx, qz, dz));
	Z3_ast sum = inc(Z3_mk_bvadd(ctx, m, rz));
	R.side.push_back(inc(Z3_mk_eq(ctx, sum, xw)));
	R.side.push_back(inc(Z3_mk_bvult(ctx, rz, dz)));
	R.side.push_back(inc(Z3_mk_bvule(ctx, R.q, inc(Z3_mk_unsigned_int64(ctx, qmax, Z3_mk_bv_sort(ctx, R.qw))))));
	return divRecs.emplace(key, std::move(R)).first->second;
}
static Z3_ast tdiv(E e) {
	DivRec& R = divRec(e);
	Z3_ast v = e->op == UDIV ? R.q : R.r; unsigned w = e->op == UDIV ? R.qw : R.rw;
	if (w == e->w) return v;
	return w < e->w ? Z3_mk_zero_ext(ctx, e->w - w, v) : Z3_mk_extract(ctx, e->w - 1, 0, v);
}
static std::unordered_map<u64, bool> divMemo;
static bool exprHasDiv(E e) {
	if (e->nk == 0) return false;
	if (divByConst(e)) return true;
	auto it = divMemo.find(e->id);
	if (it != divMemo.end()) return it->second;
	bool r = false;
	for (int i = 0; i < e->nk && !r; i++) r = exprHasDiv(e->k[i]);
	if (divMemo.size() > 4000000) divMemo.clear();
	divMemo[e->id] = r;
	return r;
}
static void divSides(E e, std::unordered_set<u64>& seen, std::vector<Z3_ast>& out) {
	if (!exprHasDiv(e) || !seen.insert(e->id).second) return;
	if (divByConst(e)) for (auto s : divRec(e).side) out.push_back(s);
	for (int i = 0; i < e->nk; i++) divSides(e->k[i], seen, out);
}
static Z3_ast tz3(E e) {
	if (e->z) return e->z;
	bool bl = e->w == 1;
	switch (e->op) {
	case CONST: return keep(e, bl ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : zconst(e->c, e->w));
	case VAR: {
		Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->aux);
		return keep(e, Z3_mk_const(ctx, s, bl ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)));
	}
	case AND: case OR: case XOR: {
		Z3_ast a = tz3(e->k[0]), b = tz3(e->k[1]);
		if (bl) {
			Z3_ast ab[2] = { a, b };
			if (e->op == AND) return keep(e, Z3_mk_and(ctx, 2, ab));
			if (e->op == OR) return keep(e, Z3_mk_or(ctx, 2, ab));
			if (e->k[1]->isConst()) return keep(e, e->k[1]->c ? Z3_mk_not(ctx, a) : a);
			return keep(e, Z3_mk_xor(ctx, a, b));
		}
		return keep(e, e->op == AND ? Z3_mk_bvand(ctx, a, b) : e->op == OR ? Z3_mk_bvor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b));
	}
	case EQ: return keep(e, Z3_mk_eq(ctx, tz3(e->k[0]), tz3(e->k[1])));
	case ULT: return keep(e, Z3_mk_bvult(ctx, bvOf(e->k[0]), bvOf(e->k[1])));
	case ULE: return keep(e, Z3_mk_bvule(ctx, bvOf(e->k[0]), bvOf(e->k[1])));
	case SLT: return keep(e, Z3_mk_bvslt(ctx, bvOf(e->k[0]), bvOf(e->k[1])));
	case SLE: return keep(e, Z3_mk_bvsle(ctx, bvOf(e->k[0]), bvOf(e->k[1])));
	case ITE: return keep(e, Z3_mk_ite(ctx, tz3(e->k[0]), tz3(e->k[1]), tz3(e->k[2])));
	case CONCAT: return keep(e, Z3_mk_concat(ctx, bvOf(e->k[0]), bvOf(e->k[1])));
	case EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bvOf(e->k[0])); if (bl) { Z3_inc_ref(ctx, x); return keep(e, v2b(x)); } return keep(e, x); }
	case ZEXT: return keep(e, Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, bvOf(e->k[0])));
	case SEXT: return keep(e, Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, bvOf(e->k[0])));
	case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FSQRT: case SITOFP: case UITOFP: case FPEXT: case FPTRUNC: return keep(e, Z3_mk_fpa_to_ieee_bv(ctx, toFP(e)));
	case FEQ: return keep(e, Z3_mk_fpa_eq(ctx, toFP(e->k[0]), toFP(e->k[1])));
	case FLT: return keep(e, Z3_mk_fpa_lt(ctx, toFP(e->k[0]), toFP(e->k[1])));
	case FLE: return keep(e, Z3_mk_fpa_leq(ctx, toFP(e->k[0]), toFP(e->k[1])));
	case FUNO: { Z3_ast ab[2] = { Z3_mk_fpa_is_nan(ctx, toFP(e->k[0])), nullptr }; Z3_inc_ref(ctx, ab[0]); ab[1] = Z3_mk_fpa_is_nan(ctx, toFP(e->k[1])); Z3_inc_ref(ctx, ab[1]); return keep(e, Z3_mk_or(ctx, 2, ab)); }
	case FPTOSI: return keep(e, Z3_mk_fpa_to_sbv(ctx, rtz, toFP(e->k[0]), e->w));
	case FPTOUI: return keep(e, Z3_mk_fpa_to_ubv(ctx, rtz, toFP(e->k[0]), e->w));
	default: break;
	}
	if (divByConst(e)) return keep(e, tdiv(e));
	Z3_ast a = bvOf(e->k[0]), b = bvOf(e->k[1]), r = nullptr;
	switch (e->op) {
	case ADD: r = Z3_mk_bvadd(ctx, a, b); break;
	case SUB: r = Z3_mk_bvsub(ctx, a, b); break;
	case MUL: r = Z3_mk_bvmul(ctx, a, b); break;
	case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
	case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
	case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
	case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
	case SHL: r = Z3_mk_bvshl(ctx, a, b); break;
	case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
	case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
	default: fprintf(stderr, "tz3: op %d\n", e->op); abort();
	}
	if (bl) { Z3_inc_ref(ctx, r); r = v2b(r); }
	return keep(e, r);
}

static std::unordered_map<u64, bool> fpMemo;
bool exprHasFP(E e) {
	if (e->op >= FADD) return true;
	if (e->nk == 0) return false;
	auto it = fpMemo.find(e->id);
	if (it != fpMemo.end()) return it->second;
	bool r = false;
	for (int i = 0; i < e->nk && !r; i++) r = exprHasFP(e->k[i]);
	fpMemo[e->id] = r;
	return r;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct CacheEntry { Res r; std::vector<std::pair<uint32_t, u64>> m; };
static std::map<std::vector<uint32_t>, CacheEntry> qcache;

static Z3_solver bvSolver = nullptr, fpSolver = nullptr;
static unsigned bvUses = 0;

Res solve(const std::vector<E>& cons, E e, const Model& base, Model* out, unsigned timeoutMs) {
	if (e->isConst() && e->c == 0) return UNSAT;
	// independent slice
	VarSet need = *e->vars;
	std::vector<E> slice; slice.reserve(cons.size());
	std::vector<char> used(cons.size(), 0);
	bool ch = true;
	std::unordered_set<uint32_t> ns(need.begin(), need.end());
	while (ch) {
		ch = false;
		for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
			bool hit = false;
			for (auto v : *cons[i]->vars) if (ns.count(v)) { hit = true; break; }
			if (hit) { used[i] = 1; slice.push_back(cons[i]); for (auto v : *cons[i]->vars) if (ns.insert(v).second) ch = true; }
		}
	}
	std::vector<uint32_t> key; key.reserve(slice.size() + 1);
	for (auto s : slice) key.push_back(s->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(e->id);
	auto it = qcache.find(key);
	if (it != qcache.end()) {
		gS.cacheHits++;
		if (it->second.r == SAT && out) { *out = base; for (auto& p : it->second.m) out->v[p.first] = p.second; }
		return it->second.r;
	}
	initZ3();
	gS.queries++;
	double t0 = now();
	bool fp = exprHasFP(e);
	for (auto s : slice) fp = fp || exprHasFP(s);
	Z3_solver s;
	if (fp) {
		Z3_tactic t = Z3_mk_tactic(ctx, "qffp"); Z3_tactic_inc_ref(ctx, t);
		s = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, s); Z3_tactic_dec_ref(ctx, t);
	}
	else {
		if (!bvSolver || bvUses > 2000) {
			if (bvSolver) Z3_solver_dec_ref(ctx, bvSolver);
			bvSolver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, bvSolver);
			bvUses = 0;
		}
		bvUses++;
		s = bvSolver;
		Z3_solver_reset(ctx, s);
	}
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
	Z3_solver_set_params(ctx, s, p);
	Z3_params_dec_ref(ctx, p);
	for (auto c : slice) Z3_solver_assert(ctx, s, tz3(c));
	Z3_solver_assert(ctx, s, tz3(e));
	{
		std::unordered_set<u64> seen; std::vector<Z3_ast> sides;
		for (auto c : slice) divSides(c, seen, sides);
		divSides(e, seen, sides);
		std::sort(sides.begin(), sides.end()); sides.erase(std::unique(sides.begin(), sides.end()), sides.end());
		for (auto c : sides) Z3_solver_assert(ctx, s, c);
		for (auto v : ns) if (gVars[v].w <= 64 && gVars[v].hi < (u64)maskw(gVars[v].w)) {
			Z3_sort bs = Z3_mk_bv_sort(ctx, gVars[v].w);
			Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), bs), Z3_mk_unsigned_int64(ctx, gVars[v].hi, bs)));
		}
	}
	Z3_lbool r = Z3_solver_check(ctx, s);
	CacheEntry ce;
	ce.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
	if (ce.r == SAT) {
		Z3_model m = Z3_solver_get_model(ctx, s);
		Z3_model_inc_ref(ctx, m);
		Model mm = base;
		for (auto v : ns) {
			// find the variable's ast by re-making it (hash-consed in Z3)
			bool bl = gVars[v].w == 1;
			Z3_ast va = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), bl ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, gVars[v].w));
			Z3_inc_ref(ctx, va);
			Z3_ast val;
			u64 x = 0;
			if (Z3_model_eval(ctx, m, va, true, &val)) {
				Z3_inc_ref(ctx, val);
				if (bl) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
				else { uint64_t t = 0; Z3_get_numeral_uint64(ctx, val, &t); x = t; }
				Z3_dec_ref(ctx, val);
			}
			Z3_dec_ref(ctx, va);
			ce.m.push_back({ v, x });
			mm.v[v] = x;
		}
		Z3_model_dec_ref(ctx, m);
		// the model is re-checked by an independent evaluator
		gEpoch++;
		bool ok = ev(e, mm) != 0;
		for (auto c : slice) ok = ok && ev(c, mm) != 0;
		if (!ok) {
			fprintf(stderr, "abcsym: model does not evaluate (solver/evaluator disagreement): %s\n", exprStr(e).c_str());
			ce.r = UNKNOWN;
		}
		else if (out) *out = mm;
	}
	double dt = now() - t0;
	gS.time += dt; if (dt > gS.maxq) gS.maxq = dt;
	if (ce.r == UNKNOWN && getenv("ABCSYM_DUMP")) { fprintf(stderr, "UNKNOWN: %s\n", Z3_solver_to_string(ctx, s)); }
	if (ce.r == SAT) gS.sat++; else if (ce.r == UNSAT) gS.unsat++; else gS.unknown++;
	if (fp) Z3_solver_dec_ref(ctx, s);
	if (ce.r != UNKNOWN) { if (qcache.size() > 400000) qcache.clear(); qcache.emplace(std::move(key), ce); }
	return ce.r;
}

std::string exprStr(E e, int d) {
	static const char* n[] = { "const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","feq","flt","fle","funo","fsqrt","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc" };
	if (e->op == CONST) { char b[40]; snprintf(b, sizeof b, "%llu", (unsigned long long)e->c); return b; }
	if (e->op == VAR) return gVars[e->aux].name;
	if (d == 0) return "..";
	std::string s = "("; s += n[e->op];
	if (e->op == EXTRACT) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->w);
	for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
	return s + ")";
}
