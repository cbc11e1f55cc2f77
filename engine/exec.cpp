// abcsym - a symbolic executor for LLVM IR, deciding branches, memory safety and
// assertions with Z3.  Forks on symbolic branches; exhaustive within the harness bounds.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <cxxabi.h>
#include <set>
#include <deque>
#include <functional>
#include <unordered_set>

using namespace llvm;

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------ options
static std::string optOut, optEntry, optModule, optCovPrefix = "/repo/";
static u64 optMaxSteps = 3000000;
static unsigned optJobs = 8;
static double optTime = 300;
static unsigned optQTimeout = 60000;
static unsigned optMaxErr = 3, optSamples = 2;
static double optGrace = 40;
static bool optTrace = false, optUninitZero = false;

// ------------------------------------------------------------ memory
static const u64 STRIDE_BITS = 24;
static const u64 HEAP_BASE = 0x100000000000ull;
static const u64 STACK_BASE = 0x200000000000ull;
static const u64 FUNC_BASE = 0x300000000000ull;
static const u64 CO_STACK_IDS = 1 << 16;

struct Obj {
	int rc = 0;
	uint32_t size = 0;
	bool ro = false;
	uint8_t kind = 0;		// 0 global 1 stack 2 malloc 3 new 4 new[] 5 mmap 6 exception
	std::vector<uint8_t> conc;		// concrete bytes
	std::vector<uint8_t> st;		// per byte state: 0 concrete, 1 symbolic, 2 uninitialised (empty: all concrete)
	std::vector<E> sym;
	void needState() { if (st.empty()) { st.assign(size, 0); } }
	void needSym() { needState(); if (sym.empty()) sym.assign(size, nullptr); }
};
struct ObjP {
	Obj* p = nullptr;
	ObjP() {}
	explicit ObjP(Obj* o) : p(o) { if (p) p->rc++; }
	ObjP(const ObjP& o) : p(o.p) { if (p) p->rc++; }
	ObjP& operator=(const ObjP& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
	~ObjP() { drop(); }
	void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
struct Chunk { int rc = 0; ObjP o[64]; };
struct ChunkP {
	Chunk* p = nullptr;
	ChunkP() {}
	ChunkP(const ChunkP& o) : p(o.p) { if (p) p->rc++; }
	ChunkP& operator=(const ChunkP& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
	~ChunkP() { drop(); }
	void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
struct Space {
	std::vector<ChunkP> chunks;
	Obj* get(u64 id) const {
		u64 c = id >> 6;
		if (c >= chunks.size() || !chunks[c].p) return nullptr;
		return chunks[c].p->o[id & 63].p;
	}
	ObjP& slot(u64 id) {
		u64 c = id >> 6;
		if (c >= chunks.size()) chunks.resize(c + 1);
		ChunkP& ch = chunks[c];
		if (!ch.p) { ch.p = new Chunk; ch.p->rc = 1; }
		else if (ch.p->rc > 1) { Chunk* n = new Chunk(*ch.p); n->rc = 1; ch.p->rc--; ch.p = n; }
		return ch.p->o[id & 63];
	}
	Obj* getW(u64 id) {
		ObjP& s = slot(id);
		if (!s.p) return nullptr;
		if (s.p->rc > 1) { Obj* n = new Obj(*s.p); n->rc = 0; s = ObjP(n); }
		return s.p;
	}
};

// ------------------------------------------------------------ code
struct FInfo {
	Function* F;
	DenseMap<const Value*, unsigned> idx;
	unsigned n = 0;
};
static std::unordered_map<const Function*, FInfo*> finfos;
static Module* M;
static const DataLayout* DL;

static FInfo* finfo(Function* F) {
	auto& p = finfos[F];
	if (!p) {
		p = new FInfo; p->F = F;
		for (auto& a : F->args()) p->idx[&a] = p->n++;
		for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
	}
	return p;
}

struct Frame {
	FInfo* fi;
	BasicBlock* bb; BasicBlock::iterator pc; BasicBlock* prev;
	std::vector<E> regs;
	std::vector<u64> allocas;
	std::vector<E> varargs;
	CallBase* caller = nullptr;
	u64 excPtr = 0, excType = 0; int excSel = 0;
};
struct Exc { u64 ptr, type; int handlers; };
struct Stack { std::vector<Frame> fr; std::vector<Exc> caught; u64 stackNext = 0; bool done = false; };
struct SymRec { std::string name; std::vector<E> e; };

struct State {
	std::vector<Stack> co; int cur = 0;
	Space heap, stk;
	u64 heapNext;
	std::vector<E> cons;
	ModelP model;
	std::vector<SymRec> syms;
	u64 steps = 0; u64 forks = 0;
	std::map<u64, std::pair<u64, u64>> excMeta; // exception object -> (typeinfo, dtor)
	std::unordered_map<std::string, int> symCount;
	std::vector<std::pair<std::string, E>> obs; // reach marks and printed values, in order
	Stack& S() { return co[cur]; }
	Frame& F() { return co[cur].fr.back(); }
};

static std::vector<State*> work;
static std::unordered_map<const Value*, u64> gaddr;		// globals and functions
static std::unordered_map<u64, Function*> faddr;
static std::unordered_map<u64, std::string> gname;
static std::unordered_map<std::string, Function*> defFn;

struct ErrRec { std::string kind, msg, loc, func, stack; std::vector<std::pair<std::string, std::vector<u64>>> inputs; };
static std::vector<ErrRec> gErrs;
static std::map<std::string, int> errCount;

// ------------------------------------------------------------ statistics
struct Stats { u64 paths = 0, killed = 0, steps = 0, forks = 0, errPaths = 0, bounded = 0, asserts = 0, assumeKilled = 0, unknownBranch = 0, memChecks = 0; } gStat;
static std::set<std::string> gCovered, gReach, gUnsupported;
static std::unordered_set<const BasicBlock*> seenBB;
static std::unordered_map<std::string, u64> gSites;

struct Shared { volatile int active; volatile int nextId; volatile int stop; volatile int cores; volatile double errTime; };
static Shared* sh;
static double tStart;

static std::string dem(const std::string& s) { int st; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); if (!d) return s; std::string r(d); free(d); return r; }

static std::string locOf(const Instruction* I, std::string* fn = nullptr) {
	if (!I) return "?";
	const DILocation* L = I->getDebugLoc().get();
	if (!L) { if (fn) *fn = dem(I->getFunction()->getName().str()); return dem(I->getFunction()->getName().str()); }
	if (fn) { auto sp = L->getScope()->getSubprogram(); *fn = sp ? dem(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "?"; }
	std::string f = L->getFilename().str();
	return f + ":" + std::to_string(L->getLine());
}
static void cover(BasicBlock* bb) {
	if (!seenBB.insert(bb).second) return;
	for (auto& I : *bb) {
		const DILocation* L = I.getDebugLoc().get();
		while (L) {
			auto sp = L->getScope()->getSubprogram();
			std::string f = L->getFilename().str(), d = L->getDirectory().str();
			if (!f.empty() && f[0] != '/') f = d + "/" + f;
			if (sp && f.find(optCovPrefix) != std::string::npos) gCovered.insert(dem(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()));
			L = L->getInlinedAt();
		}
	}
}

// ------------------------------------------------------------ state helpers
static void endPath(State* s) { delete s; }

static std::string stackStr(State& s) {
	std::string r;
	auto& fr = s.S().fr;
	int n = 0;
	for (size_t i = fr.size(); i-- > 0 && n < 14; n++) {
		BasicBlock::iterator it = fr[i].pc;
		const Instruction* I = it != fr[i].bb->end() ? &*it : nullptr;
		std::string fn; std::string l = locOf(I, &fn);
		r += "  #" + std::to_string(n) + " " + fn.substr(0, 160) + " @ " + l + "\n";
	}
	return r;
}

static void report(State& s, const std::string& kind, const std::string& msg, const Model* m) {
	gStat.errPaths++;
	auto& fr = s.S().fr;
	std::string fn, loc = "?";
	if (!fr.empty()) { auto& f = fr.back(); if (f.pc != f.bb->end()) loc = locOf(&*f.pc, &fn); }
	std::string key = kind + "|" + msg.substr(0, 60) + "|" + loc;
	if (errCount[key]++ >= (int)optMaxErr) return;
	if (kind != "unsupported" && msg.compare(0, 3, "[KF") != 0 && sh->errTime == 0) sh->errTime = nowS();
	ErrRec e; e.kind = kind; e.msg = msg; e.loc = loc; e.func = fn; e.stack = stackStr(s);
	const Model& mm = m ? *m : *s.model;
	for (auto& r : s.syms) {
		std::vector<u64> v;
		for (auto x : r.e) v.push_back((u64)evalExpr(x, mm));
		e.inputs.push_back({ r.name, v });
	}
	gErrs.push_back(e);
	if (optTrace) { fprintf(stderr, "ERROR %s: %s at %s in %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), fn.c_str(), e.stack.c_str()); }
}

// A spread of completed paths is kept with concrete inputs, to be executed on the real code.
struct Sample { std::vector<std::pair<std::string, std::vector<u64>>> inputs, obs; };
static std::vector<Sample> gSamples;
static u64 sampleSeen = 0, sampleRnd = 88172645463325252ull;
static void sample(State& s) {
	sampleSeen++;
	size_t at = gSamples.size();
	if (at >= optSamples) { sampleRnd ^= sampleRnd << 13; sampleRnd ^= sampleRnd >> 7; sampleRnd ^= sampleRnd << 17; at = sampleRnd % sampleSeen; if (at >= optSamples) return; }
	else gSamples.push_back({});
	Sample& o = gSamples[at]; o = Sample();
	for (auto& r : s.syms) { std::vector<u64> v; for (auto x : r.e) v.push_back((u64)evalExpr(x, *s.model)); o.inputs.push_back({ r.name, v }); }
	for (auto& r : s.obs) { std::vector<u64> v; if (r.second) v.push_back((u64)evalExpr(r.second, *s.model)); o.obs.push_back({ r.first, v }); }
}

static void addCons(State& s, E e) {
	if (e->isConst()) return;
	if (e->op == AND && e->w == 1) { addCons(s, e->k[0]); addCons(s, e->k[1]); return; }
	for (auto c : s.cons) if (c == e) return;
	s.cons.push_back(e);
}

// Is e satisfiable with the path condition?  On SAT, *out is a model.
static Res check(State& s, E e, Model* out) {
	if (e->isConst()) { if (e->c) { if (out) *out = *s.model; return SAT; } return UNSAT; }
	if (evalExpr(e, *s.model)) { if (out) *out = *s.model; return SAT; }
	for (auto c : s.cons) if (c == e) return SAT;
	Res r = solve(s.cons, e, *s.model, out, optQTimeout);
	if (r == UNKNOWN) gStat.unknownBranch++;
	return r;
}

// Forks st on cond: returns current state's side; other side (if feasible) is queued with the same pc.
// After return, st carries the side selected by its model.  result: value of cond on this path.
static bool forkOn(State*& st, E cond) {
	if (cond->isConst()) return cond->c != 0;
	bool v = evalExpr(cond, *st->model) != 0;
	E mine = v ? cond : mkNot(cond), other = v ? mkNot(cond) : cond;
	Model m;
	Res r = check(*st, other, &m);
	if (r == SAT) {
		State* o = new State(*st);
		addCons(*o, other);
		o->model = std::make_shared<Model>(std::move(m));
		o->forks++;
		work.push_back(o);
		gStat.forks++;
		addCons(*st, mine);
	}
	else if (r == UNSAT) { /* implied */ }
	else { addCons(*st, mine); }
	return v;
}

// Makes e concrete, forking over every feasible value.
static u64 concretize(State*& st, E e) {
	if (e->isConst()) return (u64)e->c;
	u64 v = (u64)evalExpr(e, *st->model);
	E eq = mkEq(e, mkConst(v, e->w));
	for (auto c : st->cons) if (c == eq) return v;
	// a variable that nothing is known about yet takes every value of its range
	E x = e;
	if (x->op == ADD && x->k[1]->isConst()) x = x->k[0];
	if (x->op == ZEXT) x = x->k[0];
	if (x->op == VAR && x->w <= 16) {
		bool freeVar = true;
		for (auto c : st->cons) if (std::binary_search(c->vars->begin(), c->vars->end(), x->aux)) { freeVar = false; break; }
		u64 n = gVars[x->aux].hi;
		if (freeVar && n <= 20000) {
			u64 mine = (u64)evalExpr(x, *st->model);
			for (u64 k = n + 1; k-- > 0;) if (k != mine) {
				State* o = new State(*st);
				auto m = std::make_shared<Model>(*st->model); m->v[x->aux] = k; o->model = m;
				addCons(*o, mkEq(e, mkConst((u64)evalExpr(e, *m), e->w)));
				o->forks++; work.push_back(o); gStat.forks++;
			}
			addCons(*st, eq);
			return v;
		}
	}
	forkOn(st, eq);
	return v;
}

static u64 newObj(State& s, u64 size, uint8_t kind, bool uninit) {
	u64 id, addr;
	Obj* o = new Obj;
	o->size = (uint32_t)size; o->kind = kind;
	o->conc.assign(size, 0);
	if (uninit && !optUninitZero) { o->st.assign(size, 2); }
	if (kind == 1) {
		Stack& S = s.S();
		id = (u64)s.cur * CO_STACK_IDS + S.stackNext++;
		s.stk.slot(id) = ObjP(o);
		addr = STACK_BASE + (id << STRIDE_BITS) + 0x1000;
	}
	else {
		id = s.heapNext++;
		s.heap.slot(id) = ObjP(o);
		addr = HEAP_BASE + (id << STRIDE_BITS) + 0x1000;
	}
	return addr;
}
struct Loc { Obj* o; u64 base; Space* sp; u64 id; };
static bool lookup(State& s, u64 addr, Loc& l) {
	Space* sp; u64 b;
	if (addr >= STACK_BASE && addr < FUNC_BASE) { sp = &s.stk; b = STACK_BASE; }
	else if (addr >= HEAP_BASE && addr < STACK_BASE) { sp = &s.heap; b = HEAP_BASE; }
	else return false;
	// objects start 0x1000 into their stride; addresses slightly below belong to the same stride
	u64 id = (addr - b) >> STRIDE_BITS;
	Obj* o = sp->get(id);
	if (!o) return false;
	l.o = o; l.base = b + (id << STRIDE_BITS) + 0x1000; l.sp = sp; l.id = id;
	return true;
}
static void freeObj(State& s, Loc& l) { l.sp->slot(l.id) = ObjP(); (void)s; }

static u64 uninitCounter = 0;
static E byteAt(State& s, Loc& l, u64 off) {
	Obj* o = l.o;
	if (o->st.empty() || o->st[off] == 0) return mkConst(o->conc[off], 8);
	if (o->st[off] == 1) return o->sym[off];
	// uninitialised: a fresh unconstrained byte, remembered
	Obj* w = l.sp->getW(l.id); l.o = w;
	w->needSym();
	E v = mkVar("uninit" + std::to_string(uninitCounter++), 8);
	w->sym[off] = v; w->st[off] = 1;
	return v;
}
static E readConc(State& s, Loc& l, u64 off, unsigned bytes) {
	Obj* o = l.o;
	if (o->st.empty() && bytes <= 16) {
		u128 v = 0;
		for (unsigned i = 0; i < bytes; i++) v |= (u128)o->conc[off + i] << (8 * i);
		return mkConst(v, bytes * 8);
	}
	E r = byteAt(s, l, off + bytes - 1);
	for (unsigned i = bytes - 1; i-- > 0;) r = mkConcat(r, byteAt(s, l, off + i));
	return r;
}
static void writeByte(Obj* w, u64 off, E b) {
	if (b->isConst()) { w->conc[off] = (uint8_t)b->c; if (!w->st.empty()) w->st[off] = 0; }
	else { w->needSym(); w->sym[off] = b; w->st[off] = 1; }
}
static void writeConc(State& s, Loc& l, u64 off, E v, unsigned bytes) {
	Obj* w = l.sp->getW(l.id); l.o = w;
	if (v->w < bytes * 8) v = mkZext(v, bytes * 8);
	for (unsigned i = 0; i < bytes; i++) writeByte(w, off + i, mkExtract(v, i * 8, 8));
}

// Resolves an address expression.  Returns false when the path ended (error reported, state deleted).
// On success l is the object and off the (possibly symbolic) in-bounds offset.
static std::string whereMsg(State& s, u64 a, unsigned bytes, const char* what) {
	char b[200]; Loc l;
	if (a < 0x10000) snprintf(b, sizeof b, "%s of %u bytes through a null pointer (+%llu)", what, bytes, (unsigned long long)a);
	else if (lookup(s, a, l)) snprintf(b, sizeof b, "%s of %u bytes at offset %lld of a %u-byte %s object", what, bytes, (long long)(a - l.base), l.o->size, l.o->kind == 0 ? "global" : l.o->kind == 1 ? "stack" : l.o->kind == 5 ? "mapped" : "heap");
	else snprintf(b, sizeof b, "%s of %u bytes at an address in no live object (freed, unmapped or wild)", what, bytes);
	return b;
}
static bool resolve(State*& st, E addr, unsigned bytes, bool write, Loc& l, E& off, const char* what) {
	State& s = *st;
	gStat.memChecks++;
	u64 a = (u64)evalExpr(addr, *s.model);
	bool ok = lookup(s, a, l) && a >= l.base && a - l.base + bytes <= l.o->size;
	if (ok && write && l.o->ro) { report(s, "memory", "write to read-only memory", nullptr); delete st; st = nullptr; return false; }
	if (!ok) {
		report(s, "memory", whereMsg(s, a, bytes, what), nullptr);
		if (!addr->isConst()) {
			// continue with the values, if any, that hit the same object
			if (lookup(s, a, l) && bytes <= l.o->size) {
				E in = mkBin(ULE, mkBin(SUB, addr, mkConst(l.base, 64)), mkConst(l.o->size - bytes, 64));
				Model m;
				if (check(s, in, &m) == SAT) { State* o = new State(s); addCons(*o, in); o->model = std::make_shared<Model>(m); work.push_back(o); }
			}
		}
		delete st; st = nullptr;
		return false;
	}
	if (addr->isConst()) { off = mkConst(a - l.base, 64); return true; }
	E o = mkBin(SUB, addr, mkConst(l.base, 64));
	E in = mkBin(ULE, o, mkConst(l.o->size - bytes, 64));
	Model m;
	Res r = check(s, mkNot(in), &m);
	if (r == SAT) {
		State* n = new State(s);
		addCons(*n, mkNot(in)); n->model = std::make_shared<Model>(std::move(m));
		work.push_back(n); gStat.forks++;
		addCons(s, in);
	}
	else if (r == UNKNOWN) addCons(s, in);
	off = o;
	return true;
}

static E readMem(State*& st, E addr, unsigned bytes, bool& ok) {
	Loc l; E off;
	ok = false;
	if (!resolve(st, addr, bytes, false, l, off, "read")) return nullptr;
	ok = true;
	if (off->isConst()) return readConc(*st, l, off->u(), bytes);
	u64 lo = off->lo, hi = std::min<u64>(off->hi, l.o->size - bytes);
	if (lo > hi) lo = 0;
	u64 step = 1ull << std::min<uint32_t>(off->tz, 20);
	lo = (lo + step - 1) / step * step;
	if ((hi - lo) / step > 1100) { // too wide for an ITE: enumerate by forking
		u64 v = concretize(st, off);
		return readConc(*st, l, v, bytes);
	}
	E r = nullptr;
	for (u64 k = lo; k <= hi; k += step) {
		E v = readConc(*st, l, k, bytes);
		r = r ? mkIte(mkEq(off, mkConst(k, 64)), v, r) : v;
	}
	return r;
}
static bool writeMem(State*& st, E addr, E v, unsigned bytes) {
	Loc l; E off;
	if (!resolve(st, addr, bytes, true, l, off, "write")) return false;
	if (off->isConst()) { writeConc(*st, l, off->u(), v, bytes); return true; }
	u64 lo = off->lo, hi = std::min<u64>(off->hi, l.o->size - bytes);
	if (lo > hi) lo = 0;
	u64 step = 1ull << std::min<uint32_t>(off->tz, 20);
	lo = (lo + step - 1) / step * step;
	if ((hi - lo) / step > 300) {
		u64 c = concretize(st, off);
		if (!lookup(*st, l.base + c, l)) abort();
		writeConc(*st, l, c, v, bytes);
		return true;
	}
	for (u64 k = lo; k <= hi; k += step) {
		E old = readConc(*st, l, k, bytes);
		writeConc(*st, l, k, mkIte(mkEq(off, mkConst(k, 64)), mkZext(v, bytes * 8), old), bytes);
	}
	return true;
}

// ------------------------------------------------------------ constants
static State* initState;
static uint32_t bitsOf(Type* T) {
	if (T->isPointerTy()) return 64;
	if (T->isIntegerTy()) return T->getIntegerBitWidth();
	if (T->isDoubleTy()) return 64;
	if (T->isFloatTy()) return 32;
	if (auto* S = dyn_cast<StructType>(T)) { uint32_t n = 0; for (auto* e : S->elements()) n += bitsOf(e); return n; }
	if (auto* A = dyn_cast<ArrayType>(T)) return bitsOf(A->getElementType()) * A->getNumElements();
	if (auto* V = dyn_cast<FixedVectorType>(T)) return bitsOf(V->getElementType()) * V->getNumElements();
	if (T->isX86_FP80Ty()) return 80;
	return 0;
}
static void unsupported(const std::string& what) { gUnsupported.insert(what); }

static E constE(const Constant* C);
static std::unordered_map<const Constant*, E> constCache;
static u64 gepConst(const GEPOperator* G) {
	APInt off(64, 0);
	if (!G->accumulateConstantOffset(*DL, off)) { unsupported("constexpr gep"); return 0; }
	return off.getZExtValue();
}
static E constE0(const Constant* C) {
	Type* T = C->getType();
	if (auto* CI = dyn_cast<ConstantInt>(C)) {
		uint32_t w = CI->getBitWidth();
		if (w <= 64) return mkConst(CI->getZExtValue(), w);
		const APInt& a = CI->getValue();
		return mkConst(((u128)a.extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64) | a.extractBitsAsZExtValue(64, 0), w);
	}
	if (auto* CF = dyn_cast<ConstantFP>(C)) { APInt a = CF->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) { unsupported("x86_fp80 constant"); return mkConst(0, a.getBitWidth()); } return mkConst(a.getZExtValue(), a.getBitWidth()); }
	if (isa<ConstantPointerNull>(C)) return mkConst(0, 64);
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return mkConst(0, bitsOf(T));
	if (isa<GlobalVariable>(C) || isa<Function>(C)) { auto it = gaddr.find(C); if (it == gaddr.end()) { unsupported("address of " + C->getName().str()); return mkConst(0, 64); } return mkConst(it->second, 64); }
	if (auto* A = dyn_cast<GlobalAlias>(C)) return constE(A->getAliasee());
	if (auto* CE = dyn_cast<ConstantExpr>(C)) {
		switch (CE->getOpcode()) {
		case Instruction::GetElementPtr: { auto* G = cast<GEPOperator>(CE); return mkBin(ADD, constE(cast<Constant>(G->getPointerOperand())), mkConst(gepConst(G), 64)); }
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return constE(CE->getOperand(0));
		case Instruction::PtrToInt: case Instruction::IntToPtr: { E e = constE(CE->getOperand(0)); uint32_t w = bitsOf(T); return w < e->w ? mkExtract(e, 0, w) : mkZext(e, w); }
		case Instruction::Trunc: return mkExtract(constE(CE->getOperand(0)), 0, bitsOf(T));
		case Instruction::Add: return mkBin(ADD, constE(CE->getOperand(0)), constE(CE->getOperand(1)));
		case Instruction::Sub: return mkBin(SUB, constE(CE->getOperand(0)), constE(CE->getOperand(1)));
		case Instruction::ICmp: { auto p = CE->getPredicate(); E a = constE(CE->getOperand(0)), b = constE(CE->getOperand(1)); if (p == CmpInst::ICMP_EQ) return mkEq(a, b); if (p == CmpInst::ICMP_NE) return mkNot(mkEq(a, b)); break; }
		default: break;
		}
		std::string s; raw_string_ostream os(s); CE->print(os); unsupported("constexpr " + s); return mkConst(0, bitsOf(T));
	}
	if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C) || isa<ConstantVector>(C)) {
		unsigned n = isa<ConstantDataSequential>(C) ? cast<ConstantDataSequential>(C)->getNumElements() : C->getNumOperands();
		E r = nullptr;
		for (unsigned i = 0; i < n; i++) { E e = constE(C->getAggregateElement(i)); r = r ? mkConcat(e, r) : e; }
		return r;
	}
	std::string s; raw_string_ostream os(s); C->print(os); unsupported("constant " + s);
	return mkConst(0, bitsOf(T) ? bitsOf(T) : 64);
}
static E constE(const Constant* C) {
	auto it = constCache.find(C);
	if (it != constCache.end()) return it->second;
	E e = constE0(C);
	constCache[C] = e;
	return e;
}
static void initBytes(Obj* o, u64 off, const Constant* C) {
	Type* T = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
	if (auto* DS = dyn_cast<ConstantDataSequential>(C)) {
		StringRef r = DS->getRawDataValues();
		memcpy(&o->conc[off], r.data(), r.size());
		return;
	}
	if (auto* S = dyn_cast<ConstantStruct>(C)) {
		const StructLayout* L = DL->getStructLayout(S->getType());
		for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(o, off + L->getElementOffset(i), S->getOperand(i));
		return;
	}
	if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
		u64 es = DL->getTypeAllocSize(isa<ArrayType>(T) ? T->getArrayElementType() : cast<VectorType>(T)->getElementType());
		for (unsigned i = 0; i < C->getNumOperands(); i++) initBytes(o, off + i * es, cast<Constant>(C->getOperand(i)));
		return;
	}
	E e = constE(C);
	u64 n = DL->getTypeStoreSize(T);
	for (u64 i = 0; i < n; i++) o->conc[off + i] = i * 8 < e->w ? (uint8_t)(e->c >> (8 * i)) : 0;
}
static void setupGlobals(State& s) {
	u64 fn = 0;
	for (auto& F : *M) { u64 a = FUNC_BASE + (++fn) * 16; gaddr[&F] = a; faddr[a] = &F; if (!F.isDeclaration()) defFn[F.getName().str()] = &F; }
	std::vector<GlobalVariable*> defs;
	for (auto& G : M->globals()) {
		u64 size = G.isDeclaration() ? std::max<u64>(256, G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 256) : (u64)DL->getTypeAllocSize(G.getValueType());
		u64 a = newObj(s, size, 0, false);
		gaddr[&G] = a; gname[a] = G.getName().str();
		defs.push_back(&G);
	}
	for (auto* G : defs) if (G->hasInitializer()) {
		Loc l; lookup(s, gaddr[G], l);
		if (l.o->size) initBytes(l.o, 0, G->getInitializer());
		if (G->isConstant()) l.o->ro = true;
	}
}

// ------------------------------------------------------------ evaluation
static E evalV(State& s, Frame& f, const Value* V) {
	if (auto* C = dyn_cast<Constant>(V)) return constE(C);
	if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return mkConst(0, 64);
	auto it = f.fi->idx.find(V);
	if (it == f.fi->idx.end()) { unsupported("value"); return mkConst(0, 64); }
	E e = f.regs[it->second];
	if (!e) { return mkConst(0, bitsOf(V->getType())); }
	return e;
}
static void setReg(Frame& f, const Value* V, E e) { f.regs[f.fi->idx.find(V)->second] = e; }

static void enterBlock(State& s, Frame& f, BasicBlock* bb) {
	f.prev = f.bb; f.bb = bb; f.pc = bb->begin();
	cover(bb);
	// phis are evaluated together
	std::vector<std::pair<const PHINode*, E>> v;
	while (auto* P = dyn_cast<PHINode>(&*f.pc)) { v.push_back({ P, evalV(s, f, P->getIncomingValueForBlock(f.prev)) }); ++f.pc; s.steps++; }
	for (auto& p : v) setReg(f, p.first, p.second);
}

static void pushFrame(State& s, Function* F, const std::vector<E>& args, CallBase* caller) {
	Frame f;
	f.fi = finfo(F);
	f.regs.assign(f.fi->n, nullptr);
	size_t n = F->arg_size();
	for (size_t i = 0; i < n && i < args.size(); i++) f.regs[i] = args[i];
	for (size_t i = n; i < args.size(); i++) f.varargs.push_back(args[i]);
	f.bb = &F->getEntryBlock(); f.prev = nullptr; f.pc = f.bb->begin(); f.caller = caller;
	cover(f.bb);
	s.S().fr.push_back(std::move(f));
}

static void popAllocas(State& s, Frame& f) {
	Stack& S = s.S();
	for (size_t i = f.allocas.size(); i-- > 0;) {
		s.stk.slot(f.allocas[i]) = ObjP();
		if (S.stackNext == (f.allocas[i] % CO_STACK_IDS) + 1) S.stackNext--;
	}
}

static void finishCall(State& s, CallBase* CB, E ret) {
	Frame& f = s.F();
	if (!CB->getType()->isVoidTy()) setReg(f, CB, ret ? ret : mkConst(0, bitsOf(CB->getType())));
	if (auto* II = dyn_cast<InvokeInst>(CB)) enterBlock(s, f, II->getNormalDest());
	else ++f.pc;
}

// ------------------------------------------------------------ exceptions
static std::string typeName(u64 ti) { auto it = gname.find(ti); return it == gname.end() ? "?" : it->second; }
static const std::map<std::string, std::vector<std::string>> stdBases = {
	{ "_ZTISt11logic_error", { "_ZTISt9exception" } }, { "_ZTISt13runtime_error", { "_ZTISt9exception" } },
	{ "_ZTISt12out_of_range", { "_ZTISt11logic_error" } }, { "_ZTISt12length_error", { "_ZTISt11logic_error" } }, { "_ZTISt16invalid_argument", { "_ZTISt11logic_error" } }, { "_ZTISt12domain_error", { "_ZTISt11logic_error" } },
	{ "_ZTISt14overflow_error", { "_ZTISt13runtime_error" } }, { "_ZTISt11range_error", { "_ZTISt13runtime_error" } }, { "_ZTISt15underflow_error", { "_ZTISt13runtime_error" } }, { "_ZTISt12system_error", { "_ZTISt13runtime_error" } },
	{ "_ZTINSt8ios_base7failureB5cxx11E", { "_ZTISt12system_error" } },
	{ "_ZTISt9bad_alloc", { "_ZTISt9exception" } }, { "_ZTISt8bad_cast", { "_ZTISt9exception" } }, { "_ZTISt12future_error", { "_ZTISt11logic_error" } },
};
static u64 rdPtr(State& s, u64 a) { Loc l; if (!lookup(s, a, l) || a < l.base || a - l.base + 8 > l.o->size) return 0; E e = readConc(s, l, a - l.base, 8); return e->isConst() ? e->u() : 0; }
static bool derives(State& s, u64 ti, u64 target, u64& adj) {
	if (ti == target) return true;
	std::string n = typeName(ti), t = typeName(target);
	if (n == t) return true;
	auto it = stdBases.find(n);
	if (it != stdBases.end()) { for (auto& b : it->second) { if (b == t) return true; auto j = stdBases.find(b); if (j != stdBases.end()) for (auto& c : j->second) if (c == t) return true; auto k = j != stdBases.end() ? stdBases.find(j->second[0]) : j; if (k != stdBases.end()) for (auto& c : k->second) if (c == t) return true; } return false; }
	u64 vp = rdPtr(s, ti);
	std::string v;
	Loc l; if (lookup(s, vp, l)) v = typeName(l.base);
	if (v.find("__si_class_type_info") != std::string::npos) return derives(s, rdPtr(s, ti + 16), target, adj);
	if (v.find("__vmi_class_type_info") != std::string::npos) {
		u64 w = rdPtr(s, ti + 16); unsigned cnt = (unsigned)(w >> 32);
		for (unsigned i = 0; i < cnt; i++) {
			u64 b = rdPtr(s, ti + 24 + i * 16), of = rdPtr(s, ti + 32 + i * 16);
			u64 a2 = adj + (u64)((i64)of >> 8);
			if (derives(s, b, target, a2)) { adj = a2; return true; }
		}
	}
	return false;
}
static int typeidFor(u64 ti) { return 1 + (int)((ti - HEAP_BASE) >> STRIDE_BITS); }

// Unwinds to the nearest handler.  Returns false when there is none (state reported and deleted).
static bool unwind(State*& st, u64 ptr, u64 ti) {
	State& s = *st;
	Stack& S = s.S();
	// phase 1: is there a handler at all
	bool first = true;
	size_t depth = S.fr.size();
	std::string where = stackStr(s);
	while (!S.fr.empty()) {
		Frame& f = S.fr.back();
		CallBase* CB = dyn_cast<CallBase>(&*f.pc);
		auto* II = CB ? dyn_cast<InvokeInst>(CB) : nullptr;
		if (II) {
			LandingPadInst* LP = II->getLandingPadInst();
			int sel = 0; bool enter = LP->isCleanup(); u64 adj = 0;
			for (unsigned i = 0; i < LP->getNumClauses(); i++) {
				Constant* C = LP->getClause(i);
				if (LP->isCatch(i)) {
					E e = constE(C); u64 t = e->u();
					adj = 0;
					if (t == 0 || derives(s, ti, t, adj)) { sel = t ? typeidFor(t) : 1000000; enter = true; break; }
				}
				else { // filter
					if (isa<ConstantAggregateZero>(C) || C->getType()->getArrayNumElements() == 0) { sel = -1; enter = true; break; }
				}
			}
			if (enter) {
				f.excPtr = ptr + adj; f.excType = ti; f.excSel = sel;
				BasicBlock* dest = II->getUnwindDest();
				enterBlock(s, f, dest);
				(void)depth; (void)first;
				return true;
			}
		}
		popAllocas(s, f);
		S.fr.pop_back();
	}
	gStat.errPaths++;
	std::string key = "uncaught|" + typeName(ti);
	if (errCount[key]++ < (int)optMaxErr) {
		ErrRec e; e.kind = "uncaught"; e.msg = "uncaught exception " + typeName(ti); e.loc = "?"; e.stack = where;
		for (auto& r : s.syms) { std::vector<u64> v; for (auto x : r.e) v.push_back((u64)evalExpr(x, *s.model)); e.inputs.push_back({ r.name, v }); }
		gErrs.push_back(e);
	}
	delete st; st = nullptr;
	return false;
}

// ------------------------------------------------------------ builtins
static std::string readCStr(State& s, u64 a, bool* sym = nullptr) {
	std::string r; Loc l;
	if (!lookup(s, a, l)) return r;
	for (u64 i = a - l.base; i < l.o->size; i++) { E e = byteAt(s, l, i); if (!e->isConst()) { if (sym) *sym = true; r += '?'; continue; } if (e->c == 0) break; r += (char)e->c; }
	return r;
}
enum BRes { B_NONE, B_DONE, B_DEAD, B_STAY };
#define DONE(v) do { finishCall(*st, CB, (v)); return B_DONE; } while (0)
#define DEAD do { return B_DEAD; } while (0)

static BRes doMemcpy(State*& st, E dst, E src, u64 n) {
	if (n == 0) return B_DONE;
	Loc ld, ls; E od, os;
	if (n > 0x800000) { report(*st, "memory", "copy of an absurd size (" + std::to_string(n) + " bytes)", nullptr); delete st; st = nullptr; return B_DEAD; }
	if (!src->isConst()) concretize(st, src);
	u64 sa = (u64)evalExpr(src, *st->model);
	if (!dst->isConst()) concretize(st, dst);
	u64 da = (u64)evalExpr(dst, *st->model);
	if (!resolve(st, mkConst(sa, 64), (unsigned)n, false, ls, os, "copy-read")) return B_DEAD;
	std::vector<uint8_t> cb(n), sb; std::vector<E> eb;
	u64 so = os->u();
	memcpy(cb.data(), &ls.o->conc[so], n);
	if (!ls.o->st.empty()) { sb.assign(ls.o->st.begin() + so, ls.o->st.begin() + so + n); if (!ls.o->sym.empty()) eb.assign(ls.o->sym.begin() + so, ls.o->sym.begin() + so + n); }
	if (!resolve(st, mkConst(da, 64), (unsigned)n, true, ld, od, "copy-write")) return B_DEAD;
	Obj* w = ld.sp->getW(ld.id);
	u64 doff = od->u();
	memcpy(&w->conc[doff], cb.data(), n);
	bool anySt = false; for (auto x : sb) if (x) { anySt = true; break; }
	if (!anySt) { if (!w->st.empty()) memset(&w->st[doff], 0, n); }
	else {
		w->needState();
		memcpy(&w->st[doff], sb.data(), n);
		if (!eb.empty()) { w->needSym(); for (u64 i = 0; i < n; i++) w->sym[doff + i] = eb[i]; }
	}
	return B_DONE;
}
static BRes doMemset(State*& st, E dst, E val, u64 n) {
	if (n == 0) return B_DONE;
	if (n > 0x800000) { report(*st, "memory", "fill of an absurd size (" + std::to_string(n) + " bytes)", nullptr); delete st; st = nullptr; return B_DEAD; }
	if (!dst->isConst()) concretize(st, dst);
	u64 da = (u64)evalExpr(dst, *st->model);
	Loc ld; E od;
	if (!resolve(st, mkConst(da, 64), (unsigned)n, true, ld, od, "fill")) return B_DEAD;
	Obj* w = ld.sp->getW(ld.id);
	E b = mkExtract(val, 0, 8);
	for (u64 i = 0; i < n; i++) writeByte(w, od->u() + i, b);
	return B_DONE;
}

static E newSym(State& s, const std::string& name, uint32_t w, u64 hi = ~0ull) { return mkVar(name, w, hi); }
static std::unordered_map<std::string, std::vector<E>> symPool; // reuse variables across paths: the k-th creation of a name
static E pooledVar(State& s, const std::string& name, uint32_t w, u64 hi = ~0ull) {
	std::string key = name + "/" + std::to_string(w) + "/" + std::to_string(hi);
	int k = s.symCount[key]++;
	auto& v = symPool[key];
	if ((int)v.size() <= k) v.push_back(newSym(s, name + "#" + std::to_string(k), w, hi));
	return v[k];
}

static void doAssert(State*& st, E cond, const std::string& msg) {
	gStat.asserts++;
	gS.assertQueries++;
	if (cond->isConst()) {
		if (cond->c == 0) { report(*st, "assert", msg, nullptr); delete st; st = nullptr; }
		return;
	}
	Model m;
	Res r = UNSAT;
	E neg = mkNot(cond);
	if (evalExpr(neg, *st->model)) { r = SAT; m = *st->model; }
	else r = solve(st->cons, neg, *st->model, &m, optQTimeout);
	if (r == UNKNOWN) { gStat.unknownBranch++; }
	if (r == SAT) {
		report(*st, "assert", msg, &m);
		Model m2;
		if (check(*st, cond, &m2) != SAT) { delete st; st = nullptr; return; }
		addCons(*st, cond);
		st->model = std::make_shared<Model>(m2);
	}
}

static bool kindOk(uint8_t k, uint8_t want) { return k == want; }

static BRes builtin(State*& st, Function* F, CallBase* CB, std::vector<E>& a) {
	StringRef n = F->getName();
	State& s = *st;
	auto argC = [&](unsigned i) -> u64 { return concretize(st, a[i]); };
	// harness primitives
	if (n.starts_with("abc_")) {
		if (n == "abc_sym") {
			u64 p = argC(0), len = argC(1); std::string nm = readCStr(s, argC(2));
			SymRec r; r.name = nm;
			Loc l; if (!lookup(s, p, l) || p < l.base || p - l.base + len > l.o->size) { report(s, "harness", "abc_sym out of bounds", nullptr); delete st; st = nullptr; DEAD; }
			Obj* w = l.sp->getW(l.id);
			for (u64 i = 0; i < len; i++) { E v = pooledVar(s, nm, 8); r.e.push_back(v); writeByte(w, p - l.base + i, v); }
			s.syms.push_back(r);
			DONE(nullptr);
		}
		if (n == "abc_sym_u64") { // name, lo, hi
			std::string nm = readCStr(s, argC(0)); u64 lo = argC(1), hi = argC(2);
			if (hi < lo) { report(s, "harness", "abc_sym_u64 range", nullptr); delete st; st = nullptr; DEAD; }
			u64 span = hi - lo; int w = span ? 64 - __builtin_clzll(span) : 1;
			E v;
			if (span == 0) v = mkConst(lo, 64);
			else {
				E x = pooledVar(s, nm, w, span);
				v = mkBin(ADD, mkZext(x, 64), mkConst(lo, 64));
			}
			SymRec r; r.name = nm; r.e.push_back(v); s.syms.push_back(r);
			DONE(v);
		}
		if (n == "abc_assume") {
			E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
			if (c->isConst()) { if (!c->c) { gStat.assumeKilled++; delete st; st = nullptr; DEAD; } DONE(nullptr); }
			Model m; Res r = check(s, c, &m);
			if (r != SAT) { if (r == UNSAT) gStat.assumeKilled++; delete st; st = nullptr; DEAD; }
			s.model = std::make_shared<Model>(m);
			addCons(s, c);
			DONE(nullptr);
		}
		if (n == "abc_assert") {
			std::string msg = readCStr(s, argC(1));
			E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
			gSites["assert: " + msg]++;
			doAssert(st, c, msg);
			if (!st) DEAD;
			DONE(nullptr);
		}
		if (n == "abc_concretize") { u64 v = argC(0); DONE(mkConst(v, 64)); }
		if (n == "abc_reach") { std::string t = readCStr(s, argC(0)); gReach.insert(t); s.obs.push_back({ t, nullptr }); DONE(nullptr); }
		if (n == "abc_is_engine") DONE(mkConst(1, 32));
		if (n == "abc_stop") { gStat.paths++; sample(s); delete st; st = nullptr; DEAD; }
		if (n == "abc_is_symbolic") DONE(mkConst(a[0]->isConst() ? 0 : 1, 32));
		if (n == "abc_uninit") { // marks bytes as uninitialised (fresh on each read)
			u64 p = argC(0), len = argC(1); Loc l; if (!lookup(s, p, l)) DONE(nullptr);
			Obj* w = l.sp->getW(l.id); w->needState(); for (u64 i = 0; i < len; i++) w->st[p - l.base + i] = 2; DONE(nullptr);
		}
		if (n == "abc_observe") { s.obs.push_back({ readCStr(s, argC(0)), a[1] }); DONE(nullptr); }
		if (n == "abc_print") { fprintf(stderr, "[print] %s %s\n", readCStr(s, argC(0)).c_str(), exprStr(a[1]).c_str()); DONE(nullptr); }
		if (n == "abc_prints") { fprintf(stderr, "[print] %s\n", readCStr(s, argC(0)).c_str()); DONE(nullptr); }
		if (n == "abc_co_create") { // fn, arg
			u64 fn = argC(0);
			Stack S; s.co.push_back(S);
			int save = s.cur; s.cur = (int)s.co.size() - 1;
			auto it = faddr.find(fn);
			if (it == faddr.end()) { unsupported("co_create"); delete st; st = nullptr; DEAD; }
			pushFrame(s, it->second, { a[1] }, nullptr);
			int id = s.cur; s.cur = save;
			DONE(mkConst(id, 32));
		}
		if (n == "abc_co_switch") {
			u64 id = argC(0);
			if (id >= s.co.size() || s.co[id].done || s.co[id].fr.empty()) { report(s, "harness", "switch to a finished coroutine", nullptr); delete st; st = nullptr; DEAD; }
			finishCall(s, CB, nullptr);	// advance the current coroutine first
			s.cur = (int)id;
			return B_DONE;
		}
		if (n == "abc_fmt_double") { // (char* out, size, double): concrete only
			u64 p = argC(0), size = argC(1); u64 prec = argC(3); u64 dv = concretize(st, a[2]); double d; memcpy(&d, &dv, 8);
			char b[512]; char conv = (char)argC(4); char f[16]; snprintf(f, sizeof f, "%%.%d%c", (int)prec, conv);
			int len = snprintf(b, sizeof b, f, d);
			Loc l; if (lookup(*st, p, l)) { Obj* w = l.sp->getW(l.id); for (int i = 0; i < len && (u64)i < size; i++) writeByte(w, p - l.base + i, mkConst((uint8_t)b[i], 8)); }
			DONE(mkConst((u64)len, 32));
		}
		if (n == "abc_map_alloc") { u64 sz = argC(0); u64 p = newObj(s, sz, 5, false); DONE(mkConst(p, 64)); }
		if (n == "abc_map_protect") {		// an unmapped page keeps its bytes but must not be touched
			u64 p = argC(0), on = argC(1); Loc l;
			if (!lookup(s, p, l) || l.base != p || l.o->kind != 5) { report(s, "memory", "unmap of something that is not a mapping", nullptr); delete st; st = nullptr; DEAD; }
			Obj* w = l.sp->getW(l.id); w->size = on ? (uint32_t)w->conc.size() : 0; DONE(nullptr);
		}
		if (n == "abc_map_free") { u64 p = argC(0); Loc l; if (!lookup(s, p, l) || l.base != p || l.o->kind != 5) { report(s, "memory", "unmap of something that is not a mapping", nullptr); delete st; st = nullptr; DEAD; } freeObj(s, l); DONE(nullptr); }
	}
	if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "calloc") {
		u64 sz = argC(0); if (n == "calloc") sz *= argC(1);
		if (sz > 0x800000) { report(s, "memory", "allocation of an absurd size", nullptr); delete st; st = nullptr; DEAD; }
		u64 p = newObj(s, sz, n == "malloc" || n == "calloc" ? 2 : n.starts_with("_Znw") ? 3 : 4, n != "calloc");
		DONE(mkConst(p, 64));
	}
	if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) {
		u64 p = argC(0);
		if (p == 0) DONE(nullptr);
		Loc l;
		uint8_t want = n == "free" ? 2 : n.starts_with("_ZdlPv") ? 3 : 4;
		if (!lookup(s, p, l) || l.base != p || !kindOk(l.o->kind, want)) { report(s, "memory", "invalid or double free", nullptr); delete st; st = nullptr; DEAD; }
		freeObj(s, l);
		DONE(nullptr);
	}
	if (n == "memcpy" || n == "memmove") { u64 len = argC(2); BRes r = doMemcpy(st, a[0], a[1], len); if (r == B_DEAD) return r; DONE(a[0]); }
	if (n == "memset") { u64 len = argC(2); BRes r = doMemset(st, a[0], a[1], len); if (r == B_DEAD) return r; DONE(a[0]); }
	if (n == "__errno_location") {
		static u64 ea = 0; 
		Loc l; if (ea == 0 || !lookup(s, ea, l)) { ea = gaddr[M->getNamedValue("abc_errno")]; }
		DONE(mkConst(ea, 64));
	}
	// C++ runtime
	if (n == "__cxa_allocate_exception") { u64 sz = argC(0); DONE(mkConst(newObj(s, sz ? sz : 1, 6, true), 64)); }
	if (n == "__cxa_free_exception") { u64 p = argC(0); Loc l; if (lookup(s, p, l)) freeObj(s, l); DONE(nullptr); }
	if (n == "__cxa_throw") { u64 p = argC(0), ti = argC(1), d = argC(2); s.excMeta[p] = { ti, d }; if (!unwind(st, p, ti)) DEAD; return B_DONE; }
	if (n == "__cxa_begin_catch") {
		u64 p = argC(0); Stack& S = s.S(); u64 base = p; Loc l; if (lookup(s, p, l)) base = l.base;
		for (auto& e : S.caught) if (e.ptr == base) { e.handlers++; DONE(a[0]); }
		S.caught.push_back({ base, s.excMeta.count(base) ? s.excMeta[base].first : 0, 1 });
		DONE(a[0]);
	}
	if (n == "__cxa_end_catch") { Stack& S = s.S(); if (!S.caught.empty()) { if (--S.caught.back().handlers <= 0) { u64 p = S.caught.back().ptr; S.caught.pop_back(); Loc l; if (lookup(s, p, l)) freeObj(s, l); } } DONE(nullptr); }
	if (n == "__cxa_rethrow") { Stack& S = s.S(); if (S.caught.empty()) { report(s, "terminate", "rethrow without exception", nullptr); delete st; st = nullptr; DEAD; } Exc e = S.caught.back(); S.caught.back().handlers++; if (!unwind(st, e.ptr, e.type)) DEAD; return B_DONE; }
	if (n == "__cxa_get_exception_ptr") DONE(a[0]);
	if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") DONE(mkConst(0, 32));
	if (n == "__cxa_guard_acquire") { bool ok; E b = readMem(st, a[0], 1, ok); if (!ok) DEAD; DONE(mkConst(b->isConst() && b->c == 0 ? 1 : 0, 32)); }
	if (n == "__cxa_guard_release") { if (!writeMem(st, a[0], mkConst(1, 8), 1)) DEAD; DONE(nullptr); }
	if (n == "__cxa_guard_abort") DONE(nullptr);
	if (n == "__cxa_pure_virtual") { report(s, "terminate", "pure virtual call", nullptr); delete st; st = nullptr; DEAD; }
	if (n == "_ZSt9terminatev" || n == "abort" || n == "__clang_call_terminate") { report(s, "terminate", "std::terminate / abort", nullptr); delete st; st = nullptr; DEAD; }
	if (n.starts_with("_ZSt") && n.contains("__throw_")) { report(s, "terminate", "libstdc++ " + n.str(), nullptr); delete st; st = nullptr; DEAD; }
	if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") { report(s, "terminate", "assertion failure in library code", nullptr); delete st; st = nullptr; DEAD; }
	// std exceptions: [vptr][char* msg]
	auto isStdExc = [&](const char* suffix) { for (const char* c : { "St11logic_error", "St13runtime_error" }) { std::string m = std::string("_ZN") + c + suffix; if (n == m) return true; } return false; };
	if (isStdExc("C2EPKc") || isStdExc("C1EPKc")) { u64 p = argC(0); if (!writeMem(st, mkConst(p + 8, 64), a[1], 8)) DEAD; DONE(nullptr); }
	if (isStdExc("C2ERKS_") || isStdExc("C1ERKS_") || isStdExc("C2EOS_") || isStdExc("C1EOS_")) { u64 p = argC(0), q = argC(1); bool ok; E v = readMem(st, mkConst(q + 8, 64), 8, ok); if (!ok) DEAD; if (!writeMem(st, mkConst(p + 8, 64), v, 8)) DEAD; DONE(nullptr); }
	if (isStdExc("D2Ev") || isStdExc("D1Ev") || isStdExc("D0Ev") || n == "_ZNSt9exceptionD2Ev") DONE(nullptr);
	if (n == "_ZNKSt11logic_error4whatEv" || n == "_ZNKSt13runtime_error4whatEv") { u64 p = argC(0); bool ok; E v = readMem(st, mkConst(p + 8, 64), 8, ok); if (!ok) DEAD; DONE(v); }
	// iostream plumbing with no behaviour of interest
	if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev" || n == "_ZNSt6localeD1Ev" || n == "_ZNSt8ios_baseD2Ev") DONE(nullptr);
	if (n == "_ZNSt6localeaSERKS_") DONE(a[0]);
	return B_NONE;
}

static E mkAbsFloat(E x) { return mkBin(AND, x, mkConst(maskw(x->w - 1), x->w)); }

// ------------------------------------------------------------ instruction execution
static E arith(const BinaryOperator* B, E x, E y, bool& divz) {
	divz = false;
	switch (B->getOpcode()) {
	case Instruction::Add: return mkBin(ADD, x, y);
	case Instruction::Sub: return mkBin(SUB, x, y);
	case Instruction::Mul: return mkBin(MUL, x, y);
	case Instruction::UDiv: divz = true; return mkBin(UDIV, x, y);
	case Instruction::SDiv: divz = true; return mkBin(SDIV, x, y);
	case Instruction::URem: divz = true; return mkBin(UREM, x, y);
	case Instruction::SRem: divz = true; return mkBin(SREM, x, y);
	case Instruction::And: return mkBin(AND, x, y);
	case Instruction::Or: return mkBin(OR, x, y);
	case Instruction::Xor: return mkBin(XOR, x, y);
	case Instruction::Shl: return mkBin(SHL, x, y);
	case Instruction::LShr: return mkBin(LSHR, x, y);
	case Instruction::AShr: return mkBin(ASHR, x, y);
	case Instruction::FAdd: return mkBin(FADD, x, y);
	case Instruction::FSub: return mkBin(FSUB, x, y);
	case Instruction::FMul: return mkBin(FMUL, x, y);
	case Instruction::FDiv: return mkBin(FDIV, x, y);
	case Instruction::FRem: return mkBin(FREM, x, y);
	default: unsupported("binop"); return x;
	}
}
static E icmp(CmpInst::Predicate p, E x, E y) {
	switch (p) {
	case CmpInst::ICMP_EQ: return mkEq(x, y);
	case CmpInst::ICMP_NE: return mkNot(mkEq(x, y));
	case CmpInst::ICMP_ULT: return mkBin(ULT, x, y);
	case CmpInst::ICMP_ULE: return mkBin(ULE, x, y);
	case CmpInst::ICMP_UGT: return mkBin(ULT, y, x);
	case CmpInst::ICMP_UGE: return mkBin(ULE, y, x);
	case CmpInst::ICMP_SLT: return mkBin(SLT, x, y);
	case CmpInst::ICMP_SLE: return mkBin(SLE, x, y);
	case CmpInst::ICMP_SGT: return mkBin(SLT, y, x);
	case CmpInst::ICMP_SGE: return mkBin(SLE, y, x);
	default: unsupported("icmp"); return mkBool(false);
	}
}
static E fcmp(CmpInst::Predicate p, E x, E y) {
	E uno = mkBin(FUNO, x, y);
	switch (p) {
	case CmpInst::FCMP_FALSE: return mkBool(false);
	case CmpInst::FCMP_TRUE: return mkBool(true);
	case CmpInst::FCMP_OEQ: return mkBin(FEQ, x, y);
	case CmpInst::FCMP_UNE: return mkNot(mkBin(FEQ, x, y));
	case CmpInst::FCMP_ONE: return mkAnd(mkNot(uno), mkNot(mkBin(FEQ, x, y)));
	case CmpInst::FCMP_UEQ: return mkOr(uno, mkBin(FEQ, x, y));
	case CmpInst::FCMP_OLT: return mkBin(FLT, x, y);
	case CmpInst::FCMP_OLE: return mkBin(FLE, x, y);
	case CmpInst::FCMP_OGT: return mkBin(FLT, y, x);
	case CmpInst::FCMP_OGE: return mkBin(FLE, y, x);
	case CmpInst::FCMP_ULT: return mkNot(mkBin(FLE, y, x));
	case CmpInst::FCMP_ULE: return mkNot(mkBin(FLT, y, x));
	case CmpInst::FCMP_UGT: return mkNot(mkBin(FLE, x, y));
	case CmpInst::FCMP_UGE: return mkNot(mkBin(FLT, x, y));
	case CmpInst::FCMP_ORD: return mkNot(uno);
	case CmpInst::FCMP_UNO: return uno;
	default: unsupported("fcmp"); return mkBool(false);
	}
}
static uint32_t fieldOff(Type* T, ArrayRef<unsigned> idx, Type*& FT) {
	uint32_t off = 0;
	for (unsigned i : idx) {
		if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) off += bitsOf(S->getElementType(k)); T = S->getElementType(i); }
		else { T = cast<ArrayType>(T)->getElementType(); off += bitsOf(T) * i; }
	}
	FT = T;
	return off;
}

static BRes intrinsic(State*& st, IntrinsicInst* II, std::vector<E>& a) {
	CallBase* CB = II;
	auto ov = [&](Op op, bool sg) {
		uint32_t w = a[0]->w;
		E x = sg ? mkSext(a[0], w * 2) : mkZext(a[0], w * 2), y = sg ? mkSext(a[1], w * 2) : mkZext(a[1], w * 2);
		E r = mkBin(op, x, y), lo = mkExtract(r, 0, w);
		E back = sg ? mkSext(lo, w * 2) : mkZext(lo, w * 2);
		E o = mkNot(mkEq(back, r));
		return mkConcat(o, lo);
	};
	switch (II->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(st, a[2]); BRes r = doMemcpy(st, a[0], a[1], n); if (r == B_DEAD) return r; DONE(nullptr); }
	case Intrinsic::memset: { u64 n = concretize(st, a[2]); BRes r = doMemset(st, a[0], a[1], n); if (r == B_DEAD) return r; DONE(nullptr); }
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: DONE(nullptr);
	case Intrinsic::stacksave: DONE(mkConst(0, 64));
	case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::threadlocal_address: DONE(a[0]);
	case Intrinsic::is_constant: DONE(mkConst(0, 1));
	case Intrinsic::objectsize: DONE(mkConst(~0ull, bitsOf(II->getType())));
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
		static const char* ub[] = { "add overflow", "builtin unreachable", "cfi", "divrem overflow/zero", "dynamic type", "float cast overflow", "function type", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "mul overflow", "negate overflow", "nullability", "nullability return", "nonnull arg", "nonnull return", "index out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment", "vla bound" };
		std::string m = "trap";
		if (II->getIntrinsicID() == Intrinsic::ubsantrap && a[0]->isConst() && a[0]->u() < sizeof(ub) / sizeof(*ub)) m = std::string("undefined behaviour: ") + ub[a[0]->u()];
		report(*st, "ub", m, nullptr); delete st; st = nullptr; return B_DEAD;
	}
	case Intrinsic::umax: DONE(mkIte(mkBin(ULT, a[0], a[1]), a[1], a[0]));
	case Intrinsic::umin: DONE(mkIte(mkBin(ULT, a[0], a[1]), a[0], a[1]));
	case Intrinsic::smax: DONE(mkIte(mkBin(SLT, a[0], a[1]), a[1], a[0]));
	case Intrinsic::smin: DONE(mkIte(mkBin(SLT, a[0], a[1]), a[0], a[1]));
	case Intrinsic::abs: DONE(mkIte(mkBin(SLT, a[0], mkConst(0, a[0]->w)), mkBin(SUB, mkConst(0, a[0]->w), a[0]), a[0]));
	case Intrinsic::uadd_with_overflow: DONE(ov(ADD, false));
	case Intrinsic::sadd_with_overflow: DONE(ov(ADD, true));
	case Intrinsic::usub_with_overflow: DONE(mkConcat(mkBin(ULT, a[0], a[1]), mkBin(SUB, a[0], a[1])));
	case Intrinsic::ssub_with_overflow: DONE(ov(SUB, true));
	case Intrinsic::umul_with_overflow: DONE(ov(MUL, false));
	case Intrinsic::smul_with_overflow: DONE(ov(MUL, true));
	case Intrinsic::usub_sat: DONE(mkIte(mkBin(ULT, a[0], a[1]), mkConst(0, a[0]->w), mkBin(SUB, a[0], a[1])));
	case Intrinsic::uadd_sat: { E r = mkBin(ADD, a[0], a[1]); DONE(mkIte(mkBin(ULT, r, a[0]), mkConst(maskw(r->w), r->w), r)); }
	case Intrinsic::bswap: { E r = nullptr; for (uint32_t i = 0; i < a[0]->w; i += 8) { E b = mkExtract(a[0], i, 8); r = r ? mkConcat(r, b) : b; } DONE(r); }
	case Intrinsic::ctpop: { E r = mkConst(0, a[0]->w); for (uint32_t i = 0; i < a[0]->w; i++) r = mkBin(ADD, r, mkZext(mkExtract(a[0], i, 1), a[0]->w)); DONE(r); }
	case Intrinsic::ctlz: { uint32_t w = a[0]->w; E r = mkConst(w, w); for (uint32_t i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(a[0], i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); DONE(r); }
	case Intrinsic::cttz: { uint32_t w = a[0]->w; E r = mkConst(w, w); for (uint32_t i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(a[0], i, 1), mkConst(1, 1)), mkConst(i, w), r); DONE(r); }
	case Intrinsic::fshl: case Intrinsic::fshr: {
		uint32_t w = a[0]->w;
		if (!a[2]->isConst()) { concretize(st, a[2]); }
		uint32_t k = (uint32_t)((u64)evalExpr(a[2], *st->model) % w);
		E c = mkConcat(a[0], a[1]);
		if (II->getIntrinsicID() == Intrinsic::fshl) DONE(mkExtract(c, w - k == w ? w : w - k, w));
		DONE(mkExtract(c, k, w));
	}
	case Intrinsic::eh_typeid_for: DONE(mkConst(a[0]->u() ? typeidFor(a[0]->u()) : 1000000, 32));
	case Intrinsic::fabs: DONE(mkAbsFloat(a[0]));
	case Intrinsic::sqrt: DONE(mkCast(FSQRT, a[0], a[0]->w));
	case Intrinsic::fmuladd: DONE(mkBin(FADD, mkBin(FMUL, a[0], a[1]), a[2]));
	case Intrinsic::is_fpclass: {
		// general: only handle nan / inf / finite tests
		unsigned t = (unsigned)a[1]->u(); uint32_t w = a[0]->w; E r = mkBool(false);
		E ab = mkAbsFloat(a[0]); E inf = mkConst(w == 64 ? 0x7ff0000000000000ull : 0x7f800000u, w); E sgn = mkExtract(a[0], w - 1, 1); E minN = mkConst(w == 64 ? 0x0010000000000000ull : 0x00800000u, w), z = mkConst(0, w);
		if ((t & 3)) r = mkOr(r, mkBin(ULT, inf, ab));
		E isInf = mkEq(ab, inf), isNorm = mkAnd(mkBin(ULT, ab, inf), mkBin(ULE, minN, ab)), isSub = mkAnd(mkBin(ULT, ab, minN), mkBin(ULT, z, ab)), isZ = mkEq(ab, z), neg = mkEq(sgn, mkConst(1, 1)), pos = mkNot(neg);
		if (t & 4) r = mkOr(r, mkAnd(isInf, neg)); if (t & 0x200) r = mkOr(r, mkAnd(isInf, pos));
		if (t & 8) r = mkOr(r, mkAnd(isNorm, neg)); if (t & 0x100) r = mkOr(r, mkAnd(isNorm, pos));
		if (t & 0x10) r = mkOr(r, mkAnd(isSub, neg)); if (t & 0x80) r = mkOr(r, mkAnd(isSub, pos));
		if (t & 0x20) r = mkOr(r, mkAnd(isZ, neg)); if (t & 0x40) r = mkOr(r, mkAnd(isZ, pos));
		DONE(r);
	}
	case Intrinsic::vastart: {
		Frame& f = st->F();
		u64 n = f.varargs.size();
		u64 p = newObj(*st, std::max<u64>(8, n * 8), 2, false);
		Loc l; lookup(*st, p, l);
		for (u64 i = 0; i < n; i++) { E e = f.varargs[i]; writeConc(*st, l, i * 8, e->w > 64 ? mkExtract(e, 0, 64) : mkZext(e, 64), 8); }
		u64 va = concretize(st, a[0]);
		if (!writeMem(st, mkConst(va, 64), mkConst(48, 32), 4)) return B_DEAD;
		if (!writeMem(st, mkConst(va + 4, 64), mkConst(176, 32), 4)) return B_DEAD;
		if (!writeMem(st, mkConst(va + 8, 64), mkConst(p, 64), 8)) return B_DEAD;
		if (!writeMem(st, mkConst(va + 16, 64), mkConst(p, 64), 8)) return B_DEAD;
		DONE(nullptr);
	}
	case Intrinsic::vacopy: { BRes r = doMemcpy(st, a[0], a[1], 24); if (r == B_DEAD) return r; DONE(nullptr); }
	default: break;
	}
	unsupported("intrinsic " + II->getCalledFunction()->getName().str());
	report(*st, "unsupported", "intrinsic " + II->getCalledFunction()->getName().str(), nullptr);
	delete st; st = nullptr; return B_DEAD;
}

static BRes doCall(State*& st, CallBase* CB) {
	State& s = *st; Frame& f = s.F();
	if (auto* II = dyn_cast<IntrinsicInst>(CB)) {
		switch (II->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: ++f.pc; return B_DONE; default: break; }
	}
	std::vector<E> a; a.reserve(CB->arg_size());
	for (auto& v : CB->args()) a.push_back(evalV(s, f, v.get()));
	if (auto* II = dyn_cast<IntrinsicInst>(CB)) return intrinsic(st, II, a);
	if (CB->isInlineAsm()) { finishCall(s, CB, nullptr); return B_DONE; }
	Function* F = CB->getCalledFunction();
	if (!F) {
		if (auto* GA = dyn_cast<GlobalAlias>(CB->getCalledOperand())) F = dyn_cast<Function>(GA->getAliaseeObject());
	}
	if (!F) {
		E t = evalV(s, f, CB->getCalledOperand());
		u64 v = concretize(st, t);
		auto it = faddr.find(v);
		if (it == faddr.end()) { report(s, "memory", "call through an invalid function pointer", nullptr); delete st; st = nullptr; return B_DEAD; }
		F = it->second;
	}
	// byval arguments are copied
	for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) {
		Type* T = CB->getParamByValType(i); u64 sz = DL->getTypeAllocSize(T);
		u64 p = newObj(*st, sz, 2, true);
		if (doMemcpy(st, mkConst(p, 64), a[i], sz) == B_DEAD) return B_DEAD;
		a[i] = mkConst(p, 64);
	}
	StringRef fn = F->getName();
	if (fn.starts_with("\x01")) fn = fn.drop_front();
	if (F->isDeclaration()) {
		auto it = defFn.find("__wrap_" + fn.str());
		if (it != defFn.end()) F = it->second;
	}
	if (!F->isDeclaration() && !fn.starts_with("__clang_call_terminate")) {
		if (s.S().fr.size() > 400) { report(s, "recursion", "call depth over 400", nullptr); delete st; st = nullptr; return B_DEAD; }
		pushFrame(s, F, a, CB);
		return B_DONE;
	}
	BRes r = builtin(st, F, CB, a);
	if (r != B_NONE) return r;
	auto it = defFn.find("abcrt_" + fn.str());
	if (it != defFn.end()) { pushFrame(s, it->second, a, CB); return B_DONE; }
	report(s, "unsupported", "external function " + fn.str(), nullptr);
	unsupported("external function " + fn.str());
	delete st; st = nullptr;
	return B_DEAD;
}

// Executes one instruction; st becomes null when its path ended.
static void step(State*& st) {
	State& s = *st;
	Frame& f = s.F();
	Instruction* I = &*f.pc;
	s.steps++;
	if (s.steps > optMaxSteps) {
		report(s, "steps", "path exceeds " + std::to_string(optMaxSteps) + " instructions (non-termination)", nullptr);
		gStat.bounded++;
		delete st; st = nullptr; return;
	}
	switch (I->getOpcode()) {
	case Instruction::Ret: {
		E v = I->getNumOperands() ? evalV(s, f, I->getOperand(0)) : nullptr;
		popAllocas(s, f);
		CallBase* CB = f.caller;
		s.S().fr.pop_back();
		if (s.S().fr.empty()) {
			if (s.cur == 0) { gStat.paths++; sample(s); gStat.steps += s.steps; delete st; st = nullptr; return; }
			s.S().done = true; s.cur = 0;
			return;
		}
		finishCall(s, CB, v);
		return;
	}
	case Instruction::Br: {
		auto* B = cast<BranchInst>(I);
		if (B->isUnconditional()) { enterBlock(s, f, B->getSuccessor(0)); return; }
		E c = evalV(s, f, B->getCondition());
		bool v = forkOn(st, c);
		enterBlock(*st, st->F(), B->getSuccessor(v ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto* W = cast<SwitchInst>(I);
		E c = evalV(s, f, W->getCondition());
		if (c->isConst()) {
			BasicBlock* d = W->getDefaultDest();
			for (auto& cs : W->cases()) if (constE(cs.getCaseValue()) == c) { d = cs.getCaseSuccessor(); break; }
			enterBlock(s, f, d);
			return;
		}
		// group by destination
		std::vector<std::pair<BasicBlock*, E>> g; E any = mkBool(false);
		for (auto& cs : W->cases()) {
			E q = mkEq(c, constE(cs.getCaseValue())); any = mkOr(any, q);
			bool found = false;
			for (auto& p : g) if (p.first == cs.getCaseSuccessor()) { p.second = mkOr(p.second, q); found = true; break; }
			if (!found) g.push_back({ cs.getCaseSuccessor(), q });
		}
		E def = mkNot(any);
		bool dm = false;
		for (auto& p : g) if (p.first == W->getDefaultDest()) { p.second = mkOr(p.second, def); dm = true; }
		if (!dm) g.push_back({ W->getDefaultDest(), def });
		// the side of the current model is continued, others are re-executed
		for (auto& p : g) if (evalExpr(p.second, *s.model)) { forkOn(st, p.second); enterBlock(*st, st->F(), p.first); return; }
		abort();
	}
	case Instruction::Invoke: case Instruction::Call: doCall(st, cast<CallBase>(I)); return;
	case Instruction::Unreachable: report(s, "terminate", "unreachable executed", nullptr); delete st; st = nullptr; return;
	case Instruction::Resume: {
		E v = evalV(s, f, I->getOperand(0));
		u64 p = mkExtract(v, 0, 64)->u();
		Loc l; u64 base = p; if (lookup(s, p, l)) base = l.base;
		u64 ti = s.excMeta.count(base) ? s.excMeta[base].first : 0;
		popAllocas(s, f); s.S().fr.pop_back();
		unwind(st, base, ti);
		return;
	}
	case Instruction::LandingPad: { setReg(f, I, mkConcat(mkConst((u64)(uint32_t)f.excSel, 32), mkConst(f.excPtr, 64))); ++f.pc; return; }
	case Instruction::Alloca: {
		auto* A = cast<AllocaInst>(I);
		u64 n = 1;
		if (A->isArrayAllocation()) { n = concretize(st, evalV(s, f, A->getArraySize())); }
		u64 sz = DL->getTypeAllocSize(A->getAllocatedType()) * n;
		if (sz > 0x800000) { report(s, "memory", "huge alloca", nullptr); delete st; st = nullptr; return; }
		u64 p = newObj(*st, sz, 1, true);
		f.allocas.push_back((p - STACK_BASE) >> STRIDE_BITS);
		setReg(f, I, mkConst(p, 64)); ++f.pc; return;
	}
	case Instruction::Load: {
		Type* T = I->getType(); uint32_t w = bitsOf(T); u64 bytes = DL->getTypeStoreSize(T);
		if (w == 80 || isa<VectorType>(T)) { if (w == 80) unsupported("x86_fp80"); }
		bool ok; E v = readMem(st, evalV(s, f, I->getOperand(0)), (unsigned)bytes, ok);
		if (!ok) return;
		if (isa<StructType>(T)) unsupported("struct load");
		if (v->w > w) v = mkExtract(v, 0, w);
		Frame& g = st->F();
		setReg(g, I, v); ++g.pc; return;
	}
	case Instruction::Store: {
		Type* T = I->getOperand(0)->getType(); u64 bytes = DL->getTypeStoreSize(T);
		if (isa<StructType>(T)) unsupported("struct store");
		E v = evalV(s, f, I->getOperand(0));
		if (v->w < bytes * 8) v = mkZext(v, (uint32_t)bytes * 8);
		if (!writeMem(st, evalV(s, f, I->getOperand(1)), v, (unsigned)bytes)) return;
		++st->F().pc; return;
	}
	case Instruction::GetElementPtr: {
		auto* G = cast<GetElementPtrInst>(I);
		E p = evalV(s, f, G->getPointerOperand());
		u64 off = 0; E so = nullptr;
		for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
			Value* V = it.getOperand();
			if (auto* S = it.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(V)->getZExtValue());
			else {
				u64 es = DL->getTypeAllocSize(it.getIndexedType());
				E x = evalV(s, f, V);
				if (x->w < 64) x = mkSext(x, 64); else if (x->w > 64) x = mkExtract(x, 0, 64);
				if (x->isConst()) off += x->u() * es;
				else { E t = mkBin(MUL, x, mkConst(es, 64)); so = so ? mkBin(ADD, so, t) : t; }
			}
		}
		E r = p;
		if (so) r = mkBin(ADD, r, so);
		r = mkBin(ADD, r, mkConst(off, 64));
		setReg(f, I, r); ++f.pc; return;
	}
	case Instruction::ICmp: { auto* C = cast<ICmpInst>(I); setReg(f, I, icmp(C->getPredicate(), evalV(s, f, C->getOperand(0)), evalV(s, f, C->getOperand(1)))); ++f.pc; return; }
	case Instruction::FCmp: { auto* C = cast<FCmpInst>(I); setReg(f, I, fcmp(C->getPredicate(), evalV(s, f, C->getOperand(0)), evalV(s, f, C->getOperand(1)))); ++f.pc; return; }
	case Instruction::Select: {
		E c = evalV(s, f, I->getOperand(0)), x = evalV(s, f, I->getOperand(1)), y = evalV(s, f, I->getOperand(2));
		setReg(f, I, mkIte(c, x, y)); ++f.pc; return;
	}
	case Instruction::ZExt: setReg(f, I, mkZext(evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::SExt: setReg(f, I, mkSext(evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::Trunc: setReg(f, I, mkExtract(evalV(s, f, I->getOperand(0)), 0, bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: { E e = evalV(s, f, I->getOperand(0)); uint32_t w = bitsOf(I->getType()); setReg(f, I, w < e->w ? mkExtract(e, 0, w) : mkZext(e, w)); ++f.pc; return; }
	case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: setReg(f, I, evalV(s, f, I->getOperand(0))); ++f.pc; return;
	case Instruction::FPToSI: setReg(f, I, mkCast(FPTOSI, evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::FPToUI: setReg(f, I, mkCast(FPTOUI, evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::SIToFP: setReg(f, I, mkCast(SITOFP, evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::UIToFP: setReg(f, I, mkCast(UITOFP, evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::FPExt: setReg(f, I, mkCast(FPEXT, evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::FPTrunc: setReg(f, I, mkCast(FPTRUNC, evalV(s, f, I->getOperand(0)), bitsOf(I->getType()))); ++f.pc; return;
	case Instruction::FNeg: { E e = evalV(s, f, I->getOperand(0)); setReg(f, I, mkBin(XOR, e, mkConst((u128)1 << (e->w - 1), e->w))); ++f.pc; return; }
	case Instruction::ExtractValue: { auto* X = cast<ExtractValueInst>(I); Type* FT; uint32_t o = fieldOff(X->getAggregateOperand()->getType(), X->getIndices(), FT); setReg(f, I, mkExtract(evalV(s, f, X->getAggregateOperand()), o, bitsOf(FT))); ++f.pc; return; }
	case Instruction::InsertValue: {
		auto* X = cast<InsertValueInst>(I); Type* FT; uint32_t o = fieldOff(X->getType(), X->getIndices(), FT);
		E ag = evalV(s, f, X->getAggregateOperand()), v = evalV(s, f, X->getInsertedValueOperand());
		uint32_t w = v->w; E r = v;
		if (o) r = mkConcat(r, mkExtract(ag, 0, o));
		if (o + w < ag->w) r = mkConcat(mkExtract(ag, o + w, ag->w - o - w), r);
		setReg(f, I, r); ++f.pc; return;
	}
	case Instruction::Fence: ++f.pc; return;
	case Instruction::AtomicRMW: {
		auto* A = cast<AtomicRMWInst>(I); uint32_t w = bitsOf(A->getType());
		E p = evalV(s, f, A->getPointerOperand()), v = evalV(s, f, A->getValOperand());
		bool ok; E old = readMem(st, p, w / 8, ok); if (!ok) return;
		E nv = v;
		switch (A->getOperation()) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: nv = mkBin(ADD, old, v); break; case AtomicRMWInst::Sub: nv = mkBin(SUB, old, v); break; case AtomicRMWInst::And: nv = mkBin(AND, old, v); break; case AtomicRMWInst::Or: nv = mkBin(OR, old, v); break; default: unsupported("atomicrmw"); }
		if (!writeMem(st, p, nv, w / 8)) return;
		setReg(st->F(), I, old); ++st->F().pc; return;
	}
	case Instruction::AtomicCmpXchg: {
		auto* A = cast<AtomicCmpXchgInst>(I); E p = evalV(s, f, A->getPointerOperand()), c = evalV(s, f, A->getCompareOperand()), v = evalV(s, f, A->getNewValOperand());
		bool ok; E old = readMem(st, p, c->w / 8, ok); if (!ok) return;
		E eq = mkEq(old, c);
		if (!writeMem(st, p, mkIte(eq, v, old), c->w / 8)) return;
		setReg(st->F(), I, mkConcat(eq, old)); ++st->F().pc; return;
	}
	default: break;
	}
	if (auto* B = dyn_cast<BinaryOperator>(I)) {
		E x = evalV(s, f, B->getOperand(0)), y = evalV(s, f, B->getOperand(1));
		if (isa<VectorType>(B->getType())) { unsupported("vector op"); report(s, "unsupported", "vector operation", nullptr); delete st; st = nullptr; return; }
		bool dz; E r = arith(B, x, y, dz);
		if (dz && !(y->isConst() && y->c != 0)) {
			bool zero = forkOn(st, mkEq(y, mkConst(0, y->w)));
			if (zero) { report(*st, "ub", "division by zero", nullptr); delete st; st = nullptr; return; }
		}
		if (B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::SRem) {
			E minv = mkConst((u128)1 << (x->w - 1), x->w);
			E bad = mkAnd(mkEq(x, minv), mkEq(y, mkConst(maskw(y->w), y->w)));
			if (!(bad->isConst() && !bad->c) && forkOn(st, bad)) { report(*st, "ub", "signed division overflow", nullptr); delete st; st = nullptr; return; }
		}
		setReg(st->F(), I, r); ++st->F().pc; return;
	}
	std::string str; raw_string_ostream os(str); I->print(os);
	unsupported("instruction " + str);
	report(s, "unsupported", "instruction " + str, nullptr);
	delete st; st = nullptr;
}

// ------------------------------------------------------------ results
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static bool timedOut = false; static u64 leftStates = 0;
static void writeResults(int id) {
	std::string p = optOut + "." + std::to_string(id);
	FILE* f = fopen(p.c_str(), "w");
	fprintf(f, "{\"paths\":%llu,\"errPaths\":%llu,\"bounded\":%llu,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assumeKilled\":%llu,\"unknown\":%llu,\"memChecks\":%llu,", (unsigned long long)gStat.paths, (unsigned long long)gStat.errPaths, (unsigned long long)gStat.bounded, (unsigned long long)gStat.steps, (unsigned long long)gStat.forks, (unsigned long long)gStat.asserts, (unsigned long long)gStat.assumeKilled, (unsigned long long)gStat.unknownBranch, (unsigned long long)gStat.memChecks);
	fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cacheHits\":%llu,\"assertQueries\":%llu,\"solverTime\":%.3f,\"maxQuery\":%.3f,\"exprs\":%llu,\"timedOut\":%s,\"left\":%llu,", (unsigned long long)gS.queries, (unsigned long long)gS.sat, (unsigned long long)gS.unsat, (unsigned long long)gS.cacheHits, (unsigned long long)gS.assertQueries, gS.time, gS.maxq, (unsigned long long)gExprCount, timedOut ? "true" : "false", (unsigned long long)leftStates);
	auto list = [&](const char* n, const std::set<std::string>& v) { fprintf(f, "\"%s\":[", n); bool first = true; for (auto& x : v) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } fprintf(f, "],"); };
	list("functions", gCovered); list("reach", gReach); list("unsupported", gUnsupported);
	fprintf(f, "\"sites\":{"); { bool first = true; for (auto& x : gSites) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; } } fprintf(f, "},");
	fprintf(f, "\"errors\":[");
	bool first = true;
	for (auto& e : gErrs) {
		fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"func\":\"%s\",\"stack\":\"%s\",\"inputs\":[", first ? "" : ",", jesc(e.kind).c_str(), jesc(e.msg).c_str(), jesc(e.loc).c_str(), jesc(e.func).c_str(), jesc(e.stack).c_str());
		first = false;
		bool f2 = true;
		for (auto& i : e.inputs) { fprintf(f, "%s[\"%s\",[", f2 ? "" : ",", jesc(i.first).c_str()); f2 = false; bool f3 = true; for (auto v : i.second) { fprintf(f, "%s%llu", f3 ? "" : ",", (unsigned long long)v); f3 = false; } fprintf(f, "]]"); }
		fprintf(f, "]}");
	}
	fprintf(f, "],\"samples\":[");
	auto ivs = [&](const std::vector<std::pair<std::string, std::vector<u64>>>& l) { bool f2 = true; for (auto& i : l) { fprintf(f, "%s[\"%s\",[", f2 ? "" : ",", jesc(i.first).c_str()); f2 = false; bool f3 = true; for (auto v : i.second) { fprintf(f, "%s%llu", f3 ? "" : ",", (unsigned long long)v); f3 = false; } fprintf(f, "]]"); } };
	first = true;
	for (auto& o : gSamples) { fprintf(f, "%s{\"inputs\":[", first ? "" : ","); first = false; ivs(o.inputs); fprintf(f, "],\"obs\":["); ivs(o.obs); fprintf(f, "]}"); }
	fprintf(f, "]}\n");
	fclose(f);
}

static int myId = 0;
static void runWork() {
	u64 tick = 0;
	while (!work.empty()) {
		State* st = work.back(); work.pop_back();
		while (st) {
			// run a whole straight stretch
			step(st);
			if ((++tick & 0x3fff) == 0) {
				if (nowS() - tStart > optTime || sh->stop || (sh->errTime > 0 && nowS() - sh->errTime > optGrace)) { timedOut = true; leftStates = work.size() + 1; return; }
			}
			if ((tick & 0x3ff) == 0 && work.size() >= 2 && sh->active < sh->cores) {
				int a = __sync_add_and_fetch(&sh->active, 1);
				if (a > sh->cores) __sync_sub_and_fetch(&sh->active, 1);
				else {
					int id = __sync_add_and_fetch(&sh->nextId, 1);
					fflush(stdout); fflush(stderr);
					pid_t p = fork();
					if (p < 0) __sync_sub_and_fetch(&sh->active, 1);
					else if (p == 0) {
						// the child takes the older half of the queue (bigger subtrees, interleaved)
						myId = id;
						std::vector<State*> mine;
						for (size_t i = 0; i < work.size(); i += 2) mine.push_back(work[i]);
						work = mine;
						st = nullptr;
						gStat = Stats(); gS = SolverStats(); gErrs.clear(); gReach.clear(); gSites.clear(); gSamples.clear(); sampleSeen = 0; sampleRnd += (u64)id * 7919; leftStates = 0;
						break;
					}
					else {
						std::vector<State*> mine;
						for (size_t i = 0; i < work.size(); i++) if (i & 1) mine.push_back(work[i]); else delete work[i];
						work = mine;
					}
				}
			}
		}
	}
}

int main(int argc, char** argv) {
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "-entry") optEntry = nx();
		else if (a == "-out") optOut = nx();
		else if (a == "-jobs") optJobs = atoi(nx().c_str());
		else if (a == "-time") optTime = atof(nx().c_str());
		else if (a == "-steps") optMaxSteps = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "-qtimeout") optQTimeout = atoi(nx().c_str());
		else if (a == "-maxerr") optMaxErr = atoi(nx().c_str());
		else if (a == "-cov") optCovPrefix = nx();
		else if (a == "-samples") optSamples = atoi(nx().c_str());
		else if (a == "-grace") optGrace = atof(nx().c_str());
		else if (a == "-trace") optTrace = true;
		else if (a == "-uninit-zero") optUninitZero = true;
		else optModule = a;
	}
	tStart = nowS();
	LLVMContext C; SMDiagnostic err;
	auto mod = parseIRFile(optModule, err, C);
	if (!mod) { err.print("abcsym", llvm::errs()); return 2; }
	M = mod.get(); DL = &M->getDataLayout();
	Function* entry = M->getFunction(optEntry);
	if (!entry || entry->isDeclaration()) { fprintf(stderr, "abcsym: no entry %s\n", optEntry.c_str()); return 2; }
	sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh->active = 1; sh->nextId = 0; sh->cores = (int)optJobs;
	State* s = new State; s->co.resize(1); s->heapNext = 1; s->model = std::make_shared<Model>();
	setupGlobals(*s);
	// static constructors, in order, then the entry
	std::vector<std::pair<unsigned, Function*>> ctors;
	if (auto* G = M->getNamedGlobal("llvm.global_ctors")) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : A->operands()) { auto* CS = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(CS->getOperand(1))) ctors.push_back({ (unsigned)cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F }); }
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	for (auto& c : ctors) {
		pushFrame(*s, c.second, {}, nullptr);
		State* t = s;
		u64 paths0 = gStat.paths;
		// run to completion: intercept the final return by depth
		s->S().fr.back().caller = nullptr;
		while (t && !t->S().fr.empty()) {
			Frame& f = t->F();
			if (t->S().fr.size() == 1 && isa<ReturnInst>(&*f.pc)) { popAllocas(*t, f); t->S().fr.pop_back(); break; }
			step(t);
		}
		(void)paths0;
		if (!t) { fprintf(stderr, "abcsym: static constructor failed\n"); writeResults(0); return 2; }
	}
	s->steps = 0;
	pushFrame(*s, entry, {}, nullptr);
	work.push_back(s);
	runWork();
	if (timedOut) sh->stop = 1;
	writeResults(myId);
	__sync_sub_and_fetch(&sh->active, 1);
	// reap own children (each process waits for its own)
	while (wait(nullptr) > 0) {}
	_exit(0);
}
