// Harness interface.  The same harness source is (a) lowered to LLVM IR and executed
// symbolically, and (b) compiled natively to replay a counterexample on the real code.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
	void     abc_sym(void* p, std::size_t n, const char* name);					// n arbitrary bytes
	uint64_t abc_sym_u64(const char* name, uint64_t lo, uint64_t hi);			// arbitrary value in [lo, hi]
	void     abc_assume(int cond);
	void     abc_assert(int cond, const char* msg);
	uint64_t abc_concretize(uint64_t v);										// case split on every feasible value
	void     abc_reach(const char* name);										// vacuity witness
	int      abc_is_engine(void);
	void     abc_stop(void);													// end of path, silently
	void     abc_observe(const char* name, uint64_t v);							// recorded value, compared with the native run
	void     abc_print(const char* s, uint64_t v);
	void     abc_prints(const char* s);
	void     abc_uninit(void* p, std::size_t n);
	int      abc_co_create(void (*fn)(void*), void* arg);						// cooperative threads
	void     abc_co_switch(int id);
	void*    abc_map_alloc(std::size_t n);										// page mappings with use-after-unmap detection
	void     abc_map_protect(void* p, int accessible);
	void     abc_map_free(void* p);
}

static inline uint64_t abc_choice(const char* name, uint64_t n) { return abc_concretize(abc_sym_u64(name, 0, n - 1)); }

#define HARNESS extern "C" void
