// Native side of the harness interface: replays one recorded assignment.
#include "abcsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <map>
#include <sys/syscall.h>

extern "C" void HARNESS_ENTRY();

static std::vector<std::pair<std::string, std::vector<uint64_t>>> inputs;
static size_t pos = 0;
static std::vector<uint64_t>* next(const char* name) {
	if (pos < inputs.size() && inputs[pos].first == name) return &inputs[pos++].second;
	if (pos < inputs.size()) { fprintf(stderr, "REPLAY-DIVERGED: expected %s, got %s\n", inputs[pos].first.c_str(), name); fflush(stderr); _exit(78); }
	return nullptr;	// beyond the failure point: zeros
}
extern "C" {
void abc_sym(void* p, std::size_t n, const char* name) { auto v = next(name); unsigned char* b = (unsigned char*)p; for (size_t i = 0; i < n; i++) b[i] = v && i < v->size() ? (unsigned char)(*v)[i] : 0; }
uint64_t abc_sym_u64(const char* name, uint64_t lo, uint64_t hi) { auto v = next(name); uint64_t x = v && !v->empty() ? (*v)[0] : lo; if (x < lo || x > hi) x = lo; return x; }
void abc_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); _exit(77); } }
void abc_assert(int c, const char* m) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", m); fflush(stderr); _exit(42); } }
uint64_t abc_concretize(uint64_t v) { return v; }
void abc_reach(const char* n) { fprintf(stderr, "OBS %s|\n", n); }
void abc_observe(const char* n, uint64_t v) { fprintf(stderr, "OBS %s|%llu\n", n, (unsigned long long)v); }
int abc_is_engine(void) { return 0; }
void abc_stop(void) { _exit(0); }
void abc_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %llu\n", s, (unsigned long long)v); }
void abc_prints(const char* s) { fprintf(stderr, "[print] %s\n", s); }
void abc_uninit(void* p, std::size_t n) { memset(p, 0xa5, n); }
static std::map<void*, size_t> maps;
void* abc_map_alloc(std::size_t n) {
	size_t len = (n + 4095) / 4096 * 4096;
	char* p = (char*)syscall(SYS_mmap, nullptr, len + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);	// not the wrapped one
	if (p == MAP_FAILED) abort();
	mprotect(p + 4096, len, PROT_READ | PROT_WRITE);
	maps[p + 4096] = len;
	return p + 4096;
}
void abc_map_protect(void* p, int on) { auto it = maps.find(p); if (it == maps.end()) { fprintf(stderr, "REPLAY-VIOLATION: unmap of something that is not a mapping\n"); _exit(42); } mprotect(p, it->second, on ? PROT_READ | PROT_WRITE : PROT_NONE); }
void abc_map_free(void* p) { auto it = maps.find(p); if (it == maps.end()) { fprintf(stderr, "REPLAY-VIOLATION: unmap of something that is not a mapping\n"); _exit(42); } mprotect(p, it->second, PROT_NONE); maps.erase(it); }
struct Co { ucontext_t c; void (*fn)(void*); void* arg; };
static std::vector<Co*> cos; static int curCo = 0;
static void coMain(int id) { cos[id]->fn(cos[id]->arg); curCo = 0; setcontext(&cos[0]->c); }
int abc_co_create(void (*fn)(void*), void* arg) {
	if (cos.empty()) cos.push_back(new Co());
	Co* c = new Co(); c->fn = fn; c->arg = arg; cos.push_back(c);
	int id = (int)cos.size() - 1;
	getcontext(&c->c); c->c.uc_stack.ss_size = 1 << 20; c->c.uc_stack.ss_sp = malloc(1 << 20); c->c.uc_link = nullptr;
	makecontext(&c->c, (void (*)())coMain, 1, id);
	return id;
}
void abc_co_switch(int id) { if (cos.empty()) cos.push_back(new Co()); if (id == curCo) return; int o = curCo; curCo = id; swapcontext(&cos[o]->c, &cos[id]->c); }
}
static void onAlarm(int) { const char m[] = "REPLAY-VIOLATION: does not terminate (timeout)\n"; (void)!syscall(SYS_write, 2, m, sizeof m - 1); _exit(43); }
static void onTerm() { fprintf(stderr, "REPLAY-VIOLATION: std::terminate\n"); fflush(stderr); _exit(44); }
#include <exception>
int main(int argc, char** argv) {
	if (argc > 1) {
		FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 79; }
		static char line[1 << 20];
		while (fgets(line, sizeof line, f)) {
			if (strncmp(line, "input ", 6) != 0) continue;
			char* p = line + 6; char* e = strchr(p, ' ');
			std::string name(p, e ? (size_t)(e - p) : strcspn(p, "\n")); std::vector<uint64_t> v;
			while (e && *e == ' ') { char* q; uint64_t x = strtoull(e + 1, &q, 10); if (q == e + 1) break; v.push_back(x); e = q; }
			inputs.push_back({ name, v });
		}
		fclose(f);
	}
	signal(SIGALRM, onAlarm); alarm(8);
	std::set_terminate(onTerm);
	HARNESS_ENTRY();
	fprintf(stderr, "REPLAY-OK\n");
	fflush(stderr);
	_exit(0);
}
