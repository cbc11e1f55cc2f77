// The virtual memory pool and its data structures over a modelled file.
#include <cstring>
#include <cstdio>
#include <new>
#include <utility>
#include <exception>
#include <stdexcept>
#include "abcsym.h"
#include "vfs.h"
#include "src/log.h"
#include "src/vmem.h"
using namespace abc;
#ifndef M
#define M 8
#endif
#ifndef K
#define K 3
#endif
#ifndef PAD
#define PAD 998
#endif
#ifndef FILL
#define FILL 9
#endif
typedef vmem_pool<M> Pool;
typedef vmem_page<Pool> Page;
// a symbolic number below n; the solver splits it
static unsigned pick(const char* name, unsigned n) { uint8_t b; abc_sym(&b, 1, name); abc_assume(b < n); unsigned i = 0; while (i + 1 < n && b != i) i++; return i; }
struct Item { uint16_t v; char pad[PAD]; };
static Item item(uint16_t v) { Item i; std::memset(&i, 0, sizeof i); i.v = v; i.pad[PAD - 1] = (char)v; return i; }
static uint16_t val(const Item& i) { abc_assert(i.pad[PAD - 1] == (char)i.v, "an item is kept whole"); return i.v; }
static unsigned char at(std::size_t p, std::size_t o) { vfs::Peek k(p); return k.p[o]; }

// which pages are in use; every other page (except 0 and 1) must be free and come back before the file grows
struct Used { bool u[vfs::MAXP] = {}; std::size_t n = 0; void add(vmem_page_pos_t p, const char* why) { abc_assert(p > 1 && p < vfs::pages(), why); abc_assert(!u[p], "no page is used twice"); u[p] = true; n++; } };
static void drain(Pool& pool, Used& used) {
	std::size_t before = vfs::pages(), frees = before - 2 - used.n;
	for (std::size_t i = 0; i < frees; i++) {
		Page p(&pool);
		abc_assert(p.ptr() != nullptr, "a free page can be used");
		abc_assert(p.pos() > 1 && p.pos() < before, "a page that is not in use is reused before the file grows");
		abc_assert(!used.u[p.pos()], "a page in use is never handed out again");
		used.u[p.pos()] = true;
	}
	Page p(&pool);
	abc_assert(p.pos() == before, "the file grows by one page when no page is free");
}
#ifdef H_POOL
// ---------------------------------------------------------------- pool and pages
// K steps over SLOTS page objects; every page carries a tag in its first and last byte
#ifndef SLOTS
#define SLOTS 3
#endif
HARNESS h_pages() {
	enum { NP = M + 2 };
	unsigned char tag[NP + 2];
	{
		Pool* pool = new Pool("p");
		for (unsigned i = 0; i < NP; i++) { Page p(pool); abc_assert(p.pos() == i + 2, "new pages are appended"); tag[i + 2] = 0; }
		unsigned hits = 0;
		{
			Page* s[SLOTS]; for (unsigned i = 0; i < SLOTS; i++) s[i] = nullptr;
			for (int k = 0; k < K; k++) {
				unsigned op = (unsigned)abc_choice("op", 6), i = (unsigned)abc_choice("slot", SLOTS);
				if (op <= 1) {		// lock a page
					if (s[i]) abc_stop();
					unsigned p = 2 + (unsigned)abc_choice("page", NP);
					bool other = false; unsigned distinct = 0; bool seen[NP + 2] = {};
					for (unsigned j = 0; j < SLOTS; j++) if (s[j] && s[j]->ptr()) { if (s[j]->pos() == p) other = true; if (!seen[s[j]->pos()]) { seen[s[j]->pos()] = true; distinct++; } }
					s[i] = new Page(pool, p);
					abc_assert((s[i]->ptr() != nullptr) == (other || distinct < M), "a page can be locked unless all pages that may be mapped are locked");
					abc_assert(s[i]->pos() == p, "the page asked for is locked");
					if (op == 1) for (int h = 0; h < 3; h++) Page again(pool, p);
				}
				else if (op == 2) { delete s[i]; s[i] = nullptr; }
				else if (op == 3) { unsigned j = (i + 1) % SLOTS; if (!s[i] || s[j]) abc_stop(); s[j] = new Page(*s[i]); abc_assert(s[j]->pos() == s[i]->pos() && s[j]->ptr() == s[i]->ptr(), "a copy refers to the same page"); }
				else if (op == 4) { unsigned j = (i + 1) % SLOTS; if (!s[i] || s[j]) abc_stop(); void* p = s[i]->ptr(); s[j] = new Page(std::move(*s[i])); abc_assert(s[j]->ptr() == p && s[i]->ptr() == nullptr, "a page moves"); delete s[i]; s[i] = nullptr; }
				else { unsigned j = (i + 1) % SLOTS; if (!s[i] || !s[j]) abc_stop(); vmem_page_pos_t p = s[j]->pos(); if (abc_choice("how", 2)) *s[i] = *s[j]; else *s[i] = std::move(*s[j]); abc_assert(s[i]->pos() == p, "assignment takes over the page"); if (s[j]->pos() == vmem_page_pos_nil) { delete s[j]; s[j] = nullptr; } }
				for (unsigned j = 0; j < SLOTS; j++) if (s[j] && s[j]->ptr()) {
					unsigned char* b = (unsigned char*)s[j]->ptr(); unsigned p = (unsigned)s[j]->pos();
					abc_assert(b[100] == tag[p] && b[4095] == tag[p], "a locked page stays mapped and keeps its content");
					if (j == i) { abc_sym(b + 100, 1, "byte"); b[4095] = tag[p] = b[100]; hits++; }
				}
				abc_assert(vfs::live <= M, "no more pages are mapped than the limit");
			}
			for (unsigned j = 0; j < SLOTS; j++) delete s[j];
		}
		if (abc_choice("move", 2)) { Pool* p2 = new Pool(std::move(*pool)); delete pool; pool = p2; abc_reach("moved"); }
		for (unsigned i = 0; i < NP; i++) { Page p(pool, i + 2); abc_assert(p.ptr() && ((unsigned char*)p.ptr())[100] == tag[i + 2], "every page keeps its content"); abc_assert(vfs::live <= M, "no more pages are mapped than the limit"); }
		delete pool; vfs::closed();
	}
	for (unsigned i = 0; i < NP; i++) abc_assert(at(i + 2, 100) == tag[i + 2] && at(i + 2, 4095) == tag[i + 2], "the file holds what was put in the pages");
	abc_reach("end");
}
// every mix of locked pages and of numbers of hits when room has to be made
HARNESS h_replace() {
	Pool* pool = new Pool("p");
	for (unsigned i = 0; i < 2 * M; i++) Page p(pool);
	Page* held[M]; unsigned locked = 0;
	for (unsigned i = 0; i < M; i++) {
		unsigned hits = (unsigned)abc_choice("hits", 3); held[i] = nullptr;
		for (unsigned h = 0; h < (hits == 2 ? 5 : hits); h++) Page p(pool, i + 2);
		if (abc_choice("hold", 2)) { held[i] = new Page(pool, i + 2); abc_assert(held[i]->ptr() != nullptr, "room"); std::memset(held[i]->ptr(), (int)(i + 2), 200); locked++; }
	}
	for (unsigned i = M; i < 2 * M; i++) {
		Page p(pool, i + 2);
		abc_assert((p.ptr() != nullptr) == (locked < M), "a page can be locked unless all pages that may be mapped are locked");
		if (p.ptr()) std::memset(p.ptr(), 1, 200);
		abc_assert(vfs::live <= M, "no more pages are mapped than the limit");
		for (unsigned j = 0; j < M; j++) if (held[j]) abc_assert(*(unsigned char*)held[j]->ptr() == j + 2, "a locked page stays mapped");
	}
	for (unsigned j = 0; j < M; j++) delete held[j];
	delete pool; vfs::closed();
	abc_reach("end");
}
// alloc and free in any order
HARNESS h_alloc() {
	Pool* pool = new Pool("p");
	Used used; vmem_page_pos_t own[K + 1]; unsigned n = 0; unsigned char tag[vfs::MAXP];
	for (int k = 0; k < K; k++) {
		unsigned op = (unsigned)abc_choice("op", 3);
		if (op == 0) {
			std::size_t before = vfs::pages(); bool spare = before - 2 > used.n;
			Page p(pool);
			abc_assert(p.ptr() != nullptr && p.pos() == (spare ? p.pos() : before), "a page is handed out"); used.add(p.pos(), "a page of the pool");
			abc_assert(vfs::pages() == before + (spare ? 0 : 1), "the file grows only when no page is free");
			own[n++] = p.pos(); abc_sym((unsigned char*)p.ptr() + 100, 1, "byte"); tag[p.pos()] = ((unsigned char*)p.ptr())[100];
		}
		else if (op == 1) {
			if (!n) abc_stop();
			unsigned i = (unsigned)abc_choice("which", n);
			Page p(pool, own[i]); abc_assert(p.ptr() && ((unsigned char*)p.ptr())[100] == tag[own[i]], "a page keeps its content");
			p.free(); abc_assert(p.ptr() == nullptr && p.pos() == vmem_page_pos_nil, "a freed page object is empty");
			used.u[own[i]] = false; used.n--; own[i] = own[--n];
		}
		else { delete pool; vfs::closed(); pool = new Pool("p"); abc_reach("reopened"); }
	}
	for (unsigned i = 0; i < n; i++) { Page p(pool, own[i]); abc_assert(p.ptr() && ((unsigned char*)p.ptr())[100] == tag[own[i]], "a page keeps its content"); }
	drain(*pool, used);
	delete pool; vfs::closed();
	abc_reach("end");
}
// alloc and free while as many pages as fit are locked
HARNESS h_tight() {
	enum { N = 4 };
	Pool* pool = new Pool("p");
	Used used; vmem_page_pos_t own[N]; unsigned n = 0;
	for (unsigned i = 0; i < N; i++) { Page p(pool); own[n++] = p.pos(); used.add(p.pos(), "a page of the pool"); }
	unsigned frees = (unsigned)abc_choice("frees", 4);
	for (unsigned i = 0; i < frees; i++) { unsigned w = (unsigned)abc_choice("which", n); Page p(pool, own[w]); p.free(); used.u[own[w]] = false; used.n--; own[w] = own[--n]; }
	{
		Page* held[M]; unsigned hold = (unsigned)abc_choice("hold", M + 1), h = 0;
		for (; h < hold; h++) {
			held[h] = h < n ? new Page(pool, own[h]) : h == n ? new Page(pool, vmem_page_pos_start) : new Page(pool);
			if (h > n && held[h]->pos() != vmem_page_pos_nil) { abc_assert(held[h]->ptr() != nullptr, "a page that is handed out can be used"); used.add(held[h]->pos(), "a page of the pool"); }
		}
		for (int k = 0; k < 2; k++) {
			if (abc_choice("op", 2)) { Page p(pool); if (p.ptr()) { used.add(p.pos(), "a page of the pool"); abc_reach("tight"); } else { abc_assert(p.pos() == vmem_page_pos_nil, "a request that fails takes no page"); abc_reach("refused"); } }
			else if (h + 2 > M) abc_stop();		// freeing a page takes two other pages
			else { unsigned w = (unsigned)abc_choice("which", h + 1); if (w == h || held[w]->ptr() == nullptr || held[w]->pos() == vmem_page_pos_start) abc_stop(); used.u[held[w]->pos()] = false; used.n--; held[w]->free(); }
		}
		for (unsigned i = 0; i < h; i++) delete held[i];
	}
	drain(*pool, used);
	delete pool; vfs::closed();
	abc_reach("end");
}
// any file, any fault while it is opened
HARNESS h_open() {
	unsigned pages = (unsigned)abc_choice("pages", 4), extra = abc_choice("odd", 2) ? 1 + (unsigned)abc_choice("extra", 3) * 1365 : 0;
	unsigned char head[48]; abc_sym(head, sizeof head, "head");
	static unsigned char zero[4096];
	for (unsigned i = 0; i < pages; i++) vfs::put(i * 4096, zero, 4096);
	if (extra) vfs::put(pages * 4096, zero, extra);
	if (pages) vfs::put(0, head, sizeof head);
	unsigned fault = (unsigned)abc_choice("fault", 4);
	if (fault == 1) vfs::fail_open = 1;
	if (fault == 2) { vfs::fail_write = (int)abc_choice("n", 3); vfs::short_bytes = abc_choice("short", 2) ? (int)abc_choice("bytes", 2) * 4000 : -1; }
	if (fault == 3) vfs::fail_mmap = (int)abc_choice("n", 5);
	bool good = head[0] == 2 && head[1] == 0 && std::memcmp(head + 2, "abc::vmem", 10) == 0 && head[12] == 0x00 && head[13] == 0x10;
	bool opened = false;
	try {
		Pool pool("p"); opened = true; vfs::fail_mmap = -1; vfs::fail_write = -1;
		Page start(&pool, vmem_page_pos_start);
		abc_assert(start.ptr() != nullptr, "the start page of an open pool can be used");
		((unsigned char*)start.ptr())[4095] = 1;
		abc_reach("opened");
	}
	catch (std::exception&) { abc_reach("refused"); }
	vfs::closed();
	if (pages >= 2 && !extra && fault == 0 && opened) abc_assert(good, "a file of another kind, version or page size is refused");
	if (opened) abc_assert(extra == 0, "a file that is not made of whole pages is refused");
	if (pages >= 2 && !extra && fault == 0 && good) abc_assert(opened, "a good file is opened");
	if (pages == 0 && !extra && fault == 0) { abc_assert(opened && vfs::pages() == 2, "a new file gets a root and a start page"); abc_reach("new"); }
}
// the process or the disk fails while the file is first written or grows; the next open copes
HARNESS h_crash() {
	unsigned at = (unsigned)abc_choice("write", 5); int bytes = abc_choice("short", 2) ? (int)abc_choice("bytes", 3) * 2047 : -1;
	bool ok[6] = {}; unsigned n = 0;
	try {
		Pool pool("p");
		vfs::fail_write = (int)at; vfs::short_bytes = bytes;
		for (int i = 0; i < 6; i++) { Page p(&pool); if (p.ptr()) { *((unsigned char*)p.ptr() + 50) = (unsigned char)p.pos(); ok[i] = true; n++; abc_assert(p.pos() == n + 1, "pages are numbered in order"); } else abc_reach("full"); }
		vfs::fail_write = -1;
		abc_assert(n == 5, "only the failed request is refused");
	} catch (std::exception&) { abc_assert(0, "the pool opens"); }
	vfs::closed();
	try { Pool pool("p"); for (unsigned i = 2; i < n + 2; i++) { Page p(&pool, i); abc_assert(p.ptr() && ((unsigned char*)p.ptr())[50] == i, "what was stored is found again"); } Page p(&pool); abc_assert(p.pos() == n + 2, "growing goes on"); }
	catch (std::exception&) { abc_assert(0, "a pool that met a full disk opens again"); }
	abc_reach("end");
}
#endif
// ---------------------------------------------------------------- containers
// checks a sequence against a model, forward and backward, and notes its pages
template <class C> static void same(C& c, const uint16_t* m, unsigned n, Used* used) {
	abc_assert(c.size() == n, "the size is the number of items");
	abc_assert(c.empty() == (n == 0), "only a container without items is empty");
	unsigned i = 0; vmem_page_pos_t last = vmem_page_pos_nil;
	for (auto itr = c.begin(); itr != c.end(); itr++, i++) {
		abc_assert(i < n, "iteration ends after the last item");
		abc_assert(itr.can_deref(), "an iterator to an item can be dereferenced");
		abc_assert(val(*itr) == m[i], "the items are in order");
		if (used && itr.page_pos() != last) used->add(last = itr.page_pos(), "the pages of a container are pages of the pool");
	}
	abc_assert(i == n, "forward iteration reaches every item");
	for (auto itr = c.rend(); itr != c.rbegin(); itr--) { abc_assert(i > 0, "backward iteration ends before the first item"); abc_assert(val(*itr) == m[--i], "the items are in order backward"); }
	abc_assert(i == 0, "backward iteration reaches every item");
	if (n) { abc_assert(val(c.front()) == m[0] && val(c.back()) == m[n - 1], "front and back are the first and the last item"); }
}
template <class C> static typename C::iterator nth(C& c, unsigned p) { typename C::iterator itr = c.begin(); while (p--) itr++; return itr; }
static uint16_t sym16(const char* name) { uint16_t v; abc_sym(&v, 2, name); return v; }
#ifdef H_SEQ
#ifndef SEQ
#define SEQ vmem_list
#define STATE vmem_list_state
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef GROUP
#define GROUP 2
#endif
#ifndef FILLED
#define FILLED 0
#endif
typedef SEQ<Item, Pool> Seq;
// FILL items in some way, then K operations at any position, compared with a plain array
HARNESS h_seq() {
	uint16_t m[FILL + K * GROUP + 2]; unsigned n = 0;
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Seq* c = new Seq((STATE*)start->ptr(), pool, nullptr);
		unsigned fill = FILLED + pick("fill", FILL - FILLED + 1), how = pick("how", 2);
		for (unsigned i = 0; i < fill; i++) {
			uint16_t v = sym16("v");
			if (how == 0) { c->push_back(item(v)); m[n++] = v; }
			else { c->push_front(item(v)); std::memmove(m + 1, m, n * 2); m[0] = v; n++; }
		}
		for (unsigned k = 0; k < K; k++) {
			unsigned op = (unsigned)pick("op", OPS);
			if (op == 0) {
				unsigned p = (unsigned)pick("at", n + 1); uint16_t v = sym16("v");
				auto r = c->insert(nth(*c, p), item(v));
				std::memmove(m + p + 1, m + p, (n - p) * 2); m[p] = v; n++;
				abc_assert(r == nth(*c, p), "insert returns the new item");
				if (c->page_capacity() < n) abc_reach("split");
			}
			else if (op == 1) {
				if (!n) abc_stop();
				unsigned p = (unsigned)pick("at", n);
				auto r = c->erase(nth(*c, p));
				n--; std::memmove(m + p, m + p + 1, (n - p) * 2);
				abc_assert(r == nth(*c, p), "erase returns the item after the erased one");
				abc_reach("erased");
			}
			else if (op == 2) {
				unsigned p = (unsigned)pick("at", n + 1), g = (unsigned)pick("group", GROUP + 1); Item g_[GROUP + 1]; uint16_t w[GROUP + 1];
				for (unsigned i = 0; i < g; i++) g_[i] = item(w[i] = sym16("v"));
				auto r = c->insert(nth(*c, p), g_, g_ + g);
				std::memmove(m + p + g, m + p, (n - p) * 2); std::memcpy(m + p, w, g * 2); n += g;
				abc_assert(r == nth(*c, p), "inserting a range returns its first item");
			}
			else if (op == 3) {
				unsigned p = (unsigned)pick("at", n + 1), q = p + (unsigned)pick("to", n - p + 1);
				auto r = c->erase(nth(*c, p), nth(*c, q));
				std::memmove(m + p, m + q, (n - q) * 2); n -= q - p;
				abc_assert(r == nth(*c, p), "erasing a range returns the item after it");
			}
			else if (op == 4) { if (pick("end", 2)) { if (!n) abc_stop(); c->pop_back(); n--; } else { if (!n) abc_stop(); c->pop_front(); n--; std::memmove(m, m + 1, n * 2); } }
			else if (op == 5) { c->clear(); n = 0; }
			else if (op == 6) { delete c; delete start; delete pool; vfs::closed(); pool = new Pool("p"); start = new Page(pool, vmem_page_pos_start); c = new Seq((STATE*)start->ptr(), pool, nullptr); abc_reach("reopened"); }
			same(*c, m, n, nullptr);
		}
		Used used; same(*c, m, n, &used);
		if (n) abc_assert(n >= (used.n - 1) * (c->page_capacity() / 2), "on average the pages are at least half full, one page aside");
		drain(*pool, used);
		same(*c, m, n, nullptr);
		delete c; delete start;
	}
	delete pool; vfs::closed();
	abc_reach("end");
}
#endif
#ifdef H_FAULT
// One operation meets a fault. If the disk is full, the operation is done or not done, and the container goes on; if a page can not be mapped, nothing that is not mapped is touched.
#ifndef FILLED
#define FILLED 0
#endif
#ifndef FAULTS
#define FAULTS 12
#endif
typedef SEQ<Item, Pool> Seq;
template <class C> static bool is(C& c, const uint16_t* m, unsigned n) {
	if (c.size() != n) return false; unsigned i = 0;
	for (auto itr = c.begin(); itr != c.end(); itr++, i++) { if (i >= n || !itr.can_deref() || val(*itr) != m[i]) return false; }
	return i == n;
}
template <class C, class I> static void put(C* c, I itr, uint16_t v, int(*)[2]) { c->insert(itr, item(v)); }
template <class C, class I> static void cut(C* c, I itr, int(*)[2]) { c->erase(itr); }
template <class C, class I> static void put(C* c, I, uint16_t v, int(*)[1]) { c->push_back(item(v)); }
template <class C, class I> static void cut(C* c, I, int(*)[1]) { c->pop_back(); }
HARNESS h_fault() {
	uint16_t m[FILL + 3], b[FILL + 3]; unsigned n = 0, bn;
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Seq* c = new Seq((STATE*)start->ptr(), pool, nullptr);
		unsigned fill = FILLED + pick("fill", FILL - FILLED + 1);
		for (unsigned i = 0; i < fill; i++) { m[n] = sym16("v"); c->push_back(item(m[n++])); }
		unsigned op = pick("op", 3), p = OPS ? pick("at", n + (op == 0)) : op ? n - 1 : n; if (op && !n) abc_stop();
		uint16_t v = sym16("v"); std::memcpy(b, m, sizeof m); bn = n; bool thrown = false;
		unsigned at = (unsigned)abc_choice("fault", FAULTS); bool map = abc_choice("map", 2);
		auto itr = nth(*c, p);
		if (map) vfs::fail_mmap = (int)at; else { vfs::fail_write = (int)at; vfs::short_bytes = abc_choice("short", 2) ? 2047 : -1; }
		try {
			if (op == 0) { put(c, itr, v, (int(*)[OPS + 1])nullptr); std::memmove(m + p + 1, m + p, (n - p) * 2); m[p] = v; n++; }
			else if (op == 1) { cut(c, itr, (int(*)[OPS + 1])nullptr); n--; std::memmove(m + p, m + p + 1, (n - p) * 2); }
			else { c->clear(); n = 0; }
		} catch (std::exception&) { thrown = true; }
		if (vfs::fail_mmap >= 0 || vfs::fail_write >= 0) { vfs::fail_mmap = vfs::fail_write = -1; abc_stop(); }
		if (!map) {
			abc_assert(!thrown, "a full disk is no reason to throw"); abc_reach("full");
			bool was = is(*c, b, bn), done = is(*c, m, n);
			abc_assert(was || done, "an operation that meets a full disk is done or not done");
			if (!done) { std::memcpy(m, b, sizeof m); n = bn; }
			c->push_back(item(7)); m[n++] = 7; same(*c, m, n, nullptr);
			Used used; same(*c, m, n, &used); drain(*pool, used);
			while (n) { c->pop_back(); n--; same(*c, m, n, nullptr); }
		}
		else {	// nothing is claimed about the items, but whatever there is can be walked
			unsigned k = 0; for (auto i = c->begin(); i != c->end() && k <= FILL + 1; i++) { k++; if (i.can_deref()) (void)i->v; } abc_assert(k <= FILL + 1, "iteration ends"); abc_reach("unmapped");
		}
		delete c; delete start;
	}
	delete pool; vfs::closed();
	try { Pool again("p"); } catch (std::exception&) { abc_assert(0, "a file that met a fault can be opened again"); }
	vfs::closed(); abc_reach("end");
}
#endif
#ifdef H_STACK
typedef vmem_stack<Item, Pool> Stack;
// pushing and popping in any order, with the page of other containers in between
HARNESS h_stack() {
	uint16_t m[FILL + K + 2]; unsigned n = 0;
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Stack* c = new Stack((vmem_stack_state*)start->ptr(), pool, nullptr);
		unsigned fill = pick("fill", FILL + 1);
		for (unsigned i = 0; i < fill; i++) { uint16_t v = sym16("v"); c->push_back(item(v)); m[n++] = v; }
		for (unsigned k = 0; k < K; k++) {
			unsigned op = pick("op", 4);
			if (op == 0) { uint16_t v = sym16("v"); c->push_back(item(v)); m[n++] = v; }
			else if (op == 1) { if (!n) abc_stop(); c->pop_back(); n--; abc_reach("popped"); }
			else if (op == 2) { c->clear(); n = 0; }
			else { delete c; delete start; delete pool; vfs::closed(); pool = new Pool("p"); start = new Page(pool, vmem_page_pos_start); c = new Stack((vmem_stack_state*)start->ptr(), pool, nullptr); abc_reach("reopened"); }
			same(*c, m, n, nullptr);
		}
		Used used; same(*c, m, n, &used);
		if (pick("temp", 2)) {
			std::size_t before = vfs::pages(); vmem_stack_state ts;
			{ vmem_temp<Stack> t(&ts, pool, nullptr); for (unsigned i = 0; i < 5; i++) t.push_back(item(i)); unsigned left = pick("left", 6); while (t.size() > left) t.pop_back(); for (unsigned i = 0; i < left; i++) abc_assert(val(*nth(t, i)) == i, "the items of a temporary container"); }
			abc_assert(vfs::pages() <= before + 5, "a temporary container takes the pages it needs");
			abc_reach("temporary");
		}
		drain(*pool, used);
		same(*c, m, n, nullptr);
		delete c; delete start;
	}
	delete pool; vfs::closed();
	abc_reach("end");
}
#endif
#ifdef H_MAP
#ifndef KPAD
#define KPAD 1338
#endif
struct BigKey { uint16_t k; char pad[KPAD]; bool operator <(const BigKey& o) const { return k < o.k; } bool operator <=(const BigKey& o) const { return k <= o.k; } bool operator ==(const BigKey& o) const { return k == o.k; } };
#ifdef VPAD
struct Val { uint16_t v; char pad[VPAD]; Val& operator =(uint16_t x) { v = x; pad[VPAD - 1] = (char)x; return *this; } operator uint16_t() const { return pad[VPAD - 1] == (char)v ? v : (uint16_t)~v; } };
#else
typedef uint16_t Val;
#endif
typedef vmem_map<BigKey, Val, Pool> Map;
typedef vmem_map_value<BigKey, Val> Pair;
static BigKey key(uint16_t k) { BigKey b; std::memset(&b, 0, sizeof b); b.k = k; b.pad[KPAD - 1] = (char)k; return b; }
static Pair pair(uint16_t k, uint16_t v) { Pair p; p.key = key(k); p.value = v; return p; }
struct Model { uint16_t k[FILL + K + 2], v[FILL + K + 2]; unsigned n = 0;
	unsigned at(uint16_t key) const { unsigned i = 0; while (i < n && k[i] < key) i++; return i; }
	bool has(unsigned i, uint16_t key) const { return i < n && k[i] == key; }
	void put(unsigned i, uint16_t key, uint16_t val) { std::memmove(k + i + 1, k + i, (n - i) * 2); std::memmove(v + i + 1, v + i, (n - i) * 2); k[i] = key; v[i] = val; n++; }
	void cut(unsigned i) { n--; std::memmove(k + i, k + i + 1, (n - i) * 2); std::memmove(v + i, v + i + 1, (n - i) * 2); } };
static void agree(Map& c, const Model& m) {
	abc_assert(c.size() == m.n && c.empty() == (m.n == 0), "the size is the number of items");
	unsigned i = 0;
	for (auto itr = c.begin(); itr != c.end(); itr++, i++) { abc_assert(i < m.n, "iteration ends after the last item"); const Pair& p = *itr; abc_assert(p.key.k == m.k[i] && p.value == m.v[i] && p.key.pad[KPAD - 1] == (char)m.k[i], "iteration goes by ascending key"); }
	abc_assert(i == m.n, "iteration reaches every item");
	for (auto itr = c.rend(); itr != c.rbegin(); itr--) { abc_assert(i > 0 && (*itr).key.k == m.k[i - 1], "backward iteration goes by descending key"); i--; }
	abc_assert(i == 0, "backward iteration reaches every item");
	for (i = 0; i < m.n; i++) { auto p = c[key(m.k[i])]; abc_assert(p != nullptr && p->value == m.v[i], "every key is found with its value"); }
}
// the pages of all levels, by the documented layout of the state
static void levels(Pool* pool, vmem_map_state* st, Used& used) {
	vmem_linked<Pool> vals(&st->values, pool, nullptr), stack(&st->keys, pool, nullptr);
	for (auto i = vals.begin(); i != vals.end(); i++) used.add(i.page_pos(), "the pages of a map are pages of the pool");
	for (auto i = stack.begin(); i != stack.end(); i++) used.add(i.page_pos(), "the pages of a map are pages of the pool");
	vmem_stack<vmem_container_state, Pool> s(&st->keys, pool, nullptr);
	for (auto i = s.begin(); i != s.end(); i++) { vmem_container_state ls = *i; vmem_linked<Pool> l(&ls, pool, nullptr); for (auto j = l.begin(); j != l.end(); j++) used.add(j.page_pos(), "the pages of a map are pages of the pool"); }
}
HARNESS h_map() {
	Model m;
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Map* c = new Map((vmem_map_state*)start->ptr(), pool, nullptr);
		// fill with keys 100, 200, ... in a fixed order
		unsigned fill = FILLED + pick("fill", FILL - FILLED + 1), how = pick("how", 3);
		for (unsigned i = 0; i < fill; i++) {
			unsigned r = how == 0 ? i : how == 1 ? fill - 1 - i : (i & 1) ? fill - 1 - i / 2 : i / 2;
			uint16_t k = (uint16_t)(100 * (r + 1)), v = sym16("v");
			auto res = c->insert(pair(k, v)); abc_assert(res.second && (*res.first).key.k == k, "a new key is inserted"); m.put(m.at(k), k, v);
		}
		// erase some of them in order
		unsigned gone = pick("gone", GONE + 1), from = gone ? pick("from", 2) : 0;
		for (unsigned g = 0; g < gone && m.n; g++) { unsigned i = from ? m.n - 1 : 0; abc_assert(c->erase(key(m.k[i])) == 1, "a key that is there is erased"); m.cut(i); }
		for (unsigned k = 0; k < K; k++) {
			unsigned op = pick("op", 3 + OPEN); uint16_t x = sym16("key");
			unsigned i = m.at(x); bool has = m.has(i, x);
			if (op == 0) {
				uint16_t v = sym16("v");
				auto r = c->insert(pair(x, v));
				abc_assert(r.second == !has, "a key is inserted unless it is there");
				if (!has) { m.put(i, x, v); abc_reach("inserted"); }
				abc_assert((*r.first).key.k == x && (*r.first).value == m.v[i], "insert returns the item with the key");
			}
			else if (op == 1) {
				abc_assert(c->erase(key(x)) == (has ? 1 : 0), "a key is erased if it is there");
				if (has) { m.cut(i); abc_reach("erased"); }
			}
			else if (op == 2) {
				const Map& cc = *c;
				abc_assert(cc.contains(key(x)) == has && (c->find(key(x)) != c->end()) == has && (cc[key(x)] != nullptr) == has, "a key is found if and only if it is there");
				abc_reach(has ? "found" : "missed"); if (k + 1 < K) abc_stop(); else break;
			}
			else { if (pick("clear", 2)) { c->clear(); m.n = 0; } delete c; delete start; delete pool; vfs::closed(); pool = new Pool("p"); start = new Page(pool, vmem_page_pos_start); c = new Map((vmem_map_state*)start->ptr(), pool, nullptr); }
		}
		agree(*c, m);
		Used used; levels(pool, (vmem_map_state*)start->ptr(), used);
		drain(*pool, used);
		delete c; delete start;
	}
	delete pool; vfs::closed();
	abc_reach("end");
}
// an operation on a map meets a fault
#ifdef FAULTS
HARNESS h_map_fault() {
	Model m;
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Map* c = new Map((vmem_map_state*)start->ptr(), pool, nullptr);
		unsigned fill = FILLED + pick("fill", FILL - FILLED + 1), how = pick("how", 2);
		for (unsigned i = 0; i < fill; i++) { uint16_t k = (uint16_t)(100 * ((how ? fill - 1 - i : i) + 1)), v = sym16("v"); abc_assert(c->insert(pair(k, v)).second, "a new key is inserted"); m.put(m.at(k), k, v); }
		unsigned op = pick("op", 3); uint16_t x = op < 2 ? sym16("key") : 0, v = sym16("v"); unsigned i = m.at(x); bool has = m.has(i, x), thrown = false, inserted = false; std::size_t erased = 0;
		unsigned at = (unsigned)abc_choice("fault", FAULTS); bool map = abc_choice("map", 2);
		if (map) vfs::fail_mmap = (int)at; else { vfs::fail_write = (int)at; vfs::short_bytes = -1; }
		try { if (op == 0) inserted = c->insert(pair(x, v)).second; else if (op == 1) erased = c->erase(key(x)); else c->clear(); } catch (std::exception&) { thrown = true; }
		if (vfs::fail_mmap >= 0 || vfs::fail_write >= 0) { vfs::fail_mmap = vfs::fail_write = -1; abc_stop(); }
		if (!map) {
			abc_assert(!thrown && op < 2, "a full disk is no reason to throw"); abc_reach("full");
			abc_assert(!(inserted && has) && erased <= (has ? 1 : 0), "a key is inserted unless it is there, and erased if it is there");
			if (inserted) m.put(i, x, v); if (erased) m.cut(i);
			agree(*c, m);
			unsigned j = m.at(x); if (!m.has(j, x)) { abc_assert(c->insert(pair(x, v)).second, "it can be inserted later"); m.put(j, x, v); agree(*c, m); }
			Used used; levels(pool, (vmem_map_state*)start->ptr(), used); drain(*pool, used);
			while (m.n) { abc_assert(c->erase(key(m.k[0])) == 1, "a key that is there is erased"); m.cut(0); } agree(*c, m);
		}
		else {
			unsigned k = 0; for (auto j = c->begin(); j != c->end() && k <= 2 * FILL; j++) { k++; if (j.can_deref()) (void)j->value; } abc_assert(k <= 2 * FILL, "iteration ends");
			c->find(key(x)); abc_reach("unmapped");
		}
		delete c; delete start;
	}
	delete pool; vfs::closed();
	try { Pool again("p"); } catch (std::exception&) { abc_assert(0, "a file that met a fault can be opened again"); }
	vfs::closed(); abc_reach("end");
}
#endif
#endif
#ifdef H_LINKED
typedef vmem_linked<Pool> Linked;
struct Chain { vmem_page_pos_t p[FILL + K + 2]; unsigned n = 0; void put(unsigned i, vmem_page_pos_t x) { std::memmove(p + i + 1, p + i, (n - i) * sizeof *p); p[i] = x; n++; } void cut(unsigned i) { n--; std::memmove(p + i, p + i + 1, (n - i) * sizeof *p); } };
static void follow(Linked& l, const Chain& m, Used* used) {
	unsigned i = 0;
	abc_assert(l.empty() == (m.n == 0), "only a list without pages is empty");
	for (auto itr = l.begin(); itr != l.end(); itr++, i++) { abc_assert(i < m.n && itr.page_pos() == m.p[i], "the pages are in order"); if (used) used->add(itr.page_pos(), "the pages of a list are pages of the pool"); }
	abc_assert(i == m.n, "iteration reaches every page");
	for (auto itr = l.rend(); itr != l.rbegin(); itr--) { abc_assert(i > 0 && itr.page_pos() == m.p[i - 1], "the pages are in order backward"); i--; }
	abc_assert(i == 0, "backward iteration reaches every page");
	if (m.n) abc_assert(l.front() == m.p[0] && l.back() == m.p[m.n - 1], "front and back are the first and the last page");
}
static Linked::iterator nthl(Linked& l, unsigned p) { auto itr = l.begin(); while (p--) itr++; return itr; }
HARNESS h_linked() {
	Pool* pool = new Pool("p");
	{
		vmem_linked_state st[2]; Linked a(&st[0], pool, nullptr), b(&st[1], pool, nullptr); Linked* l[2] = { &a, &b }; Chain m[2];
		for (unsigned w = 0; w < 2; w++) { unsigned fill = pick("fill", w ? 3 : FILL + 1); for (unsigned i = 0; i < fill; i++) { vmem_page_pos_t x; { Page p(pool); x = p.pos(); } l[w]->push_back(x); m[w].put(m[w].n, x); } }
		for (unsigned k = 0; k < K; k++) {
			unsigned op = pick("op", 4), w = pick("list", 2);
			if (op == 0) { unsigned at = pick("at", m[w].n + 1); vmem_page_pos_t x; { Page p(pool); x = p.pos(); } auto r = l[w]->insert(nthl(*l[w], at), x); m[w].put(at, x); abc_assert(r == nthl(*l[w], at), "insert returns the new page"); }
			else if (op == 1) { if (!m[w].n) abc_stop(); unsigned at = pick("at", m[w].n); auto r = l[w]->erase(nthl(*l[w], at)); m[w].cut(at); abc_assert(r == nthl(*l[w], at), "erase returns the page after the erased one"); abc_reach("erased"); }
			else if (op == 2) { l[w]->splice(*l[1 - w]); for (unsigned i = 0; i < m[1 - w].n; i++) m[w].put(m[w].n, m[1 - w].p[i]); m[1 - w].n = 0; abc_reach("spliced"); }
			else { l[w]->clear(); m[w].n = 0; abc_reach("cleared"); }
			follow(a, m[0], nullptr); follow(b, m[1], nullptr);
		}
		Used used; follow(a, m[0], &used); follow(b, m[1], &used);
		drain(*pool, used);
	}
	delete pool; vfs::closed();
	abc_reach("end");
}
#endif
#ifdef H_STRING
#include <istream>
#include <ostream>
typedef vmem_string<Pool> Str;
// what is put through a stream, one char at a time or in blocks, is read back
HARNESS h_string() {
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Str* s = new Str((vmem_string_state*)start->ptr(), pool, nullptr);
		unsigned base = pick("base", 2) ? 4067 : 0;		// up to the end of a page
		static char fill[4068]; for (unsigned i = 0; i < base; i++) fill[i] = (char)(i * 7);
		if (base) { for (unsigned i = 0; i < base; i++) s->push_back(fill[i]); }
		char text[K]; abc_sym(text, K, "text");
		unsigned n = pick("n", K + 1), block = 1 + pick("block", 3);
		{
			vmem_string_streambuf<Pool> sb(s); bool moved = false;
			vmem_string_streambuf<Pool>* cur = &sb; 
			unsigned move = pick("move", K + 1);
			vmem_string_streambuf<Pool>* other = nullptr;
			for (unsigned i = 0; i < n;) {
				if (i >= move && !moved) { other = new vmem_string_streambuf<Pool>(std::move(*cur)); cur = other; moved = true; }
				unsigned g = block < n - i ? block : n - i;
				if (g == 1) abc_assert(cur->sputc(text[i]) != EOF, "a char is put"); else abc_assert(cur->sputn(text + i, g) == (std::streamsize)g, "chars are put");
				i += g;
				if (i == 2 && pick("flush", 2)) abc_assert(cur->pubsync() == 0, "flushed");
			}
			abc_assert(cur->pubsync() == 0, "flushed");
			delete other;
		}
		abc_assert(s->size() == base + n, "every char is stored once");
		if (pick("reopen", 2)) { delete s; delete start; delete pool; vfs::closed(); pool = new Pool("p"); start = new Page(pool, vmem_page_pos_start); s = new Str((vmem_string_state*)start->ptr(), pool, nullptr); }
		{
			vmem_string_streambuf<Pool> sb(s), * cur = &sb, * other = nullptr; unsigned peek = pick("peek", n + 1);
			for (unsigned i = 0; i < base; i++) abc_assert(cur->sbumpc() == (unsigned char)fill[i], "chars are read back in order");
			for (unsigned i = 0; i < n; i++) {
				if (i == peek) { abc_assert(cur->sgetc() == (unsigned char)text[i], "a char can be looked at"); other = new vmem_string_streambuf<Pool>(std::move(*cur)); cur = other; }
				abc_assert(cur->sbumpc() == (unsigned char)text[i], "chars are read back in order");
			}
			abc_assert(cur->sbumpc() == EOF && cur->sgetc() == EOF, "the end of the string is the end of the stream");
			delete other;
		}
		Used used; vmem_page_pos_t last = vmem_page_pos_nil; for (auto itr = s->begin(); itr != s->end(); itr++) if (itr.page_pos() != last) used.add(last = itr.page_pos(), "the pages of a string");
		drain(*pool, used);
		delete s; delete start;
	}
	delete pool; vfs::closed();
	abc_reach("end");
}
// the disk is full when the string grows: a char that is refused is not stored, and nothing is lost
HARNESS h_string_full() {
	Pool* pool = new Pool("p");
	{
		Page* start = new Page(pool, vmem_page_pos_start);
		Str* s = new Str((vmem_string_state*)start->ptr(), pool, nullptr);
		unsigned base = 4066 - (unsigned)Str::page_capacity() % 4 + pick("base", 5); if (base > 4068) base = 4068; if (pick("empty", 2)) base = 0;
		static char fill[4072]; for (unsigned i = 0; i < base; i++) { fill[i] = (char)(i * 7); s->push_back(fill[i]); }
		char text[K], want[K]; abc_sym(text, K, "text"); unsigned n = 0, block = 1 + pick("block", 3);
		vfs::fail_write = 0; vfs::short_bytes = pick("short", 2) ? 100 : -1; bool fault = false;
		vmem_string_streambuf<Pool>* sb = new vmem_string_streambuf<Pool>(s);
		for (unsigned i = 0; i < K;) {
			unsigned g = block < K - i ? block : K - i, done;
			if (g == 1) done = sb->sputc(text[i]) != EOF; else done = (unsigned)sb->sputn(text + i, g);
			abc_assert(done <= g, "no more is put than there is"); std::memcpy(want + n, text + i, done); n += done; i += g;
		}
		bool was = vfs::fail_write < 0, synced = sb->pubsync() == 0; abc_assert(synced || (!was && vfs::fail_write < 0), "a flush fails only if the disk is full");
		if (!synced) { abc_assert(sb->pubsync() == 0, "what could not be flushed can be flushed later"); abc_reach("flushed later"); }
		delete sb; fault = vfs::fail_write < 0; vfs::fail_write = -1;
		if (fault && synced) { abc_assert(n < K, "a char that has no room is refused"); abc_reach("full"); }
		if (!fault || !synced) abc_assert(n == K, "chars are put unless the disk is full");
		abc_assert(s->size() == base + n, "a char is stored if and only if it was taken");
		unsigned i = 0; for (auto itr = s->begin(); itr != s->end(); itr++, i++) abc_assert(*itr == (i < base ? fill[i] : want[i - base]), "what was taken is stored in order");
		abc_assert(i == base + n, "what was taken is stored");
		Used used; vmem_page_pos_t last = vmem_page_pos_nil; for (auto itr = s->begin(); itr != s->end(); itr++) if (itr.page_pos() != last) used.add(last = itr.page_pos(), "the pages of a string");
		drain(*pool, used);
		delete s; delete start;
	}
	delete pool; vfs::closed(); abc_reach("end");
}
#endif
