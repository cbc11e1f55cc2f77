// Threads, atomics, mutexes, condition variables and time for the code under test: cooperative threads
// over abc_co_*, which may be preempted `budget` times at every access to a shared variable (vatomic), every
// lock and unlock, and every call to yield_here().  Time is discrete: it only passes when every thread waits.
#pragma once
#ifndef DETACHED
#define DETACHED
#endif
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include "abcsym.h"
#ifndef THREADS
#define THREADS 12
#endif
static void yield_here(void);
static int spawn(void (*fn)(void*), void* arg);
static void wait_while(const bool* flag, bool value, long long until = -1);	// until the flag has another value, or the time comes
static long long now_ns = 1000000000;
static void sleep_ns(long long until);
static int self(void);
static const bool* done_flag(int id);
struct Task0 { virtual ~Task0() {} virtual void run() = 0; };
static void run_task(void* p);
static bool spurious;							// whether a wait for a condition may end by itself, once
namespace std {
	template <typename T> class vatomic {
		T v;
	public:
		vatomic(T x = T()) : v(x) {}
		vatomic(const vatomic&) = delete;
		T load(memory_order = memory_order_seq_cst) const { yield_here(); return v; }
		void store(T x, memory_order = memory_order_seq_cst) { yield_here(); v = x; }
		T exchange(T x, memory_order = memory_order_seq_cst) { yield_here(); T o = v; v = x; return o; }
		bool compare_exchange_strong(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { yield_here(); if (v == e) { v = x; return true; } e = v; return false; }
		bool compare_exchange_weak(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { return compare_exchange_strong(e, x); }
		T fetch_add(T x, memory_order = memory_order_seq_cst) { yield_here(); T o = v; v = o + x; return o; }
		T fetch_sub(T x, memory_order = memory_order_seq_cst) { yield_here(); T o = v; v = o - x; return o; }
		operator T() const { return load(); }
		T operator=(T x) { store(x); return x; }
		T operator++() { return fetch_add(1) + 1; }
		T operator--() { return fetch_sub(1) - 1; }
		T operator++(int) { return fetch_add(1); }
		T operator--(int) { return fetch_sub(1); }
		T operator+=(T x) { return fetch_add(x) + x; }
		T operator-=(T x) { return fetch_sub(x) - x; }
	};
	typedef vatomic<int> vatomic_int; typedef vatomic<bool> vatomic_bool;
	class vmutex {
		bool held = false;
	public:
		vmutex() {} vmutex(const vmutex&) = delete;
		void lock() { yield_here(); while (held) wait_while(&held, true); held = true; }
		bool try_lock() { yield_here(); if (held) return false; return held = true; }
		void unlock() { abc_assert(held, "a mutex is unlocked while it is locked"); held = false; yield_here(); }
		void release_now() { held = false; }
	};
	class vcondition_variable {
		struct W { bool signalled; W* next; }; W* first = nullptr;
		void enter(W& w) { w.signalled = false; w.next = first; first = &w; }
		void leave(W& w) { for (W** p = &first; *p; p = &(*p)->next) if (*p == &w) { *p = w.next; return; } }
		bool wait_until_ns(unique_lock<vmutex>& lock, long long until) {
			W w; enter(w); lock.mutex()->release_now();
			if (spurious && abc_choice("spurious", 2)) { spurious = false; yield_here(); } else wait_while(&w.signalled, false, until);
			bool r = w.signalled; leave(w); lock.mutex()->lock(); return r;
		}
	public:
		vcondition_variable() {} vcondition_variable(const vcondition_variable&) = delete;
		~vcondition_variable() { abc_assert(!first, "no thread waits for a condition that goes away"); }
		void notify_all() noexcept { yield_here(); for (W* w = first; w; w = w->next) w->signalled = true; }
		void notify_one() noexcept { yield_here(); W* last = nullptr; for (W* w = first; w; w = w->next) if (!w->signalled) last = w; if (last) last->signalled = true; }
		void wait(unique_lock<vmutex>& lock) { wait_until_ns(lock, -1); }
		template <typename P> void wait(unique_lock<vmutex>& lock, P p) { while (!p()) wait(lock); }
		template <typename D> cv_status wait_for(unique_lock<vmutex>& lock, D d) { return wait_until_ns(lock, now_ns + chrono::duration_cast<chrono::nanoseconds>(d).count()) ? cv_status::no_timeout : cv_status::timeout; }
		template <typename D, typename P> bool wait_for(unique_lock<vmutex>& lock, D d, P p) { long long end = now_ns + chrono::duration_cast<chrono::nanoseconds>(d).count(); while (!p()) { if (now_ns >= end) return p(); wait_until_ns(lock, end); } return true; }
		template <typename T> cv_status wait_until(unique_lock<vmutex>& lock, T t) { return wait_until_ns(lock, chrono::duration_cast<chrono::nanoseconds>(t.time_since_epoch()).count()) ? cv_status::no_timeout : cv_status::timeout; }
		template <typename T, typename P> bool wait_until(unique_lock<vmutex>& lock, T t, P p) { long long end = chrono::duration_cast<chrono::nanoseconds>(t.time_since_epoch()).count(); while (!p()) { if (now_ns >= end) return p(); wait_until_ns(lock, end); } return true; }
	};
	class vthread {
		int n = 0;
		template <typename F, typename A> struct T1 : Task0 { F f; A a; T1(F f_, A&& a_) : f(f_), a(static_cast<A&&>(a_)) {} void run() override { f(a); } };
		template <typename F, typename A, typename B> struct T2 : Task0 { F f; A a; B b; template <typename X> T2(F f_, A a_, X&& b_) : f(f_), a(a_), b(static_cast<X&&>(b_)) {} void run() override { f(a, static_cast<B&&>(b)); } };
		template <typename F> struct T3 : Task0 { F f; T3(F&& f_) : f(static_cast<F&&>(f_)) {} void run() override { f(); } };
	public:
		vthread() {}
		vthread(vthread&& o) noexcept : n(o.n) { o.n = 0; }
		vthread& operator=(vthread&& o) noexcept { abc_assert(!n, "no running thread is replaced, which would end the process"); n = o.n; o.n = 0; return *this; }
		template <typename F, typename = typename enable_if<!is_same<typename decay<F>::type, vthread>::value>::type> explicit vthread(F f) { n = ::spawn(run_task, new T3<F>(static_cast<F&&>(f))); }
		template <typename F, typename A> vthread(F f, A a) { n = ::spawn(run_task, new T1<F, A>(f, static_cast<A&&>(a))); }
		template <typename F, typename A, typename B> vthread(F f, A a, B&& b) { n = ::spawn(run_task, new T2<F, A, typename decay<B>::type>(f, a, static_cast<B&&>(b))); }
		~vthread() { abc_assert(!n, "a thread is joined or detached before its object goes away, or the process ends"); }
		bool joinable() const { return n != 0; }
		void detach() { abc_assert(n, "a thread is detached once"); n = 0; DETACHED }
		void join() { abc_assert(n && n != self(), "a thread is joined once, by another thread"); yield_here(); wait_while(done_flag(n), false); n = 0; }
		void swap(vthread& o) noexcept { int t = n; n = o.n; o.n = t; }
	};
	namespace vthis_thread {
		template <typename D> void sleep_for(D d) { ::sleep_ns(now_ns + chrono::duration_cast<chrono::nanoseconds>(d).count()); }
		template <typename T> void sleep_until(T t) { ::sleep_ns(chrono::duration_cast<chrono::nanoseconds>(t.time_since_epoch()).count()); }
		inline thread::id get_id() noexcept { return this_thread::get_id(); }
		inline void yield() noexcept { yield_here(); }
	}
}
// ---------------------------------------------------------------- the scheduler
static int ncos, cur, budget; static bool done[THREADS], blocked[THREADS]; static const bool* waits[THREADS]; static bool waits_for[THREADS]; static long long wake[THREADS];
static bool preempt;								// whether threads may be preempted
static int self(void) { return cur; }
static const bool* done_flag(int id) { return &done[id]; }
static int spawn(void (*fn)(void*), void* arg) { int id = abc_co_create(fn, arg); abc_assert(id == ncos + 1 && id < THREADS, "model"); ncos = id; done[id] = blocked[id] = false; waits[id] = nullptr; wake[id] = -1; return id; }
static void leave_cpu(void) { int me = cur; abc_co_switch(0); cur = me; }
static void yield_here(void) { if (preempt && cur) leave_cpu(); }
static void wait_while(const bool* flag, bool value, long long until) {
	if (*flag != value) return;
	abc_assert(cur != 0, "nothing is waited for when only one thread runs"); int me = cur; waits[me] = flag; waits_for[me] = value; wake[me] = until;
	do leave_cpu(); while (*flag == value && !(until >= 0 && now_ns >= until));
	waits[me] = nullptr; wake[me] = -1;
}
static void sleep_ns(long long until) { if (!cur) { if (until > now_ns) now_ns = until; return; } int me = cur; wake[me] = until; do leave_cpu(); while (now_ns < until); wake[me] = -1; }
static bool runs(int i) { return !done[i] && !blocked[i] && (waits[i] ? *waits[i] != waits_for[i] || (wake[i] >= 0 && now_ns >= wake[i]) : now_ns >= wake[i]); }
static void block(void) { int me = cur; blocked[me] = true; for (;;) leave_cpu(); }
static void run_task(void* p) {
	Task0* t = (Task0*)p;
	try { t->run(); } catch (...) { abc_assert(0, "no exception leaves a thread, which would end the process"); }
	delete t; done[cur] = true;
	int me = cur; abc_co_switch(0); (void)me;
}
static bool in_order;								// whether the first thread that can run does
static bool finished;								// whether what goes on does not matter any more
static void schedule(void) {
	int last = 0;
	for (;;) {
		if (finished) break;
		int r[THREADS], n = 0;
		for (int i = 1; i <= ncos; i++) if (runs(i)) r[n++] = i;
		if (!n) {
			long long t = -1; for (int i = 1; i <= ncos; i++) if (!done[i] && !blocked[i] && wake[i] >= 0 && (t < 0 || wake[i] < t)) t = wake[i];
			if (t >= 0) { now_ns = t; continue; }
			for (int i = 1; i <= ncos; i++) abc_assert(done[i] || blocked[i], "no thread waits for ever");
			break;
		}
		bool can = last && runs(last);
		int next;
		if (!can) next = r[n > 1 && !in_order ? abc_choice("next", n) : 0];
		else if (n > 1 && budget > 0 && abc_choice("preempt", 2)) {
			budget--; int k = 0; for (int i = 0; i < n; i++) if (r[i] != last) r[k++] = r[i];
			next = r[k > 1 ? abc_choice("to", k) : 0];
		}
		else next = last;
		cur = last = next; abc_co_switch(next);
	}
	cur = 0;
}
