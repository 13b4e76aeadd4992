// See rt.hpp. Compiled WITHOUT -fsanitize=thread.
#include "rt.hpp"
#include <algorithm>
#include <ucontext.h>
#include <cxxabi.h>
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <map>
#include <new>
#include <sys/mman.h>
#include <time.h>

namespace rt {
struct Fiber {
	ucontext_t ctx;
	char* stack = nullptr;
	const std::function<void()>* body = nullptr;
	bool done = false;
	uint64_t prio = 0;
	unsigned char eh[16]; // saved __cxa_eh_globals
};
static constexpr size_t STACK = 256 * 1024;
static std::vector<Fiber*> fibers;
static std::vector<char*> stack_pool;
static ucontext_t main_ctx;
static int cur = -1;
static bool active = false;
static Policy pol;
static Result res;
static uint64_t rng_s;
static uint64_t nsteps, next_switch;
static size_t change_idx;
static std::vector<uint64_t> changes;
static uint64_t low_prio;
static char *cur_lo, *cur_hi;

static inline uint64_t rnd() {
	uint64_t z = (rng_s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
void halt() { active = false; }
bool in_run() { return active && cur >= 0; }
int self() { return cur; }
uint64_t steps() { return nsteps; }

static void switch_to(int n);
static void fiber_main() {
	Fiber* f = fibers[cur];
	(*f->body)();
	f->done = true;
	// leave: pick another
	int n = -1;
	std::vector<int> r;
	for (size_t i = 0; i < fibers.size(); ++i) if (!fibers[i]->done) r.push_back((int)i);
	if (r.empty()) { cur = -1; setcontext(&main_ctx); }
	if (pol.kind == Policy::PCT) { uint64_t best = 0; for (int i : r) if (n < 0 || fibers[i]->prio > best) { best = fibers[i]->prio; n = i; } }
	else if (pol.kind == Policy::LIST) n = r[0];
	else n = r[rnd() % r.size()];
	cur = n;
	cur_lo = fibers[n]->stack; cur_hi = cur_lo + STACK;
	memcpy(abi::__cxa_get_globals(), fibers[n]->eh, 16);
	setcontext(&fibers[n]->ctx);
}
static void switch_to(int n) {
	if (n == cur) return;
	Fiber *a = fibers[cur], *b = fibers[n];
	++res.switches;
	cur = n;
	cur_lo = b->stack; cur_hi = cur_lo + STACK;
	memcpy(a->eh, abi::__cxa_get_globals(), 16);
	memcpy(abi::__cxa_get_globals(), b->eh, 16);
	int e = errno;
	swapcontext(&a->ctx, &b->ctx);
	errno = e;
}
static int pick_other() {
	int n = 0; int cand[16];
	for (size_t i = 0; i < fibers.size(); ++i) if (!fibers[i]->done && (int)i != cur) cand[n++] = (int)i;
	if (!n) return cur;
	return cand[rnd() % n];
}
static int pick_rr() {
	size_t n = fibers.size();
	for (size_t i = 1; i <= n; ++i) { size_t j = (cur + i) % n; if (!fibers[j]->done) return (int)j; }
	return cur;
}
static int pick_best() {
	int n = -1; uint64_t best = 0;
	for (size_t i = 0; i < fibers.size(); ++i) if (!fibers[i]->done && (n < 0 || fibers[i]->prio > best)) { n = (int)i; best = fibers[i]->prio; }
	return n;
}
static void plan_next() {
	if (nsteps >= pol.fair_after) { next_switch = nsteps + 40; return; }
	if (pol.kind == Policy::RANDOM) {
		// geometric-like
		uint64_t m = pol.mean ? pol.mean : 1;
		next_switch = nsteps + 1 + rnd() % (2 * m);
	}
	else if (pol.kind == Policy::PCT) next_switch = change_idx < changes.size() ? changes[change_idx] : ~0ull;
	else next_switch = change_idx < pol.list.size() ? pol.list[change_idx].first : ~0ull;
	if (next_switch > pol.fair_after) next_switch = pol.fair_after;
	if (next_switch <= nsteps) next_switch = nsteps + 1;
}
static void bail_hang() {
	res.hang = true;
	cur = -1;
	setcontext(&main_ctx);
}
static void at_switch_point() {
	if (nsteps > pol.max_steps) bail_hang();
	if (nsteps >= pol.fair_after) { int n = pick_rr(); plan_next(); switch_to(n); return; }
	if (pol.kind == Policy::RANDOM) { int n = pick_other(); plan_next(); switch_to(n); }
	else if (pol.kind == Policy::PCT) {
		if (change_idx < changes.size() && nsteps >= changes[change_idx]) { ++change_idx; fibers[cur]->prio = low_prio--; }
		plan_next();
		switch_to(pick_best());
	}
	else {
		int n = cur;
		if (change_idx < pol.list.size() && nsteps >= pol.list[change_idx].first) {
			n = pol.list[change_idx].second; ++change_idx;
			if (n < 0 || n >= (int)fibers.size() || fibers[n]->done) n = cur;
		}
		plan_next();
		switch_to(n);
	}
}
static inline void point() {
	++nsteps;
	if (__builtin_expect(nsteps >= next_switch, 0)) at_switch_point();
}
static void yield_point() {
	nsteps += 1;
	if (nsteps > pol.max_steps) bail_hang();
	if (nsteps >= pol.fair_after) { int n = pick_rr(); plan_next(); switch_to(n); return; }
	int n;
	if (pol.kind == Policy::PCT) { fibers[cur]->prio = low_prio--; n = pick_best(); }
	else if (pol.kind == Policy::LIST) n = pick_rr();
	else n = pick_other();
	plan_next();
	switch_to(n);
}

// ---- arena ----
static char* arena = nullptr;
static constexpr size_t ARENA = 256u << 20;
static uint8_t* shadow = nullptr; // one byte per 16 bytes: 0 never, 1 live, 2 freed
static size_t arena_pos = 0, arena_high = 0, live_blocks = 0;
static char err_buf[256];
static long fail_in = 0;
static void set_err(const char* e) { if (!err_buf[0]) { strncpy(err_buf, e, sizeof err_buf - 1); } }
const char* arena_error() { return err_buf; }
void note_error(const char* w) { set_err(w); }
void arena_reset() {
	if (!arena) {
		arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		shadow = (uint8_t*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	memset(shadow, 0, arena_pos / 16 + 1);
	arena_pos = 0; live_blocks = 0; err_buf[0] = 0; fail_in = 0;
}
struct Hdr { size_t n; size_t magic; };
void set_alloc_fail(long n) { fail_in = n; }
void* arena_alloc(size_t n) {
	if (fail_in && --fail_in == 0) throw std::bad_alloc();
	size_t sz = ((n + 15) & ~size_t(15)) + 32;
	if (arena_pos + sz > ARENA) { set_err("arena exhausted"); throw std::bad_alloc(); }
	char* p = arena + arena_pos;
	Hdr* h = (Hdr*)p; h->n = n; h->magic = 0xA110CA7E;
	char* u = p + 16;
	memset(u, 0xCD, n);
	memset(shadow + (u - arena) / 16, 1, (n + 15) / 16);
	arena_pos += sz;
	++live_blocks;
	return u;
}
void arena_free(void* q, size_t n) {
	char* u = (char*)q;
	if (u < arena + 16 || u >= arena + arena_pos) { set_err("deallocate of foreign pointer"); return; }
	Hdr* h = (Hdr*)(u - 16);
	if (h->magic != 0xA110CA7E) { set_err(h->magic == 0xDEAD ? "double deallocate" : "deallocate of bad pointer"); return; }
	if (h->n != n) set_err("deallocate with a different size");
	h->magic = 0xDEAD;
	memset(shadow + (u - arena) / 16, 2, (n + 15) / 16);
	memset(u, 0xDD, n);
	--live_blocks;
}
size_t arena_live() { return live_blocks; }

// ---- history ----
static std::vector<HEv> hs;
static std::map<const void*, std::pair<int, int>> fns;
static long live_n = 0, elem_fail = 0;
void hist(int c, int i, int k, int a, int b) { hs.push_back({ c, i, k, a, b }); }
std::vector<HEv> hist_take() { std::vector<HEv> r; r.swap(hs); fns.clear(); return r; }
void fn_enter(const void* e, bool mut) { auto& p = fns[e]; if (p.second || (mut && p.first)) set_err("functors overlap on one element"); if (mut) ++p.second; else ++p.first; }
void fn_leave(const void* e, bool mut) { auto it = fns.find(e); if (it == fns.end()) return; if (mut) --it->second.second; else --it->second.first; if (!it->second.first && !it->second.second) fns.erase(it); }
void live_add(long d) { live_n += d; }
long live_take() { long r = live_n; live_n = 0; return r; }
bool may_throw_now() { return elem_fail && --elem_fail == 0; }
void set_elem_fail(long n) { elem_fail = n; }

// ---- trace ----
static bool tracing = false;
static std::vector<Ev> tr;
struct Mark { char* p; size_t n; int loc; bool payload; };
static std::vector<Mark> marks;
void trace_start() { tracing = true; tr.clear(); }
std::vector<Ev> trace_stop() { tracing = false; marks.clear(); return tr; }
void trace_mark(void* p, size_t n, int loc, bool pl) { marks.push_back({ (char*)p, n, loc, pl }); }
void trace_user(char kind, int loc, long val) { if (tracing) tr.push_back({ cur, kind, loc, 0, 0, val, 0 }); }
static const Mark* find_mark(const volatile void* a) {
	char* p = (char*)a;
	for (auto& m : marks) if (p >= m.p && p < m.p + m.n) return &m;
	return nullptr;
}

static inline void access(const void* a, bool write, size_t n) {
	if (!active || cur < 0) return;
	char* p = (char*)a;
	if (p >= cur_lo && p < cur_hi) return; // own stack
	if (!pol.marks_only || find_mark(a)) point();
	if (p >= arena && p < arena + ARENA && arena) {
		uint8_t s = shadow[(p - arena) / 16];
		if (s != 1) set_err(s == 2 ? (write ? "write to freed memory" : "read of freed memory") : "access outside an allocated block");
	}
	if (tracing) if (const Mark* m = find_mark(a)) if (m->payload) {
		long v = 0; memcpy(&v, a, n < 8 ? n : 8);
		tr.push_back({ cur, write ? 'w' : 'r', m->loc, 0, 0, v, 0 });
	}
}
static inline void atomic_access(const volatile void* a) {
	if (!active || cur < 0) return;
	char* p = (char*)a;
	if (p >= cur_lo && p < cur_hi) return;
	if (!pol.marks_only || find_mark(a)) point();
	if (p >= arena && p < arena + ARENA && arena) {
		uint8_t s = shadow[(p - arena) / 16];
		if (s != 1) set_err(s == 2 ? "atomic access to freed memory" : "atomic access outside an allocated block");
	}
}
static inline void atomic_log(const volatile void* a, char k, int o, int o2, long v, long old) {
	if (!tracing || cur < 0) return;
	if (const Mark* m = find_mark(a)) tr.push_back({ cur, k, m->loc, o, o2, v, old });
}

Result run(const std::vector<std::function<void()>>& bodies, const Policy& p) {
	pol = p; res = Result(); rng_s = p.seed; nsteps = 0; change_idx = 0; changes.clear(); low_prio = 1000;
	for (size_t i = 0; i < bodies.size(); ++i) {
		Fiber* f = new Fiber;
		if (!stack_pool.empty()) { f->stack = stack_pool.back(); stack_pool.pop_back(); }
		else f->stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		f->body = &bodies[i];
		memset(f->eh, 0, 16);
		f->prio = 2000 + rnd() % 100000;
		getcontext(&f->ctx);
		f->ctx.uc_stack.ss_sp = f->stack;
		f->ctx.uc_stack.ss_size = STACK;
		f->ctx.uc_link = nullptr;
		makecontext(&f->ctx, fiber_main, 0);
		fibers.push_back(f);
	}
	if (pol.kind == Policy::PCT) {
		for (unsigned i = 0; i < pol.depth; ++i) changes.push_back(1 + rnd() % (pol.len ? pol.len : 1));
		std::sort(changes.begin(), changes.end());
	}
	int n;
	if (pol.kind == Policy::PCT) n = pick_best();
	else if (pol.kind == Policy::LIST) n = pol.first % (int)fibers.size();
	else n = rnd() % fibers.size();
	plan_next();
	active = true;
	unsigned char eh[16];
	memcpy(eh, abi::__cxa_get_globals(), 16);
	memset(abi::__cxa_get_globals(), 0, 16);
	cur = n; cur_lo = fibers[n]->stack; cur_hi = cur_lo + STACK;
	volatile bool once = false;
	getcontext(&main_ctx);
	if (!once) { once = true; setcontext(&fibers[n]->ctx); }
	active = false; cur = -1;
	memcpy(abi::__cxa_get_globals(), eh, 16);
	for (Fiber* f : fibers) { if (!res.hang) stack_pool.push_back(f->stack); else stack_pool.push_back(f->stack); delete f; }
	fibers.clear();
	res.steps = nsteps;
	res.error = err_buf;
	return res;
}
} // namespace rt

using namespace rt;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, true, 8); }
void __tsan_vptr_read(void** p) { access(p, false, 8); }
#define RW(N) \
	void __tsan_read##N(void* p) { access(p, false, N); } \
	void __tsan_write##N(void* p) { access(p, true, N); } \
	void __tsan_unaligned_read##N(void* p) { access(p, false, N); } \
	void __tsan_unaligned_write##N(void* p) { access(p, true, N); } \
	void __tsan_volatile_read##N(void* p) { access(p, false, N); } \
	void __tsan_volatile_write##N(void* p) { access(p, true, N); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, false, n); }
void __tsan_write_range(void* p, unsigned long n) { access(p, true, n); }
void __tsan_atomic_thread_fence(int mo) { if (tracing && cur >= 0) tr.push_back({ cur, 'T', 1, mo, 0, 0, 0 }); }
void __tsan_atomic_signal_fence(int) {}

#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomic_access(a); T v = *a; atomic_log(a, 'L', mo, 0, (long)v, 0); return v; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = v; atomic_log(a, 'S', mo, 0, (long)v, (long)o); } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = v; atomic_log(a, 'X', mo, 0, (long)v, (long)o); return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = (T)(o + v); atomic_log(a, 'X', mo, 0, (long)*a, (long)o); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = (T)(o - v); atomic_log(a, 'X', mo, 0, (long)*a, (long)o); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = (T)(o & v); atomic_log(a, 'X', mo, 0, (long)*a, (long)o); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = (T)(o | v); atomic_log(a, 'X', mo, 0, (long)*a, (long)o); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = (T)(o ^ v); atomic_log(a, 'X', mo, 0, (long)*a, (long)o); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomic_access(a); T o = *a; *a = (T)~(o & v); atomic_log(a, 'X', mo, 0, (long)*a, (long)o); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
		atomic_access(a); T o = *a; if (o == *e) { *a = v; atomic_log(a, 'X', mo, fmo, (long)v, (long)o); return 1; } \
		*e = o; atomic_log(a, 'F', fmo, mo, (long)o, (long)o); return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { \
		return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { \
		__tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- blocking primitives used by the code under test ----
int sched_yield() {
	if (in_run()) { yield_point(); return 0; }
	return 0;
}
static std::map<void*, int> mtx_owner;
typedef int (*mfun)(pthread_mutex_t*);
static int real_m(const char* n, pthread_mutex_t* m) { mfun f = (mfun)dlsym(RTLD_NEXT, n); return f(m); }
int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!in_run()) return real_m("pthread_mutex_lock", m);
	for (;;) {
		auto it = mtx_owner.find(m);
		if (it == mtx_owner.end()) { mtx_owner[m] = self(); return 0; }
		yield_point();
	}
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!in_run()) return real_m("pthread_mutex_trylock", m);
	if (mtx_owner.count(m)) return EBUSY;
	mtx_owner[m] = self();
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!in_run()) return real_m("pthread_mutex_unlock", m);
	mtx_owner.erase(m);
	return 0;
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*) {
	// time-out or spurious wake-up: release, let others run, take the mutex again
	mtx_owner.erase(m);
	yield_point();
	pthread_mutex_lock(m);
	return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) {
	mtx_owner.erase(m);
	yield_point();
	pthread_mutex_lock(m);
	return ETIMEDOUT;
}
}
namespace rt { void reset_mutexes() { mtx_owner.clear(); } }
