// Shared by all sequential drivers: trace log, tracked element and allocator types,
// failure injection, crash capture.  The drivers use only the public API of /repo/seq.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

namespace vt {

// ---------------------------------------------------------------- random
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) { next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	size_t below(size_t n) { return n ? (size_t)(next() % n) : 0; }
	long range(long a, long b) { return a + (long)below((size_t)(b - a + 1)); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template<class V> auto& pick(V& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- trace log
// One session per line: {"s":name,"cfg":{...},"ev":[{...},...]}
inline char* g_buf = nullptr;
inline size_t g_n = 0, g_cap = 0;
inline size_t g_ev_open = 0;      // 0: no event open
inline bool g_sess_open = false;
inline int g_fd = 1;
inline long g_events = 0, g_sessions = 0;
inline bool g_first_ev = true;

inline void raw(const char* p, size_t n) {
	if (g_n + n + 256 > g_cap) { fprintf(stderr, "log buffer full\n"); _exit(3); }
	memcpy(g_buf + g_n, p, n); g_n += n;
}
inline void raw(const char* p) { raw(p, strlen(p)); }
inline void raw(const std::string& s) { raw(s.data(), s.size()); }
inline void rawi(long v) { char b[32]; int n = snprintf(b, sizeof b, "%ld", v); raw(b, n); }
inline void flush() {
	size_t o = 0;
	while (o < g_n) { ssize_t w = write(g_fd, g_buf + o, g_n - o); if (w <= 0) _exit(4); o += (size_t)w; }
	g_n = 0;
}
inline void raws(const std::string& s) {
	raw("\"");
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { char b[3] = { '\\', (char)c, 0 }; raw(b); }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); raw(b); }
		else raw((const char*)&c, 1);
	}
	raw("\"");
}

struct Session {
	explicit Session(const std::string& name, const std::string& cfg) {
		alarm(60); // a session takes milliseconds; SIGALRM is recorded as the crash HANG
		raw("{\"s\":"); raws(name); raw(",\"cfg\":{"); raw(cfg); raw("},\"ev\":[");
		g_sess_open = true; g_first_ev = true; ++g_sessions;
	}
	~Session() { raw("]}\n"); g_sess_open = false; if (g_n > (1u << 20)) flush(); }
};

struct Ev {
	explicit Ev(const char* op) {
		if (!g_first_ev) raw(",");
		g_first_ev = false;
		g_ev_open = g_n;
		raw("{\"o\":\""); raw(op); raw("\"");
		++g_events;
	}
	Ev& i(const char* k, long v) { raw(",\""); raw(k); raw("\":"); rawi(v); return *this; }
	Ev& b(const char* k, bool v) { raw(",\""); raw(k); raw(v ? "\":true" : "\":false"); return *this; }
	Ev& s(const char* k, const std::string& v) { raw(",\""); raw(k); raw("\":"); raws(v); return *this; }
	template<class C> Ev& l(const char* k, const C& c) {
		raw(",\""); raw(k); raw("\":["); bool f = true;
		for (auto& v : c) { if (!f) raw(","); f = false; rawi((long)v); }
		raw("]"); return *this;
	}
	// list of pairs [[a,b],...]
	template<class C> Ev& ll(const char* k, const C& c) {
		raw(",\""); raw(k); raw("\":["); bool f = true;
		for (auto& v : c) { if (!f) raw(","); f = false; raw("["); rawi((long)v.first); raw(","); rawi((long)v.second); raw("]"); }
		raw("]"); return *this;
	}
	Ev& j(const char* k, const std::string& json) { raw(",\""); raw(k); raw("\":"); raw(json); return *this; }
	bool open = true;
	void close() { if (open) { raw("}"); g_ev_open = 0; open = false; } }
	~Ev() { close(); }
};

// ---------------------------------------------------------------- crash capture
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
inline void (*g_on_crash)(const char*) = nullptr; // writes the session when the driver builds it itself
inline void crash_close(const char* why) {
	static bool once = false;
	if (once) { flush(); _exit(77); }
	once = true;
	if (g_on_crash) g_on_crash(why);
	if (g_sess_open) {
		if (g_ev_open) {
			// keep the complete "key":value pairs written so far: cut back a dangling key is
			// never needed, events are written argument by argument
			raw(",\"crash\":\""); raw(why); raw("\"}");
		} else {
			if (!g_first_ev) raw(",");
			raw("{\"o\":\"Crash\",\"crash\":\""); raw(why); raw("\"}");
		}
		raw("]}\n");
	}
	flush();
	_exit(77);
}
inline void on_sig(int s) {
	const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGALRM ? "HANG" : "SIG";
	crash_close(n);
}
inline void on_asan() { crash_close("ASAN"); }
inline void on_term() { crash_close("TERMINATE"); }

inline void start_log(const char* path) {
	g_cap = 512u << 20;
	g_buf = (char*)mmap(nullptr, g_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (g_fd < 0) { perror(path); _exit(3); }
	static char alt[1 << 16];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
	for (int s : { SIGABRT, SIGFPE, SIGILL, SIGALRM }) sigaction(s, &sa, nullptr);
	if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
	else for (int s : { SIGSEGV, SIGBUS }) sigaction(s, &sa, nullptr);
	std::set_terminate(on_term);
}
inline void op_timer(unsigned sec) { alarm(sec); }

// ---------------------------------------------------------------- lifetime ledger
inline std::string g_err;                 // first lifetime / allocator error since last take_err
inline void fail(const char* e) { if (g_err.empty()) g_err = e; }
inline std::string take_err() { std::string r; r.swap(g_err); return r; }

struct Injected : std::runtime_error { Injected() : std::runtime_error("injected") {} };
inline long g_throw_elem = 0;   // >0: the n-th next element operation throws
inline long g_throw_alloc = 0;  // >0: the n-th next allocation throws
inline long g_elem_ops = 0, g_alloc_ops = 0;
inline bool g_fired = false;
inline void may_throw() {
	++g_elem_ops;
	if (g_throw_elem > 0 && --g_throw_elem == 0) { g_fired = true; throw Injected(); }
}
inline void disarm() { g_throw_elem = 0; g_throw_alloc = 0; }

inline long g_live = 0;                  // live tracked objects
inline std::unordered_set<const void*> g_addr;       // addresses of live non relocatable objects
inline std::vector<char> g_tok;          // ownership tokens: 1 live, 0 released
inline long g_tok_live = 0;

// Not relocatable: knows its own address.
// NX: noexcept move
template<bool NX> struct ObjT {
	int v;
	const ObjT* self;
	static void born(const ObjT* p) { ++g_live; if (!g_addr.insert(p).second) fail("constructed over a live object"); }
	void chk(const char* e) const { if (self != this || !g_addr.count(this)) fail(e); }
	ObjT() : v(0), self(this) { may_throw(); born(this); }
	ObjT(int x) : v(x), self(this) { may_throw(); born(this); }
	ObjT(const ObjT& o) : v(o.v), self(this) { o.chk("copy from a dead object"); may_throw(); born(this); }
	ObjT(ObjT&& o) noexcept(NX) : v(o.v), self(this) { o.chk("move from a dead object"); if (!NX) may_throw(); o.v = -1; born(this); }
	ObjT& operator=(const ObjT& o) { chk("assign to a dead object"); o.chk("assign from a dead object"); may_throw(); v = o.v; return *this; }
	ObjT& operator=(ObjT&& o) noexcept(NX) { chk("move-assign to a dead object"); o.chk("move-assign from a dead object"); if (!NX) may_throw(); int x = o.v; if (&o != this) o.v = -1; v = x; return *this; }
	~ObjT() {
		if (self != this) fail("destroyed an object that was moved bytewise");
		if (!g_addr.erase(this)) fail("destroyed a dead object");
		--g_live; self = nullptr;
	}
	int get() const { chk("read of a dead object"); return v; }
};
// Relocatable owner of a token (like unique_ptr), moved-from is empty (-1).
template<int Pad = 0> struct RelT {
	int v; int tok; char pad[Pad + 1];
	static int mk() { g_tok.push_back(1); ++g_tok_live; return (int)g_tok.size() - 1; }
	static void rel(int t) { if (t >= 0) { if (t >= (int)g_tok.size() || !g_tok[t]) fail("released an element twice"); else { g_tok[t] = 0; --g_tok_live; } } }
	void chk() const { if (tok >= 0 && (tok >= (int)g_tok.size() || !g_tok[tok])) fail("use of a released element"); }
	RelT() : v(0), tok(-2) { may_throw(); tok = mk(); ++g_live; }
	RelT(int x) : v(x), tok(-2) { may_throw(); tok = mk(); ++g_live; }
	RelT(const RelT& o) : v(o.v), tok(-2) { o.chk(); may_throw(); tok = o.tok < 0 ? -1 : mk(); ++g_live; }
	RelT(RelT&& o) noexcept : v(o.v), tok(o.tok) { o.v = -1; o.tok = -1; ++g_live; }
	RelT& operator=(const RelT& o) { chk(); o.chk(); may_throw(); if (this != &o) { rel(tok); tok = o.tok < 0 ? -1 : mk(); v = o.v; } return *this; }
	RelT& operator=(RelT&& o) noexcept { if (this != &o) { rel(tok); tok = o.tok; v = o.v; o.tok = -1; o.v = -1; } return *this; }
	~RelT() { rel(tok); tok = -1; --g_live; }
	int get() const { chk(); return v; }
};
using Obj = ObjT<true>;
using ObjTh = ObjT<false>;
using Rel = RelT<0>;
using RelBig = RelT<90>;

inline int val(int v) { return v; }
inline int val(unsigned char v) { return v; }
inline int val(short v) { return v; }
template<bool N> int val(const ObjT<N>& o) { return o.get(); }
template<int P> int val(const RelT<P>& o) { return o.get(); }
template<bool N> bool operator==(const ObjT<N>& a, const ObjT<N>& b) { return a.get() == b.get(); }
template<bool N> bool operator!=(const ObjT<N>& a, const ObjT<N>& b) { return a.get() != b.get(); }
template<bool N> bool operator<(const ObjT<N>& a, const ObjT<N>& b) { may_throw(); return a.get() < b.get(); }
template<int P> bool operator==(const RelT<P>& a, const RelT<P>& b) { return a.get() == b.get(); }
template<int P> bool operator!=(const RelT<P>& a, const RelT<P>& b) { return a.get() != b.get(); }
template<int P> bool operator<(const RelT<P>& a, const RelT<P>& b) { may_throw(); return a.get() < b.get(); }

template<class T> struct is_tracked : std::false_type {};
template<bool N> struct is_tracked<ObjT<N>> : std::true_type {};
template<int P> struct is_tracked<RelT<P>> : std::true_type {};
template<class T> struct is_rel : std::false_type {};
template<int P> struct is_rel<RelT<P>> : std::true_type {};

// ---------------------------------------------------------------- allocator
struct Block { size_t n; int id; size_t esz; };
inline std::unordered_map<void*, Block> g_blocks;
inline std::unordered_map<int, long> g_blk_by_id;
// PM: propagation bits: 1 copy, 2 move, 4 swap; 8: select_on_copy gives id 0
template<class T, int PM = 0> struct Alloc {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<(PM & 1) != 0>;
	using propagate_on_container_move_assignment = std::bool_constant<(PM & 2) != 0>;
	using propagate_on_container_swap = std::bool_constant<(PM & 4) != 0>;
	using is_always_equal = std::false_type;
	template<class U> struct rebind { using other = Alloc<U, PM>; };
	using size_type = size_t; using difference_type = ptrdiff_t;
	using pointer = T*; using const_pointer = const T*;
	int id;
	Alloc(int i = 0) noexcept : id(i) {}
	template<class U> Alloc(const Alloc<U, PM>& o) noexcept : id(o.id) {}
	Alloc(const Alloc&) noexcept = default;
	Alloc& operator=(const Alloc&) noexcept = default;
	Alloc select_on_container_copy_construction() const { return Alloc((PM & 8) ? 0 : id); }
	T* allocate(size_t n) {
		++g_alloc_ops;
		if (g_throw_alloc > 0 && --g_throw_alloc == 0) { g_fired = true; throw std::bad_alloc(); }
		if (n > (size_t(1) << 40) / sizeof(T)) throw std::bad_alloc();
		void* p;
		if (alignof(T) > 16) p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T)));
		else p = ::operator new(n * sizeof(T));
		memset(p, 0xCD, n * sizeof(T));
		g_blocks[p] = Block{ n, id, sizeof(T) };
		g_blk_by_id[id]++;
		return (T*)p;
	}
	void deallocate(T* p, size_t n) {
		auto it = g_blocks.find((void*)p);
		if (it == g_blocks.end()) { fail("deallocate of a block that is not allocated"); return; }
		if (it->second.n * it->second.esz != n * sizeof(T)) fail("deallocate with a different size");
		if (it->second.id != id) fail("deallocate through an unequal allocator");
		g_blk_by_id[it->second.id]--;
		g_blocks.erase(it);
		if (alignof(T) > 16) ::operator delete((void*)p, std::align_val_t(alignof(T)));
		else ::operator delete((void*)p);
	}
	template<class U> bool operator==(const Alloc<U, PM>& o) const noexcept { return id == o.id; }
	template<class U> bool operator!=(const Alloc<U, PM>& o) const noexcept { return id != o.id; }
};
inline long blocks_of(int id) { auto it = g_blk_by_id.find(id); return it == g_blk_by_id.end() ? 0 : it->second; }
inline void ledger_reset() {
	g_err.clear(); g_live = 0; g_addr.clear(); g_tok.clear(); g_tok_live = 0;
	g_blocks.clear(); g_blk_by_id.clear(); disarm(); g_fired = false;
}

// runs f; returns the exception class as text
template<class F> std::string guarded(F&& f) {
	try { f(); return "none"; }
	catch (const Injected&) { return "inj"; }
	catch (const std::bad_alloc&) { return "bad_alloc"; }
	catch (const std::out_of_range&) { return "out_of_range"; }
	catch (const std::logic_error&) { return "logic_error"; }
	catch (const std::exception&) { return "exception"; }
	catch (...) { return "unknown"; }
}

inline std::string kv(const char* k, const std::string& v) { return std::string("\"") + k + "\":\"" + v + "\""; }
inline std::string kv(const char* k, long v) { return std::string("\"") + k + "\":" + std::to_string(v); }
inline std::string kvb(const char* k, bool v) { return std::string("\"") + k + "\":" + (v ? "true" : "false"); }

} // namespace vt
