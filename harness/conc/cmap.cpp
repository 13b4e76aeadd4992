// C02-C04: concurrent_map / concurrent_set under the cooperative scheduler.
// usage: cmap OUT SEED NRUNS FAMILY     FAMILY: key | bulk | all
// Every run is a random small program (threads, operations, contents, schedule); its history
// is projected on the keys and written once per distinct projection.
#include "rt.hpp"
#include "../common.hpp"
#include <seq/concurrent_map.hpp>
#include <set>
using namespace vt;
#define NOSAN __attribute__((no_sanitize_thread))
#define HID __attribute__((no_sanitize_thread, noinline))

#ifndef INST
#define INST 0
#endif

// ------------------------------------------------------------ types
template<class T> struct AA { // arena allocator
	using value_type = T;
	using is_always_equal = std::true_type;
	using propagate_on_container_move_assignment = std::true_type;
	AA() noexcept = default;
	template<class U> AA(const AA<U>&) noexcept {}
	T* allocate(size_t n) { return (T*)rt::arena_alloc(n * sizeof(T)); }
	void deallocate(T* p, size_t n) { rt::arena_free(p, n * sizeof(T)); }
	bool operator==(const AA&) const noexcept { return true; }
	bool operator!=(const AA&) const noexcept { return false; }
};
static uint64_t g_hash[1024];
struct SK;
struct H {
	using is_avalanching = int;
	NOSAN size_t operator()(int k) const { return g_hash[k]; }
	size_t operator()(const SK& s) const;
};
struct EqI { bool operator()(int a, int b) const { return a == b; } };
struct TV { // not relocatable, moves without throwing
	int v; const TV* self;
	TV(int x = 0) : v(x), self(this) { rt::live_add(1); }
	TV(const TV& o) : v(o.v), self(this) { o.chk(); rt::live_add(1); }
	TV(TV&& o) noexcept : v(o.v), self(this) { o.chk(); rt::live_add(1); o.v = -3; }
	TV& operator=(const TV& o) { chk(); o.chk(); v = o.v; return *this; }
	TV& operator=(TV&& o) noexcept { chk(); o.chk(); int x = o.v; if (&o != this) o.v = -3; v = x; return *this; }
	~TV() { chk(); self = nullptr; rt::live_add(-1); }
	void chk() const { if (self != this) rt::note_error("use of a dead element"); }
	bool operator==(const TV& o) const { return v == o.v; }
};
struct CO { // copied, may throw
	int v; const CO* self;
	CO(int x = 0) : v(x), self(this) { rt::live_add(1); }
	CO(const CO& o) noexcept(false) : v(o.v), self(this) { o.chk(); if (rt::may_throw_now()) throw Injected(); rt::live_add(1); }
	CO& operator=(const CO& o) { chk(); o.chk(); v = o.v; return *this; }
	~CO() { chk(); self = nullptr; rt::live_add(-1); }
	void chk() const { if (self != this) rt::note_error("use of a dead element"); }
	bool operator==(const CO& o) const { return v == o.v; }
};
struct SK { int k; TV t; SK(int a = 0, int b = 0) : k(a), t(b) {} bool operator==(const SK& o) const { return k == o.k && t == o.t; } };
struct EqS { bool operator()(const SK& a, const SK& b) const noexcept { return a.k == b.k; } };
NOSAN size_t H::operator()(const SK& s) const { return g_hash[s.k]; }

#if INST == 0
#define NAME "concurrent_map<int,low>"
#define LVL seq::low_concurrency
using V = int;
#elif INST == 1
#define NAME "concurrent_map<TV,low_shared>"
#define LVL seq::low_concurrency_shared
using V = TV;
#elif INST == 2
#define NAME "concurrent_set<SK,2 shards>"
#define LVL 1u
#define SET 1
#elif INST == 3
#define NAME "concurrent_map<CO,2 shards shared>"
#define LVL (1u | seq::shared_concurrency)
using V = CO;
#elif INST == 4
#define NAME "concurrent_map<TV,medium>"
#define LVL seq::medium_concurrency
using V = TV;
#elif INST == 5
#define NAME "concurrent_set<SK,high_shared>"
#define LVL seq::high_concurrency_shared
#define SET 1
#elif INST == 6
#define NAME "concurrent_map<CO,low>"
#define LVL seq::low_concurrency
using V = CO;
#elif INST == 7
#define NAME "concurrent_set<SK,low_shared>"
#define LVL seq::low_concurrency_shared
#define SET 1
#endif
#ifdef SET
using E = SK; using V = TV;
using M = seq::concurrent_set<SK, H, EqS, AA<SK>, LVL>;
static int kof(const E& e) { return e.k; }
static const V& vof(const E& e) { return e.t; }
static V& vof(E& e) { return e.t; }
static E mk(int k, int v) { return E(k, v); }
static E key(int k) { return E(k, 0); }
#else
using E = std::pair<int, V>;
using M = seq::concurrent_map<int, V, H, EqI, AA<E>, LVL>;
static int kof(const E& e) { return e.first; }
static const V& vof(const E& e) { return e.second; }
static V& vof(E& e) { return e.second; }
static E mk(int k, int v) { return E(k, V(v)); }
static int key(int k) { return k; }
#endif
static int iv(int v) { return v; }
static int iv(const TV& t) { t.chk(); return t.v; }
static int iv(const CO& t) { t.chk(); return t.v; }
static int gv(const E& e) { return iv(vof(e)); }
static const bool COPY = std::is_same<V, CO>::value;
static const unsigned SHARDS = 1u << (LVL & ~seq::shared_concurrency);

// ------------------------------------------------------------ programs
enum K { INS, EMP, TRYE, IOA, INSV, INSCV, ERA, ERAIF, VIS, CVIS, HAS, CNT, VISX, // single key
	REHASH, RESERVE, MLF, LF, SIZE,                                               // neutral
	CLEAR, VALL, CVALL, EALL, MERGE, SNAP, RINS,                                   // bulk
	SELFEQ, EQ, SWAP, CASSIGN, MASSIGN, SELFMERGE, EMPTYQ, GETS, MCTOR, EALLX, VALLX };
struct Op { int kind, c, k, v, w, p, stop; };
struct Out { int r = -1, s = -1, p = -1; int ntrue = 0, calls = 0; std::string x = "none"; std::vector<std::pair<int, int>> obs; bool done = false, called = false; };

static std::vector<Op> ops;                 // global numbering
static std::vector<std::vector<int>> prog;  // per thread
static std::vector<Out> outs;
static M* mp[2];
static volatile int g_pad[4];
static void pause_points(int n) { for (int i = 0; i < n; ++i) (void)g_pad[i & 3]; }
struct FnThrow {};

// reads (and maybe changes) an element inside a functor
template<class EE> static int touch(EE& e, int w) {
	bool mut = w != -1;
	rt::fn_enter(&e, mut);
	int s = gv(e);
	pause_points(3);
	if constexpr (!std::is_const<EE>::value) if (mut) { vof(e) = V(w); }
	pause_points(2);
	if (!mut && gv(e) != s) rt::note_error("an element changed while a functor was reading it");
	rt::fn_leave(&e, mut);
	return s;
}
HID static void set_out(int i, int r) { outs[i].r = r; }
HID static void set_seen(int i, int s, int k) { outs[i].s = s; ++outs[i].calls; if (k != ops[i].k) rt::note_error("functor called on another key"); }
HID static void set_p(int i, int p) { outs[i].p = p; }
HID static void set_x(int i, const char* x) { outs[i].x = x; }
HID static Op get_op(int i) { return ops[i]; }
HID static void call_op(int i) { outs[i].called = true; rt::hist(0, i); }
HID static void ret_op(int i) { if (!outs[i].called) rt::hist(0, i); outs[i].done = true; rt::hist(1, i); }
HID static bool pred_all(int k, int s, int p) { return p == 0 ? true : p == 1 ? false : p == 2 ? (s % 2 == 0) : (k % 2 == 0); }
HID static void bulk_fn(int i, int k, int s, int w, int res) { rt::hist(2, i, k, s, ops[i].kind == EALL ? res : w); ++outs[i].calls; if (res) ++outs[i].ntrue; }
HID static bool stop_now(int i) { return ops[i].stop && outs[i].calls >= ops[i].stop; }
HID static void set_obs(int i, const M& m) { m.visit_all([i](const E& e) { outs[i].obs.push_back({ kof(e), gv(e) }); }); }
HID static int th_len(int t) { return (int)prog[t].size(); }
HID static int th_op(int t, int j) { return prog[t][j]; }
HID static bool contended(int k);
HID static M* cont(int c) { return mp[c]; }

static void do_op(int i) {
	Op o = get_op(i);
	M& m = *cont(o.c); const M& cm = m; M& other = *cont(1 - o.c);
	try {
		switch (o.kind) {
			case INS: { E e = mk(o.k, o.v); call_op(i); if (o.p) set_out(i, m.insert(std::move(e))); else set_out(i, m.insert(e)); break; }
#ifndef SET
			case EMP: { call_op(i); set_out(i, m.emplace(o.k, o.v)); break; }
			case TRYE: { call_op(i); set_out(i, m.try_emplace(o.k, o.v)); break; }
			case IOA: { call_op(i); V v(o.v); set_out(i, m.insert_or_assign(o.k, v)); break; }
			case INSV: { call_op(i); auto f = [&](E& e) { set_seen(i, touch(e, o.w), kof(e)); };
				int r; if (o.p == 0) r = m.emplace_or_visit(o.k, o.v, f); else if (o.p == 1) r = m.try_emplace_or_visit(o.k, o.v, f); else r = m.insert_or_visit(mk(o.k, o.v), f); set_out(i, r); break; }
			case INSCV: { call_op(i); auto f = [&](const E& e) { set_seen(i, touch(e, -1), kof(e)); };
				int r; if (o.p == 0) r = m.emplace_or_cvisit(o.k, o.v, f); else if (o.p == 1) r = m.try_emplace_or_cvisit(o.k, o.v, f); else r = m.insert_or_cvisit(mk(o.k, o.v), f); set_out(i, r); break; }
#else
			case EMP: case TRYE: case IOA: { call_op(i); set_out(i, m.emplace(o.k, o.v)); break; }
			case INSV: { call_op(i); auto f = [&](E& e) { set_seen(i, touch(e, o.w), kof(e)); }; int r; if (o.p == 0) r = m.emplace_or_visit(mk(o.k, o.v), f); else r = m.insert_or_visit(mk(o.k, o.v), f); set_out(i, r); break; }
			case INSCV: { call_op(i); auto f = [&](const E& e) { set_seen(i, touch(e, -1), kof(e)); }; int r; if (o.p == 0) r = m.emplace_or_cvisit(mk(o.k, o.v), f); else r = m.insert_or_cvisit(mk(o.k, o.v), f); set_out(i, r); break; }
#endif
			case ERA: { auto kk = key(o.k); call_op(i); set_out(i, (int)m.erase(kk)); break; }
			case ERAIF: { auto kk = key(o.k); call_op(i); set_out(i, (int)m.erase_if(kk, [&](E& e) { int s = touch(e, -1); set_seen(i, s, kof(e)); bool p = pred_all(o.k, s, o.p); set_p(i, p); if (o.stop) throw FnThrow(); return p; })); break; }
			case VIS: { auto kk = key(o.k); call_op(i); set_out(i, (int)m.visit(kk, [&](E& e) { set_seen(i, touch(e, o.w), kof(e)); })); break; }
			case CVIS: { auto kk = key(o.k); call_op(i); int r = o.p ? (int)cm.visit(kk, [&](const E& e) { set_seen(i, touch(e, -1), kof(e)); }) : (int)m.cvisit(kk, [&](const E& e) { set_seen(i, touch(e, -1), kof(e)); }); set_out(i, r); break; }
			case VISX: { auto kk = key(o.k); call_op(i); set_out(i, (int)(o.p ? m.cvisit(kk, [&](const E& e) { set_seen(i, touch(e, -1), kof(e)); throw FnThrow(); }) : m.visit(kk, [&](E& e) { set_seen(i, touch(e, -1), kof(e)); throw FnThrow(); }))); break; }
			case HAS: { auto kk = key(o.k); call_op(i); set_out(i, m.contains(kk)); break; }
			case CNT: { auto kk = key(o.k); call_op(i); set_out(i, (int)m.count(kk)); break; }
			case REHASH: call_op(i); m.rehash(o.v); break;
			case RESERVE: call_op(i); m.reserve(o.v); break;
			case MLF: call_op(i); m.max_load_factor(o.v / 100.f); break;
			case LF: call_op(i); (void)m.load_factor(); (void)m.max_load_factor(); break;
			case SIZE: call_op(i); set_out(i, (int)m.size()); break;
			case EMPTYQ: call_op(i); (void)m.empty(); break;
			case GETS: call_op(i); (void)m.get_allocator(); (void)m.hash_function(); (void)m.key_eq(); break;
			case CLEAR: call_op(i); m.clear(); break;
			case VALL: call_op(i); set_out(i, m.visit_all([&](E& e) { int w = contended(kof(e)) && o.w != -1 ? o.w + kof(e) % 10 : -1; int s = touch(e, w); bulk_fn(i, kof(e), s, w, 0); return !stop_now(i); })); break;
			case CVALL: { call_op(i); auto f = [&](const E& e) { int s = touch(e, -1); bulk_fn(i, kof(e), s, -1, 0); return !stop_now(i); }; set_out(i, o.p ? cm.visit_all(f) : m.cvisit_all(f)); break; }
			case EALL: call_op(i); set_out(i, (int)m.erase_if([&](E& e) { int s = touch(e, -1); bool r = pred_all(kof(e), s, o.p); bulk_fn(i, kof(e), s, -1, r); return r; })); break;
			case EALLX: call_op(i); m.erase_if([&](E& e) { touch(e, -1); if (contended(kof(e))) throw FnThrow(); return false; }); break;
			case VALLX: call_op(i); m.visit_all([&](E& e) { touch(e, -1); if (contended(kof(e))) throw FnThrow(); }); break;
			case MERGE: call_op(i); set_out(i, (int)m.merge(other)); break;
			case SNAP: { call_op(i); M x(cm); ret_op(i); set_obs(i, x); set_out(i, (int)x.size()); return; }
			case RINS: { E es[2] = { mk(o.k, o.v), mk(o.p, o.v + 1) }; call_op(i); m.insert(es, es + 2); break; }
			case SELFEQ: { call_op(i); const M& m2 = m; set_out(i, m == m2); break; }
			case EQ: call_op(i); set_out(i, m == other); break;
			case SWAP: call_op(i); m.swap(other); break;
			case CASSIGN: call_op(i); m = static_cast<const M&>(other); break;
			case MASSIGN: call_op(i); m = std::move(other); break;
			case MCTOR: { call_op(i); M x(std::move(m)); break; }
			case SELFMERGE: { call_op(i); M& m2 = m; set_out(i, (int)m.merge(m2)); break; }
		}
	}
	catch (const Injected&) { set_x(i, "inj"); }
	catch (const std::bad_alloc&) { set_x(i, "bad_alloc"); }
	catch (const FnThrow&) { set_x(i, "fn"); }
	ret_op(i);
}
static void thread_body(int t) { int n = th_len(t); for (int j = 0; j < n; ++j) do_op(th_op(t, j)); }

// ------------------------------------------------------------ sessions
static std::vector<int> ckeys;              // contended keys
HID static bool contended(int k) { for (int c : ckeys) if (c == k) return true; return false; }
static std::unordered_set<std::string> g_seen;
static long g_runs = 0;
static std::string g_head;
static bool g_slow_case = false;

static void crashed(const char* why) {
	rt::halt();
	raw(g_head); raw("\"g\":1,\"ev\":[[8,0,0,0,0]],\"why\":\""); raw(why); raw("\"}\n");
}

struct Gen {
	Rng g; std::string fam;
	Gen(uint64_t s, const std::string& f) : g(s), fam(f) {}
	int nid = 1;
	int vid() { return 10 * nid++; }
	Op single() {
		static const int ks[] = { INS, INS, EMP, TRYE, IOA, IOA, INSV, INSV, INSCV, ERA, ERA, ERAIF, VIS, VIS, CVIS, HAS, CNT, VISX };
		Op o{}; o.kind = ks[g.below(sizeof ks / sizeof *ks)]; o.k = ckeys[g.below(ckeys.size())]; o.v = vid(); o.w = vid(); o.p = (int)g.below(3); if (o.kind == ERAIF) o.stop = g.chance(1, 8); o.c = 0;
		return o;
	}
	Op neutral() {
		static const int ks[] = { REHASH, REHASH, RESERVE, RESERVE, MLF, LF, SIZE };
		Op o{}; o.kind = ks[g.below(7)]; o.v = o.kind == MLF ? 10 + (int)g.below(90) : (int)(g.chance(1, 3) ? g.below(20) : g.below(400)); o.k = -1; o.c = 0; if (SHARDS > 4) o.v = o.kind == MLF ? o.v : o.v * (int)SHARDS / 4; return o;
	}
	Op bulk() {
		static const int ks[] = { CLEAR, CLEAR, VALL, VALL, CVALL, CVALL, EALL, EALL, MERGE, SNAP, RINS };
		Op o{}; o.kind = ks[g.below(11)]; o.k = -1; o.c = 0; o.p = (int)g.below(4); o.v = vid(); o.w = g.chance(1, 2) ? vid() : -1; o.stop = g.chance(1, 3) ? 1 + (int)g.below(6) : 0;
		if (o.kind == RINS) { o.k = ckeys[0]; o.p = ckeys[ckeys.size() > 1 ? 1 : 0]; }
		if (o.kind == EALL) o.stop = 0;
		return o;
	}
	Op any() {
		static const int ks[] = { SELFEQ, EQ, SWAP, CASSIGN, MASSIGN, SELFMERGE, MERGE, CLEAR, EMPTYQ, GETS, SNAP, EALL, VALL, CVALL, EALLX, VALLX };
		if (g.chance(1, 3)) return single();
		if (g.chance(1, 6)) return neutral();
		Op o{}; o.kind = ks[g.below(sizeof ks / sizeof *ks)]; o.k = -1; o.p = (int)g.below(4); o.v = vid(); o.w = g.chance(1, 2) ? vid() : -1; return o;
	}
};

static std::string lit(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
static void emit(const std::string& name, const std::string& body, const std::string& id = std::string()) {
	if (!g_seen.insert(id.empty() ? body : id).second) return;
	raw("{\"s\":\"" + name + "\"," + body + "}\n");
	if (g_n > (1u << 20)) flush();
}
static const char* cls(int k) {
	switch (k) {
		case INS: case EMP: case TRYE: return "ins"; case IOA: return "ioa"; case INSV: case INSCV: return "iov";
		case ERA: case ERAIF: return "era"; case VIS: case CVIS: case VISX: return "vis"; case HAS: case CNT: return "has";
		case CLEAR: return "clear"; case VALL: case CVALL: return "vall"; case EALL: return "eall"; case MERGE: return "merge"; case SNAP: return "snap"; case RINS: return "rins";
		default: return "neu";
	}
}
#ifdef SET
static const char* cls2(int k) { return k == IOA ? "ins" : cls(k); }
#else
static const char* cls2(int k) { return cls(k); }
#endif

static void one_run(Gen& G, uint64_t seed, const std::string& fam) {
	Rng& g = G.g;
	bool all = fam == "all", bulk = fam == "bulk";
	rt::arena_reset(); rt::reset_mutexes(); (void)rt::live_take(); (void)rt::hist_take();
	g_seen.reserve(1 << 16);
	// ---- keys and hashes
	ckeys.clear(); ops.clear(); prog.clear(); G.nid = 1;
	int nck = 1 + (int)g.below(3);
	for (int i = 0; i < nck; ++i) ckeys.push_back(i + 1);
	int shape = (int)g.below(6); // see below
	auto hash = [&](int lowbits, int spread) {
		uint64_t low = (uint64_t)g.below(1u << lowbits), tiny = g.below(3) ? 1 + g.below(2) : g.below(256), sh = g.below(spread ? SHARDS : 1);
		return (tiny << 56) | (sh << 47) | (low << (g.chance(1, 6) ? 2 : 0));
	};
	int spread = SHARDS > 1 && g.chance(1, 2);
	int lowbits = (int)g.below(5);
	for (int k = 0; k < 1024; ++k) g_hash[k] = 0;
	for (int k : ckeys) g_hash[k] = hash(lowbits, spread);
	int nstat = 0;
	switch (shape) { case 0: nstat = (int)g.below(3); break; case 1: nstat = 13 + (int)g.below(5); break; case 2: nstat = 18 + (int)g.below(25); break; case 3: nstat = 12 + (int)g.below(8); break; case 4: nstat = 15 + (int)g.below(10); break; default: nstat = 14 + (int)g.below(3); }
	std::vector<int> st[2];
	std::map<int, int> init[2];
	for (int i = 0; i < nstat; ++i) { int k = 100 + i; g_hash[k] = hash(shape == 4 ? 0 : lowbits, shape == 4 ? 0 : spread); st[0].push_back(k); init[0][k] = 5000 + i; }
	bool two = all || bulk;
	if (two) { int n = (int)g.below(20); for (int i = 0; i < n; ++i) { int k = g.chance(1, 2) && i < nstat ? 100 + i : 300 + i; if (k >= 300) g_hash[k] = hash(lowbits, spread); init[1][k] = 7000 + i; } }
	for (int c = 0; c < (two ? 2 : 1); ++c) for (int k : ckeys) if (g.chance(1, 2)) init[c][k] = (c + 1) * 1000 + k;
	M *a = new M(), *b = new M();
	mp[0] = a; mp[1] = b;
	if (shape == 3) { for (int i = 0; i < 25; ++i) { g_hash[600 + i] = hash(3, spread); a->insert(mk(600 + i, 1)); } a->clear(); if (g.chance(1, 2)) init[0].clear(); }
	// insertion order of the contents: contended keys early or late (position in the chains)
	{
		std::vector<int> ord; for (auto& kv : init[0]) ord.push_back(kv.first);
		for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[g.below(i)]);
		for (int k : ord) a->insert(mk(k, init[0][k]));
	}
	for (auto& kv : init[1]) b->insert(mk(kv.first, kv.second));
	// ---- program
	int nt = 2 + (g.chance(1, 3) ? 1 : 0);
	bool merged = false, hasx = false;
	for (int t = 0; t < nt; ++t) {
		prog.push_back({});
		int n = 1 + (int)g.below(3);
		for (int j = 0; j < n; ++j) {
			Op o;
			if (all) { o = G.any(); o.c = (int)g.below(2); }
			else if (bulk && (t == 0 ? g.chance(2, 3) || j == 0 : g.chance(1, 8))) { o = G.bulk(); if (o.kind == MERGE) { o.c = (int)g.below(2); merged = true; } }
			else if (g.chance(1, bulk ? 10 : 5)) o = fam == "key" && g.chance(1, 4) ? (g.chance(1, 2) ? Op{ CLEAR, 0, -1, 0, 0, 0, 0 } : Op{ CVALL, 0, -1, 0, -1, 1, 0 }) : G.neutral();
			else { o = G.single(); if (bulk && g.chance(1, 3)) o.c = 1; }
			ops.push_back(o); prog[t].push_back((int)ops.size() - 1);
		}
	}
	// the same key twice in one range insertion is two operations on it: avoid
	outs.assign(ops.size(), Out());
	// ---- schedule
	rt::Policy p; p.seed = seed;
	static const unsigned means[] = { 3, 8, 25, 70, 200 };
	if (g.chance(1, 2)) { p.kind = rt::Policy::RANDOM; p.mean = means[g.below(5)]; }
	else { p.kind = rt::Policy::PCT; p.depth = 1 + (unsigned)g.below(4); static const unsigned lens[] = { 100, 300, 1000, 3000 }; p.len = lens[g.below(4)]; }
	bool inj = g.chance(1, 10);
	if (inj) { if (g.chance(1, 2) || !COPY) rt::set_alloc_fail(1 + (long)g.below(6)); else rt::set_elem_fail(1 + (long)g.below(25)); hasx = true; }
	g_head = "{\"s\":\"" + fam + "/" + std::to_string(g_runs) + "\",\"cfg\":{" + kv("type", NAME) + "," + kv("seed", (long)seed) + "},";
	std::vector<std::function<void()>> bodies;
	for (int t = 0; t < nt; ++t) bodies.push_back([t] { thread_body(t); });
	op_timer(20);
	rt::Result r = rt::run(bodies, p);
	op_timer(20);
	rt::set_alloc_fail(0); rt::set_elem_fail(0);
	std::vector<rt::HEv> ev = rt::hist_take();
	++g_runs;
	std::string name = fam + "/" + std::to_string(g_runs - 1);
	std::string cfg = "\"cfg\":{" + kv("type", NAME) + "}";
	if (r.hang) {
		// who did not come back
		std::string pend; for (size_t i = 0; i < ops.size(); ++i) if (!outs[i].done) { if (!pend.empty()) pend += ","; pend += std::to_string(ops[i].kind); }
		emit(name, cfg + ",\"g\":1,\"hang\":[" + pend + "],\"ev\":[[8,0,0,0,0]]"); // containers are in an unknown state: leave them
		return;
	}
	// ---- quiescent observations
	std::map<int, int> fin[2]; int dup = 0, miss = 0; long sz[2], cnt[2] = { 0, 0 };
	if (!r.error.empty() && r.error.find("freed") != std::string::npos) {
		emit(name, cfg + ",\"g\":1,\"err\":\"" + r.error + "\",\"ev\":[[8,0,0,0,0]]");
		return;
	}
	for (int c = 0; c < 2; ++c) {
		M& m = *mp[c];
		sz[c] = (long)m.size();
		m.visit_all([&](const E& e) { ++cnt[c]; if (!fin[c].emplace(kof(e), gv(e)).second) ++dup; });
		for (auto& kv : fin[c]) { if (!m.contains(key(kv.first))) ++miss; }
		for (int k = 1; k < 400; ++k) if (g_hash[k] && !fin[c].count(k) && m.contains(key(k))) ++miss;
	}
	long live = rt::live_take();
	if (live) rt::live_add(live);
	long expect_live = std::is_same<V, int>::value ? 0 : sz[0] + sz[1];
	// usable afterwards: one more insertion and erasure
	bool use = true;
	for (int c = 0; c < 2; ++c) { M& m = *mp[c]; bool had = m.contains(key(1)); if (m.insert(mk(1, 77)) == had) use = false; if (!m.contains(key(1))) use = false; if (m.erase(key(1)) != 1) use = false; if (m.contains(key(1))) use = false; }
	delete a; delete b;
	long live_end = rt::live_take(); long blocks = (long)rt::arena_live();
	std::string err = r.error; if (err.empty()) err = rt::arena_error();
	bool alldone = true; for (auto& o : outs) if (!o.done) alldone = false;
	std::string bl; // functor counts of bulk operations
	for (size_t i = 0; i < ops.size(); ++i) if ((ops[i].kind == EALL || ops[i].kind == VALL || ops[i].kind == CVALL) && outs[i].x == "none") {
		bool stopped = ops[i].stop && outs[i].calls >= ops[i].stop;
		if (!bl.empty()) bl += ",";
		bl += std::string("{\"o\":\"") + cls(ops[i].kind) + "\",\"r\":" + std::to_string(outs[i].r) + ",\"t\":" + std::to_string(outs[i].ntrue) + ",\"n\":" + std::to_string(outs[i].calls) + ",\"stop\":" + std::to_string(ops[i].stop) + ",\"stopped\":" + (stopped ? "1" : "0") + "}";
	}
	std::string snaps;
	emit(name, cfg + ",\"g\":1,\"size\":" + lit({ (int)sz[0], (int)sz[1] }) + ",\"cnt\":" + lit({ (int)cnt[0], (int)cnt[1] }) + ",\"dup\":" + std::to_string(dup) + ",\"miss\":" + std::to_string(miss)
		+ ",\"live\":" + lit({ (int)live, (int)expect_live, (int)live_end, (int)blocks }) + ",\"err\":\"" + err + "\",\"use\":" + (use ? "1" : "0") + ",\"done\":" + (alldone ? "1" : "0") + ",\"bulk\":[" + bl + "],\"ev\":[[7,0,0,0,0]]",
		"G" + lit({ (int)(sz[0] - cnt[0]), (int)(sz[1] - cnt[1]), dup, miss, (int)(live - expect_live), (int)live_end, (int)blocks, use, alldone }) + err + bl);
	if (all) return;
	// ---- projections on the keys
	std::set<int> univ; for (int c = 0; c < 2; ++c) { for (auto& kv : init[c]) univ.insert(kv.first); for (auto& kv : fin[c]) univ.insert(kv.first); } for (int k : ckeys) univ.insert(k);
	// merge: the number moved is checked on the contended keys together
	auto project = [&](const std::vector<int>& ks, bool counts) {
		// values become small numbers in order of appearance, so that equal histories are equal text
		std::map<int, int> vm; auto V = [&](int v) { if (v == -1) return -1; auto it = vm.find(v); if (it == vm.end()) it = vm.emplace(v, (int)vm.size() + 1).first; return it->second; };
		auto idx = [&](int k) { for (size_t i = 0; i < ks.size(); ++i) if (ks[i] == k) return (int)i + 1; return 0; };
		auto vals = [&](std::map<int, int>& m) { std::vector<int> v; for (int k : ks) v.push_back(m.count(k) ? V(m[k]) : -1); return lit(v); };
		std::string s = cfg + ",\"g\":0,\"nk\":" + std::to_string(ks.size()) + ",\"init\":[" + vals(init[0]) + "," + vals(init[1]) + "],\"fin\":[" + vals(fin[0]) + "," + vals(fin[1]) + "],\"ops\":[";
		std::vector<int> num(ops.size() * 2 + 2, 0); int n = 0; std::string os;
		for (size_t i = 0; i < ops.size(); ++i) {
			Op& o = ops[i]; Out& u = outs[i]; const char* cl = cls2(o.kind);
			if (!strcmp(cl, "neu")) continue;
			auto rec = [&](int k, const char* c2, int v, int w, int rr, int nn, const std::string& obs) {
				if (!os.empty()) os += ",";
				os += std::string("{\"o\":\"") + c2 + "\",\"c\":" + std::to_string(o.c + 1) + ",\"k\":" + std::to_string(k) + ",\"v\":" + std::to_string(V(v)) + ",\"w\":" + std::to_string(V(w)) + ",\"r\":" + std::to_string(rr) + ",\"s\":" + std::to_string(V(u.s)) + ",\"p\":" + std::to_string(u.p) + ",\"x\":\"" + u.x + "\",\"n\":" + std::to_string(nn) + ",\"obs\":" + obs + "}";
				return ++n;
			};
			if (o.kind == RINS) {
				if (idx(o.k)) num[2 * i] = rec(idx(o.k), "insu", o.v, -1, -1, -1, "[]");
				if (idx(o.p)) num[2 * i + 1] = rec(idx(o.p), "insu", o.v + 1, -1, -1, -1, "[]");
				continue;
			}
			if (o.k >= 0) { if (idx(o.k)) num[2 * i] = rec(idx(o.k), cl, o.v, o.kind == INSV || o.kind == VIS ? o.w : -1, u.r, -1, "[]"); continue; }
			std::string obs = "[]"; int nn = -1;
			if (o.kind == SNAP) { std::map<int, int> m; for (auto& kv : u.obs) m[kv.first] = kv.second; obs = vals(m); }
			if (o.kind == MERGE && counts) {
				// static keys move exactly when the destination lacks them (nobody else touches them)
				int base = 0; for (auto& kv : init[1 - o.c]) if (!contended(kv.first) && !init[o.c].count(kv.first)) ++base;
				nn = u.r - base;
			}
			num[2 * i] = rec(0, cl, -1, -1, o.kind == SNAP || o.kind == CLEAR || o.kind == MERGE || o.kind == EALL ? -1 : u.r, nn, obs);
		}
		std::string es;
		auto pe = [&](int c, int i, int k, int a, int b) { if (!es.empty()) es += ","; es += "[" + std::to_string(c) + "," + std::to_string(i) + "," + std::to_string(k) + "," + std::to_string(a) + "," + std::to_string(b) + "]"; };
		for (auto& e : ev) {
			if (e.c == 2) { if (idx(e.k)) pe(2, num[2 * e.i], idx(e.k), V(e.a), ops[e.i].kind == EALL ? e.b : V(e.b)); }
			else { for (int h = 0; h < 2; ++h) if (num[2 * e.i + h]) pe(e.c, num[2 * e.i + h], 0, 0, 0); }
		}
		pe(9, 0, 0, 0, 0);
		emit(name + "/k" + std::to_string(ks[0]), s + os + "],\"ev\":[" + es + "]");
	};
	int nbulkmut = 0, nmerge = 0; for (auto& o : ops) { if (o.kind == CLEAR || o.kind == EALL) ++nbulkmut; if (o.kind == MERGE) ++nmerge; }
	(void)merged; (void)hasx;
	bool joint = nmerge == 1 && nbulkmut == 0 && !inj;
	if (joint) project(ckeys, true);
	for (int k : univ) { if (joint && contended(k)) continue; project({ k }, false); }
}

int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	g_on_crash = crashed;
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]); std::string fam = argv[4];
	Gen G(seed * 7919 + INST, fam);
	long only = argc > 5 ? atol(argv[5]) : -1; (void)only;
	for (long i = 0; i < n; ++i) { alarm(60); Gen G2(seed * 1000003 + i * 17 + INST, fam); one_run(G2, seed * 31 + i, fam); }
	flush();
	fprintf(stderr, "%s %s runs=%ld distinct=%zu\n", NAME, fam.c_str(), g_runs, g_seen.size());
	return 0;
}
