// Driver for concurrent_set / concurrent_map used from one thread.   usage: cseq OUT SEED N MODE
#include "../common.hpp"
#include <seq/concurrent_map.hpp>
#include <seq/tiny_string.hpp>
#include <optional>
#include <execution>
#include <list>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }
#ifndef INST
#define INST 0
#endif
inline long NKEYS(Rng& g, size_t soft) { return g.chance(1, 3) && soft < 130 ? 3 + (long)g.below(8) : (long)(soft + g.below(3 * soft)); }
inline long rankOf(int k) { return k / 1000; } inline long rankOf(long k) { return k / 1000; }
template<bool N> long rankOf(const ObjT<N>& k) { return val(k) / 1000; }
template<int P> long rankOf(const RelT<P>& k) { return val(k) / 1000; }
inline std::string strK(long r) { char b[64]; snprintf(b, sizeof b, r % 3 == 0 ? "%05ld" : r % 3 == 1 ? "%05ldabcdefgh" : "%05ldabcdefghijklmnopqrstuvwxyz", r); return b; }
// every hasher hashes in its own way: the container has to keep it with its elements
inline size_t g_seed = 1;
template<class K> struct OwnHash { size_t seed = g_seed++; size_t operator()(const K& k) const { may_throw(); return (size_t)rankOf(k) * 0x9E3779B97F4A7C15ull + seed * 0xC2B2AE3D27D4EB4Full; } };
// Bad hashes, used as they are (is_avalanching): KIND_OF 0 constant, 1 few values, 2 dense neighbours, 3 only high bits
template<class K, int KO> struct BadHash {
	using is_avalanching = int;
	size_t operator()(const K& k) const { may_throw(); size_t r = (size_t)rankOf(k);
		return KO == 0 ? 0 : KO == 1 ? (r % 3) * 0x4000000000000021ull : KO == 2 ? r / 4 + ((r % 5) << 60) : KO == 3 ? r << 56 : ~(size_t)0 - r / 8; }
};
template<class K> struct Eq { bool operator()(const K& a, const K& b) const { may_throw(); return rankOf(a) == rankOf(b); } };
#define NUMKEY K mkK(long r, long l) { return K((int)(r * 1000 + l)); } long codeK(const K& k) { return val(k); }
#if INST == 0
using K = int; using A = Alloc<K, 0>; using C = seq::concurrent_set<K, seq::hasher<K>, std::equal_to<>, A, seq::medium_concurrency>;
#define NAME "concurrent_set<int>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
NUMKEY
#elif INST == 1
using K = std::string; using T = Obj; using A = Alloc<std::pair<K, T>, 7>; using C = seq::concurrent_map<K, T, std::hash<K>, std::equal_to<K>, A, seq::no_concurrency>;
#define NAME "concurrent_map<string,Obj,none>"
#define PMV 7
#define PER 1
#define MAP 1
#define LOWS 1
K mkK(long r, long) { return strK(r); } long codeK(const K& k) { return k.empty() ? -1000 : atol(k.substr(0, 5).c_str()) * 1000; }
#elif INST == 2
using K = Obj; using A = Alloc<K, 8>; using C = seq::concurrent_set<K, BadHash<K, 1>, Eq<K>, A, seq::low_concurrency>;
#define NAME "concurrent_set<Obj,3 hashes,low>"
#define PMV 8
#define PER 1
#define MAP 0
#define LOWS 1
NUMKEY
#elif INST == 3
using K = int; using T = ObjTh; using A = Alloc<std::pair<K, T>, 2>; using C = seq::concurrent_map<K, T, BadHash<K, 0>, Eq<K>, A, seq::medium_concurrency_shared>;
#define NAME "concurrent_map<int,ObjTh,constant hash,medium shared>"
#define PMV 2
#define PER 1
#define MAP 1
#define LOWS 1
NUMKEY
#elif INST == 4
using K = Rel; using A = Alloc<K, 1>; using C = seq::concurrent_set<K, OwnHash<K>, Eq<K>, A, seq::high_concurrency_shared>;
#define NAME "concurrent_set<Rel,own hash,high shared>"
#define PMV 1
#define PER 1
#define MAP 0
#define LOWS 1
NUMKEY
#elif INST == 5
using K = Obj; using T = Rel; using A = Alloc<std::pair<K, T>, 0>; using C = seq::concurrent_map<K, T, OwnHash<K>, Eq<K>, A, 1u>;
#define NAME "concurrent_map<Obj,Rel,own hash,2 shards>"
#define PMV 0
#define PER 2
#define MAP 1
#define LOWS 1
NUMKEY
#elif INST == 6
using K = seq::tstring; using A = Alloc<K, 0>; using C = seq::concurrent_set<K, seq::hasher<K>, std::equal_to<>, A, seq::low_concurrency_shared>;
#define NAME "concurrent_set<tstring>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
#define ALTK 1
inline std::string altK(long r) { return strK(r); }
K mkK(long r, long) { return K(strK(r).c_str()); } long codeK(const K& k) { return k.size() < 5 ? -1000 : atol(std::string(k.data(), 5).c_str()) * 1000; }
#elif INST == 7
using K = long; using T = int; using A = Alloc<std::pair<K, T>, 0>; using C = seq::concurrent_map<K, T, BadHash<K, 2>, Eq<K>, A, 2u>;
#define NAME "concurrent_map<long,int,clustered hash>"
#define PMV 0
#define PER 0
#define MAP 1
#define LOWS 1
K mkK(long r, long) { return r * 1000; } long codeK(const K& k) { return k; }
#elif INST == 8
using K = int; using A = Alloc<K, 7>; using C = seq::concurrent_set<K, BadHash<K, 4>, Eq<K>, A, seq::no_concurrency>;
#define NAME "concurrent_set<int,hash at the end,none>"
#define PMV 7
#define PER 0
#define MAP 0
#define LOWS 0
NUMKEY
#elif INST == 9
using K = ObjTh; using T = RelBig; using A = Alloc<std::pair<K, T>, 7>; using C = seq::concurrent_map<K, T, OwnHash<K>, Eq<K>, A, seq::low_concurrency>;
#define NAME "concurrent_map<ObjTh,RelBig,own hash,low>"
#define PMV 7
#define PER 2
#define MAP 1
#define LOWS 1
NUMKEY
#endif
#ifndef ALTK
#define ALTK 0
#endif
#if MAP
T mkT(long v) { return T((int)v); }
long codeT(const T& t) { return val(t); }
#else
inline int mkT(long) { return 0; }
inline long codeT(int) { return 0; }
#endif
#if !ALTK
inline int altK(long) { return 0; }
#endif
static long low(long v) { return v < 0 ? 999 : v; }

template<class C> struct Runner {
	using V = typename C::value_type;
	Rng g; std::string mode; bool inject, xfer, big; size_t soft = 0; long nk = 10;
	std::optional<C> c[2];
	Runner(uint64_t s, const std::string& m) : g(s), mode(m), inject(m == "inject"), xfer(m == "xfer"), big(m == "big") {}
	template<class E> static long codeE(const E& e) { if constexpr (MAP != 0) return codeK(e.first) / 1000 * 1000 + low(codeT(e.second)); else return codeK(e); }
	static V mkE(long code) { if constexpr (MAP != 0) return V(mkK(code / 1000, 0), mkT(code % 1000)); else return mkK(code / 1000, code % 1000); }
	template<class E> static void setlow(E& e, long lo) { if constexpr (MAP != 0) e.second = mkT(lo); }
	long key() { return (long)g.below((size_t)nk); }
	long fresh() { return key() * 1000 + (LOWS ? (long)g.below(999) : 0); }
	static std::vector<long> contents(const C& q) { std::vector<long> v; q.cvisit_all([&](const auto& e) { v.push_back(codeE(e)); return true; }); return v; }
	long pick(C& q) { if (q.size() && g.chance(1, 2)) { auto v = contents(q); if (v.size()) return v[g.below(v.size())] / 1000; } return key(); }
	std::vector<long> codes(size_t n) { std::vector<long> r; for (size_t i = 0; i < n; ++i) r.push_back(fresh()); return r; }
	void arm(size_t work) {
		g_fired = false;
		if (!inject || g.chance(1, 3)) return;
		if (g.chance(1, 4)) g_throw_alloc = 1 + (long)g.below(3); else g_throw_elem = 1 + (long)g.below(work);
	}
	long look(C& q, long rank) { long r = -1; K kk = mkK(rank, 0); q.cvisit(kk, [&](const auto& e) { r = codeE(e); }); return r; }
	void see(Ev& e, int k, const char* cn) {
		C& q = *c[k]; std::vector<long> v;
		switch (g.below(4)) {
			case 0: q.visit_all([&](auto& x) { v.push_back(codeE(x)); return true; }); break;
			case 1: static_cast<const C&>(q).visit_all([&](const auto& x) { v.push_back(codeE(x)); return true; }); break;
			case 2: q.visit_all(std::execution::seq, [&](auto& x) { v.push_back(codeE(x)); return true; }); break;
			default: v = contents(q);
		}
		e.l(cn, v);
	}
	void finish(Ev& e, int k, const std::string& x, bool always = false, bool lv = true) {
		disarm();
		C& q = *c[k]; size_t n = q.size();
		e.s("x", x).i("n", (long)n).b("em", q.empty());
		if (x != "none" || always || n <= 24 || g.chance(1, 1 + (unsigned)n / 16)) see(e, k, "c");
		tail(e, lv);
	}
	void tail(Ev& e, bool lv = true) {
		e.i("lv", PER && lv ? g_live : -1);
		e.l("al", std::vector<long>{ (long)c[0]->get_allocator().id, (long)c[1]->get_allocator().id });
		e.s("er", take_err());
	}
	void insert_one(int k) {
		C& q = *c[k]; std::string x; long ins = -1;
		long code = g.chance(1, 3) ? pick(q) * 1000 + (LOWS ? (long)g.below(999) : 0) : fresh();
		long rank = code / 1000, lo = code % 1000;
		if (g.chance(1, 2)) {
			Ev e("insert"); int how = (int)g.below(7); e.i("k", k + 1).i("v", code).i("how", how);
			{ V t = mkE(code); arm(6);
				x = guarded([&] { switch (how) {
					case 0: ins = q.insert(t); break; case 1: ins = q.insert(std::move(t)); break;
					case 2: ins = q.emplace(t); break; case 3: ins = q.emplace(std::move(t)); break;
					default: if constexpr (MAP != 0) { disarm(); K kk = mkK(rank, 0); auto tv = mkT(lo); arm(6);
						if (how == 4) ins = q.emplace(std::move(kk), std::move(tv)); else if (how == 5) ins = q.try_emplace(kk, tv); else ins = q.try_emplace(std::move(kk), std::move(tv)); disarm(); }
						else ins = q.emplace(t); } });
				disarm(); }
			if (x != "none") ins = -1;
			e.i("ins", ins).i("rc", x == "none" ? look(q, rank) : -1).i("rp", -1).s("w", ""); finish(e, k, x); return;
		}
		Ev e("insert_v"); std::vector<long> vs; long mod = MAP && g.chance(1, 2) ? (long)g.below(999) : -1; int how = (int)g.below(8); if (how & 1) mod = -1;
		e.i("k", k + 1).i("v", code).i("mod", mod).i("how", how);
		auto f = [&](auto& y) { vs.push_back(codeE(y)); if constexpr (!std::is_const_v<std::remove_reference_t<decltype(y)>>) { if (mod >= 0) { auto s = g_throw_elem; g_throw_elem = 0; setlow(y, mod); g_throw_elem = s; } } };
		auto cf = [&](const auto& y) { vs.push_back(codeE(y)); };
		{ V t = mkE(code); arm(6);
			x = guarded([&] { switch (how) {
				case 0: ins = q.insert_or_visit(t, f); break; case 1: ins = q.insert_or_cvisit(t, cf); break;
				case 2: ins = q.insert_or_visit(std::move(t), f); break; case 3: ins = q.emplace_or_cvisit(std::move(t), cf); break;
				default: if constexpr (MAP != 0) { disarm(); K kk = mkK(rank, 0); auto tv = mkT(lo); arm(6);
					if (how == 4) ins = q.emplace_or_visit(std::move(kk), std::move(tv), f); else if (how == 5) ins = q.try_emplace_or_cvisit(kk, tv, cf); else if (how == 6) ins = q.try_emplace_or_visit(std::move(kk), std::move(tv), f); else ins = q.try_emplace_or_cvisit(std::move(kk), tv, cf); disarm(); }
					else if (how & 1) ins = q.emplace_or_cvisit(t, cf); else ins = q.emplace_or_visit(t, f); } });
			disarm(); }
		if (x != "none") ins = -1;
		e.i("ins", ins).l("out", vs); finish(e, k, x);
	}
	void assign_one(int k) {
		if constexpr (MAP != 0) {
			C& q = *c[k]; std::string x; long ins = -1; long rank = pick(q), lo = (long)g.below(999);
			Ev e("assign1"); e.i("k", k + 1).i("v", rank * 1000 + lo);
			{ K kk = mkK(rank, 0); auto tv = mkT(lo); arm(8); int how = (int)g.below(3);
				x = guarded([&] { ins = how == 0 ? q.insert_or_assign(kk, tv) : how == 1 ? q.insert_or_assign(std::move(kk), std::move(tv)) : q.insert_or_assign(kk, std::move(tv)); }); disarm(); }
			if (x != "none") ins = -1;
			e.i("ins", ins).i("rc", x == "none" ? look(q, rank) : -1).i("rp", -1).s("w", ""); finish(e, k, x);
		} else find(k);
	}
	template<class KK> void find_as(Ev& e, C& q, const KK& kk) {
		const C& cq = q; long fc = -1; bool ct = false; long cn = 0, vn = 0, mod = -1, calls = 0;
		if (MAP && g.chance(1, 3)) mod = (long)g.below(999);
		ct = cq.contains(kk); cn = (long)cq.count(kk);
		auto cf = [&](const auto& y) { ++calls; fc = codeE(y); };
		if (mod >= 0) vn = (long)q.visit(kk, [&](auto& y) { ++calls; fc = codeE(y); setlow(y, mod); });
		else if (g.chance(1, 2)) vn = (long)cq.visit(kk, cf); else vn = (long)q.cvisit(kk, cf);
		if (vn != cn || calls != cn) cn = -7;
		e.i("fc", fc).i("fp", -1).b("ct", ct).i("cn", cn).i("e1", -2).i("mod", mod);
	}
	void find(int k) {
		C& q = *c[k]; long rank = pick(q);
		Ev e("find"); e.i("k", k + 1).i("key", rank);
		bool alt = false;
		if constexpr (ALTK != 0) if (g.chance(1, 2)) { alt = true; auto kk = altK(rank); find_as(e, q, kk); }
		if (!alt) { K kk = mkK(rank, LOWS && !MAP ? 500 : 0); find_as(e, q, kk); }
		finish(e, k, "none");
	}
	void insert_range(int k) {
		C& q = *c[k]; std::string x; int kind = (int)g.below(3);
		auto cs = codes(g.below(g.chance(1, 4) ? soft + 2 : 8)); if (kind == 2) cs.resize(3, fresh());
		Ev e("insert_r"); e.i("k", k + 1).l("vs", cs).i("kind", kind);
		size_t w = q.size() + 6 * cs.size() + 4;
		auto go = [&](auto f, auto l) { int how = (int)g.below(3); arm(w); auto cf = [](const auto&) {};
			x = guarded([&] { if (how == 0) q.insert_or_cvisit(f, l, cf); else q.insert(f, l); }); disarm(); };
		if (kind == 0) { std::vector<V> t; for (long v : cs) t.push_back(mkE(v)); if (g.chance(1, 4)) { arm(w); x = guarded([&] { q.insert(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); }); disarm(); } else go(t.begin(), t.end()); }
		else if (kind == 1) { std::list<V> t; for (long v : cs) t.push_back(mkE(v)); go(t.begin(), t.end()); }
		else { { std::initializer_list<V> il{ mkE(cs[0]), mkE(cs[1]), mkE(cs[2]) }; arm(w); x = guarded([&] { q.insert(il); }); disarm(); } finish(e, k, x, true, false); return; }
		finish(e, k, x, true);
	}
	void erase_some(int k) {
		C& q = *c[k]; size_t n = q.size(); std::string x;
		switch (g.below(8)) {
			case 0: case 1: case 2: { long rank = pick(q), r = -1; Ev e("erase_key"); e.i("k", k + 1).i("key", rank); bool alt = false;
				if constexpr (ALTK != 0) if (g.chance(1, 2)) { alt = true; auto kk = altK(rank); arm(4); x = guarded([&] { r = (long)q.erase(kk); }); disarm(); }
				if (!alt) { K kk = mkK(rank, 0); arm(4); x = guarded([&] { r = (long)q.erase(kk); }); disarm(); }
				e.i("r", x == "none" ? r : -1); finish(e, k, x); break; }
			case 3: case 4: { long rank = pick(q), r = -1; bool p = g.chance(1, 2); std::vector<long> vs; Ev e("erase_kif"); e.i("k", k + 1).i("key", rank).b("pred", p);
				{ K kk = mkK(rank, 0); arm(4); x = guarded([&] { r = (long)q.erase_if(kk, [&](auto& y) { vs.push_back(codeE(y)); may_throw(); return p; }); }); disarm(); }
				e.i("r", x == "none" ? r : -1).l("out", vs); finish(e, k, x); break; }
			case 5: case 6: { long m = g.range(2, 9), j = (long)g.below((size_t)m), r = -1; if (g.chance(1, 20)) m = 1, j = 0;
				int how = (int)g.below(inject ? 2 : 4); Ev e("erase_if"); e.i("k", k + 1).i("m", m).i("j", j).i("how", how); arm(n + 4); std::atomic<long> seen{ 0 };
				auto p = [&](auto& v) { ++seen; if (how < 2) may_throw(); return codeE(v) / 1000 % m == j; };
				x = guarded([&] { r = (long)(how == 0 ? q.erase_if(p) : how == 1 ? erase_if(q, p) : how == 2 ? q.erase_if(std::execution::seq, p) : q.erase_if(std::execution::seq, p)); }); disarm();
				if (x == "none" && seen != (long)n) r = -8; // each element is shown to the predicate once
				e.i("r", x == "none" ? r : -1); finish(e, k, x, true); break; }
			default: { if (!g.chance(1, 4)) return find(k); Ev e("clear"); e.i("k", k + 1); x = guarded([&] { q.clear(); }); finish(e, k, x); }
		}
	}
	void other(int k) {
		C& q = *c[k]; size_t n = q.size(); std::string x;
		switch (g.below(7)) {
			case 0: { Ev e("full"); e.i("k", k + 1); finish(e, k, "none", true); break; }
			case 1: case 2: { size_t m = g.below(3 * soft + 10); if (g.chance(1, 20)) m = g.below(3000); int how = (int)g.below(3); Ev e("rehash"); e.i("k", k + 1).i("how", how).i("m", (long)m); arm(n + 6);
				x = guarded([&] { if (how == 0) q.reserve(m); else if (how == 1) q.rehash(m); else q.max_load_factor(0.2f + 0.1f * (float)g.below(6)); }); finish(e, k, x, true); break; }
			case 3: equal(k); break;
			case 4: { // visit until told to stop
				size_t stop = 1 + g.below(n + 2); std::vector<long> v; bool r = false; int how = (int)g.below(inject ? 2 : 3); Ev e("visit_some"); e.i("k", k + 1).i("stop", (long)stop);
				auto f = [&](const auto& y) { v.push_back(codeE(y)); return v.size() < stop; };
				x = guarded([&] { r = how == 0 ? q.visit_all(f) : how == 1 ? q.cvisit_all(f) : q.visit_all(std::execution::seq, f); });
				e.l("out", v).b("r", r).b("ex", how == 2); finish(e, k, x); break; }
			case 5: { if (!MAP) return find(k); long d = 1 + (long)g.below(900); Ev e("mapall"); e.i("k", k + 1).i("d", d); // every mapped value changes once
				int how = (int)g.below(2); auto f = [&](auto& y) { setlow(y, (codeE(y) % 1000 + d) % 999); return true; };
				x = guarded([&] { if (how == 0) q.visit_all(f); else q.visit_all(std::execution::seq, f); }); finish(e, k, x, true); break; }
			default: find(k);
		}
	}
	void equal(int k) { std::string x; C& q = *c[k]; C& p = *c[1 - k]; Ev e("eq"); bool a = false; { const C& cp = p; const C& cq = q; x = guarded([&] { a = cq == cp; }); } e.i("k", k + 1).b("r", a).b("r2", !a); finish(e, k, x); }
	void merge(int k) {
		C &q = *c[k], &p = *c[1 - k]; std::string x; if (q.get_allocator().id != p.get_allocator().id) return;
		long r = -1; int how = (int)g.below(inject ? 2 : 3); Ev e("merge"); e.i("k", k + 1); arm(2 * (q.size() + p.size()) + 6);
		x = guarded([&] { r = (long)(how == 0 ? q.merge(p) : how == 1 ? q.merge(std::move(p)) : q.merge(std::execution::seq, p)); }); disarm();
		if (x == "none") e.i("mr", r);
		both(e, k, x);
	}
	void both(Ev& e, int k, const std::string& x) {
		disarm(); e.s("x", x).i("n", (long)c[k]->size()).i("n2", (long)c[1 - k]->size());
		see(e, k, "c"); see(e, 1 - k, "d"); tail(e);
	}
	void xfer_step() {
		int k = (int)g.below(2), o = 1 - k; std::string x = "none"; C &q = *c[k], &p = *c[o];
		int op = (int)g.below(11), id = 1 + (int)g.below(3);
		if (op == 9 && !(PMV & 4) && q.get_allocator().id != p.get_allocator().id) op = 0;
		const char* nm[11] = { "copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "il_ctor", "swap", "range_ctor" };
		Ev e(nm[op]); e.i("k", k + 1); auto xs = codes(g.below(soft)); if (op == 8) xs.resize(2, fresh());
		if (op == 3 || op == 1 || op == 8 || op == 10) e.i("id", id);
		if (op == 10 || op == 8) e.l("vs", xs);
		size_t work = q.size() + p.size() + xs.size() * 4 + 4;
		std::optional<C> t;
		switch (op) {
			case 0: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p)); }); break; }
			case 1: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p), A(id)); }); break; }
			case 2: { arm(work); x = guarded([&] { t.emplace(std::move(p)); }); break; }
			case 3: { arm(work); x = guarded([&] { t.emplace(std::move(p), A(id)); }); break; }
			case 4: { arm(work); x = guarded([&] { q = static_cast<const C&>(p); }); break; }
			case 5: { arm(work); x = guarded([&] { q = std::move(p); }); break; }
			case 6: { arm(work); C& q2 = q; x = guarded([&] { q = static_cast<const C&>(q2); }); break; }
			case 7: { x = guarded([&] { q.swap(q); }); break; }
			case 8: { x = guarded([&] { t.emplace(std::initializer_list<V>{ mkE(xs[0]), mkE(xs[1]) }, A(id)); }); break; }
			case 9: { x = guarded([&] { q.swap(p); }); break; }
			default: { std::vector<V> l; for (long v : xs) l.push_back(mkE(v)); size_t n0 = g.below(2 * soft); arm(work); x = guarded([&] { if (n0 & 1) t.emplace(l.begin(), l.end(), n0, A(id)); else t.emplace(l.begin(), l.end(), A(id)); }); disarm(); break; }
		}
		disarm();
		if (t) { c[k].reset(); c[k].emplace(std::move(*t)); t.reset(); }
		both(e, k, x);
	}
	void step(int k) {
		size_t n = c[k]->size(); bool grow = n < soft ? g.chance(11, 20) : g.chance(1, 4);
		if (grow || n == 0) { switch (g.below(12)) { case 0: insert_range(k); break; case 1: case 2: assign_one(k); break; default: insert_one(k); } }
		else switch (g.below(12)) { case 0: case 1: case 2: case 3: erase_some(k); break; case 4: case 5: case 6: case 7: find(k); break; case 8: merge(k); break; default: other(k); }
	}
	void session(int idx) {
		ledger_reset();
		soft = big ? 100 + g.below(900) : g.chance(1, 3) ? 3 + g.below(6) : 10 + g.below(60);
		if (inject) soft = 2 + g.below(30);
		nk = NKEYS(g, soft);
		size_t steps = big ? 400 : 60 + g.below(100);
		int i0 = 1, i1 = 1 + (int)g.below(2);
		Session S(mode + "/" + std::to_string(idx), kv("type", NAME) + "," + kv("fam", "conc") + "," + kv("kind", "hash") + "," + kvb("multi", false) + "," + kvb("stable", true) + "," + kvb("tm", !std::is_nothrow_move_assignable_v<V>) + "," + kvb("map", MAP) + "," + kv("per", (long)PER) + "," + kv("pm", (long)PMV) + "," + kv("a1", (long)i0) + "," + kv("a2", (long)i1));
		c[0].emplace(A(i0)); c[1].emplace(A(i1));
		if (g.chance(1, 4)) c[0]->reserve(g.below(1000));
		if (big) insert_range(0);
		for (size_t i = 0; i < steps; ++i) {
			if (xfer && g.chance(1, 5)) { xfer_step(); if (g.chance(1, 3)) equal((int)g.below(2)); continue; }
			step((xfer || g.chance(1, 8)) ? (int)g.below(2) : 0);
		}
		for (int k = 0; k < 2; ++k) { Ev e("full"); e.i("k", k + 1); finish(e, k, "none", true); }
		{ Ev e("destroy"); e.i("k", 1); c[0].reset(); c[1].reset();
			e.s("x", "none").i("lv", PER ? g_live : -1).i("tk", g_tok_live).i("bk", (long)g_blocks.size()).s("er", take_err()); }
	}
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner<C> r(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r.session((int)i); }
	flush();
	return 0;
}
