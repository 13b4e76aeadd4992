// Driver for ordered_set / ordered_map.   usage: ordered OUT SEED N MODE
#include "../common.hpp"
#include <seq/ordered_map.hpp>
#include <seq/tiny_string.hpp>
#include <optional>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }
#ifndef INST
#define INST 0
#endif
#define FAM 2
#define KIND 1
#define HAS_MERGE false
#define HAS_SHRINK true
#define RANGE_KINDS 3
#define MULTI 0
#define STABLE 1
#define POOLCFG ""
inline long NKEYS(Rng& g, size_t soft) { return g.chance(1, 3) && soft < 130 ? 3 + (long)g.below(8) : (long)(soft + g.below(3 * soft)); }
inline long rankOf(int k) { return k / 1000; } inline long rankOf(long k) { return k / 1000; }
template<bool N> long rankOf(const ObjT<N>& k) { return val(k) / 1000; }
template<int P> long rankOf(const RelT<P>& k) { return val(k) / 1000; }
inline std::string strK(long r) { char b[64]; snprintf(b, sizeof b, r % 3 == 0 ? "%05ld" : r % 3 == 1 ? "%05ldabcdefgh" : "%05ldabcdefghijklmnopqrstuvwxyz", r); return b; }
// every hasher hashes in its own way: the container has to keep it with its table
inline size_t g_seed = 1;
template<class K> struct OwnHash { size_t seed = g_seed++; size_t operator()(const K& k) const { may_throw(); return (size_t)rankOf(k) * 0x9E3779B97F4A7C15ull + seed * 0xC2B2AE3D27D4EB4Full; } };
// Bad hashes, used as they are (is_avalanching): KIND_OF 0 constant, 1 few values, 2 dense neighbours, 3 only high bits
template<class K, int KO> struct BadHash {
	using is_avalanching = int;
	size_t operator()(const K& k) const { may_throw(); size_t r = (size_t)rankOf(k);
		return KO == 0 ? 0 : KO == 1 ? (r % 3) * 0x4000000000000021ull : KO == 2 ? r / 4 + ((r % 5) << 60) : KO == 3 ? r << 56 : ~(size_t)0 - r / 8; }
};
template<class K> struct Eq { bool operator()(const K& a, const K& b) const { may_throw(); return rankOf(a) == rankOf(b); } };
#define NUMKEY K mkK(long r, long l) { return K((int)(r * 1000 + l)); } long codeK(const K& k) { return val(k); }
#if INST == 0
using K = int; using A = Alloc<K, 0>; using C = seq::ordered_set<K, seq::hasher<K>, std::equal_to<>, A>;
#define NAME "ordered_set<int>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
NUMKEY
#elif INST == 1
using K = std::string; using T = Obj; using A = Alloc<std::pair<K, T>, 7>; using C = seq::ordered_map<K, T, std::hash<K>, std::equal_to<K>, A>;
#define NAME "ordered_map<string,Obj>"
#define PMV 7
#define PER 1
#define MAP 1
#define LOWS 1
K mkK(long r, long) { return strK(r); } long codeK(const K& k) { return k.empty() ? -1000 : atol(k.substr(0, 5).c_str()) * 1000; }
#elif INST == 2
using K = Obj; using A = Alloc<K, 8>; using C = seq::ordered_set<K, BadHash<K, 1>, Eq<K>, A>;
#define NAME "ordered_set<Obj,3 hashes>"
#define PMV 8
#define PER 1
#define MAP 0
#define LOWS 1
#define DEEP
NUMKEY
#elif INST == 3
using K = int; using T = ObjTh; using A = Alloc<std::pair<K, T>, 2>; using C = seq::ordered_map<K, T, BadHash<K, 0>, Eq<K>, A>;
#define NAME "ordered_map<int,ObjTh,constant hash>"
#define PMV 2
#define PER 1
#define MAP 1
#define LOWS 1
#define DEEP
NUMKEY
#elif INST == 4
using K = Rel; using A = Alloc<K, 1>; using C = seq::ordered_set<K, OwnHash<K>, Eq<K>, A>;
#define NAME "ordered_set<Rel,own hash>"
#define PMV 1
#define PER 1
#define MAP 0
#define LOWS 1
NUMKEY
#elif INST == 5
using K = Obj; using T = Rel; using A = Alloc<std::pair<K, T>, 0>; using C = seq::ordered_map<K, T, OwnHash<K>, Eq<K>, A>;
#define NAME "ordered_map<Obj,Rel,own hash>"
#define PMV 0
#define PER 2
#define MAP 1
#define LOWS 1
NUMKEY
#elif INST == 6
using K = seq::tstring; using A = Alloc<K, 0>; using C = seq::ordered_set<K, seq::hasher<K>, std::equal_to<>, A>;
#define NAME "ordered_set<tstring>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
#define ALTK 1
inline std::string altK(long r) { return strK(r); }
K mkK(long r, long) { return K(strK(r).c_str()); } long codeK(const K& k) { return k.size() < 5 ? -1000 : atol(std::string(k.data(), 5).c_str()) * 1000; }
#elif INST == 7
using K = long; using T = int; using A = Alloc<std::pair<K, T>, 0>; using C = seq::ordered_map<K, T, BadHash<K, 2>, Eq<K>, A>;
#define NAME "ordered_map<long,int,clustered hash>"
#define PMV 0
#define PER 0
#define MAP 1
#define LOWS 1
#define DEEP
K mkK(long r, long) { return r * 1000; } long codeK(const K& k) { return k; }
#elif INST == 8
using K = int; using A = Alloc<K, 7>; using C = seq::ordered_set<K, BadHash<K, 4>, Eq<K>, A>;
#define NAME "ordered_set<int,hash at the end>"
#define PMV 7
#define PER 0
#define MAP 0
#define LOWS 0
#define DEEP
NUMKEY
#endif
#ifndef ALTK
#define ALTK 0
#endif
#if MAP
T mkT(long v) { return T((int)v); }
long codeT(const T& t) { return val(t); }
#endif
struct LessK { bool desc; template<class A, class B> bool operator()(const A& a, const B& b) const { may_throw(); return desc ? codeK(b) / 1000 < codeK(a) / 1000 : codeK(a) / 1000 < codeK(b) / 1000; } };
struct LessE { template<class A> static long of(const A& a) { if constexpr (MAP != 0) return codeK(a.first) / 1000; else return codeK(a) / 1000; } template<class A> bool operator()(const A& a, const A& b) const { may_throw(); return of(a) < of(b); } };
// Members that order the elements, and the underlying sequence: using it makes the container dirty until rehash().
template<class R> void order_ops_impl(R& r, int k) {
	using C = std::decay_t<decltype(*r.c[0])>; auto& g = r.g; C& q = *r.c[k]; std::string x; size_t n = q.size(); r.dropall(k);
	if (!r.dirty[k] && g.chance(2, 3)) {
		bool desc = g.chance(1, 2); int how = (int)g.below(3); if (how == 2) desc = false;
		if (how == 2 && MAP) how = 3;
		Ev e("sort"); e.i("k", k + 1).b("desc", desc).i("how", how); r.arm(n * 4 + 2);
		x = guarded([&] { switch (how) { case 0: q.sort(LessK{ desc }); break;
			case 1: q.stable_sort(LessK{ desc }); break;
			case 2: if constexpr (!MAP) { std::vector<typename C::value_type*> v(n / 2 + 2); q.sort(LessK{ desc }); } break;
			default: if constexpr (MAP) { if constexpr (INST == 5) q.sort(LessK{ desc }); else { if (g.chance(1, 2)) q.sort(); else q.stable_sort(); } } } });
		disarm(); r.finish(e, k, x, true); e.close(); r.heal(k, x); return;
	}
	switch (r.dirty[k] ? g.below(8) : 0) {
		case 0: case 1: case 2: { long v = r.fresh(); size_t p = g.below(n + 1); int sub = (int)g.below(5); if (sub == 2 && !n) sub = 0; if (sub == 3 && !g.chance(1, 3)) sub = 1;
			if (sub < 2 && n && g.chance(1, 2)) v = R::codeE(*R::at(q, g.below(n))) / 1000 * 1000 + (LOWS ? (long)g.below(999) : 0);
			if (sub == 2) p = g.below(n);
			static const char* S[] = { "pb", "pf", "er", "srt", "touch" };
			Ev e("seqop"); e.i("k", k + 1).s("sub", S[sub]).i("v", v).i("p", (long)p);
			auto& s = q.sequence(); { auto t = R::mkE(v); r.arm(sub == 3 ? 4 * n + 2 : 4);
			x = guarded([&] { switch (sub) { case 0: s.push_back(t); break; case 1: s.emplace_front(std::move(t)); break; case 2: { auto it = s.begin(); std::advance(it, p); s.erase(it); break; } case 3: s.sort(LessE{}); break; default: break; } }); disarm(); }
			r.dirty[k] = true; r.finish(e, k, x, true); e.close(); r.heal(k, x); break; }
		case 3: case 4: { long v = r.fresh(); const C& cq = q; long rank = v / 1000; int how = (int)g.below(7); if (!n && how == 4) how = 0; bool had = r.dirty[k];
			Ev e("dirtyq"); e.i("k", k + 1).i("how", how);
			{ auto t = R::mkE(v); K kk = mkK(rank, 0);
			x = guarded([&] { switch (how) { case 0: (void)cq.find(kk); break; case 1: q.insert(t); break; case 2: q.push_front(std::move(t)); break; case 3: (void)cq.contains(kk); break; case 4: q.erase(q.begin()); break;
				case 5: q.erase(kk); break; default: if constexpr (MAP) (void)cq.at(kk); else (void)cq.count(kk); } }); }
			(void)had; r.finish(e, k, x, true); break; }
		case 5: { Ev e("rehash0"); e.i("k", k + 1); r.arm(2 * n + 2); x = guarded([&] { q.rehash(); }); disarm(); r.dirty[k] = false; r.finish(e, k, x, true); break; }
		case 6: { int how = (int)g.below(3); int o = 1 - k; auto& p = *r.c[o]; std::optional<C> t; r.dropall(o); // from the dirty container
			Ev e("dcopy"); e.i("k", o + 1).i("how", how);
			x = guarded([&] { switch (how) { case 0: t.emplace(static_cast<const C&>(q)); break; case 1: p = static_cast<const C&>(q); break; default: p = std::move(q); } });
			if (t) { r.c[o].reset(); r.c[o].emplace(std::move(*t)); t.reset(); }
			if (how != 2) r.dirty[o] = false;
			else { r.probe(o); r.dirty[k] = false; r.c[k]->clear(); }
			e.b("dy", r.dirty[o]);
			r.both(e, o, x); break; }
		default: { if (g.chance(1, 2)) { Ev e("clear"); e.i("k", k + 1); x = guarded([&] { q.clear(); }); r.dirty[k] = false; r.finish(e, k, x, true); }
			else { size_t a = g.below(n + 1), b = a + g.below(std::min<size_t>(n - a, 4) + 1); Ev e("derase"); e.i("k", k + 1).i("p", (long)a).i("q", (long)b);
				x = guarded([&] { q.erase(R::at(q, a), R::at(q, b)); }); r.dirty[k] = false; r.finish(e, k, x, true); } }
	}
}
#include "assoc.hpp"
