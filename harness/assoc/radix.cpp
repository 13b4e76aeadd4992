// Driver for radix_set / radix_map.   usage: radix OUT SEED N MODE
#include "../common.hpp"
#include <seq/radix_map.hpp>
#include <seq/tiny_string.hpp>
#include <array>
#include <tuple>
#include <cmath>
#include <algorithm>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }
#ifndef INST
#define INST 0
#endif
#define FAM 1
#define KIND 0
#define HAS_MERGE true
#define HAS_SHRINK true
#define RANGE_KINDS 3
#define MULTI 0
#define STABLE 1
// Keys are taken from a pool, sorted by the order of the key type; the rank in the pool is what the specification sees.
template<class W> struct Ref { using type = W; };
template<class U> U rnd_int(Rng& g) { // clusters, powers of two, extremes, anything
	using S = std::make_unsigned_t<U>;
	S base[3] = { 0, (S)g.next(), (S)(S(1) << g.below(sizeof(U) * 8)) };
	switch (g.below(6)) {
		case 0: return (U)(S)(base[2] + (S)g.below(3) - 1);
		case 1: return (U)g.next();
		case 2: return (U)(std::numeric_limits<U>::max() - (U)g.below(5));
		case 3: return (U)(std::numeric_limits<U>::min() + (U)g.below(5));
		default: return (U)(S)g.below(400);
	}
}
inline double rnd_dbl(Rng& g) {
	switch (g.below(8)) {
		case 0: return std::numeric_limits<double>::infinity() * (g.chance(1, 2) ? 1 : -1);
		case 1: return std::ldexp(1.0, (int)g.below(2000) - 1000) * (g.chance(1, 2) ? 1 : -1);
		case 2: return std::numeric_limits<double>::denorm_min() * (double)(1 + g.below(20)) * (g.chance(1, 2) ? 1 : -1);
		case 3: return (double)g.below(100);
		case 4: return -(double)(1 + g.below(100));
		default: return ((double)g.next() - 9e18) / 1e17;
	}
}
// sequences of characters: few characters, shared prefixes, embedded zeros, long chains
template<class Ch> std::vector<Ch> rnd_chars(Rng& g, const std::vector<std::vector<Ch>>& prev) {
	static const long AL[] = { 97, 98, 0, 255, 128, 127, 1, 99, 65 };
	std::vector<Ch> r; int fam = (int)g.below(4);
	if (fam == 0) { r.assign(g.below(40), (Ch)0); return r; }
	if (fam <= 2 && prev.size()) { r = prev[g.below(prev.size())]; if (g.chance(1, 3)) r.resize(g.below(r.size() + 1)); }
	size_t n = g.below(g.chance(1, 4) ? 20 : 4);
	while (n--) {
		if (std::is_signed_v<Ch> && sizeof(Ch) > 1 && g.chance(1, 2)) r.push_back(rnd_int<Ch>(g));
		else r.push_back((Ch)(AL[g.below(9)] - (std::is_signed_v<Ch> && sizeof(Ch) > 1 && g.chance(1, 3) ? 98 : 0)));
	}
	if (r.size() > 48) r.resize(48);
	return r;
}
#if INST == 0
using K = int; using W = int; using A = Alloc<K, 0>; using C = seq::radix_set<K, seq::default_key, A>;
#define NAME "radix_set<int>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
W rnd(Rng& g) { return rnd_int<int>(g); }
#elif INST == 1
using K = uint64_t; using W = K; using A = Alloc<K, 7>; using C = seq::radix_set<K, seq::default_key, A>;
#define NAME "radix_set<uint64>"
#define PMV 7
#define PER 0
#define MAP 0
#define LOWS 0
W rnd(Rng& g) { return rnd_int<K>(g); }
#elif INST == 2
using K = std::string; using W = K; using T = Obj; using A = Alloc<std::pair<K, T>, 2>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<string,Obj>"
#define PMV 2
#define PER 1
#define MAP 1
#define LOWS 1
#define CHARS unsigned char
#define ALTK 1
W word(const std::vector<CHARS>& v) { return W(v.begin(), v.end()); }
#elif INST == 3
using K = double; using W = K; using T = int; using A = Alloc<std::pair<K, T>, 1>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<double,int>"
#define PMV 1
#define PER 0
#define MAP 1
#define LOWS 1
W rnd(Rng& g) { return rnd_dbl(g); }
#elif INST == 4
using K = seq::tstring; using W = std::string; using A = Alloc<K, 0>; using C = seq::radix_set<K, seq::default_key, A>;
#define NAME "radix_set<tstring>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
#define CHARS unsigned char
#define ALTK 1
W word(const std::vector<CHARS>& v) { return W(v.begin(), v.end()); }
#elif INST == 5
using K = short; using W = K; using T = ObjTh; using A = Alloc<std::pair<K, T>, 8>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<short,ObjTh>"
#define PMV 8
#define PER 1
#define MAP 1
#define LOWS 1
W rnd(Rng& g) { return rnd_int<K>(g); }
#elif INST == 6
using K = std::vector<int>; using W = K; using T = int; using A = Alloc<std::pair<K, T>, 0>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<vector<int>,int>"
#define PMV 0
#define PER 0
#define MAP 1
#define LOWS 1
#define CHARS int
W word(const std::vector<CHARS>& v) { return v; }
#elif INST == 7
// the key is extracted from a tracked object; its low part tells equal keys apart
struct Ext { int operator()(const Obj& o) const noexcept { return (int)(o.v / 1000); } };
using K = Obj; using W = int; using A = Alloc<K, 0>; using C = seq::radix_set<K, Ext, A>;
#define NAME "radix_set<Obj,extract>"
#define PMV 0
#define PER 1
#define MAP 0
#define LOWS 1
#define OWN_POOL
inline long NKEYS(Rng& g, size_t soft) { return g.chance(1, 3) ? 3 + (long)g.below(8) : (long)(soft + g.below(3 * soft)); }
K mkK(long r, long l) { return K((int)(r * 1000 + l)); } long codeK(const K& k) { return val(k); }
#elif INST == 8
using K = std::tuple<short, unsigned, unsigned char>; using W = K; using T = Rel; using A = Alloc<std::pair<K, T>, 7>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<tuple,Rel>"
#define PMV 7
#define PER 1
#define MAP 1
#define LOWS 1
W rnd(Rng& g) { return W(rnd_int<short>(g) % 5, g.chance(1, 2) ? rnd_int<unsigned>(g) : 7u, (unsigned char)g.below(g.chance(1, 2) ? 3 : 256)); }
#elif INST == 9
using K = std::wstring; using W = K; using A = Alloc<K, 0>; using C = seq::radix_set<K, seq::default_key, A>;
#define NAME "radix_set<wstring>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
#define CHARS unsigned
W word(const std::vector<CHARS>& v) { return W(v.begin(), v.end()); }
#elif INST == 10
using K = std::vector<int64_t>; using W = K; using A = Alloc<K, 0>; using C = seq::radix_set<K, seq::default_key, A>;
#define NAME "radix_set<vector<int64>>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
#define CHARS int64_t
#define POOLCFG ""
W word(const std::vector<CHARS>& v) { return v; }
#elif INST == 11
using K = std::u16string; using W = K; using T = Obj; using A = Alloc<std::pair<K, T>, 0>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<u16string,Obj>"
#define PMV 0
#define PER 1
#define MAP 1
#define LOWS 1
#define CHARS char16_t
W word(const std::vector<CHARS>& v) { return W(v.begin(), v.end()); }
#elif INST == 12
using K = const int*; using W = K; using T = std::string; using A = Alloc<std::pair<K, T>, 0>; using C = seq::radix_map<K, T, seq::default_key, A>;
#define NAME "radix_map<pointer,string>"
#define PMV 0
#define PER 0
#define MAP 1
#define LOWS 1
static int ARENA[20000];
W rnd(Rng& g) { return g.chance(1, 3) ? (const int*)(uintptr_t)(rnd_int<unsigned>(g) * 16ull) : ARENA + g.below(20000); }
#define OWN_T
T mkT(long v) { return std::to_string(v); }
long codeT(const T& t) { return t.empty() ? 0 : atol(t.c_str()); }
#elif INST == 13
using K = std::array<char, 6>; using W = std::array<unsigned char, 6>; using A = Alloc<K, 0>; using C = seq::radix_set<K, seq::default_key, A>;
#define NAME "radix_set<array<char,6>>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
W rnd(Rng& g) { W w; bool few = g.chance(2, 3); for (auto& x : w) x = (unsigned char)(few ? "ab\xff\0"[g.below(4)] : g.below(256)); return w; }
#endif
#ifndef ALTK
#define ALTK 0
#endif
#ifndef OWN_POOL
inline std::vector<W> POOL;
#ifdef CHARS
inline std::vector<std::vector<CHARS>> RAW;
inline std::string poolcfg() {
	std::string s = ",\"pool\":[";
	for (size_t i = 0; i < RAW.size(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < RAW[i].size(); ++j) { if (j) s += ","; s += std::to_string((long)RAW[i][j]); } s += "]"; }
	return s + "]";
}
#ifndef POOLCFG
#define POOLCFG poolcfg()
#endif
#if INST != 6 && INST != 10
#define HAS_PREFIX
#endif
inline std::vector<long> some_prefix(Rng& g) {
	auto v = RAW[g.below(RAW.size())]; v.resize(g.below(v.size() + 1)); if (g.chance(1, 10)) v.push_back((CHARS)97);
	return std::vector<long>(v.begin(), v.end());
}
#endif
inline long NKEYS(Rng& g, size_t soft) {
	size_t n = g.chance(1, 3) ? 3 + g.below(8) : soft + g.below(3 * soft);
	POOL.clear();
	#ifdef CHARS
	RAW.clear(); n = std::min<size_t>(n, 400);
	for (size_t i = 0; i < n; ++i) RAW.push_back(rnd_chars<CHARS>(g, RAW));
	std::sort(RAW.begin(), RAW.end()); RAW.erase(std::unique(RAW.begin(), RAW.end()), RAW.end());
	for (auto& v : RAW) POOL.push_back(word(v));
	#else
	for (size_t i = 0; i < n; ++i) POOL.push_back(rnd(g));
	std::sort(POOL.begin(), POOL.end(), std::less<W>()); POOL.erase(std::unique(POOL.begin(), POOL.end()), POOL.end());
	#endif
	return (long)POOL.size();
}
#if INST == 4
inline K toK(const W& w) { return K(w.data(), w.size()); }
inline W fromK(const K& k) { return W(k.data(), k.size()); }
#elif INST == 13
inline K toK(const W& w) { K k; for (int i = 0; i < 6; ++i) k[i] = (char)w[i]; return k; }
inline W fromK(const K& k) { W w; for (int i = 0; i < 6; ++i) w[i] = (unsigned char)k[i]; return w; }
#else
#if INST == 3
inline K toK(const W& w) { static unsigned n = 0; return w == 0 && n++ % 2 ? -0.0 : w; }
#else
inline K toK(const W& w) { return w; }
#endif
inline const W& fromK(const K& k) { return k; }
#endif
#ifdef HAS_PREFIX
inline K prefix_key(const std::vector<long>& p) { std::vector<CHARS> v(p.begin(), p.end()); auto w = word(v); return toK(w); }
#endif
inline K mkK(long r, long) { return toK(POOL[(size_t)r]); }
inline long codeK(const K& k) {
	W w = fromK(k);
	auto it = std::lower_bound(POOL.begin(), POOL.end(), w, std::less<W>());
	return it != POOL.end() && *it == w ? (long)(it - POOL.begin()) * 1000 : -1000;
}
#endif
#ifndef POOLCFG
#define POOLCFG ""
#endif
#if ALTK
#if INST == 2
inline seq::tstring altK(long r) { auto& w = POOL[(size_t)r]; return seq::tstring(w.data(), w.size()); }
#else
inline std::string_view altK(long r) { return POOL[(size_t)r]; }
#endif
#endif
#if MAP && !defined(OWN_T)
T mkT(long v) { return T((int)v); }
long codeT(const T& t) { return val(t); }
#endif
#include "assoc.hpp"
