// Driver for radix_hash_set / radix_hash_map.   usage: radix_hash OUT SEED N MODE
#include "../common.hpp"
#include <seq/radix_hash_map.hpp>
#include <seq/tiny_string.hpp>
#include <optional>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }
#ifndef INST
#define INST 0
#endif
#define FAM 3
#define KIND 2
#define HAS_MERGE false
#define HAS_SHRINK true
#define RANGE_KINDS 3
#define MULTI 0
#define STABLE 1
#define POOLCFG ""
inline long NKEYS(Rng& g, size_t soft) { return g.chance(1, 3) && soft < 130 ? 3 + (long)g.below(8) : (long)(soft + g.below(3 * soft)); }
inline long rankOf(int k) { return k / 1000; } inline long rankOf(long k) { return k / 1000; }
template<bool N> long rankOf(const ObjT<N>& k) { return val(k) / 1000; }
template<int P> long rankOf(const RelT<P>& k) { return val(k) / 1000; }
inline std::string strK(long r) { char b[64]; snprintf(b, sizeof b, r % 3 == 0 ? "%05ld" : r % 3 == 1 ? "%05ldabcdefgh" : "%05ldabcdefghijklmnopqrstuvwxyz", r); return b; }
// every hasher hashes in its own way: the container has to keep it with its elements
inline size_t g_seed = 1;
template<class K> struct OwnHash { size_t seed = g_seed++; size_t operator()(const K& k) const { return (size_t)rankOf(k) * 0x9E3779B97F4A7C15ull + seed * 0xC2B2AE3D27D4EB4Full; } };
// Bad hashes, used as they are (is_avalanching): KIND_OF 0 constant, 1 few values, 2 dense neighbours, 3 only high bits
template<class K, int KO> struct BadHash {
	using is_avalanching = int;
	size_t operator()(const K& k) const { size_t r = (size_t)rankOf(k);
		return KO == 0 ? 0 : KO == 1 ? (r % 3) * 0x4000000000000021ull : KO == 2 ? r / 4 + ((r % 5) << 60) : KO == 3 ? r << 56 : ~(size_t)0 - r / 8; }
};
struct LessK { template<class K> bool operator()(const K& a, const K& b) const { return rankOf(a) < rankOf(b); } };
template<class K> struct Eq { bool operator()(const K& a, const K& b) const { return rankOf(a) == rankOf(b); } };
#define NUMKEY K mkK(long r, long l) { return K((int)(r * 1000 + l)); } long codeK(const K& k) { return val(k); }
#if INST == 0
using K = int; using A = Alloc<K, 0>; using C = seq::radix_hash_set<K, seq::hasher<K>, std::equal_to<>, A>;
#define NAME "radix_hash_set<int>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
NUMKEY
#elif INST == 1
using K = std::string; using T = Obj; using A = Alloc<std::pair<K, T>, 7>; using C = seq::radix_hash_map<K, T, std::hash<K>, std::equal_to<K>, A>;
#define NAME "radix_hash_map<string,Obj>"
#define PMV 7
#define PER 1
#define MAP 1
#define LOWS 1
K mkK(long r, long) { return strK(r); } long codeK(const K& k) { return k.empty() ? -1000 : atol(k.substr(0, 5).c_str()) * 1000; }
#elif INST == 2
using K = Obj; using A = Alloc<K, 8>; using C = seq::radix_hash_set<K, BadHash<K, 1>, Eq<K>, A>;
#define NAME "radix_hash_set<Obj,3 hashes>"
#define PMV 8
#define PER 1
#define MAP 0
#define LOWS 1
NUMKEY
#elif INST == 3
using K = int; using T = ObjTh; using A = Alloc<std::pair<K, T>, 2>; using C = seq::radix_hash_map<K, T, BadHash<K, 0>, Eq<K>, A>;
#define NAME "radix_hash_map<int,ObjTh,constant hash>"
#define PMV 2
#define PER 1
#define MAP 1
#define LOWS 1
NUMKEY
#elif INST == 4
using K = Rel; using A = Alloc<K, 1>; using C = seq::radix_hash_set<K, OwnHash<K>, Eq<K>, A>;
#define NAME "radix_hash_set<Rel,own hash>"
#define PMV 1
#define PER 1
#define MAP 0
#define LOWS 1
NUMKEY
#elif INST == 5
using K = Obj; using T = Rel; using A = Alloc<std::pair<K, T>, 0>; using C = seq::radix_hash_map<K, T, OwnHash<K>, Eq<K>, A>;
#define NAME "radix_hash_map<Obj,Rel,own hash>"
#define PMV 0
#define PER 2
#define MAP 1
#define LOWS 1
NUMKEY
#elif INST == 6
using K = seq::tstring; using A = Alloc<K, 0>; using C = seq::radix_hash_set<K, seq::hasher<K>, std::equal_to<>, A>;
#define NAME "radix_hash_set<tstring>"
#define PMV 0
#define PER 0
#define MAP 0
#define LOWS 0
#define ALTK 1
inline std::string altK(long r) { return strK(r); }
K mkK(long r, long) { return K(strK(r).c_str()); } long codeK(const K& k) { return k.size() < 5 ? -1000 : atol(std::string(k.data(), 5).c_str()) * 1000; }
#elif INST == 7
using K = long; using T = int; using A = Alloc<std::pair<K, T>, 0>; using C = seq::radix_hash_map<K, T, BadHash<K, 2>, Eq<K>, A>;
#define NAME "radix_hash_map<long,int,clustered hash>"
#define PMV 0
#define PER 0
#define MAP 1
#define LOWS 1
K mkK(long r, long) { return r * 1000; } long codeK(const K& k) { return k; }
#elif INST == 8
using K = int; using A = Alloc<K, 7>; using C = seq::radix_hash_set<K, BadHash<K, 4>, Eq<K>, A>;
#define NAME "radix_hash_set<int,hash at the end>"
#define PMV 7
#define PER 0
#define MAP 0
#define LOWS 0
NUMKEY
#elif INST == 9
using K = Obj; using A = Alloc<K, 7>; using C = seq::radix_hash_set<K, BadHash<K, 0>, Eq<K>, A, LessK>;
#define NAME "radix_hash_set<Obj,constant hash,less>"
#define PMV 7
#define PER 1
#define MAP 0
#define LOWS 1
NUMKEY
#elif INST == 10
using K = long; using T = RelBig; using A = Alloc<std::pair<K, T>, 7>; using C = seq::radix_hash_map<K, T, BadHash<K, 3>, Eq<K>, A, LessK>;
#define NAME "radix_hash_map<long,RelBig,high bits,less>"
#define PMV 7
#define PER 1
#define MAP 1
#define LOWS 1
K mkK(long r, long) { return r * 1000; } long codeK(const K& k) { return k; }
#endif
#ifndef ALTK
#define ALTK 0
#endif
#if MAP
T mkT(long v) { return T((int)v); }
long codeT(const T& t) { return val(t); }
#endif
#include "assoc.hpp"
