// Driver for flat_set / flat_multiset / flat_map / flat_multimap.   usage: flat OUT SEED N MODE
#include "../common.hpp"
#include <seq/flat_map.hpp>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }
#ifndef INST
#define INST 0
#endif
#define FAM 0
#define KIND 0
#define HAS_MERGE true
#define HAS_SHRINK false
#define RANGE_KINDS 3
#define POOLCFG ""
// keys are ordered by rank only; the low part tells equal keys apart
template<class K> struct ByKey { bool operator()(const K& a, const K& b) const { may_throw(); return val(a) / 1000 < val(b) / 1000; } };
inline long NKEYS(Rng& g, size_t soft) { return g.chance(1, 3) ? 3 + (long)g.below(8) : (long)(soft + g.below(3 * soft)); }
template<class K> K numK(long r, long l) { return K((int)(r * 1000 + l)); }
#define NUMKEY K mkK(long r, long l) { return numK<K>(r, l); } long codeK(const K& k) { return val(k); }
inline std::string strK(long r) { char b[64]; snprintf(b, sizeof b, r % 3 == 0 ? "%05ld" : r % 3 == 1 ? "%05ldabcdefgh" : "%05ldabcdefghijklmnopqrstuvwxyz", r); return b; }
#if INST == 0
using K = int; using A = Alloc<K, 0>; using C = seq::flat_set<K, std::less<>, A>;
#define NAME "flat_set<int>"
#define PMV 0
#define PER 0
#define MAP 0
#define MULTI 0
#define STABLE 0
#define LOWS 0
NUMKEY
#elif INST == 1
using K = Obj; using A = Alloc<K, 7>; using C = seq::flat_multiset<K, ByKey<K>, A, true>;
#define NAME "flat_multiset<Obj,stable>"
#define PMV 7
#define PER 1
#define MAP 0
#define MULTI 1
#define STABLE 1
#define LOWS 1
NUMKEY
#elif INST == 2
using K = Obj; using T = ObjTh; using A = Alloc<std::pair<K, T>, 8>; using C = seq::flat_map<K, T, ByKey<K>, A, false>;
#define NAME "flat_map<Obj,ObjTh>"
#define PMV 8
#define PER 2
#define MAP 1
#define MULTI 0
#define STABLE 0
#define LOWS 1
NUMKEY
#elif INST == 3
using K = int; using T = Obj; using A = Alloc<std::pair<K, T>, 1>; using C = seq::flat_multimap<K, T, ByKey<K>, A, false>;
#define NAME "flat_multimap<int,Obj>"
#define PMV 1
#define PER 1
#define MAP 1
#define MULTI 1
#define STABLE 0
#define LOWS 1
NUMKEY
#elif INST == 4
using K = std::string; using T = int; using A = Alloc<std::pair<K, T>, 2>; using C = seq::flat_map<K, T, std::less<K>, A, true>;
#define NAME "flat_map<string,int,stable>"
#define PMV 2
#define PER 0
#define MAP 1
#define MULTI 0
#define STABLE 1
#define LOWS 1
K mkK(long r, long) { return strK(r); } long codeK(const K& k) { return atol(k.substr(0, 5).c_str()) * 1000; }
#elif INST == 5
using K = seq::tstring; using A = Alloc<K, 0>; using C = seq::flat_set<K, std::less<>, A>;
#define NAME "flat_set<tstring>"
#define PMV 0
#define PER 0
#define MAP 0
#define MULTI 0
#define STABLE 0
#define LOWS 0
#define ALTK 1
inline std::string altK(long r) { return strK(r); }
K mkK(long r, long) { return K(strK(r).c_str()); } long codeK(const K& k) { return atol(std::string(k.data(), 5).c_str()) * 1000; }
#elif INST == 6
using K = Rel; using T = int; using A = Alloc<std::pair<K, T>, 0>; using C = seq::flat_multimap<K, T, ByKey<K>, A, true>;
#define NAME "flat_multimap<Rel,int,stable>"
#define PMV 0
#define PER 1
#define MAP 1
#define MULTI 1
#define STABLE 1
#define LOWS 1
NUMKEY
#elif INST == 7
using K = ObjTh; using A = Alloc<K, 0>; using C = seq::flat_set<K, ByKey<K>, A, true>;
#define NAME "flat_set<ObjTh,stable>"
#define PMV 0
#define PER 1
#define MAP 0
#define MULTI 0
#define STABLE 1
#define LOWS 1
NUMKEY
#elif INST == 8
using K = long; using T = Rel; using A = Alloc<std::pair<K, T>, 7>; using C = seq::flat_map<K, T, std::greater<K>, A>;
#define NAME "flat_map<long,Rel,greater>"
#define PMV 7
#define PER 1
#define MAP 1
#define MULTI 0
#define STABLE 0
#define LOWS 1
K mkK(long r, long) { return 1000000 - r; } long codeK(K k) { return (1000000 - k) * 1000; }
#endif
#ifndef ALTK
#define ALTK 0
#endif
#if MAP
T mkT(long v) { return T((int)v); }
long codeT(const T& t) { return val(t); }
#endif
#include "assoc.hpp"
