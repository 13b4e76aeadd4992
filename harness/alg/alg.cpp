// Driver for seq/algorithm.hpp: every event is one call on a random input.
// usage: alg OUT SEED NSESSIONS MODE      MODE: plain | big | inject
// Elements are key * 4096 + tag; tags are unique per call so that the stable result is unique.
#include "../common.hpp"
#include <seq/algorithm.hpp>
#include <seq/sequence.hpp>
#include <seq/devector.hpp>
#include <list>
#include <deque>
#include <forward_list>
#include <iterator>
#ifndef INST
#define INST 0
#endif
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }

static long g_news = 0;
void* operator new(size_t n) { ++g_news; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { ++g_news; return malloc(n ? n : 1); }
void* operator new[](size_t n) { return ::operator new(n); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return ::operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// move only element
struct Mo { std::unique_ptr<int> p; Mo(int x = 0) : p(new int(x)) {} Mo(Mo&&) noexcept = default; Mo& operator=(Mo&&) noexcept = default; };
namespace vt { inline int val(const Mo& m) { return m.p ? *m.p : -1; } inline int val(const std::string& s) { return s.empty() ? -1 : atoi(s.c_str() + 26); } }
template<class T> T mk(int v) { return T(v); }
template<> std::string mk<std::string>(int v) { return std::string("a string that is not short") + std::to_string(v); }
#if INST == 0
using T = int;
#define NAME "int"
#elif INST == 1
using T = Obj;
#define NAME "Obj"
#elif INST == 2
using T = ObjTh;
#define NAME "ObjTh"
#elif INST == 3
using T = Rel;
#define NAME "Rel"
#elif INST == 4
using T = RelBig;
#define NAME "RelBig"
#elif INST == 5
using T = Mo;
#define NAME "move only"
#elif INST == 6
using T = std::string;
#define NAME "string"
#endif
static int V(const T& t) {
	return val(t);
}
static const bool TRK = is_tracked<T>::value;
static const bool CPY = std::is_copy_constructible<T>::value;
static int keyof(int cm, int v) { int k = v < 0 ? -1 : v / 4096; return cm == 0 ? k : cm == 1 ? -k : cm == 2 ? k / 4 : 0; }
struct Cmp { int cm; bool operator()(const T& a, const T& b) const { may_throw(); return keyof(cm, V(a)) < keyof(cm, V(b)); } };
struct CmpNt { int cm; bool operator()(const T& a, const T& b) const noexcept { return keyof(cm, V(a)) < keyof(cm, V(b)); } };
using SortCmp = std::conditional<INST == 0 || INST == 6, CmpNt, Cmp>::type;
struct Hs { int cm; size_t mode; size_t operator()(const T& a) const { may_throw(); size_t k = (size_t)(keyof(cm, V(a)) + 5); return mode == 0 ? k : mode == 1 ? 7 : k * 0x9e3779b97f4a7c15ULL; } };
struct Eq { int cm; bool operator()(const T& a, const T& b) const { may_throw(); return keyof(cm, V(a)) == keyof(cm, V(b)); } };

struct Runner {
	Rng g; bool inject, big; long steps = 0;
	Runner(uint64_t s, const std::string& m) : g(s), inject(m == "inject"), big(m == "big") {}
	std::vector<int> keys(size_t n) {
		std::vector<int> r(n); int kinds = (int)g.below(9); int d = 1 + (int)g.below(g.chance(1, 2) ? 6 : 200);
		for (size_t i = 0; i < n; ++i) r[i] = (int)g.below((size_t)d);
		switch (kinds) {
			case 0: case 1: break;
			case 2: std::sort(r.begin(), r.end()); break;
			case 3: std::sort(r.begin(), r.end(), std::greater<int>()); break;
			case 4: case 5: { // runs of random length, up or down
				size_t i = 0; while (i < n) { size_t j = std::min(n, i + 1 + g.below(g.chance(1, 3) ? 12 : 200)); if (g.chance(1, 2)) std::sort(r.begin() + i, r.begin() + j); else std::sort(r.begin() + i, r.begin() + j, std::greater<int>()); i = j; } break; }
			case 6: { std::sort(r.begin(), r.end()); for (size_t k = 0; k < 1 + n / 20 && n; ++k) r[g.below(n)] = (int)g.below((size_t)d); break; }
			case 7: { for (size_t i = 0; i < n; ++i) r[i] = (int)(i < n / 2 ? i : n - i) % 500; break; }
			default: { std::sort(r.begin(), r.end()); if (n > 1) std::rotate(r.begin(), r.begin() + g.below(n), r.end()); break; }
		}
		return r;
	}
	size_t size() { if (big && g.chance(1, 3)) return 100 + g.below(1900); switch (g.below(4)) { case 0: return g.below(20); case 1: return g.below(140); case 2: { size_t p = (size_t)1 << g.below(9); return p + g.below(3) - (p > 1 ? 1 : 0); } default: return g.below(400); } }
	std::vector<int> tag(const std::vector<int>& k, int from = 0) { std::vector<int> r(k.size()); for (size_t i = 0; i < k.size(); ++i) r[i] = k[i] * 4096 + (from + (int)i); return r; }
	void arm(size_t work) { g_fired = false; if (inject && !g.chance(1, 4)) g_throw_elem = 1 + (long)g.below(work); }
	template<class Cont> Cont fill(const std::vector<int>& v) { Cont c; for (int x : v) c.push_back(mk<T>(x)); return c; }
	template<class It> std::vector<long> out(It a, It b) { std::vector<long> r; for (; a != b; ++a) r.push_back(V(*a)); return r; }
	void finish(Ev& e, const std::string& x, long na) { if (std::is_same<T, Obj>::value || std::is_same<T, ObjTh>::value) na = -1; e.s("x", x).i("na", na).i("lv", TRK ? g_live : -1).s("er", take_err()); }

	template<bool DQ, class F> void with_buffer(int b, size_t n, Ev& e, F&& f) {
		static const char* nm[] = { "default", "medium", "small", "tiny", "null", "user", "user0", "deque" };
		size_t bs = g.chance(1, 3) ? 0 : g.chance(1, 2) ? g.below(9) : g.below(n + 2);
		if (b == 6) bs = 0;
		e.s("buf", nm[b]).i("bs", b >= 5 ? (long)bs : -1).b("ab", b < 4);
		if (b < 5) { seq::buffer<void*> bv = b == 0 ? seq::default_buffer : b == 1 ? seq::medium_buffer : b == 2 ? seq::small_buffer : b == 3 ? seq::tiny_buffer : seq::null_buffer; f(bv); return; }
		if (b == 7) { if constexpr (DQ) { std::deque<T> m(bs + 1); f(seq::buffer<typename std::deque<T>::iterator>{ m.begin(), bs }); return; } }
		std::unique_ptr<T[]> m(new T[bs + 1]); f(seq::buffer<T*>{ b == 6 ? nullptr : m.get(), bs });
	}
	template<class Cont> void sort_in(const char* cn) {
		constexpr bool VEC = std::is_same<Cont, std::vector<T>>::value;
		size_t n = size(), pre = g.below(3), post = g.below(3); int cm = (int)g.below(4); if (cm == 3 && g.chance(2, 3)) cm = 0; int b = (int)g.below(8); bool sz = g.chance(1, 2), rev = VEC && g.chance(1, 5);
		auto k = keys(n); auto v = tag(k);
		std::vector<int> all(pre, 77); all.insert(all.end(), v.begin(), v.end()); all.insert(all.end(), post, 78);
		long base = g_live;
		{
			Cont c = fill<Cont>(all);
			auto first = std::next(c.begin(), (ptrdiff_t)pre), last = std::next(first, (ptrdiff_t)n);
			std::vector<int> in = v; if (rev) { std::reverse(in.begin(), in.end()); }
			Ev e("sort"); e.s("cont", cn).i("cm", cm).b("rev", rev).b("size", sz).i("pre", (long)pre).i("post", (long)post);
			e.l("in", in); std::string x; long na = 0;
			with_buffer<std::is_same<Cont, std::vector<T>>::value && INST != 2 && INST < 5>(b, n, e, [&](auto buf) {
				arm(n * 6 + 4); long n0 = g_news;
				x = guarded([&] {
					auto run = [&](auto f, auto l, auto cmp) { if (sz) seq::net_sort_size(f, n, cmp, buf); else seq::net_sort(f, l, cmp, buf); };
					if constexpr (VEC) { if (rev) { run(std::make_reverse_iterator(last), std::make_reverse_iterator(first), SortCmp{ cm }); return; } }
					run(first, last, SortCmp{ cm }); });
				na = g_news - n0; disarm(); });
			std::vector<long> o = out(std::next(c.begin(), (ptrdiff_t)pre), std::next(c.begin(), (ptrdiff_t)(pre + n))); if (rev) std::reverse(o.begin(), o.end());
			e.l("out", o).l("pr", out(c.begin(), std::next(c.begin(), (ptrdiff_t)pre))).l("po", out(std::next(c.begin(), (ptrdiff_t)(pre + n)), c.end())).i("want", base + (long)all.size());
			finish(e, x == "inj" ? x : x, na);
		}
		gone(base);
	}
	void gone(long base) { Ev e("gone"); e.i("lv", TRK ? g_live : -1).i("want", base).s("er", take_err()); }
	std::vector<int> sorted_keys(size_t n, int cm) { auto k = keys(n); std::stable_sort(k.begin(), k.end(), [&](int a, int b) { return keyof(cm, a * 4096) < keyof(cm, b * 4096); }); return k; }
	template<class Cont> void inplace_in(const char* cn) {
		constexpr bool RA = std::is_same<typename std::iterator_traits<typename Cont::iterator>::iterator_category, std::random_access_iterator_tag>::value;
		size_t n = size(); int cm = (int)g.below(4), b = (int)g.below(8); size_t pre = g.below(3), post = g.below(3), runs = !RA || g.chance(1, 2) ? 2 : 1 + g.below(7); if (n < 2) runs = 2;
		std::vector<size_t> cut{ 0 }; for (size_t i = 1; i < runs; ++i) cut.push_back(g.below(n + 1)); cut.push_back(n); std::sort(cut.begin(), cut.end()); bool multi = RA && (runs != 2 || (g.chance(1, 4) && cut[1] != 0 && cut[1] != n));
		if (multi) { cut.erase(std::unique(cut.begin(), cut.end()), cut.end()); }
		std::vector<int> k; int shift = g.chance(1, 5) ? 300 : 0;
		for (size_t i = 0; i + 1 < cut.size(); ++i) { auto s = keys(cut[i + 1] - cut[i]); for (auto& q : s) q += shift * (int)(g.chance(1, 2) ? i : 9 - i); std::stable_sort(s.begin(), s.end(), [&](int a, int bb) { return keyof(cm, a * 4096) < keyof(cm, bb * 4096); }); k.insert(k.end(), s.begin(), s.end()); }
		auto v = tag(k); std::vector<int> all(pre, 77); all.insert(all.end(), v.begin(), v.end()); all.insert(all.end(), post, 78);
		long base = g_live;
		{
			Cont c = fill<Cont>(all);
			std::vector<decltype(c.begin())> its; for (size_t p : cut) its.push_back(std::next(c.begin(), (ptrdiff_t)(pre + p)));
			
			Ev e("inplace"); e.s("cont", cn).i("cm", cm).b("multi", multi).i("pre", (long)pre).i("post", (long)post).l("cut", cut); e.l("in", v);
			std::string x; long na = 0;
			with_buffer<std::is_same<Cont, std::vector<T>>::value && INST != 2 && INST < 5>(b, n, e, [&](auto buf) {
				arm(n * 4 + 4); long n0 = g_news;
				x = guarded([&] { if constexpr (RA) { if (multi) { seq::inplace_merge(its.data(), its.size(), Cmp{ cm }, buf); return; } } seq::inplace_merge(its[0], its[1], its[2], Cmp{ cm }, buf); });
				na = g_news - n0; disarm(); });
			e.l("out", out(std::next(c.begin(), (ptrdiff_t)pre), std::next(c.begin(), (ptrdiff_t)(pre + n)))).l("pr", out(c.begin(), std::next(c.begin(), (ptrdiff_t)pre))).l("po", out(std::next(c.begin(), (ptrdiff_t)(pre + n)), c.end())).i("want", base + (long)all.size());
			finish(e, x, na);
		}
		gone(base);
	}
	template<class C1, class C2> void merge_in(const char* cn) {
		if constexpr (CPY) {
			size_t n = size(), m = g.chance(1, 3) ? g.below(4) : size(); int cm = (int)g.below(4), how = (int)g.below(4);
			if (g.chance(1, 2)) std::swap(n, m);
			auto v = tag(sorted_keys(n, cm)), w = tag(sorted_keys(m, cm), (int)n);
			long base = g_live;
			{
				C1 a = fill<C1>(v); C2 b = fill<C2>(w); std::vector<T> o; std::list<T> ol;
				static const char* nm[] = { "ptr", "back_inserter", "list", "move" };
				Ev e("merge"); e.s("cont", cn).i("cm", cm).s("how", nm[how]).l("a", v).l("b", w).b("ab", how == 1); std::string x; long na = 0, ret = -1;
				if (how == 0 || how == 3) o.resize(n + m + 1, mk<T>(78)); if (how == 2) ol.resize(n + m + 1, mk<T>(78));
				arm(n + m + 2); long n0 = g_news;
				x = guarded([&] {
					if (how == 0) ret = seq::merge(a.begin(), a.end(), b.begin(), b.end(), o.data(), Cmp{ cm }) - o.data();
					else if (how == 1) { seq::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o), Cmp{ cm }); ret = (long)o.size(); }
					else if (how == 2) ret = std::distance(ol.begin(), seq::merge(a.begin(), a.end(), b.begin(), b.end(), ol.begin(), Cmp{ cm }));
					else ret = seq::merge(std::make_move_iterator(a.begin()), std::make_move_iterator(a.end()), std::make_move_iterator(b.begin()), std::make_move_iterator(b.end()), o.begin(), Cmp{ cm }) - o.begin();
				});
				na = g_news - n0; disarm();
				std::vector<long> r = how == 2 ? out(ol.begin(), ol.end()) : out(o.begin(), o.end()); std::vector<long> po; if (how != 1) { po.push_back(r.back()); r.pop_back(); }
				if ((TRK && how != 3) || std::is_same<T, std::string>::value || how == 1) na = 0; // copies of the elements allocate
				e.i("r", ret).l("out", r).l("po", po).b("in1", how == 3 || out(a.begin(), a.end()) == std::vector<long>(v.begin(), v.end())).b("in2", how == 3 || out(b.begin(), b.end()) == std::vector<long>(w.begin(), w.end()));
				e.i("want", base + (long)(v.size() + w.size() + o.size() + ol.size())); finish(e, x, na);
			}
			gone(base);
		}
	}
	template<class Cont> void reverse_in(const char* cn) {
		size_t n = size(); int cm = (int)g.below(4); auto k = sorted_keys(n, cm);
		std::stable_sort(k.begin(), k.end(), [&](int a, int b) { return keyof(cm, a * 4096) > keyof(cm, b * 4096); });
		auto v = tag(k); long base = g_live;
		{
			Cont c = fill<Cont>(v); Ev e("reverse"); e.s("cont", cn).i("cm", cm).l("in", v); std::string x; arm(n * 3 + 2); long n0 = g_news;
			x = guarded([&] { seq::reverse_descending(c.begin(), c.end(), Cmp{ cm }); }); long na = g_news - n0; disarm();
			e.l("out", out(c.begin(), c.end())).b("ab", false).i("want", base + (long)n); finish(e, x, na);
		}
		gone(base);
	}
	template<class Cont> void unique_in(const char* cn) {
		size_t n = size(); int cm = (int)g.below(4); auto v = tag(keys(n)); size_t hm = g.below(3); long base = g_live;
		{
			Cont c; { auto it = c.begin(); (void)it; }
			if constexpr (std::is_same<Cont, std::forward_list<T>>::value) { auto p = c.before_begin(); for (int x : v) p = c.insert_after(p, mk<T>(x)); }
			else c = fill<Cont>(v);
			Ev e("unique"); e.s("cont", cn).i("cm", cm).l("in", v); std::string x; long ret = -1; arm(n * 4 + 2);
			x = guarded([&] { auto it = seq::unique(c.begin(), c.end(), Hs{ cm, hm }, Eq{ cm }); ret = std::distance(c.begin(), it); }); disarm();
			e.i("r", ret).l("out", out(c.begin(), ret >= 0 ? std::next(c.begin(), ret) : c.begin())).b("ab", true).i("want", base + (long)n); finish(e, x, 0);
		}
		gone(base);
	}
	void step() {
		switch (g.below(18)) {
			case 0: case 1: case 2: sort_in<std::vector<T>>("vector"); break;
			case 3: case 4: sort_in<std::list<T>>("list"); break;
			case 5: sort_in<std::deque<T>>("deque"); break;
			case 6: case 7: inplace_in<std::vector<T>>("vector"); break;
			case 8: case 9: inplace_in<std::list<T>>("list"); break;
			case 10: merge_in<std::vector<T>, std::vector<T>>("vector vector"); break;
			case 11: merge_in<std::list<T>, std::vector<T>>("list vector"); break;
			case 12: merge_in<std::vector<T>, std::list<T>>("vector list"); break;
			case 13: if (g.chance(1, 2)) merge_in<std::list<T>, std::list<T>>("list list"); else inplace_in<std::deque<T>>("deque"); break;
			case 14: if (g.chance(1, 2)) reverse_in<std::vector<T>>("vector"); else reverse_in<std::list<T>>("list"); break;
			case 15: unique_in<std::vector<T>>("vector"); break;
			case 16: unique_in<std::list<T>>("list"); break;
			default: unique_in<std::forward_list<T>>("forward_list"); break;
		}
	}
	void session(int idx, const std::string& mode) {
		ledger_reset();
		Session S(mode + "/" + std::to_string(idx), kv("type", NAME));
		size_t n = big ? 8 : 14;
		for (size_t i = 0; i < n; ++i) step();
	}
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner r(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r.session((int)i, argv[4]); }
	flush();
	return 0;
}
