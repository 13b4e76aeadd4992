// Driver for devector and tiered_vector: random histories over two container slots.
// usage: seqc OUT SEED NSESSIONS MODE      MODE: plain | inject | xfer | big
#include "../common.hpp"
#include <seq/devector.hpp>
#include <seq/tiered_vector.hpp>
#include <list>
#include <forward_list>
#include <iterator>
#include <optional>
#include <sstream>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }

#ifndef INST
#define INST 0
#endif
template<unsigned Mn, unsigned Mx> struct Fb; // default finder
#if INST == 0
using T = int;  using A = Alloc<T, 0>; using C = seq::devector<T, A>;
#define NAME "devector<int>"
#define DEV 1
#define PMV 0
#elif INST == 1
using T = Obj;  using A = Alloc<T, 7>; using C = seq::devector<T, A>;
#define NAME "devector<Obj>"
#define DEV 1
#define PMV 7
#elif INST == 2
using T = Rel;  using A = Alloc<T, 1>; using C = seq::devector<T, A>;
#define NAME "devector<Rel>"
#define DEV 1
#define PMV 1
#elif INST == 3
using T = ObjTh;  using A = Alloc<T, 8>; using C = seq::devector<T, A>;
#define NAME "devector<ObjTh>"
#define DEV 1
#define PMV 8
#elif INST == 4
using T = int;  using A = Alloc<T, 0>; using C = seq::tiered_vector<T, A>;
#define NAME "tiered_vector<int>"
#define DEV 0
#define PMV 0
#elif INST == 5
using T = Obj;  using A = Alloc<T, 7>; using C = seq::tiered_vector<T, A, 4, 4>;
#define NAME "tiered_vector<Obj,4,4>"
#define DEV 0
#define PMV 7
#elif INST == 6
using T = Rel;  using A = Alloc<T, 1>; using C = seq::tiered_vector<T, A, 2, 64>;
#define NAME "tiered_vector<Rel,2,64>"
#define DEV 0
#define PMV 1
#elif INST == 7
using T = ObjTh;  using A = Alloc<T, 8>; using C = seq::tiered_vector<T, A, 4, 32>;
#define NAME "tiered_vector<ObjTh,4,32>"
#define DEV 0
#define PMV 8
#elif INST == 8
using T = unsigned char;  using A = Alloc<T, 2>; using C = seq::tiered_vector<T, A, 1, 8>;
#define NAME "tiered_vector<uchar,1,8>"
#define DEV 0
#define PMV 2
#elif INST == 9
using T = RelBig;  using A = Alloc<T, 4>; using C = seq::tiered_vector<T, A>;
#define NAME "tiered_vector<RelBig>"
#define DEV 0
#define PMV 4
#elif INST == 10
using T = Obj;  using A = Alloc<T, 0>; using C = seq::tiered_vector<T, A>;
#define NAME "tiered_vector<Obj>"
#define DEV 0
#define PMV 0
#endif
static const bool TH = std::is_same<T, ObjTh>::value;
static const bool TRK = is_tracked<T>::value;
static const long VMAX = sizeof(T) == 1 ? 200 : 9999;

// single pass input iterator over a vector<int>
struct InIt {
	using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = ptrdiff_t;
	using pointer = const T*; using reference = T;
	const std::vector<int>* v; size_t i;
	T operator*() const { return T((*v)[i]); }
	InIt& operator++() { ++i; return *this; }
	InIt operator++(int) { InIt r = *this; ++i; return r; }
	bool operator==(const InIt& o) const { return i == o.i; }
	bool operator!=(const InIt& o) const { return i != o.i; }
};

struct Runner {
	Rng g; std::string mode; bool inject, xfer; size_t soft; // soft: size to hover around
	std::optional<C> c[2];
	long next_v = 1;
	explicit Runner(uint64_t s, const std::string& m) : g(s), mode(m), inject(m == "inject"), xfer(m == "xfer") {}
	long nv() { long v = g.chance(1, 3) ? g.range(1, 9) : next_v++; if (v > VMAX) { next_v = 1; v = 1; } return v; }
	std::vector<int> vals(size_t n) { std::vector<int> r; for (size_t i = 0; i < n; ++i) r.push_back((int)nv()); return r; }

	static std::vector<long> contents(const C& x) { std::vector<long> r; for (auto it = x.begin(); it != x.end(); ++it) r.push_back(val(*it)); return r; }
	int aid(int k) { return c[k]->get_allocator().id; }

	// arms failure injection when in inject mode
	void arm(size_t work) {
		g_fired = false;
		if (!inject || g.chance(1, 3)) return;
		if (g.chance(1, 4)) g_throw_alloc = 1 + (long)g.below(3);
		else g_throw_elem = 1 + (long)g.below(work);
	}
	void finish(Ev& e, int k, const std::string& x, bool full) {
		disarm();
		e.s("x", x);
		C& q = *c[k];
		e.i("n", (long)q.size());
		bool em = q.empty(); e.b("em", em);
		if (full || x != "none") { e.l("c", contents(q)); }
		else probes(e, q);
		tail(e);
	}
	void probes(Ev& e, C& q) {
		std::vector<std::pair<long, long>> p;
		size_t n = q.size();
		if (n) { for (int i = 0; i < 3; ++i) { size_t j = g.below(n); p.push_back({ (long)j, val(q[j]) }); } p.push_back({ 0, val(q.front()) }); p.push_back({ (long)n - 1, val(q.back()) }); }
		e.ll("probe", p);
	}
	void tail(Ev& e) {
		e.i("lv", TRK ? g_live : -1);
		if (is_rel<T>::value) e.i("tk", g_tok_live);
		e.l("al", std::vector<long>{ (long)aid(0), (long)aid(1) });
		e.s("er", take_err());
	}

	void step(int k, bool full) {
		C& q = *c[k];
		size_t n = q.size();
		bool grow = n < soft ? g.chance(3, 5) : g.chance(2, 5);
		if (n == 0) grow = true;
		int big = mode == "big" && g.chance(1, 12) ? (int)(2 + g.below(soft / 6 + 2)) : g.chance(1, 12) ? 3 : 1;
		std::string x;
		long r = -1;
		auto pos = [&]() { size_t z = n; return g.chance(1, 5) ? (g.chance(1, 2) ? 0 : z) : g.below(z + 1); };
		if (grow) {
			int op = (int)g.below(DEV ? 21 : 21);
			size_t p = pos(), cnt = g.below(6) * (size_t)big;
			long v = nv();
			bool alias = n && g.chance(1, 4);
			size_t ai = g.below(n ? n : 1);
			switch (op) {
				case 0: case 1: case 2: case 3: { // push / emplace back
					Ev e(op < 2 ? "push_back" : op == 2 ? "push_back_m" : "emplace_back"); e.i("k", k + 1);
					if (op == 2) alias = false;
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					if (alias) { arm(3); x = guarded([&] { if (op < 2) q.push_back(q[ai]); else r = val(q.emplace_back(q[ai])); }); }
					else { T t((int)v); arm(3); x = guarded([&] { if (op < 2) q.push_back(t); else if (op == 2) q.push_back(std::move(t)); else r = val(q.emplace_back((int)v)); }); }
					if (op != 3) r = -1;
					e.i("r", r); finish(e, k, x, full); break; }
				case 4: case 5: case 6: case 7: {
					Ev e(op < 6 ? "push_front" : op == 6 ? "push_front_m" : "emplace_front"); e.i("k", k + 1);
					if (op == 6) alias = false;
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					if (alias) { arm(3); x = guarded([&] { if (op < 6) q.push_front(q[ai]); else r = val(q.emplace_front(q[ai])); }); }
					else { T t((int)v); arm(3); x = guarded([&] { if (op < 6) q.push_front(t); else if (op == 6) q.push_front(std::move(t)); else r = val(q.emplace_front((int)v)); }); }
					if (op != 7) r = -1;
					e.i("r", r); finish(e, k, x, full); break; }
				case 8: case 9: { // insert one
					bool mv = !alias && g.chance(1, 2);
					Ev e("insert"); e.i("k", k + 1).i("p", (long)p);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					if (alias) { arm(n + 4); x = guarded([&] { auto it = q.insert(q.begin() + (long)p, q[ai]); r = it - q.begin(); }); }
					else { T t((int)v); arm(n + 4); x = guarded([&] { auto it = mv ? q.insert(q.begin() + (long)p, std::move(t)) : q.insert(q.begin() + (long)p, t); r = it - q.begin(); }); }
					e.i("r", r); finish(e, k, x, full); break; }
				case 10: { // emplace: devector returns an iterator, tiered_vector a reference
					Ev e("emplace"); e.i("k", k + 1).i("p", (long)p);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
#if DEV
					if (alias) { arm(n + 4); x = guarded([&] { r = q.emplace(q.begin() + (long)p, q[ai]) - q.begin(); }); }
					else { arm(n + 4); x = guarded([&] { r = q.emplace(q.begin() + (long)p, (int)v) - q.begin(); }); }
					e.s("rk", "pos");
#else
					if (alias) { arm(n + 4); x = guarded([&] { r = val(q.emplace(q.begin() + (long)p, q[ai])); }); }
					else { arm(n + 4); bool ix = g.chance(1, 2); x = guarded([&] { r = ix ? val(q.emplace((size_t)p, (int)v)) : val(q.emplace(q.begin() + (long)p, (int)v)); }); }
					e.s("rk", "val");
#endif
					e.i("r", r); finish(e, k, x, full); break; }
				case 11: { // insert n
					Ev e("insert_n"); e.i("k", k + 1).i("p", (long)p).i("m", (long)cnt);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					if (alias) { arm(n + 2 * cnt + 4); x = guarded([&] { auto it = q.insert(q.begin() + (long)p, cnt, q[ai]); r = it - q.begin(); }); }
					else { T t((int)v); arm(n + 2 * cnt + 4); x = guarded([&] { auto it = q.insert(q.begin() + (long)p, cnt, t); r = it - q.begin(); }); }
					e.i("r", r); finish(e, k, x, full); break; }
				case 12: case 13: case 14: { // insert range: random access, bidirectional, input
					auto xs = vals(cnt);
					int kind = (int)g.below(3);
					Ev e("insert_r"); e.i("k", k + 1).i("p", (long)p).l("vs", xs).i("kind", kind);
					if (kind == 0) { std::vector<T> t(xs.begin(), xs.end()); arm(n + 2 * cnt + 4); x = guarded([&] { auto it = q.insert(q.begin() + (long)p, t.begin(), t.end()); r = it - q.begin(); }); disarm(); }
					else if (kind == 1) { std::list<T> t(xs.begin(), xs.end()); arm(n + 2 * cnt + 4); x = guarded([&] { auto it = q.insert(q.begin() + (long)p, t.begin(), t.end()); r = it - q.begin(); }); disarm(); }
					else { arm(n + 2 * cnt + 4); x = guarded([&] { auto it = q.insert(q.begin() + (long)p, InIt{ &xs, 0 }, InIt{ &xs, xs.size() }); r = it - q.begin(); }); }
					e.i("r", r); finish(e, k, x, full); break; }
				case 15: { // assign
					auto xs = vals(g.below(g.chance(1, 4) ? soft + 2 : 7));
					int kind = (int)g.below(4);
					Ev e("assign_r"); e.i("k", k + 1).l("vs", xs).i("kind", kind);
					if (kind == 0) { std::vector<T> t(xs.begin(), xs.end()); arm(n + 2 * xs.size() + 2); x = guarded([&] { q.assign(t.begin(), t.end()); }); disarm(); }
					else if (kind == 1) { std::list<T> t(xs.begin(), xs.end()); arm(n + 2 * xs.size() + 2); x = guarded([&] { q.assign(t.begin(), t.end()); }); disarm(); }
					else if (kind == 2) { arm(n + 2 * xs.size() + 2); x = guarded([&] { q.assign(InIt{ &xs, 0 }, InIt{ &xs, xs.size() }); }); }
					else { xs.resize(3); e.l("vs", xs); std::initializer_list<T> il{ T(xs[0]), T(xs[1]), T(xs[2]) }; arm(8); x = guarded([&] { q.assign(il); }); disarm(); e.i("r", r); finish_il(e, k, x, full); break; }
					e.i("r", r); finish(e, k, x, full); break; }
				case 16: {
					size_t m = g.below(g.chance(1, 4) ? soft + 2 : 7);
					Ev e("assign_n"); e.i("k", k + 1).i("m", (long)m);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					if (alias) { arm(n + 2 * m + 2); x = guarded([&] { q.assign(m, q[ai]); }); }
					else { T t((int)v); arm(n + 2 * m + 2); x = guarded([&] { q.assign(m, t); }); }
					e.i("r", r); finish(e, k, x, full); break; }
				default: { // resize up
					size_t m = n + cnt;
					int kind = (int)g.below(4);
					if (kind < 2) alias = false;
					Ev e(kind == 0 ? "resize" : kind == 1 ? "resize_front" : kind == 2 ? "resize_v" : "resize_front_v"); e.i("k", k + 1).i("m", (long)m);
					if (alias) e.i("ai", (long)ai); else if (kind >= 2) e.i("v", v);
					if (kind == 0) { arm(n + cnt + 4); x = guarded([&] { q.resize(m); }); }
					else if (kind == 1) { arm(n + cnt + 4); x = guarded([&] { q.resize_front(m); }); }
					else {
						if (alias) { arm(n + cnt + 4); x = guarded([&] { if (kind == 2) q.resize(m, q[ai]); else q.resize_front(m, q[ai]); }); }
						else { T t((int)v); arm(n + cnt + 4); x = guarded([&] { if (kind == 2) q.resize(m, t); else q.resize_front(m, t); }); }
					}
					e.i("r", r); finish(e, k, x, full); break; }
			}
			return;
		}
		int op = (int)g.below(16);
		switch (op) {
			case 0: case 1: { Ev e("pop_back"); e.i("k", k + 1); arm(n + 2); x = guarded([&] { q.pop_back(); }); e.i("r", r); finish(e, k, x, full); break; }
			case 2: case 3: { Ev e("pop_front"); e.i("k", k + 1); arm(n + 2); x = guarded([&] { q.pop_front(); }); e.i("r", r); finish(e, k, x, full); break; }
			case 4: case 5: case 6: { size_t p = g.chance(1, 5) ? (g.chance(1, 2) ? 0 : n - 1) : g.below(n); Ev e("erase"); e.i("k", k + 1).i("p", (long)p); arm(n + 2);
				x = guarded([&] { auto it = q.erase(q.begin() + (long)p); r = it - q.begin(); }); e.i("r", r); finish(e, k, x, full); break; }
			case 7: case 8: case 9: { size_t a = g.below(n + 1), b = a + g.below(std::min<size_t>(n - a, 5u * (unsigned)big) + 1); Ev e("erase_r"); e.i("k", k + 1).i("p", (long)a).i("q", (long)b); arm(n + 2);
				x = guarded([&] { auto it = q.erase(q.begin() + (long)a, q.begin() + (long)b); r = it - q.begin(); }); e.i("r", r); finish(e, k, x, full); break; }
			case 10: case 11: { size_t m = n - g.below(std::min<size_t>(n, 5u * (unsigned)big) + 1); bool f = g.chance(1, 2); bool wv = g.chance(1, 3); long v = nv(); Ev e(f ? (wv ? "resize_front_v" : "resize_front") : (wv ? "resize_v" : "resize")); e.i("k", k + 1).i("m", (long)m); if (wv) e.i("v", v);
				if (wv) { T t((int)v); arm(n + 2); x = guarded([&] { if (f) q.resize_front(m, t); else q.resize(m, t); }); disarm(); e.i("r", r); finish_il(e, k, x, full); }
				else { arm(n + 2); x = guarded([&] { if (f) q.resize_front(m); else q.resize(m); }); e.i("r", r); finish(e, k, x, full); } break; }
			case 12: { if (!g.chance(1, 4)) { access(k); break; } Ev e("clear"); e.i("k", k + 1); x = guarded([&] { q.clear(); }); e.i("r", r); finish(e, k, x, full); break; }
			case 13: {
#if DEV
				int kind = (int)g.below(4); size_t m = g.below(2 * soft + 4);
				const char* nm[4] = { "shrink", "reserve", "reserve_back", "reserve_front" };
				Ev e(nm[kind]); e.i("k", k + 1).i("m", (long)m); arm(n + 2);
				x = guarded([&] { if (kind == 0) q.shrink_to_fit(); else if (kind == 1) q.reserve(m); else if (kind == 2) q.reserve_back(m); else q.reserve_front(m); });
				disarm();
				e.l("cap", std::vector<long>{ (long)q.front_capacity(), (long)q.back_capacity(), (long)q.capacity() });
				e.i("r", r); finish(e, k, x, full); break;
#else
				access(k); break;
#endif
			}
			default: access(k);
		}
	}
	void finish_il(Ev& e, int k, const std::string& x, bool full) {
		// temporaries of the driver are alive while this runs: report after they are gone
		(void)full; disarm(); e.s("x", x); C& q = *c[k]; e.i("n", (long)q.size()); e.b("em", q.empty()); e.l("c", contents(q)); e.i("lv", -1); e.l("al", std::vector<long>{ (long)aid(0), (long)aid(1) }); e.s("er", take_err());
	}
	void access(int k) {
		C& q = *c[k]; const C& cq = q; size_t n = q.size();
		switch (g.below(6)) {
			case 0: { // at
				size_t i = g.chance(1, 4) ? n + g.below(3) : g.below(n + 1); Ev e("at"); e.i("k", k + 1).i("p", (long)i); long r = -1; bool cs = g.chance(1, 2);
				std::string x = guarded([&] { r = cs ? val(cq.at(i)) : val(q.at(i)); }); e.i("r", r); finish(e, k, x, false); break; }
			case 1: { // write through []
				if (!n) return; size_t i = g.below(n); long v = nv(); Ev e("set"); e.i("k", k + 1).i("p", (long)i).i("v", v);
				int how = (int)g.below(3); if (how == 0) q[i] = T((int)v); else if (how == 1) *(q.begin() + (long)i) = T((int)v); else *(q.end() - (long)(n - i)) = T((int)v);
				e.i("r", -1); finish(e, k, "none", false); break; }
			case 2: { // reverse iteration
				Ev e("rev"); e.i("k", k + 1); std::vector<long> o; if (g.chance(1, 2)) for (auto it = q.rbegin(); it != q.rend(); ++it) o.push_back(val(*it)); else for (auto it = cq.end(); it != cq.begin();) { --it; o.push_back(val(*it)); }
				e.l("out", o).i("r", -1); finish(e, k, "none", false); break; }
			case 3: { // iterator arithmetic
				if (!n) return; long i = (long)g.below(n + 1), j = (long)g.below(n + 1); Ev e("iter"); e.i("k", k + 1).i("p", i).i("q", j);
				auto a = q.begin() + i; auto b = cq.begin() + j; auto ca = cq.begin() + i; std::vector<long> o;
				o.push_back(b - ca); o.push_back(ca == b); o.push_back(ca != b); o.push_back(ca < b); o.push_back(ca <= b); o.push_back(ca > b); o.push_back(ca >= b);
				auto d = a; d += (j - i); o.push_back(j < (long)n ? val(*d) : -7); d -= (j - i); o.push_back(d == a);
				o.push_back(j < (long)n ? val(ca[j - i]) : -7);
				d = a; if (i < (long)n) { auto f = d++; o.push_back(val(*f)); o.push_back(d - q.begin()); } else { o.push_back(-7); o.push_back(-7); }
				d = a; if (i > 0) { auto f = d--; (void)f; o.push_back(val(*d)); o.push_back(d - q.begin()); } else { o.push_back(-7); o.push_back(-7); }
				o.push_back(q.end() - a);
				e.l("out", o).i("r", -1); finish(e, k, "none", false); break; }
			case 4: { // for_each / contiguous range
				size_t a = g.below(n + 1), b = a + g.below(n - a + 1); Ev e("foreach"); e.i("k", k + 1).i("p", (long)a).i("q", (long)b); std::vector<long> o;
#if DEV
				for (auto* p = q.data() + a; p != q.data() + b; ++p) o.push_back(val(*p));
#else
				if (g.chance(1, 2)) q.for_each(a, b, [&](T& v) { o.push_back(val(v)); }); else cq.for_each(a, b, [&](const T& v) { o.push_back(val(v)); });
#endif
				e.l("out", o).i("r", -1); finish(e, k, "none", false); break; }
			default: { Ev e("full"); e.i("k", k + 1).i("r", -1); finish(e, k, "none", true); }
		}
	}
	void xfer_step() {
		int k = (int)g.below(2), o = 1 - k; std::string x = "none";
		C &q = *c[k], &p = *c[o];
		int op = (int)g.below(12); int id = 1 + (int)g.below(3);
		if (op == 10 && ((PMV & 4) == 0) && aid(0) != aid(1)) op = 0; // swapping unequal non propagating allocators is undefined
		const char* nm[12] = { "copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "il_ctor", "n_ctor", "swap", "range_ctor" };
		Ev e(nm[op]); e.i("k", k + 1);
		size_t m = g.below(9); long v = nv(); auto xs = vals(g.below(soft));
		if (op == 3 || op == 1 || op == 8 || op == 9 || op == 11) e.i("id", id);
		if (op == 9) e.i("m", (long)m).i("v", v);
		if (op == 11) e.l("vs", xs);
		if (op == 8) { xs.resize(2, 5); e.l("vs", xs); }
		size_t work = q.size() + p.size() + xs.size() + m + 4;
		std::optional<C> t; // built first, then replaces slot k
		switch (op) {
			case 0: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p)); }); break; }
			case 1: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p), A(id)); }); break; }
			case 2: { arm(work); x = guarded([&] { t.emplace(std::move(p)); }); break; }
			case 3: { arm(work); x = guarded([&] { t.emplace(std::move(p), A(id)); }); break; }
			case 4: { arm(work); x = guarded([&] { q = static_cast<const C&>(p); }); break; }
			case 5: { arm(work); x = guarded([&] { q = std::move(p); }); break; }
			case 6: { arm(work); C& q2 = q; x = guarded([&] { q = static_cast<const C&>(q2); }); break; }
			case 7: { x = guarded([&] { q.swap(q); }); break; }
			case 8: { x = guarded([&] { t.emplace(std::initializer_list<T>{ T(xs[0]), T(xs[1]) }, A(id)); }); break; }
			case 9: { T tv((int)v); arm(work); x = guarded([&] { t.emplace(m, tv, A(id)); }); disarm(); break; }
			case 10: { x = guarded([&] { q.swap(p); }); break; }
			default: { std::list<T> l(xs.begin(), xs.end()); arm(work); x = guarded([&] { t.emplace(l.begin(), l.end(), A(id)); }); disarm(); break; }
		}
		disarm();
		if (t) { c[k].reset(); c[k].emplace(std::move(*t)); t.reset(); }
		e.s("x", x);
		// full view of both slots
		e.l("c", contents(*c[k])).l("d", contents(*c[o]));
		e.i("n", (long)c[k]->size());
		e.i("r", -1);
		tail(e);
	}
	void session(int idx) {
		ledger_reset();
		char nm[64]; snprintf(nm, sizeof nm, "%s/%d", mode.c_str(), idx);
		bool bigm = mode == "big";
		soft = bigm ? 200 + g.below(3000) : g.chance(1, 3) ? 3 + g.below(6) : 10 + g.below(60);
		if (inject) soft = 2 + g.below(24);
		size_t steps = bigm ? 1200 : 60 + g.below(120);
		next_v = 1;
		int i0 = 1, i1 = 1 + (int)g.below(2);
		std::string cfg = kv("type", NAME) + "," + kvb("dev", DEV) + "," + kvb("th", TH) + "," + kv("pm", (long)PMV) + "," + kvb("trk", TRK) + "," + kv("a1", (long)i0) + "," + kv("a2", (long)i1) + "," + kv("bsz", 0L);
		Session S(nm, cfg);
		op_timer(60);
		c[0].emplace(A(i0)); c[1].emplace(A(i1));
		for (size_t i = 0; i < steps; ++i) {
			if (xfer && g.chance(1, 5)) { xfer_step(); continue; }
			int k = (xfer || g.chance(1, 10)) ? (int)g.below(2) : 0;
			bool full = soft < 25 ? true : g.chance(1, bigm ? 60 : 8);
			if (bigm && g.chance(1, 150)) { // jump: force bucket size changes and large ranges
				C& q = *c[k]; size_t m = g.below(2 * soft); bool f = g.chance(1, 2);
				Ev e(f ? "resize_front_v" : "resize_v"); long v = nv(); e.i("k", k + 1).i("m", (long)m).i("v", v); T t((int)v);
				std::string x = guarded([&] { if (f) q.resize_front(m, t); else q.resize(m, t); }); e.i("r", -1); finish_il(e, k, x, true); continue;
			}
			step(k, full);
		}
		for (int k = 0; k < 2; ++k) { Ev e("full"); e.i("k", k + 1).i("r", -1); finish(e, k, "none", true); }
		{ Ev e("destroy"); e.i("k", 1); c[0].reset(); c[1].reset();
			e.s("x", "none").i("lv", TRK ? g_live : -1).i("tk", g_tok_live).i("bk", (long)g_blocks.size()).s("er", take_err()); }
		op_timer(0);
	}
};

int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); int n = atoi(argv[3]);
	for (int i = 0; i < n; ++i) { Runner r(seed * 1000003 + i, argv[4]); r.session(i); }
	flush();
	fprintf(stderr, "%s %s sessions=%ld events=%ld\n", NAME, argv[4], g_sessions, g_events);
	return 0;
}
