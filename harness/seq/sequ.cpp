// Driver for seq::sequence: random histories over two container slots.
// usage: sequ OUT SEED NSESSIONS MODE      MODE: plain | inject | xfer | big
#include "../common.hpp"
#include <seq/sequence.hpp>
#include <list>
#include <iterator>
#include <optional>
using namespace vt;
namespace seq { template<int P> struct is_relocatable<vt::RelT<P>> : std::true_type {}; }
#ifndef INST
#define INST 0
#endif
#if INST == 0
using T = int;  using A = Alloc<T, 0>; using C = seq::sequence<T, A>;
#define NAME "sequence<int>"
#define PMV 0
#elif INST == 1
using T = Obj;  using A = Alloc<T, 7>; using C = seq::sequence<T, A>;
#define NAME "sequence<Obj>"
#define PMV 7
#elif INST == 2
using T = ObjTh;  using A = Alloc<T, 8>; using C = seq::sequence<T, A>;
#define NAME "sequence<ObjTh>"
#define PMV 8
#elif INST == 3
using T = Rel;  using A = Alloc<T, 1>; using C = seq::sequence<T, A, true>;
#define NAME "sequence<Rel,align64>"
#define PMV 1
#elif INST == 4
using T = RelBig;  using A = Alloc<T, 2>; using C = seq::sequence<T, A>;
#define NAME "sequence<RelBig>"
#define PMV 2
#elif INST == 5
using T = Obj;  using A = Alloc<T, 0>; using C = seq::sequence<T, A, true>;
#define NAME "sequence<Obj,align64>"
#define PMV 0
#endif
static const bool TRK = is_tracked<T>::value;

struct InIt {
	using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = ptrdiff_t;
	using pointer = const T*; using reference = T;
	const std::vector<int>* v; size_t i;
	T operator*() const { return T((*v)[i]); }
	InIt& operator++() { ++i; return *this; }
	InIt operator++(int) { InIt r = *this; ++i; return r; }
	bool operator==(const InIt& o) const { return i == o.i; }
	bool operator!=(const InIt& o) const { return i != o.i; }
};
struct ByMod { bool operator()(const T& a, const T& b) const { may_throw(); return ((val(a) % 8) + 8) % 8 < ((val(b) % 8) + 8) % 8; } };
struct ByGt { bool operator()(const T& a, const T& b) const { may_throw(); return val(a) > val(b); } };

struct Held { C::iterator it; long a; };
struct Runner {
	Rng g; std::string mode; bool inject, xfer, big; size_t soft = 0;
	std::optional<C> c[2];
	std::vector<Held> held[2];
	std::optional<C::iterator> hend[2];
	std::unordered_map<const void*, long> ids; long next_id = 1, next_v = 1;
	Runner(uint64_t s, const std::string& m) : g(s), mode(m), inject(m == "inject"), xfer(m == "xfer"), big(m == "big") {}
	long aid(const T& t) { auto& r = ids[(const void*)&t]; if (!r) r = next_id++; return r; }
	long nv() { long v = g.chance(1, 3) ? g.range(1, 9) : next_v++; if (v > 9999) { next_v = 1; v = 1; } return v; }
	std::vector<int> vals(size_t n) { std::vector<int> r; for (size_t i = 0; i < n; ++i) r.push_back((int)nv()); return r; }
	void arm(size_t work) {
		g_fired = false;
		if (!inject || g.chance(1, 3)) return;
		if (g.chance(1, 4)) g_throw_alloc = 1 + (long)g.below(3); else g_throw_elem = 1 + (long)g.below(work);
	}
	// everything seen of slot k, under the given field names
	void see(Ev& e, int k, const char* cn, const char* an, const char* in, const char* rn) {
		C& q = *c[k]; const C& cq = q; std::vector<long> v, a, r; size_t lim = q.size() + 8, j = 0;
		for (auto it = cq.begin(); it != cq.end() && j < lim; ++it, ++j) { v.push_back(val(*it)); a.push_back(aid(*it)); }
		j = 0;
		for (auto it = q.end(); it != q.begin() && j < lim; ++j) { --it; r.push_back(aid(*it)); }
		e.l(cn, v).l(an, a).l(rn, r);
		std::string s = "["; bool f = true;
		for (auto& h : held[k]) { long d = h.it - q.begin(), d2 = q.end() - h.it; if (!f) s += ","; f = false; s += "[" + std::to_string(h.a) + "," + std::to_string(d) + "," + std::to_string(val(*h.it)) + "," + std::to_string(d2) + "," + std::to_string(aid(*h.it)) + "]"; }
		e.j(in, s + "]");
	}
	void finish(Ev& e, int k, const std::string& x, bool lv = true, bool always = false) {
		disarm();
		C& q = *c[k]; size_t n = q.size();
		if (!n) hend[k].reset(); // emptying a sequence may release everything
		e.s("x", x).i("n", (long)n).b("em", q.empty()).b("cap", q.capacity() >= n);
		if (n) e.i("f", val(q.front())).i("b", val(q.back()));
		if (hend[k]) e.b("he", *hend[k] == q.end());
		if (x != "none" || always || n <= 24 || g.chance(1, 1 + (unsigned)n / 24)) see(e, k, "c", "ad", "it", "rv");
		tail(e, lv);
	}
	void tail(Ev& e, bool lv = true) {
		e.i("lv", TRK && lv ? g_live : -1);
		e.l("al", std::vector<long>{ (long)c[0]->get_allocator().id, (long)c[1]->get_allocator().id });
		e.s("er", take_err());
	}
	// positions [a, b) are about to disappear
	void drop(int k, long a, long b) {
		C& q = *c[k]; std::vector<Held> r;
		for (auto& h : held[k]) { long d = h.it - q.begin(); if (d < a || d >= b) r.push_back(h); }
		held[k].swap(r);
	}
	void dropall(int k) { held[k].clear(); hend[k].reset(); }
	void hold(int k) {
		C& q = *c[k]; size_t n = q.size(); if (!n || held[k].size() >= 6) return;
		auto it = q.iterator_at(g.below(n)); held[k].push_back({ it, aid(*it) }); hend[k] = q.end();
	}
	void step(int k) {
		C& q = *c[k]; const C& cq = q; size_t n = q.size();
		if (g.chance(1, 6)) hold(k);
		bool grow = n < soft ? g.chance(3, 5) : g.chance(2, 5);
		if (n == 0) grow = true;
		std::string x; long r = -1; long v = nv();
		int bg = big && g.chance(1, 6) ? 1 + (int)g.below(60) : g.chance(1, 10) ? 12 : 1;
		if (grow) {
			bool alias = n && g.chance(1, 5); size_t ai = g.below(n ? n : 1);
			size_t cnt = g.below(6) * (size_t)bg;
			switch (g.below(18)) {
				case 0: case 1: case 2: case 3: { // back
					int how = (int)g.below(4); Ev e(how == 3 ? "emplace_back_it" : "push_back"); e.i("k", k + 1);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					C::iterator it;
					if (alias) { T& s = *q.iterator_at(ai); arm(3); x = guarded([&] { if (how == 0) q.push_back(s); else if (how == 3) { it = q.emplace_back_iter(s); } else q.emplace_back(s); }); }
					else { T t((int)v); arm(3); x = guarded([&] { if (how == 0) q.push_back(t); else if (how == 1) q.push_back(std::move(t)); else if (how == 2) q.emplace_back((int)v); else it = q.emplace_back_iter((int)v); }); }
					if (how == 3) r = x == "none" ? it - q.begin() : -1;
					e.i("r", r); finish(e, k, x); break; }
				case 4: case 5: case 6: case 7: {
					int how = (int)g.below(4); Ev e(how == 3 ? "emplace_front_it" : "push_front"); e.i("k", k + 1);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					C::iterator it;
					if (alias) { T& s = *q.iterator_at(ai); arm(3); x = guarded([&] { if (how == 0) q.push_front(s); else if (how == 3) { it = q.emplace_front_iter(s); } else q.emplace_front(s); }); }
					else { T t((int)v); arm(3); x = guarded([&] { if (how == 0) q.push_front(t); else if (how == 1) q.push_front(std::move(t)); else if (how == 2) q.emplace_front((int)v); else it = q.emplace_front_iter((int)v); }); }
					if (how == 3) r = x == "none" ? it - q.begin() : -1;
					e.i("r", r); finish(e, k, x); break; }
				case 8: case 9: case 10: case 11: { // anywhere
					Ev e("insert"); e.i("k", k + 1); int how = (int)g.below(3);
					if (alias) e.i("ai", (long)ai); else e.i("v", v);
					C::iterator it;
					if (alias) { T& s = *q.iterator_at(ai); arm(3); x = guarded([&] { it = how ? q.insert(s) : q.emplace(s); }); }
					else { T t((int)v); arm(3); x = guarded([&] { it = how == 0 ? q.insert(t) : how == 1 ? q.insert(std::move(t)) : q.emplace((int)v); }); }
					if (x == "none") r = it - q.begin();
					e.i("r", r); finish(e, k, x); break; }
				case 12: { // assign range
					auto xs = vals(g.below(g.chance(1, 3) ? soft + 2 : 7)); int kind = (int)g.below(4);
					if (kind == 3) xs.resize(3, 4);
					dropall(k);
					Ev e("assign_r"); e.i("k", k + 1).l("vs", xs).i("kind", kind); size_t w = n + 2 * xs.size() + 2;
					if (kind == 0) { std::vector<T> t(xs.begin(), xs.end()); arm(w); x = guarded([&] { q.assign(t.begin(), t.end()); }); disarm(); }
					else if (kind == 1) { std::list<T> t(xs.begin(), xs.end()); arm(w); x = guarded([&] { q.assign(t.begin(), t.end()); }); disarm(); }
					else if (kind == 2) { arm(w); x = guarded([&] { q.assign(InIt{ &xs, 0 }, InIt{ &xs, xs.size() }); }); }
					else { std::initializer_list<T> il{ T(xs[0]), T(xs[1]), T(xs[2]) }; arm(8); x = guarded([&] { q.assign(il); }); disarm(); e.i("r", -1); finish(e, k, x, false); break; }
					e.i("r", -1); finish(e, k, x); break; }
				case 13: {
					size_t m = g.below(g.chance(1, 3) ? soft + 2 : 7); dropall(k); Ev e("assign_n"); e.i("k", k + 1).i("m", (long)m);
					if (alias) { e.i("ai", (long)ai); T& s = *q.iterator_at(ai); arm(n + 2 * m + 2); x = guarded([&] { q.assign(m, s); }); }
					else { e.i("v", v); T t((int)v); arm(n + 2 * m + 2); x = guarded([&] { q.assign(m, t); }); }
					e.i("r", -1); finish(e, k, x); break; }
				default: {
					size_t m = n + cnt; int kind = (int)g.below(4); if (kind < 2) alias = false;
					Ev e(kind == 0 ? "resize" : kind == 1 ? "resize_front" : kind == 2 ? "resize_v" : "resize_front_v"); e.i("k", k + 1).i("m", (long)m);
					if (alias) e.i("ai", (long)ai); else if (kind >= 2) e.i("v", v);
					if (kind == 0) { arm(n + cnt + 4); x = guarded([&] { q.resize(m); }); }
					else if (kind == 1) { arm(n + cnt + 4); x = guarded([&] { q.resize_front(m); }); }
					else if (alias) { T& s = *q.iterator_at(ai); arm(cnt + 4); x = guarded([&] { if (kind == 2) q.resize(m, s); else q.resize_front(m, s); }); }
					else { T t((int)v); arm(cnt + 4); x = guarded([&] { if (kind == 2) q.resize(m, t); else q.resize_front(m, t); }); }
					e.i("r", -1); finish(e, k, x); break; }
			}
			return;
		}
		switch (g.below(18)) {
			case 0: case 1: { drop(k, (long)n - 1, (long)n); Ev e("pop_back"); e.i("k", k + 1); x = guarded([&] { q.pop_back(); }); e.i("r", -1); finish(e, k, x); break; }
			case 2: case 3: { drop(k, 0, 1); Ev e("pop_front"); e.i("k", k + 1); x = guarded([&] { q.pop_front(); }); e.i("r", -1); finish(e, k, x); break; }
			case 4: case 5: case 6: case 7: { size_t p = g.chance(1, 5) ? (g.chance(1, 2) ? 0 : n - 1) : g.below(n); drop(k, (long)p, (long)p + 1); Ev e("erase"); e.i("k", k + 1).i("p", (long)p); arm(n + 2);
				x = guarded([&] { auto it = q.erase(q.iterator_at(p)); r = it - q.begin(); }); e.i("r", r); finish(e, k, x); break; }
			case 8: case 9: case 10: { size_t a = g.below(n + 1), b = a + g.below(std::min<size_t>(n - a, 5u * (unsigned)bg) + 1); if (g.chance(1, 12)) { a = 0; b = n; } drop(k, (long)a, (long)b); Ev e("erase_r"); e.i("k", k + 1).i("p", (long)a).i("q", (long)b); arm(n + 2);
				x = guarded([&] { auto it = q.erase(q.iterator_at(a), q.iterator_at(b)); r = it - q.begin(); }); e.i("r", r); finish(e, k, x); break; }
			case 11: case 12: { size_t m = n - g.below(std::min<size_t>(n, 5u * (unsigned)bg) + 1); bool f = g.chance(1, 2), wv = g.chance(1, 3); if (f) drop(k, 0, (long)(n - m)); else drop(k, (long)m, (long)n);
				Ev e(f ? (wv ? "resize_front_v" : "resize_front") : (wv ? "resize_v" : "resize")); e.i("k", k + 1).i("m", (long)m); if (wv) e.i("v", v);
				if (wv) { T t((int)v); x = guarded([&] { if (f) q.resize_front(m, t); else q.resize(m, t); }); }
				else x = guarded([&] { if (f) q.resize_front(m); else q.resize(m); });
				e.i("r", -1); finish(e, k, x); break; }
			case 13: { if (!g.chance(1, 4)) { access(k); break; } drop(k, 0, (long)n); Ev e("clear"); e.i("k", k + 1); x = guarded([&] { q.clear(); }); e.i("r", -1); finish(e, k, x); break; }
			case 14: { int kind = (int)g.below(5);
				if (kind == 0) { dropall(k); Ev e("shrink"); e.i("k", k + 1); arm(n + 2); x = guarded([&] { q.shrink_to_fit(); }); e.i("r", -1); finish(e, k, x); }
				else if (kind == 1) { size_t m = g.below(2 * soft + 4); Ev e("reserve"); e.i("k", k + 1).i("m", (long)m); arm(3); x = guarded([&] { q.reserve(m); }); disarm(); e.i("r", x == "none" ? q.capacity() >= m : -1); finish(e, k, x); }
				else { dropall(k); int cm = (int)g.below(3); Ev e("sort"); e.i("k", k + 1).i("cm", cm); arm(n * 8 + 8); x = guarded([&] { if (cm == 0) q.sort(std::less<T>()); else if (cm == 1) q.sort(ByMod()); else q.sort(ByGt()); }); e.i("r", -1); finish(e, k, x, true, true); }
				break; }
			default: access(k);
		}
		(void)cq;
	}
	void access(int k) {
		C& q = *c[k]; const C& cq = q; size_t n = q.size();
		switch (g.below(4)) {
			case 0: { if (!n) return; size_t i = g.below(n); long v = nv(); Ev e("set"); e.i("k", k + 1).i("p", (long)i).i("v", v); *q.iterator_at(i) = T((int)v); e.i("r", -1); finish(e, k, "none"); break; }
			case 1: { Ev e("rev"); e.i("k", k + 1); std::vector<long> o; size_t lim = n + 4;
				if (g.chance(1, 2)) { for (auto it = q.rbegin(); it != q.rend() && lim--; ++it) o.push_back(val(*it)); } else for (auto it = cq.rbegin(); it != cq.rend() && lim--; ++it) o.push_back(val(*it));
				e.l("out", o).i("r", -1); finish(e, k, "none"); break; }
			case 2: { if (!n) return; long i = (long)g.below(n + 1), j = (long)g.below(n + 1); Ev e("iter"); e.i("k", k + 1).i("p", i).i("q", j);
				auto a = q.begin() + i; auto b = cq.iterator_at((size_t)j); C::const_iterator ca = cq.end() - ((long)n - i); std::vector<long> o;
				o.push_back(b - ca); o.push_back(ca == b); o.push_back(ca != b); o.push_back(ca < b); o.push_back(ca <= b); o.push_back(ca > b); o.push_back(ca >= b);
				auto d = a; d += (j - i); o.push_back(j < (long)n ? val(*d) : -7); d -= (j - i); o.push_back(d == a);
				o.push_back(j < (long)n ? val(*(ca + (j - i))) : -7);
				d = a; if (i < (long)n) { auto f = d++; o.push_back(val(*f)); o.push_back(d - q.begin()); } else { o.push_back(-7); o.push_back(-7); }
				d = a; if (i > 0) { d--; o.push_back(val(*d)); o.push_back(d - q.begin()); } else { o.push_back(-7); o.push_back(-7); }
				o.push_back(q.end() - a);
				e.l("out", o).i("r", -1); finish(e, k, "none"); break; }
			default: { Ev e("full"); e.i("k", k + 1).i("r", -1); finish(e, k, "none"); }
		}
	}
	void xfer_step() {
		int k = (int)g.below(2), o = 1 - k; std::string x = "none";
		C &q = *c[k], &p = *c[o];
		int op = (int)g.below(12), id = 1 + (int)g.below(3);
		if (op == 10 && !(PMV & 4) && q.get_allocator().id != p.get_allocator().id) op = 0;
		const char* nm[12] = { "copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "il_ctor", "n_ctor", "swap", "range_ctor" };
		// iterators into what moves go with it; the end iterator does not
		bool mv = op == 2 || (op == 10);
		std::vector<Held> hk = held[k], ho = held[o];
		if (op != 7) { hend[k].reset(); if (mv || op == 3 || op == 5) hend[o].reset(); }
		Ev e(nm[op]); e.i("k", k + 1);
		size_t m = g.below(9); long v = nv(); auto xs = vals(g.below(soft));
		if (op == 8) xs.resize(2, 5);
		if (op == 3 || op == 1 || op == 8 || op == 9 || op == 11) e.i("id", id);
		if (op == 9) e.i("m", (long)m).i("v", v);
		if (op == 11 || op == 8) e.l("vs", xs);
		size_t work = q.size() + p.size() + xs.size() + m + 4;
		if (op == 2) { held[k] = ho; held[o].clear(); } else if (op == 10) { held[k] = ho; held[o] = hk; } else if (op != 7 && op != 6) { held[k].clear(); if (op == 3 || op == 5) held[o].clear(); }
		std::optional<C> t;
		bool lv = true;
		switch (op) {
			case 0: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p)); }); break; }
			case 1: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p), A(id)); }); break; }
			case 2: { arm(work); x = guarded([&] { t.emplace(std::move(p)); }); break; }
			case 3: { arm(work); x = guarded([&] { t.emplace(std::move(p), A(id)); }); break; }
			case 4: { arm(work); x = guarded([&] { q = static_cast<const C&>(p); }); break; }
			case 5: { arm(work); x = guarded([&] { q = std::move(p); }); break; }
			case 6: { arm(work); C& q2 = q; x = guarded([&] { q = static_cast<const C&>(q2); }); break; }
			case 7: { x = guarded([&] { q.swap(q); }); break; }
			case 8: { x = guarded([&] { t.emplace(std::initializer_list<T>{ T(xs[0]), T(xs[1]) }, A(id)); }); break; }
			case 9: { T tv((int)v); arm(work); x = guarded([&] { t.emplace(m, tv, A(id)); }); disarm(); break; }
			case 10: { x = guarded([&] { q.swap(p); }); break; }
			default: { std::list<T> l(xs.begin(), xs.end()); arm(work); x = guarded([&] { t.emplace(l.begin(), l.end(), A(id)); }); disarm(); break; }
		}
		disarm();
		if (x != "none") { held[k].clear(); held[o].clear(); if (mv) { hend[0].reset(); hend[1].reset(); } }
		if (t) { c[k].reset(); c[k].emplace(std::move(*t)); t.reset(); }
		e.s("x", x).i("r", -1).i("n", (long)c[k]->size());
		see(e, k, "c", "ad", "it", "rv"); see(e, o, "d", "dd", "id2", "rd");
		tail(e, lv);
	}
	void session(int idx) {
		ledger_reset(); ids.clear(); next_id = 1; next_v = 1; dropall(0); dropall(1);
		soft = big ? 200 + g.below(1200) : g.chance(1, 3) ? 3 + g.below(6) : 10 + g.below(80);
		if (inject) soft = 2 + g.below(40);
		size_t steps = big ? 500 : 60 + g.below(100);
		int i0 = 1, i1 = 1 + (int)g.below(2);
		Session S(mode + "/" + std::to_string(idx), kv("type", NAME) + "," + kv("pm", (long)PMV) + "," + kvb("dev", false) + "," + kvb("th", std::is_same<T, ObjTh>::value) + "," + kv("a1", (long)i0) + "," + kv("a2", (long)i1) + "," + kv("bsz", 0L));
		c[0].emplace(A(i0)); c[1].emplace(A(i1));
		for (size_t i = 0; i < steps; ++i) {
			if (xfer && g.chance(1, 5)) { xfer_step(); continue; }
			int k = (xfer || g.chance(1, 10)) ? (int)g.below(2) : 0;
			step(k);
		}
		for (int k = 0; k < 2; ++k) { Ev e("full"); e.i("k", k + 1).i("r", -1); finish(e, k, "none"); }
		{ Ev e("destroy"); e.i("k", 1); dropall(0); dropall(1); c[0].reset(); c[1].reset();
			e.s("x", "none").i("lv", TRK ? g_live : -1).i("tk", g_tok_live).i("bk", (long)g_blocks.size()).s("er", take_err()); }
	}
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner r(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r.session((int)i); }
	flush();
	return 0;
}
