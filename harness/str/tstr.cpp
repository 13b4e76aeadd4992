// Driver for tiny_string / tstring_view.   usage: tstr OUT SEED N MODE     MODE: plain xfer inject
#include "../common.hpp"
#include <seq/tiny_string.hpp>
#include <optional>
#include <sstream>
#include <list>
#include <string_view>
using namespace vt;
#ifndef INST
#define INST 0
#endif
#if INST == 0
using Ch = char; using A = Alloc<Ch, 0>; constexpr size_t SS = 0;
#define NAME "tiny_string<char,Alloc>"
#define PMV 0
#define PER 1
#elif INST == 1
using Ch = char; using A = std::allocator<Ch>; constexpr size_t SS = 0;
#define NAME "tiny_string<char>"
#define PMV 0
#define PER 0
#elif INST == 2
using Ch = char; using A = Alloc<Ch, 7>; constexpr size_t SS = 28;
#define NAME "tiny_string<char,Alloc,28>"
#define PMV 7
#define PER 1
#elif INST == 3
using Ch = wchar_t; using A = std::allocator<Ch>; constexpr size_t SS = 0;
#define NAME "tiny_string<wchar_t>"
#define PMV 0
#define PER 0
#elif INST == 4
using Ch = char16_t; using A = Alloc<Ch, 2>; constexpr size_t SS = 20;
#define NAME "tiny_string<char16_t,Alloc,20>"
#define PMV 2
#define PER 1
#elif INST == 5
using Ch = char; using A = Alloc<Ch, 8>; constexpr size_t SS = 118;
#define NAME "tiny_string<char,Alloc,118>"
#define PMV 8
#define PER 1
#elif INST == 6
using Ch = char32_t; using A = Alloc<Ch, 1>; constexpr size_t SS = 9;
#define NAME "tiny_string<char32_t,Alloc,9>"
#define PMV 1
#define PER 1
#elif INST == 7
using Ch = char; using A = std::allocator<Ch>; constexpr size_t SS = 40;
#define NAME "tiny_string<char,40>"
#define PMV 0
#define PER 0
#elif INST == 8
using Ch = char; using A = Alloc<Ch, 5>; constexpr size_t SS = 17;
#define NAME "tiny_string<char,Alloc,17>"
#define PMV 5
#define PER 1
#endif
using S = seq::tiny_string<Ch, std::char_traits<Ch>, A, SS>;
using O = seq::tiny_string<Ch, std::char_traits<Ch>, std::allocator<Ch>, SS == 0 ? 25 : 0>;
using W = seq::tiny_string<Ch, std::char_traits<Ch>, seq::view_allocator<Ch>, 0>;
using Bs = std::basic_string<Ch>; using V = std::basic_string_view<Ch>;
constexpr size_t npos = (size_t)-1;
using L = std::vector<long>;
using U = std::make_unsigned_t<std::conditional_t<sizeof(Ch) == 1, char, std::conditional_t<sizeof(Ch) == 2, short, int>>>;
inline long code(Ch c) { return (long)(U)c; }
template<class C> L codes(const C& c) { L r; for (auto x : c) r.push_back(code(x)); return r; }
inline long P(size_t p) { return p == npos ? -1 : (long)p; }
inline int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
inline int idOf(const std::allocator<Ch>&) { return 1; }
template<class T, int M> int idOf(const Alloc<T, M>& a) { return a.id; }
inline std::allocator<Ch> mkA(int, std::allocator<Ch>*) { return {}; }
template<class T, int M> Alloc<T, M> mkA(int i, Alloc<T, M>*) { return Alloc<T, M>(i); }
inline A mkA(int i) { return mkA(i, (A*)nullptr); }
// single pass iterator that may throw
struct InIt {
	using iterator_category = std::input_iterator_tag; using value_type = Ch; using difference_type = ptrdiff_t; using pointer = const Ch*; using reference = Ch;
	const Ch* p; Ch operator*() const { may_throw(); return *p; } InIt& operator++() { ++p; return *this; } InIt operator++(int) { auto t = *this; ++p; return t; }
	bool operator==(const InIt& o) const { return p == o.p; } bool operator!=(const InIt& o) const { return p != o.p; }
};

inline std::string g_note;
inline void bad(const char* w) { g_note = w; }
struct Runner {
	Rng g; bool inject, xfer; size_t soft = 10; std::vector<Ch> alpha; std::optional<S> c[2];
	Runner(uint64_t s, const std::string& m) : g(s), inject(m == "inject"), xfer(m == "xfer") {}
	Ch ch() { return alpha[g.below(alpha.size())]; }
	Ch nz() { for (;;) { Ch x = ch(); if (x != 0) return x; } }
	Bs text(size_t n, bool zeros = true) { Bs r; for (size_t i = 0; i < n; ++i) r.push_back(zeros ? ch() : nz()); if (n > 3 && g.chance(1, 4)) { size_t q = 1 + g.below(3); for (size_t i = q; i < n; ++i) r[i] = r[i - q]; } return r; }
	size_t len() { switch (g.below(6)) { case 0: return 0; case 1: return g.below(soft + 3); case 2: return S::max_static_size + 2 - g.below(4); default: return g.below(soft / 3 + 3); } }
	size_t bpos(size_t n) { return g.chance(1, 4) ? (g.chance(1, 2) ? 0 : n) : g.below(n + 1); }
	size_t cnt(size_t n) { return g.chance(1, 5) ? npos : g.chance(1, 6) ? n + g.below(5) : g.below(n + 1); }
	void arm() { g_fired = false; if (!inject || g.chance(1, 4)) return; if (g.chance(1, 5)) g_throw_elem = 1 + (long)g.below(8); else g_throw_alloc = 1 + (long)g.below(2); }
	bool nullEnd(const S& q) { return q.data()[q.size()] == 0 && q.c_str() == q.data() && (size_t)(q.end() - q.begin()) == q.size() && q.length() == q.size(); }
	void ids(Ev& e) { e.l("alc", L{ idOf(c[0]->get_allocator()), idOf(c[1]->get_allocator()) }).s("er", take_err()).s("nt", g_note); g_note.clear(); }
	void finish(Ev& e, int k, const std::string& x) {
		disarm(); S& q = *c[k]; L rv; if (g.chance(1, 2)) for (auto i = q.rbegin(); i != q.rend(); ++i) rv.push_back(code(*i)); else { const S& cq = q; for (auto i = cq.crbegin(); i != cq.crend(); ++i) rv.push_back(code(*i)); }
		e.s("x", x).i("n", (long)q.size()).b("em", q.empty()).b("z", nullEnd(q)).b("cp", q.capacity() >= q.size()).l("c", codes(q)).l("rv", rv); ids(e);
	}
	// the argument of assign / append / insert / replace in one of its forms
	template<class Fn> std::string arg(Ev& e, S& q, bool mayAlias, Fn&& fn) {
		std::string x; Bs t = text(len()); size_t n = q.size();
		if (mayAlias && n && g.chance(1, 4)) {
			size_t o = g.below(n), m = g.below(n - o + 1); int how = (int)g.below(4);
			if (how == 2) { o = 0; m = n; } if (how == 3) { m = 0; while (o + m < n && q[o + m] != 0) ++m; }
			e.l("al", L{ (long)o, (long)m }); arm();
			const S& cq = q; switch (how) {
				case 0: return x = guarded([&] { fn(cq.data() + o, m); });
				case 1: return x = guarded([&] { fn(cq, o, m); });
				case 2: return x = guarded([&] { fn(cq); });
				default: return x = guarded([&] { fn(cq.data() + o); }); }
		}
		size_t sp = bpos(t.size()), sl = cnt(t.size() - sp); int form = (int)g.below(14);
		switch (form) {
			case 0: { e.l("a", codes(t)); S a(t.data(), t.size(), mkA(idOf(q.get_allocator()))); arm(); return guarded([&] { fn(static_cast<const S&>(a)); }); }
			case 1: { e.l("a", codes(t)); O a(t.data(), t.size()); arm(); return guarded([&] { fn(a); }); }
			case 2: { e.l("a", codes(t)); arm(); return guarded([&] { fn(t); }); }
			case 3: { e.l("a", codes(t)); V a(t); arm(); return guarded([&] { fn(a); }); }
			case 4: { e.l("a", codes(t)); W a(t.data(), t.size()); arm(); return guarded([&] { fn(a); }); }
			case 5: { e.l("a", codes(t)); arm(); return guarded([&] { fn(t.data(), t.size()); }); }
			case 6: { Bs z = text(t.size(), false); e.l("a", codes(z)); arm(); return guarded([&] { fn(z.c_str()); }); }
			case 7: { Ch v = ch(); e.i("ch", code(v)).i("cm", (long)t.size()); arm(); return guarded([&] { fn(t.size(), v); }); }
			case 8: { e.l("a", codes(t)).i("sp", (long)sp).i("sl", P(sl)); S a(t.data(), t.size(), mkA(idOf(q.get_allocator()))); arm(); return guarded([&] { fn(static_cast<const S&>(a), sp, sl); }); }
			case 9: { e.l("a", codes(t)); std::list<Ch> a(t.begin(), t.end()); arm(); return guarded([&] { fn(a.begin(), a.end()); }); }
			case 10: { e.l("a", codes(t)); arm(); return guarded([&] { fn(InIt{ t.data() }, InIt{ t.data() + t.size() }); }); }
			case 11: { e.l("a", codes(t)); std::vector<Ch> a(t.begin(), t.end()); arm(); return guarded([&] { fn(a.begin(), a.end()); }); }
			case 12: { t = text(3); e.l("a", codes(t)); std::initializer_list<Ch> il{ t[0], t[1], t[2] }; arm(); return guarded([&] { fn(il); }); }
			default: { e.l("a", codes(t)); arm(); return guarded([&] { fn(t.data(), t.data() + t.size()); }); }
		}
	}
	void change(int k) {
		S& q = *c[k]; size_t n = q.size(); std::string x;
		switch (g.below(16)) {
			case 0: { Ev e("assign"); e.i("k", k + 1); bool op = g.chance(1, 3);
				x = arg(e, q, true, [&](auto&&... a) {
					if constexpr (sizeof...(a) == 1) { if (op) { q = (a, ...); return; } q.assign(a...); }
					else if constexpr (sizeof...(a) == 3) q.assign(a...);
					else q.assign(a...); });
				finish(e, k, x); break; }
			case 1: case 2: case 3: { Ev e("append"); e.i("k", k + 1); bool op = g.chance(1, 3);
				x = arg(e, q, true, [&](auto&&... a) { if constexpr (sizeof...(a) == 1) { if (op) { q += (a, ...); return; } q.append(a...); } else q.append(a...); });
				finish(e, k, x); break; }
			case 4: case 5: { size_t p = bpos(n); Ev e("insert"); e.i("k", k + 1).i("p", (long)p); long r = (long)p;
				x = arg(e, q, true, [&](auto&&... a) {
					using T0 = std::decay_t<std::tuple_element_t<0, std::tuple<decltype(a)...>>>;
					if constexpr (sizeof...(a) == 1 && std::is_same_v<T0, std::initializer_list<Ch>>) r = (long)(q.insert(q.cbegin() + p, a...) - q.begin());
					else if constexpr (sizeof...(a) == 2) {
						using T1 = std::decay_t<std::tuple_element_t<1, std::tuple<decltype(a)...>>>;
						if constexpr (std::is_same_v<T0, T1> && !std::is_integral_v<T0>) r = (long)(q.insert(q.cbegin() + p, a...) - q.begin());
						else if constexpr (std::is_integral_v<T0>) { if (g.chance(1, 2)) r = (long)(q.insert(q.cbegin() + p, a...) - q.begin()); else q.insert(p, a...); }
						else q.insert(p, a...);
					} else q.insert(p, a...); });
				if (x == "none" && r != (long)p) bad("insert returns another position");
				finish(e, k, x); break; }
			case 6: case 7: { size_t p = bpos(n), m = cnt(n - p); int how = (int)g.below(3); if (how == 1 && p == n) how = 0;
				if (how == 1) m = 1; if (how == 2 && (m == npos || m > n - p)) m = n - p;
				Ev e("erase"); e.i("k", k + 1).i("p", (long)p).i("m", P(m)); arm(); long r = (long)p;
				x = guarded([&] { if (how == 0) q.erase(p, m); else if (how == 1) r = (long)(q.erase(q.cbegin() + p) - q.begin()); else r = (long)(q.erase(q.cbegin() + p, q.cbegin() + p + m) - q.begin()); });
				if (x == "none" && r != (long)p) bad("erase returns another position");
				finish(e, k, x); break; }
			case 8: case 9: { size_t p = bpos(n), m = cnt(n - p); bool it = g.chance(1, 2); 
				size_t mm = (m == npos || m > n - p) ? n - p : m; Ev e("replace"); e.i("k", k + 1).i("p", (long)p).i("m", P(m));
				x = arg(e, q, true, [&](auto&&... a) {
					using T0 = std::decay_t<std::tuple_element_t<0, std::tuple<decltype(a)...>>>;
					auto b = q.cbegin() + p;
					if constexpr (sizeof...(a) == 1) { if constexpr (std::is_same_v<T0, std::initializer_list<Ch>>) q.replace(b, b + mm, a...); else { if (it) q.replace(b, b + mm, a...); else q.replace(p, m, a...); } }
					else if constexpr (sizeof...(a) == 2) {
						using T1 = std::decay_t<std::tuple_element_t<1, std::tuple<decltype(a)...>>>;
						if constexpr (std::is_same_v<T0, T1> && !std::is_integral_v<T0>) q.replace(b, b + mm, a...);
						else { if (it) q.replace(b, b + mm, a...); else q.replace(p, m, a...); }
					} else q.replace(p, m, a...); });
				finish(e, k, x); break; }
			case 10: { size_t m = g.chance(1, 2) ? g.below(n + 1) : len(); Ch v = g.chance(1, 3) ? 0 : ch(); bool f = g.chance(1, 2); Ev e(f ? "resize_front" : "resize"); e.i("k", k + 1).i("m", (long)m).i("v", code(v)); arm();
				x = guarded([&] { if (f) { if (v == 0) q.resize_front(m); else q.resize_front(m, v); } else if (v == 0) q.resize(m); else q.resize(m, v); }); finish(e, k, x); break; }
			case 11: { Ch v = ch(); int how = (int)g.below(4); Ev e("push_back"); e.i("k", k + 1).i("v", code(v)); arm(); x = guarded([&] { if (how == 0) q += v; else if (how == 1) q.insert(q.cend(), v); else q.push_back(v); }); finish(e, k, x); break; }
			case 12: { if (!n) return; if (g.chance(1, 2)) { Ev e("pop_back"); e.i("k", k + 1); q.pop_back(); finish(e, k, "none"); }
				else { size_t p = g.below(n); Ch v = ch(); int how = (int)g.below(4); if (how == 2) p = 0; if (how == 3) p = n - 1; Ev e("set"); e.i("k", k + 1).i("p", (long)p).i("v", code(v)); if (how == 0) q[p] = v; else if (how == 1) q.at(p) = v; else if (how == 2) q.front() = v; else q.back() = v; finish(e, k, "none"); } break; }
			case 13: { int how = (int)g.below(8); Ev e(how == 0 ? "clear" : how < 4 ? "shrink" : "reserve"); e.i("k", k + 1); size_t m = len(); arm();
				x = guarded([&] { if (how == 0) q.clear(); else if (how < 4) q.shrink_to_fit(); else q.reserve(m); }); finish(e, k, x); break; }
			case 14: { Bs f = n && g.chance(2, 3) ? [&] { size_t o = g.below(n); return Bs(q.data() + o, std::min(n - o, 1 + g.below(3))); }() : text(1 + g.below(3)), t = text(g.below(5)); if (inject) t = f; // replacing everything has no strong guarantee to give
				size_t p = bpos(n), r = 0; int how = (int)g.below(5); if (how == 4) { for (auto* s : { &f, &t }) for (auto& y : *s) if (y == 0) y = 'z'; }
				Ev e("replall"); e.i("k", k + 1).l("f", codes(f)).l("t", codes(t)).i("p", (long)p); arm();
				x = guarded([&] { r = how == 0 ? q.replace(f, t, p) : how == 1 ? q.replace(V(f), V(t), p) : how == 2 ? q.replace(f.data(), f.size(), t.data(), t.size(), p) : how == 3 ? q.replace(S(f.data(), f.size()), O(t.data(), t.size()), p) : q.replace(f.c_str(), t.c_str(), p); });
				e.i("r", (long)r); finish(e, k, x); break; }
			default: {
#if INST == 0 || INST == 1 || INST == 2 || INST == 5 || INST == 7 || INST == 8 || INST == 3
				Bs t; for (size_t i = g.below(40); i--;) t.push_back(g.chance(1, 6) ? (Ch)' ' : g.chance(1, 20) ? (Ch)'\n' : (Ch)('a' + g.below(5))); if (g.chance(1, 4)) t = Bs(g.below(3), (Ch)' ') + t;
				std::basic_istringstream<Ch> in(t); long w = g.chance(1, 3) ? (long)g.below(12) : 0; Ev e("in"); e.i("k", k + 1).l("a", codes(t)).i("w", w); in.width(w); arm();
				bool ok = false; x = guarded([&] { ok = (bool)(in >> q); }); disarm(); if (g_fired) { ok = true; x = "bad_alloc"; }
				in.clear(); Bs rest; for (int y; (y = in.rdbuf()->sbumpc()) != std::char_traits<Ch>::eof();) rest.push_back((Ch)y);
				e.b("ok", ok).l("tok", codes(q)).l("rest", codes(rest)); finish(e, k, x);
#endif
				break; }
		}
	}
	// all searches with one form of the pattern
	template<class Q> void search(int k, Q& q) {
		size_t n = q.size(); Bs t;
		if (n && g.chance(2, 3)) { size_t o = g.below(n); t = Bs(q.data() + o, g.below(std::min<size_t>(n - o, 12) + 1)); if (t.size() > 2 && g.chance(1, 3)) t[g.below(t.size())] = ch(); } else t = text(g.below(5));
		size_t p = g.chance(1, 6) ? npos : g.chance(1, 6) ? n + g.below(4) : g.below(n + 1); bool dp = g.chance(1, 6);
		static const char* W6[6] = { "find", "rfind", "ffo", "flo", "ffno", "flno" };
		for (int w = 0; w < 6; ++w) {
			int form = (int)g.below(w < 2 ? 7 : 5); size_t r = 0, pp = dp ? (w == 0 || w == 2 || w == 4 ? 0 : npos) : p; Bs u = t;
			if (form == 0) u = Bs(1, t.size() ? t[0] : ch());
			if (form == 2) for (auto& y : u) if (y == 0) y = 'z';
			Ev e("search"); e.i("k", k + 1).s("w", W6[w]).l("a", codes(u)).i("p", P(pp));
			auto go = [&](auto&&... a) { switch (w) { case 0: return q.find(a...); case 1: return q.rfind(a...); case 2: return q.find_first_of(a...); case 3: return q.find_last_of(a...); case 4: return q.find_first_not_of(a...); default: return q.find_last_not_of(a...); } };
			auto go2 = [&](auto&&... a) { return w == 0 ? q.find(a...) : q.rfind(a...); };
			switch (form) {
				case 0: r = dp ? go(u[0]) : go(u[0], p); break;
				case 1: r = go(u.data(), pp, u.size()); break;
				case 2: r = dp ? go(u.c_str()) : go(u.c_str(), p); break;
				case 3: { S s(u.data(), u.size()); r = dp ? go(s) : go(s, p); break; }
				case 4: { W s(u.data(), u.size()); r = dp ? go(s) : go(s, p); break; }
				case 5: r = dp ? go2(u) : go2(u, p); break;
				default: r = dp ? go2(V(u)) : go2(V(u), p); break;
			}
			e.i("r", P(r)); finish(e, k, "none");
		}
	}
	template<class T> static L rels(const S& s, const T& t) { return L{ s == t, s != t, s < t, s <= t, s > t, s >= t }; }
	template<class T> static L rrels(const S& s, const T& t) { return L{ t == s, t != s, t < s, t <= s, t > s, t >= s }; }
	static std::string LL(const std::vector<L>& v) { std::string r = "["; for (auto& l : v) { r += r.size() > 1 ? ",[" : "["; for (size_t i = 0; i < l.size(); ++i) r += (i ? "," : "") + std::to_string(l[i]); r += "]"; } return r + "]"; }
	L hashes(const S& q) {
		Bs b(q.data(), q.size()); O o(q.data(), q.size()); W w(q.data(), q.size()); V v(b); seq::hasher<S> h; std::hash<S> sh; seq::hasher<Bs> hb; seq::hasher<W> hw; seq::hasher<V> hv;
		std::vector<size_t> r{ h(q), h(o), h(b), h(v), h(w), sh(q), sh(b), sh(v), sh(o), hb(b), hb(q), hb(v), hw(w), hv(v), std::hash<W>()(w) };
		if (b.find((Ch)0) == npos) { r.push_back(h(b.c_str())); r.push_back(sh(b.c_str())); r.push_back(hb(b.c_str())); }
		L l; for (size_t x : r) l.push_back((long)((x ^ (x >> 32)) & 0x3fffffff)); return l;
	}
	void query(int k) {
		S& q = *c[k]; const S& cq = q; size_t n = q.size(); std::string x = "none";
		switch (g.below(10)) {
			case 0: case 1: if (g.chance(1, 2)) search(k, cq); else { W w(q.data(), n); search(k, w); } break;
			case 2: { Bs t = n && g.chance(3, 4) ? Bs(q.data() + g.below(n), 1) : text(1 + g.below(3)); if (n > 2 && g.chance(1, 3)) { size_t o = g.below(n - 1); t = Bs(q.data() + o, 2); } size_t p = bpos(n), r = 0; int how = (int)g.below(6); if (how == 0) t = t.substr(0, 1); if (how == 5) { p = 0; for (auto& y : t) if (y == 0) y = 'z'; }
				Ev e("count"); e.i("k", k + 1).l("a", codes(t)).i("p", (long)p); W w(q.data(), n);
				r = how == 0 ? (g.chance(1, 2) ? q.count(t[0], p) : w.count(t[0], p)) : how == 1 ? q.count(t.data(), t.size(), p) : how == 2 ? q.count(S(t.data(), t.size()), p) : how == 3 ? q.count(t, p) : how == 4 ? w.count(V(t), p) : q.count(t.c_str());
				e.i("r", (long)r); finish(e, k, x); break; }
			case 3: case 4: { Bs t(q.data(), n); switch (g.below(6)) { case 0: break; case 1: t = text(len()); break; case 2: t.push_back(ch()); break; case 3: if (n) t.pop_back(); break; case 4: if (n) t[g.below(n)] = ch(); break; default: t = text(n); }
				Ev e("cmp"); e.i("k", k + 1).l("a", codes(t)); S s(t.data(), t.size()); O o(t.data(), t.size()); W w(t.data(), t.size()); V v(t); W me(q.data(), n);
				L sg{ sgn(cq.compare(s)), sgn(cq.compare(o)), sgn(cq.compare(t)), sgn(cq.compare(v)), sgn(cq.compare(w)), sgn(me.compare(s)), sgn(me.compare(t)), sgn(me.compare(v)), sgn(me.compare(w)) }, rs{ sgn(s.compare(cq)), sgn(o.compare(cq)), sgn(w.compare(cq)) };
				std::vector<L> rl{ rels(cq, s), rels(cq, o), rels(cq, t), rels(cq, v), rels(cq, w) }, rr{ rrels(cq, s), rrels(cq, o), rrels(cq, t), rrels(cq, v), rrels(cq, w) };
				if (t.find((Ch)0) == npos) { const Ch* z = t.c_str(); sg.push_back(sgn(cq.compare(z))); rl.push_back(rels(cq, z)); rr.push_back(rrels(cq, z)); }
				e.l("sg", sg).l("rs", rs).j("rl", LL(rl)).j("rr", LL(rr)).l("h", hashes(cq)).i("h2", hashes(s)[0]); finish(e, k, x); break; }
			case 5: { Ev e("hash"); e.i("k", k + 1).l("h", hashes(cq)); finish(e, k, x); break; }
			case 6: { size_t p = bpos(n), m = cnt(n - p); int r = 0, how = (int)g.below(7); Bs t = g.chance(1, 2) ? Bs(q.data() + p, std::min(n - p, m == npos ? n : m)) : text(g.below(6)); if (t.size() && g.chance(1, 3)) t[g.below(t.size())] = ch(); if (how == 0) for (auto& y : t) if (y == 0) y = 'z';
				size_t sp = bpos(t.size()), sl = cnt(t.size() - sp); W me(q.data(), n);
				Ev e("cmpsub"); e.i("k", k + 1).i("p", (long)p).i("m", P(m)).l("a", codes(t)); if (how == 6) e.i("sp", (long)sp).i("sl", P(sl));
				r = how == 0 ? cq.compare(p, m, t.c_str()) : how == 1 ? cq.compare(p, m, t.data(), t.size()) : how == 2 ? cq.compare(p, m, t) : how == 3 ? cq.compare(p, m, V(t)) : how == 4 ? me.compare(p, m, t) : how == 5 ? cq.compare(p, m, O(t.data(), t.size())) : cq.compare(p, m, S(t.data(), t.size()), sp, sl);
				e.i("r", sgn(r)); finish(e, k, x); break; }
			case 7: { size_t p = g.chance(1, 5) ? n + g.below(3) : bpos(n), m = cnt(n > p ? n - p : 0); L out; int how = (int)g.below(4); Ev e(how < 2 ? "substr" : "copy"); e.i("k", k + 1).i("p", (long)p).i("m", P(m)); W me(q.data(), n); std::vector<Ch> buf(n + 1, (Ch)'#');
				x = guarded([&] { if (how == 0) out = codes(cq.substr(p, m)); else if (how == 1) out = codes(me.substr(p, m)); else { size_t r = how == 2 ? cq.copy(buf.data(), m, p) : me.copy(buf.data(), m, p); if (buf[r] != (Ch)'#') bad("copy writes too much"); buf.resize(r); out = codes(buf); } });
				e.l("out", out); finish(e, k, x); break; }
			case 8: { if (g.chance(1, 2)) { size_t p = g.below(n + 2); L out; Ev e("at"); e.i("k", k + 1).i("p", (long)p); W me(q.data(), n);
					x = guarded([&] { if (g.chance(1, 3)) out.push_back(code(me.at(p))); else if (g.chance(1, 2)) out.push_back(code(q.at(p))); else out.push_back(code(cq.at(p))); out.push_back(code(cq[p])); out.push_back(code(q[p])); out.push_back(code(me[p])); }); e.l("out", out); finish(e, k, x); }
				else if (n) { Ev e("ends"); W me(q.data(), n); bool v = g.chance(1, 3); e.i("k", k + 1).l("out", v ? L{ code(me.front()), code(me.back()) } : L{ code(cq.front()), code(cq.back()) }); finish(e, k, x); } break; }
			default: {
				if (g.chance(1, 2)) { Bs t = text(len()); bool left = g.chance(1, 2); int how = (int)g.below(6); if (how == 4) for (auto& y : t) if (y == 0) y = 'z'; if (how == 5) t = text(1); L out; Ev e("plus"); e.i("k", k + 1).b("left", left).l("a", codes(t)); arm();
					x = guarded([&] { switch (how) {
						case 0: { S s(t.data(), t.size()); out = left ? codes(cq + s) : codes(s + cq); break; }
						case 1: { O s(t.data(), t.size()); out = left ? codes(cq + s) : codes(s + cq); break; }
						case 2: out = left ? codes(cq + t) : codes(t + cq); break;
						case 3: out = left ? codes(cq + V(t)) : codes(V(t) + cq); break;
						case 4: out = left ? codes(cq + t.c_str()) : codes(t.c_str() + cq); break;
						default: out = left ? codes(cq + t[0]) : codes(t[0] + cq); } });
					e.l("out", out); finish(e, k, x); }
#if INST != 4 && INST != 6
				else { std::basic_ostringstream<Ch> os; long w = g.chance(1, 2) ? 0 : (long)g.below(n + 8); bool left = g.chance(1, 2); Ch fill = (Ch)"*. "[g.below(3)]; os.fill(fill); if (left) os.setf(std::ios::left, std::ios::adjustfield); else if (g.chance(1, 2)) os.setf(std::ios::right, std::ios::adjustfield); os.width(w); W me(q.data(), n);
					if (g.chance(1, 2)) os << cq; else os << me; if (os.width() != 0) bad("the width stays set");
					Ev e("out"); e.i("k", k + 1).i("w", w).b("left", left).i("fill", code(fill)).l("out", codes(os.str())); finish(e, k, x); }
#endif
			}
		}
	}
	void xfer_step() {
		int k = (int)g.below(2), o = 1 - k; std::string x = "none"; S &q = *c[k], &p = *c[o]; int op = (int)g.below(12), id = PER ? 1 + (int)g.below(3) : 1;
		if (op == 9 && !(PMV & 4) && idOf(q.get_allocator()) != idOf(p.get_allocator())) op = 0;
		const char* nm[12] = { "copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "ctor", "swap", "sub_ctor", "copy_assign" };
		Ev e(nm[op]); e.i("k", k + 1); if (op == 1 || op == 3 || op == 8 || op == 10) e.i("id", id);
		std::optional<S> t; Bs tx = text(len()); A al = mkA(id);
		switch (op) {
			case 0: arm(); x = guarded([&] { t.emplace(static_cast<const S&>(p)); }); break;
			case 1: arm(); x = guarded([&] { t.emplace(static_cast<const S&>(p), al); }); break;
			case 2: x = guarded([&] { t.emplace(std::move(p)); }); break;
			case 3: arm(); x = guarded([&] { t.emplace(std::move(p), al); }); break;
			case 4: arm(); x = guarded([&] { q = static_cast<const S&>(p); }); break;
			case 11: arm(); x = guarded([&] { q.assign(static_cast<const S&>(p)); }); break;
			case 5: arm(); x = guarded([&] { if (g.chance(1, 2)) q = std::move(p); else q.assign(std::move(p)); }); break;
			case 6: { S& q2 = q; x = guarded([&] { q = static_cast<const S&>(q2); }); break; }
			case 7: x = guarded([&] { if (g.chance(1, 2)) q.swap(q); else swap(q, q); }); break;
			case 9: x = guarded([&] { if (g.chance(1, 2)) q.swap(p); else swap(q, p); }); break;
			case 10: { size_t sp = bpos(p.size()), sl = cnt(p.size() - sp); bool two = sl == npos && g.chance(1, 2); e.i("sp", (long)sp).i("sl", P(sl)); arm(); x = guarded([&] { if (two) t.emplace(p, sp, al); else t.emplace(p, sp, sl, al); }); break; }
			default: { int form = (int)g.below(9); if (form == 2) for (auto& y : tx) if (y == 0) y = 'z'; if (form == 5) tx = text(3);
				if (form == 0) { Ch v = ch(); e.i("ch", code(v)).i("cm", (long)tx.size()); arm(); x = guarded([&] { t.emplace(tx.size(), v, al); }); break; }
				e.l("a", codes(tx)); std::list<Ch> li(tx.begin(), tx.end()); std::initializer_list<Ch> il{ tx.size() > 0 ? tx[0] : Ch(), tx.size() > 1 ? tx[1] : Ch(), tx.size() > 2 ? tx[2] : Ch() }; arm();
				x = guarded([&] { switch (form) { case 1: t.emplace(tx.data(), tx.size(), al); break; case 2: t.emplace(tx.c_str(), al); break; case 3: t.emplace(tx, al); break; case 4: t.emplace(V(tx), al); break; case 5: t.emplace(il, al); break; case 6: t.emplace(li.begin(), li.end(), al); break; case 7: t.emplace(InIt{ tx.data() }, InIt{ tx.data() + tx.size() }, al); break; default: t.emplace(tx.begin(), tx.end(), al); } }); }
		}
		disarm();
		if (t) { c[k].reset(); c[k].emplace(std::move(*t)); t.reset(); }
		S &q1 = *c[k], &p1 = *c[o];
		e.s("x", x).i("n", (long)q1.size()).i("n2", (long)p1.size()).b("z", nullEnd(q1)).b("z2", nullEnd(p1)).l("c", codes(q1)).l("d", codes(p1)); ids(e);
	}
	void session(int idx, const std::string& mode) {
		ledger_reset();
		switch (g.below(5)) { case 0: alpha = { (Ch)'a', (Ch)'b' }; break; case 1: alpha = { (Ch)0, (Ch)1, (Ch)'a', (Ch)127, (Ch)128, (Ch)255 }; break; case 2: for (int i = 0; i < 256; ++i) alpha.push_back((Ch)i); break; case 3: alpha = { (Ch)'x', (Ch)'x', (Ch)'x', (Ch)'y' }; break; default: for (int i = 0; i < 26; ++i) alpha.push_back((Ch)('a' + i)); }
		if (sizeof(Ch) > 1 && g.chance(1, 2)) { alpha.push_back((Ch)0xFFFE); alpha.push_back((Ch)0x100); alpha.push_back((Ch)0x6161); if (sizeof(Ch) > 2) { alpha.push_back((Ch)0x10FFFF); alpha.push_back((Ch)0x10000); } }
		soft = g.chance(1, 3) ? 3 + g.below(6) : g.chance(1, 2) ? S::max_static_size + 4 : 20 + g.below(120);
		int i0 = 1, i1 = PER ? 1 + (int)g.below(2) : 1;
		Session S0(mode + "/" + std::to_string(idx), kv("type", NAME) + "," + kv("pm", (long)PMV) + "," + kv("per", (long)PER) + "," + kv("a1", (long)i0) + "," + kv("a2", (long)i1));
		c[0].emplace(mkA(i0)); c[1].emplace(mkA(i1));
		size_t steps = 40 + g.below(60);
		for (size_t i = 0; i < steps; ++i) {
			int k = (int)g.below(2);
			if (xfer && g.chance(1, 3)) { xfer_step(); continue; }
			if (c[k]->size() > 2 * soft + 40) { Ev e("clear"); e.i("k", k + 1); c[k]->clear(); finish(e, k, "none"); continue; }
			if (inject || g.chance(3, 5)) change(k); else query(k);
		}
		{ Ev e("destroy"); e.i("k", 1); c[0].reset(); c[1].reset(); e.s("x", "none").i("bk", (long)g_blocks.size()).s("er", take_err()); }
	}
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner r(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r.session((int)i, argv[4]); }
	flush();
	return 0;
}
