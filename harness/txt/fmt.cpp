// Driver for format.hpp: a session builds one formatting object (and a copy of it), changes its values and formats,
// and writes it through every route.   usage: fmt OUT SEED NSESSIONS MODE
#include "../common.hpp"
#include <seq/format.hpp>
#include <deque>
#include <list>
#include <sstream>
#include <thread>
#ifndef INST
#define INST 0
#endif
using namespace vt;
#if INST == 0
using C = char;
#define NAME "char"
#elif INST == 1
using C = wchar_t;
#define NAME "wchar_t"
#else
using C = char16_t;
#define NAME "char16_t"
#endif
using UC = std::conditional<sizeof(C) == 1, unsigned char, C>::type;
using Str = std::basic_string<C>;
using TStr = seq::tiny_string<C>;
using View = seq::basic_tstring_view<C>;
static Rng g;
static Str W(const std::string& s) { return Str(s.begin(), s.end()); }
template<class It> static std::string codes(It b, It e) { std::string r = "["; for (It i = b; i != e; ++i) { if (i != b) r += ","; r += std::to_string((long)(UC)*i); } return r + "]"; }
template<class S> static std::string codes(const S& s) { return codes(s.data(), s.data() + s.size()); }

// strings and objects referred to by formatting objects stay alive for the whole session
static std::deque<Str> g_strs;
static const Str& word(size_t most = 14) {
	std::string s; for (size_t n = g.below(g.chance(1, 6) ? 40 : most + 1); n; --n) s.push_back("abcdefghijklmnopqrstuvwxyz0123456789 |/"[g.below(39)]);
	g_strs.push_back(W(s)); return g_strs.back();
}
static View lit() { static const Str pool[] = { W(""), W("|"), W(" + "), W(", "), W("The answer is "), W("\n") }; return View(pool[g.below(6)]); }

// ---------------------------------------------------------------- values
template<class T> struct IsFmt : std::false_type {};
template<class T, bool S> struct IsFmt<seq::ostream_format<T, S>> : std::true_type {};
template<class T> static std::string limbs(T v) { unsigned long long m = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; std::string r = "["; for (bool f = true; m; m >>= 12, f = false) { if (!f) r += ","; r += std::to_string(m & 4095); } return r + "]"; }
template<class T> static std::string jint(T v) { return std::string("{\"k\":\"int\",\"neg\":") + (v < 0 ? "true" : "false") + ",\"v\":" + limbs(v) + ",\"c\":" + std::to_string((long)(UC)(C)v) + "}"; }
template<class S> static std::string jstr(const S& s) { return "{\"k\":\"str\",\"t\":" + codes(s) + "}"; }
struct FF { char t; int p; char d; };
static const FF g_ff[] = { { 'g', 6, '.' }, { 'e', 6, '.' }, { 'E', 3, ',' }, { 'f', 2, '.' }, { 'G', 8, '.' }, { 'F', 0, ';' }, { 'g', 3, ',' } };
template<class T> static std::string jflt(T v) {
	std::string r = "{\"k\":\"raw\",\"tx\":[";
	for (auto& f : g_ff) {
		C b[400]; bool up = f.t < 'a'; char k = (char)tolower(f.t);
		auto q = seq::to_chars(b, b + 400, v, k == 'g' ? seq::general : k == 'e' ? seq::scientific : seq::fixed, f.p, f.d, up ? 'E' : 'e', up);
		if (&f != g_ff) r += ","; r += codes(b, q.ptr);
	}
	return r + "]}";
}
template<class T> static std::string jval(T v) {
	if constexpr (std::is_floating_point_v<T>) return jflt(v); else if constexpr (std::is_integral_v<T>) return jint(v); else return jstr(v);
}
template<class T> static T rnd() {
	using L = std::numeric_limits<T>;
	if constexpr (std::is_same_v<T, bool>) return g.chance(1, 2);
	else if constexpr (std::is_floating_point_v<T>) { T v = g.chance(1, 3) ? (T)(long)g.below(100) : g.chance(1, 2) ? (T)g.below(100000) / (T)64 : (T)g.below(1000) * (T)1e12; return g.chance(1, 3) ? -v : v; }
	else switch (g.below(6)) { case 0: return L::max(); case 1: return L::min(); case 2: return (T)g.below(10); case 3: return (T)(32 + g.below(95)); default: { auto v = g.next() >> g.below(64); return g.chance(1, 2) ? (T)v : (T)(0 - v); } }
}

// ---------------------------------------------------------------- formats
struct WF { int al = 0, w = 0; long f = ' '; };
struct NF { int base = 10; bool px = false, up = false, ch = false; int fi = 0; };
static std::string J(const WF& f) { return "{\"al\":" + std::to_string(f.al) + ",\"w\":" + std::to_string(f.w) + ",\"f\":" + std::to_string(f.f) + "}"; }
static std::string J(const NF& f) { auto b = [](bool x) { return x ? "true" : "false"; }; return "{\"base\":" + std::to_string(f.base) + ",\"px\":" + b(f.px) + ",\"up\":" + b(f.up) + ",\"ch\":" + b(f.ch) + ",\"fi\":" + std::to_string(f.fi) + "}"; }
static std::string leaf(const std::string& val, const std::string& zero, bool num, bool keep, const NF& n = NF(), const WF& w = WF()) {
	return "{\"k\":\"leaf\",\"val\":" + val + ",\"zero\":" + zero + ",\"num\":" + (num ? "true" : "false") + ",\"keep\":" + (keep ? "true" : "false") + ",\"nf\":" + J(n) + ",\"wf\":" + J(w) + "}";
}
template<class T> static std::string dleaf(const T& v, const NF& n = NF(), const WF& w = WF()) {
	if constexpr (std::is_arithmetic_v<T>) return leaf(jval(v), jval(T()), true, false, n, w); else return leaf(jstr(v), "{\"k\":\"str\",\"t\":[]}", false, false, n, w);
}
static std::string wrap(const std::string& d, const WF& w = WF()) { return "{\"k\":\"wrap\",\"it\":[" + d + "],\"wf\":" + J(w) + "}"; }
static std::string list(const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; } return r + "]"; }
static std::string ilist(const std::vector<int>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
// pos: positions (from 1) filled by a call
static std::string multi(const std::vector<std::string>& it, const std::vector<int>& pos, const std::string& sep = "[]") { return "{\"k\":\"multi\",\"it\":" + list(it) + ",\"pos\":" + ilist(pos) + ",\"sep\":" + sep + ",\"wf\":" + J(WF()) + "}"; }

static std::string P(const std::vector<int>& p) { return ilist(p); }
static int g_reg = 0; // which of the two objects
static void mod(const std::vector<int>& path, const std::string& m) { Ev("set").i("r", g_reg).j("p", P(path)).j("m", m).s("er", take_err()); }
static std::string wf_of(int al, int w) { return "{\"k\":\"al\",\"al\":" + std::to_string(al) + ",\"w\":" + std::to_string(w) + "}"; }

// one random change of the width format of f
template<class F> static void set_width(F& f, const std::vector<int>& path, int least = 1) {
	int w = least + (int)g.below(g.chance(1, 5) ? 60 : 16); bool s = g.chance(1, 2);
	static const char fills[] = "*-#. 0_";
	switch (g.below(6)) {
		case 0: if (s) f.left(w); else f.l(w); mod(path, wf_of(1, w)); break;
		case 1: if (s) f.right(w); else f.r(w); mod(path, wf_of(2, w)); break;
		case 2: if (s) f.center(w); else f.c(w); mod(path, wf_of(3, w)); break;
		case 3: f.no_align(); mod(path, "{\"k\":\"noal\"}"); break;
		case 4: { WF x{ 1 + (int)g.below(3), w, fills[g.below(7)] }; f.set_width_format(seq::width_format((unsigned short)x.w, (char)x.al, (char32_t)x.f)); mod(path, "{\"k\":\"wf\",\"wf\":" + J(x) + "}"); break; }
		default: { long c = sizeof(C) > 1 && g.chance(1, 4) ? 0x2591 : fills[g.below(7)]; if (s) f.fill((char32_t)c); else f.f((char32_t)c); mod(path, "{\"k\":\"fill\",\"c\":" + std::to_string(c) + "}"); break; }
	}
}
template<class T, class F> static void set_num(F& f, const std::vector<int>& path) {
	bool s = g.chance(1, 2);
	if constexpr (std::is_floating_point_v<T>) {
		int i = (int)g.below(sizeof g_ff / sizeof *g_ff); auto& x = g_ff[i];
		if (s) f.format(x.t).precision(x.p).dot(x.d); else f.d(x.d).p(x.p).t(x.t);
		mod(path, "{\"k\":\"fi\",\"fi\":" + std::to_string(i) + "}");
	}
	else switch (g.below(4)) {
		case 0: { static const int bs[] = { 10, 16, 2, 8, 36, 7 }; int b = bs[g.below(g.chance(1, 3) ? 6 : 2)]; if (s) f.base((char)b); else f.b((char)b); mod(path, "{\"k\":\"base\",\"b\":" + std::to_string(b) + "}"); break; }
		case 1: if (std::is_same_v<T, bool>) break; if (s) f.hex_prefix(); else f.h(); mod(path, "{\"k\":\"px\"}"); break; // (a bool is 0 or 1, without prefix)
		case 2: if (s) f.upper(); else f.u(); mod(path, "{\"k\":\"up\"}"); break;
		default: if (g.chance(1, 3)) { if (s) f.as_char(); else f.c(); mod(path, "{\"k\":\"ch\"}"); }
	}
}

// ---------------------------------------------------------------- custom types
struct Pt { long a; int b; }; // streamable; its own output uses the format module
template<class Ch, class Tr> std::basic_ostream<Ch, Tr>& operator<<(std::basic_ostream<Ch, Tr>& o, const Pt& p) {
	using V = seq::basic_tstring_view<Ch>; static const Ch semi[] = { ';', 0 };
	if (p.b & 1) o << seq::fmt(p.a, V(semi), seq::fmt(p.b).r(5)); else { o << seq::fmt(V(), p.a); o << seq::fmt(V(semi)); o << seq::fmt(V(), seq::hex(p.b)); }
	return o;
}
static std::deque<Pt> g_pts;
static const Pt& pt() { g_pts.push_back(Pt{ (long)g.below(100000) - 50000, (int)g.below(3000) }); return g_pts.back(); }
static std::string tx(const Pt& p) { char b[64]; if (p.b & 1) snprintf(b, 64, "%ld;%5d", p.a, p.b); else snprintf(b, 64, "%ld;%x", p.a, p.b); return jstr(W(b)); }
using Pr = std::pair<long, long>;
namespace seq {
	template<class T, bool S> class ostream_format<std::pair<T, T>, S> : public base_ostream_format<std::pair<T, T>, ostream_format<std::pair<T, T>, S>> { // the example of the documentation
		using base_type = base_ostream_format<std::pair<T, T>, ostream_format<std::pair<T, T>, S>>;
	public:
		ostream_format() : base_type() {}
		ostream_format(const std::pair<T, T>& v) : base_type(v) {}
		template<class String> size_t to_string(String& out) const {
			size_t prev = out.size(); out.push_back('(');
			ostream_format<T>(this->value().first, this->numeric_fmt()).append(out); out.push_back(','); out.push_back(' ');
			ostream_format<T>(this->value().second, this->numeric_fmt()).append(out); out.push_back(')');
			return out.size() - prev;
		}
	};
}
static std::deque<Pr> g_prs;
static const Pr& pr() { g_prs.push_back(Pr{ rnd<long>(), rnd<long>() }); return g_prs.back(); }
static std::string jlist(const std::vector<std::string>& v) { return "{\"k\":\"list\",\"vals\":" + list(v) + "}"; }
static std::string vals(const Pr& p) { return jlist({ jval(p.first), jval(p.second) }); }
template<class Cont> static std::string vals(const Cont& c) { std::vector<std::string> v; for (auto& x : c) v.push_back(jval(x)); return jlist(v); }
static std::string joined(const std::string& val, const std::string& pre, const std::string& sep, const std::string& post, bool num, const NF& n = NF(), const WF& e = WF()) {
	return "{\"k\":\"join\",\"val\":" + val + ",\"pre\":" + pre + ",\"sep\":" + sep + ",\"post\":" + post + ",\"num\":" + (num ? "true" : "false") + ",\"nf\":" + J(n) + ",\"ef\":" + J(e) + ",\"wf\":" + J(WF()) + "}";
}
static std::string dpair(const Pr& p) { return joined(vals(p), "[40]", "[44,32]", "[41]", true); }
template<class T> struct Pool { static std::deque<T> q; };
template<class T> std::deque<T> Pool<T>::q;
template<class Cont> static const Cont& cont() {
	Cont c; using V = typename Cont::value_type; for (size_t n = g.below(5); n; --n) if constexpr (std::is_arithmetic_v<V>) c.push_back(rnd<V>()); else { auto& w = word(6); c.push_back(V(w.data(), w.size())); }
	Pool<Cont>::q.push_back(c); return Pool<Cont>::q.back();
}

// ---------------------------------------------------------------- arguments of calls
template<class F> struct Tr;
template<class T, bool S> struct Tr<seq::ostream_format<T, S>> { using V = T; static constexpr bool multi = false; };
template<class Tuple, class Ch, bool HS, class P_, bool S> struct Tr<seq::detail::mutli_ostream_format<Tuple, Ch, HS, P_, S>> { using Tup = Tuple; using Pos = P_; static constexpr bool multi = true; };
template<class Pos, class Tup> struct PosOf;
template<class Tup> struct PosOf<void, Tup> { using type = std::make_index_sequence<std::tuple_size<Tup>::value>; };
template<size_t... I, class Tup> struct PosOf<seq::detail::Positional<I...>, Tup> { using type = std::index_sequence<I...>; };
template<class F> using Positions = typename PosOf<typename Tr<F>::Pos, typename Tr<F>::Tup>::type;

static std::string aval(const std::string& v) { return "{\"k\":\"val\",\"val\":" + v + "}"; }
static std::string adoc(const std::string& d, bool same) { return "{\"k\":\"doc\",\"same\":" + std::string(same ? "true" : "false") + ",\"d\":" + d + "}"; }
static std::string amulti(const std::vector<std::string>& a) { return "{\"k\":\"multi\",\"args\":" + list(a) + "}"; }
static const std::string anull = "{\"k\":\"null\"}";
template<class T> struct IsWrap : std::false_type {};
template<class T, bool S1, bool S2> struct IsWrap<seq::ostream_format<seq::ostream_format<T, S1>, S2>> : std::true_type {};
template<class T> struct IsJoin : std::false_type {};
template<class T, class Ch, bool S> struct IsJoin<seq::ostream_format<seq::detail::Iterable<T, Ch>, S>> : std::true_type { using Cont = T; };

// a plain value for the target format F: returns the object, appends its argument record
template<class F> static decltype(auto) plain(std::vector<std::string>& js);
template<class F, class Inner, size_t... I> static auto plain_multi(std::vector<std::string>& js, std::index_sequence<I...>) {
	// as formatting object: every element is ostream_format<value>
	std::vector<std::string> vs;
	using Tup = typename Tr<F>::Tup;
	auto t = std::tuple<decltype(plain<std::tuple_element_t<I, Tup>>(vs))...>{ plain<std::tuple_element_t<I, Tup>>(vs)... };
	std::vector<std::string> as; size_t k = 0;
	auto one = [&](auto* item, auto& v) {
		using Item = std::remove_pointer_t<decltype(item)>; using V = std::decay_t<decltype(v)>; using A = decltype(seq::fmt<V>());
		std::string d; if constexpr (std::is_arithmetic_v<V>) d = dleaf(v, NF(), WF()); else d = dleaf(View(v.data(), v.size()));
		as.push_back(adoc(d, std::is_same_v<A, Item>)); ++k;
	};
	std::apply([&](auto&... v) { (one((std::tuple_element_t<I, Tup>*)nullptr, v), ...); }, t);
	js.push_back(amulti(as));
	return std::apply([](auto&... v) { return seq::fmt(std::decay_t<decltype(v)>(v)...); }, t);
}
template<class F> static decltype(auto) plain(std::vector<std::string>& js) {
	if constexpr (Tr<F>::multi) return plain_multi<F, F>(js, Positions<F>());
	else if constexpr (IsWrap<F>::value) return plain<typename Tr<F>::V>(js);
	else {
		using V = typename Tr<F>::V;
		if constexpr (std::is_arithmetic_v<V>) { V v = rnd<V>(); js.push_back(aval(jval(v))); return v; }
		else if constexpr (std::is_same_v<V, Pt>) { auto& p = pt(); js.push_back(aval(tx(p))); return (p); }
		else if constexpr (std::is_same_v<V, Pr>) { auto& p = pr(); js.push_back(aval(vals(p))); return (p); }
		else if constexpr (IsJoin<F>::value) { auto& c = cont<typename IsJoin<F>::Cont>(); js.push_back(aval(vals(c))); return (c); }
		else { const Str& s = word(); js.push_back(aval(jstr(s))); return View(s); }
	}
}
// a random argument for the target F; cb(object, record)
template<class F, class CB> static void argument(F& f, CB cb) {
	if constexpr (Tr<F>::multi) { std::vector<std::string> js; auto a = plain<F>(js); cb(a, js[0]); }
	else {
		using V = typename Tr<F>::V;
		size_t k = g.below(10);
		if (k == 0) { cb(seq::null, anull); return; }
		if (k == 1) { char c = "*-#."[g.below(4)]; cb(seq::fill((char32_t)c), "{\"k\":\"fill\",\"c\":" + std::to_string((int)c) + "}"); return; }
		if constexpr (IsJoin<F>::value) { auto& c = cont<typename IsJoin<F>::Cont>(); cb(c, aval(vals(c))); }
		else if constexpr (IsWrap<F>::value) {
			std::vector<std::string> js;
			if (k < 4) { // a formatting object of the type of the inner one replaces the inner one
				auto v = plain<V>(js);
				if constexpr (IsWrap<V>::value) cb(v, js[0]);
				else { using X = std::decay_t<decltype(v)>; int w = 1 + (int)g.below(12); V d{ typename V::value_type(v) }; d.r(w).f('.'); WF wf{ 2, w, '.' }; cb(d, adoc(dleaf(X(v), NF(), wf), true)); }
			}
			else if (k == 4) { F c = f; cb(c, "{\"k\":\"self\"}"); }
			else { auto v = plain<V>(js); cb(v, js[0]); }
		}
		else if constexpr (std::is_same_v<V, Pt>) { auto& p = pt(); cb(p, aval(tx(p))); }
		else if constexpr (std::is_same_v<V, Pr>) { auto& p = pr(); cb(p, aval(vals(p))); }
		else if constexpr (std::is_arithmetic_v<V>) {
			V v = rnd<V>();
			if constexpr (std::is_floating_point_v<V>) {
				int w = 1 + (int)g.below(20), i = (int)g.below(7);
				if (k < 4) { auto d = seq::fmt(v, g_ff[i].t).c(w).p(g_ff[i].p).d(g_ff[i].d); NF n; n.fi = i; cb(d, adoc(dleaf(v, n, WF{ 3, w, ' ' }), std::is_same_v<decltype(d), F>)); }
				else if (k == 4) { int x = (int)g.below(1000); cb(x, aval(jval((V)x))); }
				else cb(v, aval(jval(v)));
			}
			else {
				int w = 1 + (int)g.below(20); NF n; n.base = 16; n.up = true; WF wf{ 1, w, '_' };
				if (k < 4) { auto d = seq::fmt(v).b(16).u().l(w).f('_'); cb(d, adoc(dleaf(v, n, wf), std::is_same_v<std::decay_t<decltype(d)>, F>)); }
				else if (k == 4) { using O = std::conditional_t<std::is_same_v<V, long>, int, long>; O o = (O)g.below(100); if constexpr (std::is_same_v<V, bool>) o = o & 1; auto d = seq::fmt(o).r(w).f('_'); cb(d, adoc(dleaf((V)o), false)); }
				else if (k == 5) { unsigned char o = (unsigned char)g.below(std::is_same_v<V, bool> ? 2 : 100); cb(o, aval(jval((V)o))); }
				else cb(v, aval(jval(v)));
			}
		}
		else {
			const Str& s = word(); int w = 1 + (int)g.below(12); bool nf = g.chance(1, 2);
			if (k == 2) { WF wf{ 3, w, '=' }; auto d = nf ? seq::fmt(s).c(w).f('=') : seq::fmt(View(s)).c(w).f('='); cb(d, adoc(dleaf(s, NF(), wf), std::is_same_v<std::decay_t<decltype(d)>, F>)); }
			else if (k == 3) cb(s.c_str(), aval(jstr(s)));
			else if (k == 4) cb(View(s), aval(jstr(s)));
			else if (k == 5) { static const C lt[] = { 'l', 'i', 't', 0 }; cb(lt, aval(jstr(View(lt, 3)))); }
			else if (k == 6) { TStr t(s.c_str(), s.size()); static std::deque<TStr> keep; keep.push_back(t); cb(keep.back(), aval(jstr(s))); if (keep.size() > 200) keep.pop_front(); }
			else if (k == 7) cb(std::basic_string_view<C>(s), aval(jstr(s)));
			else cb(s, aval(jstr(s)));
		}
	}
}

// ---------------------------------------------------------------- operations
static void log_call(const std::vector<int>& path, const std::vector<std::string>& args, const std::vector<int>& pos) { Ev("call").i("r", g_reg).j("p", P(path)).j("args", list(args)).j("pos", ilist(pos)).s("er", take_err()); }
static void log_one(const std::vector<int>& path, const std::string& a) { Ev("one").i("r", g_reg).j("p", P(path)).j("a", a).s("er", take_err()); }
template<size_t I, size_t At, class A> static decltype(auto) pick(const A& a) { if constexpr (I == At) return (a); else return (seq::null); }
template<class F> static void op(F& f, std::vector<int> path);
template<class F, size_t... I> static void call_all(F& f, const std::vector<int>& path, std::index_sequence<I...>) {
	std::vector<std::string> js; using Tup = typename Tr<F>::Tup;
	auto t = std::tuple<decltype(plain<std::tuple_element_t<I, Tup>>(js))...>{ plain<std::tuple_element_t<I, Tup>>(js)... };
	std::apply([&](auto&... v) { const auto& r = f(v...); if (&r != &f) fail("the call returns another object"); }, t);
	log_call(path, js, {});
}
template<size_t K, class F, size_t... I> static void call_single(F& f, const std::vector<int>& path, std::index_sequence<I...> ps) {
	constexpr size_t at = std::get<K>(std::tuple((size_t)I...)); using Item = std::tuple_element_t<at, typename Tr<F>::Tup>;
	constexpr bool leaves = !(Tr<std::tuple_element_t<I, typename Tr<F>::Tup>>::multi || ...);
	if constexpr (!Tr<Item>::multi) argument(f.template get<at>(), [&](const auto& a, const std::string& j) {
		if (j.find("\"self\"") != std::string::npos) return;
		if constexpr (leaves) if (g.chance(1, 2)) {
			f(pick<I, at>(a)...); std::vector<std::string> js; for (size_t i : { (size_t)I... }) js.push_back(i == at ? j : anull); log_call(path, js, {}); return;
		}
		f(seq::pos<at>(), a); log_call(path, { j }, { (int)at + 1 });
	});
	(void)ps;
}
template<class F, size_t... K> static void call_any(F& f, const std::vector<int>& path, std::index_sequence<K...>) { size_t k = g.below(sizeof...(K)); ((K == k ? call_single<K>(f, path, Positions<F>()) : void()), ...); }
template<class F, size_t... I> static void item(F& f, const std::vector<int>& path, std::index_sequence<I...>) {
	size_t k = g.below(sizeof...(I));
	auto one = [&](auto idx) { constexpr size_t i = decltype(idx)::value; auto p = path; p.push_back((int)i + 1);
		if (g.chance(1, 3)) { argument(f.template get<i>(), [&](const auto& a, const std::string& j) { if (j.find("\"self\"") != std::string::npos) return; if constexpr (std::is_array_v<std::remove_reference_t<decltype(a)>>) f.template set<i>(View(a)); else f.template set<i>(a); log_one(p, j); }); }
		else op(f.template get<i>(), p); };
	((I == k ? one(std::integral_constant<size_t, I>()) : void()), ...);
}
template<class F> static void op(F& f, std::vector<int> path) {
	if constexpr (Tr<F>::multi) {
		using Ps = Positions<F>;
		switch (g.below(8)) {
			case 0: set_width(f, path); break;
			case 1: { char c = g.chance(1, 2) ? '~' : 0; f.reset((char32_t)c); Ev("reset").i("r", g_reg).j("p", P(path)).i("c", c).s("er", take_err()); break; }
			case 2: case 3: if constexpr (Ps::size() > 1) call_all(f, path, Ps()); break;
			case 4: case 5: call_any(f, path, std::make_index_sequence<Ps::size()>()); break;
			default: item(f, path, std::make_index_sequence<std::tuple_size<typename Tr<F>::Tup>::value>()); break;
		}
	}
	else {
		using V = typename Tr<F>::V;
		switch (g.below(7)) {
			case 0: case 1: set_width(f, path); break;
			case 2: if constexpr (std::is_arithmetic_v<V>) set_num<V>(f, path);
				else if constexpr (std::is_same_v<V, Pr>) set_num<long>(f, path);
				else if constexpr (IsJoin<F>::value) { using E = typename IsJoin<F>::Cont::value_type; if constexpr (std::is_arithmetic_v<E>) set_num<E>(f, path); }
				else if constexpr (IsWrap<F>::value) { path.push_back(1); op(f.value(), path); }
				break;
			case 3: if (g.chance(1, 3)) { char c = g.chance(1, 2) ? '~' : 0; f.reset((char32_t)c); Ev("reset").i("r", g_reg).j("p", P(path)).i("c", c).s("er", take_err()); } break;
			default: argument(f, [&](const auto& a, const std::string& j) { const auto& r = f(a); if (j.find("\"self\"") == std::string::npos) log_one(path, j); if ((const void*)&r != (const void*)&f) fail("the call returns another object"); });
		}
	}
}

// ---------------------------------------------------------------- output
// (a single number has no character type of its own and is streamable to char streams only)
template<class F> static void put(std::basic_ostream<C>& o, const F& f) {
	if constexpr (Tr<F>::multi) o << f;
	else if constexpr (std::is_same_v<typename F::valid_char_type, C>) o << f;
	else { Str s; f.append(s); o.rdbuf()->sputn(s.data(), (std::streamsize)s.size()); }
}
template<class F> static void out(F& f) {
	const F& cf = f; Str pre = g.chance(1, 2) ? Str() : word(); std::string res, rt; bool ok = true; long tot = -1;
	auto done = [&](const char* r, const auto& s) { rt = r; res = codes(s); };
	size_t k = g.below(12);
	if (sizeof(C) > 1 && (k == 0 || k == 9 || k == 10) && cf.template str<Str>().find((C)-1) != Str::npos) k = 11; // the end of file value is no character of a stream
	switch (k) {
		case 0: { std::basic_ostringstream<C> o; put(o, cf); done("stream", o.str()); pre.clear(); break; }
		case 1: { Str s = cf; done("string", s); pre.clear(); break; }
		case 2: { Str s = cf.template str<Str>(); done("str", s); pre.clear(); break; }
		case 3: { Str s = pre; auto& q = cf.append(s); ok = &q == &s; done("append", s); break; }
		case 4: { TStr s(pre.c_str(), pre.size()); cf.append(s); ok = s.c_str()[s.size()] == 0; done("tappend", s); break; }
		case 5: { TStr s = cf; done("tiny", s); pre.clear(); break; }
		case 6: { size_t n = cf.template str<Str>().size(); C* b = new C[n ? n : 1]; C* e = f.to_chars(b); ok = e == b + n; done("chars", View(b, n)); delete[] b; pre.clear(); break; }
		case 7: { size_t n = cf.template str<Str>().size(), mx = g.chance(1, 3) ? n : g.below(n + 6); C* b = new C[mx ? mx : 1]; auto q = f.to_chars(b, mx); tot = (long)q.second; ok = q.first == b + std::min(mx, q.second); res = codes(b, b + std::min(mx, n)); rt = "max"; delete[] b; pre.clear();
			Ev("out").i("r", g_reg).s("rt", rt).i("mx", (long)mx).i("tot", tot).j("out", res).j("pre", "[]").b("ok", ok).s("er", take_err()); return; }
		case 8: { size_t n = cf.template str<Str>().size(); std::list<C> l(n, C('?')); auto e = f.to_iter(l.begin()); ok = e == l.end(); Str s(l.begin(), l.end()); done("iter", s); pre.clear(); break; }
		case 9: { std::basic_ostringstream<C> o; o.width(30); o.setf(std::ios::hex, std::ios::basefield); put(o, cf); put(o, cf); Str s = o.str(); ok = s.substr(s.size() / 2) == s.substr(0, s.size() / 2) && s.size() % 2 == 0; done("twice", s.substr(0, s.size() / 2)); pre.clear(); break; }
		case 10: if (g.chance(1, 8)) {
			Str s0, s1; bool o1 = true, o2 = true; auto run = [](F c, Str* r, bool* k) { *r = c.template str<Str>(); for (int i = 0; i < 30; ++i) { std::basic_ostringstream<C> o; put(o, c); if (o.str() != *r) *k = false; } };
			std::thread a(run, f, &s0, &o1), b(run, f, &s1, &o2); a.join(); b.join(); ok = o1 && o2 && s0 == s1; done("threads", s0); pre.clear(); break; }
			// fall through
		default: { F c = *cf; Str s = c.template str<Str>(); done("copy", s); pre.clear(); break; }
	}
	Ev("out").i("r", g_reg).s("rt", rt).i("mx", -1).i("tot", tot).j("out", res).j("pre", codes(pre)).b("ok", ok).s("er", take_err());
}
template<class F> static void run(F f, const std::string& doc) {
	Ev("make").j("doc", doc).s("er", take_err());
	F h(f);
	for (int i = 0; i < 16; ++i) {
		g_reg = g.chance(2, 3) ? 0 : 1; F& x = g_reg ? h : f;
		if (i && g.chance(1, 2)) op(x, {});
		else if (g.chance(1, 10)) { F& y = g_reg ? f : h; x = y; Ev("copy").i("r", g_reg).s("er", take_err()); }
		else out(x);
	}
}
static std::vector<int> allpos(int n) { std::vector<int> r; for (int i = 1; i <= n; ++i) r.push_back(i); return r; }
static std::string dl(const View& v) { return dleaf(v); }
template<class T> static void one_int() {
	T v = rnd<T>(); NF n;
	switch (g.below(8)) {
		case 0: run(seq::fmt<T>(), dleaf(T())); break;
		case 1: n.base = 16; run(seq::hex(v), dleaf(v, n)); break;
		case 2: n.base = 8; run(g.chance(1, 2) ? seq::oct(v) : seq::o(v), dleaf(v, n)); break;
		case 3: n.base = 2; run(seq::bin(v), dleaf(v, n)); break;
		case 4: n.base = 16; n.up = true; run(seq::X(v), dleaf(v, n)); break;
		case 5: n.ch = true; run(seq::ch(v), dleaf(v, n)); break;
		case 6: { int w = 1 + (int)g.below(20); run(seq::fmt(v).r(w).f('0'), dleaf(v, n, WF{ 2, w, '0' })); break; }
		default: run(g.chance(1, 2) ? seq::fmt(v) : seq::dec(v), dleaf(v, n)); break;
	}
}
template<class T> static void one_flt() {
	T v = rnd<T>(); NF n;
	switch (g.below(5)) {
		case 0: run(seq::fmt<T>(), dleaf(T())); break;
		case 1: n.fi = 1; run(seq::e(v), dleaf(v, n)); break;
		case 2: run(seq::g(v), dleaf(v, n)); break;
		case 3: n.fi = 3; run(seq::f(v).p(2), dleaf(v, n)); break;
		default: run(seq::fmt(v), dleaf(v, n)); break;
	}
}
template<class Cont> static void one_join() {
	auto& c = cont<Cont>(); View sep = lit(); using V = typename Cont::value_type; constexpr bool num = std::is_arithmetic_v<V>;
	int w = 1 + (int)g.below(10); WF e{ 3, w, '.' };
	NF n; // a join without element format keeps the numeric format of its own
	switch (g.below(3)) {
		case 0: run(seq::join(sep, c), joined(vals(c), "[]", codes(sep), "[]", num, n)); break;
		case 1: if constexpr (num) { run(seq::join(sep, c, seq::fmt<V>().c(w).f('.')), joined(vals(c), "[]", codes(sep), "[]", num, n, e)); break; } // else fall through
		default: { View l = lit(); long v = rnd<long>(); run(seq::fmt(l, seq::join(sep, c), seq::fmt(v)), multi({ dl(l), joined(vals(c), "[]", codes(sep), "[]", num, n), dleaf(v) }, allpos(3))); }
	}
}
// ---------------------------------------------------------------- splitting
static Str text() { std::string s; for (size_t n = g.below(g.chance(1, 4) ? 30 : 9); n; --n) s.push_back(",,;ab  \tX"[g.below(9)]); return W(s); }
template<class M> static void split_by(const Str& t, const M& m, const std::string& mj) {
	auto log = [&](auto skip, const char* sk) {
		std::vector<std::string> r; auto rg = seq::split(t, m, skip); auto e = rg.end();
		for (auto it = rg.begin(); it != e; ++it) { r.push_back(codes(*it)); if (g.chance(1, 3)) { auto c = it; if (codes(*c) != r.back()) fail("copy of the iterator"); } if (r.size() > 100) { fail("endless"); break; } }
		Ev("split").j("t", codes(t)).j("m", mj).s("skip", sk).j("out", list(r)).s("er", take_err());
	};
	switch (g.below(4)) { case 0: log(seq::no_skip(), "none"); break; case 1: log(seq::skip_empty(), "empty"); break; case 2: log(seq::skip_whitespace(), "white"); break; default: log(seq::skip_space(), "space"); }
}
static void splits() {
	for (int i = 0; i < 12; ++i) {
		Str t = text(); Str m; for (size_t n = g.chance(1, 6) ? 0 : 1 + g.below(g.chance(1, 2) ? 1 : 3); n; --n) m.push_back((C)",;a X"[g.below(5)]);
		auto mj = [&](const char* k) { return std::string("{\"k\":\"") + k + "\",\"s\":" + codes(m) + "}"; };
		switch (g.below(6)) {
			case 0: split_by(t, seq::by_string(m), mj("string")); break;
			case 1: if (m.empty()) m.push_back(','); m.resize(1); split_by(t, seq::by_char(m[0]), mj("char")); break;
			case 2: split_by(t, seq::by_any_char(m), mj("any")); break;
			case 3: split_by(t, seq::by_not_any_char(m), mj("notany")); break;
			case 4: split_by(t, seq::by_word(), mj("word")); break;
			default: { if (m.empty()) break; Str n = g.chance(1, 3) ? Str() : word(3); Str r = seq::replace<Str>(t, m, n); Ev("replace").j("t", codes(t)).j("m", codes(m)).j("by", codes(n)).j("out", codes(r)).s("er", take_err()); }
		}
	}
}
static void session(long idx, const std::string& mode) {
	ledger_reset(); g_strs.clear(); g_pts.clear(); g_prs.clear();
	Session S(mode + "/" + std::to_string(idx), kv("type", NAME));
	View a = lit(), b = lit(); const Str &s = word(), &t = word();
	switch (idx % 25) {
		case 0: one_int<int>(); break;
		case 1: one_int<unsigned long long>(); break;
		case 2: one_int<long long>(); break;
		case 3: if (g.chance(1, 2)) one_int<short>(); else one_int<unsigned char>(); break;
		case 4: if (g.chance(1, 2)) { bool v = rnd<bool>(); run(seq::fmt(v), dleaf(v)); } else { C v = rnd<C>(); run(seq::fmt(v), dleaf(v)); } break;
		case 5: if (g.chance(1, 2)) run(seq::fmt(s), dleaf(s)); else { int w = 1 + (int)g.below(20); run(seq::str<C>().c(w).f('*'), dleaf(View(), NF(), WF{ 3, w, '*' })); } break;
		case 6: one_flt<double>(); break;
		case 7: one_flt<float>(); break;
		case 8: { int v = rnd<int>(); NF n; n.base = 16; n.px = true; run(seq::fmt(seq::fmt(v).b(16).h()), wrap(dleaf(v, n))); break; }
		case 9: { int w = 1 + (int)g.below(20), x = 1 + (int)g.below(30); run(seq::fmt(seq::fmt(seq::fmt(s)).c(w).f('*')).r(x), wrap(wrap(dleaf(s), WF{ 3, w, '*' }), WF{ 2, x, ' ' })); break; }
		case 10: { int v = rnd<int>(); unsigned h = rnd<unsigned>(); NF n; n.base = 16; run(seq::fmt(v, a, s, seq::hex(h)), multi({ dleaf(v), dl(a), dleaf(s), dleaf(h, n) }, allpos(4))); break; }
		case 11: { int v = rnd<int>(); double d = rnd<double>(); run(seq::fmt(seq::pos<4, 0, 2>(), v, a, s, b, d), multi({ dleaf(v), dl(a), dleaf(s), dl(b), dleaf(d) }, { 5, 1, 3 })); break; }
		case 12: { int w = 1 + (int)g.below(16); NF n; n.base = 16; run(seq::fmt(seq::_d<int>(), a, seq::_str<C>().c(w), b, seq::_hex<unsigned>()), multi({ dleaf(0), dl(a), dleaf(View(), NF(), WF{ 3, w, ' ' }), dl(b), dleaf(0u, n) }, { 1, 3, 5 })); break; }
		case 13: { int w = 1 + (int)g.below(24); std::string in = multi({ dleaf(View()), dl(b), dleaf(View()) }, { 1, 3 }); in.replace(in.rfind("\"wf\":"), std::string::npos, "\"wf\":" + J(WF{ 3, w, ' ' }) + "}");
			auto nest = [&] { return seq::fmt(seq::pos<0, 2>(), View(), b, View()).c(w); };
			run(seq::fmt(seq::pos<1, 3>(), a, nest(), s, nest()), multi({ dl(a), in, dleaf(s), in }, { 2, 4 })); break; }
		case 14: { std::string in = multi({ dleaf(View()), dl(b), dleaf(0L) }, { 1, 3 }); run(seq::fmt(a, seq::_fmt(seq::_str<C>(), b, seq::_d<long>()), s, seq::_d<int>()), multi({ dl(a), in, dleaf(s), dleaf(0) }, { 2, 4 })); break; }
		case 15: { int v = rnd<int>(); double d = rnd<double>(); run(seq::join(a, v, s, d), multi({ dleaf(v), dleaf(s), dleaf(d) }, allpos(3), codes(a))); break; }
		case 16: one_join<std::vector<int>>(); break;
		case 17: if (g.chance(1, 2)) one_join<std::list<unsigned>>(); else one_join<std::vector<Str>>(); break;
		case 18: { auto& p = pt(); run(seq::fmt(p), leaf(tx(p), tx(p), false, true)); break; }
		case 19: { auto& p = pt(); int v = rnd<int>(); run(seq::fmt(a, p, v), multi({ dl(a), leaf(tx(p), tx(p), false, true), dleaf(v) }, allpos(3))); break; }
		case 20: { auto& p = pr(); if (g.chance(1, 2)) run(seq::fmt(p), dpair(p)); else run(seq::fmt(s, p), multi({ dleaf(s), dpair(p) }, allpos(2))); break; }
		case 21: { int v = rnd<int>(); std::string in = multi({ dleaf(s), dleaf(v) }, allpos(2)); run(seq::fmt(seq::fmt(s, v), a, seq::join(b, v, s)), multi({ in, dl(a), multi({ dleaf(v), dleaf(s) }, allpos(2), codes(b)) }, allpos(3))); break; }
		case 22: run(seq::fmt(s, t), multi({ dleaf(s), dleaf(t) }, allpos(2))); break;
		case 23: splits(); break;
		default: {
#if INST == 0
			int n = 1 + (int)g.below(9); run(seq::fmt(seq::rep('#', n), s), multi({ dleaf(View(), NF(), WF{ 1, n, '#' }), dleaf(s) }, allpos(2)));
#else
			one_int<long>();
#endif
		}
	}
}
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { g = Rng(seed * 1000003 + (uint64_t)i * 101 + INST); session(i, argv[4]); }
	flush();
	return 0;
}
