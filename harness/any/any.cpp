// Driver for hold_any.   usage: any OUT SEED N MODE     MODE: plain inject
#include "../common.hpp"
inline void* vt_any_malloc(size_t n);
inline void vt_any_free(void* p);
#define SEQ_ANY_MALLOC vt_any_malloc
#define SEQ_ANY_FREE vt_any_free
#include <seq/any.hpp>
#include <seq/ordered_map.hpp>
#include <seq/flat_map.hpp>
#include <optional>
#include <set>
#include <sstream>
#include <tuple>
using namespace vt;
#ifndef INST
#define INST 0
#endif
#if INST == 0
using Any = seq::any;
#define NAME "any"
#elif INST == 1
using Any = seq::r_any;
#define NAME "r_any"
#elif INST == 2
using Any = seq::nh_any;
#define NAME "nh_any"
#elif INST == 3
using Any = seq::r_nh_any;
#define NAME "r_nh_any"
#elif INST == 4
using Any = seq::hold_any<seq::any_default_interface, 32, 8>;
#define NAME "hold_any<32,8>"
#elif INST == 5
using Any = seq::hold_any<seq::any_default_interface, 32, 8, true>;
#define NAME "hold_any<32,8,true>"
#elif INST == 6
using Any = seq::hold_any<seq::any_default_interface, 16, 8>;
#define NAME "hold_any<16,8>"
#elif INST == 7
using Any = seq::hold_any<seq::any_default_interface, 112, 16>;
#define NAME "hold_any<112,16>"
#endif
constexpr bool HASH = INST != 2 && INST != 3;

static long g_any_blocks = 0;
static std::unordered_set<void*> g_any_addr;
inline void* vt_any_malloc(size_t n) {
	if (g_throw_alloc > 0 && --g_throw_alloc == 0) { g_fired = true; throw std::bad_alloc(); }
	void* p = ::operator new(n); memset(p, 0xCD, n); ++g_any_blocks; g_any_addr.insert(p); return p;
}
inline void vt_any_free(void* p) { if (!g_any_addr.erase(p)) { fail("release of a block that is not allocated"); return; } --g_any_blocks; ::operator delete(p); }

// ---------------------------------------------------------------- held types
// 8 bytes, not relocatable
struct Snr {
	int v; int pad = 7;
	static void born(const Snr* p) { ++g_live; if (!g_addr.insert(p).second) fail("constructed over a live object"); }
	void chk(const char* e) const { if (!g_addr.count(this)) fail(e); }
	Snr(int x = 0) : v(x) { may_throw(); born(this); }
	Snr(const Snr& o) : v(o.v) { o.chk("copy from a dead object"); may_throw(); born(this); }
	Snr(Snr&& o) noexcept : v(o.v) { o.chk("move from a dead object"); o.v = -1; born(this); }
	Snr& operator=(const Snr& o) { chk("assign to a dead object"); o.chk("assign from a dead object"); may_throw(); v = o.v; return *this; }
	Snr& operator=(Snr&& o) noexcept { chk("assign to a dead object"); o.chk("assign from a dead object"); int x = o.v; if (&o != this) o.v = -1; v = x; return *this; }
	~Snr() { if (!g_addr.erase(this)) fail("destroyed a dead object"); --g_live; }
	bool operator==(const Snr& o) const { chk("read"); o.chk("read"); return v == o.v; }
	bool operator<(const Snr& o) const { chk("read"); o.chk("read"); return v < o.v; }
};
struct NoCmp { int v; char pad[20]; NoCmp(int x = 0) : v(x) {} };
struct Fix { const int v; explicit Fix(int x = 0) : v(x) { may_throw(); ++g_live; } Fix(const Fix& o) : v(o.v) { may_throw(); ++g_live; } Fix(Fix&& o) noexcept : v(o.v) { ++g_live; } ~Fix() { --g_live; } bool operator==(const Fix& o) const { return v == o.v; } bool operator<(const Fix& o) const { return v < o.v; } char pad[30]; }; // copyable, not assignable
struct Pr { int a, b; bool operator==(const Pr& o) const { return a == o.a && b == o.b; } bool operator<(const Pr& o) const { return a != o.a ? a < o.a : b < o.b; } explicit operator long() const { return 10 * a + b; } };
using UP = std::unique_ptr<Rel>;
struct H { template<class T> size_t operator()(const T& v) const { return (size_t)v.v * 0x9E3779B97F4A7C15ull; } };
namespace std {
template<> struct hash<Snr> : H {}; template<> struct hash<NoCmp> : H {}; template<> struct hash<Fix> : H {};
template<bool N> struct hash<ObjT<N>> { size_t operator()(const ObjT<N>& v) const { return (size_t)v.v * 0x9E3779B97F4A7C15ull; } };
template<int P> struct hash<RelT<P>> { size_t operator()(const RelT<P>& v) const { return (size_t)v.v * 0x9E3779B97F4A7C15ull; } };
template<> struct hash<Pr> { size_t operator()(const Pr& v) const { return (size_t)(v.a * 100 + v.b) * 0x9E3779B97F4A7C15ull; } };
}
namespace seq {
template<int P> struct is_relocatable<RelT<P>> : std::true_type {};
template<> struct is_hashable<NoCmp> : std::false_type {};
template<> struct is_hashable<std::vector<Any>> : std::false_type {};
}
using L = std::vector<long>;
using seq::tstring; using seq::tstring_view;
static const long double NUM[] = { -9223372036854775807.L - 1, -2147483649.L, -2147483648.L, -32769, -32768, -129, -128, -2.5L, -1, 0, 0.5L, 1, 2, 2.5L, 65, 97, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647.L, 2147483648.L, 4294967295.L, 4294967296.L, 9007199254740993.L, 9223372036854775807.L, 9223372036854775808.L, 18446744073709551615.L, 18446744073709551616.L };
constexpr int NN = sizeof(NUM) / sizeof(NUM[0]);
inline int rank_of(long double v) { for (int i = 0; i < NN; ++i) if (NUM[i] == v) return i + 1; return 0; }
template<class T> bool fits(long double v) {
	if constexpr (std::is_same_v<T, bool>) return v == 0 || v == 1;
	else if constexpr (std::is_integral_v<T>) return v == __builtin_truncl(v) && v >= (long double)std::numeric_limits<T>::min() && v <= (long double)std::numeric_limits<T>::max();
	else return (long double)(T)v == v;
}
template<class T> long held(const T& v) { if constexpr (std::is_same_v<T, UP>) return v ? 1 : 0; else return std::is_same_v<T, Snr> || std::is_same_v<T, ObjTh> || std::is_same_v<T, Rel> || std::is_same_v<T, RelBig> || std::is_same_v<T, Fix>; }
inline const char* g_noted = "";
inline void bad(const char* w) { g_noted = w; }
template<class T> L pay(const T& v) {
	if constexpr (std::is_arithmetic_v<T>) return L{ rank_of((long double)v) };
	else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) { L r; for (const char* p = v; *p; ++p) r.push_back((unsigned char)*p); return r; }
	else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, tstring> || std::is_same_v<T, tstring_view> || std::is_same_v<T, std::string_view>) { L r; for (char c : v) r.push_back((unsigned char)c); return r; }
	else if constexpr (std::is_same_v<T, UP>) return L{ v ? v->get() : -1 };
	else if constexpr (std::is_same_v<T, Pr>) return L{ v.a, v.b };
	else if constexpr (std::is_same_v<T, int*>) return L{ v ? *v : -1 };
	else return L{ v.v };
}
template<class T> struct Nm;
#define TY(T, n) template<> struct Nm<T> { static constexpr const char* name = n; };
TY(char, "char") TY(signed char, "schar") TY(short, "short") TY(int, "int") TY(long, "long") TY(long long, "llong") TY(wchar_t, "wchar") TY(unsigned char, "uchar") TY(char16_t, "char16") TY(char32_t, "char32") TY(unsigned short, "ushort") TY(unsigned, "uint") TY(unsigned long, "ulong") TY(unsigned long long, "ullong") TY(bool, "bool") TY(float, "float") TY(double, "double") TY(long double, "ldouble")
TY(std::string, "string") TY(tstring, "tstring") TY(tstring_view, "tview") TY(const char*, "ccp") TY(char*, "cp") TY(std::string_view, "sview")
TY(Snr, "Snr") TY(ObjTh, "ObjTh") TY(Rel, "Rel") TY(RelBig, "RelBig") TY(UP, "UP") TY(NoCmp, "NoCmp") TY(Fix, "Fix") TY(Pr, "Pr") TY(int*, "intp")
using All = std::tuple<char, signed char, short, int, long, long long, wchar_t, unsigned char, char16_t, char32_t, unsigned short, unsigned, unsigned long, unsigned long long, bool, float, double, long double, std::string, tstring, tstring_view, const char*, char*, std::string_view, Snr, ObjTh, Rel, RelBig, UP, NoCmp, Fix, Pr, int*>;
constexpr size_t NT = std::tuple_size_v<All>;
template<class F, size_t... I> void eachImpl(F&& f, std::index_sequence<I...>) { (f((std::tuple_element_t<I, All>*)nullptr), ...); }
template<class F> void each(F&& f) { eachImpl(f, std::make_index_sequence<NT>()); }
template<class F> void nth(size_t n, F&& f) { size_t i = 0; each([&](auto* t) { if (i++ == n) f(t); }); }
template<class T> constexpr bool isStr = std::is_same_v<T, std::string> || std::is_same_v<T, tstring> || std::is_same_v<T, tstring_view> || std::is_same_v<T, const char*> || std::is_same_v<T, char*> || std::is_same_v<T, std::string_view>;
template<class T> constexpr bool isCP = std::is_same_v<T, const char*> || std::is_same_v<T, char*>;
template<class T> constexpr bool isView = isCP<T> || std::is_same_v<T, tstring_view> || std::is_same_v<T, std::string_view>;

static std::vector<std::string>& pool() { static std::vector<std::string> p{ "", "a", "ab", "abc", "b", "hello", "a text that does not fit in the small buffer", "a text that does not fit in the small buffer!", "zz", "\x80\xff", "65", "2.5", "-129", "256", "4294967296", "9223372036854775808", "0.5", "-2.5", std::string("a\0b", 3), std::string("a\0", 2) }; return p; }
static int g_ints[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
inline std::string js(const L& l) { std::string r = "["; for (size_t i = 0; i < l.size(); ++i) r += (i ? "," : "") + std::to_string(l[i]); return r + "]"; }
inline std::string jv(const char* t, const L& p) { return std::string("[\"") + t + "\"," + js(p) + "]"; }
template<class F> std::string run(F&& f) {
	try { f(); return "none"; }
	catch (const Injected&) { return "inj"; } catch (const std::bad_alloc&) { return "bad_alloc"; } catch (const std::bad_cast&) { return "bad_cast"; }
	catch (const std::bad_function_call&) { return "bad_call"; } catch (...) { return "other"; }
}
template<class F> long tri(F&& f) { try { return f() ? 1 : 0; } catch (const std::bad_function_call&) { return 2; } catch (...) { return 3; } }
template<class F> long hsh(F&& f) { try { return (long)(f() & 0x3fffffff); } catch (const std::bad_function_call&) { return -2; } catch (...) { return -3; } }

struct Runner {
	Rng g; bool inject; alignas(64) unsigned char mem[3][sizeof(Any)]; bool up[3] = {}; size_t fam = 0;
	Runner(uint64_t s, const std::string& m) : g(s), inject(m == "inject") {}
	Any& at(int i) { return *reinterpret_cast<Any*>(mem[i]); }
	void arm() { g_fired = false; if (!inject || g.chance(1, 4)) return; if (g.chance(1, 2)) g_throw_elem = 1 + (long)g.below(3); else g_throw_alloc = 1; }
	template<class T> T make() {
		if constexpr (std::is_arithmetic_v<T>) { for (;;) { long double v = NUM[g.below(NN)]; if (fits<T>(v)) return (std::is_floating_point_v<T> && v == 0 && g.chance(1, 2)) ? (T)-0.0L : (T)v; } }
		else if constexpr (isStr<T>) { for (;;) { std::string& s = g.pick(pool()); if constexpr (isCP<T>) { if (s.find('\0') != s.npos) continue; return (T)s.c_str(); } else return T(s.data(), s.size()); } }
		else if constexpr (std::is_same_v<T, UP>) { return UP(new Rel(1 + (int)g.below(5))); }
		else if constexpr (std::is_same_v<T, Pr>) return Pr{ (int)g.below(3), (int)g.below(3) };
		else if constexpr (std::is_same_v<T, int*>) return &g_ints[g.below(8)];
		else return T((int)(1 + g.below(5)));
	}
	size_t pickType() { switch (fam) { case 1: return g.below(18); case 2: return 18 + g.below(6); case 3: return 24 + g.below(9); default: return g.below(NT); } }
	// f(value)
	template<class F> void withValue(F&& f) { nth(pickType(), [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; T v = make<T>(); f(v); }); }
	std::string see(Any& a) {
		const char* n = ""; L p; int found = 0; const Any& ca = a;
		each([&](auto* t) { using T = std::remove_pointer_t<decltype(t)>;
			bool same = a.type() == Any::template get_type<T>();
			if ((seq::any_cast<T>(&a) != nullptr) != same || (seq::any_cast<T>(&ca) != nullptr) != same) bad("any_cast to a pointer");
			if (same) { ++found; n = Nm<T>::name; p = pay(*static_cast<T*>(a.data())); if (ca.data() != a.data() || a.type_id() != seq::get_type_id<T>() || a.sizeof_type() != sizeof(T)) bad("type id or size"); if constexpr (!isStr<T>) if ((uintptr_t)a.data() % std::min(alignof(T), alignof(Any))) bad("alignment"); } });
		if (a.empty() != (found == 0) || a.has_value() == a.empty() || (bool)a == a.empty() || (a.empty() && (a.type() || a.type_id() || a.sizeof_type()))) bad("emptiness");
		if (found > 1) bad("two types");
		return jv(n, p);
	}
	void finish(Ev& e, const std::string& x) {
		disarm(); e.s("x", x).b("fired", g_fired); std::string s = "[" + see(at(0)) + "," + see(at(1)) + "," + see(at(2)) + "]";
		e.j("st", s).i("live", g_live).i("bk", g_any_blocks).s("er", take_err()).s("nt", g_noted); g_noted = ""; g_fired = false;
	}
	void renew(int k) { at(k).~Any(); up[k] = false; }
	template<class F> std::string ctor(int k, F&& f) { renew(k); std::string x = run([&] { f((void*)mem[k]); }); disarm(); if (x != "none") new (mem[k]) Any(); up[k] = true; return x; }
	void change() {
		int k = (int)g.below(3), j = (k + 1 + (int)g.below(2)) % 3; Any &a = at(k), &b = at(j); std::string x;
		switch (g.below(14)) {
			case 0: case 1: case 2: case 3: case 4:
				withValue([&](auto& v) { using T = std::decay_t<decltype(v)>; int how = (int)g.below(6); bool mv = !std::is_copy_constructible_v<T> || g.chance(1, 2);
					// assigning to an object that holds the same type needs an assignable type
					constexpr bool asg = std::is_move_assignable_v<T>; if (!asg && how != 0) how = 5;
					Ev e("value"); e.i("k", k + 1).i("how", how).j("v", jv(Nm<T>::name, pay(v)));
					if (how == 0) { arm(); x = ctor(k, [&](void* m) { if constexpr (std::is_copy_constructible_v<T>) if (!mv) { new (m) Any(static_cast<const T&>(v)); return; } new (m) Any(std::move(v)); }); }
					else if (how == 5) { arm(); x = run([&] { if (g.chance(1, 2)) { if constexpr (std::is_copy_constructible_v<T>) { Any t(static_cast<const T&>(v)); a = std::move(t); return; } } Any t(std::move(v)); if (g.chance(1, 2)) a.swap(t); else { using std::swap; swap(a, t); } }); }
					else if constexpr (asg) {
						arm();
						if (how == 1 || how == 2) x = run([&] { if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) if (!mv) { a = static_cast<const T&>(v); return; } a = std::move(v); });
						else if (how == 3) x = run([&] { T* r = nullptr; if constexpr (std::is_copy_constructible_v<T>) { if (!mv) r = &a.template emplace<T>(static_cast<const T&>(v)); } if (!r) r = &a.template emplace<T>(std::move(v)); if (r != a.data()) bad("emplace result"); });
						else x = ctor(k, [&](void* m) { new (m) Any(seq::make_any<Any, T>(std::move(v))); });
					}
					e.i("ex", held(v)); finish(e, x); });
				break;
			case 5: { Ev e("copy"); e.i("k", k + 1).i("j", j + 1); bool c = g.chance(1, 2); e.b("c", c); arm();
				if (c) x = ctor(k, [&](void* m) { new (m) Any(static_cast<const Any&>(b)); }); else x = run([&] { a = static_cast<const Any&>(b); });
				finish(e, x); break; }
			case 6: { Ev e("copy"); e.i("k", k + 1).i("j", j + 1).b("c", false); arm(); x = run([&] { a = static_cast<const Any&>(b); }); finish(e, x); break; }
			case 7: { Ev e("move"); e.i("k", k + 1).i("j", j + 1); bool c = g.chance(1, 2); e.b("c", c); if (!Any::relocatable) arm();
				if (c) x = ctor(k, [&](void* m) { new (m) Any(std::move(b)); }); else x = run([&] { a = std::move(b); });
				finish(e, x); break; }
			case 8: { Ev e("swap"); e.i("k", k + 1).i("j", j + 1); int how = (int)g.below(3); arm(); x = run([&] { if (how == 0) a.swap(b); else if (how == 1) { using std::swap; swap(a, b); } else std::swap(a, b); }); finish(e, x); break; }
			case 9: { Ev e("reset"); e.i("k", k + 1); if (g.chance(1, 2)) a.reset(); else a = Any(); finish(e, "none"); break; }
			case 10: { bool cp = g.chance(2, 3); Ev e(cp ? "self" : "selfmove"); e.i("k", k + 1); Any& r = a; x = run([&] { if (cp) a = static_cast<const Any&>(r); else if (g.chance(1, 2)) a = std::move(r); else a.swap(r); }); finish(e, x); break; }
			case 11: { // a part of the value it holds
				Ev e("value"); e.i("k", k + 1).i("how", 9);
				if (auto* p = seq::any_cast<Pr>(&a)) { e.j("v", jv("int", L{ rank_of(p->a) })); arm(); x = run([&] { a = p->a; }); }
				else if (auto* s = seq::any_cast<std::string>(&a)) { if (s->empty()) { e.j("v", jv("string", L{})); x = run([&] { a = *s; }); } else if (g.chance(1, 2)) { *s = "A" + s->substr(1); e.j("v", jv("char", L{ 15 })); arm(); x = run([&] { a = (*s)[0]; }); } else { e.j("v", jv("tstring", pay(*s))); arm(); x = run([&] { a.template emplace<tstring>(*s); }); } }
				else if (auto* o = seq::any_cast<ObjTh>(&a)) { e.j("v", jv("ObjTh", pay(*o))); arm(); x = run([&] { a = *o; }); }
				else { e.j("v", jv("int", L{ 12 })); x = run([&] { a = 1; }); }
				finish(e, x); break; }
			default: { // modify in place through a reference, or read from a stream
				Ev e("value"); e.i("k", k + 1).i("how", 10);
				if (a.type() == Any::template get_type<int>()) { e.j("v", jv("int", L{ 15 })); x = run([&] { switch (g.below(4)) { case 0: a.template cast<int&>() = 65; break; case 1: seq::any_cast<int&>(a) = 65; break; case 2: *seq::any_cast<int>(&a) = 65; break; default: std::istringstream is("65"); is >> a; } }); }
				else if (a.type() == Any::template get_type<std::string>()) { e.j("v", jv("string", L{ 98 })); x = run([&] { if (g.chance(1, 2)) a.template cast<std::string&>() = "b"; else { std::istringstream is("b"); is >> a; } }); }
				else { e.j("v", jv("ldouble", L{ 11 })); x = run([&] { a = 0.5L; }); }
				finish(e, x); }
		}
	}
	long rel(Any& a, Any& b, int op) { const Any &x = a, &y = b; return tri([&] { switch (op) { case 0: return x == y; case 1: return x != y; case 2: return x < y; case 3: return x > y; case 4: return x <= y; default: return x >= y; } }); }
	template<class T> void castTo(Any& a, Ev& e, std::string& x, std::string& out) {
		out = "[]";
		if constexpr (std::is_copy_constructible_v<T>) {
			const Any& ca = a;
			switch (g.below(4)) {
				case 0: x = run([&] { T r = a.template cast<T>(); out = js(pay(r)); }); break;
				case 1: x = run([&] { T r = ca.template cast<T>(); out = js(pay(r)); }); break;
				case 2: x = run([&] { T r = seq::any_cast<T>(a); out = js(pay(r)); }); break;
				default: x = run([&] { T r = seq::any_cast<T>(ca); out = js(pay(r)); }); }
		} else x = run([&] { T& r = a.template cast<T&>(); out = js(pay(r)); if ((void*)&r != a.data()) bad("reference"); });
	}
	void query() {
		int k = (int)g.below(3), j = (int)g.below(3); Any &a = at(k), &b = at(j); const Any& ca = a; std::string x = "none", out = "[]";
		switch (g.below(9)) {
			case 0: case 1: { // cast to another type
				long double v = 0; bool num = false, neg0 = false, flt = false, nul = false; std::string str; bool iss = false;
				each([&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; if (a.type() == Any::template get_type<T>()) { T& r = *static_cast<T*>(a.data()); if constexpr (std::is_arithmetic_v<T>) { num = true; v = (long double)r; neg0 = v == 0 && __builtin_signbitl(v); flt = std::is_floating_point_v<T>; } if constexpr (isStr<T>) { iss = true; if constexpr (isCP<T>) str = r; else str.assign(r.data(), r.size()); nul = str.find('\0') != str.npos; } } });
				nth(g.below(NT), [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>;
					bool same = a.type() == Any::template get_type<T>(); bool skip = false;
					if (!same) {
						if constexpr (std::is_arithmetic_v<T>) {
							if (num) skip = std::is_same_v<T, bool> ? false : std::is_integral_v<T> ? !fits<T>(__builtin_truncl(v)) : !fits<T>(v);
							else if (iss) { char* end; long double w = strtold(str.c_str(), &end); skip = sizeof(T) == 1 || std::is_same_v<T, wchar_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t> || (std::is_floating_point_v<T> && *end == 0 && !str.empty() && !fits<T>(w)) || nul; }
						}
						if constexpr (isStr<T>) skip = num ? neg0 : (nul && isCP<T>);
						if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, tstring>) skip = skip || (flt && !(v == 0.5L || v == 2.5L || v == -2.5L || (v == __builtin_truncl(v) && v > -1000 && v < 1000)));
					}
					if (skip) return;
					Ev e("cast"); e.i("k", k + 1).s("to", Nm<T>::name);
					if (g.chance(1, 4)) { x = run([&] { T& r = a.template cast<T&>(); out = js(pay(r)); if ((void*)&r != a.data()) bad("reference"); }); e.b("ref", true); }
					else if (g.chance(1, 4)) { x = run([&] { const T& r = ca.template cast<const T&>(); out = js(pay(r)); if ((const void*)&r != a.data()) bad("reference"); }); e.b("ref", true); }
					else { castTo<T>(a, e, x, out); e.b("ref", !std::is_copy_constructible_v<T>); }
					e.j("out", out); finish(e, x); });
				break; }
			case 2: { // void pointer, text
				if (g.chance(1, 2)) { Ev e("voidp"); e.i("k", k + 1); bool ok = true; x = run([&] { const void* r = g.chance(1, 2) ? a.template cast<void*>() : ca.template cast<const void*>(); void* w; memcpy(&w, a.data(), sizeof w); ok = r == w; }); e.b("ok", ok); finish(e, x); }
				else { std::ostringstream os; Ev e("print"); e.i("k", k + 1); x = run([&] { os << ca; }); L o; for (char c : os.str()) o.push_back((unsigned char)c); e.j("out", js(o)); finish(e, x); }
				break; }
			case 3: case 4: { Ev e("pair"); e.i("k", k + 1).i("j", j + 1); L r; for (int i = 0; i < 6; ++i) r.push_back(rel(a, b, i));
				e.l("r", r).l("h", L{ hsh([&] { return a.hash(); }), hsh([&] { return std::hash<Any>{}(b); }), hsh([&] { return seq::hasher<Any>{}(a); }) }); finish(e, x); break; }
			case 5: withValue([&](auto& v) { using T = std::decay_t<decltype(v)>; const T& w = v; Ev e("vpair"); e.i("k", k + 1).j("v", jv(Nm<T>::name, pay(v)));
				e.l("r", L{ tri([&] { return ca == w; }), tri([&] { return ca != w; }), tri([&] { return ca < w; }), tri([&] { return ca > w; }), tri([&] { return ca <= w; }), tri([&] { return ca >= w; }) });
				e.l("q", L{ tri([&] { return w == ca; }), tri([&] { return w != ca; }), tri([&] { return w < ca; }), tri([&] { return w > ca; }), tri([&] { return w <= ca; }), tri([&] { return w >= ca; }) });
				if (g.chance(1, 8)) { // an array of characters
					e.l("lit", L{ tri([&] { return ca == "abc"; }), tri([&] { return ca != "abc"; }), tri([&] { return ca < "abc"; }), tri([&] { return ca > "abc"; }), tri([&] { return "abc" == ca; }), tri([&] { return "abc" < ca; }) }); e.l("hl", L{ hsh([&] { return std::hash<Any>{}("abc"); }), hsh([&] { return seq::hasher<Any>{}("abc"); }), hsh([&] { return a.hash(); }) }); }
				e.l("h", L{ hsh([&] { return a.hash(); }), hsh([&] { return std::hash<Any>{}(w); }), hsh([&] { return seq::hasher<Any>{}(w); }) }); e.i("ex", held(v)); finish(e, x); });
				break;
			case 6: { // values inside a value
				std::vector<Any> in; std::string want; size_t n = 1 + g.below(3), pick = g.below(n);
				for (size_t i = 0; i < n; ++i) { bool done = false; while (!done) withValue([&](auto& v) { using T = std::decay_t<decltype(v)>; if constexpr (std::is_copy_constructible_v<T>) { in.emplace_back(v); if (i == pick) want = jv(Nm<T>::name, pay(v)); done = true; } }); }
				Ev e("nest"); e.j("want", want); std::string got = "[]"; int how = (int)g.below(4);
				x = run([&] { Any o(in); if (how == 0) o = static_cast<const Any&>(o.template cast<std::vector<Any>&>()[pick]); else if (how == 1) o = std::move(o.template cast<std::vector<Any>&>()[pick]); else if (how == 2) { Any t(std::move(o.template cast<std::vector<Any>&>()[pick])); o.swap(t); } else { Any t(o); o = std::move(t); t = o; o = t.template cast<std::vector<Any>>()[pick]; } got = see(o); });
				e.j("got", got); finish(e, x); break; }
			default: sorted();
		}
	}
	// containers of values
	void sorted() {
		std::vector<Any> vals; std::string js0 = "["; size_t n = 1 + g.below(9); bool cp = false, first = true;
		for (size_t i = 0; i < n; ++i) withValue([&](auto& v) { using T = std::decay_t<decltype(v)>;
			if constexpr (std::is_copy_constructible_v<T> && !std::is_same_v<T, NoCmp> && !std::is_same_v<T, Fix> && !std::is_same_v<T, int*>) {
				if (isCP<T>) { if (cp) return; cp = true; } // two character pointers compare as pointers
				if (std::is_same_v<T, Pr> || (fam == 0 && g.chance(1, 8) && !vals.empty() && std::is_arithmetic_v<T>)) return; // Pr: has its own relation with int
				vals.emplace_back(v); js0 += (first ? "" : ",") + jv(Nm<T>::name, pay(v)); first = false; } });
		js0 += "]";
		Ev e("sorted"); e.j("v", js0); std::string x = run([&] {
			std::vector<size_t> id(vals.size()); for (size_t i = 0; i < id.size(); ++i) id[i] = i;
			std::sort(id.begin(), id.end(), [&](size_t p, size_t q) { return vals[p] < vals[q]; });
			L ord; for (size_t i : id) ord.push_back((long)i + 1);
			std::set<Any, std::less<>> ss(vals.begin(), vals.end()); seq::flat_set<Any, std::less<>> fs; for (auto& v : vals) fs.insert(v);
			long us = -1, os = -1; L look;
			if constexpr (HASH) {
				std::unordered_set<Any> u(vals.begin(), vals.end()); seq::ordered_set<Any, seq::hasher<Any>, std::equal_to<>> o; for (auto& v : vals) o.insert(v);
				us = (long)u.size(); os = (long)o.size();
				for (auto& v : vals) look.push_back((u.find(v) != u.end()) && (o.find(v) != o.end()));
				for (int q = 0; q < 3; ++q) withValue([&](auto& w) { using T = std::decay_t<decltype(w)>; if constexpr (std::is_copy_constructible_v<T> && !isCP<T> && !std::is_same_v<T, NoCmp> && !std::is_same_v<T, Pr> && !std::is_same_v<T, int*> && !std::is_same_v<T, Fix>) {
					bool there = false; for (auto& v : vals) there = there || v == w;
					const T& cw = w; if ((o.find(cw) != o.end()) != there || (ss.find(cw) != ss.end()) != there || (fs.find(cw) != fs.end()) != there) bad("heterogeneous lookup"); } });
			}
			e.l("ord", ord).i("ss", (long)ss.size()).i("fs", (long)fs.size()).i("us", us).i("os", os).l("look", look); });
		finish(e, x);
	}
	void session(int idx, const std::string& mode) {
		ledger_reset(); g_any_blocks = 0; g_any_addr.clear(); g_noted = ""; g_fired = false; fam = g.below(4);
		std::string ids = "["; bool f = true; each([&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; ids += std::string(f ? "" : ",") + "[\"" + Nm<T>::name + "\"," + std::to_string(seq::get_type_id<T>()) + "]"; f = false; }); ids += "]";
		Session S0(mode + "/" + std::to_string(idx), kv("type", NAME) + "," + kvb("hash", HASH) + ",\"ids\":" + ids);
		for (int i = 0; i < 3; ++i) { new (mem[i]) Any(); up[i] = true; }
		size_t steps = 60 + g.below(60);
		for (size_t i = 0; i < steps; ++i) { if (inject || g.chance(1, 2)) change(); else query(); if (g.chance(1, 40)) fam = g.below(4); }
		{ Ev e("destroy"); for (int i = 0; i < 3; ++i) at(i).~Any(); e.s("x", "none").i("live", g_live).i("bk", g_any_blocks).s("er", take_err()); }
	}
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	seq::register_any_equal_comparison<Pr, int>([](const Pr& p, int i) { return p.a == i && p.b == i; });
	seq::register_any_equal_comparison<int, Pr>([](int i, const Pr& p) { return p.a == i && p.b == i; });
	seq::register_any_less_comparison<Pr, int>([](const Pr& p, int i) { return p.a < i; });
	seq::register_any_less_comparison<int, Pr>([](int i, const Pr& p) { return i < p.a; });
	seq::register_any_conversion<Pr, std::string>([](const Pr& p) { return std::to_string(p.a) + "," + std::to_string(p.b); });
	seq::register_any_conversion<Pr, long>();
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { auto r = std::make_unique<Runner>(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r->session((int)i, argv[4]); }
	flush();
	return 0;
}
