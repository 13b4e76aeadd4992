// Driver for charconv.hpp numbers: every event is one call.   usage: num OUT SEED NSESSIONS MODE
#include "../common.hpp"
#include <seq/charconv.hpp>
#include <cmath>
#include <limits>
#ifndef INST
#define INST 0
#endif
using namespace vt;
#if INST == 0
using C = char;
#define NAME "char"
#elif INST == 1
using C = wchar_t;
#define NAME "wchar_t"
#elif INST == 2
using C = char16_t;
#define NAME "char16_t"
#else
using C = char32_t;
#define NAME "char32_t"
#endif
using UC = std::conditional<sizeof(C) == 1, unsigned char, C>::type;
using Str = std::basic_string<C>;
static Str W(const std::string& s) { return Str(s.begin(), s.end()); }
static std::vector<long> codes(const C* p, size_t n) { std::vector<long> r; for (size_t i = 0; i < n; ++i) r.push_back((long)(UC)p[i]); return r; }
static std::vector<long> limbs(unsigned long long v) { std::vector<long> r; while (v) { r.push_back((long)(v & 4095)); v >>= 12; } return r; }
template<class T> unsigned long long mag(T v) { return v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; }
static long ecode(std::errc e) { return e == std::errc() ? 0 : e == std::errc::invalid_argument ? 1 : e == std::errc::value_too_large ? 2 : 3; }
struct Dec { int k; long m, e; };
static Dec dec(long double v) { // leading 8 decimal digits
	if (std::isnan(v)) return { 1, 0, 0 };
	if (std::isinf(v)) return { 2, 0, 0 };
	if (v == 0) return { 3, 0, 0 };
	char b[64]; snprintf(b, sizeof b, "%.7Le", std::fabs(v));
	long m = 0; char* p = b; for (; *p && *p != 'e'; ++p) if (*p >= '0' && *p <= '9') m = m * 10 + (*p - '0');
	return { 0, m, atol(p + 1) };
}
// bounded buffer at the end of a heap block: writing past the end is an error of its own
struct Room {
	std::vector<C> pre; C* p; size_t n;
	Room(size_t n) : p(new C[n]), n(n) { for (size_t i = 0; i < n; ++i) p[i] = (C)'#'; }
	~Room() { delete[] p; }
	bool untouched(size_t from) const { for (size_t i = from; i < n; ++i) if (p[i] != (C)'#') return false; return true; }
};
struct Runner {
	Rng g;
	Runner(uint64_t s) : g(s) {}
	template<class T> T value() {
		using L = std::numeric_limits<T>;
		switch (g.below(8)) {
			case 0: return (T)g.below(12);
			case 1: return L::max();
			case 2: return L::min();
			case 3: return (T)(L::max() - (T)g.below(12));
			case 4: return (T)(L::min() + (T)g.below(12));
			case 5: { unsigned long long p = 1; for (size_t i = g.below(19); i; --i) p *= 10; return (T)(p - g.below(2)); }
			case 6: { unsigned long long p = 1ull << g.below(64); T v = (T)(p - g.below(2)); return g.chance(1, 2) ? v : (T)(0 - v); }
			default: { unsigned long long v = g.next() >> g.below(64); return g.chance(1, 2) ? (T)v : (T)(0 - v); }
		}
	}
	int base() { return g.chance(1, 3) ? 10 : g.chance(1, 3) ? 16 : g.chance(1, 4) ? 2 : g.chance(1, 5) ? 8 : 2 + (int)g.below(35); }
	template<class T> void to() {
		T v = value<T>(); int b = base();
		seq::integral_chars_format f; if (g.chance(1, 2)) f = seq::integral_chars_format((unsigned char)(g.chance(1, 12) ? 64 + g.below(192) : g.chance(1, 2) ? g.below(24) : 0), g.chance(1, 2), g.chance(1, 2));
		size_t room = g.chance(2, 3) ? 300 : g.below(24);
		Room r(room);
		seq::to_chars_result<C> q{};
		if (b == 10 && g.chance(1, 3)) { f = seq::integral_chars_format(); q = seq::to_chars(r.p, r.p + room, v); }
		else q = seq::to_chars(r.p, r.p + room, v, b, f);
		long used = (long)(q.ptr - r.p); long ec = ecode(q.ec);
		Ev e("to"); e.b("neg", v < 0).l("v", limbs(mag(v))).i("base", b).i("w", f.integral_min_width).b("px", f.hex_prefix).b("up", f.upper_case).i("room", (long)room).i("ec", ec).i("used", used);
		e.l("out", ec == 0 && used >= 0 && used <= (long)room ? codes(r.p, (size_t)used) : std::vector<long>()).b("ok", ec != 0 || used < 0 || used > (long)room || r.untouched((size_t)used)).s("er", take_err());
	}
	std::string digits(int b, unsigned long long v, size_t pad) { std::string s; while (v) { int d = (int)(v % b); s.push_back("0123456789abcdefghijklmnopqrstuvwxyz"[d]); v /= b; } while (s.size() < pad) s.push_back('0'); std::reverse(s.begin(), s.end()); if (g.chance(1, 3)) for (auto& c : s) c = (char)toupper(c); return s; }
	std::string blanks() { static const char sp[] = " \t\n\r\v\f"; std::string s; for (size_t i = g.below(g.chance(1, 3) ? 4 : 1) ; i; --i) s.push_back(sp[g.below(6)]); return s; }
	std::string noise() { static const char nz[] = "/:@G`gzZxX-+. \n_e,"; std::string s; for (size_t i = g.below(3); i; --i) s.push_back(nz[g.below(sizeof nz - 1)]); return s; }
	template<class T> Str text(int b) {
		std::string s;
		if (g.chance(1, 3)) s = blanks();
		if (g.chance(1, 3)) s += g.chance(2, 3) ? "-" : "+";
		if (g.chance(b == 16 ? 1 : 0, 2)) s += g.chance(1, 2) ? "0x" : "0X";
		switch (g.below(8)) {
			case 0: break;
			case 1: s += noise(); break;
			case 2: { unsigned long long lim = mag(g.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()); s += digits(b, lim + g.below(3) - g.below(3), 0); break; }
			case 3: s += digits(b, g.next(), 0); break;
			case 4: for (size_t i = 1 + g.below(30); i; --i) s += digits(b, g.below((size_t)b), 1); break;
			case 5: s += digits(b, g.below(4), 1); break;
			default: s += digits(b, mag(value<T>()), g.below(4)); break;
		}
		if (g.chance(1, 3)) s += noise(); else if (g.chance(1, 6)) s += blanks();
		Str w = W(s);
		if (g.chance(1, 12)) { // characters outside ASCII
			static const unsigned long ex[] = { 0xFF, 0xA0, 0x80 + '1', 0xFFFF, 0xFF31, 0x130, 0x160 + 1, 0x100 + 'a', 0x10000 + '1', 0x2000 };
			unsigned long c = ex[g.below(sizeof(C) == 1 ? 3 : sizeof(C) == 2 ? 8 : 10)]; size_t at = g.below(w.size() + 1); w.insert(w.begin() + (long)at, (C)c);
		}
		return w;
	}
	template<class T> void from() {
		int b = base(); Str t = text<T>(b); C* buf = new C[t.size()]; std::copy(t.begin(), t.end(), buf);
		T v = (T)77; seq::from_chars_result<C> q = b == 10 && g.chance(1, 2) ? seq::from_chars((const C*)buf, (const C*)buf + t.size(), v) : seq::from_chars((const C*)buf, (const C*)buf + t.size(), v, b);
		Ev e("from"); e.l("t", codes(t.data(), t.size())).i("base", b).i("bits", (long)sizeof(T) * 8).b("sg", std::is_signed<T>::value).b("neg", v < 0).l("v", limbs(mag(v))).i("ec", ecode(q.ec)).i("used", (long)(q.ptr - buf)).s("er", take_err());
		delete[] buf;
	}
	seq::chars_format cf(int f) { return f == 0 ? seq::general : f == 1 ? seq::fixed : seq::scientific; }
	template<class T> void ff(const char* ty) {
		std::string s = blanks(); char dot = g.chance(1, 5) ? ',' : '.'; int f = g.chance(2, 3) ? 0 : 1 + (int)g.below(2);
		if (g.chance(1, 3)) s += g.chance(2, 3) ? "-" : "+";
		auto dg = [&](size_t n) { for (size_t i = 0; i < n; ++i) s.push_back((char)('0' + (g.chance(1, 4) ? 0 : g.below(10)))); };
		switch (g.below(12)) {
			case 0: s += noise(); break;
			case 1: { static const char* w[] = { "nan", "NaN", "inf", "INF", "na", "in", "infinity", "nano", "i", "n" }; s += w[g.below(10)]; break; }
			default: {
				if (!g.chance(1, 6)) dg(g.chance(1, 5) ? g.below(45) : g.below(8));
				if (g.chance(1, 2)) { s.push_back(g.chance(1, 6) ? '.' : dot); if (!g.chance(1, 6)) dg(g.chance(1, 5) ? g.below(45) : g.below(8)); }
				if (g.chance(1, 2)) { s.push_back(g.chance(1, 2) ? 'e' : 'E'); if (g.chance(1, 2)) s.push_back(g.chance(1, 2) ? '-' : '+'); if (!g.chance(1, 8)) s += std::to_string(g.chance(1, 8) ? g.below(5000) : g.chance(1, 3) ? g.below(320) : g.below(30)); }
			}
		}
		if (g.chance(1, 4)) s += noise();
		Str t = W(s); C* buf = new C[t.size()]; std::copy(t.begin(), t.end(), buf);
		T v = 77; auto q = f == 0 && dot == '.' && g.chance(1, 2) ? seq::from_chars((const C*)buf, (const C*)buf + t.size(), v) : seq::from_chars((const C*)buf, (const C*)buf + t.size(), v, cf(f), dot);
		Dec d = dec(v);
		Ev e("ff"); e.l("t", codes(t.data(), t.size())).i("dot", dot).s("fmt", f == 0 ? "general" : f == 1 ? "fixed" : "scientific").s("ty", ty).i("k", d.k).b("neg", std::signbit(v)).i("m", d.m).i("e", d.e).i("ec", ecode(q.ec)).i("used", (long)(q.ptr - buf)).s("er", take_err());
		delete[] buf;
	}
	template<class T> T fvalue() {
		T v = 0;
		switch (g.below(8)) {
			case 0: v = (T)(long)g.below(2000); break;
			case 1: v = (T)g.below(1000000) / (T)1024; break;
			case 2: v = (T)g.below(100000) / (T)1000; break;
			case 3: v = std::pow((T)10, (T)(int)g.below(25) - 12); break;
			case 4: v = g.chance(1, 2) ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN(); break;
			case 5: v = (T)9.9999999L * std::pow((T)10, (T)(int)g.below(12) - 6); break;
			case 6: v = (T)g.below(1u << 30) * std::pow((T)10, (T)(int)g.below(40) - 20); break;
			default: v = (T)g.below(1u << 30) / (T)(1 + g.below(1000)); break;
		}
		return g.chance(1, 3) ? -v : v;
	}
	template<class T> void tf(const char* ty) {
		T v = fvalue<T>(); int f = (int)g.below(3), p = (int)g.below(11); size_t room = g.chance(2, 3) ? 400 : g.below(20); char dot = g.chance(1, 6) ? ',' : '.', ex = g.chance(1, 6) ? 'E' : 'e'; bool up = g.chance(1, 4);
		Room r(room); seq::to_chars_result<C> q{};
		if (g.chance(1, 6)) { q = seq::to_chars(r.p, r.p + room, v); f = 0; p = 6; dot = '.'; ex = 'e'; up = false; }
		else if (g.chance(1, 6)) { q = seq::to_chars(r.p, r.p + room, v, cf(f)); p = 6; dot = '.'; ex = 'e'; up = false; }
		else q = seq::to_chars(r.p, r.p + room, v, cf(f), p, dot, ex, up);
		long used = (long)(q.ptr - r.p), ec = ecode(q.ec); Dec d = dec(v);
		Ev e("tf"); e.i("k", d.k).b("neg", std::signbit(v)).i("m", d.m).i("e", d.e).s("fmt", f == 0 ? "general" : f == 1 ? "fixed" : "scientific").i("p", p).i("dot", dot).i("ex", ex).b("up", up).s("ty", ty).i("room", (long)room).i("ec", ec).i("used", used);
		e.l("out", ec == 0 && used >= 0 && used <= (long)room ? codes(r.p, (size_t)used) : std::vector<long>()).s("er", take_err());
	}
	template<class T> void both() { if (g.chance(1, 2)) to<T>(); else from<T>(); }
	void step() {
		switch (g.below(17)) {
			case 0: both<char>(); break;
			case 1: both<signed char>(); break;
			case 2: both<unsigned char>(); break;
			case 3: both<short>(); break;
			case 4: both<unsigned short>(); break;
			case 5: both<int>(); break;
			case 6: both<unsigned>(); break;
			case 7: both<long>(); break;
			case 8: both<unsigned long>(); break;
			case 9: both<long long>(); break;
			case 10: both<unsigned long long>(); break;
			case 11: ff<float>("float"); break;
			case 12: case 13: if (g.chance(1, 4)) ff<long double>("long double"); else ff<double>("double"); break;
			case 14: tf<float>("float"); break;
			default: if (g.chance(1, 4)) tf<long double>("long double"); else tf<double>("double"); break;
		}
	}
	void session(int idx, const std::string& mode) { ledger_reset(); Session S(mode + "/" + std::to_string(idx), kv("type", NAME)); for (int i = 0; i < 40; ++i) step(); }
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner r(seed * 1000003 + (uint64_t)i * 101 + INST); r.session((int)i, argv[4]); }
	flush();
	return 0;
}
