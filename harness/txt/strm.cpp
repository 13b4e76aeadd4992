// Driver for the text stream readers of charconv.hpp.   usage: strm OUT SEED NSESSIONS MODE
// One session is one text read through one stream; the same texts and calls run over every kind of stream.
#include "../common.hpp"
#include <seq/charconv.hpp>
#include <seq/tiny_string.hpp>
#include <sstream>
#include <cmath>
#include <unistd.h>
#ifndef INST
#define INST 0
#endif
using namespace vt;
#if INST == 0
using C = char;
#define NAME "char"
#elif INST == 1
using C = wchar_t;
#define NAME "wchar_t"
#else
using C = char16_t;
#define NAME "char16_t"
#endif
using UC = std::conditional<sizeof(C) == 1, unsigned char, C>::type;
using Str = std::basic_string<C>;
using TStr = seq::tiny_string<C>;
template<class S> std::vector<long> codes(const S& s) { std::vector<long> r; for (size_t i = 0; i < s.size(); ++i) r.push_back((long)(UC)s[i]); return r; }
static std::vector<long> limbs(unsigned long long v) { std::vector<long> r; while (v) { r.push_back((long)(v & 4095)); v >>= 12; } return r; }
template<class T> unsigned long long mag(T v) { return v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; }
struct Dec { int k; long m, e; };
static Dec dec(long double v) {
	if (std::isnan(v)) return { 1, 0, 0 };
	if (std::isinf(v)) return { 2, 0, 0 };
	if (v == 0) return { 3, 0, 0 };
	char b[64]; snprintf(b, sizeof b, "%.7Le", std::fabs(v));
	long m = 0; char* p = b; for (; *p && *p != 'e'; ++p) if (*p >= '0' && *p <= '9') m = m * 10 + (*p - '0');
	return { 0, m, atol(p + 1) };
}
static Str make_text(Rng& g) {
	static const char ws[] = " \t\n\r  \n"; static const char* wd[] = { "word", "x", "-", "+", "0x", "12.5e", "1e+", "nan", "inf", "e5", ".", "z9", "ff", "longer_word_than_the_buffer_of_the_stream", "\"q\"" };
	Str s; size_t want = g.below(g.chance(1, 4) ? 8 : 140);
	while (s.size() < want) {
		std::string t;
		switch (g.below(6)) {
			case 0: for (size_t i = 1 + g.below(g.chance(1, 5) ? 40 : 4); i; --i) t.push_back(ws[g.below(sizeof ws - 1)]); break;
			case 1: t = wd[g.below(15)]; break;
			case 2: t = std::to_string((long)(g.next() >> g.below(64))); break;
			case 3: { char b[64]; snprintf(b, sizeof b, g.chance(1, 2) ? "%lx" : "0x%lX", (long)(g.next() >> g.below(64))); t = b; break; }
			case 4: { char b[64]; snprintf(b, sizeof b, g.chance(1, 2) ? "%.*f" : "%.*e", (int)g.below(20), (double)(long)(g.next() >> (20 + g.below(40))) / (double)(1 + g.below(1000))); t = b; break; }
			default: t = g.chance(1, 2) ? "\r\n" : " "; break;
		}
		s.append(t.begin(), t.end());
		if (g.chance(1, 3)) s.push_back((C)' ');
		if (g.chance(1, 40)) s.push_back((C)0xFF);
		if (sizeof(C) > 1 && g.chance(1, 30)) s.push_back((C)(0x100 + g.below(0x500)));
		if (sizeof(C) > 1 && INST == 2 && g.chance(1, 30)) s.push_back((C)0xFFFF);
	}
	s.resize(want);
	return s;
}
template<class St> struct Ops {
	Rng& g; St& st; size_t len;
	void fin(Ev& e) { e.i("pos", (long)st.tell()).i("st", (long)st.state()).b("ok", (bool)st == st.is_ok()).s("er", take_err()); }
	template<class T> void integer(int b) { T v = (T)77; seq::from_stream(st, v, b); Ev e("int"); e.i("base", b).i("bits", (long)sizeof(T) * 8).b("sg", std::is_signed<T>::value).b("neg", v < 0).l("v", limbs(mag(v))); fin(e); }
	template<class T> void real(const char* ty) { T v = 77; seq::from_stream(st, v); Dec d = dec(v); Ev e("real"); e.s("ty", ty).i("k", d.k).b("neg", std::signbit(v)).i("m", d.m).i("e", d.e); fin(e); }
	void step() {
		int b = g.chance(1, 2) ? 10 : g.chance(2, 3) ? 16 : 2 + (int)g.below(35);
		switch (g.below(26)) {
			case 0: case 1: case 2: { Str v; seq::from_stream(st, v); Ev e("word"); e.l("out", codes(v)); fin(e); break; }
			case 3: { TStr v; seq::from_stream(st, v); Ev e("word"); e.l("out", codes(v)); fin(e); break; }
			case 4: case 5: { Str v; seq::read_line_from_stream(st, v); Ev e("line"); e.l("out", codes(v)); fin(e); break; }
			case 6: { TStr v; seq::read_line_from_stream(st, v); Ev e("line"); e.l("out", codes(v)); fin(e); break; }
			case 7: case 8: integer<int>(b); break;
			case 9: integer<unsigned>(b); break;
			case 10: integer<long long>(b); break;
			case 11: integer<unsigned short>(b); break;
			case 12: integer<signed char>(b); break;
			case 13: case 14: real<double>("double"); break;
			case 15: if (g.chance(1, 2)) real<float>("float"); else real<long double>("long double"); break;
			case 16: case 17: { int r = st.getc(); Ev e("getc"); e.i("r", r); fin(e); break; }
			case 18: case 19: { if (!st.tell()) return step(); st.back(); Ev e("back"); fin(e); break; }
			case 20: { size_t p = g.chance(1, 2) ? g.below(len + 1) : std::min(len, (size_t)std::max(0l, (long)st.tell() + (long)g.below(12) - 6)); long r = (long)st.seek(p); Ev e("seek"); e.i("p", (long)p).i("r", r); fin(e); break; }
			case 21: case 22: { size_t n = g.below(g.chance(1, 3) ? 80 : 9); Str v(n, (C)0); size_t r = st.read(&v[0], n); if (r <= n) v.resize(r); Ev e("read"); e.i("n", (long)n).i("r", (long)r).l("out", codes(v)); fin(e); break; }
			case 23: { st.reset(); Ev e("reset"); fin(e); break; }
			case 24: { Ev e("tell"); fin(e); break; }
			default: { if (!g.chance(1, 3)) return step(); st.seek(0); Ev e("seek"); e.i("p", 0).i("r", 0); fin(e); break; }
		}
	}
};
static void under(long p) { Ev e("under"); e.i("pos", p).i("st", 0).b("ok", true).s("er", take_err()); }
struct Runner {
	Rng g; std::string mode;
	Runner(uint64_t s, const std::string& m) : g(s), mode(m) {}
	template<class St> void steps(St& st, size_t len) { Ops<St> o{ g, st, len }; for (size_t i = 10 + g.below(25); i; --i) o.step(); }
	std::string head(const char* kind, int buf, const Str& t, size_t start) {
		std::string r = kv("type", NAME) + "," + kv("kind", kind) + "," + kv("buf", (long)buf) + "," + kv("start", (long)start) + ",\"text\":[";
		auto c = codes(t); for (size_t i = 0; i < c.size(); ++i) r += (i ? "," : "") + std::to_string(c[i]);
		return r + "]";
	}
	void s_buffer(int idx, const Str& t) {
		Session S(mode + "/" + std::to_string(idx), head("buffer", 0, t, 0));
		C* b = new C[t.size()]; std::copy(t.begin(), t.end(), b);
		{ seq::buffer_input_stream<C> st(b, t.size()); steps(st, t.size()); }
		delete[] b;
	}
	template<unsigned N> void s_std(int idx, const Str& t) {
		size_t start = g.chance(1, 2) ? 0 : g.below(t.size() + 1);
		Session S(mode + "/" + std::to_string(idx), head("std", N, t, start));
		std::basic_stringstream<C> ss(t, std::ios::in | std::ios::binary); ss.seekg((long)start);
		size_t rounds = 1 + g.below(3);
		for (size_t i = 0; i < rounds; ++i) {
			{ seq::std_input_stream<C, N> st(ss); steps(st, t.size()); if (g.chance(1, 2)) { st.close(); under((long)ss.tellg()); if (g.chance(1, 2)) { st.open(ss); steps(st, t.size()); } } }
			under((long)ss.tellg());
		}
	}
#if INST == 0
	template<unsigned N> void s_file(int idx, const Str& t) {
		size_t start = g.chance(1, 2) ? 0 : g.below(t.size() + 1); bool name = g.chance(1, 4);
		char path[] = "/tmp/vt_strm_XXXXXX"; int fd = mkstemp(path); FILE* f = fdopen(fd, "w+b"); fwrite(t.data(), 1, t.size(), f); fflush(f);
		if (name) start = 0;
		{
			Session S(mode + "/" + std::to_string(idx), head(name ? "named file" : "file", N, t, start));
			if (name) { fclose(f); seq::file_input_stream<N> st(path, "rb"); steps(st, t.size()); }
			else {
				fseek(f, (long)start, SEEK_SET);
				size_t rounds = 1 + g.below(3);
				for (size_t i = 0; i < rounds; ++i) {
					bool own = i + 1 == rounds && g.chance(1, 3);
					{ seq::file_input_stream<N> st(f, own); steps(st, t.size()); if (!own && g.chance(1, 2)) { st.close(); under(ftell(f)); if (g.chance(1, 2)) { st.open(f, false); steps(st, t.size()); } } }
					if (own) f = nullptr; else under(ftell(f));
				}
				if (f) fclose(f);
			}
		}
		unlink(path);
	}
#endif
	void session(int idx) {
		ledger_reset();
		Str t = make_text(g);
		int k = idx % (INST == 0 ? 11 : 6);
		switch (k) {
			case 0: s_buffer(idx, t); break;
			case 1: s_std<1>(idx, t); break;
			case 2: s_std<2>(idx, t); break;
			case 3: s_std<3>(idx, t); break;
			case 4: s_std<7>(idx, t); break;
			case 5: s_std<32>(idx, t); break;
#if INST == 0
			case 6: s_file<1>(idx, t); break;
			case 7: s_file<2>(idx, t); break;
			case 8: s_file<3>(idx, t); break;
			case 9: s_file<7>(idx, t); break;
			case 10: s_file<32>(idx, t); break;
#endif
		}
	}
};
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner r(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r.session((int)i); }
	flush();
	return 0;
}
