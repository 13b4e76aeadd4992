// Generic driver for the associative containers (flat_*, radix_*, ordered_*, radix_hash_*):
// random histories over two slots.  The including file defines
//   C, A, K, NAME, PMV, PER (tracked objects per element, 0: none), MAP/MULTI/STABLE (0/1), T if MAP
//   KIND 0 sorted, 1 insertion order, 2 hash;  FAM 0 flat, 1 radix, 2 ordered, 3 radix_hash
//   mkK(rank, low), codeK(const K&), NKEYS(session rng) and, for maps, mkT(low), codeT(const T&)
//   ALTK (0/1): lookups through another key type made by altK(rank)
// An element is coded rank*1000+low.
#pragma once
#if !MAP
inline int mkT(long) { return 0; }
inline long codeT(int) { return 0; }
#endif
#if !ALTK
inline int altK(long r) { return 0; }
#endif
#include <list>
#include <forward_list>
#include <iterator>
#include <optional>
#include <set>

template<class It> struct is_ra : std::is_base_of<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category> {};
static const char* FAMS[] = { "flat", "radix", "ordered", "radix_hash" };
static const char* KINDS[] = { "sorted", "insertion", "hash" };
static long low(long v) { return v < 0 ? 999 : v; }

template<class C> struct Runner {
	using V = typename C::value_type;
	using I = typename C::iterator; using CI = typename C::const_iterator;
	static constexpr bool FLAT = FAM == 0, RADIX = FAM == 1, ORD = FAM == 2, RH = FAM == 3;
	Rng g; std::string mode; bool inject, xfer, big; size_t soft = 0; long nk = 10;
	std::optional<C> c[2];
	bool dirty[2] = { false, false };
	struct Held { CI it; long a; };
	std::vector<Held> held[2];
	std::unordered_map<const void*, long> ids; long next_id = 1;
	Runner(uint64_t s, const std::string& m) : g(s), mode(m), inject(m == "inject"), xfer(m == "xfer"), big(m == "big") {}
	template<class E> static long codeE(const E& e) { if constexpr (MAP != 0) return codeK(e.first) / 1000 * 1000 + low(codeT(e.second)); else return codeK(e); }
	static V mkE(long code) { if constexpr (MAP != 0) return V(mkK(code / 1000, 0), mkT(code % 1000)); else return mkK(code / 1000, code % 1000); }
	long key() { return g.below((size_t)nk); }
	long fresh() { return key() * 1000 + (LOWS ? (long)g.below(999) : 0); }
	long pick(C& q) { // often a key that is there
		if (q.size() && g.chance(1, 2)) { size_t p = g.below(q.size()); return codeE(*at(q, p)) / 1000; }
		return key();
	}
	std::vector<long> codes(size_t n) { std::vector<long> r; for (size_t i = 0; i < n; ++i) r.push_back(fresh()); return r; }
	void arm(size_t work) {
		g_fired = false;
		if (!inject || g.chance(1, 3)) return;
		if (g.chance(1, 4)) g_throw_alloc = 1 + (long)g.below(3); else g_throw_elem = 1 + (long)g.below(work);
	}
	template<class Q> static auto at(Q& q, size_t p) { auto it = q.begin(); if constexpr (is_ra<decltype(it)>::value) return it + (ptrdiff_t)p; else { while (p--) ++it; return it; } }
	template<class Q, class It> static long pos(Q& q, It it) {
		if constexpr (KIND == 2) return -1;
		else if constexpr (is_ra<CI>::value) return (long)(CI(it) - CI(q.begin()));
		else { long p = 0; size_t lim = q.size() + 2; for (auto i = q.begin(); i != q.end() && lim--; ++i, ++p) if (CI(i) == CI(it)) return p; return CI(it) == CI(q.end()) ? p : -9; }
	}
	template<class Q, class It> static long codeAt(Q& q, It it) { return CI(it) == CI(q.end()) ? -1 : codeE(*it); }
	void see(Ev& e, int k, const char* cn, const char* rn) {
		C& q = *c[k]; const C& cq = q; std::vector<long> v, r; size_t lim = q.size() + 8, j = 0;
		std::vector<long> ad;
		if (g.chance(1, 2)) for (auto it = cq.begin(); it != cq.end() && j < lim; ++it, ++j) { v.push_back(codeE(*it)); if constexpr (ORD) ad.push_back(aid(*it)); }
		else for (auto it = q.begin(); it != q.end() && j < lim; ++it, ++j) { v.push_back(codeE(*it)); if constexpr (ORD) ad.push_back(aid(*it)); }
		e.l(cn, v);
		if constexpr (ORD) {
			std::string a = std::string(cn) + "ad", h = std::string(cn) + "it"; e.l(a.c_str(), ad);
			std::vector<std::pair<long, long>> hs; for (auto& x : held[k]) hs.push_back({ x.a, pos(cq, x.it) * 1000000 + aid(*x.it) });
			e.ll(h.c_str(), hs);
		}
		if constexpr (RH) { j = 0; for (auto it = q.end(); it != q.begin() && j < lim; ++j) { --it; r.push_back(codeE(*it)); } e.l(rn, r); }
		else if constexpr (KIND != 2) {
			j = 0;
			switch (g.below(3)) {
				case 0: for (auto it = q.end(); it != q.begin() && j < lim; ++j) { --it; r.push_back(codeE(*it)); } break;
				case 1: for (auto it = cq.rbegin(); it != cq.rend() && j < lim; ++it, ++j) r.push_back(codeE(*it)); break;
				default: for (auto it = q.rbegin(); it != q.rend() && j < lim; ++it, ++j) r.push_back(codeE(*it));
			}
			e.l(rn, r);
		}
	}
	template<class E> long aid(const E& t) { auto& r = ids[(const void*)&t]; if (!r) r = next_id++; return r; }
	void finish(Ev& e, int k, const std::string& x, bool always = false, bool lv = true) {
		disarm();
		C& q = *c[k]; size_t n = q.size();
		e.s("x", x).i("n", (long)n).b("em", q.empty());
		if constexpr (ORD) if (x != "none" && x != "logic_error" && x != "out_of_range") { probe(k); e.b("dy", dirty[k]); }
		if (x != "none" || always || n <= 24 || g.chance(1, 1 + (unsigned)n / 16)) see(e, k, "c", "rv");
		tail(e, lv);
	}
	// a failed sort may leave moved-from elements: drop them
	void heal(int k, const std::string& x) {
		if (x == "none") return;
		bool bad = false; for (auto& v : *c[k]) { long cd = codeE(v); bad = bad || cd < 0 || cd % 1000 == 999; }
		if (!bad) return;
		Ev e("clear"); e.i("k", k + 1); dropall(k); std::string y = guarded([&] { c[k]->clear(); }); dirty[k] = false; finish(e, k, y);
	}
	// hash based members of a dirty ordered container throw
	void probe(int k) { dirty[k] = false; if constexpr (ORD) { K kk = mkK(0, 0); disarm(); try { (void)c[k]->find(kk); } catch (const std::logic_error&) { dirty[k] = true; dropall(k); } } }
	void tail(Ev& e, bool lv = true) {
		e.i("lv", PER && lv ? g_live : -1);
		e.l("al", std::vector<long>{ (long)c[0]->get_allocator().id, (long)c[1]->get_allocator().id });
		e.s("er", take_err());
	}
	CI hint(C& q) { size_t n = q.size(); return g.chance(1, 4) ? CI(q.end()) : g.chance(1, 8) ? CI(q.begin()) : CI(at(q, g.below(n + 1))); }
	// a hint near the place of the key
	CI hint(C& q, long rank) {
		if constexpr (KIND == 0) {
			if (g.chance(2, 3)) { auto it = q.begin(); while (it != q.end() && codeE(*it) / 1000 < rank) ++it; if (g.chance(1, 3) && it != q.end()) ++it; else if (g.chance(1, 4) && it != q.begin()) --it; return CI(it); }
		}
		return hint(q);
	}
	void drop(int k, std::function<bool(long pos, long code)> gone) {
		if constexpr (ORD) { C& q = *c[k]; std::vector<Held> r; for (auto& h : held[k]) if (!gone(pos(q, h.it), codeE(*h.it))) r.push_back(h); held[k].swap(r); }
	}
	void dropall(int k) { held[k].clear(); }
	void hold(int k) { if constexpr (ORD) { C& q = *c[k]; if (q.size() && held[k].size() < 5) { auto it = at(q, g.below(q.size())); held[k].push_back({ CI(it), aid(*it) }); } } }

	template<class R> void res(C& q, const R& r, long& ins, long& rc, long& rp) {
		if constexpr (std::is_same_v<R, std::pair<I, bool>>) { ins = r.second; rc = codeAt(q, r.first); rp = pos(q, r.first); }
		else if constexpr (std::is_same_v<R, std::pair<size_t, bool>>) { ins = r.second; rp = (long)r.first; rc = r.first < q.size() ? codeE(*at(q, r.first)) : -1; }
		else if constexpr (std::is_same_v<R, size_t>) { rp = (long)r; rc = r < q.size() ? codeE(*at(q, r)) : -1; }
		else { rc = codeAt(q, r); rp = pos(q, r); }
	}
	void insert_one(int k) {
		C& q = *c[k]; std::string x; long ins = -1, rc = -1, rp = -1; const char* w = KIND == 1 ? "any" : "";
		long code = g.chance(1, 3) ? pick(q) * 1000 + (LOWS ? (long)g.below(999) : 0) : fresh();
		bool alias = q.size() && g.chance(1, 10);
		int how = (int)g.below(12); size_t ap = g.below(q.size() + 1);
		if (alias && q.size()) { ap = g.below(q.size()); code = codeE(*at(q, ap)); how = (int)g.below(3); }
		long rank = code / 1000; long lo = code % 1000;
		long rank2 = pick(q); bool amap = alias && MAP && !MULTI && g.chance(2, 3);
		if (amap) code = rank2 * 1000 + lo;
		Ev e("insert"); e.i("k", k + 1).i("v", code).i("how", how).b("alias", alias); hold(k);
		#define TRY(...) { x = guarded([&] { auto r = __VA_ARGS__; disarm(); res(q, r, ins, rc, rp); }); }
		if (amap) { // the mapped value of another element
			if constexpr (MAP != 0 && !MULTI) {
				auto& src = at(q, ap)->second; K kk = mkK(rank2, 0); auto h = hint(q, rank2); arm(6);
				switch (how) { case 0: TRY(q.try_emplace(kk, src)) break; case 1: TRY(q.emplace(kk, src)) break; default: TRY(q.try_emplace(h, std::move(kk), src)) }
				disarm();
			}
		}
		else if (alias) {
			const V& s = reinterpret_cast<const V&>(*at(q, ap)); arm(6);
			if (how == 0) TRY(q.insert(s)) else if (how == 1) TRY(q.emplace(s)) else { auto h = hint(q); TRY(q.insert(h, s)) }
		}
		else if (how >= 8 && MAP != 0) {
			if constexpr (MAP != 0 && !MULTI) {
				K kk = mkK(rank, 0); auto tv = mkT(lo);
				auto h = hint(q, rank); arm(8);
				switch (g.below(7)) {
					case 0: TRY(q.try_emplace(kk, tv)) break;
					case 1: TRY(q.try_emplace(std::move(kk), std::move(tv))) break;
					case 2: TRY(q.try_emplace(h, kk, tv)) break;
					case 3: TRY(q.try_emplace(h, std::move(kk), tv)) break;
					case 4: if constexpr (FLAT) { TRY(q.try_emplace_pos(kk, tv)) break; }
						if constexpr (ORD) { w = "front"; TRY(q.try_emplace_front(std::move(kk), tv)) break; }
						[[fallthrough]];
					case 5: if constexpr (FLAT) { TRY(q.try_emplace_pos(h, std::move(kk), tv)) break; }
						if constexpr (ORD) { w = "back"; TRY(q.try_emplace_back(kk, tv)) break; }
						[[fallthrough]];
					default: if constexpr (ORD) { if (g.chance(1, 2)) { w = "front"; TRY(q.try_emplace_front(h, kk, tv)) } else { w = "back"; TRY(q.try_emplace_back(h, std::move(kk), tv)) } break; }
						TRY(q.try_emplace(std::move(kk), tv)) break;
				}
				disarm();
			}
			else { V t = mkE(code); arm(6); TRY(q.emplace(std::move(t))) disarm(); }
		}
		else {
			V t = mkE(code); auto h = hint(q, rank); arm(6);
			switch (how) {
				case 0: case 8: TRY(q.insert(t)) break;
				case 1: case 9: TRY(q.insert(std::move(t))) break;
				case 2: TRY(q.emplace(t)) break;
				case 3: if constexpr (MAP != 0) { disarm(); K kk = mkK(rank, 0); auto tv = mkT(lo); arm(6); TRY(q.emplace(std::move(kk), std::move(tv))) disarm(); } else TRY(q.emplace(std::move(t))) break;
				case 4: case 10: TRY(q.insert(h, t)) break;
				case 5: TRY(q.insert(h, std::move(t))) break;
				case 6: case 11: if constexpr (FLAT) { if (how == 6) TRY(q.insert_pos(t)) else TRY(q.emplace_pos(std::move(t))) }
					else if constexpr (ORD) { w = "front"; if (how == 6) TRY(q.push_front(t)) else TRY(q.emplace_front(std::move(t))) }
					else TRY(q.emplace(std::move(t)))
					break;
				default: if constexpr (FLAT) { TRY(q.insert_pos(std::move(t))) }
					else if constexpr (ORD) { w = "back"; if (g.chance(1, 2)) TRY(q.push_back(std::move(t))) else TRY(q.emplace_back(t)) }
					else TRY(q.emplace_hint(h, t))
			}
			disarm();
		}
		if (x != "none") { ins = rc = rp = -1; }
		e.i("ins", ins).i("rc", rc).i("rp", rp).s("w", w); finish(e, k, x);
	}
	void assign_one(int k) {
		if constexpr (MAP != 0 && !MULTI) {
			C& q = *c[k]; std::string x; long ins = -1, rc = -1, rp = -1; const char* w = KIND == 1 ? "any" : "";
			long rank = pick(q), lo = (long)g.below(999);
			if (g.chance(1, 3)) {
				Ev e("index"); e.i("k", k + 1).i("v", rank * 1000 + lo); bool set = g.chance(1, 2); hold(k);
				{ K kk = mkK(rank, 0); auto tv = mkT(lo); arm(6); x = guarded([&] { auto& r = g.chance(1, 2) ? q[kk] : q[std::move(kk)]; disarm(); ins = low(codeT(r)); if (set) r = tv; }); disarm(); }
				if (x != "none") ins = -1;
				if constexpr (ORD) { auto it = q.find(mkK(rank, 0)); rp = it == q.end() ? -1 : pos(q, it); }
				e.b("set", set).i("r", ins).i("rp", rp).s("w", w); finish(e, k, x); return;
			}
			if (q.size() && g.chance(1, 8)) { // from the mapped value of an element
				size_t ap = g.below(q.size()); lo = codeE(*at(q, ap)) % 1000;
				Ev e("assign1"); e.i("k", k + 1).i("v", rank * 1000 + lo); hold(k); { K kk = mkK(rank, 0); auto& src = at(q, ap)->second; arm(8);
				TRY(q.insert_or_assign(kk, src)) disarm(); }
				if (x != "none") { ins = rc = rp = -1; }
				e.i("ins", ins).i("rc", rc).i("rp", rp).s("w", w); finish(e, k, x); return;
			}
			Ev e("assign1"); e.i("k", k + 1).i("v", rank * 1000 + lo); hold(k);
			{ K kk = mkK(rank, 0); auto tv = mkT(lo); auto h = hint(q); arm(8);
				switch (g.below(6)) {
					case 0: TRY(q.insert_or_assign(kk, tv)) break;
					case 1: TRY(q.insert_or_assign(std::move(kk), std::move(tv))) break;
					case 2: TRY(q.insert_or_assign(h, kk, tv)) break;
					case 3: if constexpr (FLAT) { TRY(q.insert_or_assign_pos(kk, tv)) break; }
						if constexpr (ORD) { w = "front"; if (g.chance(1, 2)) TRY(q.push_front_or_assign(kk, tv)) else TRY(q.push_front_or_assign(h, std::move(kk), tv)) break; }
						[[fallthrough]];
					case 4: if constexpr (FLAT) { TRY(q.insert_or_assign_pos(std::move(kk), std::move(tv))) break; }
						if constexpr (ORD) { w = "back"; if (g.chance(1, 2)) TRY(q.push_back_or_assign(std::move(kk), tv)) else TRY(q.push_back_or_assign(h, kk, std::move(tv))) break; }
						[[fallthrough]];
					default: TRY(q.insert_or_assign(h, std::move(kk), std::move(tv))) break;
				}
				disarm(); }
			if (x != "none") { ins = rc = rp = -1; }
			e.i("ins", ins).i("rc", rc).i("rp", rp).s("w", w); finish(e, k, x);
		} else find(k);
	}
	template<class Q, class KK> void find_as(Ev& e, Q& q, const KK& kk) {
		long fc = -3, fp = -1, lb = -2, ub = -2, e1 = -2, e2 = -2;
		auto it = q.find(kk); fc = codeAt(q, it); fp = pos(q, it);
		bool ct = q.contains(kk); long cn = (long)q.count(kk);
		if constexpr (KIND == 0) { lb = pos(q, q.lower_bound(kk)); ub = pos(q, q.upper_bound(kk)); }
		if constexpr (FLAT || RADIX) { auto er = q.equal_range(kk); e1 = pos(q, er.first); e2 = pos(q, er.second); }
		if constexpr (RADIX) { auto p = q.find_ptr(kk); if (g.chance(1, 2)) fc = p ? codeE(*p) : -1; }
		if constexpr (FLAT) { if (g.chance(1, 2)) { fp = (long)q.find_pos(kk); lb = (long)q.lower_bound_pos(kk); ub = (long)q.upper_bound_pos(kk); auto ep = q.equal_range_pos(kk); e1 = (long)ep.first; e2 = (long)ep.second; } }
		e.i("fc", fc).i("fp", fp).b("ct", ct).i("cn", cn).i("lb", lb).i("ub", ub).i("e1", e1).i("e2", e2);
	}
	void find(int k) {
		C& q = *c[k]; const C& cq = q; long rank = pick(q);
		Ev e("find"); e.i("k", k + 1).i("key", rank); std::string x;
		if (ALTK && g.chance(1, 2)) {
			if constexpr (ALTK != 0) { auto kk = altK(rank); if (g.chance(1, 2)) find_as(e, q, kk); else find_as(e, cq, kk); }
		} else { K kk = mkK(rank, LOWS && !MAP ? 500 : 0); if (g.chance(1, 2)) find_as(e, q, kk); else find_as(e, cq, kk); }
		finish(e, k, "none");
	}
	// prefix queries of radix containers with string keys
	void prefix(int k) {
		#ifdef HAS_PREFIX
		C& q = *c[k]; const C& cq = q; auto p = some_prefix(g); std::vector<long> o; long f;
		Ev e("prefix"); e.i("k", k + 1).l("pre", p);
		auto kk = prefix_key(p); size_t lim = q.size() + 4;
		if (g.chance(1, 2)) { auto r = q.prefix_range(kk); for (auto it = r.first; it != r.second && lim--; ++it) o.push_back(codeE(*it)); f = codeAt(q, q.prefix(kk)); }
		else { auto r = cq.prefix_range(kk); for (auto it = r.first; it != r.second && lim--; ++it) o.push_back(codeE(*it)); f = codeAt(cq, cq.prefix(kk)); }
		e.l("out", o).i("fc", f); finish(e, k, "none");
		#else
		find(k);
		#endif
	}
	void insert_range(int k) {
		C& q = *c[k]; std::string x; int kind = (int)g.below(RANGE_KINDS);
		auto cs = codes(g.below(g.chance(1, 4) ? soft + 2 : 8));
		bool sorted = false; if (g.chance(1, 3)) { std::stable_sort(cs.begin(), cs.end(), [](long a, long b) { return a / 1000 < b / 1000; }); sorted = true; }
		if (KIND == 0 && sorted && !MULTI) cs.erase(std::unique(cs.begin(), cs.end(), [](long a, long b) { return a / 1000 == b / 1000; }), cs.end());
		bool as = !ORD && !RH && g.chance(1, 4); if (as) dropall(k);
		if (kind == 2) { cs.resize(3, fresh()); sorted = false; }
		bool tag = FLAT && sorted && !as && g.chance(2, 3);
		Ev e(as ? "assign_r" : "insert_r"); e.i("k", k + 1).l("vs", cs).i("kind", kind).b("tag", tag); hold(k);
		size_t w = q.size() + 6 * cs.size() + 4;
		auto go = [&](auto f, auto l) {
			arm(w);
			x = guarded([&] {
				if (as) { if constexpr (!ORD && !RH) q.assign(f, l); }
				else if (tag) { insert_sorted(q, f, l, 0); }
				else q.insert(f, l); });
			disarm(); };
		if (kind == 0) { std::vector<V> t; for (long v : cs) t.push_back(mkE(v)); if (g.chance(1, 4)) go(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); else go(t.begin(), t.end()); }
		else if (kind == 1) { std::list<V> t; for (long v : cs) t.push_back(mkE(v)); go(t.begin(), t.end()); }
		else { { std::initializer_list<V> il{ mkE(cs[0]), mkE(cs[1]), mkE(cs[2]) }; arm(w); x = guarded([&] { if (as) { if constexpr (!ORD && !RH) q = il; } else q.insert(il); }); disarm(); } finish(e, k, x, true, false); return; }
		finish(e, k, x, true);
	}
	void erase_some(int k) {
		C& q = *c[k]; size_t n = q.size(); std::string x;
		hold(k);
		switch (g.below(8)) {
			case 0: case 1: case 2: { long rank = pick(q), r = -1; drop(k, [&](long, long cd) { return cd / 1000 == rank; });
				Ev e("erase_key"); e.i("k", k + 1).i("key", rank);
				if (ALTK && g.chance(1, 2)) { if constexpr (ALTK != 0) { auto kk = altK(rank); arm(n + 4); x = guarded([&] { r = (long)q.erase(kk); }); disarm(); } }
				else { K kk = mkK(rank, 0); arm(n + 4); x = guarded([&] { r = (long)q.erase(kk); }); disarm(); }
				e.i("r", x == "none" ? r : -1); finish(e, k, x); break; }
			case 3: case 4: { if (!n) return find(k); size_t p = g.chance(1, 4) ? (g.chance(1, 2) ? 0 : n - 1) : g.below(n); long rc = -1, rp = -1; long cd = codeE(*at(q, p));
				drop(k, [&](long hp, long hc) { return KIND == 2 ? hc == cd : hp == (long)p; });
				Ev e("erase_it"); e.i("k", k + 1).i("p", (long)p).i("v", cd); int how = (int)g.below(3);
				{ CI ci(at(q, p)); auto it = at(q, p); arm(n + 4);
					x = guarded([&] { if (how == 0) { if constexpr (FLAT) { q.erase_pos(p); rp = (long)p; return; } } auto r = q.erase(ci); disarm(); rc = codeAt(q, r); rp = pos(q, r); }); (void)it; disarm(); }
				e.i("rc", rc).i("rp", x == "none" ? rp : -1).b("ri", how != 0 || !FLAT); finish(e, k, x); break; }
			case 5: { size_t a = g.below(n + 1), b = a + g.below(std::min<size_t>(n - a, 6) + 1); if (g.chance(1, 12)) { a = 0; b = n; } if (g.chance(1, 12)) b = n;
				if (KIND == 2) { a = 0; b = g.below(std::min<size_t>(n, 5) + 1); if (g.chance(1, 8)) b = n; }
				std::vector<long> gone; { size_t i = a; for (auto it = at(q, a); i < b; ++i, ++it) gone.push_back(codeE(*it)); }
				drop(k, [&](long hp, long hc) { return hp >= (long)a && hp < (long)b; }); long rp = -1;
				Ev e("erase_rng"); e.i("k", k + 1).i("p", (long)a).i("q", (long)b).l("vs", gone);
				{ CI f(at(q, a)), l(at(q, b)); arm(n + 4); x = guarded([&] { if constexpr (FLAT) { if (g.chance(1, 3)) { q.erase(a, b); rp = (long)a; return; } } auto r = q.erase(f, l); disarm(); rp = pos(q, r); }); disarm(); }
				e.i("rp", x == "none" ? rp : -1); finish(e, k, x, true); break; }
			case 6: { if (!g.chance(1, 2)) return find(k); long m = g.range(2, 9), j = g.below((size_t)m), r = -1; if (g.chance(1, 20)) m = 1, j = 0; drop(k, [&](long, long hc) { return hc / 1000 % m == j; });
				Ev e("erase_if"); e.i("k", k + 1).i("m", m).i("j", j); arm(n + 4);
				x = guarded([&] { r = (long)erase_if(q, [&](const auto& v) { may_throw(); return codeE(v) / 1000 % m == j; }); }); disarm();
				e.i("r", x == "none" ? r : -1); finish(e, k, x, true); break; }
			default: { if (!g.chance(1, 5)) return find(k); dropall(k); Ev e("clear"); e.i("k", k + 1); x = guarded([&] { q.clear(); }); finish(e, k, x); }
		}
	}
	void other(int k) {
		C& q = *c[k]; const C& cq = q; size_t n = q.size(); std::string x;
		switch (g.below(8)) {
			case 0: { // raw order
				Ev e("full"); e.i("k", k + 1); finish(e, k, "none", true); break; }
			case 1: { // access to a mapped value through an iterator
				if constexpr (MAP != 0) { if (!n) return; size_t p = g.below(n); long lo = g.below(999); long cd = codeE(*at(q, p)); Ev e("setv"); e.i("k", k + 1).i("p", (long)p).i("old", cd).i("v", cd / 1000 * 1000 + lo);
					at(q, p)->second = mkT(lo); finish(e, k, "none"); }
				else find(k);
				break; }
			case 2: { if constexpr (MAP != 0 && !MULTI) { long rank = pick(q), r = -1; Ev e("at"); e.i("k", k + 1).i("key", rank); { K kk = mkK(rank, 0); if (g.chance(1, 2)) x = guarded([&] { r = low(codeT(q.at(kk))); }); else x = guarded([&] { r = low(codeT(cq.at(kk))); }); } e.i("r", r); finish(e, k, x); } else find(k); break; }
			case 3: { if constexpr (FLAT) { if (!n) return; size_t p = g.below(n); Ev e("pos"); e.i("k", k + 1).i("p", (long)p).i("r", codeE(cq.pos(p))); finish(e, k, "none"); }
				else if constexpr (RADIX) prefix(k);
				else { size_t m = g.below(3 * soft + 10); int how = (int)g.below(3); Ev e("rehash"); e.i("k", k + 1).i("how", how).i("m", (long)m); hold(k); arm(n + 6);
					x = guarded([&] { if (how == 0) q.reserve(m); else if (how == 1) q.rehash(m); else if constexpr (ORD || RH) q.max_load_factor(0.2f + 0.1f * (float)g.below(6)); }); finish(e, k, x, true); }
				break; }
			case 4: { if constexpr (RADIX || ORD || RH) { dropall(k); Ev e("shrink"); e.i("k", k + 1); arm(n * 2 + 2); x = guarded([&] { if constexpr (HAS_SHRINK) shrink(q, 0); }); finish(e, k, x, true); }
				else if constexpr (FLAT) { // take the storage out and put it back
					Ev e("full"); e.i("k", k + 1); auto a = q.get_allocator(); { auto t = q.extract(); q.replace(std::move(t)); } finish(e, k, "none", true); }
				break; }
			case 5: order_ops(k); break;
			case 6: { if (dirty[1 - k]) return find(k); C& p = *c[1 - k]; Ev e("eq"); bool a = false, b = false; { const C& cp = p; x = guarded([&] { a = cq == cp; b = cq != cp; }); } e.i("k", k + 1).b("r", a).b("r2", b); finish(e, k, x); break; }
			default: find(k);
		}
	}
	void order_ops(int k);
	template<class Q, class It> static auto insert_sorted(Q& q, It f, It l, int) -> decltype(q.insert_pos(*f), void()) {
		#if FAM == 0
		if constexpr (MULTI) q.insert(seq::sorted_equivalent, f, l); else q.insert(seq::sorted_unique, f, l);
		#endif
	}
	template<class Q, class It> static void insert_sorted(Q&, It, It, long) {}
	template<class Q> static auto shrink(Q& q, int) -> decltype(q.shrink_to_fit()) { q.shrink_to_fit(); }
	template<class Q> static void shrink(Q&, long) {}
	void merge(int k) {
		if constexpr (HAS_MERGE) {
			C &q = *c[k], &p = *c[1 - k]; std::string x; dropall(0); dropall(1);
			if (q.get_allocator().id != p.get_allocator().id) return;
			Ev e("merge"); e.i("k", k + 1); arm(2 * (q.size() + p.size()) + 6); x = guarded([&] { q.merge(p); }); disarm();
			both(e, k, x);
		}
	}
	void both(Ev& e, int k, const std::string& x) {
		e.s("x", x).i("n", (long)c[k]->size()).i("n2", (long)c[1 - k]->size());
		if constexpr (ORD) if (x != "none") { probe(0); probe(1); e.b("dy1", dirty[0]).b("dy2", dirty[1]); }
		see(e, k, "c", "rv"); see(e, 1 - k, "d", "rd"); tail(e);
	}
	void xfer_step() {
		int k = (int)g.below(2), o = 1 - k; std::string x = "none"; C &q = *c[k], &p = *c[o];
		int op = (int)g.below(11), id = 1 + (int)g.below(3);
		if (op == 9 && !(PMV & 4) && q.get_allocator().id != p.get_allocator().id) op = 0;
		const char* nm[11] = { "copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "il_ctor", "swap", "range_ctor" };
		dropall(0); dropall(1);
		Ev e(nm[op]); e.i("k", k + 1); auto xs = codes(g.below(soft)); if (op == 8) xs.resize(2, fresh());
		if (op == 3 || op == 1 || op == 8 || op == 10) e.i("id", id);
		if (op == 10 || op == 8) e.l("vs", xs);
		size_t work = q.size() + p.size() + xs.size() * 4 + 4;
		std::optional<C> t;
		switch (op) {
			case 0: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p)); }); break; }
			case 1: { arm(work); x = guarded([&] { t.emplace(static_cast<const C&>(p), A(id)); }); break; }
			case 2: { arm(work); x = guarded([&] { t.emplace(std::move(p)); }); break; }
			case 3: { arm(work); x = guarded([&] { t.emplace(std::move(p), A(id)); }); break; }
			case 4: { arm(work); x = guarded([&] { q = static_cast<const C&>(p); }); break; }
			case 5: { arm(work); x = guarded([&] { q = std::move(p); }); break; }
			case 6: { arm(work); C& q2 = q; x = guarded([&] { q = static_cast<const C&>(q2); }); break; }
			case 7: { x = guarded([&] { q.swap(q); }); break; }
			case 8: { x = guarded([&] { t.emplace(std::initializer_list<V>{ mkE(xs[0]), mkE(xs[1]) }, A(id)); }); break; }
			case 9: { x = guarded([&] { q.swap(p); }); break; }
			default: { std::vector<V> l; for (long v : xs) l.push_back(mkE(v)); arm(work); x = guarded([&] { t.emplace(l.begin(), l.end(), A(id)); }); disarm(); break; }
		}
		disarm();
		if (t) { c[k].reset(); c[k].emplace(std::move(*t)); t.reset(); }
		both(e, k, x);
	}
	void step(int k) {
		size_t n = c[k]->size(); bool grow = n < soft ? g.chance(11, 20) : g.chance(1, 4);
		if (dirty[k]) { order_ops(k); return; }
		if (grow || n == 0) {
			switch (g.below(12)) { case 0: insert_range(k); break; case 1: case 2: assign_one(k); break; default: insert_one(k); }
		} else {
			switch (g.below(12)) { case 0: case 1: case 2: case 3: erase_some(k); break; case 4: case 5: case 6: case 7: find(k); break; case 8: if (g.chance(1, 2)) { merge(k); break; } [[fallthrough]]; default: other(k); }
		}
	}
	void session(int idx) {
		ledger_reset(); ids.clear(); next_id = 1; dirty[0] = dirty[1] = false; dropall(0); dropall(1);
		soft = big ? 100 + g.below(600) : g.chance(1, 3) ? 3 + g.below(6) : 10 + g.below(60);
		if (inject) soft = 2 + g.below(30);
		#ifdef DEEP
		if (mode == "deep") { soft = 130 + g.below(60); }
		#endif
		nk = NKEYS(g, soft);
		size_t steps = big || mode == "deep" ? 400 : 60 + g.below(100);
		int i0 = 1, i1 = 1 + (int)g.below(2);
		Session S(mode + "/" + std::to_string(idx), kv("type", NAME) + "," + kv("fam", FAMS[FAM]) + "," + kv("kind", KINDS[KIND]) + "," + kvb("multi", MULTI) + "," + kvb("stable", STABLE) + "," + kvb("map", MAP) + "," + kv("per", (long)PER) + "," + kv("pm", (long)PMV) + "," + kv("a1", (long)i0) + "," + kv("a2", (long)i1) + POOLCFG);
		c[0].emplace(A(i0)); c[1].emplace(A(i1));
		for (size_t i = 0; i < steps; ++i) {
			if (xfer && g.chance(1, 5) && !dirty[0] && !dirty[1]) { xfer_step(); continue; }
			int k = (xfer || g.chance(1, 8)) ? (int)g.below(2) : 0;
			step(k);
		}
		for (int k = 0; k < 2; ++k) { Ev e("full"); e.i("k", k + 1); finish(e, k, "none", true); }
		{ Ev e("destroy"); e.i("k", 1); dropall(0); dropall(1); c[0].reset(); c[1].reset();
			e.s("x", "none").i("lv", PER ? g_live : -1).i("tk", g_tok_live).i("bk", (long)g_blocks.size()).s("er", take_err()); }
	}
};
template<class C> void Runner<C>::order_ops(int k) {
	if constexpr (ORD) {
		#if FAM == 2
		order_ops_impl(*this, k);
		#endif
	} else find(k);
}
int main(int argc, char** argv) {
	if (argc < 5) return 2;
	start_log(argv[1]);
	uint64_t seed = strtoull(argv[2], nullptr, 10); long n = atol(argv[3]);
	for (long i = 0; i < n; ++i) { Runner<C> r(seed * 1000003 + (uint64_t)i * 101 + INST, argv[4]); r.session((int)i); }
	flush();
	return 0;
}
