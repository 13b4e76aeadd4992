// C01: the lock types under the cooperative scheduler.
// usage: locks OUT SEED NRANDOM      (plus a systematic sweep of preemption positions)
#include "rt.hpp"
#include "../common.hpp"
#include <seq/lock.hpp>
#include <shared_mutex>
#include <memory>
using namespace vt;

static int pay[2];
static std::string g_head; // of the current session
static void evlist(const std::vector<rt::Ev>& ev, std::string& evs, size_t limit) {
	size_t n = 0; bool fences = false;
	for (auto& e : ev) if (e.kind == 'T') fences = true;
	for (auto& e : ev) {
		// without fences, relaxed loads order nothing
		if (!fences && (e.kind == 'L' || e.kind == 'F') && e.order == 0) continue;
		char b[96];
		std::string k;
		if (e.loc == 1) k = std::string("a") + e.kind; // aL aS aX aF aT
		else if (e.loc >= 2) k = std::string("p") + e.kind; // pr pw
		else k = std::string("u") + e.kind;
		bool acq = e.loc == 0 ? e.val != 0 : e.order == 1 || e.order == 2 || e.order == 4 || e.order == 5, rel = e.order >= 3;
		snprintf(b, sizeof b, "%s[\"%s\",%d,%d,%d,%d]", evs.empty() ? "" : ",", k.c_str(), e.tid + 1, e.loc, acq ? 1 : 0, rel ? 1 : 0);
		evs += b;
		if (++n > limit) break;
	}
}
static void crashed(const char*) {
	rt::halt();
	std::string evs; evlist(rt::trace_stop(), evs, 3000);
	raw(g_head); raw(evs); raw(evs.empty() ? "[\"crash\",1,0,0,0]]}\n" : ",[\"crash\",1,0,0,0]]}\n");
}

struct Op { int kind; int arg; };
enum { LK, SH, TRY, TRYSH, TRYFOR, GUARD, SHGUARD, TRY2, NK, MANY };

template<class L, bool Timed> struct World {
	std::unique_ptr<L> lk;
	std::vector<std::vector<Op>> prog;
	const char* name; bool shared; std::unordered_set<std::string> seen;

	void wcs(int t, int i) { // exclusive section
		rt::trace_user('W', 0, lk->is_locked());
		int a = pay[0]; int b = pay[1];
		pay[0] = a + 1; pay[1] = b + 1;
		(void)t; (void)i;
		rt::trace_user('w', 0, 0);
	}
	void rcs() {
		rt::trace_user('R', 0, lk->is_locked());
		volatile int a = pay[0]; volatile int b = pay[1]; (void)a; (void)b;
		rt::trace_user('r', 0, 0);
	}
	void body(int t) {
		L& l = *lk;
		for (size_t i = 0; i < prog[t].size(); ++i) {
			Op o = prog[t][i];
			switch (o.kind) {
				case LK: rt::trace_user('b', 0, 0); l.lock(); wcs(t, (int)i); l.unlock(); break;
				case SH: rt::trace_user('c', 0, 0); l.lock_shared(); rcs(); l.unlock_shared(); break;
				case TRY: rt::trace_user('b', 0, 0); if (l.try_lock()) { wcs(t, (int)i); l.unlock(); } else rt::trace_user('f', 0, 0); break;
				case TRY2: for (int k = 0; k < 3; ++k) { rt::trace_user('b', 0, 0); if (l.try_lock()) { wcs(t, (int)i); l.unlock(); break; } else rt::trace_user('f', 0, 0); } break;
				case TRYSH: rt::trace_user('c', 0, 0); if (l.try_lock_shared()) { rcs(); l.unlock_shared(); } else rt::trace_user('g', 0, 0); break;
				case TRYFOR: if constexpr (Timed) { rt::trace_user('b', 0, 0); if (l.try_lock_for(std::chrono::microseconds(o.arg))) { wcs(t, (int)i); l.unlock(); } else rt::trace_user('f', 0, 0); } break;
				case GUARD: { rt::trace_user('b', 0, 0); std::unique_lock<L> g(l); wcs(t, (int)i); break; }
				case MANY: { // many shared holders at once (one thread holds several shares)
					int k = 0;
					for (int j = 0; j < o.arg; ++j) {
						if (k == 0) rt::trace_user('c', 0, 0);
						if (l.try_lock_shared()) { if (k++ == 0) rt::trace_user('R', 0, l.is_locked()); }
						else if (k == 0) { rt::trace_user('g', 0, 0); rt::trace_user('e', 0, 0); }
					}
					if (k) { volatile int a = pay[0]; (void)a; for (int j = 0; j < k; ++j) { if (j == k - 1) rt::trace_user('r', 0, 0); l.unlock_shared(); } }
					else continue;
					break;
				}
				case SHGUARD: { rt::trace_user('c', 0, 0); std::shared_lock<L> g(l); rcs(); break; }
			}
			rt::trace_user('e', 0, 0);
		}
	}
	int usable() { // every holder has released: each kind of acquisition succeeds
		L& l = *lk;
		if (l.is_locked()) return 0;
		if (!l.try_lock()) return 0;
		if (l.try_lock() || l.try_lock_shared() || !l.is_locked()) return 0;
		l.unlock();
		if (!l.try_lock_shared()) return 0;
		if (l.try_lock()) return 0;
		l.unlock_shared();
		return l.is_locked() ? 0 : 1;
	}
	rt::Result once(const rt::Policy& p, const std::string& sname) {
		lk.reset(new L()); pay[0] = pay[1] = 0;
		std::vector<std::function<void()>> bodies;
		for (size_t t = 0; t < prog.size(); ++t) bodies.push_back([this, t] { body((int)t); });
		g_head = "{\"s\":\"" + sname + "\",\"cfg\":{" + kv("type", name) + "," + kv("nt", (long)prog.size()) + "," + kvb("shared", shared) + "},\"ev\":[";
		op_timer(30);
		rt::trace_start();
		rt::trace_mark(lk.get(), sizeof(L), 1, false);
		rt::trace_mark(&pay[0], 4, 2, true); rt::trace_mark(&pay[1], 4, 3, true);
		std::string pre;
		rt::Policy pm = p; pm.marks_only = true; rt::Result r = rt::run(bodies, pm);
		std::vector<rt::Ev> ev = rt::trace_stop();
		std::string evs; char endb[96];
		evlist(ev, evs, r.hang ? 3000 : ~size_t(0));
		snprintf(endb, sizeof endb, ",[\"end\",%d,%d,%d,%d]", r.hang ? 1 : 0, r.hang ? 1 : usable(), pay[0], pay[1]);
		evs += endb;
		if (!seen.insert(evs).second) return r;
		raw(g_head); raw(evs); raw("]}\n");
		if (g_n > (1u << 20)) flush();
		return r;
	}
	void all(uint64_t seed, int nrandom) {
		Rng g(seed);
		int per = 0;
		for (int i = 0; i < nrandom; ++i) {
			int nt = 2 + (int)g.below(2); prog.assign(nt, {});
			for (auto& q : prog) { int k = 1 + (int)g.below(4); for (int j = 0; j < k; ++j) { int o; do o = (int)g.below(NK); while (!Timed && o == TRYFOR); q.push_back({ o, (int)g.below(3) * 50 }); } }
			rt::Policy p; p.seed = g.next();
			p.max_steps = 60000; p.fair_after = 6000;
			if (g.chance(1, 3)) { p.kind = rt::Policy::PCT; p.depth = 1 + (unsigned)g.below(3); p.len = 40; }
			else { p.kind = rt::Policy::RANDOM; p.mean = 1 + (unsigned)g.below(5); }
			once(p, std::string(name) + "/r" + std::to_string(i));
			(void)per;
		}
		if (shared) for (int i = 0; i < nrandom / 10 + 2; ++i) {
			prog.assign(2 + g.below(2), {});
			for (size_t t = 0; t < prog.size(); ++t) { if (t == 0 || g.chance(1, 3)) prog[t].push_back({ MANY, 20 + (int)g.below(110) }); else { int k = 1 + (int)g.below(3); for (int j = 0; j < k; ++j) prog[t].push_back({ g.chance(1, 2) ? TRY2 : (int)g.below(4), 0 }); } }
			rt::Policy p; p.seed = g.next(); p.max_steps = 60000; p.fair_after = 6000;
			if (g.chance(1, 2)) { p.kind = rt::Policy::PCT; p.depth = 2 + (unsigned)g.below(6); p.len = 500; } else { p.mean = 20 + (unsigned)g.below(60); }
			once(p, std::string(name) + "/m" + std::to_string(i));
		}
		// every pair of preemption points of small programs
		std::vector<std::vector<std::vector<Op>>> progs = {
			{ { { LK, 0 } }, { { LK, 0 }, { LK, 0 } } },
			{ { { LK, 0 } }, { { SH, 0 } } },
			{ { { TRY, 0 }, { SH, 0 } }, { { LK, 0 } } },
			{ { { TRYSH, 0 }, { LK, 0 } }, { { LK, 0 } } },
			{ { { SH, 0 } }, { { SH, 0 } }, { { LK, 0 } } },
			{ { { LK, 0 } }, { { LK, 0 } }, { { SH, 0 } } },
			{ { { LK, 0 } }, { { TRY, 0 } }, { { TRYSH, 0 } } },
		};
		if (Timed) progs.insert(progs.begin(), { { { TRYFOR, 0 } }, { { LK, 0 } } });
		int idx = 0;
		for (auto& q : progs) {
			prog = q; int nt = (int)q.size();
			std::vector<rt::Policy> todo;
			uint64_t LN = 16;
			int stride = nrandom >= 1000 ? 1 : 3;
			uint64_t off = g.below(stride);
			for (int first = 0; first < nt; ++first)
				for (uint64_t a = 1; a <= LN; ++a)
					for (int ta = 0; ta < nt; ++ta) {
						if (ta == first) continue;
						for (uint64_t b = a + 1; b <= LN + 8; ++b) {
							if (nt > 2 && (a * 31 + b) % stride != off) continue;
							rt::Policy p; p.kind = rt::Policy::LIST; p.first = first; p.list = { { a, ta }, { b, (int)((ta + 1) % nt) } }; p.max_steps = 60000; p.fair_after = 6000;
							todo.push_back(p);
						}
					}
			if (nt == 2) for (int first = 0; first < 2; ++first)
				for (uint64_t a = 1; a <= 9; ++a) for (uint64_t b = a + 1; b <= 15; ++b) for (uint64_t c = b + 1; c <= 18; ++c) {
					if ((a * 31 + b * 7 + c) % stride != off) continue;
					rt::Policy p; p.kind = rt::Policy::LIST; p.first = first; p.list = { { a, 1 - first }, { b, first }, { c, 1 - first } }; p.max_steps = 60000; p.fair_after = 6000;
					todo.push_back(p);
				}
			for (auto& p : todo) once(p, std::string(name) + "/s" + std::to_string(idx++));
		}
	}
};

#define RUN(TYPE, NAME, TIMED, SHARED) { World<TYPE, TIMED> w; w.name = NAME; w.shared = SHARED; w.all(seed * 17 + __COUNTER__, n); }
int main(int argc, char** argv) {
	if (argc < 4) return 2;
	start_log(argv[1]);
	rt::arena_reset(); g_on_crash = crashed;
	uint64_t seed = strtoull(argv[2], nullptr, 10); int n = atoi(argv[3]); int which = argc > 4 ? atoi(argv[4]) : -1;
	if (which < 0 || which == 0) RUN(seq::spinlock, "spinlock", true, false)
	if (which < 0 || which == 1) RUN(seq::shared_spinlock, "shared_spinner<uint32>", false, true)
	if (which < 0 || which == 2) RUN(seq::shared_spinner<uint8_t>, "shared_spinner<uint8>", false, true)
	if (which < 0 || which == 3) RUN(seq::shared_spinner<uint16_t>, "shared_spinner<uint16>", false, true)
	if (which < 0 || which == 4) RUN(seq::shared_spinner<uint64_t>, "shared_spinner<uint64>", false, true)
	flush();
	return 0;
}
