// Deterministic cooperative scheduler for unmodified multi-threaded code.
//
// The code under test is compiled with -fsanitize=thread (compile step only) and linked with
// rt.cpp, which implements the sanitizer's call-backs itself: every load, store and atomic
// operation of the code becomes a point at which the scheduler may switch to another thread.
// Threads are fibers of one OS thread, so one schedule is a pure function of (program, seed).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace rt {

struct Policy {
	enum Kind { RANDOM, PCT, LIST } kind = RANDOM;
	uint64_t seed = 1;
	unsigned mean = 50;                 // RANDOM: mean number of accesses between switches
	unsigned depth = 2;                 // PCT: number of priority change points
	unsigned len = 1000;                // PCT: estimated number of accesses
	std::vector<std::pair<uint64_t, int>> list; // LIST: (access index, fiber to switch to)
	int first = 0;                      // LIST: first fiber to run
	uint64_t max_steps = 400000;        // more accesses than this: the run hangs
	bool marks_only = false;            // only accesses to marked locations are switch points
	uint64_t fair_after = 60000;        // from here on strict round robin (fairness)
};

struct Result {
	bool hang = false;
	std::string error;                  // access to freed memory, ...
	uint64_t steps = 0;
	unsigned switches = 0;
};

// Runs the bodies as threads under the policy.
Result run(const std::vector<std::function<void()>>& bodies, const Policy& p);

bool in_run();
void halt();                // stop scheduling (crash handling)
int self();                 // index of the running fiber, -1 outside
uint64_t steps();
void note_error(const char* what);

// Access trace (lock check): record atomics and marked payload accesses.
struct Ev { int tid; char kind; int loc; int order; int order2; long val; long old; };
// kind: 'L' load 'S' store 'X' exchange/rmw success 'F' failed cas 'r' payload read 'w' payload write
void trace_start();
std::vector<Ev> trace_stop();
void trace_mark(void* p, size_t n, int loc, bool payload);  // give a location a number
void trace_user(char kind, int loc, long val);              // user event in the trace

// History of operations (recorded outside the instrumentation)
struct HEv { int c, i, k, a, b; };
void hist(int c, int i, int k = 0, int a = 0, int b = 0);
std::vector<HEv> hist_take();
// functors running on an element: mutating ones are alone
void fn_enter(const void* elem, bool mut);
void fn_leave(const void* elem, bool mut);
void live_add(long d);
long live_take();
bool may_throw_now();       // armed element failure
void set_elem_fail(long nth);
void reset_mutexes();

// Arena with freed-memory detection
void arena_reset();
void* arena_alloc(size_t n);
void arena_free(void* p, size_t n);
size_t arena_live();
const char* arena_error();
void set_alloc_fail(long nth); // nth next arena_alloc throws bad_alloc (0 = never)
}
