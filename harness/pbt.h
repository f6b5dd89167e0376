// Small property-based testing engine: every random decision of a case is a
// recorded "choice", so that a failing case is a list of integers which can be
// replayed and shrunk without knowing what the integers mean.
//
// Cases run in forked workers (crashes, sanitizer reports and hangs are just
// another way of failing); the parent confirms, shrinks and writes the replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>

namespace pbt {

static constexpr size_t MAX_CHOICES = 1u << 16;
static constexpr size_t MAX_TEXT = 1u << 16;

// State shared between a worker and the parent
struct Shared {
	volatile uint64_t current;          // global index of the running case
	volatile uint64_t progress;         // bumped at each case
	volatile uint32_t suite;
	volatile uint32_t num_choices;
	volatile uint32_t failed;           // 1: oracle failure, 2: trap from sanitizer
	volatile uint32_t done;
	volatile uint64_t evaluations, nontrivial;
	char message[4096];
	uint32_t text_len;
	char text[MAX_TEXT];
	uint32_t choices[MAX_CHOICES];
};
extern Shared * sh;
extern bool tracing;
extern thread_local bool quiet;             // threads of a case: no notes, no labels, choices are not recorded
extern int (*instead_of_main)();         // what a process started by a case does instead of running cases

// Source of choices
class Src {
public:
	uint64_t state; const uint32_t * in; size_t n_in; bool replay; uint64_t hash;
	size_t pos;
	Src(uint64_t seed) : state(seed), in(nullptr), n_in(0), replay(false), hash(1469598103934665603ull), pos(0) { sh->num_choices = 0; }
	Src(const uint32_t * c, size_t n) : state(0), in(c), n_in(n), replay(true), hash(1469598103934665603ull), pos(0) { if (!quiet) sh->num_choices = 0; }
	bool spent() const { return pos >= n_in; }

	uint64_t rnd() { uint64_t z = (state += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	// A choice in [0, n); 0 is the simplest
	uint32_t below(uint64_t n)
	{
		if (n <= 1) return 0;
		uint32_t v;
		if (replay) { v = pos < n_in ? in[pos] : 0; if (v >= n) v = (uint32_t)(v % n); }
		else v = (uint32_t)(rnd() % n);
		++pos;
		if (!quiet && sh->num_choices < MAX_CHOICES) { sh->choices[sh->num_choices] = v; sh->num_choices = sh->num_choices + 1; }
		hash = (hash ^ v) * 1099511628211ull;
		return v;
	}
	// lo is the simplest
	int64_t range(int64_t lo, int64_t hi) { uint64_t span = (uint64_t)hi - (uint64_t)lo; if (span == ~0ull) return (int64_t)u64(); if (span >= 0xffffffffull) { uint64_t v = u64() % (span + 1); return (int64_t)((uint64_t)lo + v); } return (int64_t)((uint64_t)lo + below(span + 1)); }
	// true with probability num/den; false is the simplest
	bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
	bool coin() { return below(2); }
	uint64_t u32() { return ((uint64_t)below(65536) << 16) | below(65536); }
	uint64_t u64() { uint64_t a = u32(); return (a << 32) | u32(); }
	// Pick weighted index
	unsigned weighted(std::initializer_list<unsigned> w) { unsigned t = 0; for (unsigned x : w) t += x; unsigned v = below(t); unsigned i = 0; for (unsigned x : w) { if (v < x) return i; v -= x; ++i; } return 0; }
	template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	template<typename V> auto & of(V & v) { return v[below(v.size())]; }
	// Length-like number: mostly small, sometimes up to max
	uint64_t length(uint64_t max)
	{
		uint64_t a;
		switch (below(8)) { case 0: case 1: case 2: a = 4; break; case 3: case 4: a = 12; break; case 5: a = 40; break; case 6: a = 150; break; default: a = max; }
		if (a > max) a = max;
		return below(a + 1);
	}
	// A large number of items: around the sizes where narrow counters, buffers and thresholds change behaviour
	uint64_t large(uint64_t max = 70000)
	{
		uint64_t n;
		switch (below(4)) { case 0: n = 250 + below(20); break; case 1: n = (1ull << (9 + below(8))) + below(7) - 3; break; case 2: n = 1 + below(1ull << (8 + below(9))); break; default: n = 65530 + below(20); }
		return n > max ? max - below(max / 4 + 1) : n;
	}
	// An "interesting" 64-bit pattern of given width
	uint64_t bits(unsigned width)
	{
		uint64_t v;
		switch (below(7))
		{
		case 0: v = below(17); break;
		case 1: v = (uint64_t)0 - (1 + below(16)); break;
		case 2: v = 1ull << below(width); break;
		case 3: v = (1ull << below(width)) - 1; break;
		case 4: v = (uint64_t)0 - (1ull << below(width)); break;
		case 5: v = (1ull << below(width)) + below(3); break;
		default: v = u64(); v >>= below(width); break;
		}
		return width >= 64 ? v : v & ((1ull << width) - 1);
	}
	template<typename T> T integer() { return (T)bits(8 * sizeof(T)); }
};

// ---- Called from case functions
[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));   // readable trace (only kept when tracing)
void label(const char * name, uint64_t n = 1);                            // classify
void nontrivial();                                                       // current case satisfies the rule
std::string show(const std::string & s);                                 // printable

#define REQUIRE(cond, ...) do { if (!(cond)) { char _m[1500]; snprintf(_m, sizeof _m, __VA_ARGS__); ::pbt::fail("%s:%d: %s -- %s", __FILE__, __LINE__, #cond, _m); } } while (0)
#define REQ(cond) do { if (!(cond)) ::pbt::fail("%s:%d: %s", __FILE__, __LINE__, #cond); } while (0)

// schedule: the outcome also depends on thread schedules; one failing execution is the witness,
// replays repeat the case
struct Suite { const char * name; void (*fn)(Src &); uint64_t quick, thorough; const char * rule; bool schedule = false; };
// Defined by each harness
extern const char * PROPERTY;
extern const char * RULE;
extern std::vector<Suite> SUITES;
} // namespace pbt

using pbt::Src; using pbt::note; using pbt::label; using pbt::nontrivial;
