// NOSAN
// NOFUZZ
// FLAGS: -O2 -fwrapv
#include "support.h"
#include <thread>
#include <sched.h>
#include "templates/atomic.h"
namespace pbt {
const char * PROPERTY = "C17";
const char * RULE = "a case is a history of operations on one atomic variable (one thread, against ordinary arithmetic) or a set of threads each with its own program of operations on shared atomics, whose returned values must be those of some order of the operations; non-trivial: at least 4 operations, in the concurrent suites at least 2 threads with at least 100 operations each";
}
// ---- one thread, every width
template<typename T, typename A> static void sequential(Src & s, T (*val)(Src &))
{
	T m = val(s); A a(m); bool wrap = false; size_t ops = 4 + s.length(30); note("initial %lld", (long long)m);
	auto now = [&](const char * op) { REQUIRE(a.load() == m, "after %s the value is %lld, expected %lld", op, (long long)a.load(), (long long)m); };
	now("construction");
	for (size_t i = 0; i < ops; ++i)
	{
		T v = val(s), r, old = m; const char * op = "";
		switch (s.below(12))
		{
		case 0: op = "++a"; r = ++a; m = (T)(m + 1); REQUIRE(r == m, "++a returns %lld, expected %lld", (long long)r, (long long)m); break;
		case 1: op = "a++"; r = a++; m = (T)(m + 1); REQUIRE(r == old, "a++ returns %lld, expected %lld", (long long)r, (long long)old); break;
		case 2: op = "--a"; r = --a; m = (T)(m - 1); REQUIRE(r == m, "--a returns %lld, expected %lld", (long long)r, (long long)m); break;
		case 3: op = "a--"; r = a--; m = (T)(m - 1); REQUIRE(r == old, "a-- returns %lld, expected %lld", (long long)r, (long long)old); break;
		case 4: op = "a += v"; r = (a += v); m = (T)(m + v); REQUIRE(r == m, "a += %lld on %lld returns %lld, expected %lld", (long long)v, (long long)old, (long long)r, (long long)m); break;
		case 5: op = "a -= v"; r = (a -= v); m = (T)(m - v); REQUIRE(r == m, "a -= %lld on %lld returns %lld, expected %lld", (long long)v, (long long)old, (long long)r, (long long)m); break;
		case 6: op = "a = v"; r = (a = v); m = v; REQUIRE(r == m, "a = v returns %lld, expected %lld", (long long)r, (long long)m); break;
		case 7: op = "store"; a.store(v); m = v; break;
		case 8: op = "relaxed store"; a.store(v, A::AtomicOrder::Relaxed); m = v; break;
		case 9: op = "relaxed load"; REQUIRE(a.load(A::AtomicOrder::Relaxed) == m, "relaxed load"); break;
		case 10: op = "read"; REQUIRE((T)a == m, "conversion"); break;
		default: { op = "exchange"; volatile T x = m; r = PlatformAtomics::exchange(&x, v); REQUIRE(r == m && x == v, "exchange of %lld with %lld returns %lld and leaves %lld", (long long)m, (long long)v, (long long)r, (long long)x); r = PlatformAtomics::add(&x, (T)3); REQUIRE(r == v && x == (T)(v + 3), "add"); r = PlatformAtomics::sub(&x, (T)7); REQUIRE(r == (T)(v + 3) && x == (T)(v - 4), "sub"); PlatformAtomics::store(&x, m); REQ(PlatformAtomics::read(&x) == m); break; }
		}
		note("%s (v = %lld) -> %lld", op, (long long)v, (long long)m); now(op); label(op);
		if ((old < 0) != (m < 0) || (std::is_unsigned<T>::value && ((T)(old + 1) == 0 || old == 0))) wrap = true;
	}
	if (wrap) label("crosses zero or the ends of the range"); nontrivial();
}
template<typename T> static T anyv(Src & s) { return s.integer<T>(); }
template<typename T> static void seq(Src & s) { sequential<T, Atomic<T>>(s, anyv<T>); }
struct Large { char c[24]; };
template<typename T> static void pointers(Src & s)
{
	static T buf[64]; int m = s.below(64); Atomic<T*> a(&buf[m]); size_t ops = 4 + s.length(30); note("at %d of %zu-byte items", m, sizeof(T));
	for (size_t i = 0; i < ops; ++i)
	{
		int old = m, v = s.below(64); T * r; int e; const char * op; 
		switch (s.below(9))
		{
		case 0: op = "++p"; if (m > 62) continue; r = ++a; e = ++m; break;
		case 1: op = "p++"; if (m > 62) continue; r = a++; e = m++; break;
		case 2: op = "--p"; if (m < 1) continue; r = --a; e = --m; break;
		case 3: op = "p--"; if (m < 1) continue; r = a--; e = m--; break;
		case 4: op = "p += v"; r = (a += v - old); m = e = v; break;
		case 5: op = "p -= v"; r = (a -= old - v); m = e = v; break;
		case 6: op = "p = v"; r = (a = &buf[v]); m = e = v; break;
		case 7: op = "store"; a.store(&buf[v], s.coin() ? Atomic<T*>::AtomicOrder::Relaxed : Atomic<T*>::AtomicOrder::Sequential); r = a; m = e = v; break;
		default: { op = "exchange"; T * volatile x = &buf[old]; r = PlatformAtomics::exchange(&x, &buf[v]); REQ(x == &buf[v]); e = m; break; }
		}
		note("%s (v = %d) -> %d", op, v, m); label(op);
		REQUIRE(r == &buf[e], "%s at item %d returns byte offset %ld, expected %ld", op, old, (long)((char*)r - (char*)buf), (long)(e * sizeof(T)));
		REQUIRE(a.load() == &buf[m], "%s at item %d leaves byte offset %ld, expected %ld", op, old, (long)((char*)a.load() - (char*)buf), (long)(m * sizeof(T)));
	}
	nontrivial();
}
static void boolean(Src & s) { bool m = s.coin(); Atomic<bool> a(m); for (int i = 0; i < 6; ++i) { bool v = s.coin(); note("store %d", v); if (s.coin()) { bool r = (a = v); REQ(r == v); } else a.store(v, s.coin() ? Atomic<bool>::AtomicOrder::Relaxed : Atomic<bool>::AtomicOrder::Sequential); REQ(a.load() == v && (bool)a == v); volatile bool x = v, w = !v; REQ(PlatformAtomics::exchange(&x, w) == v && x == w); } nontrivial(); }
static void one_thread(Src & s) { switch (s.below(14)) { case 0: seq<int8>(s); break; case 1: seq<int16>(s); break; case 2: seq<int32>(s); break; case 3: seq<int64>(s); break; case 4: seq<uint8>(s); break; case 5: seq<uint16>(s); break; case 6: seq<uint32>(s); break; case 7: seq<uint64>(s); break; case 8: seq<ansichar>(s); break; case 9: pointers<int>(s); break; case 10: pointers<char>(s); break; case 11: pointers<Large>(s); break; case 12: pointers<double>(s); break; default: boolean(s); } }

// ---- several threads
struct Gate { volatile int waiting; int n; Gate(int k) : waiting(0), n(k) {} void pass() { __atomic_fetch_add(&waiting, 1, __ATOMIC_SEQ_CST); unsigned spins = 0; while (__atomic_load_n(&waiting, __ATOMIC_SEQ_CST) < n) if (++spins > 200) { sched_yield(); } } };
struct Rng { uint64_t s; uint32_t operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 20); } };
static void pace(Rng & r, unsigned jitter) { if (!jitter) return; unsigned x = r() % (jitter * 64); if (x < 6) { for (volatile unsigned k = 0; k < x * 20; ++k) {} } else if (x == 7) sched_yield(); }
static void run(unsigned n, const std::function<void(unsigned)> & f) { std::vector<std::thread> t; for (unsigned i = 0; i < n; ++i) t.emplace_back(f, i); for (auto & x : t) x.join(); }

// Each operation takes the variable from one value to another: the values left and the values reached must balance,
// and the steps must be connected.
template<typename T> static void counter(Src & s)
{
	unsigned n = 2 + s.below(3), k = 100 + s.below(900), jitter = s.below(3); unsigned mix = s.below(5); T init = s.integer<T>(); std::vector<uint64_t> seed; for (unsigned i = 0; i < n; ++i) seed.push_back(s.u64() | 1);
	note("%u threads, %u operations each, mix %u, initial %lld, %zu bytes", n, k, mix, (long long)init, sizeof(T)); label(mix == 0 ? "increments only" : mix == 1 ? "decrements only" : "mixed arithmetic");
	// neighbours of the atomic must not be disturbed
	struct { T before; Atomic<T> a{T(0)}; T after; } c; c.before = (T)0x5A; c.after = (T)0xA5; c.a = init; Gate g(n);
	std::vector<std::vector<std::pair<T, T>>> st(n); for (auto & v : st) v.resize(k); std::vector<char> order(n, 1);
	run(n, [&](unsigned t) {
		Rng r{seed[t]}; auto & v = st[t]; g.pass();
		for (unsigned i = 0; i < k; ++i)
		{
			unsigned op = mix == 0 ? r() % 2 : mix == 1 ? 2 + r() % 2 : mix == 2 ? r() % 4 : mix == 3 ? 4 + r() % 2 : r() % 6; T d = (T)(r() % 1000 + 1); pace(r, jitter);
			switch (op)
			{
			case 0: { T x = ++c.a; v[i] = {(T)(x - 1), x}; break; }
			case 1: { T x = c.a++; v[i] = {x, (T)(x + 1)}; break; }
			case 2: { T x = --c.a; v[i] = {(T)(x + 1), x}; break; }
			case 3: { T x = c.a--; v[i] = {x, (T)(x - 1)}; break; }
			case 4: { T x = (c.a += d); v[i] = {(T)(x - d), x}; break; }
			default: { T x = (c.a -= d); v[i] = {(T)(x + d), x}; break; }
			}
		}
	});
	REQUIRE(c.before == (T)0x5A && c.after == (T)0xA5, "a neighbour of the atomic was overwritten");
	T fin = c.a.load(), sum = init; std::map<T, long> bal; for (auto & v : st) for (auto & e : v) { sum = (T)(sum + (e.second - e.first)); ++bal[e.first]; --bal[e.second]; }
	REQUIRE(fin == sum, "%u threads of %u operations leave %lld, all updates together make %lld", n, k, (long long)fin, (long long)sum);
	--bal[init]; ++bal[fin]; for (auto & e : bal) REQUIRE(e.second == 0, "value %lld was returned or left %ld times more than it was reached", (long long)e.first, e.second);
	// with one direction only, and a range wide enough, each thread sees its own operations in order and no value comes twice
	if (sizeof(T) >= 4 && mix < 2) { std::set<T> all; for (auto & v : st) for (size_t i = 0; i < v.size(); ++i) { REQUIRE(all.insert(v[i].second).second, "value %lld was reached twice", (long long)v[i].second); if (i) { T step = (T)(v[i].second - v[i - 1].second); REQUIRE(mix == 0 ? (long long)(T)(step - 1) >= 0 && (long long)step <= (long long)n * k : (long long)(T)-(long long)step <= (long long)n * k, "a thread sees its operations out of order"); } } }
	nontrivial();
}
static void pointer_counter(Src & s)
{
	unsigned n = 2 + s.below(3), k = 100 + s.below(900); static double buf[1]; double * base = buf; Atomic<double*> a(base); Gate g(n); std::vector<std::vector<double*>> st(n); for (auto & v : st) v.resize(k); note("%u threads, %u steps of a pointer each", n, k);
	run(n, [&](unsigned t) { g.pass(); for (unsigned i = 0; i < k; ++i) st[t][i] = a++; });
	REQUIRE((uintptr_t)a.load() - (uintptr_t)base == (uintptr_t)n * k * sizeof(double), "%u steps leave byte offset %ld", n * k, (long)((char*)a.load() - (char*)base));
	std::set<double*> all; for (auto & v : st) for (double * p : v) REQUIRE(all.insert(p).second, "the same position handed out twice"); nontrivial();
}
// Exchanged values are neither duplicated nor dropped
template<typename T> static void exchanges(Src & s)
{
	unsigned n = 2 + s.below(3), k = sizeof(T) == 1 ? 30 : 100 + s.below(900), jitter = s.below(3); if (sizeof(T) == 1) { n = 3; k = 80; } volatile T v = 0; Gate g(n); std::vector<uint64_t> seed; for (unsigned i = 0; i < n; ++i) seed.push_back(s.u64() | 1);
	std::vector<std::vector<T>> got(n); for (auto & x : got) x.resize(k); note("%u threads exchange %u values each (%zu bytes)", n, k, sizeof(T));
	run(n, [&](unsigned t) { Rng r{seed[t]}; g.pass(); for (unsigned i = 0; i < k; ++i) { pace(r, jitter); got[t][i] = PlatformAtomics::exchange(&v, (T)(1 + t * k + i)); } });
	std::multiset<T> out; for (auto & x : got) out.insert(x.begin(), x.end()); out.insert((T)v); REQ(out.size() == n * k + 1); T e = 0; for (T x : out) { REQUIRE(x == e, "value %lld came out %zu times, expected once", (long long)e, out.count(e)); ++e; } nontrivial();
}
// Loads see whole stored values, in order
template<typename T> static void loads(Src & s)
{
	unsigned w = 1 + s.below(2), rd = 1 + s.below(2), k = 200 + s.below(1500); bool relaxed = s.coin(); Atomic<T> a(T(0)); Gate g(w + rd); unsigned half = sizeof(T) * 4; note("%u writers, %u readers, %u values%s", w, rd, k, relaxed ? ", relaxed" : ""); 
	auto pat = [&](uint64_t x) { x &= (1ull << half) - 1; return (T)(x << half | x); }; auto ord = relaxed ? Atomic<T>::AtomicOrder::Relaxed : Atomic<T>::AtomicOrder::Sequential; std::vector<std::string> bad(w + rd); volatile int stop = 0;
	run(w + rd, [&](unsigned t) {
		g.pass();
		if (t < w) { for (unsigned i = 1; i <= k; ++i) { T v = pat(i * w + t); if (i % 3) a.store(v, ord); else { T r = (a = v); if (r != v) bad[t] = "assignment of " + std::to_string((long long)v) + " returned " + std::to_string((long long)r); } } __atomic_fetch_add(&stop, 1, __ATOMIC_SEQ_CST); }
		else { uint64_t last = 0; while (true) { bool fin = __atomic_load_n(&stop, __ATOMIC_SEQ_CST) == (int)w; T v = a.load(ord); uint64_t lo = (uint64_t)v & ((1ull << half) - 1); if (pat(lo) != v) { bad[t] = "torn value " + std::to_string((long long)v); break; } if (w == 1 && sizeof(T) == 8) { if (lo < last) { bad[t] = "an older value after a newer one"; break; } last = lo; } if (fin) break; } }
	});
	for (auto & b : bad) REQUIRE(b.empty(), "%s", b.c_str()); nontrivial(); label("loads and stores");
}
// Sequential consistency of the default order: both threads cannot miss the other's store
static void store_buffering(Src & s)
{
	unsigned k = 200 + s.below(800); struct alignas(64) C { Atomic<int32> a{0}; }; static C x[1000], y[1000]; static int32 r1[1000], r2[1000]; for (unsigned i = 0; i < k; ++i) { x[i].a = 0; y[i].a = 0; } Gate g(2); note("store-buffering, %u rounds", k); bool asg = s.coin();
	struct alignas(64) P { volatile unsigned v = 0; } at[2];
	run(2, [&](unsigned t) { g.pass(); for (unsigned i = 0; i < k; ++i) { __atomic_store_n(&at[t].v, i + 1, __ATOMIC_SEQ_CST); unsigned spins = 0; while (__atomic_load_n(&at[!t].v, __ATOMIC_ACQUIRE) < i + 1) if (++spins > 1000) sched_yield(); if (t == 0) { if (asg) x[i].a = 1; else x[i].a.store(1); r1[i] = y[i].a.load(); } else { if (asg) y[i].a = 1; else y[i].a.store(1); r2[i] = x[i].a.load(); } } });
	for (unsigned i = 0; i < k; ++i) REQUIRE(r1[i] || r2[i], "round %u: both threads stored and neither saw the other's store", i); nontrivial(); label("store buffering");
}
// A message published by a store is seen complete by who loads it
static void publication(Src & s)
{
	unsigned k = 200 + s.below(1500); static uint64_t data[2048]; Atomic<uint32> flag(0u); Gate g(2); std::string bad; note("publication, %u messages", k); memset(data, 0, sizeof data);
	run(2, [&](unsigned t) { g.pass(); if (t == 0) for (unsigned i = 1; i <= k; ++i) { data[i] = i * 7919ull; if (i & 1) flag.store(i); else ++flag; } else { uint32 f = 0; while (f < k) { f = flag.load(); if (f && data[f] != f * 7919ull) { bad = "message " + std::to_string(f) + " seen incomplete"; break; } } } });
	REQUIRE(bad.empty(), "%s", bad.c_str()); nontrivial(); label("publication");
}
// Mutual exclusion built on exchange
static void lock(Src & s)
{
	unsigned n = 2 + s.below(3), k = 50 + s.below(300); volatile uint32 l = 0; uint64_t plain = 0; Gate g(n); note("lock by exchange, %u threads, %u rounds", n, k);
	run(n, [&](unsigned) { g.pass(); for (unsigned i = 0; i < k; ++i) { unsigned sp = 0; while (PlatformAtomics::exchange(&l, 1u)) if (++sp > 50) sched_yield(); uint64_t x = plain; asm volatile("" ::: "memory"); plain = x + 1; PlatformAtomics::store(&l, 0u); } });
	REQUIRE(plain == (uint64_t)n * k, "%u threads counted %llu under the lock instead of %u", n, (unsigned long long)plain, n * k); nontrivial(); label("lock");
}
static void arithmetic(Src & s) { switch (s.below(8)) { case 0: counter<int8>(s); break; case 1: counter<int16>(s); break; case 2: counter<int32>(s); break; case 3: counter<int64>(s); break; case 4: counter<uint8>(s); break; case 5: counter<uint16>(s); break; case 6: counter<uint32>(s); break; default: s.below(3) ? counter<uint64>(s) : pointer_counter(s); } }
static void other(Src & s) { switch (s.below(10)) { case 0: exchanges<uint32>(s); break; case 1: exchanges<int64>(s); break; case 2: exchanges<uint16>(s); break; case 3: exchanges<uint8>(s); break; case 4: loads<uint32>(s); break; case 5: loads<uint64>(s); break; case 6: loads<int64>(s); break; case 7: publication(s); break; case 8: lock(s); break; default: store_buffering(s); } }
namespace pbt {
std::vector<Suite> SUITES = {
	{"one-thread", one_thread, 400000, 5000000, "every integer width, bool and pointers against ordinary arithmetic"},
	{"arithmetic", arithmetic, 8000, 80000, "threads adding and subtracting on one variable", true},
	{"other", other, 8000, 80000, "exchange, load and store from several threads, litmus patterns", true},
};
}
