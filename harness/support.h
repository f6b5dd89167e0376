// What the harnesses share: an auditing allocator and instance-counted elements.
#pragma once
#include <vector>
#include <deque>
#include <list>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>
#include <cmath>
#include "pbt.h"
#include "core_types.h"
#include "hal/memory_base.h"
#include "hal/platform_memory.h"

// Allocator that records every block it hands out. Blocks come from the system
// allocator one by one, so that address checking sees any overflow.
struct AuditMalloc : public MallocBase
{
	std::unordered_map<void*, std::pair<size_t, size_t>> live;
	uint64_t total = 0, frees = 0; size_t bytes = 0, peak_bytes = 0, peak_blocks = 0;
	bool dead = false;
	const char * name;
	AuditMalloc(const char * n = "allocator") : name(n) {}
	~AuditMalloc() { dead = true; }
	void * alloc(sizet size, sizet alignment = DEFAULT_ALIGNMENT) override
	{
		REQUIRE(!dead, "%s used after its end of life", name);
		REQUIRE((alignment & (alignment - 1)) == 0, "alignment %zu requested from %s is not a power of two", (size_t)alignment, name);
		REQUIRE(size < (1ull << 32), "%s: absurd request of %zu bytes", name, (size_t)size);
		size_t a = alignment < sizeof(void*) ? sizeof(void*) : alignment;
		void * p = nullptr; if (::posix_memalign(&p, a, size ? size : 1)) return nullptr;
		::memset(p, 0xCD, size);
		live[p] = {size, alignment}; ++total; bytes += size;
		if (bytes > peak_bytes) peak_bytes = bytes;
		if (live.size() > peak_blocks) peak_blocks = live.size();
		return p;
	}
	void * realloc(void * orig, sizet size, sizet alignment = DEFAULT_ALIGNMENT) override
	{
		if (!orig) return alloc(size, alignment);
		if (!size) { free(orig); return nullptr; }
		auto it = live.find(orig); REQUIRE(it != live.end(), "%s: realloc of a block it does not own", name);
		size_t old = it->second.first; void * p = alloc(size, alignment);
		::memcpy(p, orig, old < size ? old : size); free(orig); return p;
	}
	void free(void * p) override
	{
		REQUIRE(!dead, "%s used after its end of life", name);
		if (!p) return;
		auto it = live.find(p);
		REQUIRE(it != live.end(), "%s: free of a block it does not own (double free, or a block of another allocator)", name);
		bytes -= it->second.first; ::memset(p, 0xDD, it->second.first); live.erase(it); ++frees; ::free(p);
	}
	bool owns(const void * p) const { for (auto & b : live) if ((const char*)p >= (const char*)b.first && (const char*)p < (const char*)b.first + b.second.first) return true; return false; }
};

// Global allocator of the library replaced by an auditing one for the duration of a scope
struct GlobalAudit
{
	AuditMalloc audit{"global allocator"}; MallocBase * saved;
	GlobalAudit() { saved = gMalloc; gMalloc = &audit; }
	~GlobalAudit() { gMalloc = saved; }
	void expect_empty(const char * what)
	{
		REQUIRE(audit.live.empty(), "%s: %zu blocks (%zu bytes) never returned to the allocator", what, audit.live.size(), audit.bytes);
	}
};

// Element which knows whether it is alive. Value -1: moved from.
struct ObjStats
{
	std::unordered_map<const void*, int> live;   // address -> value at construction
	uint64_t constructed = 0, destroyed = 0;
	void reset() { live.clear(); constructed = destroyed = 0; }
};
inline ObjStats & objs() { static thread_local ObjStats & s = *new ObjStats; return s; }   // of each thread; outlives every element, also those destroyed at exit

template<int Pad>
struct ObjT
{
	int value; const ObjT * self; int * own; char pad[Pad];
	void born(int v) { auto & l = objs().live; REQUIRE(!l.count(this), "element constructed over a live element (value %d) that was never destroyed", l[this]); l[this] = v; ++objs().constructed; self = this; value = v; own = (int*)::malloc(sizeof(int)); *own = v; }
	void check(const char * what) const { REQUIRE(objs().live.count(this), "%s of an element that is not alive (destroyed or never constructed)", what); REQUIRE(self == this, "%s of an element that was moved bitwise", what); }
	ObjT() { born(0); }
	ObjT(int v) { born(v); }
	ObjT(const ObjT & o) { o.check("copy"); born(o.value); }
	ObjT(ObjT && o) { o.check("move"); born(o.value); o.set(-1); }
	ObjT & operator=(const ObjT & o) { check("assignment"); o.check("copy-assignment from"); set(o.value); return *this; }
	ObjT & operator=(ObjT && o) { check("assignment"); o.check("move-assignment from"); int v = o.value; if (this != &o) o.set(-1); set(v); return *this; }
	~ObjT() { auto & l = objs().live; auto it = l.find(this); REQUIRE(it != l.end(), "destruction of an element that is not alive (twice destroyed or never constructed)"); REQUIRE(self == this, "destruction of an element moved bitwise"); l.erase(it); ++objs().destroyed; ::free(own); self = nullptr; value = -77; }
	void set(int v) { value = v; *own = v; }
	int get() const { check("read"); REQUIRE(*own == value, "element payload corrupted"); return value; }
	bool operator<(const ObjT & o) const { return get() < o.get(); }
	bool operator>(const ObjT & o) const { return get() > o.get(); }
	bool operator<=(const ObjT & o) const { return get() <= o.get(); }
	bool operator>=(const ObjT & o) const { return get() >= o.get(); }
	bool operator==(const ObjT & o) const { return get() == o.get(); }
	bool operator!=(const ObjT & o) const { return get() != o.get(); }
};
using Obj = ObjT<1>;

// Plain elements
struct Pod { int a; short b; char c[6]; };       // 12 bytes

// Trivially constructed and destroyed, but must never be copied bitwise
// An element with an alignment larger than the default one
struct alignas(64) Lined
{
	int value; char tail[60];
	static bool ok(const void * p) { return ((uintptr_t)p & 63) == 0; }
	Lined(int v = 0) : value(v) { memset(tail, v, 60); check(); }
	Lined(const Lined & o) : value(o.get()) { memcpy(tail, o.tail, 60); check(); }
	Lined & operator=(const Lined & o) { check(); value = o.get(); memmove(tail, o.tail, 60); return *this; }
	~Lined() { check(); value = -77; }
	void check() const { const void * volatile p = this; REQUIRE(ok(p), "element at %p, its alignment is 64", (const void*)p); }
	int get() const { check(); for (char c : tail) REQUIRE(c == (char)value, "torn element"); return value; }
	bool operator<(const Lined & o) const { return get() < o.get(); }
	bool operator>(const Lined & o) const { return get() > o.get(); }
	bool operator<=(const Lined & o) const { return get() <= o.get(); }
	bool operator>=(const Lined & o) const { return get() >= o.get(); }
	bool operator==(const Lined & o) const { return get() == o.get(); }
	bool operator!=(const Lined & o) const { return get() != o.get(); }
};
// A large plain element
struct Big
{
	int value[1500];
	int get() const { for (int x : value) REQUIRE(x == value[0], "torn element"); return value[0]; }
	bool operator<(const Big & o) const { return value[0] < o.value[0]; }
	bool operator>(const Big & o) const { return value[0] > o.value[0]; }
	bool operator<=(const Big & o) const { return value[0] <= o.value[0]; }
	bool operator>=(const Big & o) const { return value[0] >= o.value[0]; }
	bool operator==(const Big & o) const { return value[0] == o.value[0]; }
	bool operator!=(const Big & o) const { return value[0] != o.value[0]; }
};
struct Self
{
	int value; const Self * self;
	Self() = default;
	Self(int v) : value(v), self(this) {}
	Self(const Self & o) : value(o.value), self(o.self == &o ? this : nullptr) {}   // a broken element stays broken
	Self & operator=(const Self & o) { value = o.value; self = o.self == &o ? this : nullptr; return *this; }
	int get() const { REQUIRE(self == this, "element was copied bitwise, or never constructed"); return value; }
	bool operator<(const Self & o) const { return get() < o.get(); }
	bool operator>(const Self & o) const { return get() > o.get(); }
	bool operator<=(const Self & o) const { return get() <= o.get(); }
	bool operator>=(const Self & o) const { return get() >= o.get(); }
	bool operator==(const Self & o) const { return get() == o.get(); }
	bool operator!=(const Self & o) const { return get() != o.get(); }
};

// Uniform access: make / read an element from an int
template<typename T> struct Elem { static T make(int v) { return T(v); } static int read(const T & t) { return (int)t; } static const char * name() { return "int"; } static constexpr bool counted = false; };
template<> struct Elem<char> { static char make(int v) { return (char)v; } static int read(const char & t) { return t; } static const char * name() { return "char"; } static constexpr bool counted = false; };
template<> struct Elem<long> { static long make(int v) { return v * 1000003l; } static int read(const long & t) { REQUIRE(t % 1000003l == 0, "torn element"); return (int)(t / 1000003l); } static const char * name() { return "long"; } static constexpr bool counted = false; };
template<> struct Elem<double> { static double make(int v) { return v + 0.5; } static int read(const double & t) { return (int)std::floor(t); } static const char * name() { return "double"; } static constexpr bool counted = false; };
template<> struct Elem<Pod> { static Pod make(int v) { return Pod{v, (short)v, {(char)v, (char)(v + 1), (char)(v + 2), (char)(v + 3), (char)(v + 4), (char)(v + 5)}}; } static int read(const Pod & p) { Pod q = make(p.a); REQUIRE(q.b == p.b && !::memcmp(q.c, p.c, 6), "torn element"); return p.a; } static const char * name() { return "pod12"; } static constexpr bool counted = false; };
template<> struct Elem<Lined> { static Lined make(int v) { return Lined(v); } static int read(const Lined & t) { return t.get(); } static const char * name() { return "element aligned to 64"; } static constexpr bool counted = false; };
template<> struct Elem<Big> { static Big make(int v) { Big b; for (int & x : b.value) x = v; return b; } static int read(const Big & t) { return t.get(); } static const char * name() { return "element of 6000 bytes"; } static constexpr bool counted = false; };
template<> struct Elem<Self> { static Self make(int v) { return Self(v); } static int read(const Self & t) { return t.get(); } static const char * name() { return "object that knows its address"; } static constexpr bool counted = false; };
template<int P> struct Elem<ObjT<P>> { static ObjT<P> make(int v) { return ObjT<P>(v); } static int read(const ObjT<P> & t) { return t.get(); } static const char * name() { return "owning object"; } static constexpr bool counted = true; };

inline std::string str(const std::vector<int> & v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 40; ++i) { if (i) s += ' '; s += std::to_string(v[i]); } if (v.size() > 40) s += " ..."; return s + "]"; }
