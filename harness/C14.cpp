// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=aligned_alloc -Wl,--wrap=memalign -Wl,--wrap=realloc
#include "sysmem.h"
#include "hal/malloc_binned.h"
namespace pbt {
const char * PROPERTY = "C14";
const char * RULE = "a case is a configuration of size classes and a history of allocations (biased to class boundaries), frees and reallocations, filling every live block with its own byte; non-trivial: at least three different classes served blocks and a block was freed and allocated after that";
}
static void drive(Src & s, MallocBinned & m, const MallocBinned::BucketInfo & info, size_t align, size_t cap)
{
	auto lg = [](size_t v) { size_t n = 0; while (v >>= 1) ++n; return n; };
	size_t classes = (lg(info.allocUnitMaxSize) - lg(info.allocUnitMinSize)) / lg(info.allocUnitIncrement); size_t largest = info.allocUnitMinSize; for (size_t i = 1; i < classes; ++i) largest *= info.allocUnitIncrement;
	size_t A = std::max<size_t>(align, 8); note("classes from %zu, times %zu, up to %zu; pools of %zu bytes; alignment %zu", (size_t)info.allocUnitMinSize, (size_t)info.allocUnitIncrement, largest, (size_t)info.poolSize, align);
	Blocks b; std::set<size_t> used; size_t frees = 0, again = 0, ops = 10 + s.length(300), total = 0, refused = 0;
	auto size_of = [&]() -> size_t { size_t z; switch (s.below(4)) { case 0: z = 1 + s.below(largest); break; case 1: { size_t c = info.allocUnitMinSize; for (size_t i = s.below(classes); i; --i) c *= info.allocUnitIncrement; z = c + s.below(3) - 1; break; } case 2: z = 1 + s.below(std::min<size_t>(largest, 100)); break; default: z = (1ull << s.below(lg(largest) + 1)) + s.below(3) - 1; } if (z < 1) z = 1; if (z > largest) z = largest; return z; };
	auto cls = [&](size_t z) { size_t i = 0, c = info.allocUnitMinSize; while (c < z) c *= info.allocUnitIncrement, ++i; return i; };
	for (size_t i = 0; i < ops; ++i)
	{
		unsigned op = s.weighted({10, 7, 3, 1, 1}); if (total > cap && op == 0) op = 1;
		switch (op)
		{
		case 0: { size_t z = size_of(), a = 1ull << s.below(13); while (a > A) a >>= 1; note("alloc %zu aligned %zu", z, a); void * q = m.alloc(z, a); REQUIRE(q, "request of %zu bytes refused, largest class is %zu", z, largest); b.take(q, z, a, "alloc"); REQUIRE(sysmem::holder(q, z), "block of %zu bytes not within memory held", z); total += z; used.insert(cls(z)); if (frees) ++again; break; }
		case 1: if (!b.live.empty()) { size_t k = s.below(b.live.size()); note("free #%zu (%zu bytes)", k, b.live[k].n); total -= b.live[k].n; m.free(b.drop(k, "before free")); ++frees; } break;
		case 2: if (!b.live.empty()) { size_t k = s.below(b.live.size()), z = size_of(); Blocks::B x = b.live[k]; note("realloc #%zu from %zu to %zu", k, x.n, z); label(cls(z) == cls(x.n) ? "realloc within class" : z > x.n ? "realloc to larger class" : "realloc to smaller class"); b.intact(k, "before realloc");
			unsigned char * r = (unsigned char*)m.realloc(x.p, z); REQUIRE(r, "realloc to %zu bytes refused", z); for (size_t j = 0; j < std::min(x.n, z); ++j) REQUIRE(r[j] == x.tag, "realloc from %zu to %zu lost byte %zu", x.n, z, j); total = total - x.n + z; b.spans.erase(x.p); b.live[k] = b.live.back(); b.live.pop_back(); b.take(r, z, 1, "realloc"); REQUIRE(sysmem::holder(r, z), "block not within memory held"); break; }
		case 3: { ++refused; size_t z = info.allocUnitMaxSize + 1 + s.below(100); note("alloc %zu, too large", z); label("too large"); REQUIRE(!m.alloc(z), "%zu bytes served", z); if (s.coin() && !b.live.empty()) { size_t k = s.below(b.live.size()); REQUIRE(!m.realloc(b.live[k].p, z), "realloc to %zu bytes served", z); b.intact(k, "after refused realloc"); } if (A < 512) REQUIRE(!m.alloc(1, A * 2), "alignment %zu served by pools aligned to %zu", A * 2, A); if (largest < info.allocUnitMaxSize) { size_t y = largest + 1 + s.below(info.allocUnitMaxSize - largest); void * q = m.alloc(y); if (q) { b.take(q, y, 8, "alloc between the largest class and the maximum"); total += y; } } break; }
		case 4: { note("free null"); m.free(nullptr); size_t z = size_of(); note("realloc null to %zu", z); void * q = m.realloc(nullptr, z); REQUIRE(q, "realloc of null refused"); b.take(q, z, 1, "realloc of null"); total += z; used.insert(cls(z)); break; }
		}
		if (i % 32 == 31) b.all_intact("history");
	}
	b.all_intact("end of history"); label(used.size() > 3 ? "more than 3 classes" : used.size() > 1 ? "2..3 classes" : "one class"); if (used.size() >= 3 && again) nontrivial();
	// everything freed is used again: the same blocks fit in the memory already held
	if (s.coin()) { std::vector<size_t> z; for (auto & x : b.live) z.push_back(x.n); while (!b.live.empty()) m.free(b.drop(s.below(b.live.size()), "before free")); size_t before = sysmem::bytes; for (size_t n : z) { void * q = m.alloc(n); REQ(q); b.take(q, n, 1, "refill"); } REQUIRE(sysmem::bytes <= before, "memory enlarged from %zu to %zu bytes although as much had been freed", before, sysmem::bytes); b.all_intact("refilled"); label("refilled"); }
}
static void config(Src & s)
{
	MallocBinned::BucketInfo i; size_t lo = s.below(8), inc = 1 + s.below(4), n = 1 + s.below(5); while (lo + inc * n > 15) { if (n > 1) --n; else if (inc > 1) --inc; else --lo; }
	i.allocUnitMinSize = 1ull << lo; i.allocUnitIncrement = 1ull << inc; i.allocUnitMaxSize = 1ull << (lo + inc * n + s.below(inc)); i.poolSize = 1ull << (s.below(4) ? 10 + s.below(4) : 4 + s.below(8)); if (s.below(3) == 0) i.poolSize += s.below(100); size_t align = 1ull << s.below(8); if (s.chance(1, 8)) { align = 256ull << s.below(5); i.poolSize = 16 + i.poolSize % 256; }
	if (s.chance(1, 40)) { label("many classes"); lo = s.below(4); inc = 1; n = 10 + s.below(9); if (lo + n > 19) n = 19 - lo; i.allocUnitMinSize = 1ull << lo; i.allocUnitIncrement = 2; i.allocUnitMaxSize = 1ull << (lo + n); i.poolSize = 64 + s.below(4000); align = 1ull << s.below(5); }
	label(lo == inc ? "minimum equals increment" : "minimum differs from increment");
	if (s.below(3) == 0)
	{	// sizes and factors that are not powers of two, as long as the classes stay within the maximum
		MallocBinned::BucketInfo j = i; j.allocUnitMinSize = 1 + s.below(200); j.allocUnitIncrement = 2 + s.below(14); j.allocUnitMaxSize = j.allocUnitMinSize * j.allocUnitIncrement + s.below(16000);
		auto lg = [](size_t v) { size_t n = 0; while (v >>= 1) ++n; return n; }; size_t classes = (lg(j.allocUnitMaxSize) - lg(j.allocUnitMinSize)) / lg(j.allocUnitIncrement), top = j.allocUnitMinSize; for (size_t k = 1; k < classes; ++k) top *= j.allocUnitIncrement;
		if (classes && top <= j.allocUnitMaxSize) { i = j; label((j.allocUnitIncrement & (j.allocUnitIncrement - 1)) ? "factor not a power of two" : "arbitrary sizes"); }
	}
	if (i.poolSize < i.allocUnitMaxSize) label("classes larger than a pool");
	sysmem::begin();
	{ MallocBinned m(i, align); drive(s, m, i, align, 200000); }
	sysmem::end("size-class allocator");
}
static void defaults(Src & s)
{
	MallocBinned::BucketInfo i{1ull << 16, 8, 1ull << 18, 8}; sysmem::begin();
	{ MallocBinned m; drive(s, m, i, 8, 2000000); }
	sysmem::end("size-class allocator");
}
// A program that gives back all it takes can be run over and over in the memory it needed at first
static void churn(Src & s)
{
	MallocBinned::BucketInfo i; size_t lo = s.below(6), inc = 1 + s.below(3), n = 2 + s.below(3); i.allocUnitMinSize = 1ull << lo; i.allocUnitIncrement = 1ull << inc; i.allocUnitMaxSize = 1ull << (lo + inc * n); i.poolSize = 1ull << (4 + s.below(7)); size_t align = 1ull << s.below(7), largest = 1ull << (lo + inc * (n - 1));
	struct Step { unsigned op; size_t k, z, a; }; std::vector<Step> prog; size_t len = 3 + s.length(25); bool moved = false;
	for (size_t k = 0; k < len; ++k) { Step t; t.op = s.weighted({4, 2, 4}); t.k = s.below(64); t.z = 1 + s.below(s.coin() ? largest : std::min<size_t>(largest, 40)); t.a = 1ull << s.below(8); while (t.a > std::max<size_t>(align, 8)) t.a >>= 1; prog.push_back(t); }
	note("classes from %zu, times %zu, up to %zu; pools of %zu; a program of %zu steps", (size_t)i.allocUnitMinSize, (size_t)i.allocUnitIncrement, largest, (size_t)i.poolSize, len);
	for (auto & t : prog) note("%s #%zu %zu aligned %zu", t.op == 0 ? "alloc" : t.op == 1 ? "free" : "realloc", t.k, t.z, t.a);
	sysmem::begin();
	{
		MallocBinned m(i, align); size_t first = 0, rounds = 3 + i.poolSize / i.allocUnitMinSize; if (rounds > 300) rounds = 300; if (s.coin()) rounds = 3 + s.below(20);
		for (size_t r = 0; r < rounds; ++r)
		{
			Blocks b;
			for (auto & t : prog)
			{
				if (t.op == 0) { void * q = m.alloc(t.z, t.a); REQUIRE(q, "round %zu: %zu bytes refused", r, t.z); b.take(q, t.z, t.a, "alloc"); }
				else if (b.live.empty()) continue;
				else if (t.op == 1) m.free(b.drop(t.k % b.live.size(), "before free"));
				else { size_t k = t.k % b.live.size(); Blocks::B x = b.live[k]; unsigned char * q = (unsigned char*)m.realloc(x.p, t.z); REQUIRE(q, "round %zu: realloc to %zu bytes refused", r, t.z); for (size_t j = 0; j < std::min(x.n, t.z); ++j) REQUIRE(q[j] == x.tag, "round %zu: realloc from %zu to %zu lost byte %zu", r, x.n, t.z, j); if (q != x.p) moved = true; b.spans.erase(x.p); b.live[k] = b.live.back(); b.live.pop_back(); b.take(q, t.z, 1, "realloc"); }
			}
			while (!b.live.empty()) m.free(b.drop(r % b.live.size(), "end of round"));
			if (r == 1) first = sysmem::bytes; if (r > 1) REQUIRE(sysmem::bytes <= first, "memory held grows from %zu to %zu bytes after %zu rounds of a program that frees all it allocates", first, sysmem::bytes, r);
		}
		if (moved && rounds > 3) nontrivial(); label(moved ? "blocks move" : "blocks stay"); label(rounds > 60 ? "more than 60 rounds" : "few rounds");
	}
	sysmem::end("size-class allocator");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"config", config, 120000, 500000, "generated class configurations"},
	{"defaults", defaults, 18000, 72000, "default configuration"},
	{"churn", churn, 9000, 60000, "a random program that frees all it allocates, run again and again: the memory held must not grow"},
};
}
