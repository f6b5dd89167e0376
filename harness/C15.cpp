// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=aligned_alloc -Wl,--wrap=memalign -Wl,--wrap=realloc
#include "sysmem.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_object.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
namespace pbt {
const char * PROPERTY = "C15";
const char * RULE = "a case is a history of allocations, resizes and frees of many sizes and alignments, filling every live block with its own byte; non-trivial: at least 3 resizes of live blocks, one of which changed the size";
}
static size_t size_of(Src & s) { switch (s.below(5)) { case 0: return 1 + s.below(32); case 1: return (1ull << s.below(17)) + s.below(3) - 1; case 2: return 1 + s.below(5000); case 3: return s.below(4) ? 1 + s.below(300) : s.below(200000); default: return 1 + s.below(300); } }
static void ansi(Src & s)
{
	sysmem::begin();
	{
		MallocAnsi m; MallocBase & mb = m; Blocks b; size_t ops = 8 + s.length(80), total = 0, resized = 0; bool changed = false; bool faults = s.below(3) == 0;
		for (size_t i = 0; i < ops; ++i)
		{
			unsigned op = s.weighted({8, 5, 8, 1, 2, 1}); if (total > 400000 && op == 0) op = 1; size_t z = size_of(s), a = 1ull << (s.below(3) ? s.below(8) : s.below(17)); bool arm = faults && s.below(6) == 0;
			switch (op)
			{
			case 0: { bool dflt = s.coin(); if (dflt) a = 8; note("alloc %zu aligned %zu%s", z, a, arm ? ", system refuses" : ""); if (arm) sysmem::fail_in = 0; void * q = dflt ? mb.alloc(z) : mb.alloc(z, a); if (arm) { sysmem::fail_in = -1; label("system refuses"); REQUIRE(!q, "a block although the system refused"); break; } REQUIRE(q || !z, "no block of %zu bytes", z); if (q) { REQUIRE(sysmem::holder(q, z), "block of %zu bytes not within memory held", z); b.take(q, z, a, "alloc"); total += z; } break; }
			case 1: if (!b.live.empty()) { size_t k = s.below(b.live.size()); note("free #%zu (%zu)", k, b.live[k].n); total -= b.live[k].n; mb.free(b.drop(k, "before free")); } break;
			case 2: if (!b.live.empty()) { size_t k = s.below(b.live.size()); Blocks::B x = b.live[k]; if (total > 600000) z = std::min(z, x.n); if (s.below(6) == 0) z = x.n; if (!z) z = 1; bool dflt = s.coin(); if (dflt) a = 8; note("realloc #%zu from %zu to %zu aligned %zu%s", k, x.n, z, a, arm ? ", system refuses" : ""); b.intact(k, "before realloc"); if (arm) sysmem::fail_in = 0;
				unsigned char * r = (unsigned char*)(dflt ? mb.realloc(x.p, z) : mb.realloc(x.p, z, a)); if (arm && sysmem::fail_in < 0) { label("system refuses"); REQUIRE(!r, "a block although the system refused"); b.intact(k, "after refused realloc"); REQUIRE(sysmem::holder(x.p, x.n), "block released by a refused realloc"); break; } sysmem::fail_in = -1;
				REQUIRE(r, "realloc to %zu refused", z); REQUIRE(sysmem::holder(r, z), "block of %zu bytes not within memory held", z); for (size_t j = 0; j < std::min(x.n, z); ++j) REQUIRE(r[j] == x.tag, "realloc from %zu to %zu lost byte %zu", x.n, z, j); total = total - x.n + z; b.spans.erase(x.p); b.live[k] = b.live.back(); b.live.pop_back(); b.take(r, z, a, "realloc"); ++resized; if (z != x.n) changed = true; label(z > x.n ? "realloc larger" : z < x.n ? "realloc smaller" : "realloc same size"); break; }
			case 3: if (!b.live.empty()) { size_t k = s.below(b.live.size()); note("realloc #%zu to nothing", k); label("realloc to nothing"); total -= b.live[k].n; void * p = b.drop(k, "before"); void * q = mb.realloc(p, 0); REQUIRE(!q, "realloc to nothing answers a block"); REQUIRE(!sysmem::holder(p, 0) || sysmem::live().find(p) == sysmem::live().end(), "realloc to nothing keeps the block"); } break;
			case 4: { if (!z) z = 1; note("realloc null to %zu", z); label("realloc null"); void * q = mb.realloc(nullptr, z, a); REQUIRE(q, "realloc of null refused"); REQUIRE(sysmem::holder(q, z), "block not within memory held"); b.take(q, z, a, "realloc of null"); total += z; break; }
			case 5: { note("free null"); mb.free(nullptr); break; }
			}
			if (i % 16 == 15) b.all_intact("history");
		}
		b.all_intact("end"); if (resized >= 3 && changed) nontrivial(); while (!b.live.empty()) mb.free(b.drop(b.live.size() - 1, "free"));
	}
	sysmem::end("system allocator");
}
// The global allocator is the system one
static void global(Src & s) { sysmem::begin(); { REQ(gMalloc != nullptr); size_t z = size_of(s) + 1, a = 1ull << s.below(12); void * p = gMalloc->alloc(z, a); REQ(p && ((uintptr_t)p & (a - 1)) == 0); REQUIRE(sysmem::holder(p, z), "global allocator gave less than %zu bytes", z); memset(p, 3, z); size_t y = size_of(s) + 1; unsigned char * q = (unsigned char*)gMalloc->realloc(p, y, a); REQ(q && ((uintptr_t)q & (a - 1)) == 0); REQ(sysmem::holder(q, y)); for (size_t i = 0; i < std::min(y, z); ++i) REQ(q[i] == 3); gMalloc->free(q); nontrivial(); note("%zu then %zu bytes aligned %zu", z, y, a); } sysmem::end("global allocator"); }

struct alignas(64) Wide { char c[64]; }; struct alignas(32) Half { double d[12]; }; struct Odd { char c[13]; };
template<typename T, typename M> static void typed(Src & s, M & mo, size_t maxn)
{
	Blocks b; size_t ops = 4 + s.length(30), resized = 0;
	for (size_t i = 0; i < ops; ++i) switch (i ? s.weighted({5, 3, 4}) : 0u)
	{
	case 0: { bool one = s.below(4) == 0; size_t n = one ? 1 : 1 + s.below(maxn); note("alloc %zu objects", n); T * t = one ? mo.alloc() : mo.alloc(n); REQ(t); b.take(t, n * sizeof(T), alignof(T), "typed alloc"); break; }
	case 1: if (!b.live.empty()) { size_t k = s.below(b.live.size()); note("free #%zu", k); mo.free((T*)b.drop(k, "before free")); } break;
	case 2: if (!b.live.empty()) { size_t k = s.below(b.live.size()), n = 1 + s.below(maxn); Blocks::B x = b.live[k]; note("realloc #%zu from %zu to %zu objects", k, x.n / sizeof(T), n); T * r = mo.realloc((T*)x.p, n); REQ(r); for (size_t j = 0; j < std::min(x.n, n * sizeof(T)); ++j) REQUIRE(((unsigned char*)r)[j] == x.tag, "realloc lost byte %zu", j); b.spans.erase(x.p); b.live[k] = b.live.back(); b.live.pop_back(); b.take(r, n * sizeof(T), alignof(T), "typed realloc"); ++resized; } break;
	}
	b.all_intact("end"); if (resized >= 3) nontrivial(); while (!b.live.empty()) mo.free((T*)b.drop(b.live.size() - 1, "free"));
}
template<typename T> static void typed_all(Src & s)
{
	GlobalAudit g; AuditMalloc mine("given allocator");
	switch (s.below(4))
	{
	case 0: { MallocObject<T> mo; note("global"); typed<T>(s, mo, 40); REQUIRE(g.audit.total > 0 && g.audit.live.empty(), "typed allocation does not balance with the global allocator"); break; }
	case 1: { MallocObject<T> mo(&mine); note("given allocator"); typed<T>(s, mo, 40); REQUIRE(g.audit.total == 0, "typed allocation bypasses the given allocator"); REQ(mine.live.empty()); break; }
	case 2: { MallocObject<T, MallocAnsi> mo; note("own system allocator"); typed<T>(s, mo, 40); REQUIRE(g.audit.total == 0, "typed allocation bypasses its own allocator"); break; }
	case 3: { uint32 N = 5; MallocObject<T, MallocPooled> mo(N, sizet(4 * sizeof(T)), sizet(alignof(T)), 1u); note("own growing pool"); typed<T>(s, mo, 4); REQUIRE(g.audit.total == 0, "typed allocation bypasses its own allocator"); break; }
	}
	REQ(g.audit.live.empty());
}
static void typed_suite(Src & s) { sysmem::begin(); switch (s.below(6)) { case 0: typed_all<int>(s); break; case 1: typed_all<char>(s); break; case 2: typed_all<Wide>(s); break; case 3: typed_all<Half>(s); break; case 4: typed_all<Odd>(s); break; default: typed_all<double>(s); } sysmem::end("typed allocation"); }
namespace pbt {
std::vector<Suite> SUITES = {
	{"ansi", ansi, 120000, 500000, "MallocAnsi"},
	{"global", global, 30000, 120000, "the global allocator"},
	{"typed", typed_suite, 120000, 500000, "MallocObject over several allocators"},
};
}
