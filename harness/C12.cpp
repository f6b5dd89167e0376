// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=aligned_alloc -Wl,--wrap=memalign -Wl,--wrap=realloc
#include "sysmem.h"
#include "hal/malloc_pool.h"
namespace pbt {
const char * PROPERTY = "C12";
const char * RULE = "a case is a pool geometry (block count, size, alignment, own or given buffer) and a history of allocations and frees in any order, filling every live block with its own byte; non-trivial: at least 6 operations, in which a block was had again after a free";
}
struct Geo { uint32 n; size_t size, align; bool given; };
static Geo geometry(Src & s)
{
	Geo g; switch (s.below(5)) { case 0: g.n = 1 + s.below(3); break; case 1: g.n = 1 + s.below(12); break; case 2: g.n = 1 + s.below(60); break; case 3: g.n = 1 + s.below(300); break; default: g.n = s.chance(1, 4) ? 0 : 1 + s.below(8); }
	switch (s.below(5)) { case 0: g.size = 1 + s.below(16); break; case 1: g.size = 8 * (1 + s.below(12)); break; case 2: g.size = (1ull << s.below(9)) + s.below(3) - (s.below(2)); if (!g.size) g.size = 1; break; case 3: g.size = 1 + s.below(300); break; default: g.size = 24; }
	g.align = 1ull << s.below(10); g.given = s.coin(); return g;
}
struct Room { char * raw = nullptr; void * buf = nullptr; size_t bytes = 0; Room(const Geo & g) { if (!g.given) return; size_t a = std::max<size_t>(g.align, 8); bytes = g.n * (g.size + 8 + a) + 1; if (__real_posix_memalign((void**)&raw, a, bytes)) abort(); buf = raw; } ~Room() { if (raw) __real_free(raw); } };

static void pool(Src & s)
{
	Geo g = geometry(s); Room room(g); note("pool of %u blocks of %zu bytes aligned to %zu%s", g.n, g.size, g.align, g.given ? " in a given buffer" : ""); sysmem::begin();
	{
		Blocks b; char outside[64]; bool again = false; size_t ops = 8 + s.length(400), frees = 0;
		MemoryPool p(g.n, g.size, g.align, room.buf); label(g.n == 0 ? "no blocks" : g.n == 1 ? "one block" : g.n < 20 ? "2..19 blocks" : "20 blocks or more"); label(g.align > 8 ? "alignment above default" : g.align < 8 ? "alignment below default" : "alignment 8"); label(g.size % 8 ? "odd block size" : "block size multiple of 8");
		unsigned bias = 1 + s.below(6);
		for (size_t i = 0; i < ops; ++i)
		{
			REQUIRE(p.getNumFreeBlocks() == g.n - b.live.size(), "%u free blocks reported, expected %zu", p.getNumFreeBlocks(), g.n - b.live.size()); REQ(p.isExhausted() == (b.live.size() == g.n));
			if (b.live.empty() || s.below(8) < bias + (i < g.n ? 2 : 0))
			{
				void * q = p.acquireBlock(); if (b.live.size() == g.n) { label("exhausted"); REQUIRE(!q, "a block came out of an exhausted pool"); continue; }
				REQUIRE(q, "no block, %zu of %u in use", b.live.size(), g.n); b.take(q, g.size, std::max<size_t>(g.align, 1), "acquireBlock"); if (frees) again = true;
				for (size_t o : {(size_t)0, g.size - 1}) REQUIRE(p.hasBlock((char*)q + o), "pool does not recognise its block");
				if (g.given) REQUIRE((char*)q >= room.raw && (char*)q + g.size <= room.raw + room.bytes, "block outside the given buffer"); else REQUIRE(sysmem::holder(q, g.size), "block outside the pool's memory");
			}
			else { size_t k = s.below(b.live.size()); if (bias == 2) k = b.live.size() - 1; if (bias == 3) k = 0; void * q = b.drop(k, "before release"); p.releaseBlock(q); ++frees; REQ(p.hasBlock(q)); }
			if (i % 16 == 15) b.all_intact("history");
			if (s.below(16) == 0) { REQUIRE(!p.hasBlock(outside + 8) && !p.hasBlock(&s) && !p.hasBlock(nullptr), "pool claims a foreign address"); if (g.given) REQUIRE(!p.hasBlock(room.raw - 1) && !p.hasBlock(room.raw + room.bytes), "pool claims an address next to its buffer"); else if (sysmem::live().size() == 1) { char * m = (char*)sysmem::live().begin()->first; REQUIRE(!p.hasBlock(m - 1) && !p.hasBlock(m + sysmem::live().begin()->second), "pool claims an address next to its memory"); } }
		}
		b.all_intact("end of history");
		// drain: exactly as many blocks as the pool was built for
		while (b.live.size() < g.n) { void * q = p.acquireBlock(); REQUIRE(q, "exhausted with %zu of %u blocks in use", b.live.size(), g.n); b.take(q, g.size, g.align, "drain"); }
		REQ(p.acquireBlock() == nullptr && p.acquireBlock() == nullptr && p.getNumFreeBlocks() == 0); b.all_intact("drained");
		if (ops >= 6 && again) nontrivial();
	}
	if (g.given) REQUIRE(sysmem::takes == 0, "memory taken although a buffer was given");
	sysmem::end("pool");
}
// Up to tens of thousands of blocks, or blocks of up to hundreds of kilobytes
static void large(Src & s)
{
	Geo g; bool wide = s.coin(); g.n = wide ? 1 + s.below(6) : s.large(); g.size = wide ? 4 * s.large() + s.below(2) : 1 + s.below(24); g.align = 1ull << s.below(wide ? 13 : 5); g.given = s.coin(); Room room(g); note("pool of %u blocks of %zu bytes aligned to %zu%s", g.n, g.size, g.align, g.given ? " in a given buffer" : ""); sysmem::begin();
	{
		MemoryPool p(g.n, g.size, g.align, room.buf); Blocks b; label(wide ? "large blocks" : g.n > 65536 ? "more than 65536 blocks" : g.n > 255 ? "256..65536 blocks" : "few blocks"); size_t A = std::max<size_t>(g.align, 1);
		auto drain = [&] { while (b.live.size() < g.n) { void * q = p.acquireBlock(); REQUIRE(q, "exhausted with %zu of %u blocks in use", b.live.size(), g.n); b.take(q, g.size, A, "acquireBlock"); REQUIRE(p.hasBlock(q) && p.hasBlock((char*)q + g.size - 1), "pool does not recognise its block"); } REQ(!p.acquireBlock() && p.isExhausted() && p.getNumFreeBlocks() == 0); };
		drain(); b.all_intact("drained"); unsigned how = s.below(3); size_t frees = g.n ? 1 + s.below(g.n) : 0; note("%zu given back", frees); uint32_t k = s.below(1000); for (size_t i = 0; i < frees; ++i) { k = k * 1664525u + 1013904223u; p.releaseBlock(b.drop(how == 0 ? 0 : how == 1 ? b.live.size() - 1 : k % b.live.size(), "before release")); }
		REQ(p.getNumFreeBlocks() == frees && p.isExhausted() == !frees); b.all_intact("after release"); drain(); b.all_intact("drained again"); if (frees > 1) nontrivial();
	}
	if (g.given) REQUIRE(sysmem::takes == 0, "memory taken although a buffer was given");
	sysmem::end("large pool");
}
template<typename M> static void drive(Src & s, M & m, const Geo & g)
{
	Blocks b; bool again = false; size_t frees = 0, ops = 8 + s.length(200); size_t A = std::max<size_t>(g.align, 8);
	for (size_t i = 0; i < ops; ++i) switch (s.weighted({8, 6, 2, 1, 1, 1}))
	{
	case 5: { size_t n = s.chance(1, 4) ? g.size + 1 + s.below(40) : 1 + s.below(g.size); note("realloc of nothing to %zu", n); label("realloc of nothing"); void * q = m.realloc(nullptr, n); if (n > g.size) REQUIRE(!q, "%zu bytes served by a pool of blocks of %zu", n, g.size); else if (b.live.size() == g.n) REQUIRE(!q, "a block came out of an exhausted pool"); else { REQUIRE(q, "no block, %zu of %u in use", b.live.size(), g.n); b.take(q, n, 8, "realloc of nothing"); if (frees) again = true; } break; }
	case 0: { size_t n = s.below(3) ? g.size : s.below(g.size + 1), a = 1ull << s.below(11); while (a > A) a >>= 1; void * q = m.alloc(n, a); note("alloc %zu aligned %zu", n, a);
		if (b.live.size() == g.n) { label("exhausted"); REQUIRE(!q, "a block came out of an exhausted pool"); } else { REQUIRE(q, "no block, %zu of %u in use", b.live.size(), g.n); b.take(q, n, a, "alloc"); if (frees) again = true; } break; }
	case 1: if (!b.live.empty()) { size_t k = s.below(b.live.size()); note("free %zu", k); m.free(b.drop(k, "before free")); ++frees; } break;
	case 2: if (!b.live.empty()) { size_t k = s.below(b.live.size()), n = s.below(g.size + 1); note("realloc %zu to %zu", k, n); label("realloc within the block"); Blocks::B x = b.live[k]; if (!n) n = 1; void * q = m.realloc(x.p, n); REQUIRE(q, "realloc within the block size refused"); unsigned char * r = (unsigned char*)q; for (size_t j = 0; j < std::min(x.n, n); ++j) REQUIRE(r[j] == x.tag, "realloc lost byte %zu", j); b.spans.erase(x.p); b.live[k] = b.live.back(); b.live.pop_back(); b.take(q, n, 1, "realloc"); } break;
	case 3: { size_t n = g.size + 1 + s.below(40); note("alloc of %zu, too large", n); label("too large"); REQUIRE(!m.alloc(n), "%zu bytes served by a pool of blocks of %zu", n, g.size); if (A < 2048) REQUIRE(!m.alloc(1, A * 2), "alignment %zu served by a pool aligned to %zu", A * 2, A); break; }
	case 4: if (!b.live.empty()) { size_t k = s.below(b.live.size()), n = g.size + 1 + s.below(40); note("realloc %zu to %zu, too large", k, n); label("realloc too large"); void * q = m.realloc(b.live[k].p, n); REQUIRE(!q, "realloc to %zu bytes answered by a pool of blocks of %zu", n, g.size); b.intact(k, "after refused realloc"); } break;
	}
	b.all_intact("end of history");
	while (b.live.size() < g.n) { void * q = m.alloc(g.size); REQUIRE(q, "exhausted with %zu of %u blocks in use", b.live.size(), g.n); b.take(q, g.size, A, "drain"); }
	REQ(!m.alloc(g.size)); b.all_intact("drained"); if (again) nontrivial();
}
static void malloc_pool(Src & s)
{
	Geo g = geometry(s); Room room(g); note("pool allocator of %u blocks of %zu bytes aligned to %zu", g.n, g.size, g.align); sysmem::begin();
	{ MallocPool m(g.n, g.size, g.align, room.buf); drive(s, m, g); }
	sysmem::end("pool allocator");
}
template<uint32 N, uint32 S, sizet A> static void inl(Src & s) { Geo g{N, S, A, s.coin()}; Room room(g); sysmem::begin(); { MallocPoolInline<N, S, A> m(room.buf); drive(s, m, g); } sysmem::end("pool allocator"); }
static void malloc_pool_inline(Src & s) { switch (s.below(4)) { case 0: inl<10, 24, 8>(s); break; case 1: inl<1, 1, 8>(s); break; case 2: inl<40, 100, 64>(s); break; default: inl<7, 17, 16>(s); } }
namespace pbt {
std::vector<Suite> SUITES = {
	{"pool", pool, 160000, 1000000, "MemoryPool"},
	{"large", large, 640, 4000, "up to tens of thousands of blocks, or blocks of up to hundreds of kilobytes"},
	{"malloc_pool", malloc_pool, 120000, 800000, "MallocPool"},
	{"malloc_pool_inline", malloc_pool_inline, 40000, 300000, "MallocPoolInline"},
};
}
