// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=aligned_alloc -Wl,--wrap=memalign -Wl,--wrap=realloc
#include "sysmem.h"
#include "hal/malloc_pool.h"
namespace pbt {
const char * PROPERTY = "C13";
const char * RULE = "a case is a pool geometry with an initial number of pools and a history of allocations and frees (random, first-in-first-out, last-in-first-out, bursts) filling every live block with its own byte; non-trivial: at least two pools came to exist and a block was freed and allocated after that";
}
static void history(Src & s, bool faults)
{
	uint32 N = s.below(3) == 0 ? 1 : 1 + s.below(s.coin() ? 5 : 30), init = 1 + s.below(s.coin() ? 1 : 5); size_t size, align = s.chance(1, 6) ? 512ull << s.below(4) : 1ull << s.below(9);
	switch (s.below(4)) { case 0: size = 1 + s.below(16); break; case 1: size = 8 * (1 + s.below(10)); break; case 2: size = 1 + s.below(200); break; default: size = s.chance(1, 6) ? 1 + s.below(5000) : 24; if (s.chance(1, 10)) N += s.below(600); }
	size_t A = std::max<size_t>(align, 8); note("%u pools of %u blocks of %zu bytes aligned to %zu", init, N, size, align); label(align < 8 ? "alignment below default" : align == 8 ? "alignment 8" : "alignment above default");
	sysmem::begin(); if (s.below(3) == 0) { sysmem::spread_out(); note("memory far apart"); label("memory far apart"); }
	{
		MallocPooled m(N, size, align, init); Blocks b; REQUIRE(m.getNumPools() == init, "%u pools at the beginning, expected %u", m.getNumPools(), init);
		size_t peak = 0, ops = 10 + s.length(500), again = 0, frees = 0; unsigned phase = 0, left = 0, order = 0; size_t maxpools = init; uint64_t seq = 0; std::map<unsigned char*, uint64_t> age; bool refused = false;
		for (size_t i = 0; i < ops; ++i)
		{
			if (!left) { phase = s.below(4); left = 1 + s.below(60); order = s.below(3); } --left;
			bool take = phase == 0 ? true : phase == 1 ? s.below(4) == 0 : s.coin(); if (b.live.empty()) take = true; if (b.live.size() > 400) take = false;
			if (take)
			{
				size_t n = s.below(3) ? size : s.below(size + 1), a = 1ull << s.below(13); while (a > A) a >>= 1;
				bool re = s.chance(1, 8); if (re) { label("realloc of nothing"); if (!n) n = 1; if (s.chance(1, 6)) { size_t z = size + 1 + s.below(64); note("realloc of nothing to %zu, too large", z); REQUIRE(!m.realloc(nullptr, z), "%zu bytes served by blocks of %zu", z, size); } }
				if (faults && s.below(6) == 0) sysmem::fail_in = 0;
				bool armed = sysmem::fail_in == 0; void * q = re ? m.realloc(nullptr, n, a) : m.alloc(n, a); if (armed && sysmem::fail_in < 0) { label("system memory refused"); refused = true; REQUIRE(!q, "a block although no memory was to be had"); note("alloc %zu refused by the system", n); b.all_intact("after refusal"); continue; } sysmem::fail_in = -1;
				REQUIRE(q, "no block (%zu live)", b.live.size()); b.take(q, n, a, "alloc"); age[(unsigned char*)q] = ++seq; if (frees) ++again; note("alloc %zu aligned %zu", n, a);
				REQUIRE(m.hasBlock(q), "allocator does not recognise its block"); REQUIRE(sysmem::holder(q, n), "block outside the memory held");
			}
			else if (s.below(12) == 0)
			{
				size_t k = s.below(b.live.size()); Blocks::B x = b.live[k];
				if (s.coin()) { size_t n = 1 + s.below(size); note("realloc #%zu to %zu", k, n); label("realloc within the block"); void * q = m.realloc(x.p, n); REQUIRE(q, "realloc within the block size refused"); unsigned char * r = (unsigned char*)q; for (size_t j = 0; j < std::min(x.n, n); ++j) REQUIRE(r[j] == x.tag, "realloc lost byte %zu", j); b.spans.erase(x.p); age.erase(x.p); b.live[k] = b.live.back(); b.live.pop_back(); b.take(q, n, 1, "realloc"); age[r] = ++seq; }
				else { size_t n = size + 1 + s.below(64); note("realloc #%zu to %zu, too large", k, n); label("realloc too large"); void * q = m.realloc(x.p, n); REQUIRE(!q, "realloc to %zu bytes answered with blocks of %zu", n, size); b.intact(k, "after refused realloc"); }
			}
			else
			{
				size_t k = s.below(b.live.size()); if (order == 1) k = 0; if (order == 2) { for (size_t j = 0; j < b.live.size(); ++j) if (age[b.live[j].p] < age[b.live[k].p]) k = j; }
				note("free #%zu", k); void * q = b.drop(k, "before free"); age.erase((unsigned char*)q); m.free(q); ++frees;
			}
			peak = std::max(peak, b.live.size()); size_t bound = std::max<size_t>(init, (peak + N - 1) / N); maxpools = std::max<size_t>(maxpools, m.getNumPools());
			REQUIRE(m.getNumPools() <= bound, "%u pools of %u blocks although at most %zu blocks were live at once (%zu now)", m.getNumPools(), N, peak, b.live.size());
			REQUIRE(sysmem::bytes <= bound * (N * (size + 8 + A) + 1024 + A), "%zu bytes held for %zu blocks", sysmem::bytes, peak);
			if (i % 32 == 31) b.all_intact("history");
			if (s.below(40) == 0) { char o[8]; REQUIRE(!m.hasBlock(o), "allocator claims a foreign address"); REQUIRE(!m.alloc(size + 1 + s.below(8)), "more than the block size served"); if (A < 512) REQUIRE(!m.alloc(1, A * 2), "alignment above the pool's served"); m.free(o); label("too large"); }
		}
		b.all_intact("end of history"); if (maxpools > 1 && again) nontrivial(); if (faults && !refused) label("no refusal"); label(maxpools > 8 ? "more than 8 pools" : maxpools > 1 ? "2..8 pools" : "one pool");
		if (s.coin()) { label("destroyed with live blocks"); } else { while (!b.live.empty()) { void * q = b.drop(s.below(b.live.size()), "before free"); m.free(q); } uint32 before = m.getNumPools(); for (size_t i = 0; i < peak; ++i) { void * q = m.alloc(size); REQ(q); b.take(q, size, A, "refill"); } REQUIRE(m.getNumPools() <= std::max<uint32>(before, (peak + N - 1) / N), "memory enlarged although %zu blocks had been freed", peak); b.all_intact("refilled"); }
	}
	sysmem::end("growing pool allocator");
}
static void plain(Src & s) { history(s, false); }
static void faulty(Src & s) { history(s, true); }
// Hundreds of pools, thousands of blocks each, or large blocks
static void large(Src & s)
{
	unsigned kind = s.below(3); uint32 N = kind == 0 ? 1 + s.below(3) : kind == 1 ? 200 + s.below(5000) : 1 + s.below(4); size_t size = kind == 2 ? s.large() : 1 + s.below(20), n = kind == 0 ? 250 + s.below(500) : kind == 1 ? s.large(20000) : 1 + s.below(40), align = 1ull << s.below(8), A = std::max<size_t>(align, 8); uint32 init = kind == 0 && s.coin() ? 1 + s.below(300) : 1;
	note("%u pools of %u blocks of %zu bytes aligned to %zu, %zu blocks", init, N, size, align, n); sysmem::begin();
	{
		MallocPooled m(N, size, align, init); Blocks b; REQ(m.getNumPools() == init); uint32 bound = std::max<size_t>(init, (n + N - 1) / N); uint32_t k = s.below(1000); auto rnd = [&] { k = k * 1664525u + 1013904223u; return (size_t)(k >> 4); };
		for (int round = 0; round < 3; ++round)
		{
			while (b.live.size() < n) { void * q = m.alloc(size); REQUIRE(q, "no block (%zu live)", b.live.size()); b.take(q, size, A, "alloc"); REQUIRE(m.hasBlock(q), "allocator does not recognise its block"); }
			REQUIRE(m.getNumPools() <= bound, "%u pools of %u blocks although at most %zu blocks were live at once", m.getNumPools(), N, n); b.all_intact("full"); unsigned how = s.below(3); size_t f = s.coin() ? n : s.below(n + 1); note("%zu given back", f);
			while (f--) m.free(b.drop(how == 0 ? 0 : how == 1 ? b.live.size() - 1 : rnd() % b.live.size(), "before free"));
		}
		b.all_intact("end"); if (n > 1) nontrivial(); label(kind == 0 ? "hundreds of pools" : kind == 1 ? "large pools" : "large blocks");
	}
	sysmem::end("large growing pool allocator");
}
static void defaults(Src & s)
{
	sysmem::begin();
	{ MallocPooled m; Blocks b; size_t n = s.below(2500); note("default geometry, %zu blocks", n); for (size_t i = 0; i < n; ++i) { size_t z = 1 + s.below(512); void * q = m.alloc(z, 16); REQ(q); b.take(q, z, 16, "alloc"); } REQ(m.getNumPools() <= std::max<size_t>(1, (n + 1023) / 1024)); while (b.live.size() > n / 2) m.free(b.drop(s.below(b.live.size()), "free")); while (b.live.size() < n) { void * q = m.alloc(40); REQ(q); b.take(q, 40, 16, "alloc"); } b.all_intact("end"); REQ(m.getNumPools() <= std::max<size_t>(1, (n + 1023) / 1024)); if (n > 1024) nontrivial(); }
	sysmem::end("default allocator");
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"history", plain, 120000, 800000, "alloc/free histories"},
	{"faults", faulty, 60000, 400000, "the same with the system refusing memory at random points"},
	{"large", large, 960, 6000, "hundreds of pools, thousands of blocks each, or large blocks"},
	{"defaults", defaults, 800, 5000, "default geometry, thousands of blocks"},
};
}
