// Audit of what the library takes from and gives back to the system allocator.
// The harness is linked with --wrap of each of them.
#pragma once
#include "support.h"
#include <stdlib.h>
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void __real_free(void *);
extern "C" void * __real_malloc(size_t); extern "C" void * __real_calloc(size_t, size_t); extern "C" void * __real_aligned_alloc(size_t, size_t); extern "C" void * __real_memalign(size_t, size_t); extern "C" void * __real_realloc(void *, size_t);
namespace sysmem {
inline std::unordered_map<void*, size_t> & live() { static std::unordered_map<void*, size_t> m; return m; }
inline bool on = false, spread = false; inline size_t bytes = 0, peak = 0, takes = 0, frees = 0, bad = 0; inline long fail_in = -1;  // fail_in: number of requests before one is refused
inline void begin() { live().clear(); bytes = peak = takes = frees = bad = 0; fail_in = -1; spread = false; on = true; }
inline void end(const char * what) { on = false; REQUIRE(bad == 0, "%s: %zu blocks given back twice or never taken", what, bad); REQUIRE(live().empty(), "%s: %zu blocks (%zu bytes) never given back to the system", what, live().size(), bytes); }
inline const void * holder(const void * p, size_t n) { for (auto & b : live()) if ((char*)p >= (char*)b.first && (char*)p + n <= (char*)b.first + b.second) return b.first; return nullptr; }
}
namespace sysmem {
inline bool refuse() { return on && fail_in >= 0 && fail_in-- == 0; }
inline void * took(void * p, size_t n, bool fill = true) { if (on && p) { if (fill) ::memset(p, 0xA7, n); live()[p] = n; bytes += n; ++takes; if (bytes > peak) peak = bytes; } return p; }
inline void gave(void * p) { if (on && p) { auto i = live().find(p); if (i != live().end()) { bytes -= i->second; live().erase(i); ++frees; } } }
}
// Memory far apart: requests can be served from places gigabytes away from each other, in an order
// that is not that of the addresses, as a system does that maps each of them anew.
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)0)
#endif
namespace sysmem {
enum : size_t { SLOTS = 48, SLOT = 1 << 18 };
inline std::vector<char*> & free_slots() { static std::vector<char*> v; return v; }
inline const std::vector<char*> & slots() { static std::vector<char*> v = [] { std::vector<char*> v; for (size_t i = 0; i < SLOTS; ++i) { size_t k = i * 29 % SLOTS; char * at = (char*)(0x200000000000ul + k * (k % 3 ? 0x70000000ul : 0x80000000ul)); void * p = mmap(at, SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != MAP_FAILED) v.push_back((char*)p); } return v; }(); return v; }
inline void spread_out() { free_slots() = slots(); spread = true; }
inline bool is_slot(void * p) { return (uintptr_t)p >> 40 == 0x20; }
}
// The library takes memory with posix_memalign, any other of the system's ways is as good
extern "C" void * __wrap_malloc(size_t n) { return sysmem::refuse() ? nullptr : sysmem::took(__real_malloc(n), n); }
extern "C" void * __wrap_calloc(size_t k, size_t n) { return sysmem::refuse() ? nullptr : sysmem::took(__real_calloc(k, n), k * n, false); }
extern "C" void * __wrap_aligned_alloc(size_t a, size_t n) { return sysmem::refuse() ? nullptr : sysmem::took(__real_aligned_alloc(a, n), n); }
extern "C" void * __wrap_memalign(size_t a, size_t n) { return sysmem::refuse() ? nullptr : sysmem::took(__real_memalign(a, n), n); }
extern "C" void * __wrap_realloc(void * p, size_t n) { if (sysmem::refuse()) return nullptr; void * q = __real_realloc(p, n); if (q || n == 0) { sysmem::gave(p); sysmem::took(q, n, false); } return q; }
extern "C" int __wrap_posix_memalign(void ** p, size_t a, size_t n)
{
	if (sysmem::refuse()) return ENOMEM;
	if (sysmem::on && sysmem::spread && n <= sysmem::SLOT && a <= 4096 && !sysmem::free_slots().empty()) { *p = sysmem::free_slots().back(); sysmem::free_slots().pop_back(); ASAN_POISON_MEMORY_REGION(*p, sysmem::SLOT); ASAN_UNPOISON_MEMORY_REGION(*p, n); sysmem::took(*p, n); return 0; }
	int r = __real_posix_memalign(p, a, n); if (r == 0) sysmem::took(*p, n);
	return r;
}
extern "C" void __wrap_free(void * p) { sysmem::gave(p); if (sysmem::is_slot(p)) { ASAN_POISON_MEMORY_REGION(p, sysmem::SLOT); auto & v = sysmem::free_slots(); v.insert(v.begin() + (sysmem::frees * 7 % (v.size() + 1)), (char*)p); return; } __real_free(p); }
// Blocks under a model: disjoint, keep their bytes until freed
struct Blocks
{
	struct B { unsigned char * p; size_t n; unsigned char tag; };
	std::vector<B> live; std::map<unsigned char*, size_t> spans; unsigned next = 1;
	void take(void * q, size_t n, size_t align, const char * what)
	{
		unsigned char * p = (unsigned char*)q; REQUIRE(((uintptr_t)p & (align - 1)) == 0, "%s: block %p is not aligned to %zu", what, q, align);
		auto i = spans.lower_bound(p); if (i != spans.end()) REQUIRE(p + n <= i->first, "%s: block of %zu at %p overlaps the live block at %p", what, n, q, (void*)i->first);
		if (i != spans.begin()) { --i; REQUIRE(i->first + i->second <= p, "%s: block at %p overlaps the live block of %zu at %p", what, q, i->second, (void*)i->first); }
		unsigned char t = (unsigned char)(next++ * 37 + 11); ::memset(p, t, n); live.push_back({p, n, t}); if (n) spans[p] = n;
	}
	void intact(size_t k, const char * what) { B & b = live[k]; for (size_t i = 0; i < b.n; ++i) REQUIRE(b.p[i] == b.tag, "%s: byte %zu of a live block of %zu bytes was overwritten", what, i, b.n); }
	void all_intact(const char * what) { for (size_t k = 0; k < live.size(); ++k) intact(k, what); }
	void * drop(size_t k, const char * what) { intact(k, what); void * p = live[k].p; ::memset(p, 0xEE, live[k].n); spans.erase(live[k].p); live[k] = live.back(); live.pop_back(); return p; }
};
