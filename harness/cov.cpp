// Edge counters for libFuzzer out of the calls g++ inserts (-fsanitize-coverage=trace-pc). libFuzzer
// defines the function g++ calls only to refuse it, so the calls are redirected with --wrap.
#include <stddef.h>
#include <stdint.h>
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *, uint8_t *);
enum { BITS = 16 };
static uint8_t counters[1 << BITS];
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __wrap___sanitizer_cov_trace_pc()
{
	static thread_local uint64_t before; const uint64_t pc = (uint64_t)__builtin_return_address(0);
	uint64_t edge = (pc ^ before << 1) * 0x9E3779B97F4A7C15ull; before = pc; uint8_t & c = counters[edge >> (64 - BITS)]; if (c != 255) ++c;
}
extern "C" __attribute__((weak)) void __sanitizer_cov_trace_cmpf(float, float) {}
extern "C" __attribute__((weak)) void __sanitizer_cov_trace_cmpd(double, double) {}
__attribute__((constructor)) static void init() { __sanitizer_cov_8bit_counters_init(counters, counters + sizeof counters); }
