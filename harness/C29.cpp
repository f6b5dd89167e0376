// FLAGS: -O0 -fno-lifetime-dse
// LINK: -Wl,--wrap=posix_memalign -Wl,--wrap=free
// NOFUZZ
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include "m_array.h"
#include "m_list.h"
#include "m_map.h"
#include "m_set.h"
#include "m_tree.h"
#include "m_optional.h"
#include "m_function.h"
#include "m_string.h"
#include "m_regex.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "math/math.h"
#include "templates/type_info.h"
namespace pbt {
const char * PROPERTY = "C29";
const char * RULE = "a case starts a new process of the harness whose objects with static storage duration (strings, containers, optional values, callables, allocators, expressions) are built, changed and compared with their models in initialisers before main, in main, in functions registered with atexit, and in destructors after main; non-trivial: at least two objects changed both before and after main";
}
// ---- Process under test: everything below, up to the marker, runs in it, and reads its choices from a shared block
struct Order { volatile uint32_t magic, n; volatile uint32_t stage, before, after, ended; uint32_t choice[1024]; };
static constexpr uint32_t MAGIC = 0x4b4f5249;
static constexpr size_t BLOCK = sizeof(Order) + sizeof(pbt::Shared);
static const char * const STAGE[] = {"before any object", "objects built", "early initialiser", "initialiser", "main", "atexit", "late destructor", "objects destroyed", "after every object"};
static Order * order = nullptr; static Src * src = nullptr;
extern "C" int __real_posix_memalign(void **, size_t, size_t); extern "C" void __real_free(void *);
static std::unordered_set<void*> * taken = nullptr;
extern "C" int __wrap_posix_memalign(void ** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r && taken) { taken->insert(*p); ::memset(*p, 0xA7, n); } return r; }
extern "C" void __wrap_free(void * p) { if (taken) taken->erase(p); __real_free(p); }
static void stage(int k) { order->stage = k; note("-- %s", STAGE[k]); }
// objects that do not outlive the function that makes them
static void locals(Src & s)
{
	switch (s.below(7))
	{
	case 0: { StringM x; for (int i = s.below(6); i >= 0; --i) { x.step(s); x.verify(); } break; }
	case 1: { MapM<int, Obj> x; for (int i = s.below(6); i >= 0; --i) { x.step(s); x.verify(); } break; }
	case 2: { RxGen g(s, s.coin()); Rx rx = g.expression(); std::string p = RxGen::render(rx), t = g.text(rx); note("/%s/ on %s", p.c_str(), t.c_str()); Re::Regex re{String(p.c_str())}; bool e = RxMatcher(t).accepts(rx); REQUIRE(re.accept(String(t.c_str())) == e, "/%s/ on %s", p.c_str(), t.c_str()); break; }
	case 3: { size_t n = 1 + s.below(20), z = 8 * (1 + s.below(8)); note("pool of %zu x %zu", n, z); MallocPool p(n, z, 8); std::vector<void*> v; for (size_t i = 0; i < n; ++i) { void * q = p.alloc(z); REQUIRE(q && std::find(v.begin(), v.end(), q) == v.end(), "block %zu of a pool of %zu", i, n); ::memset(q, 1, z); v.push_back(q); } REQUIRE(!p.alloc(z), "more blocks than the pool has"); for (void * q : v) p.free(q); break; }
	case 4: { note("constants"); using V = Vec3<float32>; const V * v[] = {&V::zero, &V::unit, &V::right, &V::left, &V::up, &V::down, &V::forward, &V::backward}; float want[][3] = {{0, 0, 0}, {1, 1, 1}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}}; for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) REQUIRE(v[i]->array[k] == want[i][k], "component %d of constant %d is %f", k, i, v[i]->array[k]); REQ(!strcmp(*TypeDebugInfo<int32>::debugName, "int32") && !strcmp(*TypeDebugInfo<uint64>::debugName, "uint64")); { float a = (float)s.below(628) / 100; V r = Quat(a, V::forward).getRight(); REQUIRE(std::fabs(r.x - std::cos(a)) < 1e-4 && std::fabs(r.y - std::sin(a)) < 1e-4 && std::fabs(r.z) < 1e-4, "right turned by %f about forward", a); } break; }
	case 5: { ArrayM<Obj> x; for (int i = s.below(6); i >= 0; --i) { x.step(s); x.verify(); } break; }
	default: { size_t n = 1 + s.below(200); note("%zu bytes of the global allocator", n); void * p = gMalloc->alloc(n); REQ(p); ::memset(p, 1, n); p = gMalloc->realloc(p, 2 * n); REQ(p); for (size_t i = 0; i < n; ++i) REQ(((char*)p)[i] == 1); gMalloc->free(p); break; }
	}
}
struct Statics
{
	StringM text; ArrayM<Obj> array; ArrayM<int> ints; ListM<Obj> list; MapM<int, Obj> map; SetM<int> set; TreeM<int, PlainCompare<int>> tree; OptionalM<Obj> maybe; FunctionM call; uint32_t early = 0, late = 0;
	MallocPool pool; MallocBinned bins; std::vector<void*> blocks, binned; std::vector<size_t> sizes; Re::Regex word; Array<String> names; std::vector<std::string> m_names; Map<String, Array<int>> index; std::map<std::string, std::vector<int>> m_index;
	Statics() : pool(16, 64, 16), bins({4096, 8, 512, 4}, 16), word(String("(ab|c)+d?")) {}
	void verify() { text.verify(); array.verify(); ints.verify(); list.verify(); map.verify(); set.verify(); tree.verify(); maybe.verify(); call.verify(); for (size_t i = 0; i < blocks.size(); ++i) check(blocks[i], 64, i); for (size_t i = 0; i < binned.size(); ++i) check(binned[i], sizes[i], i); REQ(names.getCount() == m_names.size()); for (size_t i = 0; i < m_names.size(); ++i) REQ(m_names[i] == *names[i]); REQ(index.getCount() == m_index.size()); for (auto & e : m_index) { auto it = index.find(String(e.first.c_str())); REQ(it != index.end()); REQ(it->second.getCount() == e.second.size()); for (size_t i = 0; i < e.second.size(); ++i) REQ(it->second[i] == e.second[i]); } }
	static void check(void * p, size_t n, size_t i) { for (size_t k = 0; k < n; ++k) REQUIRE(((unsigned char*)p)[k] == (unsigned char)(n + k), "byte %zu of block %zu", k, i); }
	static void fill(void * p, size_t n) { for (size_t k = 0; k < n; ++k) ((unsigned char*)p)[k] = n + k; }
	void step(Src & s, uint32_t * touched)
	{
		uint32_t k = s.below(14); if (touched) *touched |= 1u << k;
		switch (k)
		{
		case 0: note("text:"); text.step(s); break; case 1: note("array of objects:"); array.step(s, 60); break; case 2: note("array:"); ints.step(s, 60); break; case 3: note("list:"); list.step(s, 60); break; case 4: note("map:"); map.step(s, 60); break; case 5: note("set:"); set.step(s, 60); break; case 6: note("tree:"); tree.step(s, 60); break; case 7: note("optional:"); maybe.step(s); break; case 8: note("function:"); call.step(s); break;
		case 9: { if (blocks.size() < 16 && s.chance(2, 3)) { note("pool: take"); void * p = pool.alloc(64); REQUIRE(p, "pool with %zu of 16 blocks taken has none", blocks.size()); fill(p, 64); blocks.push_back(p); } else if (!blocks.empty()) { size_t i = s.below(blocks.size()); note("pool: return %zu", i); pool.free(blocks[i]); blocks.erase(blocks.begin() + i); } break; }
		case 10: { if (binned.size() < 12 && s.chance(2, 3)) { size_t n = 1 + s.below(90); note("bins: take %zu", n); void * p = bins.alloc(n); REQ(p); fill(p, n); binned.push_back(p); sizes.push_back(n); } else if (!binned.empty()) { size_t i = s.below(binned.size()); note("bins: return %zu", i); bins.free(binned[i]); binned.erase(binned.begin() + i); sizes.erase(sizes.begin() + i); } break; }
		case 11: { std::string t; for (size_t i = s.below(8); i; --i) t += "abcd"[s.below(4)]; note("/(ab|c)+d?/ on %s", t.c_str()); size_t i = 0, n = 0; for (;; ++n) if (!t.compare(i, 2, "ab")) i += 2; else if (t[i] == 'c') ++i; else break; if (n && t[i] == 'd') ++i; bool e = n && i == t.size(); REQUIRE(word.accept(String(t.c_str())) == e, "/(ab|c)+d?/ on %s", t.c_str()); break; }
		case 12: { std::string t; for (size_t i = s.below(60); i; --i) t += 'a' + s.below(26); if (m_names.size() < 30 && s.chance(2, 3)) { note("names: add %s", t.c_str()); names.add(String(t.c_str())); m_names.push_back(t); } else if (!m_names.empty()) { size_t i = s.below(m_names.size()); note("names: remove %zu", i); names.removeAt(i); m_names.erase(m_names.begin() + i); } break; }
		default: { std::string t(1, 'a' + s.below(6)); int v = s.below(100); if (s.chance(3, 4)) { note("index: %s += %d", t.c_str(), v); index[String(t.c_str())].add(v); m_index[t].push_back(v); } else { note("index: remove %s", t.c_str()); index.remove(String(t.c_str())); m_index.erase(t); } break; }
		}
	}
};
static Statics * world = nullptr;
static void steps(int k, uint32_t * touched) { stage(k); for (size_t n = src->below(8); n; --n) { if (src->chance(1, 6)) locals(*src); else world->step(*src, touched); world->verify(); } }
// an object of a function, built by the first that needs it
struct Lazy { StringM m; static bool & gone() { static bool g = false; return g; } ~Lazy() { m.verify(); gone() = true; } };
static void lazy(Src & s) { if (s.below(3) != 2 || Lazy::gone()) return; static Lazy l; note("object of a function:"); l.m.step(s); l.m.verify(); }
static uint32_t bits(uint32_t x) { return __builtin_popcount(x); }
static void at_exit() { steps(5, &world->late); lazy(*src); }
static int in_main() { steps(4, nullptr); lazy(*src); return 0; }
static bool child() { return order != nullptr; }
__attribute__((constructor(150))) static void begin()
{
	const char * v = getenv("PBT_STATICS"); if (!v) return;
	int fd = atoi(v); void * p = mmap(nullptr, BLOCK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p == MAP_FAILED || ((Order*)p)->magic != MAGIC) _exit(3);
	close(fd); unsetenv("PBT_STATICS"); order = (Order*)p; pbt::sh = (pbt::Shared*)((char*)p + sizeof(Order)); pbt::tracing = true; pbt::instead_of_main = in_main;
	src = new Src(order->choice, order->n); FunctionM::begin(); taken = new std::unordered_set<void*>;
	stage(0); for (size_t n = src->below(3); n; --n) locals(*src);
}
__attribute__((destructor(150))) static void finish()
{
	if (!child()) return;
	stage(8); for (size_t n = src->below(3); n; --n) locals(*src);
	REQUIRE(taken->empty(), "%zu blocks of memory never given back to the system", taken->size()); REQUIRE(objs().live.empty(), "%zu elements never destroyed", objs().live.size());
	order->ended = 1;
}
static struct Holder
{
	alignas(Statics) char memory[sizeof(Statics)];
	Holder() { if (!child()) return; stage(1); world = new (memory) Statics; }
	~Holder() { if (!child()) return; world->verify(); stage(7); order->before = bits(world->early); order->after = bits(world->early & world->late); world->~Statics(); }
} holder __attribute__((init_priority(200)));
static struct Early
{
	Early() { if (!child()) return; steps(2, &world->early); lazy(*src); }
	~Early() { if (!child()) return; steps(6, &world->late); }
} early __attribute__((init_priority(300)));
static struct Plain { Plain() { if (!child()) return; steps(3, &world->early); lazy(*src); ::atexit(at_exit); } } plain;
// ---- end of what runs in the process under test
static void process(Src & s)
{
	int fd = memfd_create("order", 0); REQUIRE(fd >= 0, "harness: memfd_create"); REQ(!ftruncate(fd, BLOCK)); void * m = mmap(nullptr, BLOCK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); REQ(m != MAP_FAILED);
	Order * o = (Order*)m; pbt::Shared * c = (pbt::Shared*)((char*)m + sizeof(Order)); o->magic = MAGIC; o->n = 60 + s.below(800); for (uint32_t i = 0; i < o->n; ++i) o->choice[i] = s.below(65536);
	fflush(stdout); fflush(stderr); pid_t p = fork(); REQUIRE(p >= 0, "harness: fork");
	if (!p) { char b[16]; snprintf(b, sizeof b, "%d", fd); setenv("PBT_STATICS", b, 1); char self[] = "/proc/self/exe"; char * a[] = {self, nullptr}; execv(self, a); _exit(4); }
	close(fd); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (pbt::tracing) note("%s", c->text);
	REQUIRE(!(WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)), "harness: the process was not started");
	std::string how = WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : "ended with " + std::to_string(WEXITSTATUS(st));
	if (o->stage < sizeof STAGE / sizeof *STAGE) REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0 && o->ended, "%s in stage '%s': %s", how.c_str(), STAGE[o->stage], c->message);
	label("blocks of choices", 1); if (o->before) label("changed before main", o->before); if (o->after) label("changed before and after main", o->after); if (o->after >= 2) nontrivial();
	munmap(m, BLOCK);
}
namespace pbt {
std::vector<Suite> SUITES = {
	{"process", process, 6000, 100000, "the life of one process, before, in and after main"},
};
}
