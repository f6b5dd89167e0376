// NOSAN
// NOFUZZ
#include "m_compiler.h"
#include <utility>
#include <cctype>
namespace pbt {
const char * PROPERTY = "C31";
const char * RULE = "a case writes a program of one to three source files, each including a generated choice of the library's headers (any order, some repeatedly, standard headers between them) and using what those headers offer, compiles it with the compiler and flags of the build, links it with the library and runs it; the first suite compiles one header, alone or after others, with what it offers; non-trivial: at least two library headers were included, or one header alone";
}
// What a header offers, as the body of bool f(int x) that is true when the operations did what they should
struct Use { const char * header, * body; };
static const Use USES[] = {
	{"algorithm/sort.h", R"(int a[] = {5, x, -3, 9, x - 7, 0}; Sort::quicksort(a, a + 6, [](int l, int r) { return l - r; }); for (int i = 1; i < 6; ++i) if (a[i - 1] > a[i]) return false; return true;)"},
	{"containers/array.h", R"(Array<int32> a; for (int i = 0; i < 20; ++i) a.add(i * x); a.insertAt(0, -1); a.removeAt(1); Array<int32> b(a), c; c = move(b); return c.getCount() == 20 && c[0] == -1 && c[19] == 19 * x;)"},
	{"containers/pair.h", R"(Pair<int32, int64> p{x, x + 1}, q{p}; return p == q && p.first == x && q.second == x + 1 && !(p != q);)"},
	{"containers/pair.h", R"(Pair<int32, Pair<int32, char>> p{x, Pair<int32, char>{1, 'a'}}; return p.getKey() == x && p.getVal().getVal() == 'a';)"},
	{"containers/tuple.h", R"(Tuple<int32, char, int64> t{x, 'q', (int64)x * 3}; return t.get<0>() == x && t.get<char>() == 'q' && t.get<2>() == (int64)x * 3;)"},
	{"containers/list.h", R"(List<int32> l; for (int i = 0; i < 9; ++i) l.pushBack(x + i); l.pushFront(-4); int64 s = 0; for (auto it = l.begin(); it != l.end(); ++it) s += *it; List<int32> k(l); return s == 9 * (int64)x + 36 - 4 && k.getLength() == 10;)"},
	{"containers/map.h", R"(Map<int32, int32> m; for (int i = 0; i < 30; ++i) m.insert(i * 7 % 31, x + i); m[100] = 5; m.remove(7); return m.getCount() == 30 && m.has(100) && !m.has(7) && m.find(14)->second == x + 2;)"},
	{"containers/map.h", R"(Map<const char *, int32> m; m["a"] = x; m["b"] = 2; return m["a"] == x && m.getCount() == 2;)"},
	{"containers/set.h", R"(Set<int32> s; for (int i = 0; i < 40; ++i) { int k = (x + i) % 10; s.set(k); }; Set<int32> t(s); t.remove(3); return s.getCount() == 10 && t.getCount() == 9;)"},
	{"containers/string.h", R"(String s("abc"); s += 'd'; s += String("ef"); String t = s + String("!"); String f = String::format("%d", x); return s == String("abcdef") && t.getLength() == 7 && s < t && f.getLength() > 0;)"},
	{"containers/string.h", R"(Array<String> a; a.add(String("one")); a.add(String("two")); Array<String> b(a); a.removeAt(0); return a[0] == String("two") && b[0] == String("one");)"},
	{"containers/tree.h", R"(BinaryTree<int32> t; for (int i = 0; i < 25; ++i) t.insert(i * 11 % 25); int e = 0; for (auto it = t.begin(); it != t.end(); ++it) if (*it != e++) return false; return e == 25;)"},
	{"containers/containers_types.h", R"(struct S { static int f(Array<int> *, List<int> *, Map<int, int> *, Set<int> *, String *) { return 1; } }; return S::f(nullptr, nullptr, nullptr, nullptr, nullptr) == 1;)"},
	{"core_types.h", R"(int8 a = -1; uint8 b = 255; int32 c = x; uint64 d = ~(uint64)0; float32 f = 0.5f; float64 g = 0.25; ansichar h = 'h'; sizet s = sizeof(int64); return a < 0 && b == 255 && c == x && d > 0 && f + g == 0.75 && h == 'h' && s == 8 && sizeof(int16) == 2 && sizeof(uint32) == 4;)"},
	{"hal/malloc_ansi.h", R"(MallocAnsi m; int * p = (int*)m.alloc(40); for (int i = 0; i < 10; ++i) p[i] = x + i; p = (int*)m.realloc(p, 4000); bool ok = p[9] == x + 9; m.free(p); return ok;)"},
	{"hal/malloc_object.h", R"(MallocObject<int64> m; int64 * p = m.alloc(4); p[0] = x; p[3] = x; p = m.realloc(p, 100); bool ok = p[0] == x && p[3] == x; m.free(p); return ok;)"},
	{"hal/malloc_pool.h", R"(MallocPool m(8, 24, 8); void * p[8]; for (int i = 0; i < 8; ++i) { p[i] = m.alloc(24); if (!p[i]) return false; } bool full = !m.alloc(24); for (int i = 0; i < 8; ++i) m.free(p[i]); return full;)"},
	{"hal/malloc_binned.h", R"(MallocBinned m({4096, 8, 512, 4}, 16); void * p = m.alloc(30), * q = m.alloc(100); bool ok = p && q && p != q; m.free(p); m.free(q); return ok;)"},
	{"hal/memory_base.h", R"(void * p = gMalloc->alloc(16); p = gMalloc->realloc(p, 160); bool ok = p; gMalloc->free(p); return ok;)"},
	{"hal/platform_memory.h", R"(char a[8] = "1234567", b[8]; Memory::memcpy(b, a, 8); Memory::memmov(b + 1, b, 4); return b[1] == '1' && b[4] == '4' && Memory::memcmp(a, a, 8) == 0;)"},
	{"hal/platform_math.h", R"(return PlatformMath::min(x, 3) <= 3 && PlatformMath::max(x, 3, 4) >= 4 && PlatformMath::abs(-x) == PlatformMath::abs(x) && PlatformMath::sqrt(4.f) == 2.f && PlatformMath::align2Up(x + 1, 8) % 8 == 0;)"},
	{"hal/platform_strings.h", R"(return PlatformStrings::getLength("abc") == 3 && PlatformStrings::cmp("a", "b") < 0 && PlatformStrings::icmp("A", "a") == 0 && PlatformStrings::cmpn("abx", "aby", 2) == 0;)"},
	{"hal/platform_atomics.h", R"(volatile int32 v = x; int32 o = PlatformAtomics::add(&v, 2); PlatformAtomics::store(&v, o); return PlatformAtomics::read(&v) == x;)"},
	{"hal/platform_crt.h", R"(char b[20]; snprintf(b, sizeof b, "%d", x); return strlen(b) > 0 && fabs(-1.5) == 1.5;)"},
	{"math/vec2.h", R"(Vec2<float32> a(1.f, 2.f), b(a); b = a + b * 2.f; return b.x == 3 && b.y == 6 && (a & b) == 15 && b.getSize() > 6;)"},
	{"math/vec3.h", R"(Vec3<float32> a(1.f, 2.f, 3.f), b(a); b = a + b * 2.f; Vec3<float32> c = Vec3<float32>::right ^ Vec3<float32>::up; return b.z == 9 && (a & a) == 14 && c.z * c.z == 1 && Vec3<int32>(x, 1, 2).x == x;)"},
	{"math/vec4.h", R"(Vec4<float32> a(1.f, 2.f, 3.f, 4.f), b(a); b = a + b * 2.f; return b.w == 12 && (a & a) == 30 && Vec4<int32>(x, 1, 2, 3).x == x;)"},
	{"math/quat.h", R"(Quat q(0.f, Vec3<float32>(0.f, 0.f, 1.f)); Vec3<float32> v = q.getRight(); return v.x > .99f && v.y < .01f;)"},
	{"math/mat4.h", R"(Mat4<float32> m(2.f); Mat4<float32> n(m); n.transpose(); return m == n && m(0, 0) == n(0, 0) && !(m != n);)"},
	{"math/math.h", R"(vec2 a(1.f, 2.f); vec3 b(1.f, 2.f, 3.f); vec4 c(1.f, 2.f, 3.f, 4.f); ivec3 d(x, x, x); Quat q(0.f, vec3(1.f, 0.f, 0.f)); return a.x + b.y + c.z == 6 && d.z == x && q.getUp().y > .9f;)"},
	{"math/math_types.h", R"(struct S { static int f(Vec2<int32> *, vec3 *, ivec4 *, Quat *) { return 1; } }; return S::f(nullptr, nullptr, nullptr, nullptr) == 1;)"},
	{"math/simd.h", R"(float a[4] = {1, 2, 3, 4}, b[4]; using V = Vector4<float32>; V::store(b, V::add(V::loadu(a), V::load(1.f, 1.f, 1.f, 1.f))); return b[0] == 2 && b[3] == 5;)"},
	{"misc/assert.h", R"(int y = x; CHECK(y == x); CHECKF(y == x, "%d", y); return true;)"},
	{"misc/build.h", R"(return BUILD_DEBUG + BUILD_RELEASE == 1;)"},
	{"misc/utility.h", R"(return true;)"},
	{"regex/regex.h", R"(Re::Regex r{String("a(b|c)*d?")}; return r.accept("abccbd") && !r.accept("abx") && r.accept(String("a")) && Re::accept(String("x+"), String("xxx"));)"},
	{"regex/automaton.h", R"(Re::Automaton<ansichar> a; return a.getStartState() == a.getStartState();)"},
	{"regex/regex_types.h", R"(using T = Re::AlphabetTraits<ansichar>; return T::isEOF("") && !T::isEOF("a") && *T::consumeInput("ab", 1) == 'b';)"},
	{"regex/state.h", R"(struct S { static int f(Re::StateBase<ansichar> *, Re::StateSymbol<ansichar> *) { return 1; } }; return S::f(nullptr, nullptr) == 1;)"},
	{"regex/executor.h", R"(struct S { static int f(Re::Executor<ansichar> *) { return 1; } }; return S::f(nullptr) == 1;)"},
	{"templates/array.h", R"(StaticArray<int32, 3> a{1, 2, 3}; constexpr auto b = makeStaticArray("hey"); static_assert(b.getCount() == 4); return a[1] == 2 && a.getCount() == 3 && b[1] == 'e';)"},
	{"templates/atomic.h", R"(Atomic<int32> a{x}; ++a; a += 3; a--; int32 v = a; a = v; Atomic<bool> b{true}; return v == x + 3 && b;)"},
	{"templates/enable_if.h", R"(EnableIfT<true, int> y = x; return y == x;)"},
	{"templates/base.h", R"(ChooseType<false, char, int>::Type y = x; return y == x;)"},
	{"templates/function.h", R"(int k = x; Function<int(int)> f = [&k](int y) { return k + y; }; Function<int(int)> g = f, h = move(f); return g(2) == x + 2 && h(3) == x + 3;)"},
	{"templates/functional.h", R"(return ThreeWayCompare()(x, x + 1) < 0 && ThreeWayCompare()(x, x) == 0 && NullCompare()(x, 3) == 0;)"},
	{"templates/iterator.h", R"(struct I : RandomAccessIterator<int32> {}; typename I::RefT r = x; return &r == &x;)"},
	{"templates/name.h", R"(static constexpr Name n = "name"; return n.getLength() == 4 && n[0] == 'n';)"},
	{"templates/optional.h", R"(Optional<int32> o, p{x}; o = p; p.reset(); return o.hasValue() && *o == x && !p;)"},
	{"templates/type_info.h", R"(return TypeDebugInfo<int32>::debugName.getLength() == 5 && (*TypeDebugInfo<uint8>::debugName)[0] == 'u';)"},
	{"templates/types.h", R"(return IsIntegral<int32>::value && !IsIntegral<float32>::value && IsSameType<RemoveReference<int &>::Type, int>::value && IsPointer<int *>::value;)"},
	{"templates/utility.h", R"(int a = x, b = 2; swap(a, b); int c = move(a); return b == x && c == 2 && forward<int&>(b) == x;)"},
};
static const size_t N_USES = sizeof USES / sizeof *USES;
static vector<string> headers() { vector<string> h; for (auto & u : USES) { bool have = false; for (auto & x : h) have |= x == u.header; if (!have) h.push_back(u.header); } return h; }
// A value one source file builds, another changes, and a third one reads
struct Shared { const char * header, * type, * make, * change, * check; };
static const Shared SHARED[] = {
	{"containers/array.h", "Array<int32>", "new Array<int32>(); for (int i = 0; i < 9; ++i) v->add(x + i)", "v.removeAt(0); v.add(-x)", "v.getCount() == 9 && v[0] == x + 1 && v[8] == -x"},
	{"containers/list.h", "List<int64>", "new List<int64>(); for (int i = 0; i < 5; ++i) v->pushBack((int64)x + i)", "v.pushFront((int64)-x); v.remove(++v.begin())", "v.getLength() == 5 && *v.begin() == -x && *++v.begin() == x + 1"},
	{"containers/map.h", "Map<int32, int32>", "new Map<int32, int32>(); for (int i = 0; i < 20; ++i) v->insert(i * 3 % 20, x + i)", "v.remove(0); v[50] = x", "v.getCount() == 20 && !v.has(0) && v[50] == x && v[3] == x + 1"},
	{"containers/set.h", "Set<int32>", "new Set<int32>(); for (int i = 0; i < 20; ++i) { int k = i % 7; v->set(k); }", "v.remove(2); int k = 9; v.set(k)", "v.getCount() == 7 && !v.get(2) && v.get(9) && x == x"},
	{"containers/string.h", "String", "new String(\"shared \"); *v += String::format(\"%d\", x)", "v += '!'; v += String(\" tail\")", "v == String::format(\"shared %d! tail\", x)"},
	{"containers/pair.h", "Pair<char, int64>", "new Pair<char, int64>('a', (int64)x)", "v.second *= 2", "v.first == 'a' && v.getVal() == 2 * (int64)x"},
	{"containers/tuple.h", "Tuple<char, int32, int64>", "new Tuple<char, int32, int64>('a', x, (int64)x)", "v.get<1>() += 5; v.get<2>() = 7", "v.get<0>() == 'a' && v.get<1>() == x + 5 && v.get<2>() == 7"},
	{"templates/optional.h", "Optional<int64>", "new Optional<int64>((int64)x)", "*v += 3", "v.hasValue() && *v == (int64)x + 3"},
	{"templates/function.h", "Function<int(int)>", "new Function<int(int)>([x](int y) { return x + y; })", "Function<int(int)> f = v; v = [f, k = 10](int y) { return f(y) + k; }", "v(4) == x + 14"},
	{"templates/atomic.h", "Atomic<int32>", "new Atomic<int32>(x)", "++v; v += 10", "v.load() == x + 11"},
	{"math/vec3.h", "Vec3<float32>", "new Vec3<float32>(x % 100, 2, 3)", "v = v * 2.f", "v.x == 2 * (x % 100) && v.z == 6"},
	{"math/vec4.h", "Vec4<float32>", "new Vec4<float32>(x % 100, 2, 3, 4)", "v = v + v", "v.x == 2 * (x % 100) && v.w == 8"},
	{"math/mat4.h", "Mat4<float32>", "new Mat4<float32>(); for (int i = 0; i < 16; ++i) (*v)(i) = (float)(x % 100 + i)", "v.transpose()", "v(1) == x % 100 + 4 && v(4) == x % 100 + 1 && v(15) == x % 100 + 15"},
	{"math/quat.h", "Quat", "new Quat(0.f, Vec3<float32>(1.f, 0.f, 0.f))", "v = v * v", "v.getUp().y > .99f && x == x"},
	{"regex/regex.h", "Re::Regex", "new Re::Regex(String(\"(ab|c)+\")); (void)x", "(void)v.accept(\"ab\")", "v.accept(\"abcab\") && !v.accept(\"abb\") && x == x"},
	{"hal/malloc_pool.h", "MallocPool", "new MallocPool(8, 64, 8); int * p = (int*)v->alloc(64); *p = x", "for (int i = 0; i < 7; ++i) v.alloc(64)", "!v.alloc(64) && x == x"},
	{"hal/malloc_binned.h", "MallocBinned", "new MallocBinned({4096, 8, 512, 4}, 16); *(int*)v->alloc(40) = x", "int * q = (int*)v.alloc(100); for (int i = 0; i < 25; ++i) q[i] = i; v.free(q)", "v.alloc(100) != nullptr && x == x"},
};
static const size_t N_SHARED = sizeof SHARED / sizeof *SHARED;
static const char * const STANDARD[] = {"cmath", "cstring", "cstdio", "cstdlib", "cstdint", "cstddef", "climits", "new", "utility", "vector", "string", "map", "set", "list", "array", "tuple", "functional", "algorithm", "memory", "atomic", "thread", "iostream", "initializer_list", "type_traits", "iterator", "limits", "unordered_map", "optional", "string.h", "math.h", "stdio.h", "stdlib.h", "stdint.h", "immintrin.h", "unistd.h", "pthread.h", "time.h"};
static const size_t N_STANDARD = sizeof STANDARD / sizeof *STANDARD;
// ---- Source files
static string include(const string & h, bool quoted) { return quoted ? "#include \"" + h + "\"\n" : "#include <" + h + ">\n"; }
static string uses(const string & header, const string & name)
{
	string t, calls; int n = 0;
	for (auto & u : USES) if (header == u.header) { string f = name + "_" + std::to_string(n++); t += "static bool " + f + "(int x) { " + u.body + " }\n"; calls += string(calls.empty() ? "" : " && ") + f + "(x)"; }
	return t + "bool " + name + "(int x) { return " + calls + "; }\n";
}
// Layout of a header's types, as members of a larger object, when the header is alone
static string layout_of(size_t k) { string b = "Box" + std::to_string(k); return "sizeof(" + b + ") * 1000 + alignof(" + b + ") * 10 + __is_trivially_copyable(" + b + ")"; }
static string boxes(const string & h) { string t; for (size_t k = 0; k < N_SHARED; ++k) if (h == SHARED[k].header) t += "struct Box" + std::to_string(k) + " { char before; " + SHARED[k].type + " value; char after; };\n"; return t; }
static bool layouts(Dir & d, const string & h, vector<std::pair<size_t, long>> & out)
{
	string key = h, text; for (char & c : key) if (!isalnum(c)) c = '_'; key = string(PBT_OUT) + "/layout-" + key + "-" PBT_TAG; bool any = false; for (auto & v : SHARED) any |= h == v.header; if (!any) return true;
	FILE * f = fopen(key.c_str(), "r");
	if (!f)
	{
		string t = include(h, true) + boxes(h) + "extern \"C\" int printf(const char *, ...);\nint main() {\n"; for (size_t k = 0; k < N_SHARED; ++k) if (h == SHARED[k].header) t += "printf(\"%d %ld\\n\", " + std::to_string(k) + ", (long)(" + layout_of(k) + "));\n"; d.write("layout.cpp", t + "}\n");
		vector<string> c = compiler("-O0"), r = {"./layout"}; c.insert(c.end(), {"layout.cpp", "-o", "layout"}); glob_t g; if (!glob((string(PBT_OUT) + "/" + PBT_TAG + "-lib-*.o").c_str(), 0, nullptr, &g)) { for (size_t i = 0; i < g.gl_pathc; ++i) c.push_back(g.gl_pathv[i]); globfree(&g); }
		int rc = finish(start(d, c, "layout.log", 60)); if (rc) { compileFailed(d, "layout.log", rc, (h + " cannot be used on its own").c_str()); return false; }
		if (finish(start(d, r, "layout.txt", 20))) return false;
		text = d.read("layout.txt"); string tmp = d.path + "/layout.done"; d.write("layout.done", text); if (rename(tmp.c_str(), key.c_str())) return false;
		f = fopen(key.c_str(), "r"); if (!f) return false;
	}
	int k; long v; while (fscanf(f, "%d %ld", &k, &v) == 2) out.push_back({(size_t)k, v}); fclose(f); return true;
}
// Each header alone, and after others
static void alone(Src & s)
{
	static const vector<string> H = headers(); string h = H[s.below(H.size())], before, after; bool twice = s.coin(); size_t n = s.chance(2, 3) ? 1 + s.below(20) : 0, library = 1;
	for (size_t i = 0; i < n; ++i) if (s.chance(1, 3)) before += include(STANDARD[s.below(N_STANDARD)], false); else { before += include(H[s.below(H.size())], true); ++library; }
	if (s.chance(1, 4)) after = include(STANDARD[s.below(N_STANDARD)], false);
	note("%s%s%s", h.c_str(), twice ? ", twice" : "", n ? ", after" : ", alone"); if (n) note("%s", before.c_str()); if (!after.empty()) note("followed by %s", after.c_str());
	Dir d; vector<std::pair<size_t, long>> known; if (!layouts(d, h, known)) return;
	string t = before + include(h, true); if (twice) t += include(h, true); t += after + uses(h, "used") + boxes(h); for (auto & k : known) t += "static_assert(" + layout_of(k.first) + " == " + std::to_string(k.second) + ", \"layout of " + SHARED[k.first].type + " depends on what was included before\");\n"; if (!known.empty()) label("layouts compared", known.size()); d.write("alone.cpp", t);
	vector<string> c = compiler("-O0"); c.push_back("-fsyntax-only"); c.push_back("alone.cpp");
	int rc = finish(start(d, c, "alone.log", 60)); label(h.c_str());
	if (rc) { compileFailed(d, "alone.log", rc, (h + (n ? " cannot be used after other headers" : " cannot be used on its own")).c_str()); return; }
	if (library >= 2 || !n) nontrivial();
}
// Programs
static void program(Src & s)
{
	static const vector<string> H = headers(); static const char * const OPT[] = {"-O0", "-O1", "-O2", "-Os"};
	struct Unit { string top, rest; vector<string> have; }; vector<Unit> units(1 + s.below(3)); int x = (int)s.below(1000); string decls, calls; int n_calls = 0; size_t library = 0;
	string common = s.coin() ? H[s.below(H.size())] : "";
	for (size_t u = 0; u < units.size(); ++u)
	{
		Unit & t = units[u]; if (!common.empty() && s.chance(5, 6)) { t.top += include(common, true); ++library; t.have.push_back(common); }
		size_t n = 1 + s.below(s.chance(1, 4) ? 30 : 6);
		for (size_t i = 0; i < n; ++i)
		{
			if (s.chance(1, 4)) { t.top += include(STANDARD[s.below(N_STANDARD)], false); continue; }
			string h = s.chance(1, 8) && !t.have.empty() ? t.have[s.below(t.have.size())] : H[s.below(H.size())]; t.top += include(h, s.chance(3, 4)); ++library;
			bool seen = false; for (auto & k : t.have) seen |= k == h; if (!seen) t.have.push_back(h);
		}
	}
	// values that pass through several files
	for (size_t k = s.below(4); k; --k)
	{
		const Shared & v = SHARED[s.below(N_SHARED)]; string id = "shared" + std::to_string(k); size_t at[3]; for (auto & a : at) a = s.below(units.size());
		for (size_t a : at) { Unit & t = units[a]; bool seen = false; for (auto & h : t.have) seen |= h == v.header; if (!seen) { t.top += include(v.header, true); t.have.push_back(v.header); ++library; } }
		string p = string(v.type) + " & v = *(" + v.type + "*)p; ";
		units[at[0]].rest += "void * " + id + "_make(int x) { auto * v = " + v.make + "; return v; }\n";
		units[at[1]].rest += "void " + id + "_change(void * p, int x) { " + p + v.change + "; }\n";
		units[at[2]].rest += "bool " + id + "_check(void * p, int x) { " + p + "bool ok = " + v.check + "; delete &v; return ok; }\n";
		decls += "void * " + id + "_make(int); void " + id + "_change(void *, int); bool " + id + "_check(void *, int);\n";
		calls += "{ void * p = " + id + "_make(x); " + id + "_change(p, x); if (!" + id + "_check(p, x)) return printf(\"a value of type " + v.type + " built in file " + std::to_string(at[0]) + ", changed in file " + std::to_string(at[1]) + ", read in file " + std::to_string(at[2]) + "\\n\"), 1; }\n"; ++n_calls;
		label("value passed between files", at[0] != at[1] || at[1] != at[2]);
	}
	for (size_t u = 0; u < units.size(); ++u) for (auto & h : units[u].have)
	{
		if (s.chance(1, 3)) continue;
		string name = "used" + std::to_string(n_calls++); units[u].rest += uses(h, name); decls += "bool " + name + "(int);\n"; calls += "if (!" + name + "(x)) return printf(\"" + h + " in file " + std::to_string(u) + "\\n\"), 1;\n";
	}
	Dir d; vector<pid_t> ps; vector<string> opts, objs;
	for (size_t u = 0; u < units.size(); ++u) { string f = "file" + std::to_string(u); opts.push_back(OPT[s.below(4)]); d.write(f + ".cpp", units[u].top + units[u].rest); note("---- file %zu, %s\n%s%s", u, opts[u].c_str(), units[u].top.c_str(), units[u].rest.c_str()); }
	d.write("main.cpp", "#include <stdio.h>\n" + decls + "int main() { int x = " + std::to_string(x) + ";\n" + calls + "return 0; }\n");
	for (size_t u = 0; u <= units.size(); ++u)
	{
		string f = u < units.size() ? "file" + std::to_string(u) : "main"; vector<string> c = compiler(u < units.size() ? opts[u].c_str() : "-O0"); c.insert(c.end(), {"-c", f + ".cpp", "-o", f + ".o"}); ps.push_back(start(d, c, f + ".log", 100)); objs.push_back(f + ".o");
	}
	vector<int> rc; for (pid_t p : ps) rc.push_back(finish(p));
	for (size_t u = 0; u < units.size(); ++u) if (rc[u]) { compileFailed(d, "file" + std::to_string(u) + ".log", rc[u], ("file " + std::to_string(u) + " does not compile").c_str()); return; }
	if (rc.back()) { label("compiler gave up"); return; }
	vector<string> c = {"g++", "-o", "prog"}; c.insert(c.end(), objs.begin(), objs.end());
	glob_t g; if (glob((string(PBT_OUT) + "/" + PBT_TAG + "-lib-*.o").c_str(), 0, nullptr, &g)) { label("no library"); return; } for (size_t i = 0; i < g.gl_pathc; ++i) c.push_back(g.gl_pathv[i]); globfree(&g); c.push_back("-lpthread");
	int lrc = finish(start(d, c, "link.log", 60)); if (lrc) { compileFailed(d, "link.log", lrc, "the program does not link"); return; }
	vector<string> r = {"./prog"}; int prc = finish(start(d, r, "prog.log", 20)); string said = d.read("prog.log");
	if (prc) { note("%s", said.c_str()); pbt::fail("the program %s: %s", prc >= 1000 ? "crashed" : "found a wrong result", said.substr(0, 300).c_str()); }
	label("files", units.size()); label("library headers included", library); label("checks of the program", n_calls);
	if (library >= 2) nontrivial();
}
std::vector<pbt::Suite> pbt::SUITES = {
	{"alone", alone, 320, 800, "one header, once or twice, alone or after a sequence of others, what it offers, and the layout of its types"},
	{"program", program, 80, 1200, "programs of one to three files"},
};
