// Strings as items: ordered as the numbers they stand for
#pragma once
#include "support.h"
#include "containers/string.h"

template<> struct Elem<String>
{
	static std::string text(int v) { char b[32]; snprintf(b, sizeof b, "k%07d", v + 1000000); std::string t(b); unsigned p = (unsigned)v % 5; if (p == 1) t += std::string(30, 'x'); else if (p == 2) t += " and something more"; return t; }
	static String make(int v) { return String{text(v).c_str()}; }
	static int read(const String & t)
	{
		if (t.getLength() == 0) return -5000;
		REQUIRE(*t != nullptr && t.getLength() >= 8 && (*t)[0] == 'k', "an item holds \"%.40s\"", *t ? *t : "(null)"); int v = atoi(*t + 1) - 1000000; std::string e = text(v);
		REQUIRE(t.getLength() == e.size() && !::memcmp(*t, e.c_str(), e.size() + 1), "an item holds \"%.60s\", expected \"%s\"", *t, e.c_str()); return v;
	}
	static const char * name() { return "text"; } static constexpr bool counted = false;
};
// Looking up texts by C strings
template<typename M> static void lookup_by_c_string(Src & s, M & x)
{
	int k = s.below(x.span); std::string t = Elem<String>::text(k); const char * c = t.c_str(); bool p = x.m.count(k); const auto & ca = x.a; int w = 100 + s.below(100); note("C string for %d", k); label("op with C strings");
	switch (s.below(5))
	{
	case 0: { REQ(ca.has(c) == p); auto it = ca.find(c); REQ((it != ca.end()) == p); if (p) REQ(Elem<String>::read(it->second) == x.m[k]); break; }
	case 1: { String o("nothing"); REQ(ca.find(c, o) == p); if (p) REQ(Elem<String>::read(o) == x.m[k]); else REQ(o == "nothing"); break; }
	case 2: { x.a[c] = Elem<String>::text(w).c_str(); x.m[k] = w; break; }
	case 3: { x.a.insert(c, Elem<String>::text(w).c_str()); x.m[k] = w; break; }
	default: { REQ(x.a.remove(c) == p); x.m.erase(k); break; }
	}
	t.assign(t.size(), '!');
}
