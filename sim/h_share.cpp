// V13: values share what they hold. Copies, slices and reading copy no content, a change copies it at most once, and memory follows the content.
#include "harness.h"
#include <strval.h>
#include <array.h>
#include <cowmap.h>
#include <variant.h>
#include <vector>
#include <string>
#include <new>

#define MAXA 4
#define NB 2
enum { W_STR, W_ARR, W_STRS, W_MAP, W_VAR, W_TAKE, W_GIVE, W_INPLACE, W_ONCE, W_GROW, W_STACK, W_RESERVE, W_BUILD, W_SEARCH, W_COMPARE, W_CONVERT, W_PIECES, W_ARRAYS, W_LOOKUP, W_LAST };
static const char* opname(int c)
{
	static const char* const n[] = { "read_string", "read_array", "read_strings", "read_map", "read_variant", "take", "give", "change_unshared", "change_shared", "grow", "stack", "reserve", "build", "search", "compare", "convert", "pieces", "arrays", "lookup" };
	return c < 0 ? "dropped" : c < W_LAST ? n[c] : "?";
}
enum { P_SHARED, P_SLICE, P_MULTI, P_CHANGED, P_GREW, P_STACK, P_RESERVED, P_BUILT, P_INPLACE, P_SEARCHED, P_SEARCHSLICE, P_COMPARED, P_CONVERTED, P_PIECES, P_ARRAYS, P_LOOKUP };
static const char* const probes[] = { "V13:read_while_other_threads_had_it", "V13:read_a_slice", "V13,V14:text_of_several_bytes_a_character", "V13:first_change_of_a_shared_value", "V13:grew_by_single_elements", "V13:pushed_and_pulled_many_times", "V13:filled_reserved_memory", "V13:built_from_parts", "V13:changed_in_place", "V14:searched_text", "V14:searched_a_slice", "V14:compared_long_texts", "V14:changed_all_of_a_text", "V14:built_from_pieces", "V14:searched_and_filtered_arrays", "V14:looked_up_in_maps", 0 };

typedef Array<int> IntArray;
typedef CowMap<StrVal> StrMap;
template<class T, int N> struct Pool { char raw[N][sizeof(T)] __attribute__((aligned(16))); T& operator()(int i) { return *(T*)raw[i]; } };
static Pool<StrVal,NB> bS; static Pool<IntArray,NB> bA; static Pool<StringArray,NB> bT; static Pool<StrMap,NB> bM; static Pool<Variant,NB> bV;

#define FLAT	700	// what an operation may allocate that copies no content
static void within(uint64_t had, uint64_t may, const char* kind, const char* what)
{
	uint64_t got = sim_my_bytes() - had;
	if (got > may) sim_fail(kind, "%s allocated %llu bytes, where %llu would do", what, (unsigned long long)got, (unsigned long long)may);
}
#define COST(may, kind, what, ...) do { uint64_t had_ = sim_my_bytes(); { __VA_ARGS__; } MODEL; within(had_, may, kind, what); } while (0)
#define FREE(what, ...) COST(FLAT, "copied", what, __VA_ARGS__)

// V14: so many steps for each byte (or element) that has to be looked at
struct Work { uint64_t from, n; const char* what; int perbyte; Work(double bytes, const char* w, int per) : from(0), n((uint64_t)bytes + 50), what(w), perbyte(per) { MODEL; sim_limit_steps(n * per, w); from = sim_my_steps(); } ~Work() { MODEL; double r = (double)(sim_my_steps() - from) / n / perbyte; sim_limit_steps(0, ""); if (getenv("WORK_SHOW")) fprintf(stderr, "WORK %.3f %s\n", r, what); } };
enum { STEP_SEARCH = 40, STEP_COMPARE = 20, STEP_CONVERT = 200, STEP_PIECE = 250, STEP_ARRAY = 100, STEP_MAP = 1000 };
#define WORK(bytes, per, what, ...) do { Work work_(bytes, what, per); __VA_ARGS__; } while (0)

// ------------------------------------------------------------ contents
static std::string* mktext(int kind, int n, int seed)
{
	MODEL; std::string* s = new std::string; Rng r(seed * 977 + kind);
	static const char* const multi[] = { "\xC3\xA9", "\xE2\x82\xAC", "\xE5\xAD\x97", "\xF0\x9F\x98\x80", "\xCE\xA9", "a", " " };
	while ((int)s->size() < n)
	{
		if (kind == 0) *s += (char)('a' + r.below(26)); else if (kind == 1) *s += multi[r.below(5)];
		else if (kind == 2) *s += r.pct(50) ? std::string(1, (char)('a' + r.below(26))) : std::string(multi[r.below(7)]);
		else *s += r.pct(90) ? std::string(1, (char)('a' + r.below(26))) : std::string(1, (char)(0x80 + r.below(128)));
	}
	if (kind) sim_probe(P_MULTI);
	return s;
}
static int kind_of(const SimOp& op) { return op.a & 3; }
static int size_of(const SimOp& op) { static const int sz[] = { 3000, 3000, 3500, 4000, 5000, 9000 }; return sz[(unsigned)op.b % 6] + (unsigned)op.c % 61; }
static StrVal mkstr(int kind, int n, int seed) { if (kind && n > 1500) n = 1300 + n % 200; std::string* t = mktext(kind, n, seed); const char* p; int len; { MODEL; p = t->data(); len = (int)t->size(); } StrVal s(p, (StrValIndex)len); { MODEL; delete t; } return s; }
static StrVal mkstr2(int kind, int n, int seed) { std::string* t = mktext(kind, n, seed); const char* p; int len; { MODEL; p = t->data(); len = (int)t->size(); } StrVal s(p, (StrValIndex)len); { MODEL; delete t; } return s; }
static IntArray mkarr(int n, int seed) { IntArray a((const int*)0, 0, n); for (int i = 0; i < n; i++) a.push(i * 7 + seed); return a; }
static StringArray mkstrs(int n, int seed) { StringArray a; StrVal big = mkstr(seed & 3, 200, seed); int l = big.length(); for (int i = 0; i < n; i++) a << big.substr(i * 3 % (l - 4), 3); return a; }
static StrMap mkmap(int n, int seed) { StrMap m; StrVal big = mkstr(0, 300, seed); for (int i = 0; i < n; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "k%d", i); } m.put(StrVal(k), big.substr(i % 250, 20)); } return m; }

// ------------------------------------------------------------ reading
static StrVal by_value(StrVal s) { return s; }
static IntArray by_value(IntArray s) { return s; }
static Variant by_value(Variant s) { return s; }
static volatile long sink;
static void read_str(const StrVal& s, const SimOp& op)
{
	int len = 0; FREE("length()", len = s.length()); if (len < 8) return;
	const StrVal part = s.substr(1, len - 2), other = mkstr(kind_of(op), 40, op.d);
	Rng r(op.d * 31 + op.e);
	for (int i = 0; i < 7; i++)
	{
		int w, at, n; bool sl; { MODEL; w = r.below(24); at = r.below(len-4); n = 1 + r.below(len - at - 1); sl = r.pct(50); if (sl) sim_probe(P_SLICE); }
		const StrVal& x = sl ? part : s;
		switch (w)
		{
		case 0: FREE("copying a string", StrVal c(x); sink = c.length()); break;
		case 1: { StrVal c; FREE("assigning a string", c = x); break; }
		case 2: FREE("substr()", StrVal c(x.substr(at, n)); sink = c.length()); break;
		case 3: FREE("substr() to the end", StrVal c(x.substr(at)); sink = c.length()); break;
		case 4: FREE("head()", StrVal c(x.head(n)); sink = c.length()); break;
		case 5: FREE("tail()", StrVal c(x.tail(n)); sink = c.length()); break;
		case 6: FREE("shorter()", StrVal c(x.shorter(at)); sink = c.length()); break;
		case 7: FREE("a substring of a substring", StrVal c(x.substr(at).head(n).tail(n/2 + 1)); sink = c.length()); break;
		case 8: FREE("indexing", sink = x[at] + x[at+1] + x[0]); break;
		case 9: FREE("find() of a character", sink = x.find((UCS4)'z', at) + x.find((UCS4)1)); break;
		case 10: FREE("rfind() of a character", sink = x.rfind((UCS4)'z', at) + x.rfind((UCS4)1)); break;
		case 11: FREE("find() of a string", sink = x.find(other) + x.find(part)); break;
		case 12: FREE("rfind() of a string", sink = x.rfind(other) + x.rfind(part)); break;
		case 13: { StrVal c(x); StrVal d = mkstr(kind_of(op), size_of(op), op.e); FREE("comparing", sink = (c == x) + (d == x) + (d < x) + x.compare(d)); break; }
		case 14: FREE("two substrings of one string", StrVal c(x.head(at)), d(x.substr(at)); sink = (c < d) + (c == d)); break;
		case 15: FREE("asUTF8() with a length", StrValIndex b; const char* p = x.asUTF8(b); sink = p[0] + b); break;
		case 16: FREE("numBytes()", sink = x.numBytes()); break;
		case 17: FREE("passing and returning by value", sink = by_value(x).length()); break;
		case 18: FREE("findAny() and findNot()", StrVal few(" \t"); sink = x.findAny(few, at) + x.findNot(few) + x.rfindAny(few) + x.rfindNot(few, at)); break;
		case 19: FREE("storing in a Variant and taking it back", Variant v(x); const Variant u(v); StrVal c(u.as_strval()); sink = c.length()); break;
		case 20: { StrVal whole(s); FREE("asUTF8() of a whole string", sink = *whole.asUTF8()); break; }
		case 22: { StrVal c; FREE("adding to an empty string", c += x; sink = c.length()); break; }
		case 23: { StrVal a(x.head(at+1)), b(x.substr(at+1, n)), c; FREE("joining substrings that lie together", c = a + b; sink = c.length()); break; }
		case 21: FREE("asInt32()", ErrNum e; sink = x.asInt32(&e)); break;
		}
	}
}
static void read_arr(const IntArray& s, const SimOp& op)
{
	int len = s.length(); if (len < 8) return;
	const IntArray part = s.slice(1, len - 2);
	Rng r(op.d * 31 + op.e);
	for (int i = 0; i < 7; i++)
	{
		int w, at, n; bool sl; { MODEL; w = r.below(20); at = r.below(len-4); n = 1 + r.below(len - at - 3); sl = r.pct(50); if (sl) sim_probe(P_SLICE); }
		const IntArray& x = sl ? part : s;
		switch (w)
		{
		case 0: FREE("copying an array", IntArray c(x); sink = c.length()); break;
		case 1: { IntArray c; FREE("assigning an array", c = x); break; }
		case 2: FREE("slice()", IntArray c(x.slice(at, n)); sink = c.length()); break;
		case 3: FREE("head()", IntArray c(x.head(n)); sink = c.length()); break;
		case 4: FREE("tail()", IntArray c(x.tail(n)); sink = c.length()); break;
		case 5: FREE("shorter()", IntArray c(x.shorter(at)); sink = c.length()); break;
		case 6: FREE("drop()", IntArray c(x.drop(n)); sink = c.length()); break;
		case 7: FREE("a slice of a slice", IntArray c(x.slice(at).head(n).tail(n/2 + 1)); sink = c.length()); break;
		case 8: FREE("indexing", sink = x[at] + x.elem(n) + x.elem_ref(at) + x.last_ref() + *x.asElements()); break;
		case 9: FREE("find()", sink = x.find(at * 7) + x.rfind(at * 7) + x.find(-3)); break;
		case 10: FREE("comparing", sink = (x == s) + x.compare(s) + (x != part)); break;
		case 11: FREE("each()", long t = 0; x.each([&](const int& e) { t += e; }); sink = t); break;
		case 12: FREE("all(), any(), one(), detect()", sink = x.all([](const int& e) { return e >= 0; }) + x.any([](const int& e) { return e < 0; }) + x.one([](const int& e) { return e == 14; }) + x.detect([](const int& e) { return e == 70; })); break;
		case 13: FREE("bsearch()", sink = x.bsearch([&](const int& e) { return e - at * 7; })); break;
		case 14: FREE("inject()", sink = x.inject<long>(0, [](long& a, const int& e) { return a + e; })); break;
		case 15: FREE("passing and returning by value", sink = by_value(x).length()); break;
		case 16: { IntArray c(x); FREE("remove() at either end", c.remove(n); sink = c.length()); FREE("remove() at either end", c.remove(0, 1); sink = c.length()); break; }
		case 18: { IntArray c; FREE("adding to an empty array", c += x; sink = c.length()); break; }
		case 19: { IntArray a(x.head(at+1)), b(x.slice(at+1, n)), c; FREE("joining slices that lie together", c = a + b; sink = c.length()); break; }
		case 17: { IntArray c(x); FREE("pull(), shift() and clear()", sink = c.pull(); sink = c.shift(); c.clear()); break; }
		}
	}
}
static void read_strs(const StringArray& s, const SimOp& op)
{
	int len = s.length(); if (len < 8) return;
	Rng r(op.d * 31 + op.e);
	for (int i = 0; i < 5; i++)
	{
		int w, at, n; { MODEL; w = r.below(8); at = r.below(len-4); n = 1 + r.below(len - at - 3); }
		switch (w)
		{
		case 0: FREE("copying an array of strings", StringArray c(s); sink = c.length()); break;
		case 1: { StringArray c; FREE("assigning an array of strings", c = s); break; }
		case 2: FREE("a slice of strings", StringArray c(s.slice(at, n)); sink = c.length()); break;
		case 3: FREE("indexing an array of strings", StrVal c(s[at]); sink = c.length() + s.elem(n).length()); break;
		case 4: FREE("storing in a Variant and taking it back", Variant v(s); const Variant u(v); Variant t; t = u; sink = u.as_string_array().length()); break;
		case 5: { StrVal k = s[at]; FREE("find() of a string in an array", sink = s.find(k) + s.rfind(k)); break; }
		case 6: { StringArray c(s); FREE("comparing arrays of strings", sink = (c == s) + c.compare(s)); break; }
		case 7: FREE("each()", long t = 0; s.each([&](const StrRef& e) { t += e.length(); }); sink = t); break;
		}
	}
}
static void read_map(StrMap& m, const SimOp& op)
{
	int n = (int)m.size(); if (n < 8) return;
	Rng r(op.d * 31 + op.e);
	for (int i = 0; i < 5; i++)
	{
		int w; char k[12]; { MODEL; w = r.below(7); snprintf(k, sizeof k, "k%d", r.below(n + 3)); }
		StrVal key(k);
		switch (w)
		{
		case 0: FREE("copying a map", StrMap c(m); sink = c.size()); break;
		case 1: { StrMap c; FREE("assigning a map", c = m); break; }
		case 2: FREE("looking up in a map", StrVal v(m[key]); sink = v.length()); break;
		case 3: FREE("contains()", sink = m.contains(key) + m.size()); break;
		case 4: FREE("each() of a map", long t = 0; m.each([&](const StrVal& kk, const StrVal& vv) { t += kk.length() + vv.length(); }); sink = t); break;
		case 5: FREE("iterating a map", long t = 0; for (auto it = m.begin(); it != m.end(); it++) t += it->second.length(); sink = t); break;
		case 6: FREE("all(), any(), one() of a map", sink = m.all([](const StrVal&, const StrVal& v) { return v.length() > 0; }) + m.any([](const StrVal&, const StrVal& v) { return v.length() == 0; }) + m.one([](const StrVal& kk, const StrVal&) { return kk.length() == 2; })); break;
		}
	}
}
static Variant mkvar(const SimOp& op)
{
	switch ((unsigned)op.e % 4)
	{
	case 0: return Variant(mkstr(kind_of(op), size_of(op), op.d));
	case 1: return Variant(mkstrs(size_of(op) / 20, op.d));
	case 2: { VariantArray a((const Variant*)0, 0, 200); StrVal s = mkstr(kind_of(op), 100, op.d); for (int i = 0; i < 150; i++) { if (i & 1) a.push(Variant(i)); else a.push(Variant(s)); } return Variant(a); }
	default: { StrVariantMap m; for (int i = 0; i < 60; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "key%d", i); } m.put(StrVal(k), i & 1 ? Variant(i) : Variant(StrVal(k))); } return Variant(m); }
	}
}
static void read_var(const Variant& v, const SimOp& op)
{
	Rng r(op.d * 31 + op.b);
	for (int i = 0; i < 4; i++)
	{
		int w; { MODEL; w = r.below(6); }
		switch (w)
		{
		case 0: FREE("copying a Variant", Variant c(v); sink = c.type()); break;
		case 1: { Variant c; FREE("assigning a Variant", c = v); break; }
		case 2: { Variant c(5); FREE("assigning a Variant", c = v); Variant d(c); FREE("assigning a Variant", d = v); break; }
		case 3: FREE("passing and returning by value", sink = by_value(v).type()); break;
		case 4: FREE("reading a Variant", switch (v.type()) { case Variant::String: sink = v.as_strval().length(); break; case Variant::StrArray: sink = v.as_string_array().length(); break; case Variant::VarArray: sink = v.as_variant_array().length(); break; case Variant::StrVarMap: sink = v.as_variant_map().size(); break; default: break; }); break;
		case 5: { Variant c(v); FREE("reading a Variant that can change", switch (c.type()) { case Variant::String: sink = c.as_strval().length(); break; case Variant::StrArray: sink = c.as_string_array().length(); break; case Variant::VarArray: sink = c.as_variant_array().length(); break; case Variant::StrVarMap: sink = c.as_variant_map().size(); break; default: break; }); break; }
		}
	}
}

// ------------------------------------------------------------ operations
template<class A, class E> static void array_inplace(A& a, E e, Rng& r)
{
	for (int i = 0; i < 6; i++)
	{
		int w, at; { MODEL; w = r.below(6); at = r.below(a.length() - 2); sim_probe(P_INPLACE); }
		switch (w)
		{
		case 0: FREE("setting an element of an unshared array", a.set(at, e)); break;
		case 1: FREE("changing an element of an unshared array", a.elem_mut(at) = e; a.last_mut() = e); break;
		case 2: FREE("reversing an unshared array", a.reverse()); break;
		case 3: FREE("removing from an unshared array", a.remove(at, 1); sink = a.delete_at(at) == e); break;
		case 4: FREE("delete_if() in an unshared array", int k = 0; a.delete_if([&](const E&) { return k++ % 50 == 7; })); break;
		case 5: FREE("taking off either end of an unshared array", sink = a.pull() == e; a.remove(0, 1)); break;
		}
	}
}
static void exec(int A, const SimOp& op)
{
	int n = size_of(op), seed = op.d; bool flag = op.e & 1;
	switch (op.code)
	{
	case W_STR: { StrVal s = mkstr(kind_of(op), n, seed); read_str(s, op); break; }
	case W_ARR: { IntArray a = mkarr(n/4, seed); read_arr(a, op); break; }
	case W_STRS: { StringArray a = mkstrs(n/20, seed); read_strs(a, op); break; }
	case W_MAP: { StrMap m = mkmap(40, seed); read_map(m, op); break; }
	case W_VAR: { Variant v = mkvar(op); read_var(v, op); break; }
	case W_TAKE:
	{	// read what other threads have too
		int k = (unsigned)op.c % NB; StrVal s; IntArray a; StringArray t; StrMap m; Variant v; { MODEL; sim_probe(P_SHARED); }
		sim_lock(k);
		switch ((unsigned)op.f % 5)
		{
		case 0: FREE("copying a string", s = bS(k)); break;
		case 1: FREE("copying an array", a = bA(k)); break;
		case 2: FREE("copying an array of strings", t = bT(k)); break;
		case 3: FREE("copying a map", m = bM(k)); break;
		default: FREE("copying a Variant", v = bV(k)); break;
		}
		sim_unlock(k);
		switch ((unsigned)op.f % 5) { case 0: read_str(s, op); break; case 1: read_arr(a, op); break; case 2: read_strs(t, op); break; case 3: read_map(m, op); break; default: read_var(v, op); break; }
		if (flag) switch ((unsigned)op.f % 5)
		{	// and change it: whatever the others do, that copies it once at most
		case 0: { int nb = s.numBytes(); COST(3*nb + FLAT, "copied-again", "changing a string others have", s += UCS4('x'); s += UCS4('y')); break; }
		case 1: { int l = a.length(); COST(4*(l+2)*3 + FLAT, "copied-again", "changing an array others have", a.set(0, 1); a.set(1, 5); a.push(7)); break; }
		case 2: { int l = t.length(); COST(sizeof(StrRef)*(l+2)*3 + FLAT, "copied-again", "changing an array of strings others have", t << StrVal("x"); t << StrVal("y")); break; }
		case 3: { m.put(StrVal("k1"), StrVal("x")); FREE("changing a map again", m.put(StrVal("k2"), StrVal("y"))); break; }
		default: { FREE("changing a Variant others have", v = Variant(7)); break; }
		}
		break;
	}
	case W_GIVE:
	{
		int k = (unsigned)op.c % NB;
		switch ((unsigned)op.f % 5)
		{
		case 0: { StrVal s = mkstr(kind_of(op), n, seed); sim_lock(k); FREE("assigning a string", bS(k) = s); sim_unlock(k); break; }
		case 1: { IntArray a = mkarr(n/4, seed); sim_lock(k); FREE("assigning an array", bA(k) = a); sim_unlock(k); break; }
		case 2: { StringArray a = mkstrs(n/20, seed); sim_lock(k); FREE("assigning an array of strings", bT(k) = a); sim_unlock(k); break; }
		case 3: { StrMap m = mkmap(30, seed); sim_lock(k); FREE("assigning a map", bM(k) = m); sim_unlock(k); break; }
		default: { Variant v = mkvar(op); sim_lock(k); FREE("assigning a Variant", bV(k) = v); sim_unlock(k); break; }
		}
		break;
	}
	case W_INPLACE:
	{
		Rng r(op.d * 7 + op.e);
		if (op.f % 3 == 0) { IntArray a = mkarr(n/4, seed); { IntArray was(a); sink = was.length(); } array_inplace(a, 5, r); }
		else if (op.f % 3 == 1) { Array<StrVal> a; StrVal x("x"); for (int i = 0; i < n/20; i++) a << x; array_inplace(a, x, r); }
		else { StrMap m = mkmap(40, seed); for (int i = 0; i < 5; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "k%d", r.below(40)); sim_probe(P_INPLACE); } StrVal key(k); if (r.pct(60)) FREE("changing an entry of an unshared map", m.put(key, key)); else if (r.pct(50)) FREE("removing an entry of an unshared map", m.remove(key)); else FREE("adding an entry to an unshared map", m.put(key + "x", key)); } }
		break;
	}
	case W_ONCE:
	{	// a slice or copy is changed: only what it covers is copied, once; the rest stays where it is
		{ MODEL; sim_probe(P_CHANGED); }
		int part = 5 + (unsigned)op.c % 40;
		switch ((unsigned)op.f % 5)
		{
		case 0: { StrVal s = mkstr(kind_of(op), n, seed); int l = s.length(); StrVal x(flag ? s.substr(l/3, part) : s); int nb = x.numBytes(); COST(3*nb + FLAT, "copied-more", flag ? "changing a short substring" : "changing a copy of a string", if (op.d & 1) x += UCS4('!'); else x.insert(1, StrVal("??"))); COST(3*nb + FLAT, "copied-again", "changing a string again", x += UCS4('x'); x += UCS4('y')); break; }
		case 1: { IntArray s = mkarr(n/4, seed); IntArray x(flag ? s.slice(n/12, part) : s); int l = x.length(); COST(4*l*2 + FLAT, "copied-more", flag ? "changing a short slice" : "changing a copy of an array", if (op.d & 1) x.set(2, 1); else x.reverse()); FREE("changing an array again", x.set(1, 3); x.elem_mut(0) = 9); FREE("changing the array that was copied", if (!(op.d & 2)) { x.clear(); x = IntArray(); s.set(1, 4); }); break; }
		case 2: { Array<StrVal> s; StrVal e("x"); for (int i = 0; i < n/20; i++) s << e; Array<StrVal> x(flag ? s.slice(n/60, part) : s); int l = x.length(); COST(sizeof(StrVal)*(l+1)*3 + FLAT, "copied-more", flag ? "changing a short slice" : "changing a copy of an array", if (op.d & 1) x.set(2, e); else x << e); FREE("changing an array again", x.set(1, e); x.elem_mut(0) = e); break; }
		case 3: { StrMap m = mkmap(40, seed), x(m); x.put(StrVal("k3"), StrVal("y")); FREE("changing a map again", x.put(StrVal("k4"), StrVal("z")); x.remove(StrVal("k5"))); { StrMap none; x = none; } FREE("changing the map that was copied", m.put(StrVal("k6"), StrVal("q"))); break; }
		default: { StrVal s = mkstr(kind_of(op), n, seed); int l = s.length(); StrVal x(s.substr(l/3, part)); int nb = x.numBytes(); COST(3*nb + FLAT, "copied-more", "asUTF8() of a short substring", sink = *x.asUTF8()); FREE("asUTF8() again", sink = *x.asUTF8()); break; }
		}
		break;
	}
	case W_GROW:
	{	// element by element
		{ MODEL; sim_probe(P_GREW); }
		int m = n / (op.f % 4 == 1 ? 4 : 8);
		switch ((unsigned)op.f % 4)
		{
		case 0: { StrVal s; m /= 4; UCS4 ch = kind_of(op) == 0 ? 'q' : kind_of(op) == 1 ? 0xE9 : 0x5B57; uint64_t b0 = sim_my_bytes(); uint64_t had = 0; for (int i = 0; i < m; i++) { if (flag || i % 3) s += ch; else s.append(StrVal(ch)); } int nb = s.numBytes(); { MODEL; (void)had; within(b0, 8ull*nb + 150ull*m + FLAT, "grew-dearly", "appending single characters"); } break; }
		case 1: { IntArray a; uint64_t b0 = sim_my_bytes(), k0 = sim_my_blocks(); for (int i = 0; i < m; i++) { if (i & 1) a << i; else a.push(i); } { MODEL; within(b0, 4ull*m*8 + FLAT, "grew-dearly", "appending single elements"); if (sim_my_blocks() - k0 > 40) sim_fail("grew-dearly", "appending %d elements took %llu blocks", m, (unsigned long long)(sim_my_blocks() - k0)); } break; }
		case 2: { StringArray a; StrVal e("abc"); uint64_t b0 = sim_my_bytes(); for (int i = 0; i < m; i++) a << e; { MODEL; within(b0, (uint64_t)sizeof(StrRef)*m*8 + FLAT, "grew-dearly", "appending single strings"); } break; }
		default: { StrMap a; uint64_t b0 = sim_my_bytes(); m /= 8; for (int i = 0; i < m; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "%d", i * 37 % 1000); } a.put(StrVal(k), StrVal()); } { MODEL; within(b0, 400ull*m + FLAT, "grew-dearly", "adding entries to a map"); } break; }
		}
		break;
	}
	case W_STACK:
	{	// a stack, queue or scratch list in use for long: what was taken off does not stay
		{ MODEL; sim_probe(P_STACK); }
		int rounds = 150 + (unsigned)op.c % 150, w = (unsigned)op.f % 5, size = 1 + (unsigned)op.a % 9; Rng r(op.d);
		IntArray a; StringArray t; StrVal e("abc");
		sim_mark_peak(); uint64_t live0 = sim_live_bytes(); (void)live0; uint64_t b0 = sim_my_bytes(), last = b0;
		for (int i = 0; i < rounds; i++)
		{
			switch (w)
			{
			case 0: while (a.length() < (ArrayIndex)size) a.push(i); sink = a.pull(); if (a.length()) sink = a.pull(); break;
			case 1: while (a.length() < (ArrayIndex)size) a.push(i); sink = a.shift(); break;
			case 2: a.clear(); for (int j = 0; j < size; j++) a.push(j); break;
			case 3: while (t.length() < (ArrayIndex)size) t << e; t.pull(); break;
			default: while (a.length() < (ArrayIndex)size) a.push(i); a.remove(a.length()/2, 1); break;
			}
			if (i == rounds/2) last = sim_my_bytes();
		}
		{ MODEL; (void)last; within(b0, 3000, "kept", w == 0 || w == 3 ? "pushing and pulling a few elements many times" : w == 1 ? "pushing and shifting a few elements many times" : w == 2 ? "filling and clearing a short array many times" : "adding and removing a few elements many times"); }
		break;
	}
	case W_RESERVE:
	{
		{ MODEL; sim_probe(P_RESERVED); }
		if (flag) { IntArray a((const int*)0, 0, n/4); FREE("filling reserved memory of an array", for (int i = 0; i < n/4; i++) a.push(i)); }
		else { StrVal s("abc", 3, n); StrVal e("xyz"); FREE("filling reserved memory of a string", for (int i = 0; i < n/8; i++) s.append(e)); }
		break;
	}
	case W_BUILD:
	{
		{ MODEL; sim_probe(P_BUILT); }
		switch ((unsigned)op.f % 5)
		{
		case 0: { StrVal x = mkstr(kind_of(op), n, seed), y = mkstr(kind_of(op), n/3, seed+1); uint64_t nb = x.numBytes() + y.numBytes(); COST(4*nb + FLAT, "built-dearly", "adding two strings", StrVal z(x + y); sink = z.length()); break; }
		case 1: { StrVal x = mkstr(kind_of(op), 60, seed); uint64_t nb = x.numBytes() * 20; COST(4*nb + FLAT, "built-dearly", "repeating a string", StrVal z(x * 20); sink = z.length()); break; }
		case 2: { StringArray a = mkstrs(80, seed); StrVal j(", "); uint64_t nb = 0; for (int i = 0; i < 80; i++) nb += a[i].numBytes() + 2; COST(6*nb + 80*200 + FLAT, "built-dearly", "joining strings", StrVal z(a.join(j)); sink = z.length()); break; }
		case 3: { IntArray a = mkarr(n/4, seed); COST(4ull*(n/4)*8 + FLAT, "built-dearly", "select()", IntArray z(a.select([](const int& e) { return e & 1; })); sink = z.length()); COST(4ull*(n/4)*2 + FLAT, "built-dearly", "map()", IntArray z(a.map(std::function<int(const int&)>([](const int& e) { return e + 1; }))); sink = z.length()); break; }
		default: { IntArray a = mkarr(n/8, seed), b = mkarr(n/8, seed+1); COST(4ull*(n/4)*5 + FLAT, "built-dearly", "joining two arrays", IntArray z(a); z += b; z.insert(3, b.head(n/20)); sink = z.length()); break; }
		}
		break;
	}
	case W_SEARCH:
	{
		StrVal whole = mkstr2(kind_of(op), n/2, seed); int all = whole.numBytes(), l = whole.length(); if (l < 20) break;
		Rng r(op.d * 31 + op.e);
		for (int i = 0; i < 3; i++)
		{
			int w, at, k; { MODEL; w = r.below(13); at = r.below(3); k = r.below(l/2); sim_probe(P_SEARCHED); if (at) sim_probe(P_SEARCHSLICE); }
			const StrVal x(at == 0 ? whole : at == 1 ? whole.substr(1 + k/4, l - l/4 - k/4 - 1) : whole.substr(l/2)); int xl = x.length(); double bytes = all + 2.0 * xl;
			if (w == 11 || w == 12) { StrVal again; { MODEL; } again = StrVal("ab") * (n/8); StrVal pat = StrVal("ab") * (1 + k % 12) + "b"; int al = again.length(), pl = pat.length(); if (w == 11) WORK((double)al * pl / 4 + al, STEP_SEARCH, "searching for a string that is nearly everywhere", sink = again.find(pat)); else WORK((double)al * pl / 4 + al, STEP_SEARCH, "searching backwards for a string that is nearly everywhere", sink = again.rfind(pat)); continue; }
			switch (w)
			{
			case 0: WORK(bytes, STEP_SEARCH, "find() of a character", sink = x.find((UCS4)1)); break;
			case 1: WORK(bytes, STEP_SEARCH, "rfind() of a character", sink = x.rfind((UCS4)1)); break;
			case 2: { StrVal p(x.substr(xl/2, 3)); p += UCS4(1); WORK(bytes, STEP_SEARCH, "find() of a string", sink = x.find(p)); break; }
			case 3: { StrVal p(x.substr(xl/2, 3)); p += UCS4(1); WORK(bytes, STEP_SEARCH, "rfind() of a string", sink = x.rfind(p)); break; }
			case 4: { StrVal p(x.tail(5)); WORK(bytes, STEP_SEARCH, "find() of the end", sink = x.find(p)); break; }
			case 5: { StrVal p(x.head(5)); WORK(bytes, STEP_SEARCH, "rfind() of the start", sink = x.rfind(p)); break; }
			case 6: { StrVal p("\x01\x02"); WORK(bytes, STEP_SEARCH * 3, "findAny()", sink = x.findAny(p)); break; }
			case 7: { StrVal p("\x01\x02"); WORK(bytes, STEP_SEARCH * 3, "rfindAny()", sink = x.rfindAny(p)); break; }
			case 8: case 9: { StrVal p("\xE2\x82\xAC\xC3\xA9"); StrVal t = p * (n/12); const StrVal& u = t; int ul = u.length(); if (w == 8) WORK(ul * 4.0, STEP_SEARCH * 3, "findNot()", sink = u.findNot(p)); else WORK(ul * 4.0, STEP_SEARCH * 3, "rfindNot()", sink = u.rfindNot(p)); break; }
			case 10: { UCS4 c = x[xl-1]; WORK(bytes, STEP_SEARCH, "find() from a position", for (int q = 0; q < 3; q++) sink = x.find(c, xl/2)); break; }
			}
		}
		break;
	}
	case W_COMPARE:
	{
		{ MODEL; sim_probe(P_COMPARED); }
		StrVal a = mkstr2(kind_of(op), n/2, seed), b = mkstr2(kind_of(op), n/2, seed); int l = a.length(); double bytes = 2.0 * a.numBytes();
		if (flag) { a = a.substr(1, l - 2); b = b.substr(1, l - 2); }
		WORK(bytes, STEP_COMPARE, "comparing", sink = (a == b)); WORK(bytes, STEP_COMPARE, "comparing", sink = (a < b)); WORK(bytes, STEP_COMPARE, "comparing", sink = a.compare(b));
		break;
	}
	case W_CONVERT:
	{
		{ MODEL; sim_probe(P_CONVERTED); }
		StrVal a = mkstr2(kind_of(op), n/3, seed); int l = a.length(); if (flag) a = a.substr(1, l - 2); double bytes = a.numBytes();
		switch ((unsigned)op.f % 5)
		{
		case 0: WORK(bytes, STEP_CONVERT, "toLower()", a.toLower()); break;
		case 1: WORK(bytes, STEP_CONVERT, "toUpper()", a.toUpper()); break;
		case 2: WORK(bytes, STEP_CONVERT, "asJSON()", StrVal z(a.asJSON()); sink = z.length()); break;
		case 3: { StrVal y("yy"); WORK(bytes, STEP_CONVERT, "transform()", a.transform([&](const char*& cp, const char* ep) -> StrVal { (void)UTF8Get(cp); return y; })); break; }
		default: WORK(bytes, STEP_CONVERT, "asUTF8() of a substring", StrVal z(a.shorter(1)); sink = *z.asUTF8()); break;
		}
		break;
	}
	case W_PIECES:
	{
		{ MODEL; sim_probe(P_PIECES); }
		int m = 400 + n/8; static const UCS4 chars[] = { 'q', 0xE9, 0x5B57, 0x1F600 }; UCS4 ch = chars[kind_of(op)]; StrVal piece(ch), src = mkstr2(kind_of(op), 900, seed); StrVal s; int sl = src.length() - 4;
		switch ((unsigned)op.f % 9)
		{
		case 0: WORK(m * 3.0, STEP_PIECE, "appending single characters", for (int i = 0; i < m; i++) s += ch); break;
		case 1: WORK(m * 3.0, STEP_PIECE, "appending single-character strings", for (int i = 0; i < m; i++) s.append(piece)); break;
		case 2: { StringArray parts; { for (int i = 0; i < m; i++) parts << src.substr(i % 7, 1); } StrVal j(","); WORK(m * 3.0, STEP_PIECE * 2, "joining strings", StrVal z(parts.join(j)); sink = z.length()); break; }
		case 3: WORK(m * 3.0, STEP_PIECE, "repeating a string", StrVal z(piece * m); sink = z.length()); break;
		case 4: WORK(m * 3.0, STEP_PIECE, "appending single characters and reading the length", for (int i = 0; i < m; i++) { s += ch; sink = s.length() + s.isEmpty(); }); break;
		case 5: WORK(m * 3.0, STEP_PIECE, "appending single characters and looking at the last", for (int i = 0; i < m; i++) { s += ch; sink = s[i]; }); break;
		case 6: { for (int i = 0; i < 40; i++) s += 'a'; WORK(m * 3.0, STEP_PIECE, "appending to a string with a different kind of character", for (int i = 0; i < m; i++) s += i % 3 ? ch : 'b'); break; }
		case 7: { StrVal w = mkstr2(kind_of(op) % 3, 9, seed).head(4); int wb = w.numBytes(); WORK(m * (wb + 3.0), STEP_PIECE, "appending short strings", for (int i = 0; i < m; i++) { s += w; }); break; }
		default: { VariantArray va((const Variant*)0, 0, m); for (int i = 0; i < m; i++) va.push(Variant(i)); Variant v(va); WORK(m * 6.0, STEP_PIECE * 3, "as_json() of an array", StrVal z(v.as_json(op.d % 4 - 2)); sink = z.length()); break; }
		}
		(void)sl; break;
	}
	case W_ARRAYS:
	{
		{ MODEL; sim_probe(P_ARRAYS); }
		IntArray a = mkarr(n/3, seed), b = mkarr(n/3, seed); int l = a.length(); if (flag) { a = a.slice(1, l - 2); b = b.slice(1, l - 2); }
		const IntArray& x = a;
		switch ((unsigned)op.f % 10)
		{
		case 0: WORK(l, STEP_ARRAY, "find() and rfind() in an array", sink = x.find(-1) + x.rfind(-1)); break;
		case 1: WORK(l, STEP_ARRAY, "comparing arrays", sink = (a == b) + a.compare(b)); break;
		case 2: WORK(l, STEP_ARRAY, "select()", IntArray z(x.select([](const int& e) { return e & 1; })); sink = z.length()); break;
		case 3: WORK(l, STEP_ARRAY, "delete_if()", a.delete_if([](const int& e) { return e & 1; })); break;
		case 4: WORK(l, STEP_ARRAY, "removing and inserting in the middle", a.remove(l/3, 5); a.insert(l/3, b.head(7))); break;
		case 5: { int asked = 0; WORK(60, STEP_ARRAY, "bsearch()", sink = x.bsearch([&](const int& e) { asked++; return e - (op.d * 7 + seed); })); int top = 0; while (1 << top <= l) top++; MODEL; if (asked > top) sim_fail("too-much-work", "bsearch() in %d elements asked %d times", l, asked); break; }
		case 6: WORK(l, STEP_ARRAY, "reversing", a.reverse()); break;
		case 7: WORK(l, STEP_ARRAY, "appending single elements", IntArray z; for (int i = 0; i < l; i++) z.push(i)); break;
		case 8: WORK(l, STEP_ARRAY, "taking all elements off the end", while (a.length()) sink = a.pull()); break;
		default: { StringArray t = mkstrs(l/20, seed); StrVal miss("nowhere"); WORK(l/20 * 4.0, STEP_ARRAY * 2, "find() and rfind() of a string in an array", sink = t.find(miss) + t.rfind(miss)); break; }
		}
		break;
	}
	case W_LOOKUP:
	{
		{ MODEL; sim_probe(P_LOOKUP); }
		int m = 100 + n / 20; StrMap q; int depth = 0; while (1 << depth <= m) depth++;
		switch ((unsigned)op.f % 3)
		{
		case 0: { std::string* ks; { MODEL; ks = new std::string; } WORK((double)m * depth, STEP_MAP, "adding entries to a map", for (int i = 0; i < m; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "k%d", i * 37 % 1009); } q.put(StrVal(k), StrVal()); }); { MODEL; delete ks; } break; }
		default: { for (int i = 0; i < m; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "k%d", i); } q.put(StrVal(k), StrVal()); } StrVal k1("k7"), k2("zzz"); StrMap other(q); WORK(24.0 * depth, STEP_MAP/8, "looking up in a map", sink = q.size(); for (int i = 0; i < 8; i++) { char k[12]; { MODEL; snprintf(k, sizeof k, "k%d", m-1-i*m/9); } sink += q[StrVal(k)].length() + q.contains(k2) + q.contains(k1); }); StrMap mine(q); WORK((double)m * depth, STEP_MAP/2, "changing a map others have", mine.put(k1, k1)); WORK(3.0 * depth, STEP_MAP, "changing a map", mine.put(k1, k2); mine.remove(k1); mine.put(k2, k2)); break; }
		}
		break;
	}
	}
}
static void body(void)
{
	int n = sim_cfg->user[0]; SimOp op = mkop(0, 0, sim_cfg->user[2], sim_cfg->user[3], 7, 11, sim_cfg->user[2]);
	for (int k = 0; k < NB; k++) { op.d = k; new (&bS(k)) StrVal(mkstr(sim_cfg->user[2] & 3, 3000, k)); new (&bA(k)) IntArray(mkarr(800, k)); new (&bT(k)) StringArray(mkstrs(150, k)); new (&bM(k)) StrMap(mkmap(30, k)); new (&bV(k)) Variant(mkvar(op)); }
	h_run_actors(n, exec);
	for (int k = 0; k < NB; k++) { bS(k).~StrVal(); bA(k).~IntArray(); bT(k).~StringArray(); bM(k).~StrMap(); bV(k).~Variant(); }
}
static void gen(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops, bool work)
{
	int n = r.pct(work ? 60 : 35) ? 1 : 2 + r.below(3);
	c.user[0] = n; c.user[2] = r.below(1000); c.user[3] = r.below(1000);
	sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_OFF; c.step_budget = work ? 200000 : 60000;
	int len = r.range(2, thorough ? 14 : 8);
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
		{
			static const uint8_t mix[] = { W_STR, W_STR, W_ARR, W_ARR, W_STRS, W_MAP, W_VAR, W_TAKE, W_TAKE, W_TAKE, W_GIVE, W_INPLACE, W_INPLACE, W_ONCE, W_ONCE, W_ONCE, W_GROW, W_STACK, W_RESERVE, W_BUILD, W_BUILD };
			static const uint8_t mixw[] = { W_SEARCH, W_SEARCH, W_SEARCH, W_SEARCH, W_COMPARE, W_CONVERT, W_PIECES, W_PIECES, W_ARRAYS, W_LOOKUP };
			ops.push_back(mkop(A, work ? mixw[r.below(sizeof(mixw))] : n == 1 && r.pct(70) ? mix[r.below(7)] : mix[r.below(sizeof(mix))], r.below(1000), r.below(1000), r.below(1000), r.below(100000), r.below(1000), r.below(1000)));
		}
}
static void gen13(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, false); }
static void gen14(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, true); }
const SimProp sim_props[] = { { "V13", gen13, body, opname, probes }, { "V14", gen14, body, opname, probes }, { 0, 0, 0, 0, 0 } };
