// V01..V08, V10, E01: StrVal, Array, CowMap, Variant and Error handles, shared between simulated threads.
// Every handle has a private reference model (code-point sequences, element lists, maps).
#include "harness.h"
#include <strval.h>
#include <array.h>
#include <cowmap.h>
#include <variant.h>
#include <error.h>
#include <vector>
#include <map>
#include <new>

typedef std::vector<uint32_t> US;
#define MAXA 4
#define NS 7	// strings
#define NI 5	// int arrays
#define NT 4	// string arrays
#define NM 3	// maps
#define NV 5	// variants
#define NE 4	// errors
#define NB 6	// borrowed texts
#define NBOX 2

enum {
	S_NEW, S_CTOR, S_COPY, S_ASSIGN, S_SUBSTR, S_HEAD, S_TAIL, S_SHORTER, S_CAT, S_CATCH, S_CATLIT, S_APPEND, S_APPENDCH, S_INSERT, S_PREPEND, S_SELF,
	S_REPEAT, S_LOWER, S_UPPER, S_ASLOWER, S_ASUPPER, S_JSON, S_ASJSON, S_TRANSFORM, S_CLEAR, S_BORROW,
	S_WALK, S_BYTES, S_CMP, S_FINDCH, S_RFINDCH, S_FINDSTR, S_RFINDSTR, S_FINDANY, S_FINDNOT, S_FINDALL, S_INT, S_JOIN, S_FORMAT, S_MARK,
	S_LAST,
	A_NEW = 60, A_COPY, A_ASSIGN, A_SLICE, A_HEAD, A_TAIL, A_SHORTER, A_DROP, A_CAT, A_CATEL, A_APPEND, A_PUSH, A_INSERT, A_SELF, A_UNSHIFT, A_PULL, A_SHIFT, A_DELAT, A_REMOVE,
	A_SET, A_ELMUT, A_REVERSE, A_DELETEIF, A_SELECT, A_MAP, A_CLEAR, A_BORROW, A_READ, A_FIND, A_RFIND, A_PRED, A_CMP, A_BSEARCH, A_INJECT,
	A_LAST,
	T_NEW = 110, T_COPY, T_SLICE, T_CAT, T_APPEND, T_PUSH, T_INSERT, T_SELF, T_UNSHIFT, T_PULL, T_SHIFT, T_DELAT, T_REMOVE, T_SET, T_REVERSE, T_DELETEIF, T_SELECT, T_CLEAR, T_GET, T_READ, T_JOIN,
	T_LAST,
	M_NEW = 140, M_COPY, M_PUT, M_INSERT, M_REMOVE, M_CLEAR, M_GET, M_CONTAINS, M_ITER, M_KEYS, M_VALUES, M_FUNC, M_SELECT, M_MAP,
	M_LAST,
	V_SETINT = 160, V_SETSTR, V_SETARR, V_SETVARR, V_SETMAP, V_SETTYPE, V_ASSIGN, V_COPY, V_TOINT, V_TOSTR, V_GETSTR, V_GETARR, V_PUSH, V_MAPPUT, V_SHL, V_JSON, V_CLEAR, V_CTORMAP,
	V_LAST,
	E_NEW = 190, E_COPY, E_ASSIGN, E_CLEAR, E_CHECK,
	E_LAST,
	SEND = 200, RECV, PAUSE, NARROW_ARR, NARROW_STR, OP_LAST
};
static const char* opname(int c)
{
	static const char* const S[] = { "str_new", "str_ctor", "str_copy", "str_assign", "str_substr", "str_head", "str_tail", "str_shorter", "str_cat", "str_cat_char", "str_cat_literal", "str_append", "str_append_char", "str_insert", "str_prepend", "str_self_insert",
		"str_repeat", "str_toLower", "str_toUpper", "str_asLower", "str_asUpper", "str_toJSON", "str_asJSON", "str_transform", "str_clear", "str_borrow",
		"str_walk", "str_bytes", "str_compare", "str_find_char", "str_rfind_char", "str_find", "str_rfind", "str_findAny", "str_findNot", "str_find_all", "str_asInt32", "str_join", "str_format", "str_mark" };
	static const char* const A[] = { "arr_new", "arr_copy", "arr_assign", "arr_slice", "arr_head", "arr_tail", "arr_shorter", "arr_drop", "arr_cat", "arr_cat_elem", "arr_append", "arr_push", "arr_insert", "arr_self_insert", "arr_unshift", "arr_pull", "arr_shift", "arr_delete_at", "arr_remove",
		"arr_set", "arr_elem_mut", "arr_reverse", "arr_delete_if", "arr_select", "arr_map", "arr_clear", "arr_borrow", "arr_read", "arr_find", "arr_rfind", "arr_predicates", "arr_compare", "arr_bsearch", "arr_inject" };
	static const char* const T[] = { "sarr_new", "sarr_copy", "sarr_slice", "sarr_cat", "sarr_append", "sarr_push", "sarr_insert", "sarr_self_insert", "sarr_unshift", "sarr_pull", "sarr_shift", "sarr_delete_at", "sarr_remove", "sarr_set", "sarr_reverse", "sarr_delete_if", "sarr_select", "sarr_clear", "sarr_get", "sarr_read", "sarr_join" };
	static const char* const M[] = { "map_new", "map_copy", "map_put", "map_insert", "map_remove", "map_clear", "map_get", "map_contains", "map_iterate", "map_keys", "map_values", "map_functional", "map_select", "map_map" };
	static const char* const V[] = { "var_set_int", "var_set_str", "var_set_strarray", "var_set_vararray", "var_set_map", "var_set_type", "var_assign", "var_copy", "var_to_int", "var_to_str", "var_get_str", "var_get_array", "var_push", "var_map_put", "var_shl", "var_json", "var_clear", "var_ctor_map" };
	static const char* const E[] = { "err_new", "err_copy", "err_assign", "err_clear", "err_check" };
	static const char* const X[] = { "send", "receive", "pause", "array_16bit_index", "string_16bit_index" };
	if (c < 0) return "dropped";
	if (c < S_LAST) return S[c];
	if (c >= A_NEW && c < A_LAST) return A[c-A_NEW];
	if (c >= T_NEW && c < T_LAST) return T[c-T_NEW];
	if (c >= M_NEW && c < M_LAST) return M[c-M_NEW];
	if (c >= V_SETINT && c < V_LAST) return V[c-V_SETINT];
	if (c >= E_NEW && c < E_LAST) return E[c-E_NEW];
	if (c >= SEND && c < OP_LAST) return X[c-SEND];
	return "?";
}
enum { P_SHARED_MUT, P_SLICE_MUT, P_BACKWARD, P_SELF, P_FOUND, P_NOTFOUND, P_OOM, P_OOM_OLD, P_OOM_NEW, P_HANDOVER, P_BORROW_MUT, P_EMPTY_MUT, P_CONTIG, P_COERCE, P_NESTED, P_WIDE, P_NUL, P_PUT_EXISTING, P_CASE_LEN, P_BIGSTR, P_BIGARR, P_BIGMAP, P_REFUSED, P_JSONREAD, P_NARROW };
static const char* const probes[] = { "V01,V02,V03,V04,V05,V08:changed_while_shared", "V01,V02,V06,V07,V10:changed_a_slice", "V06:access_near_the_end", "V01,V06,V02,V07,V04:inserted_into_itself", "V06,V07:search_found", "V06,V07:search_not_found",
	"V08:operation_met_allocation_failure", "V08:failed_operation_kept_old_value", "V08:failed_operation_had_new_value", "V01,V02,V03,V04,V05,V10,E01:handed_to_another_thread", "V10:changed_a_string_over_borrowed_text", "V10:changed_the_empty_string", "V06,V07:contiguous_slices_joined", "V03:coerced", "V03:nested_containers", "V06:non_ascii_text", "V06:text_with_NUL", "V03:put_replaced_an_entry", "V06:case_change_changed_byte_length", "V01,V04,V06,V08,V10:text_over_500_characters", "V02,V04,V07:array_over_500_elements", "V03:map_over_30_entries", "V03:impossible_conversion_asked_for", "V12:JSON_read_back", "V04,V06,V07:index_of_16_bits", 0 };

// ------------------------------------------------------------ reports
enum { C_STR = 1, C_ARR = 2, C_MAPVAR = 4, C_RSTR = 8, C_RARR = 16, C_OOM = 32, C_LEAK = 64, C_BORROW = 128, C_ERR = 256, C_JSON = 512 };
static int which_mask()
{
	switch (sim_cfg->user[7])
	{
	case 1: return C_STR;
	case 2: return C_ARR;
	case 3: return C_MAPVAR;
	case 4: return C_LEAK;
	case 5: return 0;
	case 6: return C_STR|C_RSTR;
	case 7: return C_ARR|C_RARR;
	case 8: return C_STR|C_ARR|C_MAPVAR|C_OOM|C_LEAK;
	case 10: return C_STR|C_ARR|C_RSTR|C_RARR|C_BORROW;
	case 11: return C_ERR;
	case 12: return C_JSON;
	}
	return 0;
}
#define FAIL(cls, ...) do { if (which_mask() & (cls)) sim_fail(__VA_ARGS__); sim_abandon(); } while (0)

// ------------------------------------------------------------ handles and models
template<class T, int N> struct Pool { char raw[MAXA][N][sizeof(T)] __attribute__((aligned(16))); T& operator()(int a, int i) { return *(T*)raw[a][i]; } };
typedef Array<int> IntArray;
typedef CowMap<StrVal> StrMap;
static Pool<StrVal,NS> S; static Pool<IntArray,NI> I; static Pool<StringArray,NT> T; static Pool<StrMap,NM> M; static Pool<Variant,NV> V; static Pool<Error,NE> Er;
struct MV { int t; long long i; US s; std::vector<US> sa; std::vector<MV> va; std::map<std::string, MV> m; MV() : t(0), i(0) {} };
struct ME { bool set; int num; const char* text; const void* parm; };
typedef std::map<std::string, US> MM;
static US ms[MAXA][NS]; static std::vector<int> mi[MAXA][NI]; static std::vector<US> mt[MAXA][NT]; static MM mm[MAXA][NM]; static MV mv[MAXA][NV]; static ME me[MAXA][NE];
// boxes through which threads hand values to each other
static Pool<StrVal,1> bS; static Pool<IntArray,1> bI; static Pool<StringArray,1> bT; static Pool<StrMap,1> bM; static Pool<Variant,1> bV; static Pool<Error,1> bE;
static US xs[NBOX]; static std::vector<int> xi[NBOX]; static std::vector<US> xt[NBOX]; static MM xm[NBOX]; static MV xv[NBOX]; static ME xe[NBOX];
// borrowed storage
static char bor_text[NB][64]; static int bor_len[NB]; static US bor_model[NB]; static char bor_copy[NB][64];
static char bor_raw[NB][sizeof(StrBody)] __attribute__((aligned(16)));
typedef ArrayBody<int> IntBody;
static int bor_int[8], bor_int_copy[8]; static char bor_iraw[sizeof(IntBody)] __attribute__((aligned(16)));
static StrBody& bor(int k) { return *(StrBody*)bor_raw[k]; }
static int nactors; static uint64_t base_live;

static const uint32_t ALPHA[] = { 'a','b','c','A','B','Z','z','0','1','7','9','-',' ','/','"','\\','\n','x','F','f','\b','\f','\r','\t',0x1F,0x7F,
	0,0x23A,0x250,0x2C65,0x1C5,0xD800,0xDFFF,0xFFFE,0x110000,0x1FFFFF,0x200000,0x4000000,0xC0000001,
	0xE9,0xC9,0x3A9,0x3C9,0x17F,0xFF,0x131,0x661,0x20AC,0x5B57,0x212A,0x1E9E,0x2126,0x3000,0xFFFD,0x80,0x7FF,0x800,0xFFFF,0x10000,0x1F600,0x10400,0x10428,0x10FFFD,0x100000 };
#define NALPHA ((int)(sizeof(ALPHA)/sizeof(ALPHA[0])))
#define NASC 26		// the first ones are ASCII
static std::map<uint32_t,uint32_t> lowerOf, upperOf;

static void put8(std::string& o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0|c>>6); o += (char)(0x80|(c&63)); }
	else if (c < 0x10000) { o += (char)(0xE0|c>>12); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63)); }
	else if (c >= 0x200000) { bool six = c >= 0x4000000; o += (char)(six ? 0xFC|c>>30 : 0xF8|c>>24); for (int k = six ? 24 : 18; k >= 0; k -= 6) o += (char)(0x80|((c>>k)&63)); }
	else { o += (char)(0xF0|c>>18); o += (char)(0x80|((c>>12)&63)); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63)); }
}
static std::string enc(const US& u) { std::string o; for (size_t i = 0; i < u.size(); i++) put8(o, u[i]); return o; }
static std::string show(const std::string& b) { std::string o = "\""; for (size_t i = 0; i < b.size() && o.size() < 120; i++) { char t[8]; unsigned char c = b[i]; if (c >= 32 && c < 127 && c != '"') o += (char)c; else { snprintf(t, 8, "\\x%02X", c); o += t; } } return o + "\""; }
static US mktext(int kind, int len, int seed)
{
	US u; Rng r((uint64_t)seed * 7919 + len * 31 + kind);
	for (int i = 0; i < len; i++)
	{
		uint32_t c;
		switch (kind & 3)
		{
		case 0: c = ALPHA[r.below(NASC)]; break;
		case 1: c = ALPHA[r.below(NALPHA)]; break;
		case 2: c = r.pct(85) ? ALPHA[r.below(NASC)] : ALPHA[NASC+r.below(NALPHA-NASC)]; break;
		default: c = ALPHA[NASC+r.below(NALPHA-NASC)]; break;
		}
		if ((kind & 4) && r.pct(8)) c = 0;
		u.push_back(c);
	}
	return u;
}
static US mapcase(const US& u, std::map<uint32_t,uint32_t>& m) { US o; for (size_t i = 0; i < u.size(); i++) { o.push_back(m.count(u[i]) ? m[u[i]] : u[i]); } return o; }
static US mjson(const US& u)
{
	US o; char b[16];
	for (size_t i = 0; i < u.size(); i++)
	{
		uint32_t c = u[i]; int e = 0;
		switch (c) { case '"': e = '"'; break; case '\\': e = '\\'; break; case '/': e = '/'; break; case 8: e = 'b'; break; case 12: e = 'f'; break; case 10: e = 'n'; break; case 13: e = 'r'; break; case 9: e = 't'; break; }
		if (e) { o.push_back('\\'); o.push_back(e); continue; }
		if (c >= 32 && c <= 0xFFFF && !(c >= 0xD800 && c < 0xE000)) { o.push_back(c); continue; }
		if (c <= 0xFFFF) snprintf(b, 16, "\\u%04X", c);
		else if (c > 0x10FFFF) snprintf(b, 16, "\\uFFFD");
		else snprintf(b, 16, "\\u%04X\\u%04X", 0xD800 + ((c-0x10000) >> 10), 0xDC00 + (c & 0x3FF));
		for (char* p = b; *p; p++) o.push_back((unsigned char)*p);
	}
	return o;
}
static US ascii(const char* s) { US u; while (*s) u.push_back((unsigned char)*s++); return u; }
static US sub(const US& u, int at, int n) { return US(u.begin()+at, u.begin()+at+n); }
static US cat(const US& a, const US& b) { US o(a); o.insert(o.end(), b.begin(), b.end()); return o; }
static US ins(const US& a, int pos, const US& b) { US o(a); o.insert(o.begin()+pos, b.begin(), b.end()); return o; }

// ------------------------------------------------------------ allocation failure
static bool lib_oom[MAXA];
#define OOM (lib_oom[A])
static void lib_begin() { MODEL; sim_alloc_failed(); if (sim_cfg->alloc_mode) sim_alloc_faults(1); }
static void lib_end(int A, bool o)
{
	MODEL;
	sim_alloc_faults(0);
	int n = sim_alloc_failed();
	lib_oom[A] = o;
	if (o && !n) FAIL(C_OOM, "bad-alloc", "bad_alloc was thrown although no allocation failed");
	if (!o && n) FAIL(C_OOM, "swallowed", "an allocation failed but the operation returned normally");
	if (o) sim_probe(P_OOM);
}
#define LIB(...) do { bool o_ = false; lib_begin(); try { __VA_ARGS__; } catch (const std::bad_alloc&) { o_ = true; } lib_end(A, o_); } while (0)

// ------------------------------------------------------------ reading values back
// fast: inside the model (no preemption or race checks); otherwise as any user of the library
static bool g_fast[MAXA];
static void check_range(const void* p, size_t n, int cls, const char* what) { if (n && !sim_check_range(p, n)) FAIL(cls|C_LEAK, "dangling", "%s: its storage has been freed or is too small", what); }
static std::string read_str(int A, const StrVal& s, StrValIndex& len)
{
	const char* p; StrValIndex n;
	if (g_fast[A])
	{
		MODEL;
		len = s.length();
		p = s.asUTF8(n);
		check_range(p, n, C_STR, "string");
		return std::string(p, n);
	}
	len = s.length();
	p = s.asUTF8(n);
	unsigned sum = 0;
	for (StrValIndex i = 0; i < n; i++) sum += (unsigned char)p[i];	// read as the program would
	MODEL;
	sim_hash(sum);
	check_range(p, n, C_STR, "string");
	return std::string(p, n);
}
static bool same_str(int A, const StrVal& s, const US& m, std::string* got = 0, StrValIndex* glen = 0)
{
	StrValIndex len; std::string g = read_str(A, s, len);
	MODEL;
	bool ok = len == m.size() && g == enc(m);
	if (got) *got = g; if (glen) *glen = len;
	return ok;
}
// a handle must hold what its model says. After an allocation failure it may hold the old value instead
static void settle_str(int A, int i, const US& want, const char* what)
{
	std::string got; StrValIndex len = 0;
	bool ok = same_str(A, S(A,i), want, &got, &len);
	MODEL;
	if (want.size() > 500) sim_probe(P_BIGSTR);
	if (ok) { if (OOM) sim_probe(P_OOM_NEW); ms[A][i] = want; return; }
	if (OOM)
	{
		if (len == ms[A][i].size() && got == enc(ms[A][i])) { sim_probe(P_OOM_OLD); return; }
		FAIL(C_OOM, "half-done", "after %s failed for lack of memory the string is %s (%u characters): neither the old %s nor the new %s", what, show(got).c_str(), len, show(enc(ms[A][i])).c_str(), show(enc(want)).c_str());
	}
	FAIL(C_STR, "str-value", "after %s the string is %s (%u characters) but should be %s (%zu)", what, show(got).c_str(), len, show(enc(want)).c_str(), want.size());
}
static bool read_ia(int A, const IntArray& a, std::vector<int>& out)
{
	if (g_fast[A])
	{
		MODEL;
		unsigned n = a.length(); const int* p = a.asElements();
		if (n > 100000) return false;
		check_range(p, n*sizeof(int), C_ARR, "array");
		out.assign(p, p+n);
		return true;
	}
	unsigned n = a.length(); const int* p = a.asElements();
	if (n > 100000) return false;
	{ MODEL; check_range(p, n*sizeof(int), C_ARR, "array"); out.resize(n); }
	for (unsigned i = 0; i < n; i++) { int x = p[i]; MODEL; out[i] = x; }
	return true;
}
static std::string showi(const std::vector<int>& v) { std::string o = "["; for (size_t i = 0; i < v.size() && i < 24; i++) { if (i) o += ","; o += std::to_string(v[i]); } return o + (v.size() > 24 ? ",...]" : "]"); }
static void settle_ia(int A, int i, const std::vector<int>& want, const char* what)
{
	std::vector<int> got; read_ia(A, I(A,i), got);
	MODEL;
	if (want.size() > 500) sim_probe(P_BIGARR);
	if (got == want) { if (OOM) sim_probe(P_OOM_NEW); mi[A][i] = want; return; }
	if (OOM)
	{
		if (got == mi[A][i]) { sim_probe(P_OOM_OLD); return; }
		FAIL(C_OOM, "half-done", "after %s failed for lack of memory the array is %s: neither the old %s nor the new %s", what, showi(got).c_str(), showi(mi[A][i]).c_str(), showi(want).c_str());
	}
	FAIL(C_ARR, "arr-value", "after %s the array is %s (length %zu) but should be %s (%zu)", what, showi(got).c_str(), got.size(), showi(want).c_str(), want.size());
}
static bool same_ta(int A, const StringArray& a, const std::vector<US>& m)
{
	unsigned n = a.length();
	{ MODEL; if (n != m.size()) return false; check_range(a.asElements(), n*sizeof(StrRef), C_ARR, "array"); }
	for (unsigned i = 0; i < n; i++) { StrVal e(a.asElements()[i]); if (!same_str(A, e, m[i])) return false; }
	return true;
}
static std::string showt(const std::vector<US>& v) { std::string o = "["; for (size_t i = 0; i < v.size() && i < 12; i++) { if (i) o += ","; o += show(enc(v[i])); } return o + "]"; }
static std::string showt(int A, const StringArray& a) { std::string o = "["; for (unsigned i = 0; i < a.length() && i < 12; i++) { StrVal e(a.asElements()[i]); StrValIndex n; const char* p = e.asUTF8(n); if (i) o += ","; o += show(std::string(p, n)); } return o + "]"; }
static void settle_ta(int A, int i, const std::vector<US>& want, const char* what)
{
	bool ok = same_ta(A, T(A,i), want);
	if (ok) { MODEL; if (OOM) sim_probe(P_OOM_NEW); mt[A][i] = want; return; }
	if (OOM)
	{
		if (same_ta(A, T(A,i), mt[A][i])) { sim_probe(P_OOM_OLD); return; }
		MODEL;
		FAIL(C_OOM, "half-done", "after %s failed for lack of memory the array of strings is %s: neither the old %s nor the new %s", what, showt(A, T(A,i)).c_str(), showt(mt[A][i]).c_str(), showt(want).c_str());
	}
	MODEL;
	FAIL(C_ARR, "arr-value", "after %s the array of strings is %s but should be %s", what, showt(A, T(A,i)).c_str(), showt(want).c_str());
}
static bool same_map(int A, const StrMap& m, const MM& x)
{
	if (m.size() != x.size()) return false;
	MM::const_iterator k = x.begin();
	for (StrMap::Iter it = m.begin(); it != m.end(); ++it)
	{
		{ MODEL; if (k == x.end()) return false; }
		StrValIndex len; std::string key = read_str(A, it->first, len);
		{ MODEL; if (key != k->first) return false; }
		if (!same_str(A, it->second, k->second)) return false;
		{ MODEL; ++k; }
	}
	MODEL; return k == x.end();
}
static std::string showm(const MM& x) { std::string o = "{"; for (MM::const_iterator k = x.begin(); k != x.end(); ++k) o += show(k->first) + ":" + show(enc(k->second)) + " "; return o + "}"; }
static std::string showm(const StrMap& m) { std::string o = "{"; for (StrMap::Iter it = m.begin(); it != m.end(); ++it) { StrValIndex n; const char* p = it->first.asUTF8(n); o += show(std::string(p, n)) + ":"; p = it->second.asUTF8(n); o += show(std::string(p, n)) + " "; } return o + "}"; }
static void settle_map(int A, int i, const MM& want, const char* what)
{
	if (same_map(A, M(A,i), want)) { MODEL; if (want.size() > 30) sim_probe(P_BIGMAP); if (OOM) sim_probe(P_OOM_NEW); mm[A][i] = want; return; }
	if (OOM)
	{
		if (same_map(A, M(A,i), mm[A][i])) { sim_probe(P_OOM_OLD); return; }
		MODEL;
		FAIL(C_OOM, "half-done", "after %s failed for lack of memory the map is %s: neither the old %s nor the new %s", what, showm(M(A,i)).c_str(), showm(mm[A][i]).c_str(), showm(want).c_str());
	}
	MODEL;
	FAIL(C_MAPVAR, "map-value", "after %s the map is %s but should be %s", what, showm(M(A,i)).c_str(), showm(want).c_str());
}
static bool same_var(int A, const Variant& v, const MV& m)
{
	if ((int)v.type() != m.t) return false;
	{ static const char* const names[] = { "None", "Integer", "Long", "LongLong", "String", "StrArray", "VarArray", "StrVarMap" }; const char* n = v.type_name(); MODEL; if (strcmp(n, names[m.t])) return false; }
	switch (m.t)
	{
	case Variant::None: return v.is_null();
	case Variant::Integer: return v.as_int() == m.i;
	case Variant::Long: return v.as_long() == m.i;
	case Variant::LongLong: return v.as_longlong() == m.i;
	case Variant::String: { const StrVal s(v.as_strval()); return same_str(A, s, m.s); }
	case Variant::StrArray: { const StringArray a(v.as_string_array()); return same_ta(A, a, m.sa); }
	case Variant::VarArray:
	{
		const VariantArray a(v.as_variant_array());
		{ MODEL; if (a.length() != m.va.size()) return false; check_range(a.asElements(), a.length()*sizeof(Variant), C_MAPVAR, "variant array"); }
		for (unsigned i = 0; i < a.length(); i++) if (!same_var(A, a.asElements()[i], m.va[i])) return false;
		return true;
	}
	case Variant::StrVarMap:
	{
		const StrVariantMap x(v.as_variant_map());
		if (x.size() != m.m.size()) return false;
		std::map<std::string,MV>::const_iterator k = m.m.begin();
		for (StrVariantMap::Iter it = x.begin(); it != x.end(); ++it)
		{
			{ MODEL; if (k == m.m.end()) return false; }
			StrValIndex len; std::string key = read_str(A, it->first, len);
			{ MODEL; if (key != k->first) return false; }
			if (!same_var(A, it->second, k->second)) return false;
			{ MODEL; ++k; }
		}
		return true;
	}
	}
	return false;
}
static std::string showv(const MV& m)
{
	switch (m.t)
	{
	case Variant::None: return "None"; case Variant::Integer: return "Integer " + std::to_string(m.i); case Variant::Long: return "Long " + std::to_string(m.i); case Variant::LongLong: return "LongLong " + std::to_string(m.i);
	case Variant::String: return "String " + show(enc(m.s)); case Variant::StrArray: return "StrArray " + showt(m.sa);
	case Variant::VarArray: { std::string o = "VarArray ["; for (size_t i = 0; i < m.va.size() && o.size() < 200; i++) o += showv(m.va[i]) + "; "; return o + "]"; }
	default: { std::string o = "Map {"; for (std::map<std::string,MV>::const_iterator k = m.m.begin(); k != m.m.end() && o.size() < 200; ++k) o += show(k->first) + ":" + showv(k->second) + " "; return o + "}"; }
	}
}
static void settle_var(int A, int i, const MV& want, const char* what)
{
	if (same_var(A, V(A,i), want)) { MODEL; if (OOM) sim_probe(P_OOM_NEW); mv[A][i] = want; return; }
	if (OOM)
	{
		if (same_var(A, V(A,i), mv[A][i])) { sim_probe(P_OOM_OLD); return; }
		MODEL;
		FAIL(C_OOM, "half-done", "after %s failed for lack of memory the Variant (type %s) has neither the old value %s nor the new %s", what, V(A,i).type_name(), showv(mv[A][i]).c_str(), showv(want).c_str());
	}
	MODEL;
	FAIL(C_MAPVAR, "var-value", "after %s the Variant (type %s) should be %s but is not", what, V(A,i).type_name(), showv(want).c_str());
}
static void check_err(int A, int i, const char* what)
{
	const Error& e = Er(A,i); const ME& m = me[A][i];
	ErrNum n = e; int32_t n2 = e; const char* t = e.default_text(); const void* p = e.parameters();
	MODEL;
	if ((int)(int32_t)n != m.num || n2 != m.num || t != m.text || p != m.parm) FAIL(C_ERR, "err-value", "%s: the Error reads as number %x text %s, but should be %x %s", what, n2, t ? t : "null", m.num, m.text ? m.text : "null");
}
static void check_all(int A, const char* what)
{
	bool o = OOM; OOM = false;
	for (int i = 0; i < NS; i++) settle_str(A, i, ms[A][i], what);
	for (int i = 0; i < NI; i++) settle_ia(A, i, mi[A][i], what);
	for (int i = 0; i < NT; i++) settle_ta(A, i, mt[A][i], what);
	for (int i = 0; i < NM; i++) settle_map(A, i, mm[A][i], what);
	for (int i = 0; i < NV; i++) settle_var(A, i, mv[A][i], what);
	for (int i = 0; i < NE; i++) check_err(A, i, what);
	OOM = o;
}
static void check_borrowed()
{
	MODEL;
	for (int k = 0; k < NB; k++) if (memcmp(bor_text[k], bor_copy[k], sizeof(bor_text[k]))) FAIL(C_BORROW, "borrowed-changed", "borrowed text %d was modified: %s", k, show(std::string(bor_text[k], 40)).c_str());
	if (memcmp(bor_int, bor_int_copy, sizeof(bor_int))) FAIL(C_BORROW, "borrowed-changed", "the borrowed array was modified");
}
static void check_null()
{
	StrVal e; StrValIndex n = 9; const char* p = e.asUTF8(n); StrValIndex l = e.length(), l2 = StrVal::null.length(), l3 = StrBody::nullBody.numChars();
	char c = *p;
	MODEL;
	if (l || n || l2 || l3 || c) FAIL(C_BORROW|C_STR, "empty-not-empty", "the empty string has length %u, %u bytes, first byte %d", l, n, c);
}

// ------------------------------------------------------------ helpers for operations
// A few runs work on much larger values: user[5] is then the bound on the size of one
#define BIG (sim_cfg->user[5])
#define CAP (BIG ? BIG : 90)
#define TCAP (BIG ? BIG/8 : 16)		// strings in an array
#define MCAP (BIG ? BIG/10 : 10)	// entries in a map
#define NKEYS (BIG ? BIG/6 : 9)
#define DEEP(w) (mdepth(w) > (BIG ? 7 : 3) || msize(w) > (BIG ? BIG/8 : 14))
static uint32_t alpha(int n) { return ALPHA[(unsigned)n % NALPHA]; }
static US text_of(int e)
{
	int kind = e & 7, len = (e >> 4) & 127, seed = (unsigned)e >> 11; if (BIG && (seed & 1)) len = len * (BIG/128) + seed % 7;
	if (!(e & 8)) return mktext(kind, len, seed);
	// something like a number
	US u; Rng r((uint64_t)seed * 977 + len);
	while (r.pct(25)) u.push_back(r.pct(80) ? ' ' : 0x3000);
	if (r.pct(40)) { u.push_back(r.pct(70) ? '-' : '+'); while (r.pct(15)) u.push_back(' '); }
	int pre = r.below(8);
	if (pre == 0) u = cat(u, ascii("0x")); else if (pre == 1) u = cat(u, ascii("0b")); else if (pre == 2) u = cat(u, ascii("0"));  else if (pre == 3) u = cat(u, ascii(r.pct(50) ? "0X" : "0B"));
	if (r.pct(25))	// at the ends of what a machine word holds
	{
		static const int RXS[] = { 10, 10, 10, 16, 8, 2, 36, 3 };
		int radix = pre == 0 ? 16 : pre == 1 ? 2 : pre == 2 ? 8 : RXS[r.below(8)];
		unsigned __int128 v = (unsigned __int128)1 << (r.pct(60) ? 64 : r.pct(60) ? 31 : r.pct(50) ? 32 : 60 + r.below(8)); v += r.below(2*radix + 4) - (r.pct(50) ? radix + 2 : 0);
		if (r.pct(15)) v *= 1 + r.below(40);
		US d; for (; v; v /= radix) d.insert(d.begin(), (uint32_t)"0123456789abcdefghijklmnopqrstuvwxyz"[(int)(v % radix)]);
		u = cat(u, d); if (r.pct(15)) u.push_back('0' + r.below(10));
		return u;
	}
	int n = r.pct(15) ? r.below(14) : r.below(7);
	for (int i = 0; i < n; i++) u.push_back(r.pct(4) ? 0x661 : r.pct(10) ? ascii("afzAFx.")[r.below(7)] : (uint32_t)('0' + (pre == 1 ? r.below(2) : r.below(10))));
	while (r.pct(20)) u.push_back(' ');
	if (r.pct(8)) u.push_back('q');
	return u;
}
static bool no_nul(const US& u) { for (size_t i = 0; i < u.size(); i++) if (!u[i]) return false; return true; }
struct HBuf	// text in heap storage of exactly its own size
{
	char* p; int n;
	HBuf(const std::string& s, bool nul) { n = (int)s.size(); p = new char[n + (nul ? 1 : 0) + (n || nul ? 0 : 1)]; MODEL; memcpy(p, s.data(), n + (nul ? 1 : 0)); }
	~HBuf() { delete[] p; }
};
static int mfind(const US& h, const US& n, int after) { for (int i = after+1; i + (int)n.size() <= (int)h.size(); i++) if (std::equal(n.begin(), n.end(), h.begin()+i)) return i; return -1; }
static int mrfind(const US& h, const US& n, int before)
{
	if (before == 0 || n.size() > h.size()) return -1;
	int i = (int)(h.size() - n.size()); if (before > 0 && before-1 < i) i = before-1;
	for (; i >= 0; i--) if (std::equal(n.begin(), n.end(), h.begin()+i)) return i;
	return -1;
}
static bool has(const US& u, uint32_t c) { for (size_t i = 0; i < u.size(); i++) if (u[i] == c) return true; return false; }
static bool mwhite(uint32_t c) { return c == 9 || c == 10 || c == 13 || c == ' ' || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000; }
static int mdigit(uint32_t c, int radix)
{
	int d = c >= '0' && c <= '9' ? (int)c-'0' : c >= 0x660 && c <= 0x669 ? (int)c-0x660 : -1;
	if (d < 0 && radix > 10) d = c >= 'a' && c <= 'z' ? (int)c-'a'+10 : c >= 'A' && c <= 'Z' ? (int)c-'A'+10 : -1;
	return d >= 0 && (d < radix || (d == 1 && radix == 1)) ? d : -1;
}
// number conversion as strval.h describes it. err: 0 or the message number; value valid if !err or TRAIL_TEXT
static void mint32(const US& u, int radix, int& err, long long& val, int& scanned)
{
	int n = (int)u.size(), i = 0; bool neg = false; val = 0;
	while (i < n && mwhite(u[i])) i++;
	if (i == n) { err = 2; scanned = i; return; }
	if (u[i] == '+' || u[i] == '-') { neg = u[i] == '-'; i++; while (i < n && mwhite(u[i])) i++; if (i == n) { err = 2; scanned = i; return; } }
	if (radix == 0 || radix == 2 || radix == 16)
	{
		if (mdigit(u[i], 10) == 0 && i+1 < n)
		{
			uint32_t x = u[i+1];
			if ((x == 'b' || x == 'B') && (radix == 0 || radix == 2)) { radix = 2; i += 2; if (i == n) { err = 2; scanned = i; return; } }
			else if ((x == 'x' || x == 'X') && (radix == 0 || radix == 16)) { radix = 16; i += 2; if (i == n) { err = 2; scanned = i; return; } }
			else if (!radix && x != 'b' && x != 'B' && x != 'x' && x != 'X') radix = 8;
		}
		else if (!radix) radix = 10;
	}
	if (mdigit(u[i], radix) < 0) { err = 4; scanned = i; return; }
	long long v = 0; bool over = false;
	for (; i < n && mdigit(u[i], radix) >= 0; i++) { v = v*radix + mdigit(u[i], radix); if (v > 0x7FFFFFFFLL + neg) { over = true; v = 0x80000001LL; } }
	int j = i; while (j < n && mwhite(u[j])) j++;
	scanned = j; val = neg ? -v : v; err = over ? 3 : j != n ? 1 : 0;
}
static US join_ascii(const US& a, const char* s) { return cat(a, ascii(s)); }
static US mvjson(const MV& m, int indent)
{
	int ni = indent >= 0 ? indent+1 : indent; US sep;
	if (indent == -2) sep = ascii(","); else if (indent == -1) sep = ascii(", ");
	else { sep = ascii(",\n"); for (int i = 0; i < 2*ni; i++) sep.push_back(' '); }
	US pre(sep.begin()+1, sep.end()), suf = pre.size() >= 2 ? US(pre.begin(), pre.end()-2) : pre;
	US q = ascii("\"");
	switch (m.t)
	{
	case Variant::None: return ascii("null");
	case Variant::Integer: case Variant::Long: case Variant::LongLong: return ascii(std::to_string(m.i).c_str());
	case Variant::String: return cat(cat(q, mjson(m.s)), q);
	case Variant::StrArray: { US o = cat(ascii("["), pre); for (size_t i = 0; i < m.sa.size(); i++) { if (i) o = cat(o, sep); o = cat(cat(cat(o, q), mjson(m.sa[i])), q); } return join_ascii(cat(o, suf), "]"); }
	case Variant::VarArray: { US o = cat(ascii("["), pre); for (size_t i = 0; i < m.va.size(); i++) { if (i) o = cat(o, sep); o = cat(o, mvjson(m.va[i], ni)); } return join_ascii(cat(o, suf), "]"); }
	default:
	{
		US o = cat(ascii("{"), pre); bool first = true;
		for (std::map<std::string,MV>::const_iterator k = m.m.begin(); k != m.m.end(); ++k)
		{
			if (!first) o = cat(o, sep); first = false;
			// the key's code points
			US ku; const std::string& b = k->first;
			for (size_t i = 0; i < b.size(); ) { unsigned char c = b[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t v = n == 1 ? c : c & (0x7F >> n); for (int j = 1; j < n; j++) v = v << 6 | (b[i+j] & 63); ku.push_back(v); i += n; }
			o = join_ascii(cat(cat(cat(o, q), mjson(ku)), q), indent == -2 ? ":" : ": ");
			o = cat(o, mvjson(k->second, ni));
		}
		return join_ascii(cat(o, suf), "}");
	}
	}
}
// Reads JSON back, independently of how it was written: null, integers, strings, arrays, objects
struct Json
{
	const std::string& t; size_t p; bool bad; std::string why;
	Json(const std::string& _t) : t(_t), p(0), bad(false) {}
	MV fail(const char* w) { if (!bad) { char b[80]; snprintf(b, 80, "%s at %zu", w, p); why = b; } bad = true; return MV(); }
	void white() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
	bool is(char c) { if (p < t.size() && t[p] == c) { p++; return true; } return false; }
	int hex4() { int v = 0; if (p + 4 > t.size()) { fail("short \\u"); return 0; } for (int i = 0; i < 4; i++) { int c = t[p++]; if (!isxdigit((unsigned char)c)) { fail("bad \\u"); return 0; } v = v*16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
	US string()
	{
		US u; if (!is('"')) { fail("no string"); return u; }
		while (!bad && p < t.size() && t[p] != '"')
		{
			unsigned char c = t[p++];
			if (c < 32) { p--; fail("control character"); break; }
			if (c == '\\')
			{
				static const char from[] = "\"\\/bfnrt"; static const char to[] = "\"\\/\b\f\n\r\t";
				char e = p < t.size() ? t[p++] : 0; const char* f = e ? strchr(from, e) : 0;
				if (f) { u.push_back((unsigned char)to[f-from]); continue; }
				if (e != 'u') { p--; fail("unknown escape"); break; }
				uint32_t v = hex4();
				if (v >= 0xD800 && v < 0xDC00 && p + 1 < t.size() && t[p] == '\\' && t[p+1] == 'u') { size_t q = p; p += 2; uint32_t lo = hex4(); if (lo >= 0xDC00 && lo < 0xE000) v = 0x10000 + ((v - 0xD800) << 10 | (lo - 0xDC00)); else p = q; }
				u.push_back(v); continue;
			}
			int n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0; if (!n || p + n - 1 > t.size()) { fail("not UTF-8"); break; }
			uint32_t v = n == 1 ? c : c & (0x7F >> n); for (int i = 1; i < n; i++) v = v << 6 | (t[p++] & 63);
			if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) { fail("not a character"); break; }
			u.push_back(v);
		}
		if (!bad && !is('"')) fail("string not ended");
		return u;
	}
	MV value(int depth = 0)
	{
		MV m; white(); if (depth > 20) return fail("too deep");
		if (t.compare(p, 4, "null") == 0) { p += 4; return m; }
		if (p < t.size() && t[p] == '"') { m.t = Variant::String; m.s = string(); return m; }
		if (is('[')) { m.t = Variant::VarArray; white(); if (is(']')) return m; do { m.va.push_back(value(depth+1)); if (bad) return m; white(); } while (is(',')); if (!is(']')) fail("no ]"); return m; }
		if (is('{'))
		{
			m.t = Variant::StrVarMap; white(); if (is('}')) return m;
			do { white(); US k = string(); white(); if (!is(':')) fail("no :"); if (bad) return m; std::string kb; for (size_t i = 0; i < k.size(); i++) put8(kb, k[i]); if (m.m.count(kb)) fail("key twice"); m.m[kb] = value(depth+1); if (bad) return m; white(); } while (is(','));
			if (!is('}')) fail("no }"); return m;
		}
		bool neg = is('-'); if (p >= t.size() || t[p] < '0' || t[p] > '9') return fail("no value");
		unsigned long long v = 0; if (t[p] == '0' && p+1 < t.size() && isdigit((unsigned char)t[p+1])) return fail("leading zero"); while (p < t.size() && t[p] >= '0' && t[p] <= '9') v = v*10 + (t[p++] - '0');
		m.t = Variant::Integer; m.i = neg ? -(long long)v : (long long)v; return m;
	}
	MV all() { MV m = value(); white(); if (!bad && p != t.size()) fail("more follows"); return m; }
};
static bool plainly(const US& u) { for (size_t i = 0; i < u.size(); i++) if (u[i] > 0x10FFFF || (u[i] >= 0xD800 && u[i] < 0xE000)) return false; return true; }	// JSON can say it
static bool sayable(const MV& m)
{
	if (!plainly(m.s)) return false;
	for (size_t i = 0; i < m.sa.size(); i++) if (!plainly(m.sa[i])) return false;
	for (size_t i = 0; i < m.va.size(); i++) if (!sayable(m.va[i])) return false;
	for (std::map<std::string,MV>::const_iterator k = m.m.begin(); k != m.m.end(); ++k) { for (size_t i = 0; i < k->first.size(); i++) if ((unsigned char)k->first[i] >= 0xED) return false; if (!sayable(k->second)) return false; }
	return true;
}
static bool sameval(const MV& a, const MV& j)	// j was read from JSON
{
	if (a.t == Variant::None) return j.t == Variant::None;
	if (a.t < Variant::String) return j.t == Variant::Integer && a.i == j.i;
	if (a.t == Variant::String) return j.t == Variant::String && a.s == j.s;
	if (a.t == Variant::StrArray) { if (j.t != Variant::VarArray || a.sa.size() != j.va.size()) return false; for (size_t i = 0; i < a.sa.size(); i++) if (j.va[i].t != Variant::String || j.va[i].s != a.sa[i]) return false; return true; }
	if (a.t == Variant::VarArray) { if (j.t != Variant::VarArray || a.va.size() != j.va.size()) return false; for (size_t i = 0; i < a.va.size(); i++) if (!sameval(a.va[i], j.va[i])) return false; return true; }
	if (j.t != Variant::StrVarMap || a.m.size() != j.m.size()) return false;
	for (std::map<std::string,MV>::const_iterator k = a.m.begin(); k != a.m.end(); ++k) { std::map<std::string,MV>::const_iterator q = j.m.find(k->first); if (q == j.m.end() || !sameval(k->second, q->second)) return false; }
	return true;
}
static std::string layout(const std::string& t)	// what is around the strings
{
	std::string o; for (size_t i = 0; i < t.size(); i++) { o += t[i]; if (t[i] == '"') { for (i++; i < t.size() && t[i] != '"'; i++) if (t[i] == '\\') i++; o += '"'; } } return o;
}
static void check_json(int A, const StrVal& j, const MV& m, const US& want, int indent)
{
	std::string got; StrValIndex len = 0; bool ok = same_str(A, j, want, &got, &len);
	MODEL;
	Json r(got); MV back = r.all();
	if (r.bad) FAIL(C_JSON, "json-invalid", "the JSON for %s is %s, which is not JSON: %s", showv(m).c_str(), show(got).c_str(), r.why.c_str());
	if (sayable(m)) { if (!sameval(m, back)) FAIL(C_JSON, "json-value", "the JSON for %s is %s, which is %s", showv(m).c_str(), show(got).c_str(), showv(back).c_str()); sim_probe(P_JSONREAD); }
	if (!ok && layout(got) != layout(enc(want))) FAIL(C_JSON, "json-layout", "the JSON (indent %d) for %s is %s, not %s", indent, showv(m).c_str(), show(got).c_str(), show(enc(want)).c_str());
}
static int mdepth(const MV& m) { int d = 0; for (size_t i = 0; i < m.va.size(); i++) d = std::max(d, mdepth(m.va[i])); for (std::map<std::string,MV>::const_iterator k = m.m.begin(); k != m.m.end(); ++k) d = std::max(d, mdepth(k->second)); return d + (m.t >= Variant::VarArray); }
static int msize(const MV& m) { int n = 1 + (int)m.sa.size() + (int)m.s.size()/20; for (size_t i = 0; i < m.sa.size(); i++) n += (int)m.sa[i].size()/20; for (size_t i = 0; i < m.va.size(); i++) n += msize(m.va[i]); for (std::map<std::string,MV>::const_iterator k = m.m.begin(); k != m.m.end(); ++k) n += msize(k->second); return n; }
static MV mvint(int t, long long i) { MV m; m.t = t; m.i = i; return m; }
static MV mvstr(const US& s) { MV m; m.t = Variant::String; m.s = s; return m; }
static US keytext(int k) { return k < 9 ? mktext(k & 1 ? 1 : 0, 1 + (k/2) % 3, k % 7) : mktext(k % 4, 1 + k % 4, k); }

// ------------------------------------------------------------ functions given to the library
struct Xform
{
	int A, mode, calls, stop; char tmp[40];
	StrVal operator()(const char*& cp, const char* ep)
	{
		calls++;
		const char* p = cp; UCS4 c = UTF8Get(cp); int n = (int)(cp - p);
		switch (mode)
		{
		case 0: return StrVal(p, (StrValIndex)n);
		case 1: { char b[12]; memcpy(b, p, n); memcpy(b+n, p, n); return StrVal(b, (StrValIndex)(2*n)); }
		case 2: if (c == 'a' || c == 'A' || c == 0xE9) return StrVal(); return StrVal(p, (StrValIndex)n);
		case 3: if (cp < ep) { (void)UTF8Get(cp); } return StrVal((UCS4)0x20AC);
		case 5: { if (calls > stop) { cp = p; return StrVal(); } char b[12]; memcpy(b, p, n); memcpy(b+n, p, n); return StrVal(b, (StrValIndex)(2*n)); }	// then leave the rest alone
		default: if (c >= '0' && c <= '9') { cp = p; return StrVal("!"); } return StrVal((UCS4)(c == 'x' ? 0x1F600 : c));
		}
	}
};
static US mxform(const US& u, int mode, int after, int stop)
{
	US o; bool stopped = false; int calls = 0;
	for (int i = 0; i < (int)u.size(); )
	{
		if (i <= after || stopped) { o.push_back(u[i++]); continue; }
		uint32_t c = u[i];
		switch (mode)
		{
		case 0: o.push_back(c); i++; break;
		case 1: o.push_back(c); o.push_back(c); i++; break;
		case 5: if (++calls > stop) { stopped = true; break; } o.push_back(c); o.push_back(c); i++; break;
		case 2: if (c != 'a' && c != 'A' && c != 0xE9) o.push_back(c); i++; break;
		case 3: o.push_back(0x20AC); i += i+1 < (int)u.size() ? 2 : 1; break;
		default: if (c >= '0' && c <= '9') { o.push_back('!'); stopped = true; } else { o.push_back(c == 'x' ? 0x1F600 : c); i++; } break;
		}
	}
	return o;
}

// ------------------------------------------------------------ operations
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void str_result(int A, const char* what, long got, long want, const US& u)
{
	MODEL;
	if (got != want) FAIL(C_RSTR, "str-result", "%s on %s returned %ld but should return %ld", what, show(enc(u)).c_str(), got, want);
}
static void exec_str(int A, const SimOp& op, const char* nm)
{
	int a = (unsigned)op.a % NS, b = (unsigned)op.b % NS, c = (unsigned)op.c % NS;
	US& ma = ms[A][a]; US& mb = ms[A][b];	// (the private model of this thread)
	int la, lb; { MODEL; la = (int)ma.size(); lb = (int)mb.size(); }
	US w;
#define RET(...) do { { MODEL; w = __VA_ARGS__; } } while (0)
#define PROBE_MUT { MODEL; sim_probe(P_SHARED_MUT); }
	switch (op.code)
	{
	case S_NEW:
	{
		std::string t; { MODEL; w = text_of(op.e); t = enc(w); }
		int form = op.d & 3; bool nul; { MODEL; if (form == 1 && !no_nul(w)) form = 0; nul = form == 1; }
		HBuf h(t, nul);
		if (form == 1) LIB(S(A,a) = StrVal((const char*)h.p));
		else if (form == 2) LIB(S(A,a) = StrVal((const char*)h.p, (StrValIndex)h.n, (size_t)(h.n + 1 + (op.c & (BIG ? 1023 : 31)))));
		else LIB(S(A,a) = StrVal((const char*)h.p, (StrValIndex)h.n));
		break;
	}
	case S_CTOR:
		switch (op.d & 3)
		{
		case 0: { uint32_t ch = alpha(op.c); LIB(S(A,a) = StrVal((UCS4)ch)); RET(US(1, ch)); break; }
		case 1: LIB(S(A,a) = StrVal()); break;
		case 2: LIB(S(A,a) = StrVal("literal text")); RET(ascii("literal text")); break;
		default: LIB(StrRef r(S(A,b)); StrRef r2; r2 = r; S(A,a) = StrVal(r2)); RET(ms[A][b]); break;
		}
		break;
	case S_COPY: LIB(StrVal t(S(A,b)); S(A,a) = t); RET(ms[A][b]); break;
	case S_ASSIGN: LIB(S(A,a) = S(A,b)); RET(ms[A][b]); break;
	case S_SUBSTR:
	{
		int at = (unsigned)op.c % (lb + 3), n = (int)((unsigned)op.d % (lb + 4)) - 1;
		LIB(S(A,a) = n == -1 && (op.e & 1) ? S(A,b).substr(at) : S(A,b).substr(at, n));
		{ MODEL; if (n != 0 && at < lb) w = sub(mb, at, n < 0 || n > lb-at ? lb-at : n); }
		break;
	}
	case S_HEAD: { int n = (unsigned)op.c % (lb+1); LIB(S(A,a) = S(A,b).head(n)); RET(sub(mb, 0, n)); break; }
	case S_TAIL: { int n = (unsigned)op.c % (lb+1); LIB(S(A,a) = S(A,b).tail(n)); RET(sub(mb, lb-n, n)); break; }
	case S_SHORTER: { int n = (unsigned)op.c % (lb+1); LIB(S(A,a) = S(A,b).shorter(n)); RET(sub(mb, 0, lb-n)); break; }
	case S_CAT:
	{
		int lc; { MODEL; lc = (int)ms[A][c].size(); }
		if (lb + lc > CAP) return;
		if (op.e % 3 == 0 && lb)	// parts of one string, perhaps next to each other
		{
			int k = (unsigned)op.d % (lb+1), at = op.e & 4 ? k : (unsigned)(op.d/7) % (lb+1), n = (unsigned)op.c % (lb-at+1);
			{ MODEL; w = cat(sub(mb, 0, k), sub(mb, at, n)); if (at == k && n && k) sim_probe(P_CONTIG); }
			if (op.e & 8) LIB(S(A,a) = S(A,b).head(k) + S(A,b).substr(at, n));
			else LIB(StrVal t(S(A,b).head(k)); t += S(A,b).substr(at, n); S(A,a) = t);
			break;
		}
		LIB(S(A,a) = S(A,b) + S(A,c)); RET(cat(mb, ms[A][c])); break;
	}
	case S_CATCH: { if (lb >= CAP) return; uint32_t ch = alpha(op.c); LIB(S(A,a) = S(A,b) + (UCS4)ch); RET(cat(mb, US(1, ch))); break; }
	case S_CATLIT:
		if (lb + 12 > CAP) return;
		if (op.d & 1) { LIB(S(A,a) = "pre-" + S(A,b)); RET(cat(ascii("pre-"), mb)); }
		else { LIB(S(A,a) = S(A,b) + "-post"); RET(cat(mb, ascii("-post"))); }
		break;
	case S_APPEND:
		if (la + lb > CAP) return;
		if (op.d & 1) LIB(S(A,a) += S(A,b)); else LIB(S(A,a).append(S(A,b)));
		RET(cat(ma, mb)); break;
	case S_APPENDCH: { if (la >= CAP) return; uint32_t ch = alpha(op.c); LIB(S(A,a) += (UCS4)ch); RET(cat(ma, US(1, ch))); break; }
	case S_INSERT: { if (la + lb > CAP) return; int p = (unsigned)op.c % (la+1); LIB(S(A,a).insert(p, S(A,b))); RET(ins(ma, p, mb)); break; }
	case S_PREPEND: if (la + lb > CAP) return; LIB(S(A,a).prepend(S(A,b))); RET(ins(ma, 0, mb)); break;
	case S_SELF:
	{
		if (2*la > CAP) return;
		int p = (unsigned)op.c % (la+1), x = (unsigned)op.b % (la+1), n = la-x ? (unsigned)op.d % (la-x+1) : 0;
		{ MODEL; sim_probe(P_SELF); }
		switch (op.e & 3)
		{
		case 0: LIB(S(A,a).insert(p, S(A,a))); RET(ins(ma, p, ma)); break;
		case 1: LIB(S(A,a) += S(A,a)); RET(cat(ma, ma)); break;
		case 2: LIB(S(A,a).insert(p, S(A,a).substr(x, n))); RET(n ? ins(ma, p, sub(ma, x, n)) : ma); break;
		default: LIB(S(A,a).prepend(S(A,a).substr(x, n))); RET(n ? ins(ma, 0, sub(ma, x, n)) : ma); break;
		}
		break;
	}
	case S_REPEAT: { int n = (unsigned)op.c % (BIG ? 40 : 5); if (lb*n > CAP) return; LIB(S(A,a) = S(A,b) * n); { MODEL; for (int i = 0; i < n; i++) w = cat(w, mb); } break; }
	case S_LOWER: RET(mapcase(ma, lowerOf)); LIB(S(A,a).toLower()); break;
	case S_UPPER: RET(mapcase(ma, upperOf)); LIB(S(A,a).toUpper()); break;
	case S_ASLOWER: RET(mapcase(mb, lowerOf)); LIB(S(A,a) = S(A,b).asLower()); break;
	case S_ASUPPER: RET(mapcase(mb, upperOf)); LIB(S(A,a) = S(A,b).asUpper()); break;
	case S_JSON: RET(mjson(ma)); if (w.size() > CAP) return; LIB(S(A,a).toJSON()); if (!OOM) { StrVal q = StrVal("\"") + S(A,a) + "\""; MV m; US u; { MODEL; m = mvstr(ma); u = mvjson(m, -1); } check_json(A, q, m, u, -1); MODEL; m = MV(); US().swap(u); } break;
	case S_ASJSON: RET(mjson(mb)); if (w.size() > CAP) return; LIB(S(A,a) = S(A,b).asJSON()); break;
	case S_TRANSFORM:
	{
		int mode = (unsigned)op.d % 6, after = (int)((unsigned)op.c % (la+1)) - 1; if (op.e & 1) after = -1;
		int stop = (unsigned)op.e / 2 % (la/2+2); RET(mxform(ma, mode, after, stop)); if (w.size() > CAP) return;
		Xform x; x.A = A; x.mode = mode; x.calls = 0; x.stop = stop;
		LIB(S(A,a).transform(x, after));
		break;
	}
	case S_CLEAR: if (op.d & 1) LIB(S(A,a) = StrVal::null); else LIB(S(A,a) = StrVal("")); break;
	case S_BORROW:
	{
		int k = (unsigned)op.b % NB;
		if (op.d & 1)	// storage that soon goes away
		{
			std::string t; { MODEL; w = text_of(op.e & ~4); if (w.empty()) w = ascii("x"); t = enc(w) + ((op.d & 2) ? std::string(1, 0) : std::string("~")); }
			HBuf h(t, false);
			StrBody* body = new StrBody(h.p, StrStatic, (StrValIndex)(h.n-1));
			LIB(StrVal v(body); StrVal v2(v); S(A,a) = v2);
			int n = body->GetRefCount();
			if (n != 1) { MODEL; FAIL(C_BORROW, "kept", "after copying a string over a caller's body, %d references to that body remain besides the caller's", n-1); }
			delete body;
			break;
		}
		LIB(S(A,a) = StrVal(&bor(k))); RET(bor_model[k]); break;
	}
	case S_MARK: { int p = (unsigned)op.c % (la+1); LIB(S(A,a).insert(p, StrVal())); RET(ma); break; }
	case S_FORMAT:
	{
		int k; { MODEL; k = (int)mb.size() + (int)ms[A][c].size(); }
		if (k > CAP-30) return;
		int num = op.d;
		if (op.e % 3)	// a format of any text, made two ways: sizes and such may mean what they like, but it is the text that decides
		{
			US f; std::string t; bool lit;
			{
				MODEL;
				Rng r(op.e * 131 + (unsigned)op.d % 64); int n = r.range(0, 8), nargs = 0; lit = r.pct(15);
				for (int i = 0; i < n; i++)
				{
					if (lit || r.pct(40)) { f.push_back(alpha(r.below(1000)) == '%' ? 'a' : alpha(r.below(1000))); continue; }
					static const char* const conv[] = { "%s", "%d", "%%", "%5d", "%05d", "%.2s", "%12.3s", "%1$d", "%q", "%g", "%007.s" };
					f = cat(f, ascii(conv[r.below(11)])); nargs++;
				}
				if (!lit && r.pct(20)) f = cat(f, ascii(r.pct(50) ? "%" : r.pct(50) ? "%5" : "%3."));
				t = enc(f);
			}
			HBuf h(t, false); StrVal g1, g2;
			LIB(StrVal whole(StrVal("[") + StrVal((const char*)h.p, (StrValIndex)h.n) + "%d"); StrVal part(whole.substr(1, (int)whole.length()-3)); VariantArray args; for (int i = 0; i < 14; i++) if (i & 1) args << Variant(num+i); else args << Variant(S(A,b)); g1 = StrVal::format(part, args));
			if (OOM) return;
			std::string bt; { MODEL; bt = enc(mb); } HBuf hb(bt, false);
			LIB(VariantArray args; for (int i = 0; i < 14; i++) if (i & 1) args << Variant(num+i); else args << Variant(StrVal((const char*)hb.p, (StrValIndex)hb.n)); g2 = StrVal::format(StrVal((const char*)h.p, (StrValIndex)h.n), args));
			if (OOM) return;
			StrValIndex l1, l2; std::string s1 = read_str(A, g1, l1), s2 = read_str(A, g2, l2);
			MODEL;
			if (s1 != s2 || l1 != l2) FAIL(C_RSTR, "str-format", "format %s gives %s with slices and %s with fresh strings", show(t).c_str(), show(s1).c_str(), show(s2).c_str());
			if (lit && s1 != t) FAIL(C_RSTR, "str-format", "format %s, without any conversion, gives %s", show(t).c_str(), show(s1).c_str());
			return;
		}
		LIB(VariantArray args; args << Variant(S(A,b)); args << Variant(num); args << Variant(S(A,c)); S(A,a) = StrVal::format("<%s|%d|%s>%", args));
		{ MODEL; w = cat(cat(cat(ascii("<"), mb), ascii(("|" + std::to_string(num) + "|").c_str())), cat(ms[A][c], ascii(">%"))); }
		break;
	}
	// reading
	case S_WALK:
	{
		int mode = (unsigned)op.c % 4;
		Rng r(op.d); int n = mode < 2 ? la : 6;
		for (int k = 0; k < n; k++)
		{
			int i; { MODEL; i = mode == 0 ? k : mode == 1 ? la-1-k : mode == 2 ? (la ? r.below(la) : 0) : std::max(0, la-1-r.below(5)); if (la > 8 && i > la-4) sim_probe(P_BACKWARD); }
			if (i >= la) break;
			UCS4 g = S(A,a)[i];
			MODEL; if ((uint32_t)g != ma[i]) FAIL(C_RSTR, "str-char", "character %d of %s reads as %X but should be %X", i, show(enc(ma)).c_str(), (unsigned)g, ma[i]);
		}
		UCS4 g = S(A,a)[la];
		{ MODEL; if (g != 0) FAIL(C_RSTR, "str-char", "the character after the end of %s reads as %X", show(enc(ma)).c_str(), (unsigned)g); }
		g = S(A,a)[la+1+(op.d&3)];
		{ MODEL; if (g != UCS4_NONE) FAIL(C_RSTR, "str-char", "a character beyond the end of %s reads as %X", show(enc(ma)).c_str(), (unsigned)g); }
		bool em = S(A,a).isEmpty(), bo = (bool)S(A,a);
		str_result(A, "isEmpty", em, la == 0, ma); str_result(A, "operator bool", bo, la != 0, ma);
		return;
	}
	case S_BYTES:
	{
		const char* p = 0; LIB(p = S(A,a).asUTF8());
		if (!OOM)
		{
			MODEL; std::string t = enc(ma); check_range(p, t.size()+1, C_STR, "NUL-terminated string");
			if (memcmp(p, t.data(), t.size()) || p[t.size()]) FAIL(C_RSTR, "str-bytes", "asUTF8() gives %s, not terminated or not the text %s", show(std::string(p, t.size()+1)).c_str(), show(t).c_str());
		}
		RET(ma);
		settle_str(A, a, w, nm);
		int nb = S(A,a).numBytes(); { MODEL; str_result(A, "numBytes", nb, (long)enc(ma).size(), ma); }
		return;
	}
	case S_CMP:
	{
		const StrVal &x = S(A,a), &y = S(A,b);
		int g = x.compare(y); bool eq = x == y, ne = x != y, lt = x < y, le = x <= y, ge = x >= y, gt = x > y, sc = StrVal::compare(x, y), se = StrVal::equiv(x, y);
		const StrRef &rx = x, &ry = y; bool re = rx == ry;
		MODEL; std::string p = enc(ma), q = enc(mb); int m = p.compare(q); m = sgn(m);
		if (sgn(g) != m || eq != (m == 0) || ne != (m != 0) || lt != (m < 0) || le != (m <= 0) || ge != (m >= 0) || gt != (m > 0) || sc != (m > 0) || se != (m == 0) || re != (m == 0))
			FAIL(C_RSTR, "str-compare", "comparing %s with %s gives %d (== %d, < %d, <= %d, >= %d, > %d)", show(p).c_str(), show(q).c_str(), g, eq, lt, le, ge, gt);
		return;
	}
	case S_FINDCH: { uint32_t ch = alpha(op.c); if (la && (op.e & 1)) { MODEL; ch = ma[(unsigned)op.c % la]; } int after = la ? (int)((unsigned)op.d % (la+1)) - 1 : -1; long g = (after == -1 ? S(A,a).find((UCS4)ch) : S(A,a).find((UCS4)ch, after)), m; { MODEL; m = mfind(ma, US(1, ch), after); sim_probe(m < 0 ? P_NOTFOUND : P_FOUND); } str_result(A, nm, g, m, ma); return; }
	case S_RFINDCH: { uint32_t ch = alpha(op.c); if (la && (op.e & 1)) { MODEL; ch = ma[(unsigned)op.c % la]; } int bf = (int)((unsigned)op.d % (la+2)) - 1; long g = (bf == -1 ? S(A,a).rfind((UCS4)ch) : S(A,a).rfind((UCS4)ch, bf)), m; { MODEL; m = mrfind(ma, US(1, ch), bf); sim_probe(m < 0 ? P_NOTFOUND : P_FOUND); } str_result(A, nm, g, m, ma); return; }
	case S_FINDSTR: case S_RFINDSTR:
	{
		StrVal s; US m;
		if (op.e & 1) { int x = la ? (unsigned)op.b % la : 0, n = la ? 1 + (unsigned)op.c % 4 : 0; { MODEL; if (n > la-x) n = la-x; m = sub(ma, x, n); } if (op.e & 2) LIB(s = S(A,a).substr(x, n ? n : 0)); else { std::string t; { MODEL; t = enc(m); } HBuf h(t, false); LIB(s = StrVal((const char*)h.p, (StrValIndex)h.n)); } }
		else { LIB(s = S(A,b)); MODEL; m = mb; }
		if (OOM) return;
		long g, want;
		if (op.code == S_FINDSTR) { int after = la ? (int)((unsigned)op.d % (la+1)) - 1 : -1; g = (after == -1 ? S(A,a).find(s) : S(A,a).find(s, after)); MODEL; want = mfind(ma, m, after); }
		else { int bf = (int)((unsigned)op.d % (la+2)) - 1; g = (bf == -1 ? S(A,a).rfind(s) : S(A,a).rfind(s, bf)); MODEL; want = mrfind(ma, m, bf); }
		{ MODEL; sim_probe(want < 0 ? P_NOTFOUND : P_FOUND); }
		str_result(A, nm, g, want, ma);
		return;
	}
	case S_FINDANY: case S_FINDNOT:
	{
		if ((long)la*lb > 300000) return;
		bool any = op.code == S_FINDANY; long g, want = -1;
		if (op.e & 1) { int bf = (int)((unsigned)op.d % (la+2)) - 1; g = any ? (bf == -1 ? S(A,a).rfindAny(S(A,b)) : S(A,a).rfindAny(S(A,b), bf)) : (bf == -1 ? S(A,a).rfindNot(S(A,b)) : S(A,a).rfindNot(S(A,b), bf)); MODEL; for (int i = (bf < 0 ? la : bf) - 1; i >= 0 && want < 0; i--) if (has(mb, ma[i]) == any) want = i; }
		else { int af = la ? (int)((unsigned)op.d % (la+1)) - 1 : -1; g = any ? (af == -1 ? S(A,a).findAny(S(A,b)) : S(A,a).findAny(S(A,b), af)) : (af == -1 ? S(A,a).findNot(S(A,b)) : S(A,a).findNot(S(A,b), af)); MODEL; for (int i = af+1; i < la && want < 0; i++) if (has(mb, ma[i]) == any) want = i; }
		str_result(A, nm, g, want, ma);
		return;
	}
	case S_FINDALL:
	{
		uint32_t ch; { MODEL; ch = la ? ma[(unsigned)op.c % la] : 'a'; }
		int n = 0, last = -1, m; for (int g; (g = S(A,a).find((UCS4)ch, last)) >= 0 && n < 100000; n++) { last = g; if (last + 1 >= la) { n++; break; } }
		{ MODEL; m = 0; for (int i = 0; i < la; i++) m += ma[i] == ch; }
		str_result(A, "the number of finds going forwards", n, m, ma);
		n = 0; last = -1; for (int g; (g = S(A,a).rfind((UCS4)ch, last)) >= 0 && n < 100000; n++) { last = g; }
		str_result(A, "the number of finds going backwards", n, m, ma);
		return;
	}
	case S_INT:
	{
		static const int RX[] = { 0, 0, 0, 10, 10, 2, 16, 8, 36, 3, 1, 35, 11, 7 };
		int radix = RX[(unsigned)op.c % 14];
		US u; StrVal n;
		if (op.e & 6) { std::string t; { MODEL; u = text_of(op.e * 1000 + op.d | 8); t = enc(u); } HBuf h(t, false); LIB(n = StrVal((const char*)h.p, (StrValIndex)h.n)); if (OOM) return; }
		const StrVal& x = op.e & 6 ? n : S(A,a); const US& mx = op.e & 6 ? u : ma;
		ErrNum e; if (op.e & 1) e = ErrNum(3, 77);
		StrValIndex sc = 99; int g = x.asInt32(&e, radix, &sc), g2 = x.asInt32(0, radix, 0);
		MODEL; int err, msc; long long v; mint32(mx, radix, err, v, msc);
		int ge = e.msg();
		if (g2 != g) FAIL(C_RSTR, "str-int", "asInt32(radix %d) of %s gives %d, but %d when the error is not asked for", radix, show(enc(mx)).c_str(), g, g2);
		if ((err == 0) != ((int32_t)e == 0) || (err && ge != err) || ((err == 0 || err == 1) && g != (int)v) || ((err == 2 || err == 4) && g != 0) || (err != 3 && (int)sc != msc))
			FAIL(C_RSTR, "str-int", "asInt32(radix %d) of %s gives %d (error %d, %u scanned) but should give %lld (error %d, %d scanned)", radix, show(enc(mx)).c_str(), g, (int32_t)e ? ge : 0, sc, v, err, msc);
		return;
	}
	case S_JOIN: return;
	default: return;
	}
	settle_str(A, a, w, nm);
}
static void ia_result(const char* what, long got, long want, const std::vector<int>& v)
{
	MODEL;
	if (got != want) FAIL(C_RARR, "arr-result", "%s on %s returned %ld but should return %ld", what, showi(v).c_str(), got, want);
}
static std::vector<int> insv(const std::vector<int>& a, int p, const std::vector<int>& b) { std::vector<int> o(a); o.insert(o.begin()+p, b.begin(), b.end()); return o; }
static std::vector<int> subv(const std::vector<int>& a, int p, int n) { return std::vector<int>(a.begin()+p, a.begin()+p+n); }
static bool is_even(const int& x) { return (x & 1) == 0; }
static bool is_three(const int& x) { return x % 3 == 0; }
static int twice(const int& x) { return 2*x+1; }
static int addup(int& acc, const int& x) { return (int)((unsigned)acc*3 + x); }
static void exec_arr(int A, const SimOp& op, const char* nm)
{
	int a = (unsigned)op.a % NI, b = (unsigned)op.b % NI, c = (unsigned)op.c % NI;
	std::vector<int>& ma = mi[A][a]; std::vector<int>& mb = mi[A][b];
	int la, lb; { MODEL; la = (int)ma.size(); lb = (int)mb.size(); }
	std::vector<int> w;
	int el = op.d % 12;
	switch (op.code)
	{
	case A_NEW:
	{
		int n = (unsigned)op.c % (BIG ? BIG : 14);
		if (n == 1 && (op.e & 1)) { LIB(I(A,a) = IntArray(el)); RET(std::vector<int>(1, el)); break; }
		if (n == 0 && (op.e & 1)) { LIB(I(A,a) = IntArray()); break; }
		int* src = new int[n ? n : 1];
		{ MODEL; Rng r(op.d); for (int i = 0; i < n; i++) { src[i] = (op.e & 2) ? i*2 + (int)(op.d & 1) : r.below(12); w.push_back(src[i]); } }
		if (op.e & 4) LIB(I(A,a) = IntArray(src, n, n + (op.b & (BIG ? 255 : 15)))); else LIB(I(A,a) = IntArray(src, n));
		delete[] src;
		break;
	}
	case A_COPY: LIB(IntArray t(I(A,b)); I(A,a) = t); RET(mb); break;
	case A_ASSIGN: LIB(I(A,a) = I(A,b)); RET(mb); break;
	case A_SLICE:
	{
		int at = (unsigned)op.c % (lb+2), n = (int)((unsigned)op.d % (lb+3)) - 1;
		LIB(I(A,a) = n == -1 && (op.e & 1) ? I(A,b).slice(at) : I(A,b).slice(at, n));
		{ MODEL; if (at < lb && n) w = subv(mb, at, n < 0 || n > lb-at ? lb-at : n); }
		break;
	}
	case A_HEAD: { int n = (unsigned)op.c % (lb+1); LIB(I(A,a) = I(A,b).head(n)); RET(subv(mb, 0, n)); break; }
	case A_TAIL: { int n = (unsigned)op.c % (lb+1); LIB(I(A,a) = I(A,b).tail(n)); RET(subv(mb, lb-n, n)); break; }
	case A_SHORTER: { int n = (unsigned)op.c % (lb+1); LIB(I(A,a) = I(A,b).shorter(n)); RET(subv(mb, 0, lb-n)); break; }
	case A_DROP: { int n = (unsigned)op.c % (lb+1); LIB(I(A,a) = I(A,b).drop(n)); RET(subv(mb, n, lb-n)); break; }
	case A_CAT: { int lc; { MODEL; lc = (int)mi[A][c].size(); } if (lb+lc > CAP) return; 
		if (op.e % 3 == 0 && lb)
		{
			int k = (unsigned)op.d % (lb+1), at = op.e & 4 ? k : (unsigned)(op.d/7) % (lb+1), n = (unsigned)op.c % (lb-at+1);
			{ MODEL; w = insv(subv(mb, 0, k), k, subv(mb, at, n)); if (at == k && n && k) sim_probe(P_CONTIG); }
			if (op.e & 8) LIB(I(A,a) = I(A,b).head(k) + I(A,b).slice(at, n));
			else if (op.e & 16) LIB(IntArray t(I(A,b).head(k)); t += I(A,b).slice(at, n); I(A,a) = t);
			else LIB(IntArray t(I(A,b).slice(at, n)); t.insert(0, I(A,b).head(k)); I(A,a) = t);
			break;
		}
		LIB(I(A,a) = I(A,b) + I(A,c)); RET(insv(mb, lb, mi[A][c])); break; }
	case A_CATEL: if (lb >= CAP) return; LIB(I(A,a) = I(A,b) + el); RET(insv(mb, lb, std::vector<int>(1, el))); break;
	case A_APPEND: if (la+lb > CAP) return; if (op.d & 1) LIB(I(A,a) += I(A,b)); else LIB(I(A,a).append(I(A,b))); RET(insv(ma, la, mb)); break;
	case A_PUSH:
		if (la >= CAP) return;
		switch (op.e & 3) { case 0: LIB(I(A,a).push(el)); break; case 1: LIB(I(A,a) += el); break; case 2: LIB(I(A,a) << el); break; default: LIB(I(A,a).append(el)); break; }
		RET(insv(ma, la, std::vector<int>(1, el))); break;
	case A_INSERT: { if (la+lb > CAP) return; int p = (unsigned)op.c % (la+1); LIB(I(A,a).insert(p, I(A,b))); RET(insv(ma, p, mb)); break; }
	case A_SELF:
	{
		if (2*la > CAP) return;
		int p = (unsigned)op.c % (la+1), x = (unsigned)op.b % (la+1), n = la-x ? (unsigned)op.d % (la-x+1) : 0;
		{ MODEL; sim_probe(P_SELF); }
		switch (op.e & 3)
		{
		case 0: LIB(I(A,a).insert(p, I(A,a))); RET(insv(ma, p, ma)); break;
		case 1: LIB(I(A,a) += I(A,a)); RET(insv(ma, la, ma)); break;
		case 2: LIB(I(A,a).insert(p, I(A,a).slice(x, n))); RET(n ? insv(ma, p, subv(ma, x, n)) : ma); break;
		default: LIB(IntArray t(I(A,a).slice(x, n)); t.append(I(A,a)); I(A,a) = t); RET(insv(n ? subv(ma, x, n) : std::vector<int>(), n, ma)); break;
		}
		break;
	}
	case A_UNSHIFT: if (la >= CAP) return; LIB(I(A,a).unshift(el)); RET(insv(ma, 0, std::vector<int>(1, el))); break;
	case A_PULL: { if (!la) return; int g = -1; LIB(g = I(A,a).pull()); RET(subv(ma, 0, la-1)); if (!OOM) { long m; { MODEL; m = ma[la-1]; } ia_result(nm, g, m, ma); } break; }
	case A_SHIFT: { if (!la) return; int g = -1; LIB(g = I(A,a).shift()); RET(subv(ma, 1, la-1)); if (!OOM) { long m; { MODEL; m = ma[0]; } ia_result(nm, g, m, ma); } break; }
	case A_DELAT: { if (!la) return; int p = (unsigned)op.c % la, g = -1; LIB(g = I(A,a).delete_at(p)); { MODEL; w = ma; w.erase(w.begin()+p); } if (!OOM) { long m; { MODEL; m = ma[p]; } ia_result(nm, g, m, ma); } break; }
	case A_REMOVE:
	{
		int p = (unsigned)op.c % (la+1), n = (int)((unsigned)op.d % (la-p+2)) - 1;
		if (n == -1 && (op.e & 1)) LIB(I(A,a).remove(p)); else LIB(I(A,a).remove(p, n));
		{ MODEL; w = ma; w.erase(w.begin()+p, n < 0 ? w.end() : w.begin()+p+n); }
		break;
	}
	case A_SET: { if (!la) return; int p = (unsigned)op.c % la; int g = el; LIB(g = I(A,a).set(p, el)); { MODEL; w = ma; w[p] = el; } if (!OOM) ia_result(nm, g, el, ma); break; }
	case A_ELMUT: { if (!la) return; int p = (unsigned)op.c % la; if (op.e & 1) { p = la-1; LIB(I(A,a).last_mut() = el); } else LIB(I(A,a).elem_mut(p) = el); { MODEL; w = ma; w[p] = el; } break; }
	case A_REVERSE: LIB(I(A,a).reverse()); { MODEL; w = std::vector<int>(ma.rbegin(), ma.rend()); } break;
	case A_DELETEIF: LIB(I(A,a).delete_if(op.d & 1 ? is_even : is_three)); { MODEL; for (int i = 0; i < la; i++) if (!(op.d & 1 ? is_even(ma[i]) : is_three(ma[i]))) w.push_back(ma[i]); } break;
	case A_SELECT: LIB(I(A,a) = I(A,b).select(op.d & 1 ? is_even : is_three)); { MODEL; for (int i = 0; i < lb; i++) if (op.d & 1 ? is_even(mb[i]) : is_three(mb[i])) w.push_back(mb[i]); } break;
	case A_MAP: { MODEL; bool big = false; for (int i = 0; i < lb; i++) if (mb[i] > 100000) big = true; if (big) return; } LIB(I(A,a) = I(A,b).map<>(std::function<int(const int&)>(twice))); { MODEL; for (int i = 0; i < lb; i++) w.push_back(twice(mb[i])); } break;
	case A_CLEAR: LIB(I(A,a).clear()); break;
	case A_BORROW: LIB(I(A,a) = IntArray((IntBody*)bor_iraw)); RET(std::vector<int>(bor_int_copy, bor_int_copy+8)); break;
	case A_READ:
	{
		for (int k = 0; k < 4 && la; k++)
		{
			int p = (unsigned)(op.c + k*7) % la; int g1 = I(A,a)[p], g2 = I(A,a).elem(p), g3 = I(A,a).elem_ref(p), g4 = I(A,a).last(), g5 = I(A,a).last_ref();
			MODEL; if (g1 != ma[p] || g2 != ma[p] || g3 != ma[p] || g4 != ma[la-1] || g5 != ma[la-1]) FAIL(C_RARR, "arr-elem", "element %d of %s reads as %d/%d/%d, the last as %d/%d", p, showi(ma).c_str(), g1, g2, g3, g4, g5);
		}
		bool em = I(A,a).isEmpty(); ia_result("isEmpty", em, la == 0, ma);
		return;
	}
	case A_FIND: case A_RFIND:
	{
		if (la && (op.e & 1)) { MODEL; el = ma[(unsigned)op.d % la]; }
		int want = -1, g;
		if (op.code == A_FIND) { int after = la ? (int)((unsigned)op.c % (la+1)) - 1 : -1; g = op.e & 2 ? I(A,a).find([&](const int& x) { return x == el; }, after) : after == -1 ? I(A,a).find(el) : I(A,a).find(el, after); MODEL; for (int i = after+1; i < la && want < 0; i++) if (ma[i] == el) want = i; }
		else { int bf = (int)((unsigned)op.c % (la+2)) - 1; g = op.e & 2 ? I(A,a).rfind([&](const int& x) { return x == el; }, bf) : bf == -1 ? I(A,a).rfind(el) : I(A,a).rfind(el, bf); MODEL; for (int i = (bf < 0 ? la : bf)-1; i >= 0 && want < 0; i--) if (ma[i] == el) want = i; }
		{ MODEL; sim_probe(want < 0 ? P_NOTFOUND : P_FOUND); }
		ia_result(nm, g, want, ma);
		return;
	}
	case A_PRED:
	{
		bool (*f)(const int&) = op.d & 1 ? is_even : is_three; int calls = 0; unsigned sum = 0;
		bool al = I(A,a).all(f), an = I(A,a).any(f), on = I(A,a).one(f); int de = I(A,a).detect(f); I(A,a).each([&](const int& x) { calls++; sum = sum*3 + x; });
		MODEL; int n = 0, first = -1; unsigned msum = 0; for (int i = 0; i < la; i++) { if (f(ma[i])) { if (!n) first = i; n++; } msum = msum*3 + ma[i]; }
		if (al != (n == la) || an != (n > 0) || on != (n == 1) || de != first || calls != la || sum != msum) FAIL(C_RARR, "arr-pred", "all/any/one/detect/each on %s give %d %d %d %d %d calls", showi(ma).c_str(), al, an, on, de, calls);
		return;
	}
	case A_CMP:
	{
		int g = I(A,a).compare(I(A,b)); bool eq = I(A,a) == I(A,b), ne = I(A,a) != I(A,b);
		MODEL; int m = ma < mb ? -1 : mb < ma ? 1 : 0;
		if (sgn(g) != m || eq != (m == 0) || ne != (m != 0)) FAIL(C_RARR, "arr-compare", "comparing %s with %s gives %d (== %d, != %d)", showi(ma).c_str(), showi(mb).c_str(), g, eq, ne);
		return;
	}
	case A_BSEARCH:
	{
		{ MODEL; for (int i = 1; i < la; i++) if (ma[i] < ma[i-1]) return; if (la && (op.e & 1)) el = ma[(unsigned)op.d % la]; }
		int g = I(A,a).bsearch([&](const int& x) { return x < el ? -1 : x > el; });
		MODEL; bool in = false; for (int i = 0; i < la; i++) in |= ma[i] == el;
		if (in ? g < 0 || g >= la || ma[g] != el : g != -1) FAIL(C_RARR, "arr-bsearch", "bsearch for %d in %s returned %d", el, showi(ma).c_str(), g);
		return;
	}
	case A_INJECT: { int g = I(A,a).inject<int>(7, std::function<int(int&, const int&)>(addup)); int m = 7; { MODEL; for (int i = 0; i < la; i++) m = (int)((unsigned)m*3 + ma[i]); } ia_result(nm, g, m, ma); return; }
	default: return;
	}
	settle_ia(A, a, w, nm);
}
static void exec_sarr(int A, const SimOp& op, const char* nm)
{
	typedef std::vector<US> VS;
	int a = (unsigned)op.a % NT, b = (unsigned)op.b % NT, c = (unsigned)op.c % NT, s = (unsigned)op.d % NS;
	VS& ma = mt[A][a]; VS& mb = mt[A][b];
	int la, lb; { MODEL; la = (int)ma.size(); lb = (int)mb.size(); }
	VS w;
	switch (op.code)
	{
	case T_NEW:
	{
		int n = (unsigned)op.c % 4; s = (unsigned)op.d % (NS-3); int many = BIG && (op.e & 2) ? (unsigned)op.c % (BIG/16) : 0;
		if (op.e & 1) LIB(T(A,a) = StringArray(&S(A,s), n)); else LIB(StringArray t; for (int i = 0; i < n; i++) t << S(A,s+i); for (int i = 0; i < many; i++) t << S(A,(s+i*3)%NS); T(A,a) = t);
		{ MODEL; for (int i = 0; i < n; i++) w.push_back(ms[A][s+i]); if (!(op.e & 1)) for (int i = 0; i < many; i++) w.push_back(ms[A][(s+i*3)%NS]); }
		break;
	}
	case T_COPY: if (op.e & 1) LIB(StringArray t(T(A,b)); T(A,a) = t); else LIB(T(A,a) = T(A,b)); RET(mb); break;
	case T_SLICE:
	{
		int at = (unsigned)op.c % (lb+2), n = (int)((unsigned)op.d % (lb+3)) - 1;
		LIB(T(A,a) = T(A,b).slice(at, n));
		{ MODEL; if (at < lb && n) w = VS(mb.begin()+at, n < 0 || n > lb-at ? mb.end() : mb.begin()+at+n); }
		break;
	}
	case T_CAT: { int lc; { MODEL; lc = (int)mt[A][c].size(); } if (lb+lc > TCAP) return; LIB(T(A,a) = T(A,b) + T(A,c)); { MODEL; w = mb; w.insert(w.end(), mt[A][c].begin(), mt[A][c].end()); } break; }
	case T_APPEND: if (la+lb > TCAP) return; if (op.e & 1) LIB(T(A,a) += T(A,b)); else LIB(T(A,a).append(T(A,b))); { MODEL; w = ma; VS t = mb; w.insert(w.end(), t.begin(), t.end()); } break;
	case T_PUSH: if (la >= TCAP) return; if (op.e & 1) LIB(T(A,a) << S(A,s)); else LIB(T(A,a).push(S(A,s))); { MODEL; w = ma; w.push_back(ms[A][s]); } break;
	case T_INSERT: { if (la+lb > TCAP) return; int p = (unsigned)op.c % (la+1); LIB(T(A,a).insert(p, T(A,b))); { MODEL; VS t = mb; w = ma; w.insert(w.begin()+p, t.begin(), t.end()); } break; }
	case T_SELF: { if (2*la > TCAP) return; { MODEL; sim_probe(P_SELF); } int p = (unsigned)op.c % (la+1), x = (unsigned)op.b % (la+1); LIB(T(A,a).insert(p, T(A,a).slice(x))); { MODEL; VS t(ma.begin()+x, ma.end()); w = ma; w.insert(w.begin()+p, t.begin(), t.end()); } break; }
	case T_UNSHIFT: if (la >= TCAP) return; LIB(T(A,a).unshift(S(A,s))); { MODEL; w = ma; w.insert(w.begin(), ms[A][s]); } break;
	case T_PULL: case T_SHIFT: case T_DELAT:
	{
		if (!la) return;
		int p = op.code == T_PULL ? la-1 : op.code == T_SHIFT ? 0 : (unsigned)op.c % la; StrVal g;
		if (op.code == T_PULL) LIB(g = T(A,a).pull()); else if (op.code == T_SHIFT) LIB(g = T(A,a).shift()); else LIB(g = T(A,a).delete_at(p));
		bool ok = OOM || same_str(A, g, ma[p]);
		{ MODEL; if (!ok) FAIL(C_RARR, "arr-result", "%s from %s returned another string", nm, showt(ma).c_str()); w = ma; w.erase(w.begin()+p); }
		break;
	}
	case T_REMOVE: { int p = (unsigned)op.c % (la+1), n = (unsigned)op.d % (la-p+1); LIB(T(A,a).remove(p, n)); { MODEL; w = ma; w.erase(w.begin()+p, w.begin()+p+n); } break; }
	case T_SET: { if (!la) return; int p = (unsigned)op.c % la; if (op.e & 1) LIB(T(A,a).set(p, S(A,s))); else LIB(T(A,a).elem_mut(p) = S(A,s)); { MODEL; w = ma; w[p] = ms[A][s]; } break; }
	case T_REVERSE: LIB(T(A,a).reverse()); { MODEL; w = VS(ma.rbegin(), ma.rend()); } break;
	case T_DELETEIF: LIB(T(A,a).delete_if([](const StrRef& r) { return r.length() % 2 == 0; })); { MODEL; for (int i = 0; i < la; i++) if (ma[i].size() % 2) w.push_back(ma[i]); } break;
	case T_SELECT: LIB(T(A,a) = T(A,b).select([](const StrRef& r) { return r.length() % 2 == 0; })); { MODEL; for (int i = 0; i < lb; i++) if (mb[i].size() % 2 == 0) w.push_back(mb[i]); } break;
	case T_CLEAR: LIB(T(A,a).clear()); break;
	case T_GET: case T_JOIN:
	{
		US u;
		if (op.code == T_GET)
		{
			if (!lb) return;
			int p = (unsigned)op.c % lb; LIB(S(A,s) = op.e & 1 ? T(A,b)[p] : T(A,b).elem(p)); { MODEL; u = mb[p]; }
		}
		else
		{
			int j = (unsigned)op.c % NS;
			{ MODEL; for (int i = 0; i < lb; i++) { if (i) u = cat(u, ms[A][j]); u = cat(u, mb[i]); } }
			if (u.size() > CAP) return;
			LIB(S(A,s) = T(A,b).join(S(A,j)));
		}
		settle_str(A, s, u, nm);
		return;
	}
	case T_READ:
	{
		int g = T(A,a).find(S(A,s)), r = T(A,a).rfind(S(A,s)); bool eq = T(A,a) == T(A,b); int cm = T(A,a).compare(T(A,b));
		MODEL; int m = -1, mr = -1; for (int i = 0; i < la; i++) if (ma[i] == ms[A][s]) { if (m < 0) m = i; mr = i; }
		int mc = 0; for (int i = 0; !mc; i++) { if (i >= la || i >= lb) { mc = la < lb ? -1 : la > lb; break; } mc = sgn(enc(ma[i]).compare(enc(mb[i]))); }
		if (g != m || r != mr || eq != (ma == mb) || sgn(cm) != mc) FAIL(C_RARR, "arr-result", "find/rfind/==/compare on %s and %s for %s give %d %d %d %d", showt(ma).c_str(), showt(mb).c_str(), show(enc(ms[A][s])).c_str(), g, r, eq, cm);
		return;
	}
	default: return;
	}
	settle_ta(A, a, w, nm);
}
static std::pair<StrVal,StrVal> mapfn(const StrVal& k, const StrVal& v) { return std::pair<StrVal,StrVal>(k, v + "!"); }
static void exec_map(int A, const SimOp& op, const char* nm)
{
	int a = (unsigned)op.a % NM, b = (unsigned)op.b % NM, s = (unsigned)op.c % NS;
	MM& ma = mm[A][a]; MM& mb = mm[A][b];
	MM w; US key; std::string kb;
	{ MODEL; key = keytext((unsigned)op.d % NKEYS); if (op.e & 16) key = ms[A][(unsigned)op.e % NS]; kb = enc(key); }
	StrVal k; if (op.e & 16) k = S(A, (unsigned)op.e % NS); else { HBuf h(kb, false); k = StrVal((const char*)h.p, (StrValIndex)h.n); }
	bool in; { MODEL; in = ma.count(kb) != 0; if ((int)ma.size() > MCAP && !in && (op.code == M_PUT || op.code == M_INSERT)) return; }
	switch (op.code)
	{
	case M_NEW:
		if (op.e & 1) { int n = (unsigned)op.d % 3, x = s % (NS-3), y = (unsigned)op.b % (NS-3); LIB(M(A,a) = StrMap(&S(A,x), &S(A,y), n)); { MODEL; for (int i = 0; i < n; i++) w.insert(std::make_pair(enc(ms[A][x+i]), ms[A][y+i])); } }
		else LIB(M(A,a) = StrMap());
		break;
	case M_COPY: if (op.e & 1) LIB(StrMap t(M(A,b)); M(A,a) = t); else LIB(M(A,a) = M(A,b)); RET(mb); break;
	case M_PUT:
		if (BIG && (op.e & 32) && !sim_cfg->alloc_mode)
		{
			int n = 2 + (unsigned)op.d % MCAP, x = (unsigned)op.d;
			{ MODEL; w = ma; if ((int)w.size() + n > 2*MCAP) return; }
			for (int i = 0; i < n; i++)
			{
				std::string t; { MODEL; t = enc(keytext((x + i*7) % NKEYS)); w[t] = ms[A][(s+i)%NS]; }
				HBuf h(t, false); StrVal kk((const char*)h.p, (StrValIndex)h.n); M(A,a).put(kk, S(A,(s+i)%NS));
			}
			break;
		}
		{ MODEL; if (in) sim_probe(P_PUT_EXISTING); w = ma; w[kb] = ms[A][s]; } LIB(M(A,a).put(k, S(A,s))); break;
	case M_INSERT: { MODEL; w = ma; w.insert(std::make_pair(kb, ms[A][s])); } LIB(M(A,a).insert(k, S(A,s))); break;
	case M_REMOVE: { MODEL; if (op.e & 1 && !ma.empty()) { MM::iterator it = ma.begin(); std::advance(it, (unsigned)op.c % ma.size()); kb = it->first; } w = ma; w.erase(kb); } { HBuf h(kb, false); StrVal kk((const char*)h.p, (StrValIndex)h.n); LIB(M(A,a).remove(kk)); } break;
	case M_CLEAR: LIB(M(A,a).clear()); break;
	case M_GET: { US u; { MODEL; MM::iterator it = mb.find(kb); if (it != mb.end()) u = it->second; } LIB(S(A,s) = M(A,b)[k]); settle_str(A, s, u, nm); return; }
	case M_CONTAINS:
	{
		bool g = M(A,a).contains(k); size_t n = M(A,a).size(); bool f = M(A,a).find(k) != M(A,a).end();
		MODEL; if (g != in || f != in || n != ma.size()) FAIL(C_MAPVAR, "map-result", "contains(%s) on %s gives %d, size %zu", show(kb).c_str(), showm(ma).c_str(), g, n);
		return;
	}
	case M_ITER: settle_map(A, a, ma, nm); return;
	case M_KEYS: case M_VALUES:
	{
		bool done = false;
		LIB(Array<StrVal> ks(op.code == M_KEYS ? M(A,b).keys() : M(A,b).values()); done = true;
			bool ok; { MODEL; ok = ks.length() == mb.size(); }
			for (unsigned i = 0; ok && i < ks.length(); i++) { US want; std::string kb2; { MODEL; MM::iterator it = mb.begin(); std::advance(it, i); want = it->second; kb2 = it->first; }
				if (op.code == M_KEYS) { StrValIndex l; std::string g = read_str(A, ks.asElements()[i], l); MODEL; ok = g == kb2; } else ok = same_str(A, ks.asElements()[i], want); }
			{ MODEL; if (!ok) FAIL(C_MAPVAR, "map-result", "%s of %s are wrong", nm, showm(mb).c_str()); });
		(void)done;
		return;
	}
	case M_FUNC:
	{
		int n = 0; unsigned long sum = 0; int lim = (unsigned)op.c % 5;
		bool al, an, on; long ij;
		LIB(M(A,a).each([&](const StrVal& k2, const StrVal& v) { n++; sum = sum*7 + k2.length() + 31*v.length(); });
			al = M(A,a).all([&](const StrVal&, const StrVal& v) { return (int)v.length() > lim; });
			an = M(A,a).any([&](const StrVal&, const StrVal& v) { return (int)v.length() > lim; });
			on = M(A,a).one([&](const StrVal&, const StrVal& v) { return (int)v.length() > lim; });
			ij = M(A,a).inject<long>(1, [](long& j, const StrVal& k2, const StrVal& v) { return (long)((unsigned long)j*7 + k2.length() + 31*v.length()); }));
		if (OOM) return;
		MODEL; unsigned long ms_ = 0, mj = 1; int q = 0;
		for (MM::iterator it = ma.begin(); it != ma.end(); ++it) { long kl = 0; for (size_t i = 0; i < it->first.size(); i++) kl += (it->first[i] & 0xC0) != 0x80; ms_ = ms_*7 + kl + 31*(long)it->second.size(); mj = mj*7 + kl + 31*(long)it->second.size(); q += (int)it->second.size() > lim; }
		if (n != (int)ma.size() || sum != ms_ || (unsigned long)ij != mj || al != (q == n) || an != (q > 0) || on != (q == 1)) FAIL(C_MAPVAR, "map-result", "each/all/any/one/inject on %s are wrong: %d calls, %d %d %d", showm(ma).c_str(), n, al, an, on);
		return;
	}
	case M_SELECT: LIB(M(A,a) = M(A,b).select([](const StrVal& k2, const StrVal&) { return k2.length() % 2 == 1; })); { MODEL; for (MM::iterator it = mb.begin(); it != mb.end(); ++it) { long kl = 0; for (size_t i = 0; i < it->first.size(); i++) kl += (it->first[i] & 0xC0) != 0x80; if (kl % 2) w[it->first] = it->second; } } break;
	case M_MAP: { MODEL; for (MM::iterator it = mb.begin(); it != mb.end(); ++it) { if (it->second.size() >= CAP) return; w[it->first] = cat(it->second, ascii("!")); } } LIB(M(A,a) = (M(A,b).map<StrVal,StrVal>(std::function<std::pair<StrVal,StrVal>(const StrVal&, const StrVal&)>(mapfn)))); break;
	default: return;
	}
	settle_map(A, a, w, nm);
}
static void exec_var(int A, const SimOp& op, const char* nm)
{
	int a = (unsigned)op.a % NV, b = (unsigned)op.b % NV, c = (unsigned)op.c % NV, s = (unsigned)op.c % NS;
	MV& ma = mv[A][a]; MV& mb = mv[A][b]; MV w;
	switch (op.code)
	{
	case V_SETINT:
	{
		long long x = op.d; if (op.e & 4) x = x * 1000003LL * 4099;
		if (op.e % 5 == 4)	// as text
		{
			US u; { MODEL; u = text_of(op.d | 8); if (u.size() > TCAP) return; }
			std::string t; { MODEL; t = enc(u); } HBuf h(t, false);
			LIB(V(A,a) = Variant(StrVal((const char*)h.p, (StrValIndex)h.n))); RET(mvstr(u));
			break;
		}
		switch (op.e % 3) { case 0: LIB(V(A,a) = Variant((int)op.d)); RET(mvint(Variant::Integer, op.d)); break; case 1: LIB(V(A,a) = Variant((long)x)); RET(mvint(Variant::Long, x)); break; default: LIB(V(A,a) = Variant((long long)x)); RET(mvint(Variant::LongLong, x)); break; }
		break;
	}
	case V_SETSTR: if (op.e & 1) { LIB(V(A,a) = Variant("static")); RET(mvstr(ascii("static"))); } else { LIB(V(A,a) = Variant(S(A,s))); RET(mvstr(ms[A][s])); } break;
	case V_SETARR:
		if (op.e & 1) { int n = (unsigned)op.d % 4; s %= NS-3; LIB(V(A,a) = Variant(&S(A,s), (StringArray::Index)n)); MODEL; w.t = Variant::StrArray; for (int i = 0; i < n; i++) w.sa.push_back(ms[A][s+i]); }
		else { int t = (unsigned)op.c % NT; LIB(V(A,a) = Variant(T(A,t))); MODEL; w.t = Variant::StrArray; w.sa = mt[A][t]; }
		break;
	case V_SETVARR:
		{ MODEL; w.t = Variant::VarArray; w.va.push_back(mb); w.va.push_back(mv[A][c]); if (DEEP(w)) return; sim_probe(P_NESTED); }
		if (op.e & 1) LIB(VariantArray x; x << V(A,b); x << V(A,c); V(A,a) = Variant(x));
		else { { MODEL; w.va.clear(); for (int i = 0; i < 2; i++) w.va.push_back(mv[A][b%(NV-1)+i]); if (DEEP(w)) return; } LIB(V(A,a) = Variant(&V(A,b%(NV-1)), 2)); }
		break;
	case V_SETMAP: case V_CTORMAP:
	{
		US k1, k2; std::string e1, e2; { MODEL; k1 = keytext((unsigned)op.d % NKEYS); k2 = keytext((unsigned)op.e % NKEYS); e1 = enc(k1); e2 = enc(k2); }
		int x = b % (NV-1);
		{ MODEL; w.t = Variant::StrVarMap; w.m.insert(std::make_pair(e1, mv[A][x])); if (op.code == V_CTORMAP) w.m.insert(std::make_pair(e2, mv[A][x+1])); else w.m[e2] = mv[A][x+1]; if (DEEP(w)) return; sim_probe(P_NESTED); }
		HBuf h1(e1, false), h2(e2, false);
		StrVal ks[2] = { StrVal((const char*)h1.p, (StrValIndex)h1.n), StrVal((const char*)h2.p, (StrValIndex)h2.n) };
		if (op.code == V_SETMAP) LIB(StrVariantMap m; m.put(ks[0], V(A,x)); m.put(ks[1], V(A,x+1)); V(A,a) = Variant(m));
		else if (op.c & 1) LIB(V(A,a) = Variant(ks, &V(A,x), 2)); else LIB(V(A,a) = Variant(StrVariantMap(ks, &V(A,x), 2)));
		break;
	}
	case V_SETTYPE: { int t = (unsigned)op.d % 8; LIB(V(A,a) = Variant((Variant::VariantType)t)); MODEL; w.t = t; break; }
	case V_ASSIGN: LIB(V(A,a) = V(A,b)); RET(mb); break;
	case V_COPY: LIB(Variant t(V(A,b)); V(A,a) = t); RET(mb); break;
	case V_CLEAR: LIB(V(A,a) = Variant()); break;
	case V_TOINT:
	{
		int t = Variant::Integer + (unsigned)op.d % 3; long long v = 0; bool can = true;
		{
			MODEL;
			if (ma.t >= Variant::Integer && ma.t <= Variant::LongLong) v = ma.i;
			else if (ma.t == Variant::String) { int err, sc; mint32(ma.s, 0, err, v, sc); if (err) can = false; }
			else can = false;
			if (t == Variant::Integer && v != (int)v) can = false;
			w = mvint(t, v); if (can && ma.t != t) sim_probe(P_COERCE);
		}
		if (!can)	// must be refused (here: an assertion, which ends the run); another value is never given instead
		{
			if (op.e % 23 || nactors > 1) return;
			{ MODEL; sim_probe(P_REFUSED); sim_expect_assert(1); }
			long long g = t == Variant::Integer ? V(A,a).as_int() : t == Variant::Long ? V(A,a).as_long() : V(A,a).as_longlong();
			MODEL; sim_expect_assert(0);
			FAIL(C_MAPVAR, "var-coerce", "%s has no equal of type %d, but converting it gives %lld", showv(ma).c_str(), t, g);
		}
		long long g = v;
		if (t == Variant::Integer) LIB(g = V(A,a).as_int()); else if (t == Variant::Long) LIB(g = V(A,a).as_long()); else LIB(g = V(A,a).as_longlong());
		if (!OOM) { MODEL; if (g != v) FAIL(C_MAPVAR, "var-coerce", "%s converted to type %d gives %lld", showv(ma).c_str(), t, g); }
		break;
	}
	case V_TOSTR:
	{
		{ MODEL; if (ma.t == Variant::None || ma.t > Variant::String) return; w = ma.t == Variant::String ? ma : mvstr(ascii(std::to_string(ma.i).c_str())); if (ma.t != w.t) sim_probe(P_COERCE); }
		StrVal g; LIB(g = V(A,a).as_strval());
		bool o = OOM, ok = o || same_str(A, g, w.s); { MODEL; if (!ok) FAIL(C_MAPVAR, "var-coerce", "%s converted to a string gives another text", showv(ma).c_str()); }
		break;
	}
	case V_GETSTR: { US u; { MODEL; if (mb.t != Variant::String) return; u = mb.s; } const Variant& v = V(A,b); LIB(S(A,s) = v.as_strval()); settle_str(A, s, u, nm); return; }
	case V_GETARR: { std::vector<US> u; int t = (unsigned)op.c % NT; { MODEL; if (mb.t != Variant::StrArray) return; u = mb.sa; } const Variant& v = V(A,b); if (op.e & 1) LIB(T(A,t) = v.as_string_array()); else LIB(T(A,t) = V(A,b).as_string_array()); settle_ta(A, t, u, nm); return; }
	case V_PUSH:
		{ MODEL; if (mb.t != Variant::VarArray) return; w = mb; w.va.push_back(mv[A][c]); if (DEEP(w)) return; }
		LIB(VariantArray x(V(A,b).as_variant_array()); x.push(V(A,c)); V(A,a) = Variant(x));
		break;
	case V_MAPPUT:
	{
		US k; std::string e; { MODEL; if (mb.t != Variant::StrVarMap) return; k = keytext((unsigned)op.d % NKEYS); e = enc(k); w = mb; if (op.e & 1) w.m.erase(e); else w.m[e] = mv[A][c]; if (DEEP(w)) return; }
		HBuf h(e, false); StrVal ks((const char*)h.p, (StrValIndex)h.n);
		LIB(StrVariantMap x(V(A,b).as_variant_map()); if (op.e & 1) x.remove(ks); else x.put(ks, V(A,c)); V(A,a) = Variant(x));
		break;
	}
	case V_SHL:
		{ MODEL; w.t = Variant::VarArray; w.va.push_back(mb); w.va.push_back(mv[A][c]); if (DEEP(w)) return; sim_probe(P_NESTED); }
		LIB(V(A,a) = Variant(V(A,b) << V(A,c))); break;
	case V_JSON:
	{
		int indent = (int)((unsigned)op.d % 5) - 2; US u; { MODEL; u = mvjson(mb, indent); if (u.size() > CAP) return; }
		int cls = which_mask();
		if (!(cls & (C_RSTR|C_OOM|C_LEAK|C_JSON))) return;
		LIB(S(A,s) = V(A,b).as_json(indent)); if (!OOM && cls & C_JSON) { check_json(A, S(A,s), mb, u, indent); if (!same_var(A, V(A,b), mb)) { MODEL; FAIL(C_JSON, "json-changed", "rendering %s changed it", showv(mb).c_str()); } } settle_str(A, s, u, nm); return;
	}
	default: return;
	}
	settle_var(A, a, w, nm);
}
static int dummy_parm[4];
static void exec_err(int A, const SimOp& op, const char* nm)
{
	int a = (unsigned)op.a % NE, b = (unsigned)op.b % NE;
	static const char* const TX[] = { 0, "no such file", "bad thing: %d", "" };
	switch (op.code)
	{
	case E_NEW:
	{
		uint64_t h = (uint64_t)(unsigned)op.c * 0x9E3779B97F4A7C15ull ^ (unsigned)op.c; h ^= h >> 31;
		int32_t n = (int32_t)(op.d & 8 ? h >> 8 : (uint64_t)(op.c & 0x7F)); if (op.e & 1) n = 0; const char* t = TX[op.d & 3]; const void* p = op.d & 4 ? &dummy_parm[op.d & 3] : 0;
		int set = (int)(op.d & 8 ? h >> 20 & 0xFFFF : op.c >> 8 & 7), msg = (int)(op.d & 16 ? h >> 40 & 0x3FFF : op.c & 0x3F); if (op.e & 1) { if (op.d & 8) set = 0xFFFF; if (op.d & 16) msg = 0x3FFF; }
		LIB(Er(A,a) = op.e & 2 ? Error(ErrNum(set, msg), t, p) : Error(n, t, p));
		if (OOM) break;
		MODEL; me[A][a].set = true; me[A][a].text = t; me[A][a].parm = p;
		me[A][a].num = op.e & 2 ? (int)(0xC0000000u | (unsigned)set << 14 | (unsigned)msg) : n ? (int)((unsigned)n | 0xC0000000u) : 0;
		break;
	}
	case E_COPY: { ME m; { MODEL; m = me[A][b]; } LIB(Error t(Er(A,b)); Er(A,a) = t); MODEL; me[A][a] = m; break; }
	case E_ASSIGN: { ME m; { MODEL; m = me[A][b]; } LIB(Er(A,a) = Er(A,b)); MODEL; me[A][a] = m; break; }
	case E_CLEAR: { LIB(Er(A,a) = Error()); MODEL; ME z = { false, 0, 0, 0 }; me[A][a] = z; break; }
	case E_CHECK:
	{
		ErrNum x = Er(A,a), y = Er(A,b); bool eq = x == y, ne = x != y; int n = (int32_t)x; bool e2 = x == n;
		{
			int k = op.c & 1 ? (int32_t)y : n + (op.c >> 1) % 3 - 1; if ((op.c >> 1) % 3 != 1 && ((op.c & 1) == 0) && (n == INT32_MIN || n == INT32_MAX)) k = n; bool lt = x < k, gt = x > k; int set = x.set(), msg = x.msg(); ErrNum z(x), w; w = y;
			bool cp = z == x && w == y && !(z != x); int fresh = (int32_t)ErrNum(set, msg), d = (int32_t)ErrNum(); MODEL; int m = me[A][a].num;
			if (lt != (m < k) || gt != (m > k)) FAIL(C_ERR, "err-compare", "number %x compared with %x: less %d, greater %d", m, k, lt, gt);
			if (set != (m >> 14 & 0xFFFF) || msg != (m & 0x3FFF)) FAIL(C_ERR, "err-value", "number %x reads as message %d of set %d", m, msg, set);
			if (m && (fresh != m || m > 0)) FAIL(C_ERR, "err-value", "message %d of set %d has the number %x, not %x", msg, set, fresh, m);
			if (!cp || d != 0) FAIL(C_ERR, "err-value", "a copy of the number %x differs, or no error is %x", m, d);
		}
		MODEL; if (eq != (me[A][a].num == me[A][b].num) || ne == eq || !e2) FAIL(C_ERR, "err-compare", "comparing the numbers %x and %x gives ==%d !=%d", me[A][a].num, me[A][b].num, eq, ne);
		break;
	}
	}
	check_err(A, a, nm);
}
static void exec_box(int A, const SimOp& op)
{
	int k = (unsigned)op.c % NBOX; bool send = op.code == SEND;
	sim_lock(k);
	{ MODEL; sim_probe(P_HANDOVER); }
#define XFER(P, BP, mdl, xm, N) { int i = (unsigned)op.b % N; if (send) { LIB(BP(k,0) = P(A,i)); if (!OOM) { MODEL; xm[k] = mdl[A][i]; } } else { LIB(P(A,i) = BP(k,0)); if (!OOM) { MODEL; mdl[A][i] = xm[k]; } } }
	switch ((unsigned)op.a % 6)
	{
	case 0: XFER(S, bS, ms, xs, NS) break;
	case 1: XFER(I, bI, mi, xi, NI) break;
	case 2: XFER(T, bT, mt, xt, NT) break;
	case 3: XFER(M, bM, mm, xm, NM) break;
	case 4: XFER(V, bV, mv, xv, NV) break;
	default: XFER(Er, bE, me, xe, NE) break;
	}
	sim_unlock(k);
	if (!send) switch ((unsigned)op.a % 6)
	{
	case 0: settle_str(A, (unsigned)op.b % NS, ms[A][(unsigned)op.b % NS], "receive"); break;
	case 1: settle_ia(A, (unsigned)op.b % NI, mi[A][(unsigned)op.b % NI], "receive"); break;
	case 2: settle_ta(A, (unsigned)op.b % NT, mt[A][(unsigned)op.b % NT], "receive"); break;
	case 3: settle_map(A, (unsigned)op.b % NM, mm[A][(unsigned)op.b % NM], "receive"); break;
	case 4: settle_var(A, (unsigned)op.b % NV, mv[A][(unsigned)op.b % NV], "receive"); break;
	default: check_err(A, (unsigned)op.b % NE, "receive"); break;
	}
}
// what kind of handle is being changed (for the evidence only)
static uint8_t kind_s[MAXA][NS], kind_i[MAXA][NI];	// 1 a part of another, 2 a copy, 4 over borrowed text
static void note_kind(int A, const SimOp& op)
{
	int a = (unsigned)op.a % NS, b = (unsigned)op.b % NS;
	if (op.code >= A_NEW && op.code < A_LAST)
	{
		a = (unsigned)op.a % NI; b = (unsigned)op.b % NI; uint8_t& k = kind_i[A][a];
		if (op.code >= A_APPEND && op.code <= A_DELETEIF) { if (k & 1) sim_probe(P_SLICE_MUT); if (k & 2) sim_probe(P_SHARED_MUT); k &= ~2; }
		else if (op.code >= A_SLICE && op.code <= A_DROP) { k = 3; kind_i[A][b] |= 2; } else if (op.code == A_COPY || op.code == A_ASSIGN) { k = kind_i[A][b] |= 2; } else if (op.code < A_READ) k = 0;
		return;
	}
	if (op.code >= M_NEW && op.code < M_LAST) { if (op.code == M_COPY) kind_s[A][0] |= 8; if (op.code >= M_PUT && op.code <= M_REMOVE && (kind_s[A][0] & 8)) sim_probe(P_SHARED_MUT); return; }
	if (op.code >= S_LAST) return;
	uint8_t& k = kind_s[A][a];
	if ((op.code >= S_APPEND && op.code <= S_SELF) || op.code == S_LOWER || op.code == S_UPPER || op.code == S_JSON || op.code == S_TRANSFORM)
	{
		if (k & 1) sim_probe(P_SLICE_MUT); if (k & 2) sim_probe(P_SHARED_MUT); if (k & 4) sim_probe(P_BORROW_MUT); if (ms[A][a].empty()) sim_probe(P_EMPTY_MUT);
		if (op.code == S_LOWER || op.code == S_UPPER) { US w = mapcase(ms[A][a], op.code == S_LOWER ? lowerOf : upperOf); if (enc(w).size() != enc(ms[A][a]).size()) sim_probe(P_CASE_LEN); }
		k &= ~6;
	}
	else if (op.code >= S_SUBSTR && op.code <= S_SHORTER) { k = 3 | (kind_s[A][b] & 4); kind_s[A][b] |= 2; }
	else if (op.code == S_COPY || op.code == S_ASSIGN) { kind_s[A][b] |= 2; k = kind_s[A][b]; }
	else if (op.code == S_BORROW) k = op.d & 1 ? 0 : 4;
	else if (op.code < S_WALK && op.code != S_MARK) k = 0;
	const US& u = ms[A][a]; bool wide = false, nul = false; for (size_t i = 0; i < u.size(); i++) { wide |= u[i] > 127; nul |= !u[i]; }
	if (wide) sim_probe(P_WIDE); if (nul) sim_probe(P_NUL);
}
// Arrays and strings whose index has 16 bits, up to the most it can count
static const int NARROW_LEN[] = { 30, 500, 43670, 43690, 65400, 65500, 65515, 65522, 65526 };
static void exec_narrow_arr(const SimOp& op)
{
	typedef Array<short, uint16_t> Narrow;
	int n = NARROW_LEN[(unsigned)op.b % 9] + (unsigned)op.c % 8, more = (unsigned)op.d % 50; if (n + more > 65535) more = 65535 - n;
	std::vector<short>* m; short* src = new short[n];
	{ MODEL; m = new std::vector<short>; for (int i = 0; i < n; i++) { src[i] = (short)(i * 7 + op.c); m->push_back(src[i]); } sim_probe(P_NARROW); }
	Narrow a(src, n), was; delete[] src;
	for (int i = 0; i < more && a.length() < 65535; i++)
	{
		short x = (short)(op.e + i); int p = (unsigned)(op.e + i * 77) % a.length();
		switch ((op.e + i * 3) % 11)
		{
		case 0: was = a; a.push(x); { MODEL; m->push_back(x); } break;
		case 1: a.insert(p, Narrow(x)); { MODEL; m->insert(m->begin() + p, x); } break;
		case 2: a.unshift(x); { MODEL; m->insert(m->begin(), x); } break;
		case 3: if (a.length() > 5) { a.remove(p, p + 1 < a.length() ? 1 : -1); MODEL; m->erase(m->begin() + p); } break;
		case 4: a.set(p, x); { MODEL; (*m)[p] = x; } break;
		case 5: was = a.slice(p/2); if (was.length() && a.length() <= 65532) { a.append(was.head(was.length() < 3 ? was.length() : 3)); MODEL; std::vector<short> t(m->begin() + p/2, m->begin() + p/2 + (was.length() < 3 ? was.length() : 3)); m->insert(m->end(), t.begin(), t.end()); } break;
		default: if (a.length() < 65535) { a << x; MODEL; m->push_back(x); } break;
		}
	}
	{
		MODEL; int l = (int)a.length();
		if (l != (int)m->size()) FAIL(C_RARR|C_LEAK, "arr-result", "an array with a 16-bit index has %d elements, not %d", l, (int)m->size());
		if (l && (!sim_check_range(a.asElements(), l * sizeof(short)) || memcmp(a.asElements(), m->data(), l * sizeof(short)))) FAIL(C_RARR|C_LEAK, "arr-result", "an array of %d elements with a 16-bit index has other elements than it should", l);
		delete m;
	}
}
static void exec_narrow_str(const SimOp& op)
{
	typedef StrValI<uint16_t> Narrow;
	int n = NARROW_LEN[(unsigned)op.b % 9] + (unsigned)op.c % 8, more = (unsigned)op.d % 50, units = 0;
	std::string* m; char* src = new char[n]; int kind = op.e % 3;
	{ MODEL; m = new std::string; for (int i = 0; i < n; i++) { unsigned char c = kind == 0 ? 'a' + i % 26 : kind == 1 ? (i & 1 ? 0xA9 : 0xC3) : "x\xC3\xA9"[i % 3]; src[i] = c; *m += c; } sim_probe(P_NARROW); while (kind && n && ((unsigned char)(*m)[n-1] & 0xC0) == 0xC0) { n--; m->resize(n); } }
	Narrow a(src, n), was; delete[] src;
	for (int i = 0; i < more && (int)m->size() < 65530; i++)
		switch ((op.e + i * 3) % 6)
		{
		case 0: was = a; a += UCS4('q'); { MODEL; *m += 'q'; } break;
		case 1: a += UCS4(0x20AC); { MODEL; *m += "\xE2\x82\xAC"; } break;
		case 2: was = a.substr(a.length()/2); a.prepend(Narrow("zz")); { MODEL; m->insert(0, "zz"); } break;
		case 3: was = a.tail(1); a.append(was); { MODEL; size_t k = m->size() - 1; while (k && ((unsigned char)(*m)[k] & 0xC0) == 0x80) k--; *m += m->substr(k); } break;
		case 4: if (a.length() > 1) { a = a.substr(1); MODEL; size_t k = 1; while (k < m->size() && ((unsigned char)(*m)[k] & 0xC0) == 0x80) k++; m->erase(0, k); } break;
		default: was = a + Narrow("k"); a = was; { MODEL; *m += 'k'; } break;
		}
	uint16_t nb; const char* p = ((const Narrow&)a).asUTF8(nb); int l = a.length(); const char* z = op.d & 1 ? a.asUTF8() : 0;
	{
		MODEL; for (size_t k = 0; k < m->size(); k++) units += ((unsigned char)(*m)[k] & 0xC0) != 0x80;
		if (!z) { if (nb != m->size() || l != units || !sim_check_range(p, nb) || memcmp(p, m->data(), nb)) FAIL(C_RSTR|C_LEAK, "str-text", "a string of %d bytes with a 16-bit index reads as %d characters in %d bytes, or other ones", (int)m->size(), l, (int)nb); }
		else if (!sim_check_range(z, m->size() + 1) || memcmp(z, m->c_str(), m->size() + 1)) FAIL(C_RSTR|C_LEAK, "str-text", "asUTF8() of a string of %d bytes with a 16-bit index gives other ones", (int)m->size());
		delete m;
	}
}
static void exec(int A, const SimOp& op)
{
	const char* nm; { MODEL; note_kind(A, op); nm = opname(op.code); g_fast[A] = !(op.f & 2); lib_oom[A] = false; }
	if (op.code < S_LAST) exec_str(A, op, nm);
	else if (op.code < A_LAST) exec_arr(A, op, nm);
	else if (op.code < T_LAST) exec_sarr(A, op, nm);
	else if (op.code < M_LAST) exec_map(A, op, nm);
	else if (op.code < V_LAST) exec_var(A, op, nm);
	else if (op.code < E_LAST) exec_err(A, op, nm);
	else if (op.code == SEND || op.code == RECV) exec_box(A, op);
	else if (op.code == NARROW_ARR) exec_narrow_arr(op);
	else if (op.code == NARROW_STR) exec_narrow_str(op);
	else sim_stall(1 + (op.b & 7));
	if (op.f & 1) { { MODEL; g_fast[A] = true; } check_all(A, nm); check_null(); check_borrowed(); }
}

// ------------------------------------------------------------ a case
static void make_actor(int A)
{
	for (int i = 0; i < NS; i++) new (&S(A,i)) StrVal(); for (int i = 0; i < NI; i++) new (&I(A,i)) IntArray(); for (int i = 0; i < NT; i++) new (&T(A,i)) StringArray();
	for (int i = 0; i < NM; i++) new (&M(A,i)) StrMap(); for (int i = 0; i < NV; i++) new (&V(A,i)) Variant(); for (int i = 0; i < NE; i++) new (&Er(A,i)) Error();
}
static void drop_actor(int A)
{
	for (int i = 0; i < NS; i++) S(A,i).~StrVal(); for (int i = 0; i < NI; i++) I(A,i).~IntArray(); for (int i = 0; i < NT; i++) T(A,i).~StringArray();
	for (int i = 0; i < NM; i++) M(A,i).~StrMap(); for (int i = 0; i < NV; i++) V(A,i).~Variant(); for (int i = 0; i < NE; i++) Er(A,i).~Error();
}
static void value_actor(void* p)
{
	int A = (int)(intptr_t)p;
	h_run_ops(A);
	{ MODEL; g_fast[A] = true; lib_oom[A] = false; }
	check_all(A, "all operations of this thread");
	// every handle remains usable
	if (sim_cfg->alloc_mode)
	{
		for (int i = 0; i < NS; i++) { S(A,i) += (UCS4)'+'; { MODEL; ms[A][i].push_back('+'); } settle_str(A, i, ms[A][i], "a further append"); }
		for (int i = 0; i < NI; i++) { I(A,i).push(5); { MODEL; mi[A][i].push_back(5); } settle_ia(A, i, mi[A][i], "a further push"); }
		for (int i = 0; i < NM; i++) { M(A,i).put("key", "v"); { MODEL; mm[A][i]["key"] = ascii("v"); } settle_map(A, i, mm[A][i], "a further put"); }
	}
	if (!(sim_cfg->user[1] & 1)) drop_actor(A);
}
static void body_values()
{
	{
		MODEL;
		for (int i = 0; i < NALPHA; i++) { (void)UCS4ToLower('A'); lowerOf[ALPHA[i]] = UCS4ToLower(ALPHA[i]); (void)UCS4ToUpper('a'); upperOf[ALPHA[i]] = UCS4ToUpper(ALPHA[i]); }
		for (uint32_t c = 1; c < 128; c++) { lowerOf[c] = c >= 'A' && c <= 'Z' ? c+32 : c; upperOf[c] = c >= 'a' && c <= 'z' ? c-32 : c; }
		for (int k = 0; k < 2; k++) { std::vector<uint32_t> q; for (std::map<uint32_t,uint32_t>::iterator it = lowerOf.begin(); it != lowerOf.end(); ++it) q.push_back(it->second); for (std::map<uint32_t,uint32_t>::iterator it = upperOf.begin(); it != upperOf.end(); ++it) q.push_back(it->second);
			for (size_t i = 0; i < q.size(); i++) { uint32_t c = q[i]; if (lowerOf.count(c) && upperOf.count(c)) continue; (void)UCS4ToLower('A'); lowerOf[c] = UCS4ToLower(c); (void)UCS4ToUpper('a'); upperOf[c] = UCS4ToUpper(c); } }
		for (int k = 0; k < NB; k++)
		{
			bor_model[k] = k == 0 ? ascii("Static text") : mktext(k % 4, 3 + k*2, 77 + k);
			std::string t = enc(bor_model[k]); bor_len[k] = (int)t.size();
			memset(bor_text[k], '#', sizeof(bor_text[k])); memcpy(bor_text[k], t.data(), t.size()); if (k & 1) bor_text[k][t.size()] = 0;
			memcpy(bor_copy[k], bor_text[k], sizeof(bor_text[k]));
		}
		for (int i = 0; i < 8; i++) bor_int[i] = bor_int_copy[i] = 3*i;
		nactors = sim_cfg->user[0];
	}
	base_live = sim_live_blocks();
	for (int k = 0; k < NB; k++) new (bor_raw[k]) StrBody(bor_text[k], StrStatic, (StrValIndex)bor_len[k]);
	new (bor_iraw) IntBody(bor_int, false, 8);
	new (&bS(0,0)) StrVal("First shared"); new (&bS(1,0)) StrVal("Second \xC3\xA9\xE2\x82\xAC shared text");
	for (int k = 0; k < NBOX; k++) { new (&bI(k,0)) IntArray(bor_int, 4+k); new (&bT(k,0)) StringArray(); bT(k,0) << bS(k,0); bT(k,0) << bS(k,0).substr(2, 5); new (&bM(k,0)) StrMap(); bM(k,0).put("one", bS(k,0)); bM(k,0).put("two", bS(k,0).head(4)); new (&bV(k,0)) Variant(k ? Variant(bT(k,0)) : Variant(bS(k,0))); new (&bE(k,0)) Error(ErrNum(3, 4+k), "shared error"); }
	{
		MODEL;
		xs[0] = ascii("First shared"); xs[1] = ascii("Second "); xs[1].push_back(0xE9); xs[1].push_back(0x20AC); xs[1] = join_ascii(xs[1], " shared text");
		for (int k = 0; k < NBOX; k++) { xi[k] = std::vector<int>(bor_int_copy, bor_int_copy+4+k); xt[k].push_back(xs[k]); xt[k].push_back(sub(xs[k], 2, 5)); xm[k]["one"] = xs[k]; xm[k]["two"] = sub(xs[k], 0, 4); if (k) { xv[k].t = Variant::StrArray; xv[k].sa = xt[k]; } else xv[k] = mvstr(xs[k]); ME e = { true, (int)(0xC0000000u|(3<<14)|(4+k)), "shared error", 0 }; xe[k] = e; }
	}
	for (int A = 0; A < nactors; A++)
	{
		make_actor(A);
		// the threads start with handles that share content
		for (int i = 0; i < NS; i += 2) { S(A,i) = i & 2 ? bS(1,0) : bS(0,0).substr(2, 7); MODEL; ms[A][i] = i & 2 ? xs[1] : sub(xs[0], 2, 7); }
		I(A,0) = bI(0,0); I(A,1) = bI(1,0).slice(1, 3); T(A,0) = bT(0,0); M(A,0) = bM(0,0); V(A,0) = bV(0,0); V(A,1) = bV(1,0); Er(A,0) = bE(0,0);
		MODEL; mi[A][0] = xi[0]; mi[A][1] = subv(xi[1], 1, 3); mt[A][0] = xt[0]; mm[A][0] = xm[0]; mv[A][0] = xv[0]; mv[A][1] = xv[1]; me[A][0] = xe[0];
	}
	int id[MAXA]; h_exec = exec;
	for (int A = 1; A < nactors; A++) id[A] = sim_spawn(value_actor, (void*)(intptr_t)A);
	value_actor(0);
	for (int A = 1; A < nactors; A++) sim_join(id[A]);
	if (sim_cfg->user[1] & 1) for (int A = 0; A < nactors; A++) drop_actor(A);
	for (int k = 0; k < NBOX; k++) { bS(k,0).~StrVal(); bI(k,0).~IntArray(); bT(k,0).~StringArray(); bM(k,0).~StrMap(); bV(k,0).~Variant(); bE(k,0).~Error(); }
	check_null(); check_borrowed();
	for (int k = 0; k < NB; k++) { int n = bor(k).GetRefCount(); if (n != 1) { MODEL; FAIL(C_BORROW|C_LEAK, "kept", "after every string was dropped, %d references to the caller's body %d remain", n-1, k); } }
	{ int n = ((IntBody*)bor_iraw)->GetRefCount(); if (n != 1) { MODEL; FAIL(C_BORROW|C_LEAK, "kept", "after every array was dropped, %d references to the caller's array body remain", n-1); } }
	if (sim_live_blocks() != base_live) { char b[300]; sim_describe_live(b, sizeof(b)); FAIL(C_LEAK, "leak", "after every handle was dropped: %s", b); }
}

// ------------------------------------------------------------ generators
struct Mix { int lo, hi, w; };
static int pick_op(Rng& r, const Mix* m, int n) { int t = 0; for (int i = 0; i < n; i++) t += m[i].w; int x = r.below(t); for (int i = 0; i < n; i++) { if (x < m[i].w) return r.range(m[i].lo, m[i].hi); x -= m[i].w; } return m[0].lo; }
static int gen_text(Rng& r, int maxlen) { int kind = r.below(4) | (r.pct(6) ? 4 : 0); if (r.pct(12)) kind |= 8; int len = r.pct(70) ? r.below(12) : r.below(maxlen); return kind | len << 4 | r.below(100000) << 11; }
static void gen_values(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops, int which)
{
	int single = which == 12 ? 40 : which == 6 || which == 7 ? 75 : which == 8 ? 50 : which == 10 || which == 4 ? 30 : which == 5 ? 0 : 15;
	int n = r.pct(single) ? 1 : 2 + r.below(MAXA-1);
	c.user[0] = n; c.user[7] = which; c.user[1] = r.below(2);
	sim_gen_sched(r, c, n); sim_gen_heap(r, c);
	c.race = which == 5 ? RACE_ALL : RACE_OFF;
	c.step_budget = 3000;
	if (which == 8)
	{
		c.alloc_mode = 1 + r.below(4);
		c.alloc_n = c.alloc_mode == 2 ? r.range(2, 60) : r.range(1, 120);
	}
	static const Mix STR[] = { {S_NEW,S_NEW,8}, {S_CTOR,S_ASSIGN,8}, {S_SUBSTR,S_SHORTER,16}, {S_CAT,S_APPENDCH,14}, {S_INSERT,S_SELF,14}, {S_REPEAT,S_REPEAT,2}, {S_LOWER,S_TRANSFORM,10}, {S_CLEAR,S_CLEAR,1}, {S_BORROW,S_BORROW,3}, {S_MARK,S_MARK,5}, {S_FORMAT,S_FORMAT,1}, {S_WALK,S_INT,20} };
	static const Mix ARR[] = { {A_NEW,A_NEW,6}, {A_COPY,A_ASSIGN,6}, {A_SLICE,A_DROP,16}, {A_CAT,A_UNSHIFT,24}, {A_PULL,A_MAP,26}, {A_CLEAR,A_CLEAR,1}, {A_BORROW,A_BORROW,2}, {A_READ,A_INJECT,16} };
	static const Mix SAR[] = { {T_NEW,T_COPY,8}, {T_SLICE,T_UNSHIFT,18}, {T_PULL,T_SELECT,14}, {T_CLEAR,T_CLEAR,1}, {T_GET,T_JOIN,10} };
	static const Mix MAP[] = { {M_NEW,M_COPY,8}, {M_PUT,M_REMOVE,18}, {M_CLEAR,M_CLEAR,1}, {M_GET,M_MAP,12} };
	static const Mix VAR[] = { {V_SETINT,V_SETTYPE,14}, {V_ASSIGN,V_COPY,8}, {V_TOINT,V_SHL,16}, {V_JSON,V_JSON,2}, {V_CLEAR,V_CLEAR,1}, {V_CTORMAP,V_CTORMAP,2} };
	static const Mix ERR[] = { {E_NEW,E_NEW,4}, {E_COPY,E_ASSIGN,6}, {E_CLEAR,E_CLEAR,2}, {E_CHECK,E_CHECK,3} };
	// weights of: strings, int arrays, string arrays, maps, variants, errors, boxes, pauses
	static const int W[13][8] = { {0}, {70,0,14,2,2,0,10,2}, {2,60,26,0,0,0,10,2}, {8,0,4,34,40,0,12,2}, {26,22,16,14,14,4,8,2}, {26,20,16,14,14,4,10,2}, {92,0,6,0,0,0,1,1}, {2,76,22,0,0,0,0,0}, {34,22,16,14,16,2,2,1}, {0}, {76,10,6,3,3,0,4,1}, {0,0,0,0,0,70,28,4}, {24,0,14,4,48,0,8,2} };
	int wt[8]; for (int i = 0; i < 8; i++) { wt[i] = W[which][i]; if (n == 1 && i == 6) wt[i] = 0; if (r.pct(10)) wt[i] *= 3; }
	int sum = 0; for (int i = 0; i < 8; i++) sum += wt[i];
	int maxlen = r.pct(15) ? 60 : 24;
	int len = which == 6 || which == 7 ? r.range(5, thorough ? 140 : 70) : r.range(3, thorough ? 50 : 26);
	int focus = r.pct(40) ? r.range(2, 3) : 100;	// few handles: more interplay
	int checks = r.below(4);
	static const int SIZES[] = { 200, 300, 520, 1100, 2600 };
	if (r.pct(7) && which != 5) { c.user[5] = SIZES[r.below(5)]; c.step_budget = 100000; maxlen = 120; if (len > 30) len = 30; }
	int span = c.user[5] ? 100000 : 1000;
	if ((which == 4 || which == 6 || which == 7) && r.pct(2)) { c.step_budget = 100000; ops.push_back(mkop(0, which == 6 || (which == 4 && r.pct(50)) ? NARROW_STR : NARROW_ARR, 0, r.below(1000), r.below(1000), r.below(1000), r.below(1000))); }
	for (int A = 0; A < n; A++)
	{
		int k = n > 1 ? 1 + r.below(len) : len;
		for (int i = 0; i < k; i++)
		{
			int x = r.below(sum), g = 0; while (x >= wt[g]) x -= wt[g++];
			SimOp o = mkop(A, PAUSE, r.below(focus < 100 ? focus : 97), r.below(focus < 100 ? focus : 97), r.below(span), r.below(span), r.below(1000), 0);
			switch (g)
			{
			case 0: o.code = pick_op(r, STR, sizeof(STR)/sizeof(*STR)); if (which == 12 && r.pct(15)) o.code = S_JSON; if (which == 10 && r.pct(18)) o.code = r.pct(70) ? S_BORROW : S_CLEAR; if (o.code == S_NEW || o.code == S_BORROW) o.e = gen_text(r, maxlen); if (o.code == S_BORROW) o.b = r.below(NB); if (o.code == S_FORMAT) o.d = r.pct(70) ? r.below(100) : -r.below(1000000000); break;
			case 1: o.code = pick_op(r, ARR, sizeof(ARR)/sizeof(*ARR)); if (which == 10 && r.pct(15)) o.code = A_BORROW; break;
			case 2: o.code = pick_op(r, SAR, sizeof(SAR)/sizeof(*SAR)); break;
			case 3: o.code = pick_op(r, MAP, sizeof(MAP)/sizeof(*MAP)); break;
			case 4: o.code = pick_op(r, VAR, sizeof(VAR)/sizeof(*VAR)); if (which == 12 && r.pct(35)) o.code = V_JSON; if (o.code == V_SETINT) { o.d = r.pct(50) ? r.below(100) - 50 : (int)r.next(); } break;
			case 5: o.code = pick_op(r, ERR, sizeof(ERR)/sizeof(*ERR)); break;
			case 6: o.code = r.pct(50) ? SEND : RECV; o.a = which == 1 ? 0 : which == 2 ? 1 + r.below(2) : which == 3 ? 3 + r.below(2) : which == 11 ? 5 : which == 12 ? (r.pct(50) ? 4 : r.pct(50) ? 0 : 2) : r.below(6); break;
			default: o.code = PAUSE; break;
			}
			// how the results are read back: only the target, or everything; as the model does or as a program would
			o.f = (which == 5 ? 2 : checks >= 2 && r.pct(20) ? 2 : 0) | (which == 5 ? r.pct(3) : checks == 0 ? 1 : checks == 1 ? r.pct(30) : checks == 2 ? r.pct(8) : 0);
			ops.push_back(o);
		}
	}
}
#define GEN(N) static void gen_v##N(Rng& r, int th, SimConfig& c, std::vector<SimOp>& ops) { gen_values(r, th, c, ops, N); }
GEN(1) GEN(2) GEN(3) GEN(4) GEN(5) GEN(6) GEN(7) GEN(8) GEN(10) GEN(11) GEN(12)
const SimProp sim_props[] = {
	{ "V01", gen_v1, body_values, opname, probes }, { "V02", gen_v2, body_values, opname, probes }, { "V03", gen_v3, body_values, opname, probes },
	{ "V04", gen_v4, body_values, opname, probes }, { "V05", gen_v5, body_values, opname, probes }, { "V06", gen_v6, body_values, opname, probes },
	{ "V07", gen_v7, body_values, opname, probes }, { "V08", gen_v8, body_values, opname, probes }, { "V10", gen_v10, body_values, opname, probes },
	{ "V12", gen_v12, body_values, opname, probes }, { "E01", gen_v11, body_values, opname, probes },
	{ 0, 0, 0, 0, 0 }
};
