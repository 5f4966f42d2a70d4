// V09: damaged UTF-8 is one sequence of characters, however it is read. C01: character functions called from several threads.
#include "harness.h"
#include <strval.h>
#include <char_ptr.h>
#include <utf8_ptr.h>
#include <vector>
#include <algorithm>
#include <string>
#include <new>
#include "unicode_ref.h"

#define MAXA 4
#define NH 5
#define NB 4

enum { U_NEW, U_NEWLEN, U_BORROW, U_COPY, U_ASSIGN, U_SUBSTR, U_TAIL, U_CAT, U_APPEND, U_APPENDCH, U_INSERT, U_PREPEND, U_INSCH, U_SELF, U_REPEAT, U_LOWER, U_UPPER, U_XFORM, U_ASUTF8,
	U_WALK, U_INDEX, U_ITER, U_SPLIT, U_REJOIN, U_FIND, U_RFIND, U_FINDCH, U_RFINDCH, U_SET, U_RSET, U_CMP, U_PTR, U_LAST,
	C_CALL = 60, C_SCAN, C_UTF16, C_ZERO, Q_NEW = 70, Q_INC, Q_DEC, Q_ADDEQ, Q_SUBEQ, Q_ADD, Q_SUB, Q_COPY, Q_ASSIGN, Q_READ, Q_LAST };
static const char* opname(int c)
{
	static const char* const n[] = { "new", "new_length", "borrow", "copy", "assign", "substr", "tail", "cat", "append", "append_char", "insert", "prepend", "insert_char", "self_insert", "repeat", "toLower", "toUpper", "transform", "asUTF8",
		"walk", "index", "iterate", "split", "rejoin", "find", "rfind", "find_char", "rfind_char", "find_set", "rfind_set", "compare", "pointer" };
	static const char* const q[] = { "point_at", "step", "step_back", "move_by", "move_back_by", "add", "subtract", "copy_pointer", "assign_pointer", "read" };
	if (c >= Q_NEW && c < Q_LAST) return q[c-Q_NEW];
	return c == C_CALL ? "call" : c == C_SCAN ? "look_up" : c == C_UTF16 ? "utf16" : c == C_ZERO ? "padded_zero" : c < 0 ? "dropped" : c < U_LAST ? n[c] : "?";
}
enum { P_ILLEGAL, P_JOIN, P_CUT, P_BACK, P_OVERLONG, P_LONG, P_FOUND, P_HIST, P_DIGIT, P_CASE, P_ATEND, P_ATBOT, P_FARPAST, P_DAMAGED, P_MULTI, P_REF, P_REFDIGIT, P_PAIR, P_SWAP };
static const char* const probes[] = { "V09:text_with_illegal_bytes", "V09:parts_joined_to_another_character", "V09:borrowed_text_cut_inside_a_character", "V09:access_in_the_second_half", "V09:overlong_sequence", "V09:5_or_6_byte_sequence", "V09:search_found",
	"C01:same_function_in_several_threads", "C01:digit_found", "C01:case_changed", "V11:stopped_at_the_end", "V11:stopped_at_the_origin", "V11:asked_for_more_than_there_is", "V11:damaged_text", "V11:moved_over_multi-byte_characters", "C02:case_changed", "C02:digit_found", "C02:surrogate_pair", "C02:bytes_swapped", 0 };
#define FAIL(...) do { sim_fail(__VA_ARGS__); } while (0)

// ------------------------------------------------------------ the reference reading of a byte string
struct Ch { uint32_t c; int at, n; };
typedef std::vector<Ch> Chars;
typedef std::string Bytes;
static int seqlen(unsigned char c) { return c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : c < 0xFC ? 5 : 6; }
static Chars decode(const Bytes& b)
{
	Chars r;
	for (size_t p = 0; p < b.size(); )
	{
		unsigned char c = b[p]; int n = seqlen(c); bool ok = n > 0 && p + n <= b.size();
		for (int i = 1; ok && i < n; i++) ok = ((unsigned char)b[p+i] & 0xC0) == 0x80;
		Ch x; x.at = (int)p;
		if (!ok) { x.c = 0x80000000u | c; x.n = 1; }
		else { static const int mask[] = { 0, 0x7F, 0x1F, 0xF, 7, 3, 3 }; x.c = c & mask[n]; for (int i = 1; i < n; i++) x.c = x.c << 6 | (b[p+i] & 0x3F); x.n = n; }
		r.push_back(x); p += x.n;
	}
	return r;
}
static Bytes encode(uint32_t c)
{
	Bytes o;
	if ((c & 0xFFFFFF00) == 0x80000000 || c == 0xFFFFFFFF) o += (char)c;
	else if (c < 0x80) o += (char)c;
	else
	{
		int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
		static const int lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
		o += (char)(lead[n] | (n == 6 ? c >> 30 & 3 : c >> 6*(n-1)));
		for (int i = n-2; i >= 0; i--) o += (char)(0x80 | (c >> 6*i & 0x3F));
	}
	return o;
}
static Bytes sub(const Bytes& b, const Chars& c, int at, int n) { int s = at < (int)c.size() ? c[at].at : (int)b.size(), e = at+n < (int)c.size() ? c[at+n].at : (int)b.size(); return b.substr(s, e-s); }
static int offs(const Bytes& b, const Chars& c, int at) { return at < (int)c.size() ? c[at].at : (int)b.size(); }
static std::string show(const Bytes& b) { std::string o = "\""; for (size_t i = 0; i < b.size() && o.size() < 150; i++) { char t[8]; unsigned char c = b[i]; if (c >= 32 && c < 127 && c != '"') o += (char)c; else { snprintf(t, 8, "\\x%02X", c); o += t; } } return o + "\""; }

static Bytes piece(Rng& r)
{
	static const char* const good[] = { "a", "B", "z", "7", " ", "\xC3\xA9", "\xC3\x89", "\xCF\x89", "\xE2\x82\xAC", "\xE5\xAD\x97", "\xF0\x9F\x98\x80", "\xF0\x90\x90\x80", "\xE2\x84\xAA" };
	static const char* const bad[] = { "\x80", "\xBF", "\xC3", "\xE2", "\xE2\x82", "\xF0", "\xF0\x9F", "\xF0\x9F\x98", "\xFF", "\xFE", "\xFB", "\xFC\x84", "\xC1\x81", "\xC0\xAF", "\xE0\x81\x81", "\xF0\x80\x80\xAF", "\xED\xA0\x80", "\xF4\x90\x80\x80",
		"\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFD\xBF\xBF\xBF\xBF\xBF", "\xFE\x80\x80\x80\x83\xA9", "\xF8\x88\x80\x80", "\xFC\x84\x80\x80\x80", "\x82", "\xAC", "\x9F\x98\x80" };
	int x = r.below(100);
	if (x < 50) return good[r.below(sizeof(good)/sizeof(*good))];
	if (x < 93) return bad[r.below(sizeof(bad)/sizeof(*bad))];
	return Bytes(1, (char)(1 + r.below(255)));
}
static Bytes mkbytes(int e)
{
	int kind = e & 3, len = e >> 2 & 63; Rng r((uint64_t)(e >> 8) * 6007 + 17);
	Bytes b;
	for (int i = 0; i < len; i++) b += kind == 0 ? Bytes(1, "abAB7 "[r.below(6)]) : kind == 1 ? (r.pct(80) ? Bytes(1, "abAB7 "[r.below(6)]) : piece(r)) : piece(r);
	if (len && r.pct(15)) for (int k = 1 + r.below(2); k > 0; k--) b.insert(r.below(b.size()+1), 1, 0);	// a NUL is a character
	return b;
}
struct HBuf {	// exactly as much memory as the text has
	char* p; size_t n;
	HBuf(const Bytes& b) : p(0), n(b.size()) { p = (char*)operator new(n ? n : 1); memcpy(p, b.data(), n); }
	~HBuf() { operator delete(p); }
};

// ------------------------------------------------------------ V09
template<class T, int N> struct Pool { char raw[MAXA][N][sizeof(T)] __attribute__((aligned(16))); T& operator()(int a, int i) { return *(T*)raw[a][i]; } };
static Pool<StrVal,NH> S; static Bytes ms[MAXA][NH];
static char* bor_text[NB]; static Bytes bor_all[NB], bor_model[NB]; static char bor_raw[NB][sizeof(StrBody)] __attribute__((aligned(16)));
static int nactors; static uint64_t base_live;

static void fit(int A, int i) { MODEL; if (decode(ms[A][i]).size() > 90) { Chars c = decode(ms[A][i]); Bytes t = sub(ms[A][i], c, 7, 20); { LibScope l; S(A,i) = S(A,i).substr(7, 20); } ms[A][i] = t; } }
static void check(int A, int i, const char* what, bool all)
{
	StrVal& s = S(A,i); const StrVal& cs = s; StrValIndex n, bytes; const char* p;
	n = s.length(); p = cs.asUTF8(bytes);
	{
		MODEL;
		const Bytes& m = ms[A][i]; Chars c = decode(m);
		if (bytes && !sim_check_range(p, bytes)) FAIL("dangling", "after %s: the bytes of string %d lie outside its storage", what, i);
		if (Bytes(p, bytes) != m) FAIL("wrong-bytes", "after %s: string %d consists of %s, not %s", what, i, show(Bytes(p, bytes)).c_str(), show(m).c_str());
		if ((int)n != (int)c.size()) FAIL("wrong-length", "after %s: string %d %s has length %u, not %zu", what, i, show(m).c_str(), (unsigned)n, c.size());
	}
	if (!all) return;
	for (StrValIndex k = 0; k < n; k++)
	{
		UCS4 u = cs[k];
		MODEL;
		Chars c = decode(ms[A][i]);
		if (u != c[k].c) FAIL("wrong-char", "after %s: character %u of %s is %x, not %x", what, (unsigned)k, show(ms[A][i]).c_str(), (unsigned)u, c[k].c);
	}
}
static void settle(int A, int i, const Bytes& m, const char* what, bool all) { { MODEL; ms[A][i] = m; Chars c = decode(m); for (size_t k = 0; k < c.size(); k++) { if (c[k].c >> 31 && c[k].n == 1) sim_probe(P_ILLEGAL); if (c[k].n > 4) sim_probe(P_LONG); if (c[k].n > 1 && encode(c[k].c).size() < (size_t)c[k].n) sim_probe(P_OVERLONG); } } check(A, i, what, all); fit(A, i); }

static int order(int k, int n, int mode, int salt)	// the k'th position to visit
{
	switch (mode) { case 0: return k; case 1: return n-1-k; case 2: return k & 1 ? n-1-k/2 : k/2; default: return (int)(((unsigned)k * 7919u + salt) % (unsigned)n); }
}
static void exec09(int A, const SimOp& op)
{
	const char* nm = opname(op.code);
	int a = op.a % NH, b = op.b % NH; bool all = op.f & 1;
	StrVal& s = S(A,a); const StrVal& t = S(A,b);
	Bytes m, mb; Chars c, cb; int n, nb;
	{ MODEL; m = ms[A][a]; mb = ms[A][b]; c = decode(m); cb = decode(mb); n = (int)c.size(); nb = (int)cb.size(); }
	#define RES(x) Bytes r_; { MODEL; r_ = (x); } settle(A, a, r_, nm, all)
	switch (op.code)
	{
	case U_NEW: case U_NEWLEN:
	{
		Bytes text, tail;
		{
			MODEL; text = mkbytes(op.e);
			for (int k = 0; k < 3; k++) if (!text.empty() && sim_choose(SF_CORRUPT, 2, 20)) { int at = sim_choose(SF_USER1, (int)text.size(), 100), v = sim_choose(SF_USER2, 256, 100); text[at] = (char)v; }
			int cut = text.empty() ? 0 : sim_choose(SF_TRUNC, (int)text.size(), 15);
			if (cut) { tail = text.substr(text.size()-cut); text.resize(text.size()-cut); }
		}
		if ((op.code == U_NEW && text.find('\0') == Bytes::npos) || text.empty()) { Bytes z; { MODEL; z = text + '\0'; } HBuf h(z); s = StrVal(h.p); { MODEL; z.clear(); z.shrink_to_fit(); } }
		else
		{	// length given; the caller's text goes on, or ends there
			Bytes z; { MODEL; z = op.d & 1 ? text + tail + "\xBF\xBF\xBF\xBF\xBF" : text; } HBuf h(z);
			StrVal x(h.p, (StrValIndex)text.size(), op.d & 2 ? text.size() + 9 : 0); s = x; { MODEL; z.clear(); z.shrink_to_fit(); }
		}
		RES(text); { MODEL; text.clear(); text.shrink_to_fit(); tail.clear(); tail.shrink_to_fit(); }
		break;
	}
	case U_BORROW:
	{
		int k = op.b % NB; StrVal x((StrBody*)bor_raw[k]);
		if (op.d & 1) s = x.substr(0); else if (op.d & 2) { StrVal y(x); s = y; } else s = x;
		RES(bor_model[k]); break;
	}
	case U_COPY: { StrVal x(t); s = x; RES(mb); break; }
	case U_ASSIGN: s = t; { RES(mb); } break;
	case U_SUBSTR: { int at = op.c % (nb+1), len = op.d % (nb-at+2) - 1; s = t.substr(at, len); RES(sub(mb, cb, at, len < 0 ? nb-at : len)); break; }
	case U_TAIL: { int k = op.c % (nb+1); s = op.d & 1 ? t.tail(k) : op.d & 2 ? t.head(k) : t.shorter(k); RES(op.d & 1 ? sub(mb, cb, nb-k, k) : op.d & 2 ? sub(mb, cb, 0, k) : sub(mb, cb, 0, nb-k)); break; }
	case U_CAT: { int at = op.c % (n+1); if (op.d & 1) { StrVal x = s.head(at) + s.substr(at); s = x; RES(m); } else { StrVal x = s + t; s = x; RES(m+mb); } break; }
	case U_APPEND: s += t; { RES(m+mb); } break;
	case U_PREPEND: s.prepend(t); { RES(mb+m); } break;
	case U_INSERT: { int at = op.c % (n+1); s.insert(at, t); RES(Bytes(m).insert(offs(m, c, at), mb)); break; }
	case U_SELF: { int at = op.c % (n+1); s.insert(at, s); RES(Bytes(m).insert(offs(m, c, at), m)); break; }
	case U_APPENDCH: case U_INSCH:
	{
		uint32_t ch; { MODEL; Bytes p = mkbytes(op.e | 2); ch = p.empty() ? 'q' : decode(p)[0].c; }
		Bytes e; { MODEL; e = encode(ch); }
		int at = n;
		if (op.code == U_APPENDCH) s += (UCS4)ch; else { at = op.c % (n+1); s.insert(at, StrVal((UCS4)ch)); }
		RES(Bytes(m).insert(offs(m, c, at), e)); { MODEL; e.clear(); e.shrink_to_fit(); }
		break;
	}
	case U_REPEAT: { int k = op.c % 4; StrVal x = s * k; s = x; Bytes w; { MODEL; for (int i = 0; i < k; i++) w += m; } RES(w); { MODEL; w.clear(); w.shrink_to_fit(); } break; }
	case U_LOWER: case U_UPPER:
	{
		Bytes w; { MODEL; for (int i = 0; i < n; i++) { (void)UCS4ToLower('A'); (void)UCS4ToUpper('a'); w += encode(op.code == U_LOWER ? UCS4ToLower(c[i].c) : UCS4ToUpper(c[i].c)); } }
		if (op.d & 1) { StrVal x = op.code == U_LOWER ? s.asLower() : s.asUpper(); s = x; } else if (op.code == U_LOWER) s.toLower(); else s.toUpper();
		RES(w); { MODEL; w.clear(); w.shrink_to_fit(); }
		break;
	}
	case U_XFORM:
	{	// remove every k'th character after position p
		int p = op.c % (n+1) - 1, k = 2 + op.d % 3, i = 0; Bytes w;
		{ MODEL; for (int q = 0; q < n; q++) { if (q <= p) w += encode(c[q].c); else if ((q-p-1) % k) w += m.substr(c[q].at, c[q].n); } }
		s.transform([&](const char*& cp, const char* ep) -> StrVal { const char* o = cp; (void)ep; UTF8Get(cp); return i++ % k ? StrVal(o, (StrValIndex)(cp-o)) : StrVal(); }, p);
		RES(w); { MODEL; w.clear(); w.shrink_to_fit(); }
		break;
	}
	case U_ASUTF8: { const char* p = s.asUTF8(); MODEL; if (!sim_check_range(p, m.size()+1) || memcmp(p, m.c_str(), m.size()) || p[m.size()]) FAIL("wrong-bytes", "asUTF8() of %s gives other text", show(m).c_str()); break; }
	case U_WALK:
		for (int k = 0; k < n; k++)
		{
			int at = order(k, n, op.d & 3, op.c); UCS4 u = s[at];
			MODEL; if (at*2 > n) sim_probe(P_BACK);
			if (u != c[at].c) FAIL("wrong-char", "character %d of %s is %x, not %x", at, show(m).c_str(), (unsigned)u, c[at].c);
		}
		break;
	case U_INDEX: if (n) { int at = op.c % n; UCS4 u = s[at]; MODEL; if (u != c[at].c) FAIL("wrong-char", "character %d of %s is %x, not %x", at, show(m).c_str(), (unsigned)u, c[at].c); } break;
	case U_ITER:
	{
		StrValIndex bytes; const char* p = ((const StrVal&)s).asUTF8(bytes); const char* e = p + bytes; int k = 0;
		while (p < e)
		{
			const char* o = p; int l = UTF8Len(p); UCS4 u = UTF8Get(p);
			MODEL;
			if (k >= n || u != c[k].c || p-o != c[k].n || l != c[k].n) FAIL("wrong-char", "reading on through %s, character %d is %x of %d (UTF8Len %d) bytes, not %x", show(m).c_str(), k, (unsigned)u, (int)(p-o), l, k < n ? c[k].c : 0);
			k++;
		}
		MODEL; if (k != n) FAIL("wrong-length", "reading on through %s gives %d characters, not %d", show(m).c_str(), k, n);
		break;
	}
	case U_SPLIT: case U_REJOIN:
	{	// substrings by position, put together again, are the text
		int k = 0; Bytes got; StrVal j; int step = 1 + op.c % 5;
		while (k < n)
		{
			int len = 1 + (op.d + k) % step; if (len > n-k) len = n-k;
			StrVal x = s.substr(k, len); const StrVal& y = x; StrValIndex by; const char* p = y.asUTF8(by);
			{ MODEL; got += Bytes(p, by); }
			if (op.code == U_REJOIN) { if (op.d & 4) { StrVal q(x); q.asUTF8(); j += q; } else j += x; }
			k += len;
		}
		{ MODEL; if (got != m) FAIL("wrong-bytes", "the substrings of %s by position put together are %s", show(m).c_str(), show(got).c_str()); got.clear(); got.shrink_to_fit(); }
		if (op.code == U_REJOIN) { s = j; RES(m); }
		break;
	}
	case U_FIND: case U_RFIND:
	{
		int at = op.c % (n+1), len = op.d % 4; if (len > n-at) len = n-at; bool own = op.e & 1;
		if (n == 0) break;
		StrVal x = own ? s.substr(at, len) : t.substr(op.c % (nb+1), op.d % 4); if (op.e & 2) x.asUTF8();
		int from = op.b % 3 == 0 ? op.e / 8 % (n+1) : -1;
		Bytes w; int cw; { MODEL; int ta = op.c % (nb+1), tl = op.d % 4; if (tl > nb-ta) tl = nb-ta; w = own ? sub(m, c, at, len) : sub(mb, cb, ta, tl); cw = (int)decode(w).size(); }
		if (op.code == U_RFIND && from == 0) from = -1;
		int got = op.code == U_FIND ? s.find(x, from) : s.rfind(x, from);
		MODEL; int want = -1;
		if (op.code == U_FIND) { for (int k = from+1; k + cw <= n; k++) if (offs(m, c, k+cw) - c[k < n ? k : n-1].at == (int)w.size() || k == n) { if (sub(m, c, k, cw) == w) { want = k; break; } } }
		else for (int k = from < 0 ? n-cw : from-1 < n-cw ? from-1 : n-cw; k >= 0; k--) if (sub(m, c, k, cw) == w) { want = k; break; }
		if (got >= 0) sim_probe(P_FOUND);
		if (got != want) FAIL("wrong-search", "%s of %s in %s from %d gives %d, not %d", nm, show(w).c_str(), show(m).c_str(), from, got, want);
		w.clear(); w.shrink_to_fit();
		break;
	}
	case U_FINDCH: case U_RFINDCH:
	{
		if (!n) break;
		uint32_t ch; { MODEL; ch = c[op.c % n].c; }
		int from = op.d % 3 == 0 ? op.e % (n+1) : -1; if (op.code == U_RFINDCH && from == 0) from = -1;
		int got = op.code == U_FINDCH ? s.find((UCS4)ch, from) : s.rfind((UCS4)ch, from);
		MODEL; int want = -1;
		if (op.code == U_FINDCH) { for (int k = from+1; k < n; k++) if (c[k].c == ch) { want = k; break; } }
		else for (int k = (from < 0 ? n : from) - 1; k >= 0; k--) if (c[k].c == ch) { want = k; break; }
		if (got >= 0) sim_probe(P_FOUND);
		if (got != want) FAIL("wrong-search", "%s of character %x in %s from %d gives %d, not %d", nm, ch, show(m).c_str(), from, got, want);
		break;
	}
	case U_SET: case U_RSET:
	{
		StrVal x = t.substr(0, 4); int k1 = op.d & 1 ? (op.code == U_SET ? s.findAny(x) : s.rfindAny(x)) : (op.code == U_SET ? s.findNot(x) : s.rfindNot(x));
		MODEL; int want = -1;
		for (int q = 0; q < n; q++) { int k = op.code == U_SET ? q : n-1-q; bool in = false; for (int z = 0; z < 4 && z < nb; z++) in |= cb[z].c == c[k].c; if (in == (bool)(op.d & 1)) { want = k; break; } }
		if (k1 != want) FAIL("wrong-search", "%s (%s) of the first characters of %s in %s gives %d, not %d", nm, op.d & 1 ? "any" : "not", show(mb).c_str(), show(m).c_str(), k1, want);
		break;
	}
	case U_CMP:
	{
		int k = s.compare(t); bool eq = s == t, lt = s < t;
		MODEL; int q = memcmp(m.data(), mb.data(), m.size() < mb.size() ? m.size() : mb.size()); if (!q) q = (int)m.size() - (int)mb.size();
		if ((k < 0) != (q < 0) || (k > 0) != (q > 0) || eq != (q == 0) || lt != (q < 0)) FAIL("wrong-compare", "comparing %s with %s gives %d", show(m).c_str(), show(mb).c_str(), k);
		break;
	}
	case U_PTR:
	{	// the functions on plain text in memory
		Bytes z; { MODEL; z = m + '\0'; } HBuf h(z); const char* p = h.p; const char* e = h.p + m.size(); int k = 0;
		while (p < e)
		{
			UCS4 pk = UTF8Peek(p); const char* o = p; UCS4 u = UTF8Get(p);
			MODEL;
			if (k >= n || u != c[k].c || pk != u || p-o != c[k].n) FAIL("wrong-char", "reading through %s, character %d is %x, not %x", show(m).c_str(), k, (unsigned)u, k < n ? c[k].c : 0);
			k++;
		}
		for (k = n-1; p > h.p; k--)
		{	// and back again, from inside characters too
			const char* o = p; p = UTF8Backup(p, h.p);
			int want; { MODEL; want = k < 0 ? -1 : c[k].at; if (p - h.p != want) FAIL("wrong-char", "reading back through %s, from %d, leads to %d, not %d", show(m).c_str(), (int)(o-h.p), (int)(p-h.p), want); }
			while (--o > p) { const char* b = UTF8Backup(o, h.p); MODEL; if (b != p) FAIL("wrong-char", "going back from %d, inside a character of %s, leads to %d, not %d", (int)(o-h.p), show(m).c_str(), (int)(b-h.p), want); }
		}
		{ const char* b = UTF8Backup(h.p, h.p); MODEL; if (b) FAIL("wrong-char", "going back from the start of %s leads somewhere", show(m).c_str()); }
		{ MODEL; z.clear(); z.shrink_to_fit(); }
		break;
	}
	}
	{ MODEL; if (op.code == U_APPEND || op.code == U_PREPEND || op.code == U_INSERT) if (decode(ms[A][a]).size() < c.size() + cb.size() && c.size() + cb.size() <= 90) sim_probe(P_JOIN); m.clear(); m.shrink_to_fit(); mb.clear(); mb.shrink_to_fit(); Chars().swap(c); Chars().swap(cb); }
	if (op.f & 2) for (int i = 0; i < NH; i++) check(A, i, nm, all);
}
static void actor09(void* p)
{
	int A = (int)(intptr_t)p;
	h_run_ops(A);
	for (int i = 0; i < NH; i++) check(A, i, "all operations", true);
	for (int i = 0; i < NH; i++) S(A,i).~StrVal();
}
static void body09()
{
	{ MODEL; nactors = sim_cfg->user[0]; }
	base_live = sim_live_blocks();
	for (int k = 0; k < NB; k++)
	{
		int len;
		{
			MODEL;
			Bytes b = mkbytes((sim_cfg->user[2] + k * 977) << 8 | (3 + k * 3) << 2 | 2); len = (int)b.size();
			if (!len) { b = "x"; len = 1; }
			if (k & 1) { len = 1 + (sim_cfg->user[3] + k) % len; }	// the text goes on after the borrowed part
			bor_all[k] = b;
			Chars all = decode(b); int e = 0; for (size_t i = 0; i < all.size(); i++) if (all[i].at + all[i].n <= len) e = all[i].at + all[i].n;
			if (e < len) sim_probe(P_CUT);
			bor_model[k] = b.substr(0, e);
			b += '\0'; LibScope l; bor_text[k] = (char*)operator new(b.size()); memcpy(bor_text[k], b.data(), b.size());
		}
		new (bor_raw[k]) StrBody(bor_text[k], StrStatic, (StrValIndex)len);
	}
	for (int A = 0; A < nactors; A++)
		for (int i = 0; i < NH; i++) { new (&S(A,i)) StrVal(); ms[A][i].clear(); }
	for (int A = 0; A < nactors; A++) for (int i = 0; i < 2; i++) { if (A == 0) { S(A,i) = StrVal(bor_text[0]).substr(i); } else S(A,i) = S(0,i); MODEL; Bytes z = bor_all[0].c_str(); Chars c = decode(z); ms[A][i] = sub(z, c, i, (int)c.size()); }
	int id[MAXA]; h_exec = exec09;
	for (int A = 1; A < nactors; A++) id[A] = sim_spawn(actor09, (void*)(intptr_t)A);
	actor09(0);
	for (int A = 1; A < nactors; A++) sim_join(id[A]);
	for (int k = 0; k < NB; k++) { { MODEL; if (memcmp(bor_text[k], bor_all[k].c_str(), bor_all[k].size()+1)) FAIL("changed", "borrowed text %s was changed", show(bor_all[k]).c_str()); } operator delete(bor_text[k]); }
	if (sim_live_blocks() != base_live) { char b[300]; sim_describe_live(b, sizeof(b)); FAIL("leak", "after every handle was dropped: %s", b); }
}
static int gen_bytes(Rng& r, int maxlen) { return (r.pct(12) ? 0 : r.pct(25) ? 1 : 2) | (r.pct(70) ? r.below(10) : r.below(maxlen)) << 2 | r.below(100000) << 8; }
static void gen09(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.pct(80) ? 1 : 2 + r.below(2);
	c.user[0] = n; c.user[2] = r.below(100000); c.user[3] = r.below(1000);
	sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_OFF; c.step_budget = 3000;
	int len = r.range(3, thorough ? 80 : 40), focus = r.pct(40) ? 2 : NH, checks = r.below(3), maxlen = r.pct(20) ? 50 : 24;
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
		{
			static const uint8_t mut[] = { U_NEW, U_NEW, U_NEWLEN, U_BORROW, U_COPY, U_ASSIGN, U_SUBSTR, U_SUBSTR, U_SUBSTR, U_TAIL, U_CAT, U_CAT, U_APPEND, U_APPENDCH, U_INSERT, U_INSERT, U_INSERT, U_PREPEND, U_INSCH, U_INSCH, U_SELF, U_REPEAT, U_LOWER, U_UPPER, U_XFORM, U_ASUTF8, U_ASUTF8 };
			SimOp o = mkop(A, r.pct(65) ? mut[r.below(sizeof(mut))] : U_WALK + r.below(U_LAST-U_WALK), r.below(focus), r.below(focus), r.below(1000), r.below(1000), r.below(100000), 0);
			if (o.code <= U_NEWLEN || o.code == U_APPENDCH || o.code == U_INSCH) o.e = gen_bytes(r, maxlen);
			if (o.code == U_BORROW) o.b = r.below(NB);
			o.f = (checks == 0 || (checks == 1 && r.pct(30)) ? 1 : 0) | (r.pct(10) ? 2 : 0);
			ops.push_back(o);
		}
}

// ------------------------------------------------------------ C01
static uint32_t call(int fn, uint32_t ch)
{
	switch (fn)
	{
	case 0: return UCS4IsAlphabetic(ch);
	case 1: return (uint32_t)UCS4Digit(ch);
	case 2: return (uint32_t)UCS4HexDigit(ch);
	case 3: return UCS4ToUpper(ch);
	case 4: return UCS4ToLower(ch);
	case 5: return UCS4ToTitle(ch);
	case 6: return UCS4IsWhite(ch);
	default: return UCS4IsDecimal(ch);
	}
}
static const char* const fname[] = { "UCS4IsAlphabetic", "UCS4Digit", "UCS4HexDigit", "UCS4ToUpper", "UCS4ToLower", "UCS4ToTitle", "UCS4IsWhite", "UCS4IsDecimal" };
static std::vector<uint32_t> expected;
static uint32_t op_char(const SimOp& o, int k) { return (uint32_t)o.b + (uint32_t)((o.d >> (k*4)) & 15) * (uint32_t)o.e; }
static void settle_memos() { (void)UCS4ToLower('A'); (void)UCS4ToUpper('a'); (void)UCS4ToTitle('a'); (void)UCS4Digit('0'); (void)UCS4HexDigit('0'); (void)UCS4IsAlphabetic('a'); }
static void exec01(int A, const SimOp& op)
{
	int index; { MODEL; for (index = 0; index < sim_nops; index++) if (!memcmp(&sim_ops[index], &op, sizeof(op))) break; }
	for (int k = 0; k < op.c; k++)
	{
		uint32_t ch = op_char(op, k), r = call(op.a, ch);
		MODEL;
		uint32_t want = expected[index*8+k];
		if (op.a == 1 && r != (uint32_t)-1) sim_probe(P_DIGIT);
		if (op.a >= 3 && op.a <= 5 && r != ch) sim_probe(P_CASE);
		if (r != want) FAIL("wrong-result", "%s(%x) gives %x; called alone it gives %x", fname[op.a], ch, r, want);
	}
}
static void body01()
{
	{
		MODEL;
		expected.assign(sim_nops*8+8, 0); unsigned fn[MAXA] = {0};
		for (int i = 0; i < sim_nops; i++) { if (sim_ops[i].code < 0) continue; fn[sim_ops[i].fiber] |= 1 << sim_ops[i].a; for (int k = 0; k < sim_ops[i].c; k++) { settle_memos(); expected[i*8+k] = call(sim_ops[i].a, op_char(sim_ops[i], k)); } }
		for (int x = 1; x < MAXA; x++) if (fn[0] & fn[x]) sim_probe(P_HIST);
		settle_memos();
	}
	h_run_actors(sim_cfg->user[0], exec01);
}
static void gen01(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.pct(10) ? 1 : 2 + r.below(MAXA-1);
	c.user[0] = n; sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_ALL; c.step_budget = 2000;
	if (c.sched_period > 12 && r.pct(70)) c.sched_period = 1 + r.below(12);
	static const uint32_t bases[] = { '0', '9', 'A', 'Z', 'a', 'z', '@', 'F', 'f', ' ', 0xA0, 0xAA, 0xB5, 0xC0, 0xDF, 0xFF, 0x100, 0x130, 0x149, 0x178, 0x17F, 0x1C4, 0x1C5, 0x1F0, 0x250, 0x370, 0x390, 0x3B1, 0x400, 0x430, 0x460, 0x531, 0x561, 0x5D0, 0x660, 0x6F0, 0x966, 0x9E6, 0xA66,
		0xAE6, 0xB66, 0xBE7, 0xC66, 0xCE6, 0xD66, 0xE50, 0xED0, 0xF20, 0x1040, 0x10A0, 0x1369, 0x17E0, 0x1810, 0x1E00, 0x1F00, 0x1F80, 0x2000, 0x2028, 0x2126, 0x2160, 0x24B6, 0x3000, 0x3041, 0x4E00, 0xAC00, 0xFB00, 0xFF10, 0xFF21, 0xFF41, 0x10400, 0x10428, 0x1D7CE, 0xE000, 0x10FFFF, 0x110000, 0x7FFFFFF0, 0x80000041, 0xFFFFFFF0 };
	int nb = sizeof(bases)/sizeof(*bases);
	uint32_t fav[6]; for (int i = 0; i < 6; i++) fav[i] = bases[r.below(nb)];
	int fmask = r.pct(60) ? 1 << r.below(6) : 0xFF;
	int len = r.range(2, thorough ? 24 : 12);
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
		{
			int fn; do fn = r.below(8); while (!(fmask >> fn & 1) && !r.pct(5));
			uint32_t base = r.pct(60) ? fav[r.below(6)] : r.pct(60) ? bases[r.below(nb)] : (uint32_t)r.below(0x20000);
			base += r.pct(50) ? r.below(6) - 3 : r.below(40) - 12;
			ops.push_back(mkop(A, C_CALL, fn, (int)base, 1 + r.below(7), r.below(0x7FFFFFFF), r.pct(70) ? 1 : r.below(300), (int)ops.size()));
		}
}
// ------------------------------------------------------------ C02
template<int N> static const RefRun* in_ref(const RefRun (&t)[N], uint32_t c) { int lo = 0, hi = N; while (lo < hi) { int m = (lo+hi)/2; if (t[m].first <= c) lo = m+1; else hi = m; } return lo && c <= t[lo-1].last && (c - t[lo-1].first) % t[lo-1].step == 0 ? &t[lo-1] : 0; }
template<int N> static uint32_t mapped(const RefRun (&t)[N], uint32_t c) { const RefRun* r = in_ref(t, c); return r ? c + r->delta : c; }
static int white(uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000; }
static const char* const fname2[] = { "UCS4IsAlphabetic", "UCS4Digit", "UCS4HexDigit", "UCS4ToUpper", "UCS4ToLower", "UCS4ToTitle", "UCS4IsWhite", "UCS4IsDecimal", "isalpha", "isdigit", "isalnum", "toupper", "tolower", "isspace", "islower", "isupper", "UCS4IsASCII", "UCS4IsASCIIPrintable", "UCS4IsLatin1", "UCS4IsUnicode", "UCS4IsUTF16", "ASCIIDigit" };
static uint32_t ref2(int fn, uint32_t c)
{
	int digit = in_ref(ref_digit, c) ? (int)mapped(ref_digit, c) : -1; uint32_t u = mapped(ref_upper, c), l = mapped(ref_lower, c); bool alpha = in_ref(ref_alpha, c) != 0;
	switch (fn)
	{
	case 0: case 8: return alpha;
	case 1: return (uint32_t)digit;
	case 2: return digit >= 0 ? digit : c >= 'A' && c <= 'F' ? c-'A'+10 : c >= 'a' && c <= 'f' ? c-'a'+10 : (uint32_t)-1;
	case 3: case 11: return u;
	case 4: case 12: return l;
	case 5: return mapped(ref_title, c);
	case 6: case 13: return white(c);
	case 7: case 9: return digit >= 0;
	case 10: return alpha || digit >= 0;
	case 14: return u != c && l == c;
	case 15: return l != c && u == c;
	case 16: return c < 0x80;
	case 17: return c >= 0x20 && c < 0x7F;
	case 18: return c < 0x100;
	case 19: return c < 0x110000;
	case 20: return c < 0x10000;
	default: return c >= '0' && c <= '9' ? c-'0' : (uint32_t)-1;
	}
}
static uint32_t call2(int fn, UCS4 c)
{
	switch (fn)
	{
	default: return call(fn, c);
	case 8: return isalpha(c);
	case 9: return isdigit(c);
	case 10: return isalnum(c);
	case 11: return toupper(c);
	case 12: return tolower(c);
	case 13: return isspace(c);
	case 14: return islower(c);
	case 15: return isupper(c);
	case 16: return UCS4IsASCII(c);
	case 17: return UCS4IsASCIIPrintable(c);
	case 18: return UCS4IsLatin1(c);
	case 19: return UCS4IsUnicode(c);
	case 20: return UCS4IsUTF16(c);
	case 21: return (uint32_t)ASCIIDigit(c);
	}
}
static uint32_t char16(Rng& r) { uint32_t c = r.pct(30) ? r.below(0x80) : r.pct(40) ? r.below(0x10000) : r.pct(70) ? 0x10000 + r.below(0x100000) : 0; if (!c || (c >= 0xD800 && c < 0xE000)) { static const uint32_t e[] = { 0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x10FFFF, 0x1FFFF, 0x100000 }; c = e[r.below(sizeof e/sizeof *e)]; } return c; }
static void utf16(int, const SimOp& op)
{
	if (op.code == C_ZERO)
	{
		int n = op.a % 7; int want = n < 1 ? 1 : n; char* p = (char*)operator new(want); UTF8* cp = p; UTF8PutPaddedZero(cp, n);
		{ MODEL; if (cp - p != want) FAIL("wrong-length", "a zero padded to %d bytes takes %d", n, (int)(cp - p)); }
		const UTF8* rp = p; UCS4 c = UTF8Get(rp); int len = UTF8Len((const UTF8*)p);
		{ MODEL; if (c != 0 || rp - p != want || len != want) FAIL("wrong-zero", "a zero padded to %d bytes reads as U+%04X in %d bytes, length %d", n, (unsigned)c, (int)(rp - p), len); }
		operator delete(p);
		return;
	}
	std::vector<uint32_t>* cs; Bytes* want; bool swap = op.b & 1; int n, units;
	{
		MODEL; Rng r((uint64_t)op.d * 7919 + 5); cs = new std::vector<uint32_t>; want = new Bytes; n = 1 + op.c % 20;
		for (int i = 0; i < n; i++)
		{
			uint32_t c = char16(r), u[2]; int k = 1; cs->push_back(c); u[0] = c;
			if (c >= 0x10000) { u[0] = 0xD800 + ((c - 0x10000) / 0x400); u[1] = 0xDC00 + (c - 0x10000) % 0x400; k = 2; sim_probe(P_PAIR); }
			for (int j = 0; j < k; j++) { unsigned char b[2] = { (unsigned char)(u[j] & 255), (unsigned char)(u[j] >> 8) }; if (swap) std::swap(b[0], b[1]); want->append((char*)b, 2); }	// (on a little-endian machine)
		}
		units = (int)want->size()/2; if (swap) sim_probe(P_SWAP);
	}
	UTF16* buf = (UTF16*)operator new(units * 2); UTF16* w = buf;
	int len = 0;
	for (int i = 0; i < n; i++)
	{
		uint32_t c; { MODEL; c = (*cs)[i]; }
		UTF16* b = w; UTF16Put(w, c, swap); int l = UTF16Len((UCS4)c); len += l; int k = UTF16Len((const UTF16*)b, swap); UTF16 first = swap ? UTF16Swab(*b) : *b, last = swap ? UTF16Swab(w[-1]) : w[-1];
		bool s = UTF16IsSurrogate(first), f = UTF16Is1st(first), g = UTF16Is2nd(last), g1 = UTF16Is2nd(first);
		MODEL;
		if (w - b != l || k != l || l != (c >= 0x10000 ? 2 : 1)) FAIL("wrong-length", "U+%04X is stored as %d units, has length %d, read back %d", c, (int)(w - b), l, k);
		if (s != (l == 2) || f != (l == 2) || g != (l == 2) || g1) FAIL("wrong-surrogate", "U+%04X: surrogate %d, first %d, second %d, first is a second %d", c, s, f, g, g1);
	}
	{ MODEL; if (len != units || memcmp(buf, want->data(), units * 2)) FAIL("wrong-units", "%d characters become %d units %s, not %s", n, len, show(Bytes((char*)buf, units*2)).c_str(), show(*want).c_str()); }
	const UTF16* g = buf;
	for (int i = 0; i < n; i++) { UCS4 c = UTF16Get(g, swap); MODEL; if (c != (*cs)[i]) FAIL("wrong-character", "U+%04X comes back from UTF-16 as U+%04X", (*cs)[i], (unsigned)c); }
	{ MODEL; if (g - buf != units) FAIL("wrong-length", "reading %d characters took %d units of %d", n, (int)(g - buf), units); delete cs; delete want; }
	operator delete(buf);
}
static void exec02(int A, const SimOp& op)
{
	if (op.code != C_SCAN) { utf16(A, op); return; }
	for (int k = 0; k < op.c; k++)
	{
		uint32_t ch = (uint32_t)op.b + (uint32_t)k * (uint32_t)op.e, r = call2(op.a, ch);
		MODEL;
		uint32_t want = ref2(op.a, ch);
		if (op.a >= 3 && op.a <= 5 && want != ch) sim_probe(P_REF);
		if (op.a == 1 && want != (uint32_t)-1) sim_probe(P_REFDIGIT);
		if (r != want) FAIL("wrong-value", "%s(U+%04X) gives %x, not %x", fname2[op.a], ch, r, want);
	}
}
static void body02() { h_run_actors(sim_cfg->user[0], exec02); }
static void gen02(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = 1 + r.below(MAXA); c.user[0] = n; sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_OFF; c.step_budget = 20000;
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(thorough ? 30 : 16); i < k; i++)
		{
			if (r.pct(15)) { ops.push_back(mkop(A, r.pct(90) ? C_UTF16 : C_ZERO, r.below(100), r.below(2), r.below(100), r.below(1000000), 0, (int)ops.size())); continue; }
			uint32_t base = r.pct(40) ? r.below(0x600) : r.pct(50) ? r.below(0x3200) : r.pct(70) ? r.below(0x20000) : r.pct(50) ? (uint32_t)r.below(0x110000) : (uint32_t)r.next();
			if (r.pct(10)) { static const uint32_t b[] = { 0xFF00, 0x10400, 0x1D7C0, 0xFB00, 0xFFF0, 0x10FFE0, 0x80000000, 0xFFFFFFF0, 0x7FFFFFF0, 0x3000, 0x3018, 0x24B0, 0x2160, 0xE000, 0xD7F0 }; base = b[r.below(sizeof b/sizeof *b)]; }
			ops.push_back(mkop(A, C_SCAN, r.pct(75) ? r.below(6) : r.below(22), (int)base, 16 + r.below(49), 0, r.pct(70) ? 1 : 1 + r.below(40), (int)ops.size()));
		}
}
// ------------------------------------------------------------ V11
// Guarded text pointers. Positions are byte offsets into the text; qb holds those where characters begin (each byte
// that belongs to no complete sequence is one).
#define NT 3
#define NQ 3
static char* qt[NT]; static Bytes qm[NT]; static bool qbad[NT]; static std::vector<int> qb[NT];
struct Track { int text, org, pos; };
template<class P> struct Slots { Pool<P, NQ> p; Track t[MAXA][NQ]; };
static Slots<UnGuardedCharPtr> q0; static Slots<NulGuardedCharPtr> q1; static Slots<GuardedCharPtr> q2; static Slots<NulGuardedUTF8Ptr> q3; static Slots<GuardedUTF8Ptr> q4;
template<class P> struct QT { enum { nul = 1, bot = 0, utf8 = 0 }; };
template<> struct QT<UnGuardedCharPtr> { enum { nul = 0, bot = 0, utf8 = 0 }; };
template<> struct QT<GuardedCharPtr> { enum { nul = 1, bot = 1, utf8 = 0 }; };
template<> struct QT<NulGuardedUTF8Ptr> { enum { nul = 1, bot = 0, utf8 = 1 }; };
template<> struct QT<GuardedUTF8Ptr> { enum { nul = 1, bot = 1, utf8 = 1 }; };
template<class P> static bool at_bot_of(P&, bool& known) { known = false; return false; }
template<> bool at_bot_of(GuardedCharPtr& p, bool& known) { known = true; return p.at_bot(); }
template<> bool at_bot_of(GuardedUTF8Ptr& p, bool& known) { known = true; return p.at_bot(); }
template<class P> static bool first_of(P&) { return true; }
template<> bool first_of(NulGuardedUTF8Ptr& p) { return p.is1st(); }
template<> bool first_of(GuardedUTF8Ptr& p) { return p.is1st(); }
template<class P> static int len_of(P&) { return 1; }
template<> int len_of(NulGuardedUTF8Ptr& p) { return p.len(); }
template<> int len_of(GuardedUTF8Ptr& p) { return p.len(); }
// what the pointer kind can be given from an expression of its own: a guarded one keeps its origin
template<class P, class R> static auto take_(P& to, R r, int) -> decltype((void)(to = r)) { to = r; }
template<class P, class R> static void take_(P& to, R r, long) { to = P(static_cast<const char*>(r)); }
template<class P, class R> static void take(P& to, R r) { take_(to, r, 0); }

// the byte offset k characters on from pos; short: how much of k there wasn't
static int moved(int text, bool utf8, int org, int pos, int k, bool nul, bool bot, int& lacking)
{
	const Bytes& b = qm[text]; const std::vector<int>& v = qb[text];
	lacking = 0;
	for (; k > 0; k--) { if (pos >= (int)b.size()) { if (nul) { lacking = k; break; } pos++; } else pos = utf8 ? *std::upper_bound(v.begin(), v.end(), pos) : pos+1; }
	for (; k < 0; k++) { if (bot && pos <= org) { lacking = -k; break; } pos = utf8 && pos > 0 ? *(std::lower_bound(v.begin(), v.end(), pos)-1) : pos-1; }
	return pos;
}
static int chars_before(int text, bool utf8, int pos)
{	// how many characters back a pointer that isn't guarded there may go; it looks for the start of each in the six bytes before
	if (!utf8) return pos;
	const Bytes& b = qm[text]; const std::vector<int>& v = qb[text]; int n = 0;
	for (int i = (int)(std::lower_bound(v.begin(), v.end(), pos)-v.begin()); i > 0; i--, n++)
	{
		int at = v[i], k = at-1; while (k > 0 && k > at-6 && ((unsigned char)b[k] & 0xC0) == 0x80) k--;
		if (at < 6 && ((unsigned char)b[k] & 0xC0) == 0x80) break;
	}
	return n;
}
static int chars_after(int text, bool utf8, int pos) { return utf8 ? (int)(qb[text].end()-std::lower_bound(qb[text].begin(), qb[text].end(), pos)) - 1 : (int)qm[text].size() - pos; }
template<class P> static void expect(P& p, Track& t, const Track& was, int k, const char* nm)
{	// p was at 'was' and has been moved by k characters
	const char* at = static_cast<const char*>(p);
	MODEL;
	const Bytes& b = qm[was.text]; int pos = (int)(at - qt[was.text]), size = (int)b.size();
	if (pos < (QT<P>::bot ? was.org : 0) || pos > size) FAIL("outside", "%s by %d from %d (origin %d) of %s leaves the pointer at %d", nm, k, was.pos, was.org, show(b).c_str(), pos);
	int lacking, want = moved(was.text, QT<P>::utf8, was.org, was.pos, k, QT<P>::nul, QT<P>::bot, lacking);
	if (pos != want) FAIL("wrong-position", "%s by %d from %d (origin %d) of %s leaves the pointer at %d, not %d", nm, k, was.pos, was.org, show(b).c_str(), pos, want);
	if (lacking) sim_probe(P_FARPAST); if (lacking && k > 0) sim_probe(P_ATEND); if (lacking && k < 0) sim_probe(P_ATBOT);
	if (k > 0 ? pos - was.pos > k : was.pos - pos > -k) sim_probe(P_MULTI);
	if (QT<P>::utf8 && qbad[was.text]) sim_probe(P_DAMAGED);
	t = was; t.pos = pos;
}
template<class P> static int stepcount(int e, const Track& t, bool back)
{	// how far to move: pointers that aren't guarded on that side are kept within their text, as their users must
	int k = e % 5 ? e / 8 % 7 - 1 : e / 8 % 4000 - 2000; if (back) k = -k;
	MODEL;
	if (!QT<P>::nul && k > 0) { int m = chars_after(t.text, QT<P>::utf8, t.pos); if (k > m) k = m; }
	if (!QT<P>::bot && k < 0) { int m = chars_before(t.text, QT<P>::utf8, t.pos); if (-k > m) k = -m; }
	return k;
}
template<class P> static void exec_ptr(Slots<P>& s, int A, const SimOp& op)
{
	int a = op.b % NQ, c = op.c % NQ; P& p = s.p(A,a); P& q = s.p(A,c); Track &t = s.t[A][a], &u = s.t[A][c]; const char* nm = opname(op.code);
	Track was = t;
	switch (op.code)
	{
	case Q_NEW:
	{
		int x = op.d % NT, at; { MODEL; const Bytes& b = qm[x]; at = op.e % ((int)b.size()+1); if (QT<P>::utf8) while (at > 0 && at < (int)b.size() && ((unsigned char)b[at] & 0xC0) == 0x80) at--; }
		p = P(qt[x] + at); t.text = x; t.org = t.pos = at;
		break;
	}
	case Q_INC:
		if (stepcount<P>(16, t, false) < 1) break;
		if (op.d & 1) { ++p; expect(p, t, was, 1, nm); }
		else { P old(p); take(old, p++); expect(p, t, was, 1, nm); Track o = was; expect(old, o, was, 0, "the old value of a step"); if (a != c) { q = old; u = o; } }
		break;
	case Q_DEC:
		if (stepcount<P>(16, t, true) > -1) break;
		if (op.d & 1) { --p; expect(p, t, was, -1, nm); }
		else { P old(p); take(old, p--); expect(p, t, was, -1, nm); Track o = was; expect(old, o, was, 0, "the old value of a step back"); if (a != c) { q = old; u = o; } }
		break;
	case Q_ADDEQ: { int k = stepcount<P>(op.e, t, op.d & 1); p += k; expect(p, t, was, k, nm); break; }
	case Q_SUBEQ: { int k = stepcount<P>(op.e, t, op.d & 1); p -= -k; expect(p, t, was, k, nm); break; }
	case Q_ADD: { int k = stepcount<P>(op.e, t, op.d & 1); Track o = was; if (a != c) { take(q, p + k); expect(q, u, was, k, nm); expect(p, o, was, 0, nm); } else { take(p, p + k); expect(p, t, was, k, nm); } break; }
	case Q_SUB: { int k = stepcount<P>(op.e, t, op.d & 1); Track o = was; if (a != c) { take(q, p - -k); expect(q, u, was, k, nm); expect(p, o, was, 0, nm); } else { take(p, p - -k); expect(p, t, was, k, nm); } break; }
	case Q_COPY:
		if (op.d & 1) { const P& k = q; P x(k); p = x; } else { P x(q); p = x; }
		t = u; expect(p, t, u, 0, nm); break;
	case Q_ASSIGN:
		if (op.d & 1) { const P& k = q; p = k; } else p = q;
		t = u; expect(p, t, u, 0, nm); break;
	case Q_READ:
	{
		uint32_t ch = (uint32_t)*p; bool eof = p.at_eof(), known, bot = at_bot_of(p, known), first = first_of(p); int len = len_of(p); long d = u.text == t.text ? p - q : 0, d2 = p - (const char*)qt[t.text];
		MODEL;
		const Bytes& b = qm[t.text]; int size = (int)b.size(); bool end = t.pos == size;
		if (!QT<P>::utf8 && (char)ch != (end ? 0 : b[t.pos])) FAIL("wrong-char", "reading at %d of %s gives %x", t.pos, show(b).c_str(), ch);
		if (QT<P>::utf8)
		{
			Bytes rest = b.substr(t.pos); Chars cs = decode(rest); uint32_t want = end ? 0 : cs[0].c;
			if (ch != want) FAIL("wrong-char", "reading at %d of %s gives %x, not %x", t.pos, show(b).c_str(), ch, want);
			if (first != (end || ((unsigned char)b[t.pos] & 0xC0) != 0x80) || (!end && len != cs[0].n)) FAIL("wrong-char", "at %d of %s, is1st() gives %d and len() %d", t.pos, show(b).c_str(), first, len);
		}
		if (eof != end) FAIL("wrong-end", "at %d of %s, at_eof() is %d", t.pos, show(b).c_str(), eof);
		if (known && bot != (t.pos == t.org)) FAIL("wrong-end", "at %d of %s from %d, at_bot() is %d", t.pos, show(b).c_str(), t.org, bot);
		if (u.text == t.text && d != t.pos - u.pos) FAIL("wrong-position", "the difference between positions %d and %d is %ld", t.pos, u.pos, d);
		if (d2 != t.pos) FAIL("wrong-position", "the difference between position %d and the start is %ld", t.pos, d2);
		break;
	}
	}
}
static void exec11(int A, const SimOp& op)
{
	switch (op.a) { case 0: exec_ptr(q0, A, op); break; case 1: exec_ptr(q1, A, op); break; case 2: exec_ptr(q2, A, op); break; case 3: exec_ptr(q3, A, op); break; default: exec_ptr(q4, A, op); }
}
template<class P> static void init_ptr(Slots<P>& s, int n) { for (int A = 0; A < n; A++) for (int i = 0; i < NQ; i++) { new (&s.p(A,i)) P(); s.p(A,i) = P(qt[0]); s.t[A][i] = Track{ 0, 0, 0 }; } }
static void body11()
{
	int n = sim_cfg->user[0];
	for (int k = 0; k < NT; k++)
	{
		MODEL;
		Bytes b = mkbytes((sim_cfg->user[2] + k * 977) << 8 | (sim_cfg->user[3] + k * 5) % 20 << 2 | (k == 2 ? 2 : 0));
		b.erase(std::remove(b.begin(), b.end(), '\0'), b.end());	// where these pointers end
		if (k < 2) { Rng r(sim_cfg->user[2] * 31 + k); Bytes o; for (size_t i = 0; i < b.size(); i++) { static const char* const good[] = { "\xC3\xA9", "\xE2\x82\xAC", "\xE5\xAD\x97", "\xF0\x9F\x98\x80", "\xDF\xBF", "\xF4\x8F\xBF\xBF" }; if (r.pct(45)) o += good[r.below(6)]; else o += b[i]; } b = o; }
		if (k == 2 && !b.empty() && sim_choose(SF_CORRUPT, 2, 30)) { int at = sim_choose(SF_USER1, (int)b.size(), 100), v = sim_choose(SF_USER2, 256, 100); b[at] = (char)(v ? v : 0x80); }
		int cut = b.empty() || k < 2 ? 0 : sim_choose(SF_TRUNC, (int)b.size(), 30); if (cut) b.resize(b.size() - cut);
		qm[k] = b; Chars c = decode(b); qbad[k] = false; qb[k].clear(); for (size_t i = 0; i < c.size(); i++) { qb[k].push_back(c[i].at); if (c[i].c >> 31 || encode(c[i].c).size() != (size_t)c[i].n) qbad[k] = true; } qb[k].push_back((int)b.size());
		LibScope l; qt[k] = (char*)operator new(b.size()+1); memcpy(qt[k], b.c_str(), b.size()+1);
	}
	init_ptr(q0, n); init_ptr(q1, n); init_ptr(q2, n); init_ptr(q3, n); init_ptr(q4, n);
	h_run_actors(n, exec11);
	for (int k = 0; k < NT; k++) { { MODEL; if (memcmp(qt[k], qm[k].c_str(), qm[k].size()+1)) FAIL("changed", "the text %s was changed", show(qm[k]).c_str()); } operator delete(qt[k]); }
}
static void gen11(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.pct(70) ? 1 : 2 + r.below(2);
	c.user[0] = n; c.user[2] = r.below(100000); c.user[3] = r.below(20);
	sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_ALL; c.step_budget = 2000;
	int len = r.range(3, thorough ? 80 : 40), fix = r.pct(60) ? r.below(5) : -1, focus = r.pct(40) ? 1 : NQ, bad = r.pct(70) ? 2 : NT;
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
		{
			static const uint8_t mix[] = { Q_NEW, Q_INC, Q_INC, Q_INC, Q_DEC, Q_DEC, Q_DEC, Q_ADDEQ, Q_SUBEQ, Q_ADD, Q_SUB, Q_COPY, Q_ASSIGN, Q_READ, Q_READ };
			ops.push_back(mkop(A, i == 0 ? Q_NEW : mix[r.below(sizeof(mix))], fix >= 0 ? fix : r.below(5), r.below(focus), r.below(focus), r.below(bad), r.below(100000)));
		}
}
const SimProp sim_props[] = { { "V09", gen09, body09, opname, probes }, { "V11", gen11, body11, opname, probes }, { "C01", gen01, body01, opname, probes }, { "C02", gen02, body02, opname, probes }, { 0, 0, 0, 0, 0 } };
