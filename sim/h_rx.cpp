// R01, R02: regular expressions compiled once and matched from several simulated threads, and under allocation failure.
// R03: the configurable language. R04: the work and memory one match takes. R05: the listing of a compiled expression.
#include "harness.h"
#include <strregex.h>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <new>
#include <algorithm>

#define MAXA 4
#define NP 3	// shared programs
#define NR 5	// results per thread
#define NTX 4	// shared texts
#define NBOX 2

enum { X_MATCH, X_COPY, X_READ, X_DROP, X_SEND, X_RECV, X_COMPILE, X_OWN, X_NAME, X_ERROR, X_PAUSE, X_GARBAGE, X_FRESH, X_FEATURE, X_GARBFEAT, X_WORK, X_GROWTH, X_LIST, X_LISTFRESH, X_LISTANY, X_LAST };
static const char* opname(int c)
{
	static const char* const n[] = { "match", "copy_result", "read_result", "drop_result", "send_result", "receive_result", "compile_again", "match_own_program", "group_name", "compile_bad", "pause", "compile_and_match_any_text", "compile_and_match_fresh", "compile_with_features", "compile_any_text_with_features", "measure_a_match", "measure_growth", "list_shared_program", "list_fresh_program", "list_any_program" };
	return c < 0 ? "dropped" : c < X_LAST ? n[c] : "?";
}
enum { P_MATCHED, P_NOTMATCHED, P_CAPTURED, P_REF, P_TOOBIG, P_OVERLAP, P_OOM, P_OOMCOMPILE, P_HANDOVER, P_LOOK, P_COUNT, P_LONG, P_MANYCAPS, P_FARJUMP, P_REFUSED, P_LITERAL, P_EXTENDED, P_ESCAPES, P_FMATCH, P_WORKED, P_AMBIG, P_WCOUNT, P_PLACE, P_GROWTH, P_LISTED, P_LISTMATCH, P_LISTFAIL, P_LISTBIG, P_LISTBOTH, P_LISTFAR, P_LISTCOUNT, P_LISTLOOK, P_LISTNAMES, P_LISTANY };
static const char* const probes[] = { "R01,R02:matched", "R01,R02:did_not_match", "R01,R02:captured", "R01,R02:compared_with_reference_matcher", "R01,R02:too_many_paths_for_reference", "R01:two_threads_matching_one_program", "R02:match_met_allocation_failure", "R02:compile_met_allocation_failure", "R01:result_handed_to_another_thread", "R01,R02:expression_with_lookahead", "R01,R02:expression_with_counted_repetition", "R01,R02:text_over_100_characters", "R01,R02,R03:more_than_two_captures", "R01,R02,R03:expression_over_700_bytes", "R03:rejected_feature_refused", "R03:disabled_feature_read_as_text", "R03:white_space_and_comments", "R03:escapes", "R03:matched_a_sampled_text", "R04:measured", "R04:measured_ambiguous_expression", "R04:measured_counted_repetition", "R03:place_of_refusal_confirmed", "R04:measured_growth", "R05:listing_followed", "R05:followed_to_a_match", "R05:followed_to_no_match", "R05:too_many_paths_to_follow", "R05:two_threads_listing_one_program", "R05:listing_over_700_bytes_of_program", "R05:listing_with_counters", "R05:listing_with_lookahead", "R05:listing_with_several_names", "R05:listed_any_text", 0 };

// ------------------------------------------------------------ expressions
enum { N_CHAR, N_ANY, N_CLASS, N_PROP, N_CAT, N_ALT, N_STAR, N_PLUS, N_QUEST, N_COUNT, N_BOL, N_EOL, N_LOOK, N_GROUP, N_CAP };
struct Node { int t, form; uint32_t c; std::vector<uint32_t> cls; bool neg, brief; int min, max, cap; std::vector<int> k; };
struct Rx { std::vector<Node> n; bool sparse, ext, forms, raw; Rng* sp; int maxcaps, names, lit, deep, alpha, wide, root, caps, shunts, counted, looks; std::string text; struct Num { int node, at, len, f; }; std::vector<Num> nums; };
static const uint32_t LETTERS[] = { 'a','b','c','a','b','1','-','\n',0xE9,0x5B57,
	'\t',' ','#',0x1F600,'^','*','+','?','$','|','[','{',',','2','s','n','x','d','}',']','(',')','.','\\',0x7F,0x80,0x7FF,0x800,0xFFFF,0x10000,0,0x141,0,0x200000,0x4000000,0x7FFFFFFF };
#define NLETTERS 46
static uint32_t letter(const Rx& x, Rng& r) { return LETTERS[x.alpha && r.pct(40) ? 10 + r.below(NLETTERS-10) : r.below(10)]; }
static bool isprop(uint32_t p, uint32_t c) { return p == 's' ? c == ' ' || c == '\n' || c == '\t' : p == 'd' ? c >= '0' && c <= '9' : (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
static std::string gname(const Rx& x, int k);
static void put8(std::string& o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c >= 0x200000) { bool six = c >= 0x4000000; o += (char)(six ? 0xFC|c>>30 : 0xF8|c>>24); for (int k = six ? 24 : 18; k >= 0; k -= 6) o += (char)(0x80|((c>>k)&63)); } else if (c < 0x800) { o += (char)(0xC0|c>>6); o += (char)(0x80|(c&63)); } else if (c >= 0x10000) { o += (char)(0xF0|c>>18); o += (char)(0x80|((c>>12)&63)); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63)); } else { o += (char)(0xE0|c>>12); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63)); } }
static int add(Rx& x, int t) { Node n; n.t = t; n.c = 0; n.form = 0; n.neg = n.brief = false; n.min = n.max = n.cap = 0; x.n.push_back(n); return (int)x.n.size()-1; }
static int gen_alt(Rx& x, Rng& r, int depth, bool inlook, bool incount);
static int gen_atom(Rx& x, Rng& r, int depth, bool inlook, bool incount)
{
	int w = r.below(100), i;
	if (depth > 0 && w < 30)
	{
		bool cap = x.caps < x.maxcaps && r.pct(55);
		i = add(x, cap ? N_CAP : N_GROUP); if (cap) x.n[i].cap = ++x.caps;
		int c = gen_alt(x, r, depth-1, inlook, incount); x.n[i].k.push_back(c);
		return i;
	}
	if (x.sparse && w < 60) w = 70 + w % 30;
	if (x.deep && r.pct(25))	// groups within groups
	{
		int top = -1, at = -1;
		for (int k = 1 + r.below(x.deep); k > 0; k--, at = i) { bool cap = x.caps < x.maxcaps && r.pct(40); i = add(x, cap ? N_CAP : N_GROUP); if (cap) x.n[i].cap = ++x.caps; if (at < 0) top = i; else x.n[at].k.push_back(i); }
		x.deep = 0; i = gen_atom(x, r, 0, inlook, incount); x.n[at].k.push_back(i);
		return top;
	}
	if (w < 70) { i = add(x, N_CHAR); uint32_t c = letter(x, r); x.n[i].c = c; if (x.forms && r.pct(30)) x.n[i].form = 1 + r.below(4); return i; }
	if (w < 80) return add(x, N_ANY);
	if (w < 92)
	{
		i = add(x, N_CLASS); x.n[i].neg = r.pct(30);
		for (int k = 1 + r.below(3); k > 0; k--) { uint32_t a = letter(x, r), b = r.pct(60) ? a : letter(x, r); if (a == '\n' || !a) a = b = 'c'; if (b == '\n' || !b) b = a; if (b < a) { uint32_t t = a; a = b; b = t; } x.n[i].cls.push_back(a); x.n[i].cls.push_back(b); }
		if (r.pct(25))	// written without escapes where that's allowed
		{
			int f = x.n[i].form = 1 + r.below(x.raw ? 7 : 3); std::vector<uint32_t>& v = x.n[i].cls;
			if (f & 1) v.insert(v.begin(), 2, r.pct(50) ? ']' : '-');
			if (f & 2) v.insert(v.end(), 2, '-');
		}
		return i;
	}
	i = add(x, N_PROP); x.n[i].c = "sdh"[r.below(3)]; return i;
}
static int gen_item(Rx& x, Rng& r, int depth, bool inlook, bool incount)
{
	int w = r.below(100);
	if (incount && !inlook) w = 99;	// the matcher ends a counted repetition that matches nothing, which is the same unless that depends on the place
	if (w < 4) return add(x, N_BOL);
	if (w < 8) return add(x, N_EOL);
	if (w < 13 && depth > 0 && x.shunts < 20 && !incount) { int i = add(x, N_LOOK); x.shunts++; x.looks++; int s = x.caps; x.caps = 99; int c = gen_alt(x, r, depth-1, true, true); x.caps = s; x.n[i].k.push_back(c); return i; }
	bool rep = r.pct(38) && x.shunts < 20, count = rep && r.pct(22) && (!incount || r.pct(30));
	int a = gen_atom(x, r, depth, inlook, incount || count);
	if (!rep || x.shunts >= 20) return a;
	int t = count ? N_COUNT : N_STAR + r.below(3), i = add(x, t); x.shunts++;
	x.n[i].k.push_back(a);
	if (t == N_COUNT) { x.counted++; x.n[i].min = r.pct(8) && !incount ? r.below(r.pct(30) && x.n[a].t < N_CAT ? 252 : 30) : r.below(4); x.n[i].max = r.pct(30) ? 0 : x.n[i].min + r.below(3); if (x.n[i].max < 2) { if (x.n[i].min == 0) x.n[i].max = 2 + r.below(2); else if (x.n[i].max == 0) x.n[i].min++; } }
	return i;
}
static int gen_cat(Rx& x, Rng& r, int depth, bool inlook, bool incount)
{
	int i = add(x, N_CAT), n = r.pct(6) ? 0 : 1 + r.below(x.wide);
	for (int q = 0; q < n; q++) { int c = gen_item(x, r, depth, inlook, incount); x.n[i].k.push_back(c); }
	if (x.lit && r.pct(40)) { int k = x.lit; x.lit = 0; for (; k > 0; k--) { int c = add(x, N_CHAR); uint32_t ch = letter(x, r); x.n[c].c = ch; x.n[i].k.push_back(c); } }
	return i;
}
static int gen_alt(Rx& x, Rng& r, int depth, bool inlook, bool incount)
{
	int i = add(x, N_ALT), n = r.pct(65) ? 1 : 2 + r.below(x.wide > 3 ? 6 : 2);
	for (int q = 0; q < n; q++) { if (q) { if (x.shunts >= 20) break; x.shunts++; } int c = gen_cat(x, r, depth, inlook, incount); x.n[i].k.push_back(c); }
	return i;
}
// how a character is written, and the feature that takes
enum { F_CESC = 1, F_SHORT = 2, F_OCT = 4, F_HEX = 8, F_UNI = 16, F_PROP = 32, F_CLASS = 64, F_QUEST = 0x100, F_STAR = 0x200, F_PLUS = 0x400, F_COUNT = 0x800, F_ALT = 0x1000, F_GROUP = 0x2000, F_CAP = 0x4000, F_NONCAP = 0x8000, F_LOOK = 0x10000, F_BOL = 0x40000, F_EOL = 0x80000, F_ALL = 0xFFFFF, F_ANYQUEST = 0x1000000, F_STARANY = 0x2000000, F_EXTENDED = 0x20000000 };
static int charform(uint32_t c, int form, std::string& o, bool brief = false)	// brief: no more digits than it takes
{
	char b[16];
	const char* e = strchr("nnttrrffbbee", 0);
	switch (c) { case '\n': e = "n"; break; case '\t': e = "t"; break; case '\r': e = "r"; break; case '\f': e = "f"; break; case '\b': e = "b"; break; case 27: e = "e"; break; }
	if (c == 0 && !form) form = 1;
	if (form == 1 && c < 256) { snprintf(b, 16, brief ? c & 1 ? "\\x%X" : "\\x%x" : c & 1 ? "\\x%02X" : "\\x%02x", c); o += b; return F_HEX; }
	if (form == 2 && c <= 0xFFFFF) { snprintf(b, 16, brief ? c & 1 ? "\\u%X" : "\\u%x" : c & 1 ? "\\u%05X" : "\\u%05x", c); o += b; return F_UNI; }
	if ((form == 3 || (form == 4 && c == 0)) && c < 512) { snprintf(b, 16, brief ? "\\%o" : "\\%03o", c); o += b; return F_OCT; }
	if (*e && (c == '\n' || form)) { o += '\\'; o += e; return F_CESC; }
	if (c < 128 && strchr("\\^$.?*+{}[]|() \t#-,", c)) o += '\\';
	put8(o, c);
	return 0;
}
static void classtext(const Node& n, std::string& o);
static void classchar(uint32_t c, std::string& o) { if (c < 128 && strchr("\\^$.?*+{}[]|() \t#-", c)) o += '\\'; put8(o, c); }
static void classtext(const Node& n, std::string& o)
{
	o += n.neg ? "[^" : "[";
	for (size_t k = 0; k < n.cls.size(); k += 2)
	{
		uint32_t a = n.cls[k], b = n.cls[k+1];
		bool plain = (k == 0 && n.form & 1 && (a == ']' || a == '-')) || (k + 2 == n.cls.size() && n.form & 2 && a == '-' && b == '-');
		for (int e = 0; e < (a == b ? 1 : 2); e++)
		{
			uint32_t c = e ? b : a; if (e) o += '-';
			if (plain || (n.form & 4 && c < 128 && c != '\\' && c != ']' && c != '-' && !(c == '^' && k == 0 && !e))) put8(o, c); else classchar(c, o);
		}
	}
	o += ']';
}
static void gap(Rx& x, std::string& o)	// what extended expressions ignore
{
	if (!x.sp || !x.sp->pct(20)) return;
	static const char* const g[] = { " ", "\t", "\n", "  ", " # note\n", " #)*[\\(\n", "\n#\n", "\r\n", " \t # \xC3\xA9 # again\n " };
	o += g[x.sp->below(9)];
}
static void totext(Rx& x, int i, std::string& o)
{
	Node& n = x.n[i]; char b[32];
	switch (n.t)
	{
	case N_CHAR: { size_t at = o.size(); int f = charform(n.c, n.form, o); if (x.forms && f & (F_OCT|F_HEX|F_UNI) && (n.c + at) % 3 != 0) { Rx::Num z = { i, (int)at, (int)(o.size() - at), f }; x.nums.push_back(z); } break; }
	case N_ANY: o += '.'; break;
	case N_CLASS: classtext(n, o); break;
	case N_PROP: o += '\\'; o += (char)n.c; break;
	case N_CAT: for (size_t k = 0; k < n.k.size(); k++) { gap(x, o); totext(x, n.k[k], o); } gap(x, o); break;
	case N_ALT: for (size_t k = 0; k < n.k.size(); k++) { if (k) o += '|'; totext(x, n.k[k], o); } break;
	case N_STAR: totext(x, n.k[0], o); gap(x, o); o += '*'; break;
	case N_PLUS: totext(x, n.k[0], o); gap(x, o); o += '+'; break;
	case N_QUEST: totext(x, n.k[0], o); gap(x, o); o += '?'; break;
	case N_COUNT: totext(x, n.k[0], o); gap(x, o); if (n.max == n.min) snprintf(b, 32, "{%d}", n.min); else if (n.max) snprintf(b, 32, "{%d,%d}", n.min, n.max); else snprintf(b, 32, "{%d,}", n.min); o += b; break;
	case N_BOL: o += '^'; break;
	case N_EOL: o += '$'; break;
	case N_LOOK: o += "(?!"; totext(x, n.k[0], o); o += ')'; break;
	case N_GROUP: o += i & 1 ? "(" : "(?:"; totext(x, n.k[0], o); o += ')'; break;
	case N_CAP: o += "(?<" + gname(x, n.cap) + ">"; totext(x, n.k[0], o); o += ')'; break;
	}
}
static std::string gname(const Rx& x, int k)
{
	char b[40];
	switch (x.names) { case 0: snprintf(b, 40, "g%d", k); return b; case 1: snprintf(b, 40, "Group \xC3\xA9 %d", k); return b; case 2: snprintf(b, 40, "%d", k); return b; case 4: snprintf(b, 40, "%d", k); return std::string(120 + k * 53 % 180, 'm') + b; }
	return std::string(k * 30, 'n') + "!";
}
// The expression as it is read with some features turned off: what they are written with stands for itself
struct Off
{
	Rx& x; int off, rej, used;
	Off(Rx& _x, int _off, int _rej) : x(_x), off(_off), rej(_rej), used(0) {}	// F_ANYQUEST is on if set
	typedef std::vector<int> V;
	void text(V& v, const std::string& t) { for (size_t i = 0; i < t.size(); ) { uint32_t c = (unsigned char)t[i++]; int more = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0; if (more) c &= 0x3F >> more; while (more--) c = c << 6 | (t[i++] & 63); ch(v, c); } }
	void ch(V& v, uint32_t c) { int i = add(x, N_CHAR); x.n[i].c = c; v.push_back(i); }
	bool on(int f) { if (rej & f) used |= f; if (off & f) return false; used |= f; return true; }	// rejected goes before disabled
	void wrap(int i) { V v; for (size_t q = 0; q < x.n[i].k.size(); q++) { V w = seq(x.n[i].k[q]); v.insert(v.end(), w.begin(), w.end()); } int c = add(x, N_CAT); x.n[c].k = v; x.n[i].k = V(1, c); }
	void kids(int i) { V k = x.n[i].k, v; for (size_t q = 0; q < k.size(); q++) { V w = seq(k[q]); v.insert(v.end(), w.begin(), w.end()); } x.n[i].k = v; }
	V seq(int i)
	{
		V v; Node n = x.n[i];
		switch (n.t)
		{
		case N_CHAR: { std::string o; int f = charform(n.c, n.form, o, n.brief); if (f && !on(f)) text(v, o.substr(1)); else v.push_back(i); break; }
		case N_CLASS:
			if (on(F_CLASS)) { v.push_back(i); break; }
			ch(v, '['); if (n.neg) { if (on(F_BOL)) v.push_back(add(x, N_BOL)); else ch(v, '^'); }
			for (size_t k = 0; k < n.cls.size(); k += 2) { ch(v, n.cls[k]); if (n.cls[k+1] != n.cls[k]) { ch(v, '-'); ch(v, n.cls[k+1]); } }
			ch(v, ']'); break;
		case N_ANY: if (off & F_ANYQUEST) ch(v, '.'); else v.push_back(i); break;
		case N_PROP: if (on(F_SHORT)) v.push_back(i); else ch(v, n.c); break;
		case N_STAR: case N_PLUS: case N_QUEST: case N_COUNT:
		{
			v = seq(n.k[0]);
			if (n.t == N_QUEST && off & F_ANYQUEST) { v.push_back(add(x, N_ANY)); break; }
			if (on(n.t == N_STAR ? F_STAR : n.t == N_PLUS ? F_PLUS : n.t == N_QUEST ? F_QUEST : F_COUNT)) { x.n[i].k[0] = v.back(); v.back() = i; break; }
			if (n.t != N_COUNT) { ch(v, n.t == N_STAR ? '*' : n.t == N_PLUS ? '+' : '?'); break; }
			char b[32]; if (n.max == n.min) snprintf(b, 32, "{%d}", n.min); else if (n.max) snprintf(b, 32, "{%d,%d}", n.min, n.max); else snprintf(b, 32, "{%d,}", n.min);
			text(v, b); break;
		}
		case N_ALT:
			kids(i); v.push_back(i);
			if (n.k.size() > 1 && !on(F_ALT)) { V k = x.n[i].k, w; for (size_t q = 0; q < k.size(); q++) { if (q) ch(w, '|'); w.push_back(k[q]); } x.n[i].t = N_CAT; x.n[i].k = w; }
			break;
		case N_BOL: if (on(F_BOL)) v.push_back(i); else ch(v, '^'); break;
		case N_EOL: if (on(F_EOL)) v.push_back(i); else ch(v, '$'); break;
		case N_GROUP: used |= F_GROUP | (i & 1 ? 0 : F_NONCAP); wrap(i); v.push_back(i); break;
		case N_CAP: used |= F_GROUP | F_CAP; wrap(i); v.push_back(i); break;
		case N_LOOK: used |= F_GROUP | F_LOOK; wrap(i); v.push_back(i); break;
		default: kids(i); v.push_back(i); break;
		}
		return v;
	}
};
// offsets in the compiled form that just do or just don't fit into a byte, or two, within an expression whose offsets may need three
static int edge(Rx& x, Rng& r, int depth, bool inlook)
{
	int c = add(x, N_CAT), n = r.pct(12) ? 500 + r.below(24) : r.pct(70) ? 22 + r.below(14) : r.below(4), inner = r.below(3);
	for (int part = 0; part < 3; part++)
	{
		if (part == inner && depth > 0 && x.n.size() < 1500 && r.pct(70)) { int k = edge(x, r, depth-1, inlook); x.n[c].k.push_back(k); }
		for (int k = part == 1 ? n : r.below(3); k > 0; k--) { int l = add(x, N_CHAR); x.n[l].c = r.pct(90) || x.wide == 1 ? 'a' + r.below(3) : letter(x, r); x.n[c].k.push_back(l); }
	}
	int w = r.below(inlook ? 9 : 10), i;
	if (x.n[c].k.empty()) return c;
	if (w < 3)
	{
		int a = add(x, N_ALT); x.n[a].k.push_back(c);
		for (int q = 1 + r.below(3); q > 0; q--) { int e = depth > 0 && r.pct(60) ? edge(x, r, depth-1, inlook) : add(x, N_CAT); if (x.n[e].t != N_CAT) { int z = add(x, N_CAT); x.n[z].k.push_back(e); e = z; } x.n[a].k.insert(r.pct(50) ? x.n[a].k.begin() : x.n[a].k.end(), e); x.shunts++; }
		c = a;
	}
	if (w == 9) { x.looks++; i = add(x, N_LOOK); x.n[i].k.push_back(c); return i; }
	bool cap = !inlook && x.caps < 7 && r.pct(30); int g = add(x, cap ? N_CAP : N_GROUP); if (cap) x.n[g].cap = ++x.caps; x.n[g].k.push_back(c);
	if (w == 3 || w == 8) return g;
	if (w == 7) { for (size_t q = 0; q < x.n.size(); q++) if (x.n[q].t == N_LOOK) w = 6; }	// no look-ahead in a counted repetition
	x.shunts++; i = add(x, w < 6 ? N_STAR : w == 6 ? r.pct(50) ? N_PLUS : N_QUEST : N_COUNT); x.n[i].k.push_back(g); if (w == 7) { x.counted++; x.n[i].min = r.below(2); x.n[i].max = 2; }
	return i;
}
static void renumber(Rx& x, int i, bool inlook)	// groups are numbered in the order in which they start; look-aheads have none
{
	if (x.n[i].t == N_CAP) { if (inlook) x.n[i].t = N_GROUP; else x.n[i].cap = ++x.caps; }
	for (size_t k = 0; k < x.n[i].k.size(); k++) renumber(x, x.n[i].k[k], inlook || x.n[i].t == N_LOOK);
}
static Rx mkrx(int seed, int depth, int mode = 0)
{
	Rng r((uint64_t)seed * 104729 + 3); Rx x; x.caps = x.shunts = x.counted = x.looks = 0; x.wide = r.pct(20) ? 3 + r.below(6) : 3; x.sparse = r.pct(30);
	x.maxcaps = r.pct(15) ? 3 + r.below(5) : 2; x.names = r.pct(70) ? 0 : 1 + r.below(4); x.lit = r.pct(4) ? 100 + r.below(500) : 0; x.deep = r.pct(6) ? 1 + r.below(6) : 0; x.alpha = mode || r.pct(10); x.forms = mode || r.pct(10); x.ext = false; x.raw = !mode; x.sp = 0;
	if (r.pct(4))
	{
		x.alpha = x.names = 0; x.wide = r.pct(95) ? 1 : 3;	// 1: ASCII only; compiling takes time quadratic in the length of other expressions
		x.root = add(x, N_ALT); int c = add(x, N_CAT), l = add(x, N_CAT); int times = 1 + r.below(3); for (; times > 0; times--) { int e = edge(x, r, 2, false); x.n[c].k.push_back(e); }
		for (int k = r.pct(15) ? r.below(60) : 300 + r.below(400); k > 0; k--) { int e = add(x, N_CHAR); x.n[e].c = r.pct(90) || x.wide == 1 ? 'a' + r.below(3) : letter(x, r); x.n[l].k.push_back(e); }
		if (r.pct(50)) { x.n[x.root].k.push_back(c); if (r.pct(70)) { x.n[x.root].k.push_back(l); x.shunts++; } }
		else { x.n[x.root].k.push_back(l); int o = add(x, N_QUEST), g = add(x, N_GROUP); x.n[g].k.push_back(l); x.n[o].k.push_back(g); x.n[x.root].k[0] = add(x, N_CAT); x.n[x.n[x.root].k[0]].k.push_back(o); x.n[x.n[x.root].k[0]].k.push_back(c); x.shunts++; }
		x.caps = 0; renumber(x, x.root, false);
	}
	else
		x.root = gen_alt(x, r, depth, false, false);
	Rng sp((uint64_t)seed * 15485863 + 1); if (mode == 2) { x.ext = true; x.sp = &sp; }
	totext(x, x.root, x.text);
	for (size_t k = x.nums.size(); k-- > 0; )	// shorter where no digit follows
	{
		const Rx::Num& z = x.nums[k]; size_t e = z.at + z.len; char c = e < x.text.size() ? x.text[e] : 0; std::string o;
		if (z.f == F_OCT ? c >= '0' && c <= '7' : isxdigit((unsigned char)c)) continue;
		x.n[z.node].brief = true; charform(x.n[z.node].c, x.n[z.node].form, o, true); x.text.replace(z.at, z.len, o);
	}
	if (mode == 2 && sp.pct(10)) x.text += sp.pct(50) ? " #" : "\n# the end ( [";
	x.sp = 0;
	return x;
}
static void manycaps(Rx& x, int n, Rng& r)	// named groups, up to the most there can be
{
	x.n.clear(); x.caps = n; x.counted = x.looks = 0; x.names = r.below(3); x.text.clear(); x.root = add(x, N_CAT);
	for (int i = 1; i <= n; i++) { int g = add(x, N_CAP), c = add(x, N_CHAR); x.n[c].c = 'a' + r.below(2); x.n[g].cap = i; x.n[g].k.push_back(c); if (r.pct(60)) { int q = add(x, N_QUEST); x.n[q].k.push_back(g); g = q; } x.n[x.root].k.push_back(g); }
	totext(x, x.root, x.text);
}
typedef std::vector<uint32_t> US;
static bool inclass(const Node& n, uint32_t c) { for (size_t k = 0; k < n.cls.size(); k += 2) if (c >= n.cls[k] && c <= n.cls[k+1]) return true; return false; }
static void sample(const Rx& x, int i, Rng& r, US& o)	// a text that probably matches
{
	const Node& n = x.n[i];
	if (o.size() > 700) return;
	switch (n.t)
	{
	case N_CHAR: o.push_back(n.c); break;
	case N_ANY: o.push_back(letter(x, r)); break;
	case N_PROP: { uint32_t c; do c = letter(x, r); while (!isprop(n.c, c)); o.push_back(c); break; }
	case N_CLASS: { uint32_t c = n.neg ? letter(x, r) : n.cls[r.below(n.cls.size())]; for (int k = 0; k < 20 && inclass(n, c) == n.neg; k++) c = letter(x, r); o.push_back(c); break; }
	case N_CAT: case N_GROUP: case N_CAP: for (size_t k = 0; k < n.k.size(); k++) sample(x, n.k[k], r, o); break;
	case N_ALT: if (!n.k.empty()) sample(x, n.k[r.below(n.k.size())], r, o); break;
	case N_STAR: case N_PLUS: case N_QUEST: case N_COUNT:
	{
		int lo = n.t == N_PLUS ? 1 : n.t == N_COUNT ? n.min : 0, hi = n.t == N_QUEST ? 1 : n.t == N_COUNT && n.max ? n.max : lo + 2 + (r.pct(10) ? 20 : 0);
		for (int k = lo + r.below(hi - lo + 1); k > 0; k--) sample(x, n.k[0], r, o);
		break;
	}
	default: break;
	}
}
static double weight(const Rx& x, int i)	// of how many places at most a matcher has to keep track
{
	const Node& n = x.n[i]; double w = 1;
	for (size_t k = 0; k < n.k.size(); k++) w += weight(x, n.k[k]);
	if (n.t == N_CHAR) w += 1;
	if (n.t == N_CLASS) w += n.cls.size();
	if (n.t == N_CAP) w += 2;
	if (n.t == N_COUNT) w *= 1 + (n.max ? n.max : n.min);
	return w;
}
static US sampled(const Rx& x, Rng& r)
{
	US u, v; int n = r.pct(40) ? 0 : r.below(r.pct(10) ? 60 : 6);
	for (int i = 0; i < n; i++) u.push_back(letter(x, r));
	if (n && r.pct(30)) u.push_back('\n');
	sample(x, x.root, r, u); if (r.pct(15)) sample(x, x.root, r, u);
	if (r.pct(25) && !u.empty()) { int at = r.below(u.size()); if (r.pct(50)) u.erase(u.begin() + at); else u[at] = letter(x, r); }
	n = r.pct(40) ? 0 : r.below(r.pct(10) ? 60 : 6); if (n && r.pct(30)) u.push_back('\n');
	for (int i = 0; i < n; i++) u.push_back(letter(x, r));
	double most = 20000 / weight(x, x.root); if (x.looks) most /= 4; if (most < 30) most = x.counted && u.size() < 280 && r.pct(5) ? 280 : 30; if (u.size() > most) u.resize((size_t)most);
	return u;
}
static US mktext(int seed, int len) { Rng r((uint64_t)seed * 31337 + 7); US u; for (int i = 0; i < len; i++) u.push_back(LETTERS[r.below(r.pct(70) ? 5 : 10)]); return u; }
static std::string enc(const US& u) { std::string o; for (size_t i = 0; i < u.size(); i++) put8(o, u[i]); return o; }
static std::string show(const std::string& b) { std::string o; for (size_t i = 0; i < b.size(); i++) { char t[8]; unsigned char c = b[i]; if (c == '\n') o += "\\n"; else if (c >= 32 && c < 127) o += (char)c; else { snprintf(t, 8, "\\x%02X", c); o += t; } } return o; }

// ------------------------------------------------------------ the reference matcher: all paths
typedef std::vector<int> Caps;		// start, end of each group (0,0 when unset)
struct St { int pos; Caps c; bool operator<(const St& o) const { return pos != o.pos ? pos < o.pos : c < o.c; } };
typedef std::set<St> Set;
static bool g_toobig; static long g_work;
static Set step(const Rx& x, int i, const US& t, const Set& in)
{
	Set out; const Node& n = x.n[i];
	if ((g_work += in.size()) > 6000) { g_toobig = true; return out; }
	switch (n.t)
	{
	case N_CHAR: case N_ANY: case N_CLASS: case N_PROP:
		for (Set::const_iterator s = in.begin(); s != in.end(); ++s)
		{
			if (s->pos >= (int)t.size()) continue;
			uint32_t c = t[s->pos]; bool ok = true;
			if (n.t == N_CHAR) ok = c == n.c;
			if (n.t == N_CLASS) ok = inclass(n, c) != n.neg;
			if (n.t == N_PROP) ok = isprop(n.c, c);
			if (ok) { St q = *s; q.pos++; out.insert(q); }
		}
		break;
	case N_CAT: out = in; for (size_t k = 0; k < n.k.size(); k++) out = step(x, n.k[k], t, out); break;
	case N_ALT: for (size_t k = 0; k < n.k.size(); k++) { Set o = step(x, n.k[k], t, in); out.insert(o.begin(), o.end()); } break;
	case N_GROUP: out = step(x, n.k[0], t, in); break;
	case N_CAP:
		for (Set::const_iterator s = in.begin(); s != in.end(); ++s)
		{
			St q = *s; q.c[n.cap*2-2] = q.pos; Set one; one.insert(q); Set o = step(x, n.k[0], t, one);
			for (Set::iterator z = o.begin(); z != o.end(); ++z) { St w = *z; w.c[n.cap*2-1] = w.pos; out.insert(w); }
		}
		break;
	case N_QUEST: out = step(x, n.k[0], t, in); out.insert(in.begin(), in.end()); break;
	case N_STAR: case N_PLUS: case N_COUNT:
	{
		int min = n.t == N_STAR ? 0 : n.t == N_PLUS ? 1 : n.min, max = n.t == N_COUNT && n.max ? n.max : 1000;
		Set cur = in; if (min == 0) out = in;
		for (int k = 1; k <= max && !g_toobig; k++)
		{
			Set nx = step(x, n.k[0], t, cur); size_t before = out.size();
			if (k >= min) out.insert(nx.begin(), nx.end());
			if (nx.empty() || (k > min && out.size() == before)) break;
			cur = nx;
		}
		break;
	}
	case N_BOL: for (Set::const_iterator s = in.begin(); s != in.end(); ++s) if (s->pos == 0 || t[s->pos-1] == '\n') out.insert(*s); break;
	case N_EOL: for (Set::const_iterator s = in.begin(); s != in.end(); ++s) if (s->pos == (int)t.size() || t[s->pos] == '\n') out.insert(*s); break;
	case N_LOOK: for (Set::const_iterator s = in.begin(); s != in.end(); ++s) { Set one; one.insert(*s); if (step(x, n.k[0], t, one).empty()) out.insert(*s); } break;
	}
	if (out.size() > 400) { g_toobig = true; out.clear(); }
	return out;
}
struct RefM { bool known, ok; int at, len; std::set<Caps> caps; };
static RefM reference(const Rx& x, const US& t, int offset, bool anchored)
{
	RefM f; f.known = true; f.ok = false; f.at = f.len = 0; g_toobig = false; g_work = 0;
	for (int s = offset; s <= (int)t.size(); s++)
	{
		St q; q.pos = s; q.c.assign(x.caps*2, 0); Set one; one.insert(q);
		Set o = step(x, x.root, t, one);
		if (g_toobig) { f.known = false; return f; }
		if (!o.empty())
		{
			f.ok = true; f.at = s; f.len = o.rbegin()->pos - s;
			for (Set::iterator z = o.begin(); z != o.end(); ++z) if (z->pos == s + f.len) f.caps.insert(z->c);
			return f;
		}
		if (anchored) break;
	}
	return f;
}

#include "rx_listing.h"
// ------------------------------------------------------------ state
struct Exp { bool set, ok; int at, len; Caps c; Exp() : set(false), ok(false), at(0), len(0) {} };
template<class T, int N> struct Pool { char raw[MAXA][N][sizeof(T)] __attribute__((aligned(16))); T& operator()(int a, int i) { return *(T*)raw[a][i]; } };
static Rx rx[NP]; static char* nfa[NP]; static int nfa_len[NP]; static std::string nfa_copy[NP]; static char prog_raw[NP][sizeof(RxProgram)] __attribute__((aligned(16)));
static char comp_raw[NP][sizeof(RxCompiler)] __attribute__((aligned(16))); static int listing[NP];
static RxCompiler& comp(int k) { return *(RxCompiler*)comp_raw[k]; }
static RxProgram& prog(int k) { return *(RxProgram*)prog_raw[k]; }
static Pool<RxResult,NR> R; static Exp er[MAXA][NR]; static Pool<RxResult,1> bR; static Exp xr[NBOX];
static Pool<StrVal,NTX> T; static US tx[NTX];
static std::vector<Exp> expected; static std::vector<RefM> refs;
static int busy[NP], nactors; static uint64_t base_live;
static int nprog, oom_mode;

static int text_at(const SimOp& op) { int n = (int)tx[op.b % NTX].size(); return op.c & 1 ? (op.c >> 1) % (n+1) : 0; }
static int text_len(const SimOp& op) { int n = (int)tx[op.b % NTX].size() - text_at(op); return op.c & 1 ? n - (op.c >> 6) % (n+1) / 2 : n; }
static int match_at(const SimOp& op) { int n = text_len(op); return op.d & 2 ? (op.d >> 2) % (n+1) : 0; }
static US op_text(const SimOp& op) { const US& u = tx[op.b % NTX]; return US(u.begin()+text_at(op), u.begin()+text_at(op)+text_len(op)); }

static Exp observe(const RxResult& r, int caps, bool all = false)
{
	Exp e; e.set = true; e.ok = r.succeeded(); e.at = (int)r.offset(); e.len = (int)r.length();
	int q[40]; int n = 0;
	if (e.ok) for (int k = 2; k < 2 + 2*caps; k++) q[n++] = (int)r.capture(k);
	if (e.ok && all) { int m = r.captureMax(); MODEL; if (m != caps+1) sim_fail("wrong-captures", "the result of matching an expression with %d groups says that it has %d captures, the whole match included", caps, m); }
	MODEL; if (!e.ok) e.at = 0; e.c.assign(q, q+n); return e;
}
static std::string str(const Exp& e) { char b[900]; if (!e.ok) return "no match"; int n = snprintf(b, 200, "at %d length %d", e.at, e.len); for (size_t i = 0; i < e.c.size(); i += 2) n += snprintf(b+n, 900-n, ", group %d from %d to %d", (int)i/2+1, e.c[i], e.c[i+1]); return b; }
static bool same(const Exp& a, const Exp& b) { return a.ok == b.ok && (!a.ok || (a.at == b.at && a.len == b.len && a.c == b.c)); }

static bool calm[MAXA];	// this thread repeats an operation with memory available
static void lib_begin(int A) { MODEL; sim_alloc_failed(); if (oom_mode && !calm[A]) sim_alloc_faults(1); }
static bool lib_end(bool o)
{
	MODEL; sim_alloc_faults(0); int n = sim_alloc_failed();
	if (o && !n) sim_fail("bad-alloc", "bad_alloc was thrown although no allocation failed");
	if (!o && n) sim_fail("swallowed", "an allocation failed but the operation returned normally");
	return o;
}
#define LIB(...) ({ bool o_ = false; lib_begin(A); try { __VA_ARGS__; } catch (const std::bad_alloc&) { o_ = true; } lib_end(o_); })

static void check_result(int A, int i, const char* what)
{
	int caps; { MODEL; if (!er[A][i].set) return; caps = (int)er[A][i].c.size()/2; }
	Exp got = observe(R(A,i), caps);
	MODEL;
	if (!same(got, er[A][i])) sim_fail("wrong-result", "%s: result %d reads as %s, not %s", what, i, str(got).c_str(), str(er[A][i]).c_str());
}
static void check_nfa(const char* what) { MODEL; for (int k = 0; k < nprog; k++) if (!sim_check_range(nfa[k], nfa_len[k]) || memcmp(nfa[k], nfa_copy[k].data(), nfa_len[k])) sim_fail("program-changed", "%s: the compiled form of /%s/ has changed", what, show(rx[k].text).c_str()); }
static void verdict(const SimOp& op, int index, const Exp& got, const char* what)
{
	MODEL;
	const Rx& x = rx[op.a % nprog]; std::string re = show(x.text), t = show(enc(op_text(op)));
	if (!same(got, expected[index])) sim_fail("wrong-result", "%s: /%s/ on \"%s\" from %d%s gives %s; alone it gives %s", what, re.c_str(), t.c_str(), match_at(op), op.d & 1 ? " (anchored)" : "", str(got).c_str(), str(expected[index]).c_str());
	sim_probe(got.ok ? P_MATCHED : P_NOTMATCHED);
	for (size_t k = 1; k < got.c.size(); k += 2) if (got.c[k]) sim_probe(P_CAPTURED);
	if (x.looks) sim_probe(P_LOOK); if (x.counted) sim_probe(P_COUNT);
	const RefM& f = refs[index];
	if (!f.known) { sim_probe(P_TOOBIG); return; }
	sim_probe(P_REF);
	if (got.ok != f.ok || (f.ok && (got.at != f.at || got.len != f.len))) sim_fail("wrong-match", "/%s/ on \"%s\" from %d%s gives %s; the leftmost longest match is %s at %d length %d", re.c_str(), t.c_str(), match_at(op), op.d & 1 ? " (anchored)" : "", str(got).c_str(), f.ok ? "" : "none", f.at, f.len);
	if (f.ok && !f.caps.count(got.c)) sim_fail("wrong-captures", "/%s/ on \"%s\" from %d%s gives %s, which is no way to match", re.c_str(), t.c_str(), match_at(op), op.d & 1 ? " (anchored)" : "", str(got).c_str());
}
static std::string garbage(const SimOp& op)
{
	Rng r((uint64_t)op.a * 7919 + op.b * 104729 + op.c * 31 + op.d); std::string o;
	static const char* const bits[] = { "a","b","1","(","(?<g","(?:","(?!","(?<g>",")",")","|","*","+","?","{","{2","{2,","{2,3}","}",",","[","[^","]","-","\\","\\s","\\p{","\\x","\\u","\\0",".","^","$",">",":","\xC3\xA9","\xC3","\xFF","{,2}"," " };
	if (r.pct(50)) { o = mkrx(r.below(1000000), r.below(3)).text; for (int k = 1 + r.below(2); k > 0; k--) { size_t at = r.below(o.size()+1); if (r.pct(50) && o.size()) o.erase(at, 1 + r.below(3)); else o.insert(at, bits[r.below(40)]); } }
	else for (int k = 1 + r.below(9); k > 0; k--) o += bits[r.below(40)];
	return o;
}
// one match of an expression of one's own, compared with the reference
struct Try
{
	US* u; std::string* bytes; RefM* f; int at; bool anchored, had; Exp* got;
	Try() : u(0), bytes(0), f(0), at(0), anchored(false), had(false), got(0) {}
	void make(const Rx& x, const US& _u, const SimOp& op, bool noref = false) { u = new US(_u); bytes = new std::string(enc(_u)); at = op.d & 2 ? (op.d >> 2) % (_u.size() + 1) : 0; anchored = op.d & 1; f = noref ? 0 : new RefM(reference(x, _u, at, anchored)); got = new Exp; }
	void run(const RxProgram& p, int caps) { StrVal s(bytes->data(), (StrValIndex)bytes->size()); RxResult r = anchored ? p.matchAt(s, at) : p.matchAfter(s, at); Exp e = observe(r, caps); MODEL; *got = e; had = true; }
	void judge(const std::string& text, const Rx& x, const char* how)
	{
		if (!f->known) { sim_probe(P_TOOBIG); return; }
		sim_probe(P_REF); if (f->ok) sim_probe(P_FMATCH); if (u->size() > 100) sim_probe(P_LONG);
		std::string re = show(text), t = show(*bytes); (void)x;
		if (got->ok != f->ok || (f->ok && (got->at != f->at || got->len != f->len))) sim_fail("wrong-match", "/%s/%s on \"%s\" from %d%s gives %s; the leftmost longest match is %s at %d length %d", re.c_str(), how, t.c_str(), at, anchored ? " (anchored)" : "", str(*got).c_str(), f->ok ? "" : "none", f->at, f->len);
		if (f->ok && !f->caps.count(got->c)) sim_fail("wrong-captures", "/%s/%s on \"%s\" from %d%s gives %s, which is no way to match", re.c_str(), how, t.c_str(), at, anchored ? " (anchored)" : "", str(*got).c_str());
	}
	void drop() { delete u; delete bytes; delete f; delete got; }
};
static int op_seed(const SimOp& op) { return op.a * 7919 + op.b * 104729 + op.c * 31 + op.d; }
static void refusal(bool ok, const char* msg, int at, const char* q, const std::string& text, const char* how)
{
	if (ok) { if (msg) sim_fail("wrong-compile", "/%s/%s compiles, but with the message \"%s\"", show(text).c_str(), how, msg); return; }
	if (q) sim_fail("leak", "a compilation that failed left a result behind");
	if (!msg) sim_fail("no-message", "/%s/%s is refused without a message", show(text).c_str(), how);
	if (at < 0 || at > (int)text.size()) sim_fail("no-message", "/%s/%s is refused at %d, which is not in it", show(text).c_str(), how, at);
}
static bool definite(const char* why) { static const char* const d[] = { "Rejected feature", "Duplicate name", "Too many closing parentheses", "Repeating a repetition is disallowed", "Nesting too deep", "Min and Max repetition are limited to 254" }; for (int i = 0; i < 6; i++) if (why && !strcmp(why, d[i])) return true; return false; }
// ------------------------------------------------------------ work
#define WORK_PER_UNIT	60.0
#define BLOCKS_PER_UNIT	100.0
static int amb(Rx& x, Rng& r, int depth, int& left)	// the kind of expression that is hard for a matcher that goes back
{
	int w = depth <= 0 || left <= 0 ? 9 : r.below(10), i; left--;
	if (w < 3) { i = add(x, N_STAR + r.below(3)); int c = amb(x, r, depth-1, left); int g = add(x, N_GROUP); x.n[g].k.push_back(c); x.n[i].k.push_back(g); x.shunts++; return i; }
	if (w < 6) { int g = add(x, N_GROUP), a = add(x, N_ALT); x.n[g].k.push_back(a); for (int q = 2 + r.below(2); q > 0; q--) { int c = amb(x, r, depth-1, left), l = add(x, N_CAT); if (!r.pct(15)) x.n[l].k.push_back(c); x.n[a].k.push_back(l); } return g; }
	if (w < 8) { i = add(x, N_CAT); for (int q = 1 + r.below(4); q > 0; q--) { int c = amb(x, r, depth-1, left); x.n[i].k.push_back(c); } int g = add(x, N_GROUP); x.n[g].k.push_back(i); return g; }
	if (w < 9 && x.counted < 2) { x.counted++; i = add(x, N_COUNT); int c = amb(x, r, depth-1, left); int g = add(x, N_GROUP); x.n[g].k.push_back(c); x.n[i].k.push_back(g); x.n[i].min = 2 + r.below(3); x.n[i].max = r.pct(50) ? 0 : x.n[i].min + r.below(3); return i; }
	if (r.pct(20)) return add(x, N_ANY);
	i = add(x, N_CHAR); x.n[i].c = r.pct(85) ? 'a' : 'b'; if (r.pct(35)) { int k = add(x, N_STAR + r.below(3)); x.n[k].k.push_back(i); return k; } return i;
}
static void empties(Rx& x, Rng& r, int at)	// alternatives that can all be empty, one after the other
{
	for (int k = 2 + r.below(22); k > 0; k--)
	{
		int g = add(x, N_GROUP), a = add(x, N_ALT); x.n[g].k.push_back(a);
		for (int q = 1 + r.below(3); q >= 0; q--) { int l = add(x, N_CAT); if (!r.pct(30)) { int s = add(x, r.pct(50) ? N_STAR : N_QUEST), c = add(x, N_CHAR); x.n[c].c = r.pct(80) ? 'a' : 'b'; x.n[s].k.push_back(c); x.n[l].k.push_back(s); } x.n[a].k.push_back(l); }
		if (r.pct(20)) { int s = add(x, N_STAR + r.below(3)); x.n[s].k.push_back(g); g = s; }
		x.n[at].k.push_back(g);
	}
}
static Rx ambiguous(Rng& r, bool small = false)
{
	Rx x; x.caps = x.shunts = x.counted = x.looks = 0; x.sparse = x.ext = x.forms = x.raw = false; x.sp = 0; x.maxcaps = 0; x.names = 9; x.lit = x.deep = x.alpha = 0; x.wide = 0;
	x.root = add(x, N_CAT); int left = small ? 2 + r.below(8) : 4 + r.below(24), times = r.pct(40) ? 2 + r.below(24) : 1, depth = 1 + r.below(4);
	if (!small && r.pct(20)) { empties(x, r, x.root); times = 0; }
	for (; times > 0 && left > (small ? -6 : -40); times--) { int c = amb(x, r, depth, left); if (times > 1 && left < 1) left = 1 + r.below(3); x.n[x.root].k.push_back(c); }
	if (r.pct(70)) { int c = add(x, N_CHAR); x.n[c].c = 'c'; x.n[x.root].k.push_back(c); }
	totext(x, x.root, x.text);
	return x;
}
static US worktext(const Rx& x, Rng& r)
{
	US u; int n = r.pct(30) ? r.below(12) : r.pct(80) ? 12 + r.below(60) : 100 + r.below(300);
	if (weight(x, x.root) > 120 && n > 40) n = 40;
	if (x.names != 9 && r.pct(60)) { for (int k = 0; k < 8 && (int)u.size() < n; k++) { US v = sampled(x, r); u.insert(u.end(), v.begin(), v.end()); } if ((int)u.size() > n + 50) u.resize(n + 50); return u; }
	for (int i = 0; i < n; i++) u.push_back(r.pct(x.names == 9 ? 97 : 50) ? 'a' : 'b');
	return u;
}
static RxResult do_match(int A, const RxProgram& p, const SimOp& op)
{
	const StrVal& whole = T(A, op.b % NTX);
	if (op.c & 1) { StrVal s = whole.substr(text_at(op), text_len(op)); return op.d & 1 ? p.matchAt(s, match_at(op)) : p.matchAfter(s, match_at(op)); }
	return op.d & 1 ? p.matchAt(whole, match_at(op)) : p.matchAfter(whole, match_at(op));
}
static void set_result(int A, int i, const Exp& e) { MODEL; er[A][i] = e; }
extern "C" void sim_collect_output(std::string* to);	// what this thread prints
static std::string* list(const RxCompiler& c, const char* code, int len, int how)
{
	std::string* o; { MODEL; o = new std::string; sim_collect_output(o); }
	if (how == 0) c.dump(code);
	else if (how == 1) { c.dumpHex(code); for (const char* np = code; np < code+len; ) if (!RxCompiler::dumpInstruction(code, np)) break; }
	else for (const char* np = code; np < code+len; ) if (!RxCompiler::dumpInstruction(code, np)) break;
	sim_collect_output(0);
	return o;
}
static void listed(const std::string& out, const char* code, int len, const Rx& x, const RxProgram& p, const US& u, int at, bool anchored, int how)
{
	Listing* l; bool ok, found = false; int from = 0, n = 0; std::string* b; StrValIndex size;
	{ MODEL; if (getenv("RX_SHOW")) fprintf(stderr, "/%s/\n%s", show(x.text).c_str(), out.c_str()); l = new Listing; ok = l->read(out, code, len, x, how != 2); if (!ok) sim_fail("wrong-listing", "the listing of /%s/: %s", show(x.text).c_str(), l->bad.c_str()); b = new std::string(enc(u)); size = (StrValIndex)b->size(); }
	if (p.maxCapture() != x.caps + 1) { MODEL; sim_fail("wrong-listing", "/%s/ is said to capture %d groups with the match, not %d", show(x.text).c_str(), p.maxCapture(), x.caps + 1); }
	{ StrVal t(b->data(), size); RxResult r = anchored ? p.matchAt(t, at) : p.matchAfter(t, at); found = r.succeeded(); from = (int)r.offset(); n = (int)r.length(); }
	MODEL;
	sim_probe(P_LISTED); if (len > 700) sim_probe(P_LISTFAR); if (x.counted) sim_probe(P_LISTCOUNT); if (x.looks) sim_probe(P_LISTLOOK); if (x.caps > 1) sim_probe(P_LISTNAMES);
	int e = l->run(anchored ? l->start : l->search, at, u), e2 = found && !l->big ? l->run(l->start, from, u) : -1;
	if (l->big) sim_probe(P_LISTBIG);
	else
	{
		sim_probe(found ? P_LISTMATCH : P_LISTFAIL);
		if ((e >= 0) != found) sim_fail("wrong-listing", "/%s/ on \"%s\" from %d%s gives %s; following its listing gives %s", show(x.text).c_str(), show(*b).c_str(), at, anchored ? " (anchored)" : "", found ? "a match" : "none", e >= 0 ? "one" : "none");
		if (found && e2 != from + n) sim_fail("wrong-listing", "/%s/ on \"%s\" from %d%s matches from %d to %d; following its listing from there ends at %d", show(x.text).c_str(), show(*b).c_str(), at, anchored ? " (anchored)" : "", from, from + n, e2);
	}
	delete l; delete b;
}
static void exec(int A, const SimOp& op)
{
	int index, a = op.e % NR, k = op.a % nprog; const char* nm;
	{ MODEL; nm = opname(op.code); for (index = 0; index < sim_nops; index++) if (!memcmp(&sim_ops[index], &op, sizeof(op))) break; }
	switch (op.code)
	{
	case X_MATCH: case X_OWN:
	{
		for (int attempt = 0; attempt < 2; attempt++)	// after a failure, try once more with memory available
		{
			bool oom; Exp got; bool had = false;
			{ MODEL; if (busy[k]) sim_probe(P_OVERLAP); busy[k]++; }
			calm[A] = attempt;
			if (op.code == X_MATCH) oom = LIB({ RxResult r = do_match(A, prog(k), op); R(A,a) = r; got = observe(r, rx[k].caps, true); had = true; });
			else
			{	// a program of its own, owning a copy of the compiled form
				oom = LIB({ char* c = new char[nfa_len[k]]; memcpy(c, nfa[k], nfa_len[k]); RxProgram* p = 0; try { p = new RxProgram(c, true); } catch (...) { delete[] c; throw; } try { RxResult r = do_match(A, *p, op); R(A,a) = r; got = observe(r, rx[k].caps); had = true; } catch (...) { delete p; throw; } delete p; });
			}
			{ MODEL; calm[A] = false; busy[k]--; }
			if (oom) { { MODEL; sim_probe(P_OOM); } check_nfa(nm); for (int i = 0; i < NR; i++) if (i != a || !had) check_result(A, i, nm); if (had) set_result(A, a, got); continue; }
			set_result(A, a, got);
			verdict(op, index, got, attempt ? "after an allocation failure" : nm);
			break;
		}
		break;
	}
	case X_COPY: { int b = op.b % NR; if (op.d & 1) { RxResult q(R(A,b)); R(A,a) = q; } else R(A,a) = R(A,b); { MODEL; er[A][a] = er[A][b]; } check_result(A, a, nm); check_result(A, b, nm); break; }
	case X_READ: check_result(A, a, nm); break;
	case X_DROP: { if (op.d & 1) R(A,a).clear(); else R(A,a) = RxResult(); { MODEL; er[A][a] = Exp(); } break; }
	case X_SEND: { int b = op.b % NBOX; sim_lock(b); bR(b,0) = R(A,a); { MODEL; xr[b] = er[A][a]; } sim_unlock(b); break; }
	case X_RECV: { int b = op.b % NBOX; sim_lock(b); R(A,a) = bR(b,0); { MODEL; er[A][a] = xr[b]; if (xr[b].set) sim_probe(P_HANDOVER); } sim_unlock(b); check_result(A, a, nm); break; }
	case X_COMPILE:
	{
		char* again = 0; bool ok = false; int len = nfa_len[k]; char* text; { MODEL; text = (char*)rx[k].text.c_str(); }
		for (int attempt = 0; attempt < 2; attempt++)
		{
			calm[A] = attempt;
			bool oom = LIB({ RxCompiler c((StrVal(text))); ok = c.compile(again); if (op.d & 1) { delete[] again; again = 0; ok = c.compile(again); } });
			{ MODEL; calm[A] = false; if (oom) sim_probe(P_OOMCOMPILE); }
			if (oom) { delete[] again; again = 0; check_nfa(nm); continue; }
			break;
		}
		{
			MODEL;
			if (!ok) sim_fail("wrong-compile", "/%s/ compiled before, but not now", show(rx[k].text).c_str());
			if (!sim_check_range(again, len) || memcmp(again, nfa_copy[k].data(), len)) sim_fail("wrong-compile", "/%s/ compiles to something else than before", show(rx[k].text).c_str());
		}
		delete[] again;
		break;
	}
	case X_NAME:
	{
		int g = op.b % 9; StrVal name; bool oom = LIB(name = prog(k).group_name(g)); if (oom) break;
		StrValIndex n; const char* p = ((const StrVal&)name).asUTF8(n); MODEL; std::string w; if (g > 0 && g <= rx[k].caps) w = gname(rx[k], g);
		// groups are numbered in the order they occur
		if (std::string(p, n) != w) sim_fail("wrong-name", "group %d of /%s/ is called \"%s\", not \"%s\"", g, show(rx[k].text).c_str(), std::string(p, n).c_str(), w.c_str());
		break;
	}
	case X_ERROR:
	{
		static const char* const bad[] = { "(a", "a)", "[a", "a**", "a{3", "(?<x>a)(?<x>b)", "*", "(?=a)", "(?<x", "a{300}", "((((((((((((((a))))))))))))))", "\\p{x", "[a-\\", "a{5", "a{,", "a{", "a{1,", "a{x}", "a{3,2}", "a{2,300}", "a{,255}", "a{1,x}", "\\x", "\\xG", "\\u", "\\uG1", "a\\", "(?<>a)", "(?<", "(?a)", "(?", "(?!a", "a|(b", "[", "[]", "[^", "[^]", "a|*", "(*a)", "(?<y>a)|(b(?<y>c))", "a?+", "a{2}{3}", "a{1}*", "\\p", "\\px", "a|b)" };
		const int nbad = sizeof(bad)/sizeof(*bad); std::string* s; char* q = 0; bool ok = true, fine = false; const char* msg = 0; int at = 0;
		{
			MODEL; s = new std::string(op.b % (nbad+1) < nbad ? bad[op.b % (nbad+1)] : "");
			if (!s->size()) { int n = op.c % 3 ? 255 : 254; fine = n == 254; for (int i = 0; i < n; i++) { char b[24]; snprintf(b, 24, "(?<n%d>%c)", i, 'a' + i % 3); *s += b; } }	// names for 254 groups, but no more
			else if (op.c % 4 == 0) *s = "x" + *s; else if (op.c % 4 == 1 && s->at(0) != '*') *s = "(?:y|z)" + *s;
			if ((*s)[0] == 'x' && (*s)[1] == '*') s->erase(0, 1);
		}
		const char* t = s->c_str();
		bool oom = LIB({ RxCompiler c((StrVal(t))); ok = c.compile(q); msg = c.errorMessage(); at = c.errorOffset(); });
		if (oom) { delete[] q; { MODEL; delete s; } break; }
		{
			MODEL; if (ok && !fine) sim_fail("accepted", "/%s/ compiles", t);
			if (!ok && fine) sim_fail("wrong-compile", "%s ... does not compile: %s", s->substr(0, 30).c_str(), msg ? msg : "");
			refusal(ok, msg, at, q, *s, ""); delete s;
		}
		delete[] q;
		break;
	}
	case X_GARBAGE:
	{	// any text at all: it compiles or it doesn't, and what compiles can be matched
		const char* t; int n;
		{ MODEL; std::string* s = new std::string(garbage(op)); t = s->c_str(); n = (int)s->size(); if (getenv("RX_SHOW")) fprintf(stderr, "garbage /%s/\n", show(*s).c_str()); }
		char* q = 0; bool ok = false;
		bool oom = LIB({ RxCompiler c(StrVal(t, n)); ok = c.compile(q); });
		if (!oom && ok) LIB({ RxProgram p(q); RxResult r = do_match(A, p, op); });
		if (!oom && !ok) { MODEL; if (q) sim_fail("leak", "a compilation that failed left a result behind"); }
		delete[] q;
		break;
	}
	case X_LIST:
	{
		{ MODEL; if (listing[k]) sim_probe(P_LISTBOTH); listing[k]++; }
		std::string* o = list(comp(k), nfa[k], nfa_len[k], op.e % 3); { MODEL; listing[k]--; }
		US* u; { MODEL; u = new US(op_text(op)); }
		listed(*o, nfa[k], nfa_len[k], rx[k], prog(k), *u, match_at(op), op.d & 1, op.e % 3); { MODEL; delete u; delete o; }
		check_nfa(nm);
		break;
	}
	case X_LISTFRESH:
	{
		Rx* x; US* u; int at;
		{ MODEL; x = new Rx(mkrx(op_seed(op), op.e % 4)); Rng r(op_seed(op)); if (r.pct(2)) manycaps(*x, 30 + r.below(r.pct(50) ? 225 : 100), r); u = new US(r.pct(50) || x->caps > 40 ? op_text(op) : sampled(*x, r)); if (x->caps > 40 && u->size() > 4) u->resize(4); at = r.pct(70) ? 0 : r.below(u->size()+1); }
		char* q = 0; RxCompiler c(StrVal(x->text.c_str(), (StrValIndex)x->text.size())); bool ok = c.compile(q);
		if (!ok) { MODEL; sim_fail("wrong-compile", "/%s/ does not compile", show(x->text).c_str()); }
		int len; { MODEL; len = (int)strlen(q) + 1; }
		std::string* o = list(c, q, len, op.b % 3);
		{ RxProgram p(q); listed(*o, q, len, *x, p, *u, at, op.d & 1, op.b % 3); }
		delete[] q; { MODEL; delete x; delete u; delete o; }
		break;
	}
	case X_LISTANY:
	{	// what any text compiles to, if it does, has a listing that ends with the program
		const char* t; int n; std::string* s;
		{ MODEL; s = new std::string(garbage(op)); t = s->c_str(); n = (int)s->size(); if (getenv("RX_SHOW")) fprintf(stderr, "garbage /%s/\n", show(*s).c_str()); }
		char* q = 0; RxCompiler c(StrVal(t, n)); bool ok = c.compile(q);
		if (ok)
		{
			int len; { MODEL; len = (int)strlen(q) + 1; }
			std::string* o = list(c, q, len, op.e % 3);
			MODEL; sim_probe(P_LISTANY); char b[60]; snprintf(b, 60, "\n%d\tNull termination\n", len-1); size_t z = strlen(b);
			if (o->size() < z || o->compare(o->size()-z, z, b)) sim_fail("wrong-listing", "the listing of /%s/ ends with \"%s\", not with the program's last byte %d", show(*s).c_str(), show(o->substr(o->size() < 60 ? 0 : o->size()-60)).c_str(), len-1);
			delete o;
		}
		delete[] q; { MODEL; delete s; }
		break;
	}
	case X_FRESH:
	{	// an expression of its own
		Rx* x; Try t;
		{ MODEL; x = new Rx(mkrx(op_seed(op), op.e % 4)); Rng r(op_seed(op)); t.make(*x, r.pct(50) ? op_text(op) : sampled(*x, r), op); if (x->maxcaps > 2) sim_probe(P_MANYCAPS); if (x->text.size() > 700) sim_probe(P_FARJUMP); if (getenv("RX_SHOW")) fprintf(stderr, "fresh /%s/\n", show(x->text).c_str()); }
		char* q = 0; bool ok = false;
		bool oom = LIB({ RxCompiler c(StrVal(x->text.c_str(), (StrValIndex)x->text.size())); ok = c.compile(q); });
		if (!oom && ok) LIB({ RxProgram p(q); t.run(p, x->caps); });
		delete[] q;
		MODEL;
		if (!oom && !ok) sim_fail("wrong-compile", "/%s/ does not compile", show(x->text).c_str());
		if (t.had) t.judge(x->text, *x, "");
		delete x; t.drop();
		break;
	}
	case X_FEATURE:
	{	// the language chosen by features
		Rx *x, *y; Try t[3]; int off, rej, used; bool refuse;
		{
			MODEL; Rng r(op_seed(op) * 5 + 1); bool ext = r.pct(40);
			x = new Rx(mkrx(op_seed(op), op.e % 4, ext ? 2 : 1)); y = new Rx(*x);
			static const int OFFS[] = { F_CESC, F_SHORT, F_OCT, F_HEX, F_UNI, F_PROP, F_CLASS, F_QUEST, F_STAR, F_PLUS, F_COUNT, F_ALT, F_BOL, F_EOL };
			static const int REJ[] = { F_CESC, F_SHORT, F_OCT, F_HEX, F_UNI, F_PROP, F_CLASS, F_QUEST, F_STAR, F_PLUS, F_COUNT, F_ALT, F_BOL, F_EOL, F_GROUP, F_CAP, F_NONCAP, F_LOOK };
			off = rej = 0; int k = r.pct(45) ? 0 : 1 + r.below(r.pct(30) ? 10 : 3); while (k--) off |= OFFS[r.below(14)];
			k = r.pct(50) ? 0 : 1 + r.below(r.pct(20) ? 8 : 2); while (k--) { int f = REJ[r.below(18)]; if ((rej | f) & (F_CAP|F_NONCAP|F_LOOK) && ((rej | f) & (F_CAP|F_NONCAP|F_LOOK)) == (F_CAP|F_NONCAP|F_LOOK)) continue; rej |= f; }
			if (r.pct(12)) off |= F_ANYQUEST;
			Off o(*y, off, rej); o.seq(y->root); used = o.used; refuse = (used & rej) != 0;
			if (r.pct(20) && !rej) off |= ~used & F_ALL & ~(F_GROUP|F_CAP|F_NONCAP|F_LOOK);	// exactly what it uses
			off &= F_ALL | F_ANYQUEST; if (ext) off |= F_EXTENDED;
			for (int i = 0; i < 3; i++) t[i].make(*y, sampled(*y, r), op);
			if (ext) sim_probe(P_EXTENDED); if (used & (F_CESC|F_OCT|F_HEX|F_UNI)) sim_probe(P_ESCAPES); if (!refuse && y->n.size() > x->n.size() + 1 && (off & F_ALL)) sim_probe(P_LITERAL);
			if (getenv("RX_SHOW")) fprintf(stderr, "feature /%s/ off %X reject %X used %X\n", show(x->text).c_str(), off, rej, used);
		}
		char* q = 0; bool ok = false; const char* msg = 0; int at = 0; int feats = (F_ALL & ~off) | (off & (F_EXTENDED|F_ANYQUEST));
		bool oom = LIB({ RxCompiler c(StrVal(x->text.c_str(), (StrValIndex)x->text.size()), (RxFeature)feats, (RxFeature)rej); ok = c.compile(q); msg = c.errorMessage(); at = c.errorOffset(); });
		if (!oom && ok && !refuse) LIB({ RxProgram p(q); for (int i = 0; i < 3; i++) t[i].run(p, x->caps); });
		{
			MODEL;
			if (!oom)
			{
				char b[100]; snprintf(b, 100, " (disabled %X, rejected %X%s%s)", off & F_ALL, rej, off & F_EXTENDED ? ", extended" : "", off & F_ANYQUEST ? ", ? is any" : "");
				refusal(ok, msg, at, q, x->text, b);
				if (ok && refuse) sim_fail("accepted", "/%s/%s compiles although it uses %X", show(x->text).c_str(), b, used & rej);
				if (!ok && !refuse) sim_fail("wrong-compile", "/%s/%s does not compile: %s at %d", show(x->text).c_str(), b, msg, at);
				if (refuse) sim_probe(P_REFUSED);
				for (int i = 0; i < 3; i++) if (t[i].had) t[i].judge(x->text, *y, b);
			}
		}
		delete[] q;
		MODEL; delete x; delete y; for (int i = 0; i < 3; i++) t[i].drop();
		break;
	}
	case X_GARBFEAT:
	{	// any text at all with any features: if it's refused, then with a message and a place in the text
		std::string* g; int feats, rej; Try t;
		{ MODEL; Rng r(op_seed(op) * 3 + 2); g = new std::string(garbage(op)); feats = r.pct(40) ? F_ALL : (int)r.next() & F_ALL; if (r.pct(40)) feats |= F_EXTENDED; if (r.pct(15)) feats |= F_ANYQUEST; if (r.pct(15)) feats |= F_STARANY; rej = r.pct(70) ? 0 : 1 << r.below(20);
			Rx none = Rx(); none.root = add(none, N_CAT); t.make(none, op_text(op), op); if (getenv("RX_SHOW")) fprintf(stderr, "garbage /%s/ features %X reject %X\n", show(*g).c_str(), feats, rej); }
		char* q = 0; bool ok = false; const char* msg = 0; int at = 0;
		bool oom = LIB({ RxCompiler c(StrVal(g->data(), (StrValIndex)g->size()), (RxFeature)feats, (RxFeature)rej); ok = c.compile(q); msg = c.errorMessage(); at = c.errorOffset(); });
		if (!oom && ok) LIB({ RxProgram p(q); t.run(p, 0); });
		if (!oom) { MODEL; refusal(ok, msg, at, q, *g, ""); }
		delete[] q;
		if (!oom && !ok && at > 0)
		{	// the place is where it first went wrong: up to there nothing is wrong, or only that it ends
			char* z = 0; bool fine = false; int there = 0; const char* why = 0;
			if (!LIB({ StrVal all(g->data(), (StrValIndex)g->size()); RxCompiler c(all.head(at), (RxFeature)feats, (RxFeature)rej); fine = c.compile(z); there = c.errorOffset(); why = c.errorMessage(); }) && !fine)
				{ MODEL; if (there > 0 && there < at && definite(why)) sim_fail("wrong-place", "/%s/ (features %X, rejected %X) is refused at %d: %s, but it went wrong at %d before: %s", show(*g).c_str(), feats, rej, at, msg, there, why); sim_probe(P_PLACE); }
			delete[] z;
		}
		MODEL; delete g; t.drop();
		break;
	}
	case X_WORK:
	{	// how much a match takes
		Rx* x; Try t; bool oom; double size; int n;
		{ MODEL; Rng r(op_seed(op) * 11 + 5); x = new Rx(r.pct(45) ? ambiguous(r) : mkrx(op_seed(op), op.e % 4)); US u = worktext(*x, r); t.make(*x, u, op, true); n = (int)u.size() - t.at; size = weight(*x, x->root) + 6; if (x->looks) size *= 1 + weight(*x, x->root) * (n + 2); if (getenv("RX_SHOW")) fprintf(stderr, "work /%s/ on %d characters, size %g\n", show(x->text).c_str(), n, size); if (x->counted) sim_probe(P_WCOUNT); }
		char* q = 0; bool ok = false; uint64_t before = 0, after = 0, blocks = 0;
		oom = LIB({ RxCompiler c(StrVal(x->text.c_str(), (StrValIndex)x->text.size())); ok = c.compile(q); });
		if (!oom && ok) LIB({ RxProgram p(q); StrVal s(t.bytes->data(), (StrValIndex)t.bytes->size()); { MODEL; char b[300]; snprintf(b, sizeof b, "matching /%.200s/ to %d characters", show(x->text).c_str(), n); sim_limit_steps((uint64_t)(WORK_PER_UNIT * (n + 2.0) * size * size), b); } uint64_t live = sim_live_blocks(); sim_mark_peak(); before = sim_my_steps(); { RxResult z = op.d & 1 ? p.matchAt(s, t.at) : p.matchAfter(s, t.at); after = sim_my_steps(); sim_limit_steps(0, ""); blocks = sim_peak_blocks() - live; } });
		{
			MODEL;
			if (!oom && !ok) sim_fail("wrong-compile", "/%s/ does not compile", show(x->text).c_str());
			if (after && !oom)
			{
				double unit = (n + 2.0) * size * size, most = size;
				static FILE* const stat = getenv("RX_WORK") ? fopen(getenv("RX_WORK"), "a") : 0; if (stat) fprintf(stat, "WORK %g %g n %d size %g steps %g /%s/\n", (after - before) / unit, blocks / most, n, size, (double)(after - before), show(x->text).substr(0, 100).c_str()), fflush(stat);
				if (nactors == 1 && blocks > BLOCKS_PER_UNIT * most) sim_fail("too-much-memory", "matching /%s/ to %d characters had %llu pieces of memory at once, more than %g", show(x->text).c_str(), n, (unsigned long long)blocks, BLOCKS_PER_UNIT * most);
				sim_probe(P_WORKED); if (x->names == 9) sim_probe(P_AMBIG);
			}
		}
		delete[] q;
		MODEL; delete x; t.drop();
		break;
	}
	case X_GROWTH:
	{	// once the text is long compared with the expression, each further character takes the same
		Rx* x; std::string* big; int m; uint64_t took[3] = { 0, 0, 0 }, held[3] = { 0, 0, 0 };
		int bytes[3];
		{
			MODEL; Rng r(op_seed(op) * 13 + 1); x = new Rx; do *x = ambiguous(r, true); while (weight(*x, x->root) > 60);
			// the letters may be wide, the text may repeat several
			uint32_t wide = r.pct(50) ? 'a' : r.pct(50) ? 0xE9 : 0x5B57; for (size_t i = 0; i < x->n.size(); i++) if (x->n[i].t == N_CHAR && x->n[i].c == 'a') x->n[i].c = wide; else if (x->n[i].t == N_ANY && r.pct(20)) x->n[i].t = r.pct(50) ? N_BOL : N_EOL;
			for (size_t i = 0; i < x->n.size(); i++) if ((x->n[i].t >= N_STAR && x->n[i].t <= N_COUNT) && (x->n[x->n[i].k[0]].t == N_BOL || x->n[x->n[i].k[0]].t == N_EOL)) x->n[x->n[i].k[0]].t = N_ANY;
			for (int k = r.pct(30) ? 1 + r.below(3) : 0; k > 0; k--)	// look-aheads of a few letters, outside repetitions
			{
				int l = add(*x, N_LOOK), c = add(*x, N_CAT); x->n[l].k.push_back(c);
				for (int z = 1 + r.below(4); z > 0; z--) { int ch = add(*x, r.pct(15) ? N_ANY : N_CHAR); x->n[ch].c = r.pct(70) ? wide : r.pct(50) ? 'b' : 'd'; x->n[c].k.push_back(ch); }
				std::vector<int>& top = x->n[x->root].k; top.insert(top.begin() + r.below(top.size() + 1), l); x->looks++;
			}
			x->text.clear(); totext(*x, x->root, x->text);
			m = (2 * (int)weight(*x, x->root) + 31) / 12 * 12; US u; int period = r.pct(50) ? 1 : 1 + r.below(4); for (int i = 0; i < period; i++) u.push_back(i == 0 || r.pct(60) ? wide : r.pct(50) ? 'b' : '\n');
			for (int i = period; i < 4*m; i++) { uint32_t c = u[i-period]; u.push_back(c); }
			big = new std::string(enc(u)); for (int i = 0; i < 3; i++) bytes[i] = (int)enc(US(u.begin(), u.begin() + (m << i))).size();
			if (getenv("RX_SHOW")) fprintf(stderr, "growth /%s/ on %d to %d characters %s\n", show(x->text).c_str(), m, 4*m, show(enc(US(u.begin(), u.begin()+12))).c_str());
		}
		char* q = 0; bool ok = false;
		bool oom = LIB({ RxCompiler c(StrVal(x->text.c_str(), (StrValIndex)x->text.size())); ok = c.compile(q); });
		if (!oom && ok) oom = LIB({ RxProgram p(q); for (int i = 0; i < 3; i++) { StrVal s(big->data(), bytes[i]); sim_mark_peak(); uint64_t before = sim_my_steps(), bytes0 = sim_live_bytes(); { MODEL; if (i) { char b[400]; snprintf(b, sizeof b, "matching /%.150s/ took %llu steps for %d characters, %llu for %d; that is not linear: for %d it", show(x->text).c_str(), (unsigned long long)took[0], m, (unsigned long long)took[i-1], m << (i-1), m << i); sim_limit_steps(i == 1 ? took[0] * 4 + 20000 : took[1] + (uint64_t)(2.6 * ((double)took[1] - took[0]) + 5000), b); } } { RxResult z = p.matchAfter(s, 0); } took[i] = sim_my_steps() - before; held[i] = sim_peak_bytes() - bytes0; sim_limit_steps(0, ""); } });
		{
			MODEL;
			if (!oom && !ok) sim_fail("wrong-compile", "/%s/ does not compile", show(x->text).c_str());
			if (!oom)
			{
				double first = (double)took[1] - took[0], second = (double)took[2] - took[1];
				static FILE* const stat = getenv("RX_WORK") ? fopen(getenv("RX_WORK"), "a") : 0; if (stat) fprintf(stat, "GROW %g %g %d held %g %llu /%s/\n", second / (first + 1), second, m, held[2] / (held[1] + 1.0), (unsigned long long)held[2], show(x->text).c_str()), fflush(stat);
				if (nactors == 1 && held[2] > held[1] + held[1] / 8 + 200) sim_fail("too-much-memory", "matching /%.150s/ to %d, %d and %d characters had at most %llu, %llu and %llu bytes of memory", show(x->text).c_str(), m, 2*m, 4*m, (unsigned long long)held[0], (unsigned long long)held[1], (unsigned long long)held[2]);
				sim_probe(P_GROWTH);
			}
		}
		delete[] q;
		MODEL; delete x; delete big;
		break;
	}
	default: sim_stall(1 + op.b % 6); break;
	}
	if (op.f & 1) { for (int i = 0; i < NR; i++) check_result(A, i, nm); check_nfa(nm); }
}
static void actor(void* p)
{
	int A = (int)(intptr_t)p;
	h_run_ops(A);
	for (int i = 0; i < NTX; i++) T(A,i).~StrVal();		// results don't depend on the texts
	for (int i = 0; i < NR; i++) check_result(A, i, "at the end");
	for (int i = 0; i < NR; i++) R(A,i).~RxResult();
}
static void body()
{
	{ MODEL; nactors = sim_cfg->user[0]; nprog = 1 + sim_cfg->user[4] % NP; oom_mode = sim_cfg->alloc_mode; memset(busy, 0, sizeof(busy)); memset(calm, 0, sizeof(calm)); memset(listing, 0, sizeof(listing)); for (int k = 0; k < nprog; k++) rx[k] = mkrx(sim_cfg->user[1] + k*17, sim_cfg->user[2]); for (int k = 0; k < NTX; k++) { tx[k] = mktext(sim_cfg->user[3] + k, 1 + (sim_cfg->user[5] + k*3) % 10); Rng q(sim_cfg->user[3] * 8ull + k); if (q.pct(60)) tx[k] = sampled(rx[k % nprog], q); if (tx[k].size() > 100) sim_probe(P_LONG); } }
	base_live = sim_live_blocks();
	for (int k = 0; k < nprog; k++)
	{
		const char* t; { MODEL; t = rx[k].text.c_str(); }
		{ MODEL; if (getenv("RX_SHOW")) fprintf(stderr, "/%s/\n", show(t).c_str()); }
		RxCompiler& c = *new (comp_raw[k]) RxCompiler((StrVal(t))); bool ok = c.compile(nfa[k]);
		if (!ok) { MODEL; sim_fail("wrong-compile", "/%s/ does not compile: %s", show(rx[k].text).c_str(), c.errorMessage()); }
		{ MODEL; nfa_len[k] = (int)strlen(nfa[k]) + 1; nfa_copy[k].assign(nfa[k], nfa_len[k]); }
		new (prog_raw[k]) RxProgram(nfa[k]);
	}
	{	// every match, alone
		MODEL;
		expected.assign(sim_nops, Exp()); refs.assign(sim_nops, RefM());
		for (int i = 0; i < sim_nops; i++)
		{
			const SimOp& op = sim_ops[i]; if (op.code != X_MATCH && op.code != X_OWN) continue;
			int k = op.a % nprog; US u = op_text(op); std::string s = enc(u);
			char* own = new char[nfa_len[k]]; memcpy(own, nfa_copy[k].data(), nfa_len[k]);
			if (getenv("RX_SHOW")) fprintf(stderr, "match %d on %s from %d %d\n", k, show(s).c_str(), match_at(op), op.d & 1);
			{ RxProgram p(own); StrVal t(s.data(), (StrValIndex)s.size()); RxResult r = op.d & 1 ? p.matchAt(t, match_at(op)) : p.matchAfter(t, match_at(op)); expected[i] = observe(r, rx[k].caps); }
			delete[] own;
			refs[i] = reference(rx[k], u, match_at(op), op.d & 1);
		}
	}
	for (int k = 0; k < NTX; k++) { std::string* s; { MODEL; s = new std::string(enc(tx[k])); } new (&T(0,k)) StrVal(s->data(), (StrValIndex)s->size()); { MODEL; delete s; } for (int A = 1; A < nactors; A++) new (&T(A,k)) StrVal(T(0,k)); }
	for (int A = 0; A < nactors; A++) for (int i = 0; i < NR; i++) { new (&R(A,i)) RxResult(); MODEL; er[A][i] = Exp(); }
	for (int k = 0; k < NBOX; k++) { new (&bR(k,0)) RxResult(); MODEL; xr[k] = Exp(); }
	int id[MAXA]; h_exec = exec;
	for (int A = 1; A < nactors; A++) id[A] = sim_spawn(actor, (void*)(intptr_t)A);
	actor(0);
	for (int A = 1; A < nactors; A++) sim_join(id[A]);
	for (int k = 0; k < NBOX; k++) bR(k,0).~RxResult();
	check_nfa("at the end");
	for (int k = 0; k < nprog; k++) { prog(k).~RxProgram(); comp(k).~RxCompiler(); delete[] nfa[k]; }
	if (sim_live_blocks() != base_live) { char b[300]; sim_describe_live(b, sizeof(b)); sim_fail("leak", "after everything was dropped: %s", b); }
}
static void gen(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops, int which)
{
	bool oom = which == 2 || (which == 3 && r.pct(25));
	int n = r.pct(which == 4 ? 75 : oom ? 70 : which == 3 ? 45 : which == 5 ? 60 : 10) ? 1 : 2 + r.below(MAXA-1);
	c.user[0] = n; c.user[1] = r.below(10000000); c.user[2] = r.below(4); c.user[3] = r.below(100000); c.user[4] = r.pct(60) ? 0 : r.below(NP); c.user[5] = r.below(100);
	sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = oom || which == 4 ? RACE_OFF : RACE_ALL; c.user[7] = which; c.step_budget = which == 4 ? 100000 : which == 5 ? 400000 : 150000;
	if (oom) { c.alloc_mode = 1 + r.below(4); c.alloc_n = c.alloc_mode == 2 ? r.range(1, 30) : r.range(1, 90); }
	int len = r.range(1, thorough ? 14 : 8);
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
		{
			static const uint8_t mix[] = { X_MATCH, X_MATCH, X_MATCH, X_MATCH, X_MATCH, X_MATCH, X_MATCH, X_OWN, X_COPY, X_READ, X_DROP, X_SEND, X_RECV, X_COMPILE, X_NAME, X_ERROR, X_GARBAGE, X_PAUSE, X_FRESH, X_FRESH, X_FRESH, X_FRESH };
			int code = mix[r.below(sizeof(mix))];
			static const uint8_t mix3[] = { X_FEATURE, X_FEATURE, X_FEATURE, X_FEATURE, X_FEATURE, X_FEATURE, X_GARBFEAT, X_GARBFEAT, X_ERROR, X_PAUSE };
			static const uint8_t mix4[] = { X_WORK, X_WORK, X_WORK, X_WORK, X_WORK, X_GROWTH, X_GROWTH, X_PAUSE, X_MATCH };
			if (which == 3) code = mix3[r.below(sizeof(mix3))];
			if (which == 4) code = mix4[r.below(sizeof(mix4))];
			static const uint8_t mix5[] = { X_LIST, X_LIST, X_LIST, X_LISTFRESH, X_LISTFRESH, X_LISTFRESH, X_LISTFRESH, X_LISTANY, X_MATCH, X_PAUSE };
			if (which == 5) code = mix5[r.below(sizeof(mix5))];
			if (n == 1 && (code == X_SEND || code == X_RECV || code == X_PAUSE)) code = which == 3 ? X_FEATURE : which == 4 ? X_WORK : which == 5 ? X_LISTFRESH : oom ? X_COMPILE : X_MATCH;
			ops.push_back(mkop(A, code, r.below(NP), r.below(60), r.pct(50) ? 0 : r.below(4096), r.below(256), r.below(NR), r.pct(30) | (int)ops.size() << 1));
		}
}
static void gen1(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, 1); }
static void gen2(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, 2); }
static void gen3(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, 3); }
static void gen4(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, 4); }
static void gen5(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, 5); }
const SimProp sim_props[] = { { "R01", gen1, body, opname, probes }, { "R02", gen2, body, opname, probes }, { "R03", gen3, body, opname, probes }, { "R04", gen4, body, opname, probes }, { "R05", gen5, body, opname, probes }, { 0, 0, 0, 0, 0 } };
