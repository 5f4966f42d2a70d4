// P01-P06: pegular expressions and Peg grammars over text that arrives piecemeal, without memory, in several threads.
#include "harness.h"
#include <pegexp.h>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
#include <vector>
#include <map>
#include <string>
#include <new>

#define MAXA 4
#define NPX 2	// shared expressions
#define NG 2	// shared grammars

enum { G_MATCH, G_HERE, G_PARSE, G_AST, G_ANY, G_ANYPEG, G_PAUSE, G_LAST };
static const char* opname(int c)
{
	static const char* const n[] = { "match", "match_here", "parse", "parse_to_tree", "match_any_expression", "parse_any_grammar", "pause" };
	return c < 0 ? "dropped" : c < G_LAST ? n[c] : "?";
}
enum { P_MATCHED, P_FAILED, P_CAPT, P_NEST, P_STREAM, P_TRUNC, P_BIG, P_LEFT, P_ROLL, P_OOM, P_FAILLIST, P_OVERLAP, P_ILLEGAL, P_ARRAY, P_WAIT, P_ANY, P_LONG, P_EXT };
static const char* const probes[] = { "P01,P02,P03,P04,P05:matched", "P01,P02,P03,P04,P05:did_not_match", "P01,P03,P04:captured", "P01,P03,P04:captured_inside_a_rule", "P01,P04:text_arrived_in_pieces", "P01:text_ended_early", "P01,P02,P03,P04,P05:too_much_work_for_reference", "P01,P02,P04:left_recursion",
	"P01,P03,P04:captures_rolled_back", "P03:parse_met_allocation_failure", "P05:failures_reported", "P04:two_threads_in_one_grammar", "P01,P02,P06:text_with_illegal_bytes", "P03,P04:repeated_capture", "P01,P04:waited_for_input", "P06:any_expression_compared_on_two_sources", "P01,P02,P03,P05:text_over_40_bytes", "P01,P02,P03,P04:operators_added_by_the_user", 0 };

// ------------------------------------------------------------ text
struct Ch { uint32_t c; int at, n; };
typedef std::vector<Ch> Chars; typedef std::string Bytes; typedef std::vector<uint32_t> US;
static int seqlen(unsigned char c) { return c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : c < 0xFC ? 5 : 6; }
static Ch dec1(const char* b, int size, int p)
{
	unsigned char c = b[p]; int n = seqlen(c); bool ok = n > 0 && p + n <= size; Ch x; x.at = p;
	for (int i = 1; ok && i < n; i++) ok = ((unsigned char)b[p+i] & 0xC0) == 0x80;
	if (!ok) { x.c = 0x80000000u | c; x.n = 1; }
	else { static const int mask[] = { 0, 0x7F, 0x1F, 0xF, 7, 3, 3 }; x.c = c & mask[n]; for (int i = 1; i < n; i++) x.c = x.c << 6 | (b[p+i] & 0x3F); x.n = n; }
	return x;
}
static Chars decode(const Bytes& b, bool bytes)
{
	Chars r;
	for (int p = 0; p < (int)b.size(); ) { Ch x; if (bytes) { x.c = (unsigned char)b[p]; x.at = p; x.n = 1; } else x = dec1(b.data(), (int)b.size(), p); r.push_back(x); p += x.n; }
	return r;
}
static int at(const Chars& c, const Bytes& b, int i) { return i < (int)c.size() ? c[i].at : (int)b.size(); }
static void put8(Bytes& o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0|c>>6); o += (char)(0x80|(c&63)); }
	else if (c < 0x10000) { o += (char)(0xE0|c>>12); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63)); }
	else { o += (char)(0xF0|c>>18); o += (char)(0x80|((c>>12)&63)); o += (char)(0x80|((c>>6)&63)); o += (char)(0x80|(c&63)); }
}
static std::string show(const Bytes& b) { std::string o; for (size_t i = 0; i < b.size(); i++) { char t[8]; unsigned char c = b[i]; if (c == '\n') o += "\\n"; else if (c >= 32 && c < 127) o += (char)c; else { snprintf(t, 8, "\\x%02X", c); o += t; } } return o; }

// ------------------------------------------------------------ grammars
enum { N_CHR, N_ANY, N_CLS, N_PRP, N_BOL, N_EOL, N_CALL, N_GRP, N_REP, N_LOOK, N_SEQ, N_ALT, N_EXT };
struct Node { int t; uint32_t c; std::vector<uint32_t> cls; std::string prop; bool neg, plain; int call; std::string label; std::vector<int> k; int off, len; };
struct Rule { std::string name, text; int root; std::vector<std::string> caps; bool nocaps; };
struct Gram { std::vector<Node> n; std::vector<Rule> r; bool ascii, peg, ext; int budget; };
static const uint32_t LETTERS[] = { 'a','b','a','b','c','A','1','_','-','\n',' ','<','#','@','~','%',';','0',0,0xE9,0x5B57,0x1F600 };
static const char* const LABELS[] = { "x", "y", "xy", "k1", "a", "a_label_longer_than_most", "a_label_longer_than_most_are" };
static const char* const NAMES[] = { "a", "ab", "ab1", "abc", "B", "s_", "a_", "expression_statement", "expression_statements", "a_rule_whose_name_goes_on_and_on_well_beyond_sixty_four_characters_in_all" };
#define NLABEL 7
static const char* alabel(Rng& r) { return LABELS[r.pct(88) ? r.below(5) : 5 + r.below(2)]; }
static uint32_t letter(const Gram& g, Rng& r) { return LETTERS[r.below(g.ascii ? 19 : 22)]; }
static int add(Gram& g, int t) { Node n; n.t = t; n.c = 0; n.neg = n.plain = false; n.call = -1; n.off = n.len = 0; g.n.push_back(n); return (int)g.n.size()-1; }
static int gen_seq(Gram& g, Rng& r, int depth, bool alt);
static int gen_atom(Gram& g, Rng& r, int depth, int calls)
{
	int w = r.below(100), i;
	g.budget--;
	if (depth > 0 && w < 28) { i = add(g, N_GRP); int c = gen_seq(g, r, depth-1, r.pct(60)); g.n[i].k.push_back(c); }
	else if (calls > 0 && w < 52) { i = add(g, N_CALL); g.n[i].call = r.pct(2) ? -1 : r.below(calls); }
	else if (g.ext && w < 60) { i = add(g, N_EXT); g.n[i].c = "@#~\x01"[r.below(4)]; g.n[i].cls.push_back("abc1"[r.below(4)]); }
	else if (w < 78) { i = add(g, N_CHR); g.n[i].c = letter(g, r); }
	else if (w < 84) i = add(g, N_ANY);
	else if (w < 93)
	{
		i = add(g, N_CLS); g.n[i].neg = r.pct(30);
		for (int k = r.pct(4) ? 0 : 1 + r.below(3); k > 0; k--)
		{
			if (r.pct(12)) { g.n[i].prop += "adhLUsw"[r.below(7)]; continue; }
			uint32_t a = letter(g, r), b = r.pct(60) ? a : letter(g, r); if (a == '\n' || a == '-') b = a; if (b == '\n' || b == '-') b = a; if (b < a) { uint32_t t = a; a = b; b = t; }
			g.n[i].cls.push_back(a); g.n[i].cls.push_back(b);
		}
	}
	else if (w < 96) { i = add(g, N_PRP); g.n[i].c = "adhLUsw"[r.below(7)]; }
	else { i = add(g, r.pct(50) ? N_BOL : N_EOL); return i; }
	if (r.pct(30)) g.n[i].label = alabel(r);
	return i;
}
static int gen_item(Gram& g, Rng& r, int depth, int calls)
{
	int w = r.below(100), i, c;
	if (w < 30)
	{
		i = add(g, N_REP); g.n[i].c = "?*+"[r.below(3)]; c = gen_item(g, r, depth, calls); g.n[i].k.push_back(c);
		if (!g.n[c].label.empty() && g.n[c].t != N_CALL && g.n[c].t != N_REP && r.pct(40)) g.n[i].label = alabel(r);
		return i;
	}
	if (w < 40) { i = add(g, N_LOOK); g.n[i].c = "&!"[r.below(2)]; c = gen_item(g, r, depth, calls); g.n[i].k.push_back(c); return i; }
	return gen_atom(g, r, depth, calls);
}
static int gen_seq(Gram& g, Rng& r, int depth, bool alt)
{
	int i = add(g, N_SEQ), n = r.pct(5) ? 0 : alt ? r.below(3) : 1 + r.below(3), calls = g.peg ? (int)g.r.size() : 0;
	if (g.budget < 0) n = n ? 1 : 0;
	for (int q = 0; q < n; q++) { int c = g.budget < 0 ? gen_atom(g, r, 0, calls) : gen_item(g, r, depth, calls); g.n[i].k.push_back(c); }
	if (alt)
	{
		int a = add(g, N_ALT);
		for (int q = 1 + r.below(3); q > 0; q--) { int c = gen_seq(g, r, depth > 0 ? depth-1 : 0, false); g.n[a].k.push_back(c); }
		g.n[i].k.push_back(a);
	}
	return i;
}
static void num(std::string& o, Rng& r, uint32_t c, bool last)	// a character by its number
{
	char b[24]; int w = r.below(5);
	if (w == 0 && c < 256) snprintf(b, 24, "\\x%02x", c); else if (w == 1 && c < 256) snprintf(b, 24, "\\x{%X}", c); else if (w == 2 && c < 256) snprintf(b, 24, "\\%03o", c);
	else if (w == 3 && c < 65536) snprintf(b, 24, "\\u%04X", c); else snprintf(b, 24, "\\u{%x}", c);
	o += b;
}
struct Emit { std::string o; bool open; };	// open: a label without its closing colon
static void text(Gram& g, int i, Rng& r, Emit& e);
static void put(Emit& e, const std::string& s) { if (e.open && !s.empty() && (isalnum((unsigned char)s[0]) || s[0] == '_' || s[0] == ':')) e.o += ':'; if (!s.empty()) e.open = false; e.o += s; }
static void label(Emit& e, Rng& r, const std::string& l, bool close) { if (l.empty()) return; put(e, ":"); e.o += l; if (close || r.pct(50)) e.o += ':'; else e.open = true; }
static void text(Gram& g, int i, Rng& r, Emit& e)
{
	if (e.open && (g.n[i].t == N_CHR || g.n[i].t == N_CLS || g.n[i].t == N_CALL || g.n[i].t == N_EXT)) { e.o += ':'; e.open = false; }	// keeps the offset of the atom known
	g.n[i].off = (int)e.o.size();
	switch (g.n[i].t)
	{
	case N_CHR:
	{
		uint32_t c = g.n[i].c; std::string s;
		if (c < 128 && (c >= 32 || r.pct(20)) && !strchr(g.ext ? "^$.\\[]?*+(){}|&!:@#~" : "^$.\\[]?*+(){}|&!:", (int)c) && !(c == '<' && g.peg) && r.pct(85)) { s += (char)c; g.n[i].plain = true; }
		else if (c == '\n' && r.pct(70)) s = "\\n";
		else if (c < 128 && c >= 32 && !isalnum((int)c) && r.pct(70)) { s = "\\"; s += (char)c; }
		else num(s, r, c, false);
		put(e, s); break;
	}
	case N_ANY: put(e, "."); break;
	case N_EXT: { std::string s(1, (char)g.n[i].c); if (g.n[i].c == '@' || g.n[i].c == 1) s += (char)g.n[i].cls[0]; put(e, s); break; }
	case N_CLS:
	{
		std::string s = g.n[i].neg ? "[^" : "["; const std::vector<uint32_t>& c = g.n[i].cls; bool hy = false;
		for (size_t k = 0; k < c.size(); k += 2) if (c[k] == '-' && r.pct(50)) hy = true;
		if (hy) s += '-';
		for (size_t k = 0; k < c.size(); k += 2) for (int h = 0; h < (c[k+1] == c[k] ? 1 : 2); h++)
		{
			uint32_t x = c[k+h]; if (h) s += '-';
			if (x == '-' && hy) continue;
			if (x == '\n') s += "\\n"; else if (x == '-') s += "\\-"; else if (x && x < 128 && r.pct(85)) s += (char)x; else if (c[k+1] == c[k] && x < 128) num(s, r, x, false); else { char b[16]; snprintf(b, 16, "\\u{%x}", x); s += b; }
		}
		for (size_t k = 0; k < g.n[i].prop.size(); k++) { s += '\\'; s += g.n[i].prop[k]; }
		put(e, s + "]"); break;
	}
	case N_PRP: put(e, std::string("\\") + (char)g.n[i].c); break;
	case N_BOL: put(e, "^"); break;
	case N_EOL: put(e, "$"); break;
	case N_CALL: put(e, "<" + (g.n[i].call < 0 ? std::string("nope") : g.r[g.n[i].call].name) + ">"); break;
	case N_GRP: put(e, "("); text(g, g.n[i].k[0], r, e); put(e, ")"); break;
	case N_REP: case N_LOOK: put(e, std::string(1, (char)g.n[i].c)); text(g, g.n[i].k[0], r, e); if (!g.n[i].label.empty() && e.open) { e.o += ':'; e.open = false; } break;
	case N_SEQ: for (size_t k = 0; k < g.n[i].k.size(); k++) text(g, g.n[i].k[k], r, e); break;
	case N_ALT: for (size_t k = 0; k < g.n[i].k.size(); k++) { put(e, "|"); text(g, g.n[i].k[k], r, e); } break;
	}
	g.n[i].len = (int)e.o.size() - g.n[i].off;
	label(e, r, g.n[i].label, false);
}
static Gram mkgram(int seed, bool peg, bool ascii, int depth, bool ext = false)
{
	Rng r((uint64_t)seed * 77003 + 11); Gram g; g.ascii = ascii; g.peg = peg; g.ext = ext; g.budget = 26;
	int n = peg ? 1 + r.below(4) : 1;
	for (int i = 0; i < n; i++) { Rule x; x.root = -1; x.nocaps = r.pct(10); for (;;) { x.name = i ? NAMES[r.pct(75) ? r.below(7) : 7 + r.below(3)] : "TOP"; bool dup = false; for (size_t k = 0; k < g.r.size(); k++) dup |= g.r[k].name == x.name; if (!dup) break; } g.r.push_back(x); }
	for (int i = 0; i < n; i++) { g.budget = 26 / n + 4; g.r[i].root = gen_seq(g, r, depth, r.pct(40)); }
	for (int i = 0; i < n; i++)
	{
		Emit e; e.open = false; text(g, g.r[i].root, r, e); g.r[i].text = e.o;
		for (int k = 0; k < NLABEL; k++) if (r.pct(45)) g.r[i].caps.push_back(LABELS[k]);
		for (int k = 1; k < n; k++) if (r.pct(65) && g.r[k].name != "a") g.r[i].caps.push_back(g.r[k].name);
	}
	return g;
}
static bool prop(int p, uint32_t c, bool bytes)	// whether the tables are right is N01: here they say what a character is
{
	bool d = c >= '0' && c <= '9', hex = (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
	if (bytes)
	{
		bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z';
		switch (p) { case 'a': return u||l; case 'd': return d; case 'h': return d || hex; case 'L': return l; case 'U': return u; case 's': return c == ' ' || (c >= 9 && c <= 13); default: return d||u||l; }
	}
	LibScope lib; bool dec = UCS4IsDecimal(c), cased = UCS4ToUpper(c) != c || UCS4ToLower(c) != c;
	switch (p)
	{
	case 'a': return UCS4IsAlphabetic(c); case 'd': return dec; case 'h': return dec || hex; case 's': return UCS4IsWhite(c);
	case 'L': return cased && UCS4ToLower(c) == c; case 'U': return cased && UCS4ToUpper(c) == c; default: return UCS4IsAlphabetic(c) || dec;
	}
}
static bool one(const Node& n, uint32_t c, bool bytes)
{
	if (n.t == N_CHR) return n.c == c; if (n.t == N_ANY) return true; if (n.t == N_PRP) return prop(n.c, c, bytes);
	bool in = false; for (size_t k = 0; k < n.cls.size(); k += 2) in |= c >= n.cls[k] && c <= n.cls[k+1];
	for (size_t k = 0; k < n.prop.size(); k++) in |= prop(n.prop[k], c, bytes);
	return in != n.neg;
}
// a text that may well match
static int derive_work;
static void derive(const Gram& g, int i, Rng& r, US& o, int depth, int limit = 14)
{
	const Node& n = g.n[i];
	if (--derive_work < 0 || (int)o.size() > limit || depth > 12) return;
	switch (n.t)
	{
	case N_CHR: o.push_back(n.c); break;
	case N_ANY: case N_CLS: case N_PRP: { uint32_t c = letter(g, r); for (int k = 0; k < 12 && !one(n, c, g.ascii); k++) c = letter(g, r); o.push_back(c); break; }
	case N_EOL: if (r.pct(50)) o.push_back('\n'); break;
	case N_EXT: if (n.c == '#') for (int k = 1 + r.below(4); k > 0; k--) o.push_back("10"[r.below(2)]); else if (n.c == '@') o.push_back(n.cls[0] == 'a' ? 'b' : 'a'); else if (n.c == 1) o.push_back(n.cls[0] ^ (r.pct(50) && n.cls[0] > 64 ? 32 : 0)); break;
	case N_CALL: if (n.call >= 0) derive(g, g.r[n.call].root, r, o, depth+1, limit); break;
	case N_GRP: derive(g, n.k[0], r, o, depth+1, limit); break;
	case N_REP: for (int k = n.c == '?' ? r.below(2) : (n.c == '+') + (limit > 100 && r.pct(40) ? r.below(limit) : r.below(3)); k > 0 && (int)o.size() <= limit && derive_work > 0; k--) derive(g, n.k[0], r, o, depth+1, limit); break;
	case N_SEQ: for (size_t k = 0; k < n.k.size(); k++) derive(g, n.k[k], r, o, depth+1, limit); break;
	case N_ALT: derive(g, n.k[r.below((int)n.k.size())], r, o, depth+1, limit); break;
	}
}
static Bytes mktext(const Gram& g, int seed, bool damaged, int big = 0)
{
	Rng r((uint64_t)seed * 7877 + 5); US u; Bytes b; derive_work = 500 + 10 * big;
	if (big)
	{
		for (int k = 0; (int)u.size() < big && k < big && derive_work > 0; k++) { derive(g, g.r[0].root, r, u, 0, big); if (g.peg && r.pct(50)) break; if (r.pct(5)) u.push_back(letter(g, r)); }
		uint32_t c = letter(g, r); if (r.pct(30)) while ((int)u.size() < big) u.push_back(r.pct(95) ? c : letter(g, r));
		if ((int)u.size() > big) u.resize(big); if (!u.empty() && r.pct(40)) u[r.below((int)u.size())] = letter(g, r);
	} else
	if (r.pct(60)) { if (!g.peg && r.pct(30)) u.push_back(letter(g, r)); derive(g, g.r[0].root, r, u, 0); if (r.pct(40)) for (int k = 1 + r.below(2); k > 0; k--) { size_t p = r.below((int)u.size()+1); int w = r.below(3); if (w == 0) u.insert(u.begin()+p, letter(g, r)); else if (p < u.size()) { if (w == 1) u.erase(u.begin()+p); else u[p] = letter(g, r); } } if (u.size() > 18) u.resize(18); }
	else for (int k = r.below(13); k > 0; k--) u.push_back(r.pct(60) ? "ab"[r.below(2)] : letter(g, r));
	for (size_t k = 0; k < u.size(); k++) put8(b, u[k]);
	if (damaged) for (int k = 1 + r.below(2); k > 0 && !b.empty(); k--) { int p = r.below((int)b.size()); static const char bad[] = "\x80\xC3\xE5\xF0\xFF\xFC\xC1"; if (r.pct(50)) b.erase(p, 1); else b.insert(p, 1, bad[r.below(7)]); }
	return b;
}

// ------------------------------------------------------------ the reference interpreter
struct Cap { std::string name; int from, to; bool rep, call; std::vector<Cap> kids; bool operator==(const Cap& o) const { return name == o.name && from == o.from && to == o.to && rep == o.rep && kids == o.kids; } };
struct Fail { int rule, node; std::vector<std::string> path; };
struct RCtx { RCtx* parent; int rule, origin, off, rep; std::vector<Cap> caps; };
struct Refr
{
	const Gram& g; const Chars& t; bool bytes; long work, limit; bool big, left, rolled; int depth, exam, furthest; std::vector<Fail> fails;
	Refr(const Gram& g_, const Chars& t_, bool by) : g(g_), t(t_), bytes(by), work(0), limit(t_.size() > 40 ? 3000 + 6 * (long)t_.size() : 3000), big(false), left(false), rolled(false), depth(0), exam(-1), furthest(0) {}
	void cut(RCtx& c, size_t n) { if (c.caps.size() > n) { c.caps.resize(n); rolled = true; } }
	bool seq(int i, int& pos, RCtx& cx)
	{
		size_t n0 = cx.caps.size(); int p = pos; const Node& n = g.n[i];
		for (size_t k = 0; k < n.k.size(); k++) if (!atom(n.k[k], p, cx)) { cut(cx, n0); return false; }
		pos = p; return true;
	}
	bool look(int p) { if (p > exam) exam = p; return p < (int)t.size(); }
	bool atom(int i, int& pos, RCtx& cx)
	{
		const Node& n = g.n[i]; int p = pos; size_t n0 = cx.caps.size(); bool ok = false, terminal = false;
		if (++work > limit || depth > 18) { big = true; return false; }
		switch (n.t)
		{
		case N_CHR: case N_ANY: case N_CLS: case N_PRP: terminal = true; if (look(p) && one(n, t[p].c, bytes)) { ok = true; p++; } break;
		case N_EXT:	// see Ext
			if (n.c == '#') { while (look(p) && t[p].c >= '0' && t[p].c <= '9' && ++work <= limit) { p++; ok = true; } if (work > limit) big = true; }
			else if (n.c == '~') ok = !look(p) || !(t[p].c == '_' || t[p].c == '-');
			else if (look(p)) { ok = n.c == '@' ? t[p].c != n.cls[0] : t[p].c == n.cls[0] || t[p].c == (n.cls[0] ^ 32); if (ok) p++; }
			break;
		case N_BOL: ok = p == 0 || t[p-1].c == '\n'; break;
		case N_EOL: ok = !look(p) || t[p].c == '\n'; break;
		case N_GRP: ok = seq(n.k[0], p, cx); break;
		case N_LOOK: { cx.off++; int q = p; ok = atom(n.k[0], q, cx); cx.off--; if (n.c == '!') ok = !ok; break; }
		case N_ALT: for (size_t k = 0; k < n.k.size() && !ok; k++) ok = seq(n.k[k], p, cx); break;
		case N_REP:
		{
			bool opt = n.c == '?'; if (!opt) cx.rep++;
			ok = true;
			if (n.c == '+') ok = atom(n.k[0], p, cx);
			if (ok) for (int reps = 0; !opt || reps < 1; reps++) { int q = p; if (!atom(n.k[0], q, cx)) break; bool stuck = q == p; p = q; if (stuck) break; }
			if (!opt) cx.rep--;
			break;
		}
		case N_CALL:
		{
			if (n.call < 0) break;
			for (RCtx* a = &cx; a; a = a->parent) { if (a->origin < p) break; if (a->rule == n.call) { left = true; goto fail; } }
			RCtx sub; sub.parent = &cx; sub.rule = n.call; sub.origin = p; sub.off = cx.off; sub.rep = 0;
			depth++; ok = seq(g.r[n.call].root, p, sub); depth--;
			if (!ok) break;
			std::string name = n.label.empty() ? g.r[n.call].name : n.label; bool wanted = false;
			for (size_t k = 0; k < g.r[cx.rule].caps.size(); k++) wanted |= g.r[cx.rule].caps[k] == name;
			if (wanted && !g.r[cx.rule].nocaps && cx.off == 0) { Cap c; c.name = name; c.from = pos; c.to = p; c.rep = cx.rep > 0; c.call = true; c.kids = sub.caps; cx.caps.push_back(c); }
			pos = p; return true;
		}
		}
	fail:
		if (!ok)
		{
			cut(cx, n0);
			if (terminal && cx.off == 0 && ((n.t == N_CHR && n.plain && !strchr("~@#%_;<`)^$.\\?*+(|&!", (int)n.c)) || n.t == N_CLS) && pos >= furthest)
			{
				if (pos > furthest) fails.clear();
				bool dup = false; for (size_t k = 0; k < fails.size(); k++) dup |= fails[k].node == i;
				if (!dup) { furthest = pos; Fail f; f.node = i; f.rule = cx.rule; for (RCtx* a = &cx; a; a = a->parent) f.path.insert(f.path.begin(), g.r[a->rule].name); fails.push_back(f); }
			}
			return false;
		}
		if (!n.label.empty() && cx.off == 0) { Cap c; c.name = n.label; c.from = pos; c.to = p; c.rep = cx.rep > 0; c.call = false; cx.caps.push_back(c); }
		pos = p; return true;
	}
};
struct Out { bool ok; int from, to, exam; long line, col; std::vector<Cap> caps; };	// positions in bytes
static void tobytes(std::vector<Cap>& v, const Chars& c, const Bytes& b) { for (size_t i = 0; i < v.size(); i++) { v[i].from = at(c, b, v[i].from); v[i].to = at(c, b, v[i].to); tobytes(v[i].kids, c, b); } }
struct RefOut { bool known, left, rolled; long work; Out o; std::string tree; int furthest; std::vector<Fail> fails; };

// what the supplied context makes of captures
static std::string quote(const Bytes& b) { std::string o = "\""; for (size_t i = 0; i < b.size(); i++) { char t[8]; unsigned char c = b[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c; else { snprintf(t, 8, "\\x%02X", c); o += t; } } return o + "\""; }
static std::string tree(const std::vector<Cap>& v, const Bytes& b, int& count, bool& arrays)
{
	std::map<std::string, std::vector<std::string> > m; std::map<std::string, bool> arr; count = 0;
	for (size_t i = 0; i < v.size(); i++)
	{
		int n = 0; std::string val = tree(v[i].kids, b, n, arrays);
		if (n == 0) { if (v[i].from == v[i].to) continue; val = quote(b.substr(v[i].from, v[i].to - v[i].from)); }
		std::vector<std::string>& e = m[v[i].name]; if (e.empty()) arr[v[i].name] = v[i].rep; else arr[v[i].name] = true;
		e.push_back(val); count++;
	}
	std::string o = "{";
	for (std::map<std::string, std::vector<std::string> >::iterator p = m.begin(); p != m.end(); ++p)
	{
		if (o.size() > 1) o += ","; o += p->first + ":"; bool a = arr[p->first]; if (a) { o += "["; arrays = true; }
		for (size_t k = 0; k < p->second.size(); k++) { if (k) o += ","; o += p->second[k]; }
		if (a) o += "]";
	}
	return o + "}";
}
static RefOut reference(const Gram& g, const Bytes& b, bool bytes, int code)
{
	RefOut f; Chars t = decode(b, bytes); Refr R(g, t, bytes); RCtx top; top.parent = 0; top.rule = 0; top.origin = 0; top.off = top.rep = 0;
	bool ok = false; int s = 0, p = 0;
	for (;; s++) { p = s; ok = R.seq(g.r[0].root, p, top); if (ok || R.big || code != G_MATCH || !R.look(s)) break; top.caps.clear(); }
	f.known = !R.big; f.work = R.work; f.left = R.left; f.rolled = R.rolled; f.o.ok = ok; f.o.from = at(t, b, ok ? s : code == G_MATCH ? (int)t.size() : 0); f.o.to = ok ? at(t, b, p) : f.o.from; f.o.exam = R.exam < 0 ? -1 : at(t, b, R.exam);
	f.o.line = f.o.col = 1; int e = ok ? p : 0; for (int i = 0; i < e; i++) if (t[i].c == '\n') { f.o.line++; f.o.col = 1; } else f.o.col++;
	tobytes(top.caps, t, b); f.o.caps = top.caps;
	int n; bool a = false; if (ok && code == G_AST) f.tree = tree(f.o.caps, b, n, a); f.furthest = at(t, b, R.furthest); f.fails = R.fails;
	return f;
}
static std::string str(const std::vector<Cap>& v) { std::string o; for (size_t i = 0; i < v.size(); i++) { char b[80]; snprintf(b, 80, "%s=%d..%d%s", v[i].name.c_str(), v[i].from, v[i].to, v[i].rep ? "*" : ""); if (i) o += ' '; o += b; if (!v[i].kids.empty()) o += "(" + str(v[i].kids) + ")"; } return o; }
static std::string str(const Out& o) { char b[80]; if (!o.ok) return "no match"; snprintf(b, 80, "%d..%d", o.from, o.to); return b + (o.caps.empty() ? std::string() : " with " + str(o.caps)); }

// ------------------------------------------------------------ text that arrives in pieces
struct Stream { const char* p; int n, got, exam, copies; };
static void await(Stream* s, int upto)
{
	for (;;)
	{
		{ MODEL; if (s->got >= upto || s->got >= s->n) return; sim_probe(P_WAIT); }
		int d = sim_choose(SF_DELAY, 6, 40); if (d) sim_stall(d);
		{ MODEL; s->got += 1 + sim_choose(SF_CHUNK, 7, 60); if (s->got > s->n) s->got = s->n; }
	}
}
template<class C> class StreamSource
{
public:
	using Char = C;
	StreamSource() : s(0), pos(0), line(1), col(1) {}
	StreamSource(Stream* st) : s(st), pos(0), line(1), col(1) { s->copies++; }
	StreamSource(const StreamSource& o) : s(o.s), pos(o.pos), line(o.line), col(o.col) { if (s) s->copies++; }
	~StreamSource() { if (s) s->copies--; }
	StreamSource& operator=(const StreamSource& o) { if (o.s) o.s->copies++; if (s) s->copies--; s = o.s; pos = o.pos; line = o.line; col = o.col; return *this; }
	bool is_null() const { return s == 0; }
	bool at_eof() const { MODEL; if (s->exam < pos) s->exam = pos; { LibScope l; await(s, pos+1); } return pos >= s->n; }
	char get_byte() { if (at_eof()) return 0; MODEL; char c = s->p[pos++]; bump((unsigned char)c); return c; }
	Char get_char()
	{
		if (sizeof(Char) == 1) return get_byte();
		if (at_eof()) return (Char)UCS4_NONE;
		MODEL; { LibScope l; await(s, pos + seqlen(s->p[pos])); }
		Ch x = dec1(s->p, s->n, pos); pos += x.n; bump(x.c); return (Char)x.c;
	}
	bool at_bol() const { return col == 1; }
	bool same(const StreamSource& o) const { return pos == o.pos; }
	bool operator<(const StreamSource& o) const { return pos < o.pos; }
	off_t current_byte() const { return pos; } off_t current_line() const { return line; } off_t current_column() const { return col; }
private:
	void bump(uint32_t c) { if (c == '\n') { line++; col = 1; } else col++; }
	Stream* s; int pos; long line, col;
};

// ------------------------------------------------------------ contexts that record
template<class S> class ListContext	// for Pegexp alone
{
public:
	using Source = S; using Match = PegexpDefaultMatch<PegexpState<S>>; using State = typename Match::State;
	ListContext() : capture_disabled(0), repetition_nesting(0), caps(0) { MODEL; caps = new std::vector<Cap>; }
	~ListContext() { MODEL; delete caps; }
	int capture_disabled, repetition_nesting;
	int capture_count() const { MODEL; return (int)caps->size(); }
	int capture(PatternP name, int len, Match m, bool rep) { int f = (int)m.from.source.current_byte(), t = (int)m.to.source.current_byte(); MODEL; Cap c; c.name.assign(name, len); c.from = f; c.to = t; c.rep = rep; c.call = false; caps->push_back(c); return (int)caps->size(); }
	void rollback_capture(int n) { MODEL; if (n < (int)caps->size()) caps->resize(n); }
	void record_failure(PatternP, PatternP, S) {}
	Match match_result(State a, State b) { return Match(a, b); }
	Match match_failure(State a) { return Match(a, a); }
	std::vector<Cap>* caps;
};
static bool exts[NPX];
template<class C> class Ext : public Pegexp<C>	// an expression language with operators of the user's own
{
	typedef Pegexp<C> B; bool on;
public:
	Ext(PatternP p, bool o) : B(p), on(o) {}
	virtual bool match_extended(typename B::State& st, C* cx)
	{
		char op = *st.pattern; typedef typename C::Source::Char Char;
		if (!on) return B::match_extended(st, cx);
		if (op == '#') { st.pattern++; int n = 0; for (;; n++) { if (st.source.at_eof()) break; typename C::Source s(st.source); Char c = s.get_char(); if (c < '0' || c > '9') break; st.source = s; } return n > 0; }
		if (op == '~') { st.pattern++; if (st.source.at_eof()) return true; typename C::Source s(st.source); Char c = s.get_char(); return !(c == '_' || c == '-'); }
		if (op == '@' || op == 1) { st.pattern++; char a = *st.pattern++; if (st.source.at_eof()) return false; Char c = st.source.get_char(); return op == '@' ? c != (Char)a : c == (Char)a || c == (Char)(a ^ 32); }
		return B::match_extended(st, cx);
	}
	virtual void skip_extended(PatternP& p) { if (on && (*p == '@' || *p == 1)) p += 2; else B::skip_extended(p); }
};
template<class S> class TreeMatch : public PegexpDefaultMatch<PegexpState<S>>
{
	using B = PegexpDefaultMatch<PegexpState<S>>;
public:
	using Source = S; using State = PegexpState<S>;
	TreeMatch() : kids(0) {}
	TreeMatch(State a, State b) : B(a, b), kids(0) {}
	TreeMatch(State a, State b, const std::vector<Cap>& k) : B(a, b), kids(0) { MODEL; kids = new std::vector<Cap>(k); }
	TreeMatch(const TreeMatch& o) : B(o), kids(0) { MODEL; if (o.kids) kids = new std::vector<Cap>(*o.kids); }
	TreeMatch& operator=(const TreeMatch& o) { this->from = o.from; this->to = o.to; MODEL; std::vector<Cap>* k = o.kids ? new std::vector<Cap>(*o.kids) : 0; delete kids; kids = k; return *this; }
	~TreeMatch() { MODEL; delete kids; }
	std::vector<Cap>* kids;
};
template<class S> class TreeContext	// for Peg
{
public:
	using Match = TreeMatch<S>; using Source = S; using State = typename Match::State; using PegexpT = PegPegexp<TreeContext>; using Rule = PegCaptureRule<PegexpT>; using PegT = Peg<S, Match, TreeContext>;
	TreeContext(PegT* p, TreeContext* up, Rule* r, S o) : capture_disabled(up ? up->capture_disabled : 0), repetition_nesting(0), peg(p), parent(up), rule(r), origin(o), caps(0) { MODEL; caps = new std::vector<Cap>; }
	~TreeContext() { MODEL; delete caps; }
	int capture_disabled, repetition_nesting;
	int capture_count() const { MODEL; return (int)caps->size(); }
	int capture(PatternP name, int len, Match m, bool rep) { int f = (int)m.from.source.current_byte(), t = (int)m.to.source.current_byte(); MODEL; Cap c; c.name.assign(name, len); c.from = f; c.to = t; c.rep = rep; c.call = false; if (m.kids) c.kids = *m.kids; caps->push_back(c); return (int)caps->size(); }
	void rollback_capture(int n) { MODEL; if (n < (int)caps->size()) caps->resize(n); }
	void record_failure(PatternP, PatternP, S) {}
	Match match_result(State a, State b) { return Match(a, b, *caps); }
	Match match_failure(State a) { return Match(a, a); }
	PegT* peg; TreeContext* parent; Rule* rule; S origin;
	std::vector<Cap>* caps;
};

// ------------------------------------------------------------ state
typedef StreamSource<UCS4> SU; typedef StreamSource<char> SB; typedef PegexpPointerSource<> PU; typedef PegexpPointerSource<const UTF8*, char> PB;
static char* strdup_sim(const std::string& s) { char* p = (char*)operator new(s.size()+1); MODEL; memcpy(p, s.c_str(), s.size()+1); return p; }
static Gram px[NPX], gr[NG];
struct RuleText { const char* name; const char* text; const char** caps; };
static char* px_text[NPX]; static RuleText rt[NG][6];
static const char** mkcaps(const Rule& r)
{
	if (r.nocaps) return 0;
	const char** c = (const char**)operator new(sizeof(char*) * (r.caps.size()+1)); size_t i; for (i = 0; i < r.caps.size(); i++) c[i] = strdup_sim(r.caps[i]); c[i] = 0; return c;
}
template<class R> static void mkrule(R* where, const RuleText& t) { new (where) R(t.name, t.text, t.caps); }
template<class P> static void mkrule(PegRuleNoCapture<P>* where, const RuleText& t) { new (where) PegRuleNoCapture<P>(t.name, P(t.text)); }
template<class P> struct Grammar	// one parser over a rule table of its own
{
	typedef typename P::Rule R; R* rules; P* peg;
	void make(int k) { int n; { MODEL; n = (int)gr[k].r.size(); } rules = (R*)operator new(sizeof(R)*n); for (int i = 0; i < n; i++) mkrule(rules+i, rt[k][i]); peg = new P(rules, n); }
	void drop() { delete peg; operator delete(rules); }
};
template<class S> struct Engine
{
	typedef Ext<PegexpDefaultContext<PegexpDefaultMatch<PegexpState<S>>>> PlainP; typedef Ext<ListContext<S>> ListP; typedef Peg<S> PlainG; typedef Peg<S, TreeMatch<S>, TreeContext<S>> TreeG;
	PlainP* pp[NPX]; ListP* lp[NPX]; Grammar<PlainG> pg[NG]; Grammar<TreeG> tg[NG];
	void make(int np, int ng) { for (int i = 0; i < np; i++) { pp[i] = new PlainP(px_text[i], exts[i]); lp[i] = new ListP(px_text[i], exts[i]); } for (int i = 0; i < ng; i++) { pg[i].make(i); tg[i].make(i); } }
	void drop(int np, int ng) { for (int i = 0; i < np; i++) { ::operator delete(pp[i]); ::operator delete(lp[i]); } for (int i = 0; i < ng; i++) { pg[i].drop(); tg[i].drop(); } }
	template<class M> static Out result(const M& m, const S& src)
	{
		Out o; bool ok = !m.is_failure(); int f = (int)m.from.source.current_byte(), t = (int)m.to.source.current_byte(); long l = src.current_line(), c = src.current_column(), at = src.current_byte();
		MODEL; o.ok = ok; o.from = f; o.to = ok ? t : f; o.line = l; o.col = c; o.exam = (int)at; return o;
	}
	Out run(const S& start, int code, int k, bool plain)
	{
		S src(start);
		if (code == G_PARSE) { if (plain) { typename PlainG::Match m = pg[k].peg->parse(src); return result(m, src); } typename TreeG::Match m = tg[k].peg->parse(src); Out o = result(m, src); MODEL; if (m.kids) o.caps = *m.kids; return o; }
		if (plain) { PegexpDefaultContext<PegexpDefaultMatch<PegexpState<S>>> cx; typename PlainP::Match m = code == G_MATCH ? pp[k]->match(src, &cx) : pp[k]->match_here(src, &cx); return result(m, src); }
		ListContext<S> cx; typename ListP::Match m = code == G_MATCH ? lp[k]->match(src, &cx) : lp[k]->match_here(src, &cx); Out o = result(m, src); MODEL; o.caps = *cx.caps; return o;
	}
};
static Engine<SU> esu; static Engine<SB> esb; static Engine<PU> epu; static Engine<PB> epb;
typedef Peg<PegMemorySource, PegMatch, PegContext> AstG;
static Grammar<AstG> ag[NG];
static int nactors, npx, ngr, oom_mode, busy[NG]; static uint64_t base_live;
static bool calm[MAXA];
static const int WORK = 1500;	// steps per step of the reference; at most 70 were seen
static void lib_begin(int A, long work) { MODEL; sim_limit_steps((uint64_t)WORK * (work + 50), "matching"); sim_alloc_failed(); if (oom_mode && !calm[A]) sim_alloc_faults(1); }
static bool lib_end(bool o, bool mayfail)
{
	MODEL; sim_limit_steps(0, ""); sim_alloc_faults(0); int n = sim_alloc_failed();
	if (n && !mayfail) sim_fail("allocates", "parsing without captures asked for memory");
	if (o && !n) sim_fail("bad-alloc", "bad_alloc was thrown although no allocation failed");
	if (!o && n) sim_fail("swallowed", "an allocation failed but the parse returned normally");
	return o;
}
struct HText { char* p; int n; HText(const Bytes& b) : p(0), n((int)b.size()) { p = strdup_sim(b); } ~HText() { operator delete(p); } };

static void canon(const Variant& v, std::string& o, int depth)
{
	switch (v.type())
	{
	case Variant::String: { StrVal s = v.as_strval(); StrValIndex n; const char* p = ((const StrVal&)s).asUTF8(n); MODEL; o += quote(Bytes(p, n)); break; }
	case Variant::VarArray: { VariantArray a = v.as_variant_array(); { MODEL; o += "["; } for (int i = 0; i < (int)a.length(); i++) { if (i) { MODEL; o += ","; } canon(a[i], o, depth+1); } { MODEL; o += "]"; } break; }
	case Variant::StrVarMap:
	{
		StrVariantMap m = v.as_variant_map(); bool first = true; { MODEL; o += "{"; }
		for (StrVariantMap::Iter it = m.begin(); it != m.end(); it++) { if (!first) { MODEL; o += ","; } first = false; StrVal k = it->first; StrValIndex n; const char* p = ((const StrVal&)k).asUTF8(n); { MODEL; o += Bytes(p, n) + ":"; } canon(it->second, o, depth+1); }
		{ MODEL; o += "}"; } break;
	}
	default: { MODEL; o += "none"; }
	}
}
static void judge(const Gram& g, const Bytes& b, const RefOut& f, const Out& got, bool plain, int code, const char* src)
{
	MODEL;
	std::string re; for (size_t i = 0; i < g.r.size(); i++) re += (i ? " " : "") + (g.peg ? g.r[i].name + "=" : std::string()) + "/" + show(g.r[i].text) + "/";
	const char* nm = opname(code);
	if (got.ok != f.o.ok || (got.ok && (got.from != f.o.from || got.to != f.o.to))) sim_fail("wrong-match", "%s %s on \"%s\" (%s) gives %s, not %s", nm, re.c_str(), show(b).c_str(), src, str(got).c_str(), str(f.o).c_str());
	if (got.ok && !plain && !(got.caps == f.o.caps)) sim_fail("wrong-captures", "%s %s on \"%s\" (%s) captures %s, not %s", nm, re.c_str(), show(b).c_str(), src, str(got.caps).c_str(), str(f.o.caps).c_str());
	if (code != G_MATCH && (got.line != f.o.line || got.col != f.o.col)) sim_fail("wrong-position", "%s %s on \"%s\" (%s) leaves the source at line %ld column %ld, not %ld %ld", nm, re.c_str(), show(b).c_str(), src, got.line, got.col, f.o.line, f.o.col);
	sim_probe(got.ok ? P_MATCHED : P_FAILED); if (!got.caps.empty()) sim_probe(P_CAPT); for (size_t i = 0; i < got.caps.size(); i++) if (!got.caps[i].kids.empty()) sim_probe(P_NEST);
	if (f.left) sim_probe(P_LEFT); if (f.rolled) sim_probe(P_ROLL);
}
static Bytes garbage(Rng& r, bool peg)
{
	Bytes o;
	static const char* const bits[] = { "a","b","1","(",")","|","*","+","?","&","!","[","[^","]","-","\\","\\s","\\x","\\x{","\\u","\\u{","\\0","\\1",".","^","$",":",":x","::","{","}","\n","_","\\x4","\\u5B","@","#","~1","%",";","`","\xC3\xA9","<","<a>","<a","<TOP>","<b>:x","<>" };
	if (r.pct(50)) { o = mkgram(r.below(1000000), false, r.pct(50), r.below(2)).r[0].text; if (o.size() > 24) o.resize(24); for (int k = 1 + r.below(2); k > 0; k--) { size_t p = r.below((int)o.size()+1); if (r.pct(60) && o.size()) o.erase(p, 1 + r.below(3)); else o.insert(p, bits[r.below(peg ? 48 : 43)]); } }
	else for (int k = 1 + r.below(7); k > 0; k--) o += bits[r.below(peg ? 48 : 43)];
	return o;
}
static bool same(const Out& a, const Out& b) { return a.ok == b.ok && (!a.ok || (a.from == b.from && a.to == b.to && a.caps == b.caps)); }
static void exec(int A, const SimOp& op)
{
	int code = op.code, k; bool plain = op.d & 1, bytes, memory; const char* nm; Gram* g; Bytes* b; RefOut* f; bool skip = false;
	{ MODEL; nm = opname(code); }
	if (code == G_PAUSE) { sim_stall(1 + op.b % 6); return; }
	if (code == G_ANY || code == G_ANYPEG)
	{	// any text as an expression: what it means may be unclear, but it stays in bounds, ends, and doesn't depend on the source
		Bytes* pat[3]; Bytes* t; bool asc;
		{ MODEL; Rng r((uint64_t)op.a * 7919 + op.b * 104729 + op.c * 31 + op.d); for (int i = 0; i < 3; i++) pat[i] = new Bytes(garbage(r, code == G_ANYPEG)); Gram q = mkgram(r.below(1000000), false, false, 1); t = new Bytes(mktext(q, r.below(10000), r.pct(30))); if (t->size() > 7) t->resize(7); { size_t z = t->find((char)0); if (z != Bytes::npos) t->resize(z); } if (getenv("PEG_SHOW")) for (int i = 0; i < 3; i++) fprintf(stderr, "any /%s/ on %s\n", show(*pat[i]).c_str(), show(*t).c_str()); sim_probe(P_ANY); }
		{
			HText p0(*pat[0]), p1(*pat[1]), p2(*pat[2]), txt(*t); Out o1, o2; Stream st = { txt.p, txt.n, 0, -1, 0 };
			if (code == G_ANY)
			{
				{ Pegexp<ListContext<PU>> p(p0.p); ListContext<PU> cx; PU s(txt.p); if (op.e & 1) { o1 = Engine<PU>::result(p.match(s, &cx), s); } else o1 = Engine<PU>::result(p.match_here(s, &cx), s); MODEL; o1.caps = *cx.caps; }
				{ Pegexp<ListContext<SU>> p(p0.p); ListContext<SU> cx; SU s(&st); if (op.e & 1) { o2 = Engine<SU>::result(p.match(s, &cx), s); } else o2 = Engine<SU>::result(p.match_here(s, &cx), s); MODEL; o2.caps = *cx.caps; }
			}
			else
			{
				const char* cap[] = { "x", "a", 0 }; RuleText q[3] = { { "TOP", p0.p, cap }, { "a", p1.p, cap }, { "b", p2.p, cap } };
				{ typedef Peg<PU, TreeMatch<PU>, TreeContext<PU>> G; G::Rule* r = (G::Rule*)operator new(sizeof(G::Rule)*3); for (int i = 0; i < 3; i++) mkrule(r+i, q[i]); { G x(r, 3); PU s(txt.p); G::Match m = x.parse(s); o1 = Engine<PU>::result(m, s); MODEL; if (m.kids) o1.caps = *m.kids; } operator delete(r); }
				{ typedef Peg<SU, TreeMatch<SU>, TreeContext<SU>> G; G::Rule* r = (G::Rule*)operator new(sizeof(G::Rule)*3); for (int i = 0; i < 3; i++) mkrule(r+i, q[i]); { G x(r, 3); SU s(&st); G::Match m = x.parse(s); o2 = Engine<SU>::result(m, s); MODEL; if (m.kids) o2.caps = *m.kids; } operator delete(r); }
			}
			MODEL;
			if (!same(o1, o2)) sim_fail("source-dependent", "/%s/ on \"%s\" gives %s from memory and %s from a stream", show(*pat[0]).c_str(), show(*t).c_str(), str(o1).c_str(), str(o2).c_str());
			if (st.copies) sim_fail("source-leak", "%d copies of the source are left", st.copies);
		}
		{ MODEL; for (int i = 0; i < 3; i++) delete pat[i]; delete t; }
		return;
	}
	{
		MODEL;
		bool peg = code == G_PARSE || code == G_AST; k = op.a % (peg ? ngr : npx); g = peg ? &gr[k] : &px[k];
		bytes = g->ascii && (op.c & 2) && code != G_AST; memory = op.c & 1;
		int big = op.e < 5 ? 20 << (op.b % 7) : op.e == 5 && op.b % 5 == 0 && code != G_AST && plain ? 70000 : 0; if (nactors > 1 && big > 300) big = 300;
		b = new Bytes(mktext(*g, op.b, (op.d & 6) == 6, big));
		int cutat = b->empty() ? 0 : sim_choose(SF_TRUNC, (int)b->size()+1, 12); if (cutat) { b->resize(cutat-1); sim_probe(P_TRUNC); }
		if (!b->empty() && sim_choose(SF_CORRUPT, 2, 8)) { int p = sim_choose(SF_USER1, (int)b->size(), 100), v = sim_choose(SF_USER2, 255, 100); (*b)[p] = (char)(v + 1); }
		if (memory || code == G_AST) { size_t z = b->find((char)0); if (z != Bytes::npos) b->resize(z); }	// there it ends the text
		if (b->size() > 40) sim_probe(P_LONG);
		Chars c = decode(*b, false); for (size_t i = 0; i < c.size(); i++) if (c[i].c & 0x80000000u) { sim_probe(P_ILLEGAL); break; }
		f = new RefOut(reference(*g, *b, bytes, code)); skip = !f->known; if (skip) sim_probe(P_BIG);
		if (peg && busy[k]) sim_probe(P_OVERLAP); if (peg) busy[k]++;
		if (getenv("PEG_SHOW")) fprintf(stderr, "%s %d on %s (%s%s): %s %s\n", nm, k, show(*b).c_str(), memory ? "memory" : "stream", bytes ? " bytes" : "", skip ? "skip" : str(f->o).c_str(), f->tree.c_str());
	}
	if (!skip)
	{
		HText t(*b);
		if (code == G_AST)
		{
			for (int attempt = 0; attempt < 2; attempt++)
			{
				PegMatch m; PegMemorySource src(t.p); bool oom = false;
				{ MODEL; calm[A] = attempt; }
				lib_begin(A, f->work); try { m = ag[k].peg->parse(src); } catch (const std::bad_alloc&) { oom = true; } lib_end(oom, true);
				{ MODEL; calm[A] = false; }
				if (oom) { MODEL; sim_probe(P_OOM); continue; }
				std::string* got; { MODEL; got = new std::string; }
				bool ok = !m.is_failure(); if (ok) canon(m.var, *got, 0);
				Out o; { MODEL; o.ok = ok; o.from = 0; o.to = ok ? (int)src.current_byte() : 0; o.line = src.current_line(); o.col = src.current_column(); }
				judge(*g, *b, *f, o, true, code, "tree");
				{
					MODEL;
					std::string re; for (size_t i = 0; i < g->r.size(); i++) re += (i ? " " : "") + g->r[i].name + "=/" + show(g->r[i].text) + "/";
					if (ok && *got != f->tree) sim_fail("wrong-tree", "%s on \"%s\" builds %s, not %s", re.c_str(), show(*b).c_str(), got->c_str(), f->tree.c_str());
					int n; bool arr = false; if (ok) tree(f->o.caps, *b, n, arr); if (arr) sim_probe(P_ARRAY);
					delete got; got = 0;
				}
				if (sim_cfg->user[7] != 5) break;
				// the furthest point reached, and what was wanted there
				int far = (int)m.furthermost_success.current_byte(), nf = (int)m.failures.length();
				{
					MODEL;
					if (m.furthermost_success.peek() == 0 || far != f->furthest || m.furthermost_success.peek() != t.p + far) sim_fail("wrong-furthest", "parse of \"%s\" with /%s/... reports %d as the furthest point, not %d", show(*b).c_str(), show(g->r[0].text).c_str(), m.furthermost_success.peek() ? far : -1, f->furthest);
					if (nf != (int)f->fails.size()) sim_fail("wrong-failures", "parse of \"%s\" with /%s/... reports %d failures, not %zu", show(*b).c_str(), show(g->r[0].text).c_str(), nf, f->fails.size());
					if (nf) sim_probe(P_FAILLIST);
				}
				for (int i = 0; i < nf; i++)
				{
					PegFailure pf = m.failures[i]; int np = (int)pf.path.length(); std::string* path; { MODEL; path = new std::string; }
					for (int q = 0; q < np; q++) { const char* s = pf.path[q]; MODEL; *path += std::string(q ? ">" : "") + s; }
					MODEL;
					const Fail& w = f->fails[i]; const Node& n = g->n[w.node]; std::string want; for (size_t q = 0; q < w.path.size(); q++) want += (q ? ">" : "") + w.path[q];
					const char* base = rt[k][w.rule].text;
					if (pf.atom != base + n.off || (n.t == N_CHR && n.c >= 32 ? pf.atom_len < 1 : n.t == N_CLS && pf.atom_len < n.len)) sim_fail("wrong-failures", "failure %d of \"%s\" with /%s/... is /%s/ (%d), not /%s/", i, show(*b).c_str(), show(g->r[0].text).c_str(), sim_check_range(pf.atom, 1) ? show(pf.atom).c_str() : "?", pf.atom_len, show(base + n.off).c_str());
					if (*path != want) sim_fail("wrong-failures", "failure %d of \"%s\" is reported from %s, not %s", i, show(*b).c_str(), path->c_str(), want.c_str());
					delete path;
				}
				break;
			}
		}
		else
		{
			Stream st = { t.p, t.n, 0, -1, 0 }; Out o; bool mem = memory;
			lib_begin(A, f->work);
			if (mem) { if (bytes) o = epb.run(PB(t.p), code, k, plain); else o = epu.run(PU(t.p), code, k, plain); }
			else { if (bytes) o = esb.run(SB(&st), code, k, plain); else o = esu.run(SU(&st), code, k, plain); }
			lib_end(false, false);
			judge(*g, *b, *f, o, plain, code, mem ? bytes ? "bytes in memory" : "memory" : bytes ? "byte stream" : "stream");
			MODEL;
			if (!mem)
			{
				sim_probe(P_STREAM);
				if (st.exam > f->o.exam) sim_fail("reads-ahead", "%s /%s/ on \"%s\" waited for the input at %d although %d was enough", nm, show(g->r[0].text).c_str(), show(*b).c_str(), st.exam, f->o.exam);
				if (st.copies) sim_fail("source-leak", "%d copies of the source are left", st.copies);
			}
			o.caps.clear();
		}
	}
	MODEL; if (code == G_PARSE || code == G_AST) busy[k]--;
	delete b; delete f;
}
static void body()
{
	{ MODEL; nactors = sim_cfg->user[0]; npx = 1 + sim_cfg->user[4] % NPX; ngr = 1 + sim_cfg->user[5] % NG; oom_mode = sim_cfg->alloc_mode; memset(busy, 0, sizeof(busy)); memset(calm, 0, sizeof(calm));
	  for (int i = 0; i < npx; i++) { exts[i] = sim_cfg->user[6] >> i & 1; px[i] = mkgram(sim_cfg->user[1] + i, false, sim_cfg->user[3] & 1, sim_cfg->user[2] % 4, exts[i]); if (exts[i]) sim_probe(P_EXT); } for (int i = 0; i < ngr; i++) gr[i] = mkgram(sim_cfg->user[1] + 7777 + i, true, sim_cfg->user[3] & 2, sim_cfg->user[2] / 4 % 3);
	  if (getenv("PEG_SHOW")) { for (int i = 0; i < npx; i++) fprintf(stderr, "expression %d: /%s/\n", i, show(px[i].r[0].text).c_str()); for (int i = 0; i < ngr; i++) for (size_t q = 0; q < gr[i].r.size(); q++) fprintf(stderr, "grammar %d: %s = /%s/\n", i, gr[i].r[q].name.c_str(), show(gr[i].r[q].text).c_str()); } }
	base_live = sim_live_blocks();
	for (int i = 0; i < npx; i++) px_text[i] = strdup_sim(px[i].r[0].text);
	for (int i = 0; i < ngr; i++) for (size_t q = 0; q < gr[i].r.size(); q++) { rt[i][q].name = strdup_sim(gr[i].r[q].name); rt[i][q].text = strdup_sim(gr[i].r[q].text); rt[i][q].caps = mkcaps(gr[i].r[q]); }
	esu.make(npx, ngr); esb.make(npx, ngr); epu.make(npx, ngr); epb.make(npx, ngr); for (int i = 0; i < ngr; i++) ag[i].make(i);
	h_run_actors(nactors, exec);
	esu.drop(npx, ngr); esb.drop(npx, ngr); epu.drop(npx, ngr); epb.drop(npx, ngr); for (int i = 0; i < ngr; i++) ag[i].drop();
	for (int i = 0; i < npx; i++) operator delete(px_text[i]);
	for (int i = 0; i < ngr; i++) for (size_t q = 0; q < gr[i].r.size(); q++) { operator delete((void*)rt[i][q].name); operator delete((void*)rt[i][q].text); if (rt[i][q].caps) { for (const char** c = rt[i][q].caps; *c; c++) operator delete((void*)*c); operator delete((void*)rt[i][q].caps); } }
	if (sim_live_blocks() != base_live) { char b[300]; sim_describe_live(b, sizeof(b)); sim_fail("leak", "after everything was dropped: %s", b); }
}
static void gen(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops, int which)
{
	int n = which == 4 ? 1 + r.below(MAXA) : which == 1 && r.pct(30) ? 2 + r.below(2) : 1;
	c.user[0] = n; c.user[1] = r.below(10000000); c.user[2] = r.below(12); c.user[3] = r.below(4); c.user[4] = r.below(NPX); c.user[5] = which == 4 && r.pct(70) ? 0 : r.below(NG); c.user[6] = r.pct(70) ? 0 : 1 + r.below(3); c.user[7] = which;
	sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = which == 4 ? RACE_ALL : RACE_OFF; c.step_budget = 1500000;
	if (which == 2) { c.alloc_mode = 3; c.alloc_n = 1; }
	if (which == 3 && r.pct(60)) { c.alloc_mode = 1 + r.below(4); c.alloc_n = c.alloc_mode == 2 ? r.range(1, 30) : r.range(1, 60); }
	static const uint8_t mix[7][8] = { {}, { G_MATCH, G_MATCH, G_HERE, G_PARSE, G_PARSE, G_PARSE, G_AST, G_PARSE }, { G_MATCH, G_HERE, G_PARSE, G_PARSE, G_PARSE, G_MATCH, G_PARSE, G_PARSE }, { G_AST, G_AST, G_AST, G_AST, G_AST, G_PARSE, G_MATCH, G_HERE }, { G_MATCH, G_HERE, G_PARSE, G_PARSE, G_PARSE, G_AST, G_AST, G_PAUSE }, { G_AST, G_AST, G_AST, G_AST, G_AST, G_AST, G_AST, G_AST }, { G_ANY, G_ANY, G_ANY, G_ANYPEG, G_ANYPEG, G_ANYPEG, G_ANY, G_ANYPEG } };
	int len = r.range(2, thorough ? 24 : 14);
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
			ops.push_back(mkop(A, mix[which][r.below(8)], r.below(1000), r.below(100000), r.below(4), which == 2 ? 1 | r.below(8) : which == 3 ? r.below(4) * 2 : r.below(8), r.below(256), (int)ops.size()));
}
#define G(k) static void gen##k(Rng& r, int t, SimConfig& c, std::vector<SimOp>& ops) { gen(r, t, c, ops, k); }
G(1) G(2) G(3) G(4) G(5) G(6)
const SimProp sim_props[] = { { "P01", gen1, body, opname, probes }, { "P02", gen2, body, opname, probes }, { "P03", gen3, body, opname, probes }, { "P04", gen4, body, opname, probes }, { "P05", gen5, body, opname, probes }, { "P06", gen6, body, opname, probes }, { 0, 0, 0, 0, 0 } };
