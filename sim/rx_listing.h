// The listing that RxCompiler::dump prints, read back and followed.
struct Ins { int at, to, g, min, max; char op; uint32_t c; std::vector<uint32_t> cls; };
struct Listing
{
	std::vector<Ins> v; std::map<int,int> where; int search, start; std::string bad;
	const std::string* o; size_t p; int work; bool big;
	bool lit(const char* s) { size_t n = strlen(s); if (o->compare(p, n, s)) return false; p += n; return true; }
	bool num(int& r) { size_t q = p; bool neg = false; if (q < o->size() && ((*o)[q] == '-' || (*o)[q] == '+')) neg = (*o)[q++] == '-'; size_t d = q; long x = 0; while (q < o->size() && isdigit((unsigned char)(*o)[q]) && x < 1000000) x = x*10 + (*o)[q++] - '0'; if (q == d) return false; r = (int)(neg ? -x : x); p = q; return true; }
	bool fail(const char* why) { size_t e = o->find('\n', p); bad = std::string(why) + " at \"" + show(o->substr(p, e == std::string::npos || e > p + 60 ? 60 : e - p)) + "\""; return false; }
	static bool decode(const std::string& s, std::vector<uint32_t>& u)
	{
		for (size_t i = 0; i < s.size(); )
		{
			unsigned char b = s[i++]; uint32_t c = b; int more = b < 0x80 ? 0 : b < 0xC0 ? -1 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : b < 0xF8 ? 3 : b < 0xFC ? 4 : 5;
			if (more < 0) return false;
			if (more) c = b & (more == 5 ? 3 : 0x3F >> more);
			for (; more > 0; more--) { if (i >= s.size() || ((unsigned char)s[i] & 0xC0) != 0x80) return false; c = c << 6 | (s[i++] & 0x3F); }
			u.push_back(c);
		}
		return true;
	}
	bool hex(const char* code, int len)
	{
		for (int i = 0; i < len; i++) { char b[4]; snprintf(b, 4, "%02X", code[i] & 0xFF); while (p < o->size() && (*o)[p] == ' ') p++; if (!lit(b)) return fail("the bytes listed are not the program's"); }
		while (p < o->size() && (*o)[p] == ' ') p++;
		return lit("\n") || fail("the bytes listed are not the program's");
	}
	bool quoted(std::string& s, int at)	// to the quote after which the next instruction starts where this one ends
	{
		for (size_t e = p; (e = o->find("'\n", e)) != std::string::npos; e++)
		{
			size_t n = e - p, save = p; int next; p = e + 2;
			if (num(next) && p < o->size() && (*o)[p] == '\t' && next == at + 1 + (n < 0x80 ? 1 : n < 0x800 ? 2 : 3) + (int)n) { s = o->substr(save, n); p = e + 2; return true; }
			p = save;
		}
		return false;
	}
	bool group(int& g, const Rx& x)
	{
		for (g = 0; g <= x.caps; g++) { size_t save = p; char b[24]; snprintf(b, 24, "'(%d)\n", g); if (lit(" group '") && lit(g ? gname(x, g).c_str() : "") && lit(b)) return true; p = save; }
		return false;
	}
	bool header(const Rx& x)
	{
		int n;
		if (!lit(", search->") || !num(search) || !lit(", start->") || !num(start)) return fail("no search and start");
		if (!lit(", station_count=") || !num(n) || n < 1 || !lit(", max_nesting=") || !num(n) || n < 1 || !lit(", max_capture=") || !num(n) || n != x.caps + 1) return fail("wrong limits");
		if (x.caps) { if (!lit(", names: ") || !num(n) || n != x.caps || !lit("@(") || !num(n) || !lit(")")) return fail("wrong number of names"); for (int g = 1; g <= x.caps; g++) if (!lit(" ") || !lit(gname(x, g).c_str())) return fail("wrong name"); }
		return lit("\n") || fail("something after the start");
	}
	bool read(const std::string& out, const char* code, int len, const Rx& x, bool withhex)
	{
		static const struct { const char* name; char op; } N[] = { {"NFA Start",'S'}, {"CaptureStart",'('}, {"CaptureEnd",')'}, {"CharProperty",'P'}, {"CharClass",'L'}, {"NegCharClass",'N'}, {"Char",'C'}, {"Any",'.'}, {"BOL",'^'}, {"EOL",'$'}, {"Jump",'J'}, {"Split",'A'}, {"NegLookahead",'!'}, {"Zero",'Z'}, {"Count",'R'}, {"Accept",'#'} };
		o = &out; p = 0; search = start = -1;
		if (withhex && !hex(code, len)) return false;
		for (;;)
		{
			Ins n; n.at = n.to = n.g = n.min = n.max = 0; n.op = 0; n.c = 0; int k;
			if (!num(n.at) || !lit("\t") || (v.size() ? n.at <= v.back().at : n.at != 0)) return fail("no instruction's place");
			if (lit("Null termination\n")) { if (n.at != len-1) return fail("the end is not the program's"); if (p != o->size()) return fail("something after the end"); break; }
			if (n.at >= len-1) return fail("an instruction beyond the end");
			for (size_t i = 0; !n.op && i < sizeof(N)/sizeof(*N); i++)
			{
				size_t save = p; char b[16]; snprintf(b, 16, "(%c %02X)", code[n.at], code[n.at] & 0xFF);
				if (lit(N[i].name) && lit(b)) n.op = N[i].op; else p = save;
			}
			if (!n.op) return fail("no instruction");
			if ((n.op == 'S') != (n.at == 0)) return fail("the start is elsewhere");
			std::string q;
			switch (n.op)
			{
			case 'S': if (!header(x)) return false; break;
			case '(': case ')': if (!group(n.g, x)) return fail("no such group"); break;
			case 'C':
			{
				size_t e; char* stop; if (!lit(" 0x")) return fail("no character"); n.c = (uint32_t)strtoul(o->c_str() + p, &stop, 16); e = stop - o->c_str(); if (e == p) return fail("no character"); p = e;
				put8(q, n.c); if (n.c == 0) q = "\xC0\x80"; q = "='" + q + "'\n"; if (!lit(q.c_str())) return fail("wrong character"); break;
			}
			case 'J': case 'A': if (!lit(" ") || !num(k) || !lit("->") || !num(n.to) || n.to != n.at + 1 + k || !lit("\n")) return fail("no target"); break;
			case '!': if (!lit(" bypass=(") || !num(k) || !lit(")->") || !num(n.to) || n.to != n.at + 1 + k || !lit("\n")) return fail("no target"); break;
			case 'R': if (!lit(" min=") || !num(n.min) || !lit(" max=") || !num(n.max) || !lit(" repeating at ") || !num(k) || !lit("->") || !num(n.to) || n.to != n.at + 3 + k || !lit("\n")) return fail("no counter"); break;
			case 'P': case 'L': case 'N': if (!lit(", '") || !quoted(q, n.at) || !decode(q, n.cls) || (n.op != 'P' && n.cls.size() % 2)) return fail("no class"); if (n.op == 'P' && n.cls.size() == 1) n.c = n.cls[0]; break;
			default: if (!lit("\n")) return fail("something after an instruction");
			}
			where[n.at] = (int)v.size(); v.push_back(n);
		}
		if (!where.count(search) || !where.count(start)) { bad = "the search or the start is no instruction"; return false; }
		int open = 0;
		for (size_t i = 0; i < v.size(); i++)
		{
			if (strchr("JA!R", v[i].op)) { if (!where.count(v[i].to)) { char b[80]; snprintf(b, 80, "%d leads to %d, which is no instruction", v[i].at, v[i].to); bad = b; return false; } v[i].to = where[v[i].to]; }
			if (v[i].op == 'Z') open++; if (v[i].op == 'R' && --open < 0) { bad = "a counter that isn't started"; return false; }
		}
		search = where[search]; start = where[start];
		if (open) { bad = "a counter without an end"; return false; }
		return true;
	}
	// the last place where following the listing from there ends, or -1
	struct Th { int pc, pos; std::vector<int> n; bool operator<(const Th& t) const { return pc != t.pc ? pc < t.pc : pos != t.pos ? pos < t.pos : n < t.n; } };
	int follow(int pc, int pos, const US& t)
	{
		std::set<Th> seen; std::vector<Th> todo; int best = -1; Th first; first.pc = pc; first.pos = pos; todo.push_back(first);
		while (todo.size() && !big)
		{
			Th h = todo.back(); todo.pop_back();
			if (h.pc >= (int)v.size() || !seen.insert(h).second) continue;
			if (++work > 30000) { big = true; break; }
			const Ins& n = v[h.pc]; bool more = h.pos < (int)t.size(); uint32_t c = more ? t[h.pos] : 0; Th q = h; q.pc++;
			switch (n.op)
			{
			case 'C': case '.': case 'P': case 'L': case 'N':
			{
				if (!more) break;
				bool ok = n.op == '.' || (n.op == 'C' && c == n.c) || (n.op == 'P' && isprop(n.c, c));
				if (n.op == 'L' || n.op == 'N') { bool in = false; for (size_t k = 0; k < n.cls.size(); k += 2) if (c >= n.cls[k] && c <= n.cls[k+1]) in = true; ok = in == (n.op == 'L'); }
				if (ok) { q.pos++; todo.push_back(q); }
				break;
			}
			case 'J': q.pc = n.to; todo.push_back(q); break;
			case 'A': todo.push_back(q); q.pc = n.to; todo.push_back(q); break;
			case '^': if (h.pos == 0 || t[h.pos-1] == '\n') todo.push_back(q); break;
			case '$': if (!more || c == '\n') todo.push_back(q); break;
			case '!': if (follow(h.pc+1, h.pos, t) < 0) { q.pc = n.to; todo.push_back(q); } break;
			case 'Z':
			{
				int e = h.pc + 1, open = 1; for (;; e++) { if (v[e].op == 'Z') open++; if (v[e].op == 'R' && !--open) break; }
				if (v[e].min == 0) { Th s = h; s.pc = e + 1; todo.push_back(s); }
				q.n.push_back(0); todo.push_back(q); break;
			}
			case 'R':
			{
				if (q.n.empty()) break;
				int k = ++q.n.back(); if (!n.max && k > n.min) k = q.n.back() = n.min;
				Th s = q; s.pc = n.to; if (!n.max || k < n.max) todo.push_back(s);
				if (k >= n.min) { q.n.pop_back(); todo.push_back(q); }
				break;
			}
			case '#': if (h.pos > best) best = h.pos; break;
			default: todo.push_back(q);
			}
		}
		return best;
	}
	int run(int pc, int pos, const US& t) { work = 0; big = false; return follow(pc, pos, t); }
};
