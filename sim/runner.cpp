// Seeded search, minimisation, replay and measurement. Parent side: no run is active in this process.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "runner.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <algorithm>
#include <map>
#include <set>

extern uint8_t* sim_pairmap;
const SimOp* sim_ops; int sim_nops;
typedef std::vector<SimOp> Ops; typedef std::vector<SimChoice> Chs;

void sim_gen_sched(Rng& r, SimConfig& c, int nthreads)
{
	static const int periods[] = { 2, 4, 8, 16, 40, 100, 300, 1000 };
	if (nthreads <= 1) { c.sched = SCHED_NONE; return; }
	int k = r.below(100);
	c.sched_period = periods[r.below(8)];
	if (k < 35) c.sched = SCHED_RANDOM;
	else if (k < 60) { c.sched = SCHED_PCT; c.pct_depth = r.range(1, 6); c.pct_len = 200 << r.below(7); }
	else if (k < 78) { c.sched = SCHED_COARSE; c.sched_period = 1 + r.below(12); }
	else c.sched = SCHED_STALL;
}
void sim_gen_heap(Rng& r, SimConfig& c)
{
	c.heap_reuse = r.pct(35);
	c.fill = r.below(3);
}

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static const SimProp* prop_find(const char* id) { for (const SimProp* p = sim_props; p->id; p++) if (!strcmp(p->id, id)) return p; return 0; }
static void* shmem(size_t n) { void* p = mmap(0, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static uint64_t case_seed(uint64_t base, uint64_t i) { Rng r(base * 0x9E3779B97F4A7C15ULL + i); return r.next(); }

static void run_one(const SimProp* p, const SimConfig& c, uint64_t seed, const Ops& ops, const Chs* fixed, int verbose, SimResult* R, bool quiet = true)
{
	memset(R, 0, offsetof(SimResult, choices));
	pid_t pid = fork();
	if (pid == 0)
	{
		if (quiet && !verbose) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); } }
		sim_ops = ops.data(); sim_nops = (int)ops.size();
		sim_child_run(&c, seed, fixed ? fixed->data() : 0, fixed ? (int)fixed->size() : 0, fixed != 0, verbose, R, p->body);
		_exit(9);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	if (!R->violated && !R->done)
	{
		R->violated = 1;
		if (WIFSIGNALED(st)) snprintf(R->kind, sizeof(R->kind), "%s", WTERMSIG(st) == SIGKILL ? "sim-killed" : "crash");
		else snprintf(R->kind, sizeof(R->kind), "crash");
		snprintf(R->msg, sizeof(R->msg), "process ended unexpectedly (status 0x%x)", st);
	}
}

struct Stats {
	uint64_t runs, abandoned, steps, switches, simtime, ops, allocs, nontrivial, known;
	uint64_t faults[SF_COUNT]; uint64_t faulty_runs[SF_COUNT]; uint64_t probes[SIM_MAXPROBE];
	uint64_t nhash; uint64_t sched_hist[8]; uint64_t max_fibers;
	int32_t found; uint64_t found_case; char kind[64]; char msg[1200];
	char known_msg[16][200]; uint64_t known_n[16];
};
#define HASHCAP (3u<<20)

static std::vector<std::pair<std::string,std::string> > known;	// (kind prefix, substring of msg)
static int known_match(const SimResult* r)
{
	for (size_t i = 0; i < known.size(); i++)
		if (!strncmp(r->kind, known[i].first.c_str(), known[i].first.size()) && strstr(r->msg, known[i].second.c_str())) return (int)i;
	return -1;
}
static void load_known(const char* file, const char* id)
{
	FILE* f = file ? fopen(file, "r") : 0; if (!f) return;
	char l[2000];
	while (fgets(l, sizeof(l), f))
	{	// known: property=<id> kind=<kind> match=<substring to end of line>
		char pid[16], kind[64]; int n = 0;
		if (sscanf(l, "known: property=%15s kind=%63s match=%n", pid, kind, &n) == 2 && n && !strcmp(pid, id))
		{
			std::string m(l+n); while (!m.empty() && (m.back() == '\n' || m.back() == ' ')) m.pop_back();
			known.push_back(std::make_pair(std::string(kind), m));
		}
	}
	fclose(f);
}

static void write_replay(const char* path, const SimProp* p, uint64_t seed, const SimConfig& c, const Ops& ops, const Chs& ch, const SimResult* R)
{
	FILE* f = fopen(path, "w"); if (!f) { perror(path); return; }
	fprintf(f, "strpp-sim-replay 1\nprop %s\nseed %llu\nkind %s\nhash %llx\n", p->id, (unsigned long long)seed, R->kind, (unsigned long long)R->trace_hash);
	fprintf(f, "cfg"); const int32_t* w = (const int32_t*)&c; for (size_t i = 0; i < sizeof(c)/4; i++) fprintf(f, " %d", w[i]); fprintf(f, "\n");
	for (size_t i = 0; i < ops.size(); i++) fprintf(f, "op %d %d %d %d %d %d %d %d # %zu T%d %s\n", ops[i].fiber, ops[i].code, ops[i].a, ops[i].b, ops[i].c, ops[i].d, ops[i].e, ops[i].f, i, ops[i].fiber, p->opname(ops[i].code));
	for (size_t i = 0; i < ch.size(); i++)
	{
		uint64_t k = ch[i].key; int kind = (k >> 32) & 0xFF;
		fprintf(f, "ch %llx %d # thread %d, op %d, %s #%u -> %d\n", (unsigned long long)k, ch[i].value, (int)(k >> 56), (int)((k >> 40) & 0xFFFF)-1, kind < SF_COUNT ? sim_fault_names[kind] : "?", (unsigned)k, ch[i].value);
	}
	std::string m(R->msg); for (size_t i = 0; i < m.size(); i++) if (m[i] == '\n') m[i] = ' ';
	fprintf(f, "msg %s\n", m.c_str());
	fclose(f);
}
static bool read_replay(const char* path, std::string& id, uint64_t& seed, std::string& kind, uint64_t& hash, SimConfig& c, Ops& ops, Chs& ch)
{
	FILE* f = fopen(path, "r"); if (!f) { perror(path); return false; }
	static char l[65536]; memset(&c, 0, sizeof(c));
	while (fgets(l, sizeof(l), f))
	{
		char b[64]; unsigned long long v; int x;
		if (sscanf(l, "prop %63s", b) == 1) id = b;
		else if (sscanf(l, "seed %llu", &v) == 1) seed = v;
		else if (sscanf(l, "kind %63s", b) == 1) kind = b;
		else if (sscanf(l, "hash %llx", &v) == 1) hash = v;
		else if (!strncmp(l, "cfg", 3)) { char* q = l+3; int32_t* w = (int32_t*)&c; for (size_t i = 0; i < sizeof(c)/4; i++) w[i] = (int32_t)strtol(q, &q, 10); }
		else if (!strncmp(l, "op ", 3)) { SimOp o; if (sscanf(l, "op %d %d %d %d %d %d %d %d", &o.fiber, &o.code, &o.a, &o.b, &o.c, &o.d, &o.e, &o.f) == 8) ops.push_back(o); }
		else if (sscanf(l, "ch %llx %d", &v, &x) == 2) { SimChoice h; h.key = v; h.value = x; h.pad = 0; ch.push_back(h); }
	}
	fclose(f);
	return !id.empty();
}

// ---------------------------------------------------------------- minimisation
struct Mini {
	const SimProp* p; SimConfig c; uint64_t seed; std::string kind; SimResult* R; double deadline; int runs;
	bool fails(const Ops& o, const Chs& h)
	{
		runs++;
		run_one(p, c, seed, o, &h, 0, R);
		return R->violated && kind == R->kind;
	}
	bool late() { return wall() > deadline; }
};
// Dropping op i renumbers the later ones of every thread; choices are keyed by op index, so instead of
// renumbering, a dropped op is replaced by code -1 (skipped by the interpreters) until the very end.
static void minimise(Mini& m, Ops& ops, Chs& ch)
{
	Chs none;
	if (m.fails(ops, none)) ch.clear();
	bool changed = true;
	for (int round = 0; changed && round < 6 && !m.late(); round++)
	{
		changed = false;
		// operations
		for (size_t chunk = std::max<size_t>(1, ops.size()/2); !m.late(); chunk /= 2)
		{
			for (size_t i = 0; i < ops.size() && !m.late(); i += chunk)
			{
				Ops t = ops; bool any = false;
				for (size_t k = i; k < std::min(ops.size(), i+chunk); k++) if (t[k].code >= 0) { t[k].code = -1; any = true; }
				if (any && m.fails(t, ch)) { ops = t; changed = true; }
			}
			if (chunk == 1) break;
		}
		// choices
		for (size_t chunk = std::max<size_t>(1, ch.size()/2); !ch.empty() && !m.late(); chunk /= 2)
		{
			for (size_t i = 0; i < ch.size() && !m.late(); )
			{
				Chs t(ch.begin(), ch.begin()+i);
				t.insert(t.end(), ch.begin()+std::min(ch.size(), i+chunk), ch.end());
				if (m.fails(ops, t)) { ch = t; changed = true; } else i += chunk;
			}
			if (chunk == 1) break;
		}
		// smaller operands
		for (size_t i = 0; i < ops.size() && !m.late(); i++)
		{
			if (ops[i].code < 0) continue;
			int32_t* w = &ops[i].a;
			for (int k = 0; k < 6; k++)
				while (w[k] > 0 && !m.late()) { int32_t o = w[k]; int32_t tryv = o > 3 ? o/2 : o-1; w[k] = tryv; if (m.fails(ops, ch)) changed = true; else { w[k] = o; break; } }
		}
	}
	// keep only the choices that are actually consulted
	if (m.fails(ops, ch)) { }
}

static int replay_cmd(const char* path, int verbose)
{
	std::string id, kind; uint64_t seed = 0, hash = 0; SimConfig c; Ops ops; Chs ch;
	if (!read_replay(path, id, seed, kind, hash, c, ops, ch)) return 2;
	const SimProp* p = prop_find(id.c_str()); if (!p) { fprintf(stderr, "no property %s in this binary\n", id.c_str()); return 2; }
	SimResult* R = (SimResult*)shmem(sizeof(SimResult));
	sim_install();
	run_one(p, c, seed, ops, &ch, verbose, R, false);
	if (!R->violated) { printf("REPLAY property=%s: no violation\n", id.c_str()); return 0; }
	printf("REPLAY property=%s kind=%s hash=%llx %s\n%s\n", id.c_str(), R->kind, (unsigned long long)R->trace_hash, kind == R->kind && hash == R->trace_hash ? "(reproduced exactly)" : kind == R->kind ? "(same violation, other trace)" : "(different violation)", R->msg);
	return kind == R->kind ? (hash == R->trace_hash ? 1 : 4) : 5;
}
static int fresh_replay(const char* self, const char* path)
{
	pid_t pid = fork();
	if (pid == 0) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 1); execl(self, self, "--replay", path, (char*)0); _exit(99); }
	int st; waitpid(pid, &st, 0);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
}
static std::string jstr(const std::string& s) { std::string o = "\""; for (size_t i = 0; i < s.size(); i++) { unsigned char ch = s[i]; if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o + "\""; }

static int run_main(int argc, char** argv)
{
	const char *id = 0, *out = 0, *rdir = ".", *rep = 0, *kf = 0; uint64_t seed = 1, maxruns = 0, one = 0; double secs = 10; int jobs = 8, thorough = 0, verbose = 0, doone = 0, dump = 0, determinism = 0;
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i]; const char* v = i+1 < argc ? argv[i+1] : "";
		if (a == "--prop") id = v, i++; else if (a == "--seed") seed = strtoull(v, 0, 10), i++; else if (a == "--secs") secs = atof(v), i++;
		else if (a == "--jobs") jobs = atoi(v), i++; else if (a == "--out") out = v, i++; else if (a == "--replaydir") rdir = v, i++;
		else if (a == "--replay") rep = v, i++; else if (a == "--known") kf = v, i++; else if (a == "--thorough") thorough = 1; else if (a == "--maxruns") maxruns = strtoull(v, 0, 10), i++;
		else if (a == "-v") verbose++; else if (a == "--one") doone = 1, one = strtoull(v, 0, 10), i++; else if (a == "--dump") dump = 1;
		else if (a == "--determinism") determinism = atoi(v), i++;
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
	}
	if (rep) return replay_cmd(rep, verbose);
	if (!id) { for (const SimProp* p = sim_props; p->id; p++) printf("%s\n", p->id); return 0; }
	const SimProp* p = prop_find(id); if (!p) { fprintf(stderr, "unknown property %s\n", id); return 2; }
	load_known(kf, id);
	sim_pairmap = (uint8_t*)shmem(1u<<17);
	sim_install();
	SimResult* R = (SimResult*)shmem(sizeof(SimResult));
	if (doone)
	{
		Rng r(case_seed(seed, one)); SimConfig c; memset(&c, 0, sizeof(c)); Ops ops; uint64_t rs = r.next();
		p->gen(r, thorough, c, ops);
		if (dump) for (size_t i = 0; i < ops.size(); i++) printf("op %zu T%d %s %d %d %d %d %d %d\n", i, ops[i].fiber, p->opname(ops[i].code), ops[i].a, ops[i].b, ops[i].c, ops[i].d, ops[i].e, ops[i].f);
		run_one(p, c, rs, ops, 0, verbose, R, false);
		printf("steps %llu switches %llu ops %u allocs %u choices %u hash %llx %s %s\n", (unsigned long long)R->steps, (unsigned long long)R->switches, R->ops_done, R->allocs, R->nchoices, (unsigned long long)R->trace_hash, R->violated ? R->kind : "ok", R->violated ? R->msg : "");
		return R->violated;
	}
	if (determinism)
	{	// same seed twice, and explicit replay of the recorded choices, must give the same trace
		int bad = 0;
		for (int k = 0; k < determinism; k++)
		{
			Rng r(case_seed(seed, k)); SimConfig c; memset(&c, 0, sizeof(c)); Ops ops; uint64_t rs = r.next();
			p->gen(r, thorough, c, ops);
			run_one(p, c, rs, ops, 0, 0, R); uint64_t h1 = R->trace_hash; std::string k1 = R->violated ? R->kind : ""; bool gaveup = R->abandoned;
			Chs ch(R->choices, R->choices + R->nchoices);
			run_one(p, c, rs, ops, 0, 0, R); uint64_t h2 = R->trace_hash;
			if (gaveup) { if (h1 != h2) { bad++; printf("case %d: %llx %llx\n", k, (unsigned long long)h1, (unsigned long long)h2); } continue; }	// too many choices to write down
			run_one(p, c, rs, ops, &ch, 0, R); uint64_t h3 = R->trace_hash; std::string k3 = R->violated ? R->kind : "";
			if (h1 != h2 || h1 != h3 || k1 != k3) { bad++; printf("case %d: %llx %llx %llx %s/%s\n", k, (unsigned long long)h1, (unsigned long long)h2, (unsigned long long)h3, k1.c_str(), k3.c_str()); }
			printf("%d %llx\n", k, (unsigned long long)h1);
		}
		fprintf(stderr, "determinism: %d of %d differ\n", bad, determinism);
		return bad != 0;
	}
	// ---- search
	double t0 = wall();
	struct rusage ru0; getrusage(RUSAGE_CHILDREN, &ru0);
	Stats* st = (Stats*)shmem(sizeof(Stats)*jobs);
	uint64_t* hashes = (uint64_t*)shmem((size_t)jobs*HASHCAP*8);
	volatile int* stop = (volatile int*)shmem(4096);
	std::vector<pid_t> pids;
	for (int w = 0; w < jobs; w++)
	{
		pid_t pid = fork();
		if (pid) { pids.push_back(pid); continue; }
		SimResult* r = (SimResult*)shmem(sizeof(SimResult));
		Stats* s = &st[w]; uint64_t* hs = hashes + (size_t)w*HASHCAP;
		for (uint64_t i = w; !*stop && wall() - t0 < secs && (!maxruns || i < maxruns); i += jobs)
		{
			Rng g(case_seed(seed, i)); SimConfig c; memset(&c, 0, sizeof(c)); Ops ops; uint64_t rs = g.next();
			p->gen(g, thorough, c, ops);
			run_one(p, c, rs, ops, 0, 0, r);
			s->runs++; s->abandoned += r->abandoned != 0; s->steps += r->steps; s->switches += r->switches; s->simtime += r->simtime_ns; s->ops += r->ops_done; s->allocs += r->allocs;
			bool faulty = false;
			for (int k = 0; k < SF_COUNT; k++) { s->faults[k] += r->faults[k]; s->faulty_runs[k] += r->faults[k] != 0; faulty |= r->faults[k] != 0; }
			for (int k = 0; k < SIM_MAXPROBE; k++) s->probes[k] += r->probes[k];
			if (r->max_fibers > s->max_fibers) s->max_fibers = r->max_fibers;
			if (c.sched >= 0 && c.sched < 8) s->sched_hist[c.sched]++;
			if (r->ops_done >= 2) { s->nontrivial++; if (s->nhash < HASHCAP) hs[s->nhash++] = r->trace_hash; }
			if (r->violated)
			{
				int k = known_match(r);
				if (k >= 0) { s->known++; if (k < 16) { s->known_n[k]++; } continue; }
				s->found = 1; s->found_case = i; memcpy(s->kind, r->kind, sizeof(s->kind)); memcpy(s->msg, r->msg, sizeof(s->msg));
				*stop = 1;
				break;
			}
		}
		_exit(0);
	}
	for (size_t i = 0; i < pids.size(); i++) { int x; waitpid(pids[i], &x, 0); if (!WIFEXITED(x) || WEXITSTATUS(x)) { fprintf(stderr, "worker died: %x\n", x); return 2; } }
	double t1 = wall();
	Stats T; memset(&T, 0, sizeof(T)); std::vector<uint64_t> all; int64_t found = -1;
	for (int w = 0; w < jobs; w++)
	{
		Stats* s = &st[w];
		T.runs += s->runs; T.abandoned += s->abandoned; T.steps += s->steps; T.switches += s->switches; T.simtime += s->simtime; T.ops += s->ops; T.allocs += s->allocs; T.nontrivial += s->nontrivial; T.known += s->known;
		for (int k = 0; k < SF_COUNT; k++) T.faults[k] += s->faults[k], T.faulty_runs[k] += s->faulty_runs[k];
		for (int k = 0; k < SIM_MAXPROBE; k++) T.probes[k] += s->probes[k];
		for (int k = 0; k < 8; k++) T.sched_hist[k] += s->sched_hist[k];
		for (int k = 0; k < 16; k++) T.known_n[k] += s->known_n[k];
		T.max_fibers = std::max(T.max_fibers, s->max_fibers);
		all.insert(all.end(), hashes + (size_t)w*HASHCAP, hashes + (size_t)w*HASHCAP + s->nhash);
		if (s->found && (found < 0 || s->found_case < st[found].found_case)) found = w;
	}
	std::sort(all.begin(), all.end());
	uint64_t distinct = std::unique(all.begin(), all.end()) - all.begin();
	uint64_t pairs = 0; for (unsigned i = 0; i < (1u<<17); i++) pairs += __builtin_popcount(sim_pairmap[i]);
	int rc = 0; std::string replay, vkind, vmsg; int mruns = 0;
	if (found >= 0)
	{
		// A failing case is minimised and must then fail again from its replay file, in processes of their own. Code that reads uninitialised
		// memory may not do so every time: then the other failing cases are tried, and more are looked for.
		std::vector<std::pair<uint64_t,std::string> > cand;
		for (int w = 0; w < jobs; w++) if (st[w].found) cand.push_back(std::make_pair(st[w].found_case, std::string(st[w].kind)));
		std::sort(cand.begin(), cand.end());
		uint64_t next = cand.back().first + 1, ci = 0; double until = wall() + 60; int unsteady = 0; bool done = false, exact = false; Ops ops; Chs ch;
		char path[600];
		for (size_t q = 0; !done; q++)
		{
			if (q == cand.size())
			{
				if (unsteady >= 4 || wall() > until) break;
				Rng g(case_seed(seed, next)); SimConfig c; memset(&c, 0, sizeof(c)); Ops o; uint64_t rs = g.next();
				p->gen(g, thorough, c, o);
				run_one(p, c, rs, o, 0, 0, R);
				if (R->violated && known_match(R) < 0) cand.push_back(std::make_pair(next, std::string(R->kind)));
				else q--;
				next++;
				if (q+1 == cand.size()) continue;
			}
			ci = cand[q].first;
			Rng g(case_seed(seed, ci)); SimConfig c; memset(&c, 0, sizeof(c)); ops.clear(); uint64_t rs = g.next();
			p->gen(g, thorough, c, ops);
			run_one(p, c, rs, ops, 0, 0, R); uint64_t h1 = R->trace_hash; std::string k1 = R->violated ? R->kind : "";
			if (!strncmp(k1.c_str(), "sim-", 4)) { fprintf(stderr, "ERROR: simulator limit: %s\n", R->msg); return 2; }
			ch.assign(R->choices, R->choices + R->nchoices);
			snprintf(path, sizeof(path), "%s/%s-seed%llu-case%llu.replay", rdir, id, (unsigned long long)seed, (unsigned long long)ci);
			if (!k1.empty()) { vkind = k1; vmsg = R->msg; replay = path; write_replay(path, p, rs, c, ops, ch, R); }
			run_one(p, c, rs, ops, &ch, 0, R);
			if (k1.empty() || k1 != cand[q].second || !R->violated || k1 != R->kind || h1 != R->trace_hash)
			{
				fprintf(stderr, "case %llu does not reproduce (%s, %s, %s)\n", (unsigned long long)ci, cand[q].second.c_str(), k1.c_str(), R->violated ? R->kind : "none");
				unsteady++; continue;
			}
			int r0 = fresh_replay(argv[0], path);
			if (r0 != 1 && r0 != 4) { fprintf(stderr, "case %llu does not fail in a process of its own (%d)\n", (unsigned long long)ci, r0); unsteady++; continue; }
			Mini m; m.p = p; m.c = c; m.seed = rs; m.kind = k1; m.R = R; m.deadline = wall() + (thorough ? 240 : 45); m.runs = 0;
			Ops full = ops; Chs fullch = ch;
			minimise(m, ops, ch); mruns = m.runs;
			for (int attempt = 0; attempt < 2 && !done; attempt++)
			{
				if (attempt) ops = full, ch = fullch;	// the minimised one doesn't fail everywhere: keep all of it
				run_one(p, c, rs, ops, &ch, 0, R);
				if (!R->violated) continue;
				write_replay(path, p, rs, c, ops, ch, R);
				vkind = R->kind; vmsg = R->msg; replay = path;
				int a = fresh_replay(argv[0], path), b = fresh_replay(argv[0], path);
				exact = a == 1 && b == 1;	// 4: same violation, but the code under test did something that varies between processes (such as reading uninitialised memory)
				done = (a == 1 || a == 4) && (b == 1 || b == 4);
			}
			if (!done) { fprintf(stderr, "case %llu: its replay does not fail in a process of its own\n", (unsigned long long)ci); unsteady++; }
		}
		if (!done && (unsteady < 3 || vkind.empty())) { fprintf(stderr, "ERROR: a violation does not reproduce, and it is the only one: machinery error\n"); return 2; }
		if (!done)
		{
			printf("case %llu: %s\n  %s\n  %d failing cases, none of which fails in the same way in a process of its own: the code under test depends on something outside the simulation (uninitialised memory?)\n", (unsigned long long)ci, vkind.c_str(), vmsg.c_str(), unsteady);
			rc = 1;
		}
		else {
		int live = 0; for (size_t i = 0; i < ops.size(); i++) live += ops[i].code >= 0;
		printf("case %llu: %s\n  %s\n  minimised to %d operations and %zu scheduling/fault choices (%d runs); %s\n", (unsigned long long)ci, vkind.c_str(), vmsg.c_str(), live, ch.size(), mruns, exact ? "replay reproduced twice in fresh processes" : "replay reproduced twice in fresh processes, but not with an identical trace: the code under test depends on something outside the simulation");
		rc = 1;
		}
	}
	if (out)
	{
		FILE* f = fopen(out, "w"); if (!f) { perror(out); return 2; }
		double w = t1 - t0;
		fprintf(f, "{\"property\":%s,\"abandoned\":%llu,\"runs\":%llu,\"distinct_traces\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"ops\":%llu,\"allocations\":%llu,\"sim_seconds\":%.6f,\"switch_site_pairs\":%llu,\"max_threads\":%llu,\"known\":%llu,\"wall\":%.3f,\"runs_per_hour\":%.0f,", jstr(id).c_str(),
			(unsigned long long)T.abandoned, (unsigned long long)T.runs, (unsigned long long)distinct, (unsigned long long)T.nontrivial, (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.ops, (unsigned long long)T.allocs, T.simtime*1e-9, (unsigned long long)pairs, (unsigned long long)T.max_fibers, (unsigned long long)T.known, w, w > 0 ? T.runs/w*3600 : 0.0);
		fprintf(f, "\"faults\":{"); bool first = true;
		for (int k = 0; k < SF_COUNT; k++) if (T.faults[k]) { fprintf(f, "%s%s:{\"injected\":%llu,\"runs\":%llu}", first ? "" : ",", jstr(sim_fault_names[k]).c_str(), (unsigned long long)T.faults[k], (unsigned long long)T.faulty_runs[k]); first = false; }
		static const char* sn[] = { "none", "random", "pct", "coarse", "stall" };
		fprintf(f, "},\"schedulers\":{"); first = true;
		for (int k = 0; k < 5; k++) if (T.sched_hist[k]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", sn[k], (unsigned long long)T.sched_hist[k]); first = false; }
		fprintf(f, "},\"probes\":{"); first = true;
		for (int k = 0; k < SIM_MAXPROBE && p->probes && p->probes[k]; k++)
		{	// names are "ID,ID:text"
			std::string nm(p->probes[k]); size_t co = nm.find(':');
			if (co != std::string::npos) { if (nm.substr(0, co).find(id) == std::string::npos) continue; nm = nm.substr(co+1); }
			fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(nm).c_str(), (unsigned long long)T.probes[k]); first = false;
		}
		fprintf(f, "},\"known_hits\":["); for (size_t k = 0; k < known.size() && k < 16; k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)T.known_n[k]);
		fprintf(f, "],\"samples\":["); first = true;
		for (int k = 0; k < 3; k++)
		{
			Rng g(case_seed(seed, k)); SimConfig c; memset(&c, 0, sizeof(c)); Ops ops; uint64_t rs = g.next(); (void)rs;
			p->gen(g, thorough, c, ops);
			std::string s = "case " + std::to_string(k) + ": scheduler " + (c.sched < 5 ? sn[c.sched] : "?") + " period " + std::to_string(c.sched_period) + ", " + std::to_string(ops.size()) + " operations:";
			for (size_t i = 0; i < ops.size() && i < 14; i++) { char b[160]; snprintf(b, sizeof(b), " T%d.%s(%d,%d,%d)", ops[i].fiber, p->opname(ops[i].code), ops[i].a, ops[i].b, ops[i].c); s += b; }
			if (ops.size() > 14) s += " ...";
			fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false;
		}
		fprintf(f, "],\"violation\":%s,\"violation_msg\":%s,\"replay\":%s}\n", jstr(vkind).c_str(), jstr(vmsg).c_str(), jstr(replay).c_str());
		fclose(f);
	}
	printf("%s: %llu runs, %llu distinct traces, %llu steps, %llu switches, %.1fs\n", id, (unsigned long long)T.runs, (unsigned long long)distinct, (unsigned long long)T.steps, (unsigned long long)T.switches, t1-t0);
	if (rc) printf("FOUND kind=%s replay=%s\n", vkind.c_str(), replay.c_str());
	return rc;
}
// Static destructors of the code under test are not part of a run: leave without them
int main(int argc, char** argv)
{
	int rc = run_main(argc, argv);
	fflush(stdout); fflush(stderr);
	_exit(rc);
}
