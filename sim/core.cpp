// Deterministic simulator core. NOT instrumented. No std containers here (see sim.h).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <new>
#include <string>
#include <exception>
#include <cxxabi.h>
#include <typeinfo>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t uptr;

const char* const sim_fault_names[SF_COUNT] = {
	"preemption", "alloc_failure", "thread_create_refused", "thread_id_stored_late", "thread_id_reused",
	"sleep_interrupted", "spurious_wakeup", "thread_stalled", "clock_jump_to_timer", "pick_next_runnable",
	"heap_block_recycled", "source_chunked", "source_delayed", "source_truncated", "text_corrupted",
	"wall_clock_step", "user1", "user2", "user3" };

volatile int sim_in_model = 0;
const SimConfig* sim_cfg = 0;
static int g_active = 0;		// a run is in progress in this process
static SimResult* R = 0;
static SimConfig C;
static int g_verbose = 0, g_explicit = 0;

// ---------------------------------------------------------------- memory layout
#define ARENA_BASE	0x10000000000ULL
#define ARENA_SIZE	(64u<<20)
#define STATE_BASE	0x11000000000ULL	// one byte per arena byte
#define BIDX_BASE	0x12000000000ULL	// u32 per 16 arena bytes
#define RSH_BASE	0x13000000000ULL	// race shadow for the arena
#define GSH_BASE	0x14000000000ULL	// race shadow for globals
#define STACK_BASE	0x15000000000ULL
#define STACK_SIZE	(512u<<10)
#define BLK_BASE	0x16000000000ULL
#define MAXF		40
#define MAXBLK		400000
#define REDZONE		32

enum { ST_NONE = 0, ST_LIVE = 1, ST_FREED = 2, ST_RED = 3 };

extern "C" char __data_start[], _end[], __executable_start[], etext[];
static inline u32 pc_of(uptr a) { return a - (uptr)__executable_start < (uptr)(etext - __executable_start) ? (u32)a : 0xFFFFFFFF; }
static inline uptr stable_addr(uptr a) { return a < 0x10000000ULL || (a >= 0x10000000000ULL && a < 0x16000000000ULL) ? a : 1; }	// not one that varies with the process
static uptr glo_lo, glo_hi;

struct Cell { u32 clock; u32 pc; u8 fiber; u8 mask; u8 flags; u8 op; };	// flags: 1 write 2 atomic 4 valid
#define NCELL 8
struct Granule { Cell c[NCELL]; };

struct Block { uptr addr; u32 size; u8 kind; u8 fiber; int16_t op; u8 state; u8 free_fiber; int16_t free_op; u32 next; u32 pc; };
static Block* blk = (Block*)BLK_BASE;
static u32 nblk = 0;
static uptr arena_top = ARENA_BASE + 64;
static u64 live_blocks = 0, peak_blocks = 0, live_bytes = 0, peak_bytes = 0;
static u32 freelist[4097];		// by size/16, for heap_reuse

struct VC { u32 c[MAXF]; };

enum FState { F_UNUSED, F_RUNNABLE, F_MUTEX, F_COND, F_JOIN, F_SLEEP, F_GUARD, F_DONE };
struct Fiber {
	int	id;
	void*	sp;
	FState	state;
	uptr	wait;		// mutex/cond address, or fiber number joined, or guard
	u64	wake;		// timer, 0 = none
	int	timed_out, signalled, was_spurious, wake_rt;
	VC	vc;
	int	op;
	u32	pcount;		// preemption points in this op
	u32	limit, limit_from; char limit_what[400];	// of those, when too many (0: never)
	u64	got_bytes, got_blocks;	// allocated so far
	u32	kcount[SF_COUNT];
	u64	run_len;	// consecutive steps
	u64	stalled_until;	// steps
	int	prio;
	int	alloc_faults, alloc_failed; u32 nblocked, nrefused;
	u64	nalloc;
	// thread api
	int	is_pthread; pthread_t tid; int joinable, joined, detached, joiner; void* retval;
	void*	(*start)(void*); void (*fn)(void*); void* arg;
	struct { void* caught; unsigned int uncaught; } eh;
	int	err;
	int	created_late;	// not yet allowed to run
	void*	tls;
	void*	specific[32];
	struct { void (*f)(void*); void* a; } tdtor[16]; int ntdtor;
	u32	last_pc;
};
static Fiber fb[MAXF];
static int nf = 0;
static Fiber* cur = 0;
static u64 now_ns, base_rt;
static u64 steps, step_budget;
static u64 countdown;
static u64 rng_s[2];
static u64 thash, shash;
static u32 n_created, n_unreclaimed;
static u64 pct_at[16]; static int pct_n; static int pct_low;
static int32_t next_tid_slot = 0;
static u32 free_tids[MAXF]; static int nfree_tids = 0;
u8* sim_pairmap = 0;			// shared bitmap of switch-site pairs
static u32 pairs_seen;
static char* tls_base = 0; static size_t tls_size = 0; static const void* tls_init = 0; static size_t tls_filesz = 0;
static uptr payload_lo[32], payload_hi[32]; static int npayload = 0;

static inline u64 rng()
{
	u64 a = rng_s[0], b = rng_s[1];
	rng_s[0] = b; a ^= a << 23; rng_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return rng_s[1] + b;
}
static u64 splitmix(u64* s) { u64 z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static u64 rng2_s;			// separate stream for data (fill patterns)
extern "C" uint64_t sim_rand(void) { return splitmix(&rng2_s); }

static inline void hmix(u64 v) { thash = (thash ^ v) * 0x100000001B3ULL; thash ^= thash >> 29; }

// ---------------------------------------------------------------- ending a run
static void finish(int code)
{
	R->steps = steps; R->simtime_ns = now_ns; R->trace_hash = thash; R->sched_hash = shash;
	R->max_fibers = nf; R->comm_pairs = pairs_seen;
	if (cur) { R->cur_fiber = cur->id; R->cur_op = cur->op; }
	_exit(code);
}
static void vfail(const char* kind, const char* fmt, va_list ap)
{
	g_active = 0;
	if (R && !R->violated)
	{
		R->violated = 1;
		snprintf(R->kind, sizeof(R->kind), "%s", kind);
		int n = snprintf(R->msg, sizeof(R->msg), "[thread %d op %d step %llu t=%lluns] ", cur ? cur->id : -1, cur ? cur->op : -1,
			(unsigned long long)steps, (unsigned long long)now_ns);
		vsnprintf(R->msg+n, sizeof(R->msg)-n, fmt, ap);
		if (g_verbose) fprintf(stderr, "VIOLATION %s: %s\n", R->kind, R->msg);
	}
	finish(3);
}
extern "C" void sim_fail(const char* kind, const char* fmt, ...)
{
	va_list ap; va_start(ap, fmt); vfail(kind, fmt, ap); va_end(ap); _exit(3);
}
static int expect_assert;
extern "C" void sim_expect_assert(int on) { expect_assert = on; }
extern "C" void sim_abandon(void) { R->done = 1; R->abandoned = 1; finish(0); _exit(0); }
extern "C" void sim_trace(const char* fmt, ...)
{
	if (!g_verbose) return;
	int sv = g_active; g_active = 0;
	va_list ap; va_start(ap, fmt);
	fprintf(stderr, "  [%llu] T%d op%d: ", (unsigned long long)steps, cur ? cur->id : -1, cur ? cur->op : -1);
	vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap);
	g_active = sv;
}

// ---------------------------------------------------------------- choices
static SimChoice* fixtab = 0; static u32 fixmask = 0;
static inline u64 mkkey(Fiber* f, int kind, u32 count) { return ((u64)(f->id & 0xFF) << 56) | ((u64)((f->op+1) & 0xFFFF) << 40) | ((u64)kind << 32) | count; }
static int fixed_lookup(u64 key)
{
	if (!fixtab) return 0;
	u64 h = key * 0x9E3779B97F4A7C15ULL; u32 i = (u32)(h >> 40) & fixmask;
	while (fixtab[i].value) { if (fixtab[i].key == key) return fixtab[i].value; i = (i+1) & fixmask; }
	return 0;
}
static void record(u64 key, int value)
{
	if (R->nchoices < SIM_MAXCHOICE) { R->choices[R->nchoices].key = key; R->choices[R->nchoices].value = value; R->nchoices++; }
	else sim_abandon();	// Too many choices to write a replay file: no verdict
}
// A fault/choice with its own counter. In search mode `proposal` is used (0 = benign).
static int choice_k(int kind, int proposal)
{
	u64 key = mkkey(cur, kind, cur->kcount[kind]++);
	int v = g_explicit ? fixed_lookup(key) : proposal;
	if (v) { record(key, v); R->faults[kind]++; }
	return v;
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch_ctx(void** save, void* load);
asm(
".text\n.globl sim_switch_ctx\n.type sim_switch_ctx,@function\nsim_switch_ctx:\n"
"	pushq %rbp\n	pushq %rbx\n	pushq %r12\n	pushq %r13\n	pushq %r14\n	pushq %r15\n"
"	subq $8,%rsp\n	stmxcsr (%rsp)\n	fnstcw 4(%rsp)\n"
"	movq %rsp,(%rdi)\n	movq %rsi,%rsp\n"
"	ldmxcsr (%rsp)\n	fldcw 4(%rsp)\n	addq $8,%rsp\n"
"	popq %r15\n	popq %r14\n	popq %r13\n	popq %r12\n	popq %rbx\n	popq %rbp\n	ret\n"
".size sim_switch_ctx,.-sim_switch_ctx\n");

static void switch_to(Fiber* t)
{
	Fiber* o = cur;
	if (t == o) return;
	R->switches++;
	shash = (shash ^ ((u64)o->id << 48 | (u64)t->id << 40 | (u64)(o->op+1) << 24) ^ o->pcount) * 0x100000001B3ULL;
	if (sim_pairmap)
	{
		u64 h = ((u64)o->last_pc << 32 | t->last_pc) * 0x9E3779B97F4A7C15ULL;
		u32 bit = (u32)(h >> 44);	// 1M bits
		u8 m = 1 << (bit & 7);
		if (!(sim_pairmap[bit>>3] & m)) { sim_pairmap[bit>>3] |= m; pairs_seen++; }
	}
	if (g_verbose > 1) fprintf(stderr, "  [%llu] switch T%d (op%d #%u pc %x) -> T%d\n", (unsigned long long)steps, o->id, o->op, o->pcount, o->last_pc, t->id);
	o->err = errno;
	void* g = abi::__cxa_get_globals();
	memcpy(&o->eh, g, sizeof(o->eh));
	if (tls_size) memcpy(o->tls, tls_base, tls_size);
	o->run_len = 0; t->run_len = 0;
	cur = t;
	memcpy(g, &t->eh, sizeof(t->eh));
	if (tls_size) memcpy(tls_base, t->tls, tls_size);
	sim_switch_ctx(&o->sp, t->sp);
	// resumed
	errno = cur->err;
}

static int eligible(Fiber* f) { return f->state == F_RUNNABLE && !f->created_late; }
static void fire_timers()
{
	for (int i = 0; i < nf; i++)
	{
		Fiber* f = &fb[i];
		if (f->wake && f->wake <= now_ns && (f->state == F_SLEEP || f->state == F_COND))
		{
			if (f->state == F_COND) f->timed_out = 1;
			f->state = F_RUNNABLE; f->wake = 0;
		}
	}
}
static void advance_to(u64 t) { if (t > now_ns) now_ns = C.tick ? (t + C.tick-1) / C.tick * C.tick : t; }
static u64 next_timer()
{
	u64 m = 0;
	for (int i = 0; i < nf; i++)
		if (fb[i].wake && (fb[i].state == F_SLEEP || fb[i].state == F_COND) && (!m || fb[i].wake < m)) m = fb[i].wake;
	return m;
}
static Fiber* pick_blocked(int include_cur)	// current gives up the processor: who next?
{
	for (;;)
	{
		int list[MAXF], n = 0;
		for (int k = 1; k <= nf; k++)
		{
			int i = (cur->id + k) % nf;
			if (!include_cur && &fb[i] == cur) continue;
			if (eligible(&fb[i])) list[n++] = i;
		}
		if (!n)
		{
			u64 t = next_timer();
			if (!t) return 0;
			advance_to(t);
			fire_timers();
			if (!include_cur && eligible(cur)) return cur;
			continue;
		}
		// stalled threads only when nobody else can run
		int m = 0, l2[MAXF];
		for (int i = 0; i < n; i++) if (fb[list[i]].stalled_until <= steps) l2[m++] = list[i];
		if (m) { memcpy(list, l2, sizeof(int)*m); n = m; }
		int prop = 0;
		if (!g_explicit && n > 1)
		{
			if (C.sched == SCHED_PCT)
			{
				int best = 0;
				for (int i = 1; i < n; i++) if (fb[list[i]].prio > fb[list[best]].prio) best = i;
				prop = best ? list[best]+1 : 0;
			}
			else if (C.sched != SCHED_NONE)
			{
				int j = rng() % n;
				prop = j ? list[j]+1 : 0;
			}
		}
		int v = choice_k(SF_MUTEXPICK, prop);
		if (v) for (int i = 0; i < n; i++) if (list[i] == v-1) return &fb[list[i]];
		return &fb[list[0]];
	}
}
static void describe_blocked(char* b, int size)
{
	int n = 0; b[0] = 0;
	static const char* nm[] = { "unused", "runnable", "waiting for a mutex", "waiting on a condition", "joining", "sleeping", "in static init", "done" };
	for (int i = 0; i < nf && n < size-60; i++)
		if (fb[i].state != F_DONE && fb[i].state != F_UNUSED)
			n += snprintf(b+n, size-n, "T%d op%d %s; ", i, fb[i].op, nm[fb[i].state]);
}
static void block()		// cur->state already set to a blocked state
{
	cur->nblocked++;
	Fiber* t = pick_blocked(0);
	if (!t)
	{
		char b[700]; describe_blocked(b, sizeof(b));
		sim_fail("deadlock", "no thread can make progress: %s", b);
	}
	switch_to(t);
}

static inline u64 geom(u64 period) { return 1 + rng() % (2*period); }
static void reset_countdown() { countdown = geom(C.sched_period > 0 ? C.sched_period : 32); }

static void wall_clock_step(int v)
{
	static const long long st[] = { 1000000000LL, -1000000000LL, 3600000000000LL, -3600000000000LL, 30000000LL, -30000000LL, 86400000000000LL*400, -86400000000000LL*400 };
	long long d = st[(v-1) & 7];
	base_rt += d;
	for (int i = 0; i < nf; i++)
		if (fb[i].state == F_COND && fb[i].wake && fb[i].wake_rt)
		{
			long long w = (long long)fb[i].wake - d;
			fb[i].wake = w <= (long long)now_ns ? now_ns + 1 : (u64)w;
		}
	R->faults[SF_CLOCKSTEP]++;
}
// A preemption point. kind 0: memory access, 1: synchronising operation, 2: operation boundary
static void point(int kind, uptr addr, u32 pc)
{
	Fiber* f = cur;
	steps++;
	if (!C.tick) now_ns += 10; else if (!(steps & 1023)) now_ns += C.tick;
	u32 cnt = f->pcount++;
	f->last_pc = pc;
	if (f->limit && cnt >= f->limit) { f->limit = 0; sim_fail("too-much-work", "%s took more than %u steps", f->limit_what, cnt - f->limit_from); }
	hmix(((u64)f->id << 58) ^ ((u64)kind << 56) ^ stable_addr(addr) ^ ((u64)pc << 28));
	if (steps > step_budget)
	{
		char b[700]; describe_blocked(b, sizeof(b));
		sim_fail("no-progress", "step budget of %llu exhausted: %s", (unsigned long long)step_budget, b);
	}
	u64 nt = next_timer();
	if (nt && nt <= now_ns) fire_timers();
	f->run_len++;
	int target = -1;
	if (g_explicit)
	{
		int v;
		if ((v = fixed_lookup(mkkey(f, SF_SPURIOUS, cnt))))
			if (v-1 < nf && fb[v-1].state == F_COND) { fb[v-1].state = F_RUNNABLE; fb[v-1].was_spurious = 1; R->faults[SF_SPURIOUS]++; record(mkkey(f, SF_SPURIOUS, cnt), v); }
		if ((v = fixed_lookup(mkkey(f, SF_TIMEJUMP, cnt))) && nt) { advance_to(nt); fire_timers(); R->faults[SF_TIMEJUMP]++; record(mkkey(f, SF_TIMEJUMP, cnt), v); }
		if ((v = fixed_lookup(mkkey(f, SF_CLOCKSTEP, cnt)))) { wall_clock_step(v); record(mkkey(f, SF_CLOCKSTEP, cnt), v); }
		if ((v = fixed_lookup(mkkey(f, SF_STALL, cnt)))) { f->stalled_until = steps + v; R->faults[SF_STALL]++; record(mkkey(f, SF_STALL, cnt), v); }
		if ((v = fixed_lookup(mkkey(f, SF_SWITCH, cnt))) && v-1 < nf && &fb[v-1] != f && eligible(&fb[v-1])) target = v-1;
	}
	else
	{
		if (C.p_spurious && kind >= 1 && rng() % C.p_spurious == 0)
		{
			int l[MAXF], n = 0;
			for (int i = 0; i < nf; i++) if (fb[i].state == F_COND) l[n++] = i;
			if (n) { int i = l[rng() % n]; fb[i].state = F_RUNNABLE; fb[i].was_spurious = 1; record(mkkey(f, SF_SPURIOUS, cnt), i+1); R->faults[SF_SPURIOUS]++; }
		}
		if (C.p_jump && nt && rng() % C.p_jump == 0)
		{ advance_to(nt); fire_timers(); record(mkkey(f, SF_TIMEJUMP, cnt), 1); R->faults[SF_TIMEJUMP]++; }
		if (C.p_step && kind >= 1 && rng() % C.p_step == 0)
		{ int v = 1 + (int)(rng() % 8); wall_clock_step(v); record(mkkey(f, SF_CLOCKSTEP, cnt), v); }
		switch (C.sched)
		{
		case SCHED_NONE: break;
		case SCHED_COARSE:
			if (kind == 0) break;
			// FALLTHROUGH
		case SCHED_RANDOM:
		case SCHED_STALL:
			if (--countdown == 0)
			{
				reset_countdown();
				int l[MAXF], n = 0;
				for (int i = 0; i < nf; i++) if (&fb[i] != f && eligible(&fb[i]) && fb[i].stalled_until <= steps) l[n++] = i;
				if (n)
				{
					target = l[rng() % n];
					if (C.sched == SCHED_STALL && rng() % 3 == 0)
					{
						int len = 50 << (rng() % 9);
						f->stalled_until = steps + len;
						record(mkkey(f, SF_STALL, cnt), len); R->faults[SF_STALL]++;
					}
				}
			}
			break;
		case SCHED_PCT:
			for (int i = 0; i < pct_n; i++) if (pct_at[i] == steps) f->prio = pct_low--;
			{
				int best = f->id;
				for (int i = 0; i < nf; i++) if (eligible(&fb[i]) && fb[i].prio > fb[best].prio) best = i;
				if (best != f->id) target = best;
			}
			break;
		}
		if (target >= 0) record(mkkey(f, SF_SWITCH, cnt), target+1);
	}
	if (target >= 0) { R->faults[SF_SWITCH]++; switch_to(&fb[target]); return; }
	if (f->run_len > 20000)		// fairness: a thread that never blocks cannot keep the processor for ever
	{
		f->run_len = 0;
		if (!g_explicit && C.sched == SCHED_PCT) f->prio = pct_low--;
		for (int k = 1; k < nf; k++) { int i = (f->id + k) % nf; if (eligible(&fb[i])) { switch_to(&fb[i]); return; } }
	}
}

// ---------------------------------------------------------------- happens-before
static inline void vc_join(VC* a, const VC* b) { for (int i = 0; i < nf; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

struct SyncVar { uptr addr; VC vc; int owner; int type; int count; u8 used; u8 kind; };	// kind 1 atomic 2 mutex 3 cond 4 guard
#define NSYNC 8192
static SyncVar* sv = 0; static u32 nsv = 0, sv_nfree = 0, sv_ntomb = 0; static int sv_free[NSYNC];
static int sv_hash[NSYNC*2];	// index+1; -1 tombstone
static SyncVar* sync_find(uptr addr, int kind, int create)
{
	u32 h = (u32)((addr * 0x9E3779B97F4A7C15ULL) >> 45) % (NSYNC*2);
	int tomb = -1;
	for (;; h = (h+1) % (NSYNC*2))
	{
		int i = sv_hash[h];
		if (i == 0) break;
		if (i == -1) { if (tomb < 0) tomb = h; continue; }
		if (sv[i-1].addr == addr && sv[i-1].kind == kind) return &sv[i-1];
	}
	if (!create) return 0;
	if (sv_ntomb > NSYNC/2)		// rebuild the table without the deleted entries
	{
		memset(sv_hash, 0, sizeof(sv_hash)); sv_ntomb = 0; tomb = -1;
		for (u32 i = 0; i < nsv; i++)
			if (sv[i].used)
			{
				u32 g = (u32)((sv[i].addr * 0x9E3779B97F4A7C15ULL) >> 45) % (NSYNC*2);
				while (sv_hash[g]) g = (g+1) % (NSYNC*2);
				sv_hash[g] = i+1;
			}
		h = (u32)((addr * 0x9E3779B97F4A7C15ULL) >> 45) % (NSYNC*2);
		while (sv_hash[h]) h = (h+1) % (NSYNC*2);
	}
	int at;
	if (sv_nfree) at = sv_free[--sv_nfree];
	else if (nsv < NSYNC-1) at = (int)nsv++;
	else { sim_abandon(); return 0; }
	SyncVar* s = &sv[at];
	memset(s, 0, sizeof(*s)); s->addr = addr; s->kind = kind; s->owner = -1; s->used = 1;
	if (tomb >= 0) sv_ntomb--;
	sv_hash[tomb >= 0 ? (u32)tomb : h] = at+1;
	return s;
}
static void sync_forget_range(uptr lo, uptr hi)
{
	for (u32 h = 0; h < NSYNC*2; h++)
	{
		int i = sv_hash[h];
		if (i <= 0) continue;
		SyncVar* s = &sv[i-1];
		if (s->addr >= lo && s->addr < hi)
		{
			if (s->kind == 2 && s->owner >= 0) sim_fail("freed-locked-mutex", "storage of a mutex held by T%d was freed", s->owner);
			for (int k = 0; k < nf; k++)
				if ((fb[k].state == F_MUTEX || fb[k].state == F_COND) && fb[k].wait == s->addr)
					sim_fail("freed-mutex-with-waiter", "storage of a mutex or condition T%d waits for was freed", k);
			sv_hash[h] = -1; sv_ntomb++; s->used = 0; sv_free[sv_nfree++] = i-1;
		}
	}
}

static const char* where(uptr a, char* b, int n)
{
	if (a >= ARENA_BASE && a < ARENA_BASE+ARENA_SIZE)
	{
		u32 i = ((u32*)BIDX_BASE)[(a-ARENA_BASE)/16];
		if (i) { Block* k = &blk[i-1]; snprintf(b, n, "heap block of %u bytes%+lld (allocated by T%d op%d%s)", k->size, (long long)(a-k->addr), k->fiber, k->op, k->state == ST_FREED ? ", freed" : ""); }
		else snprintf(b, n, "unallocated heap");
		if (i && blk[i-1].state == ST_FREED) { int l = strlen(b); snprintf(b+l, n-l, " [freed by T%d op%d]", blk[i-1].free_fiber, blk[i-1].free_op); }
	}
	else snprintf(b, n, "global %p", (void*)a);
	return b;
}

static void race_report(uptr a, Cell* o, int w, u32 pc)
{
	char b[200];
	sim_fail("data-race", "%s by T%d at pc 0x%x conflicts with unordered %s by T%d (op %d) at pc 0x%x on %s",
		w ? "write" : "read", cur->id, pc, (o->flags & 1) ? "write" : "read", o->fiber, o->op, o->pc, where(a, b, sizeof(b)));
}
static void shadow_granule(Granule* g, uptr a, u8 mask, int w, int atomic, u32 pc)
{
	Fiber* f = cur; u32 clk = f->vc.c[f->id];
	u8 fl = 4 | (w ? 1 : 0) | (atomic ? 2 : 0);
	Cell* slot = 0; Cell* empty = 0; Cell* old = 0;
	for (int i = 0; i < NCELL; i++)
	{
		Cell* c = &g->c[i];
		if (!(c->flags & 4)) { if (!empty) empty = c; continue; }
		if (c->fiber == f->id)
		{
			if (c->flags == fl)
			{
				if (c->clock == clk) { if ((c->mask & mask) == mask) { c->pc = pc; return; } slot = c; }
				else if ((c->mask & ~mask) == 0 && !slot) slot = c;
			}
			else if ((c->mask & ~mask) == 0 && (c->flags & 1) <= (fl & 1) && !(fl & 2) && c->clock <= clk && !old) old = c;
			continue;
		}
		if ((c->mask & mask) && ((c->flags | fl) & 1) && !((c->flags & 2) && (fl & 2)))
			if (c->clock > f->vc.c[c->fiber]) race_report(a, c, w, pc);
		if (!old && c->clock <= f->vc.c[c->fiber] && (c->mask & ~mask) == 0) old = c;
	}
	if (slot && slot->clock == clk) { slot->mask |= mask; slot->pc = pc; return; }
	if (!slot) slot = empty ? empty : old ? old : &g->c[(steps + (a>>3)) % NCELL];
	slot->clock = clk; slot->pc = pc; slot->fiber = f->id; slot->mask = mask; slot->flags = fl; slot->op = (u8)f->op;
}
static inline int in_payload(uptr a) { for (int i = 0; i < npayload; i++) if (a >= payload_lo[i] && a < payload_hi[i]) return 1; return 0; }
static void race_access(uptr a, size_t n, int w, int atomic, u32 pc)
{
	if (!C.race || a == (uptr)&sim_in_model) return;
	if (C.race == RACE_PAYLOAD && !in_payload(a)) return;
	uptr e = a + n;
	Granule* base; uptr lo;
	if (a >= ARENA_BASE && a < ARENA_BASE+ARENA_SIZE) { base = (Granule*)RSH_BASE; lo = ARENA_BASE; }
	else if (a >= glo_lo && a < glo_hi) { base = (Granule*)GSH_BASE; lo = glo_lo; }
	else return;
	for (uptr p = a & ~7ULL; p < e; p += 8)
	{
		u8 m = 0xFF;
		if (p < a) m &= 0xFF << (a - p);
		if (p + 8 > e) m &= 0xFF >> (p + 8 - e);
		shadow_granule(base + (p - lo)/8, p < a ? a : p, m, w, atomic, pc);
	}
}
static void race_clear(uptr a, size_t n)
{
	if (!C.race) return;
	uptr e = (a + n + 7) & ~7ULL;
	memset((Granule*)RSH_BASE + (a - ARENA_BASE)/8, 0, (e - (a & ~7ULL))/8*sizeof(Granule));
}

// ---------------------------------------------------------------- memory accesses
static void bad_access(uptr a, size_t n, int w, u32 pc)
{
	const u8* st = (const u8*)STATE_BASE + (a - ARENA_BASE);
	size_t i = 0; while (i < n && st[i] == ST_LIVE) i++;
	char b[200];
	const char* kind = st[i] == ST_FREED ? "use-after-free" : "out-of-bounds";
	sim_fail(kind, "%s of %zu byte(s) at pc 0x%x: %s", w ? "write" : "read", n, pc, where(a+i, b, sizeof(b)));
}
static inline int interesting(uptr a) { return (a >= ARENA_BASE && a < ARENA_BASE+ARENA_SIZE) || (a >= glo_lo && a < glo_hi); }
static inline void check_live(uptr a, size_t n, int w, u32 pc)
{
	if (a - ARENA_BASE < ARENA_SIZE)
	{
		const u8* st = (const u8*)STATE_BASE + (a - ARENA_BASE);
		for (size_t i = 0; i < n; i++) if (st[i] != ST_LIVE) bad_access(a, n, w, pc);
	}
}
#define ON (g_active && !sim_in_model)
#define PC pc_of((uptr)__builtin_return_address(0))
// True when the call comes from the C/C++ runtime libraries (the unwinder's locks, for instance), whose
// addresses differ from process to process and which are not the code under test.
#define FROM_LIB ((uptr)__builtin_return_address(0) - (uptr)__executable_start >= (uptr)(etext - __executable_start))
static inline void access(uptr a, size_t n, int w, u32 pc)
{
	if (!interesting(a)) return;
	point(0, a, pc);
	check_live(a, n, w, pc);
	race_access(a, n, w, 0, pc);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* p) { if (ON) access((uptr)p, N, 0, PC); } \
void __tsan_write##N(void* p) { if (ON) access((uptr)p, N, 1, PC); } \
void __tsan_unaligned_read##N(void* p) { if (ON) access((uptr)p, N, 0, PC); } \
void __tsan_unaligned_write##N(void* p) { if (ON) access((uptr)p, N, 1, PC); } \
void __tsan_volatile_read##N(void* p) { if (ON) access((uptr)p, N, 0, PC); } \
void __tsan_volatile_write##N(void* p) { if (ON) access((uptr)p, N, 1, PC); } \
void __tsan_unaligned_volatile_read##N(void* p) { if (ON) access((uptr)p, N, 0, PC); } \
void __tsan_unaligned_volatile_write##N(void* p) { if (ON) access((uptr)p, N, 1, PC); } \
void __tsan_read_write##N(void* p) { if (ON) { u32 pc = PC; access((uptr)p, N, 0, pc); access((uptr)p, N, 1, pc); } } \
void __tsan_unaligned_read_write##N(void* p) { if (ON) { u32 pc = PC; access((uptr)p, N, 0, pc); access((uptr)p, N, 1, pc); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (ON && n) access((uptr)p, n, 0, PC); }
void __tsan_write_range(void* p, size_t n) { if (ON && n) access((uptr)p, n, 1, PC); }
void __tsan_vptr_read(void** p) { if (ON) access((uptr)p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* nv)
{
	if (!ON) return;
	u32 pc = PC; uptr a = (uptr)p;
	if (!interesting(a)) return;
	point(0, a, pc); check_live(a, 8, 1, pc);
	race_access(a, 8, *p != nv, 0, pc);
}

// ---- atomics: sequentially consistent execution, happens-before by the memory order used
static void atomic_pre(uptr a, size_t n, int w, u32 pc)
{
	if (!interesting(a)) return;
	point(1, a, pc); check_live(a, n, w, pc); race_access(a, n, w, 1, pc);
}
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_AR, MO_SC };
static void hb(uptr a, int mo, int load, int store)
{
	if (!C.race || !interesting(a)) return;
	SyncVar* s = sync_find(a, 1, 1);
	if (load && mo != MO_RLX && mo != MO_REL) vc_join(&cur->vc, &s->vc);
	if (store)
	{
		int rel = mo == MO_REL || mo == MO_AR || mo == MO_SC;
		if (!load) { if (rel) s->vc = cur->vc; else memset(&s->vc, 0, sizeof(VC)); }
		else if (rel) vc_join(&s->vc, &cur->vc);
		if (rel) cur->vc.c[cur->id]++;
	}
}
#define ATOM(N,T) \
T __tsan_atomic##N##_load(const volatile T* p, int mo) { if (!ON) return *p; atomic_pre((uptr)p, sizeof(T), 0, PC); hb((uptr)p, mo, 1, 0); T r = *p; hmix(r); return r; } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { if (!ON) { *p = v; return; } atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 0, 1); *p = v; } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { if (!ON) { T o = *p; *p = v; return o; } atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); T o = *p; *p = v; hmix(o); return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { if (ON) { atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); } T o = *p; *p = o + v; if (ON) hmix(o); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { if (ON) { atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); } T o = *p; *p = o - v; if (ON) hmix(o); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { if (ON) { atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); } T o = *p; *p = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { if (ON) { atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); } T o = *p; *p = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { if (ON) { atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); } T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { if (ON) { atomic_pre((uptr)p, sizeof(T), 1, PC); hb((uptr)p, mo, 1, 1); } T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) \
{ if (ON) atomic_pre((uptr)p, sizeof(T), 1, PC); T o = *p; if (o == *e) { if (ON) hb((uptr)p, mo, 1, 1); *p = v; return 1; } if (ON) hb((uptr)p, fmo, 1, 0); *e = o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOM(8,u8) ATOM(16,uint16_t) ATOM(32,u32) ATOM(64,u64)
void __tsan_atomic_thread_fence(int mo)
{
	if (!ON) return;
	point(1, 0, PC);
	SyncVar* s = sync_find(8, 1, 1);	// approximated by one global location (may hide races, never invents one)
	vc_join(&cur->vc, &s->vc); vc_join(&s->vc, &cur->vc); cur->vc.c[cur->id]++;
}
void __tsan_atomic_signal_fence(int) {}

// ---- libc memory functions called by instrumented code
static void rng_access(const void* p, size_t n, int w, u32 pc) { if (n) access((uptr)p, n, w, pc); }
void* sim_memcpy(void* d, const void* s, size_t n) { if (ON) { u32 pc = PC; rng_access(s, n, 0, pc); rng_access(d, n, 1, pc); } return memmove(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { if (ON) { u32 pc = PC; rng_access(s, n, 0, pc); rng_access(d, n, 1, pc); } return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if (ON) rng_access(d, n, 1, PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { if (ON) { u32 pc = PC; rng_access(a, n, 0, pc); rng_access(b, n, 0, pc); } return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { void* r = (void*)memchr(a, c, n); if (ON) rng_access(a, r ? (char*)r-(char*)a+1 : n, 0, PC); return r; }
static size_t safe_strlen(const char* s, u32 pc)
{
	uptr a = (uptr)s; size_t n = 0;
	if (a - ARENA_BASE < ARENA_SIZE)
	{
		const u8* st = (const u8*)STATE_BASE + (a - ARENA_BASE);
		for (;; n++) { if (st[n] != ST_LIVE) bad_access(a+n, 1, 0, pc); if (!s[n]) break; }
	}
	else n = strlen(s);
	return n;
}
size_t sim_strlen(const char* s) { if (!ON) return strlen(s); u32 pc = PC; size_t n = safe_strlen(s, pc); rng_access(s, n+1, 0, pc); return n; }
int sim_strcmp(const char* a, const char* b) { if (!ON) return strcmp(a, b); u32 pc = PC; size_t i = 0; for (;; i++) { check_live((uptr)(a+i), 1, 0, pc); check_live((uptr)(b+i), 1, 0, pc); if (a[i] != b[i] || !a[i]) break; } rng_access(a, i+1, 0, pc); rng_access(b, i+1, 0, pc); return (u8)a[i] - (u8)b[i]; }
int sim_strncmp(const char* a, const char* b, size_t n) { if (!ON) return strncmp(a, b, n); if (!n) return 0; u32 pc = PC; size_t i = 0; for (; i < n; i++) { check_live((uptr)(a+i), 1, 0, pc); check_live((uptr)(b+i), 1, 0, pc); if (a[i] != b[i] || !a[i]) break; } size_t m = i < n ? i+1 : n; rng_access(a, m, 0, pc); rng_access(b, m, 0, pc); return i < n ? (u8)a[i] - (u8)b[i] : 0; }
char* sim_strchr(const char* s, int c) { if (!ON) return (char*)strchr(s, c); u32 pc = PC; size_t n = safe_strlen(s, pc); char* r = (char*)strchr(s, c); rng_access(s, r ? r-s+1 : n+1, 0, pc); return r; }
char* sim_strrchr(const char* s, int c) { if (ON) { u32 pc = PC; size_t n = safe_strlen(s, pc); rng_access(s, n+1, 0, pc); } return (char*)strrchr(s, c); }
char* sim_strcpy(char* d, const char* s) { if (!ON) return strcpy(d, s); u32 pc = PC; size_t n = safe_strlen(s, pc)+1; rng_access(s, n, 0, pc); rng_access(d, n, 1, pc); memmove(d, s, n); return d; }
char* sim_strncpy(char* d, const char* s, size_t n) { if (!ON) return strncpy(d, s, n); u32 pc = PC; size_t l = strnlen(s, n); rng_access(s, l < n ? l+1 : n, 0, pc); rng_access(d, n, 1, pc); return strncpy(d, s, n); }
char* sim_strcat(char* d, const char* s) { if (!ON) return strcat(d, s); u32 pc = PC; size_t l = safe_strlen(d, pc), n = safe_strlen(s, pc)+1; rng_access(s, n, 0, pc); rng_access(d+l, n, 1, pc); memmove(d+l, s, n); return d; }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (ON) { u32 pc = PC; rng_access(s, n, 0, pc); rng_access(d, n, 1, pc); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (ON) { u32 pc = PC; rng_access(s, n, 0, pc); rng_access(d, n, 1, pc); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (ON) rng_access(d, n, 1, PC); return memset(d, c, n); }
} // extern C

// ---------------------------------------------------------------- allocator
static int alloc_should_fail()
{
	Fiber* f = cur;
	u64 n = f->nalloc++;
	int prop = 0;
	switch (C.alloc_mode)
	{
	case 1: prop = n == (u64)C.alloc_n; break;
	case 2: prop = (int)(rng() % 100) < C.alloc_n; break;
	case 3: prop = n >= (u64)C.alloc_n; break;
	case 4: prop = n >= (u64)C.alloc_n && n < (u64)C.alloc_n+3; break;
	}
	return choice_k(SF_ALLOC, prop);
}
static void* arena_alloc(size_t size, int kind, u32 pc)
{
	if (size > ARENA_SIZE/2) sim_fail("memory-exhausted", "request of %zu bytes", size);
	u64 rsz = (size + 15) & ~15ULL; if (!rsz) rsz = 16;
	u32 cls = rsz/16; uptr a = 0; u32 bi = 0;
	if (C.heap_reuse && cls <= 4096 && freelist[cls])
	{
		int reuse = C.heap_reuse == 1 ? 1 : 0;
		if (choice_k(SF_HEAPREUSE, reuse))
		{
			bi = freelist[cls]; freelist[cls] = blk[bi-1].next;
			a = blk[bi-1].addr;
		}
	}
	if (!a)
	{
		if (arena_top + rsz + REDZONE > ARENA_BASE + ARENA_SIZE || nblk >= MAXBLK)
		{	// A run that merely used up fresh addresses gets no verdict; these workloads never hold so much
			u64 held = 0; for (u32 i = 0; i < nblk; i++) if (blk[i].state == ST_LIVE) held += blk[i].size;
			if (held > ARENA_SIZE/2) sim_fail("memory-exhausted", "request of %zu bytes with %llu bytes live", size, (unsigned long long)held);
			sim_abandon();
		}
		a = arena_top; arena_top += rsz + REDZONE;
		bi = ++nblk;
		if (C.fill == 0) memset((void*)a, 0xA5, rsz);
		else if (C.fill == 2) { u64 z = a * 0x9E3779B97F4A7C15ULL; for (u64 i = 0; i < rsz; i += 8) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; *(u64*)(a+i) = z; } }
		for (u64 i = 0; i < rsz + REDZONE; i += 16) ((u32*)BIDX_BASE)[(a - ARENA_BASE + i)/16] = bi;
		memset((u8*)STATE_BASE + (a - ARENA_BASE) - 16, ST_RED, 16);
	}
	else if (C.fill == 0) memset((void*)a, 0xA5, rsz);
	else if (C.fill == 1) memset((void*)a, 0, rsz);
	u8* st = (u8*)STATE_BASE + (a - ARENA_BASE);
	memset(st, ST_LIVE, size); memset(st+size, ST_RED, rsz - size + REDZONE);
	Block* b = &blk[bi-1];
	b->addr = a; b->size = size; b->kind = kind; b->state = ST_LIVE; b->fiber = cur->id; b->op = cur->op; b->pc = pc;
	live_blocks++; R->allocs++; if (live_blocks > peak_blocks) peak_blocks = live_blocks;
	live_bytes += size; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
	cur->got_bytes += size; cur->got_blocks++;
	race_clear(a, rsz);
	return (void*)a;
}
static void arena_free(void* p, int kind, u32 pc)
{
	uptr a = (uptr)p;
	u32 bi = ((u32*)BIDX_BASE)[(a - ARENA_BASE)/16];
	char wb[200];
	if (!bi || blk[bi-1].addr != a) sim_fail("bad-free", "freeing a pointer that was not allocated: %s", where(a, wb, sizeof(wb)));
	Block* b = &blk[bi-1];
	if (b->state != ST_LIVE) sim_fail("double-free", "%s freed again", where(a, wb, sizeof(wb)));
	if (b->kind != kind) sim_fail("mismatched-free", "block from %s freed with %s: %s", b->kind ? "new[]" : "new", kind ? "delete[]" : "delete", where(a, wb, sizeof(wb)));
	if (!sim_in_model) race_access(a, b->size ? b->size : 1, 1, 0, pc);
	sync_forget_range(a, a + b->size);
	b->state = ST_FREED; b->free_fiber = cur->id; b->free_op = cur->op;
	memset((u8*)STATE_BASE + (a - ARENA_BASE), ST_FREED, b->size);
	live_blocks--; live_bytes -= b->size;
	u64 rsz = (b->size + 15) & ~15ULL; if (!rsz) rsz = 16;
	if (C.fill != 2) memset(p, 0xDD, b->size);
	if (C.heap_reuse && rsz/16 <= 4096) { b->next = freelist[rsz/16]; freelist[rsz/16] = bi; }
}
static void* do_new(size_t n, int kind, int nothrow, u32 pc)
{
	if (g_active && !sim_in_model)
	{
		point(1, 0, pc);
		if (n > (1u<<30)) { cur->alloc_failed++; if (nothrow) return 0; throw std::bad_alloc(); }
		if (cur->alloc_faults && alloc_should_fail())
		{
			cur->alloc_failed++;
			if (g_verbose) sim_trace("allocation of %zu bytes fails", n);
			if (nothrow) return 0;
			throw std::bad_alloc();
		}
		return arena_alloc(n, kind, pc);
	}
	void* p = malloc(n ? n : 1);
	if (!p) { if (nothrow) return 0; throw std::bad_alloc(); }
	return p;
}
static void do_delete(void* p, int kind, u32 pc)
{
	if (!p) return;
	if ((uptr)p - ARENA_BASE < ARENA_SIZE)
	{
		if (!g_active) return;
		if (!sim_in_model) point(1, (uptr)p, pc);
		arena_free(p, kind, pc);
		return;
	}
	free(p);
}
void* operator new(size_t n) { return do_new(n, 0, 0, PC); }
void* operator new[](size_t n) { return do_new(n, 1, 0, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, 1, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 1, 1, PC); }
void operator delete(void* p) noexcept { do_delete(p, 0, PC); }
void operator delete[](void* p) noexcept { do_delete(p, 1, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, 0, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, 1, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 1, PC); }
// C allocation functions called by instrumented code (redirected by objcopy)
extern "C" void* sim_malloc(size_t n) { if (!ON) return malloc(n); point(1, 0, PC); if (cur->alloc_faults && alloc_should_fail()) { cur->alloc_failed++; errno = ENOMEM; return 0; } return arena_alloc(n, 2, PC); }
extern "C" void sim_free(void* p) { if (!p) return; if ((uptr)p - ARENA_BASE < ARENA_SIZE) { if (!g_active) return; if (!sim_in_model) point(1, (uptr)p, PC); arena_free(p, 2, PC); } else free(p); }
extern "C" void* sim_calloc(size_t a, size_t b) { if (!ON) return calloc(a, b); void* p = sim_malloc(a*b); if (p) memset(p, 0, a*b); return p; }
extern "C" void* sim_realloc(void* p, size_t n)
{
	if (p ? (uptr)p - ARENA_BASE >= ARENA_SIZE : !ON) return realloc(p, n);
	void* q = sim_malloc(n); if (!q) return 0;
	if (p) { u32 bi = ((u32*)BIDX_BASE)[((uptr)p - ARENA_BASE)/16]; u32 o = blk[bi-1].size; memcpy(q, p, o < n ? o : n); sim_free(p); }
	return q;
}
extern "C" char* sim_strdup(const char* s) { size_t n = strlen(s)+1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }

// ---------------------------------------------------------------- harness API
static void fiber_main();
static Fiber* new_fiber(int op)
{
	if (nf >= MAXF) sim_abandon();
	Fiber* f = &fb[nf];
	memset(f, 0, sizeof(*f));
	f->id = nf; f->op = op; f->joiner = -1;
	uptr top = STACK_BASE + (u64)(nf+1)*(STACK_SIZE + 8192) - 8192 - 64;
	top &= ~63ULL;
	u64* sp = (u64*)top;
	*--sp = 0;			// alignment/return guard
	*--sp = (u64)(uptr)fiber_main;
	for (int i = 0; i < 6; i++) *--sp = 0;
	--sp; ((u32*)sp)[0] = 0x1F80; ((u32*)sp)[1] = 0x037F;
	f->sp = sp;
	f->state = F_RUNNABLE;
	f->prio = 1000 + (int)(g_explicit ? 0 : rng() % 1000);
	if (tls_size) { f->tls = malloc(tls_size); memset(f->tls, 0, tls_size); memcpy(f->tls, tls_init, tls_filesz); }
	f->vc.c[f->id] = 1;
	nf++;
	return f;
}
static void inherit(Fiber* child) { if (cur) { vc_join(&child->vc, &cur->vc); cur->vc.c[cur->id]++; } child->vc.c[child->id] = 1; }

#define TID_BASE 0x7f5500001000ULL
#define TID_STEP 0x801000ULL
static void tid_release(Fiber* f) { free_tids[nfree_tids++] = (u32)((f->tid - TID_BASE)/TID_STEP); }
static void fiber_done()
{
	Fiber* f = cur;
	for (int i = f->ntdtor-1; i >= 0; i--) f->tdtor[i].f(f->tdtor[i].a);
	f->state = F_DONE;
	for (int i = 0; i < nf; i++)
		if (fb[i].state == F_JOIN && fb[i].wait == (uptr)f->id) fb[i].state = F_RUNNABLE;
	if (f->detached) { n_unreclaimed--; tid_release(f); }
	Fiber* t = pick_blocked(0);
	if (!t)
	{
		char b[700]; describe_blocked(b, sizeof(b));
		sim_fail("deadlock", "no thread can make progress: %s", b);
	}
	switch_to(t);
	abort();
}
static void (*main_body)(void);
static void fiber_main()
{
	Fiber* f = cur;
	errno = 0;
	try
	{
		if (f->id == 0) main_body();
		else if (f->start) f->retval = f->start(f->arg);
		else f->fn(f->arg);
	}
	catch (std::bad_alloc&) { sim_fail("uncaught-exception", "std::bad_alloc left the thread's function"); }
	catch (std::exception& e) { sim_fail("uncaught-exception", "%s left the thread's function", typeid(e).name()); }
	catch (...) { sim_fail("uncaught-exception", "an exception left the thread's function"); }
	if (f->id == 0) { R->done = 1; finish(0); }
	fiber_done();
}
extern "C" {
void sim_op(int index) { if (!g_active) return; Fiber* f = cur; f->op = index; f->pcount = f->limit = 0; memset(f->kcount, 0, sizeof(f->kcount)); R->ops_done++; hmix(0xABCD0000u + index); if (!sim_in_model) point(2, 0, 0); }
int sim_self(void) { return cur ? cur->id : 0; }
int sim_spawn(void (*fn)(void*), void* arg) { Fiber* f = new_fiber(-1); f->fn = fn; f->arg = arg; inherit(f); return f->id; }
void sim_join(int i)
{
	while (fb[i].state != F_DONE) { cur->state = F_JOIN; cur->wait = i; block(); }
	vc_join(&cur->vc, &fb[i].vc);
}
void sim_yield(void) { if (g_active) point(2, 0, PC); }
void sim_stall(int n) { for (int i = 0; i < n; i++) { Fiber* t = pick_blocked(0); if (!t || t == cur) return; switch_to(t); } }
int sim_choose(int kind, int n, int percent)
{
	if (!g_active) return 0;
	int prop = 0;
	if (!g_explicit && n > 1 && (int)(rng() % 100) < percent) prop = 1 + rng() % (n-1);
	int v = choice_k(kind, prop);
	return v < n ? v : 0;
}
void sim_probe(int n) { if (R && n >= 0 && n < SIM_MAXPROBE) R->probes[n]++; }
uint64_t sim_now_ns(void) { return now_ns; }
void sim_alloc_faults(int on) { if (cur) cur->alloc_faults = on; }
int sim_alloc_failed(void) { int n = cur->alloc_failed; cur->alloc_failed = 0; return n; }
void sim_hash(uint64_t v) { hmix(v); }
uint64_t sim_live_blocks(void) { return live_blocks; }
void sim_mark_peak(void) { peak_blocks = live_blocks; peak_bytes = live_bytes; }
uint64_t sim_peak_blocks(void) { return peak_blocks; }
uint64_t sim_peak_bytes(void) { return peak_bytes; }
uint64_t sim_live_bytes(void) { return live_bytes; }
uint64_t sim_my_steps(void) { return cur->pcount; }
uint64_t sim_my_bytes(void) { return cur->got_bytes; }
uint64_t sim_my_blocks(void) { return cur->got_blocks; }
void sim_limit_steps(uint64_t more, const char* what) { snprintf(cur->limit_what, sizeof(cur->limit_what), "%s", what); cur->limit_from = cur->pcount; cur->limit = more && cur->pcount + more < 0xFFFFFFF0u ? (u32)(cur->pcount + more) : 0; }
uint64_t sim_allocs(void) { return R ? R->allocs : 0; }
void sim_describe_live(char* buf, int size)
{
	int n = 0; buf[0] = 0; int k = 0;
	for (u32 i = 0; i < nblk && k < 4 && n < size-80; i++)
		if (blk[i].state == ST_LIVE) { n += snprintf(buf+n, size-n, "%u bytes from %s by T%d op%d pc 0x%x; ", blk[i].size, blk[i].kind == 1 ? "new[]" : "new", blk[i].fiber, blk[i].op, blk[i].pc); k++; }
}
void sim_payload(void* p, size_t len) { if (npayload < 32) { payload_lo[npayload] = (uptr)p; payload_hi[npayload] = (uptr)p + len; npayload++; } }
int sim_is_heap(const void* p) { return (uptr)p - ARENA_BASE < ARENA_SIZE; }
int sim_check_range(const void* p, size_t n) { if (!sim_is_heap(p)) return 1; const u8* st = (const u8*)STATE_BASE + ((uptr)p - ARENA_BASE); for (size_t i = 0; i < n; i++) if (st[i] != ST_LIVE) return 0; return 1; }
uint32_t sim_thread_unreclaimed(void) { return n_unreclaimed; }
uint32_t sim_threads_created(void) { return n_created; }
uint32_t sim_blocked(void) { return cur->nblocked; }
uint32_t sim_refused(void) { return cur->nrefused; }
int sim_last_fault_count(int k) { return (int)R->faults[k]; }
}

// ---------------------------------------------------------------- pthreads
#define MMAGIC 0x53494D4Du
static void wake_waiters(FState st, uptr a) { for (int i = 0; i < nf; i++) if (fb[i].state == st && fb[i].wait == a) fb[i].state = F_RUNNABLE; }
static int mtype(pthread_mutex_t* m)
{
	u32* w = (u32*)m;		// w[0] lock, w[3] nusers, w[4] kind (glibc layout, so static initialisers work)
	if (w[3] != MMAGIC)
	{
		if (w[0] || w[1] || w[2] || w[3] || (w[4] & ~3u)) sim_fail("uninitialised-mutex", "use of an uninitialised or destroyed mutex");
	}
	return w[4] & 3;	// 0 normal 1 recursive 2 errorcheck
}
static int mutex_lock(pthread_mutex_t* m, int try_, u32 pc, u64 deadline = 0)
{
	if (interesting((uptr)m)) check_live((uptr)m, sizeof(*m), 0, pc);
	race_access((uptr)m, 8, 0, 1, pc);
	int t = mtype(m);
	SyncVar* s = sync_find((uptr)m, 2, 1);
	for (;;)
	{
		if (s->owner < 0)
		{
			s->owner = cur->id; s->count = 1; vc_join(&cur->vc, &s->vc);
			return 0;
		}
		if (s->owner == cur->id)
		{
			if (t == 1) { s->count++; return 0; }
			if (try_) return EBUSY;
			if (t == 2) return EDEADLK;
		}
		if (try_) return EBUSY;
		cur->state = F_MUTEX; cur->wait = (uptr)m; block();
		s = sync_find((uptr)m, 2, 1);
	}
}
static int mutex_unlock(pthread_mutex_t* m, u32 pc)
{
	if (interesting((uptr)m)) check_live((uptr)m, sizeof(*m), 0, pc);
	int t = mtype(m);
	SyncVar* s = sync_find((uptr)m, 2, 1);
	if (s->owner != cur->id)
	{
		if (t != 0) return EPERM;
		sim_fail("mutex-misuse", "unlocking a mutex held by T%d", s->owner);
	}
	if (--s->count > 0) return 0;
	s->owner = -1; s->vc = cur->vc; cur->vc.c[cur->id]++;
	wake_waiters(F_MUTEX, (uptr)m);
	return 0;
}
static pthread_mutex_t hmutex[16];
extern "C" {
void sim_lock(int n) { mutex_lock(&hmutex[n & 15], 0, PC); }
void sim_unlock(int n) { mutex_unlock(&hmutex[n & 15], PC); }

int pthread_mutexattr_init(pthread_mutexattr_t* a) { if (ON) access((uptr)a, 4, 1, PC); *(int*)a = 0; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { if (ON) access((uptr)a, 4, 1, PC); *(int*)a = -1; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { if (ON) access((uptr)a, 4, 1, PC); if (t < 0 || t > 3) return EINVAL; *(int*)a = t; return 0; }
int pthread_mutexattr_gettype(const pthread_mutexattr_t* a, int* t) { *t = *(int*)a; return 0; }
int pthread_mutexattr_setpshared(pthread_mutexattr_t*, int) { return 0; }
int pthread_mutexattr_setprotocol(pthread_mutexattr_t*, int) { return 0; }
int pthread_mutexattr_setrobust(pthread_mutexattr_t*, int) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	int t = 0;
	if (a) { if (ON) access((uptr)a, 4, 0, PC); t = *(const int*)a; if (ON && (t < 0 || t > 3)) sim_fail("mutex-misuse", "mutex initialised from uninitialised attributes"); }
	if (ON)
	{
		access((uptr)m, sizeof(*m), 1, PC);
		SyncVar* s = sync_find((uptr)m, 2, 0);
		if (s && s->owner >= 0) sim_fail("mutex-misuse", "a held mutex was initialised again");
	}
	memset(m, 0, sizeof(*m)); ((u32*)m)[3] = MMAGIC; ((u32*)m)[4] = t & 3;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (ON)
	{
		access((uptr)m, sizeof(*m), 1, PC);
		SyncVar* s = sync_find((uptr)m, 2, 0);
		if (s && s->owner >= 0) return EBUSY;
		for (int k = 0; k < nf; k++) if (fb[k].state == F_MUTEX && fb[k].wait == (uptr)m) sim_fail("mutex-misuse", "a mutex T%d waits for was destroyed", k);
	}
	((u32*)m)[3] = 0xDEAD; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!ON || FROM_LIB) return 0; point(1, (uptr)m, PC); int r = mutex_lock(m, 0, PC); hmix(r); return r; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!ON || FROM_LIB) return 0; point(1, (uptr)m, PC); int r = mutex_lock(m, 1, PC); hmix(r); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!ON || FROM_LIB) return 0; point(1, (uptr)m, PC); int r = mutex_unlock(m, PC); if (cur) point(1, (uptr)m, PC); return r; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile int*)l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { if (!ON) return 0; for (;;) { point(1, (uptr)l, PC); if (!*(volatile int*)l) { *(volatile int*)l = 1; hb((uptr)l, MO_ACQ, 1, 0); return 0; } sim_stall(1); } }
int pthread_spin_trylock(pthread_spinlock_t* l) { if (!ON) return 0; point(1, (uptr)l, PC); if (*(volatile int*)l) return EBUSY; *(volatile int*)l = 1; hb((uptr)l, MO_ACQ, 1, 0); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (!ON) return 0; point(1, (uptr)l, PC); hb((uptr)l, MO_REL, 0, 1); *(volatile int*)l = 0; return 0; }
// reader-writer locks, should the code under test come to use them
struct RW { int writer; int readers; };
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!ON || FROM_LIB) return 0; RW* r = (RW*)l; for (;;) { point(1, (uptr)l, PC); if (!r->writer) { r->readers++; hb((uptr)l, MO_ACQ, 1, 0); return 0; } cur->state = F_MUTEX; cur->wait = (uptr)l; block(); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!ON || FROM_LIB) return 0; RW* r = (RW*)l; for (;;) { point(1, (uptr)l, PC); if (!r->writer && !r->readers) { r->writer = 1; hb((uptr)l, MO_ACQ, 1, 0); return 0; } cur->state = F_MUTEX; cur->wait = (uptr)l; block(); } }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!ON || FROM_LIB) return 0; RW* r = (RW*)l; point(1, (uptr)l, PC); if (r->writer) return EBUSY; r->readers++; hb((uptr)l, MO_ACQ, 1, 0); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!ON || FROM_LIB) return 0; RW* r = (RW*)l; point(1, (uptr)l, PC); if (r->writer || r->readers) return EBUSY; r->writer = 1; hb((uptr)l, MO_ACQ, 1, 0); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!ON || FROM_LIB) return 0; RW* r = (RW*)l; point(1, (uptr)l, PC); hb((uptr)l, MO_AR, 1, 1); if (r->writer) r->writer = 0; else if (r->readers) r->readers--; wake_waiters(F_MUTEX, (uptr)l); return 0; }

#define AMAGIC 0x5CA70000	// attributes that have been initialised
int pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = AMAGIC; return 0; }
int pthread_condattr_destroy(pthread_condattr_t* a) { *(int*)a = 0xDEAD; return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { if (*(int*)a>>16 != AMAGIC>>16 || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return EINVAL; *(int*)a = AMAGIC|c; return 0; }
int pthread_condattr_getclock(const pthread_condattr_t* a, clockid_t* c) { *c = *(int*)a & 0xFFFF; return 0; }
int pthread_condattr_setpshared(pthread_condattr_t*, int) { return 0; }
#define CMAGIC 0x53494D43u
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	if (ON) access((uptr)c, sizeof(*c), 1, PC);
	if (a && *(const int*)a>>16 != AMAGIC>>16) { if (ON) sim_fail("cond-misuse", "a condition is made with attributes that were not initialised"); return EINVAL; }
	memset(c, 0, sizeof(*c)); ((u32*)c)[0] = CMAGIC; ((u32*)c)[1] = a ? *(const int*)a & 0xFFFF : CLOCK_REALTIME; return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
	if (ON)
	{
		access((uptr)c, sizeof(*c), 1, PC);
		for (int k = 0; k < nf; k++) if (fb[k].state == F_COND && fb[k].wait == (uptr)c) sim_fail("cond-misuse", "a condition T%d waits on was destroyed", k);
	}
	((u32*)c)[0] = 0xDEAD; return 0;
}
static u64 clock_now(int clk) { return (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_TAI ? base_rt : 1000000000ULL) + now_ns; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts, int clk, u32 pc)
{
	point(1, (uptr)c, pc);
	if (!m) sim_fail("crash", "condition wait with a null mutex");
	if (interesting((uptr)c)) check_live((uptr)c, sizeof(*c), 0, pc);
	u32* w = (u32*)c;
	if (w[0] != CMAGIC && (w[0] || w[1])) sim_fail("cond-misuse", "waiting on an uninitialised or destroyed condition");
	if (clk < 0) clk = w[0] == CMAGIC ? (int)w[1] : CLOCK_REALTIME;
	u64 wake = 0;
	if (ts)
	{
		if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;
		u64 base = clock_now(clk) - now_ns;
		u64 abs = ts->tv_sec < 0 ? 0 : (u64)ts->tv_sec*1000000000ULL + ts->tv_nsec;
		wake = abs > base ? abs - base : 0;
		if (wake <= now_ns) wake = now_ns + 1;
	}
	SyncVar* s = sync_find((uptr)m, 2, 1);
	if (s->owner != cur->id)
	{
		if (mtype(m) != 0) return EPERM;
		sim_fail("mutex-misuse", "condition wait with a mutex not held by the caller");
	}
	int save = s->count; s->count = 1;
	mutex_unlock(m, pc);
	cur->timed_out = 0; cur->signalled = 0; cur->was_spurious = 0;
	cur->state = F_COND; cur->wait = (uptr)c; cur->wake = wake; cur->wake_rt = clk != CLOCK_MONOTONIC && clk != CLOCK_BOOTTIME && clk != CLOCK_MONOTONIC_RAW;
	block();
	cur->wake = 0;
	int to = cur->timed_out && !cur->signalled;
	mutex_lock(m, 0, pc);
	sync_find((uptr)m, 2, 1)->count = save;
	point(1, (uptr)c, pc);
	hmix(to);
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ON) return 0; return cond_wait(c, m, 0, -1, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!ON) return 0; return cond_wait(c, m, t, -1, PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!ON) return 0; return cond_wait(c, m, t, k, PC); }
static int cond_wake(pthread_cond_t* c, int all, u32 pc)
{
	point(1, (uptr)c, pc);
	if (interesting((uptr)c)) check_live((uptr)c, sizeof(*c), 0, pc);
	u32* w = (u32*)c;
	if (w[0] != CMAGIC && (w[0] || w[1])) sim_fail("cond-misuse", "signalling an uninitialised or destroyed condition");
	int l[MAXF], n = 0;
	for (int k = 1; k <= nf; k++) { int i = (cur->id + k) % nf; if (fb[i].state == F_COND && fb[i].wait == (uptr)c) l[n++] = i; }
	if (n)
	{
		if (all) for (int i = 0; i < n; i++) { fb[l[i]].state = F_RUNNABLE; fb[l[i]].signalled = 1; fb[l[i]].wake = 0; }
		else
		{
			int v = choice_k(SF_MUTEXPICK, !g_explicit && n > 1 && rng() % 2 ? (int)(rng() % n) : 0);
			if (v >= n) v = 0;
			fb[l[v]].state = F_RUNNABLE; fb[l[v]].signalled = 1; fb[l[v]].wake = 0;
		}
	}
	point(1, (uptr)c, pc);
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!ON) return 0; return cond_wake(c, 0, PC); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ON) return 0; return cond_wake(c, 1, PC); }

static Fiber* fiber_of(pthread_t t, int live_only)
{
	for (int i = nf-1; i >= 0; i--)
		if (fb[i].is_pthread && fb[i].tid == t && (!live_only || !(fb[i].joined || (fb[i].detached && fb[i].state == F_DONE)))) return &fb[i];
	return 0;
}
pthread_t pthread_self(void) { if (!g_active || !cur) return (pthread_t)0x7f5400000740ULL; return cur->id == 0 ? (pthread_t)0x7f5400000740ULL : cur->is_pthread ? cur->tid : (pthread_t)(0x7f5300000000ULL + cur->id*0x1000); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	if (!g_active) return EAGAIN;
	point(1, (uptr)t, PC);
	if (choice_k(SF_CREATE, !g_explicit && C.p_create && (int)(rng() % 100) < C.p_create)) { cur->nrefused++; sim_trace("pthread_create refused"); return EAGAIN; }
	Fiber* f = new_fiber(-1);
	f->is_pthread = 1; f->start = fn; f->arg = arg; f->joinable = 1;
	if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); if (ds == PTHREAD_CREATE_DETACHED) f->detached = 1; }
	u32 slot;
	if (nfree_tids && choice_k(SF_IDREUSE, !g_explicit && (int)(rng() % 100) < C.p_idreuse)) slot = free_tids[--nfree_tids];
	else slot = next_tid_slot++;
	// the identifier: the table index is kept in the low word so that it can be given back
	f->tid = (pthread_t)(TID_BASE + slot*TID_STEP);
	inherit(f);
	n_created++; n_unreclaimed++;
	if (choice_k(SF_LATEID, !g_explicit && (int)(rng() % 100) < C.p_lateid))
	{
		point(1, (uptr)t, PC);		// the child may run before the identifier is stored
		point(1, (uptr)t, PC); sim_stall(1); point(1, (uptr)t, PC);
	}
	else f->created_late = 1;
	if (interesting((uptr)t)) { check_live((uptr)t, 8, 1, PC); race_access((uptr)t, 8, 1, 0, PC); }
	*t = f->tid;
	f->created_late = 0;
	hmix(f->tid);
	point(1, (uptr)t, PC);
	return 0;
}
int pthread_join(pthread_t t, void** ret)
{
	if (!g_active) return ESRCH;
	point(1, 0, PC);
	Fiber* f = fiber_of(t, 1);
	if (!f) sim_fail("bad-join", "pthread_join of an identifier that is not (or no longer) a joinable thread: %llx", (unsigned long long)t);
	if (f == cur) return EDEADLK;
	if (f->detached) sim_fail("bad-join", "pthread_join of a detached thread");
	if (f->joiner >= 0) sim_fail("bad-join", "pthread_join of a thread that T%d is already joining", f->joiner);
	f->joiner = cur->id;
	while (f->state != F_DONE) { cur->state = F_JOIN; cur->wait = f->id; block(); }
	vc_join(&cur->vc, &f->vc);
	f->joined = 1; n_unreclaimed--;
	tid_release(f);
	if (ret) { if (ON && interesting((uptr)ret)) check_live((uptr)ret, 8, 1, PC); *ret = f->retval; }
	point(1, 0, PC);
	return 0;
}
int pthread_tryjoin_np(pthread_t t, void** ret) { if (!g_active) return ESRCH; point(1, 0, PC); Fiber* f = fiber_of(t, 1); if (!f) sim_fail("bad-join", "join of an invalid identifier"); if (f->state != F_DONE) return EBUSY; return pthread_join(t, ret); }
int pthread_detach(pthread_t t)
{
	if (!g_active) return ESRCH;
	point(1, 0, PC);
	Fiber* f = fiber_of(t, 1);
	if (!f) sim_fail("bad-detach", "pthread_detach of an identifier that is not (or no longer) a joinable thread");
	if (f->detached) sim_fail("bad-detach", "pthread_detach of a detached thread");
	if (f->joiner >= 0) return EINVAL;
	f->detached = 1;
	if (f->state == F_DONE) { n_unreclaimed--; tid_release(f); }
	point(1, 0, PC);
	return 0;
}
void pthread_exit(void* v)
{
	if (!g_active) _exit(0);
	cur->retval = v;
	sim_fail("sim-limit", "pthread_exit is not simulated");
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
	volatile int* s = (volatile int*)o;
	if (!ON || FROM_LIB) { if (*s == 0) { *s = 2; fn(); } return 0; }
	for (;;)
	{
		point(1, (uptr)o, PC);
		hb((uptr)o, MO_ACQ, 1, 0);
		if (*s == 2) return 0;
		if (*s == 0) { *s = 1; fn(); *s = 2; hb((uptr)o, MO_REL, 0, 1); wake_waiters(F_GUARD, (uptr)o); return 0; }
		cur->state = F_GUARD; cur->wait = (uptr)o; block();
	}
}
static int nkeys = 0; static void* inactive_specific[32];
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { if (nkeys >= 32) return EAGAIN; *k = nkeys++; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return g_active && cur ? cur->specific[k & 31] : inactive_specific[k & 31]; }
int pthread_setspecific(pthread_key_t k, const void* v) { if (g_active && cur) cur->specific[k & 31] = (void*)v; else inactive_specific[k & 31] = (void*)v; return 0; }
int __cxa_thread_atexit(void (*f)(void*), void* a, void*) { if (g_active && cur && cur->id && cur->ntdtor < 16) { cur->tdtor[cur->ntdtor].f = f; cur->tdtor[cur->ntdtor].a = a; cur->ntdtor++; } return 0; }

static int do_sleep(u64 ns, struct timespec* rem, u32 pc)
{
	point(1, 0, pc);
	u64 start = now_ns, until = now_ns + ns;
	int frac = choice_k(SF_EINTR, !g_explicit && C.p_eintr && (int)(rng() % 100) < C.p_eintr ? 1 + (int)(rng() % 100) : 0);
	u64 wake = frac && ns ? start + ns*(u64)(frac > 100 ? 100 : frac)/101 : until;
	if (wake <= now_ns) wake = now_ns + 1;
	cur->state = F_SLEEP; cur->wake = wake; block();
	cur->wake = 0;
	if (frac && ns && now_ns < until)
	{
		u64 left = until - now_ns;
		if (rem) { rem->tv_sec = left/1000000000ULL; rem->tv_nsec = left%1000000000ULL; }
		errno = EINTR;
		cur->err = EINTR;
		return -1;
	}
	return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem)
{
	if (!ON) return syscall(SYS_nanosleep, r, rem);
	if (r->tv_nsec < 0 || r->tv_nsec >= 1000000000L || r->tv_sec < 0) { errno = EINVAL; return -1; }
	return do_sleep((u64)r->tv_sec*1000000000ULL + r->tv_nsec, rem, PC);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem)
{
	if (!ON) return syscall(SYS_clock_nanosleep, c, flags, r, rem);
	if (r->tv_nsec < 0 || r->tv_nsec >= 1000000000L || r->tv_sec < 0) return EINVAL;
	u64 t = (u64)r->tv_sec*1000000000ULL + r->tv_nsec;
	if (flags & TIMER_ABSTIME) { u64 n = clock_now(c); t = t > n ? t - n : 0; if (!t) return 0; rem = 0; }
	return do_sleep(t, rem, PC) ? EINTR : 0;
}
int usleep(useconds_t u) { if (!ON) { struct timespec t = { u/1000000, (long)(u%1000000)*1000 }; return syscall(SYS_nanosleep, &t, 0); } return do_sleep((u64)u*1000, 0, PC); }
unsigned sleep(unsigned s) { if (!ON) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, 0); return 0; } struct timespec r = {0,0}; return do_sleep((u64)s*1000000000ULL, &r, PC) ? r.tv_sec + (r.tv_nsec ? 1 : 0) : 0; }
int sched_yield(void) { if (!ON) return 0; point(1, 0, PC); Fiber* t = pick_blocked(0); if (t && t != cur) switch_to(t); return 0; }
int clock_gettime(clockid_t c, struct timespec* t)
{
	if (!ON) return syscall(SYS_clock_gettime, c, t);
	point(1, 0, PC);
	u64 n = clock_now(c); t->tv_sec = n/1000000000ULL; t->tv_nsec = n%1000000000ULL; return 0;
}
int gettimeofday(struct timeval* t, void*)
{
	if (!ON) return syscall(SYS_gettimeofday, t, 0);
	point(1, 0, PC);
	u64 n = clock_now(CLOCK_REALTIME); t->tv_sec = n/1000000000ULL; t->tv_usec = n%1000000000ULL/1000; return 0;
}
time_t time(time_t* p) { time_t v; if (!ON) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); v = t.tv_sec; } else { point(1, 0, PC); v = clock_now(CLOCK_REALTIME)/1000000000ULL; } if (p) *p = v; return v; }

// ---- function-local statics
int __cxa_guard_acquire(int64_t* gd)
{
	volatile char* g = (volatile char*)gd;
	if (!ON) { if (g[0]) return 0; g[1] = 1; return 1; }
	for (;;)
	{
		point(1, (uptr)gd, PC);
		hb((uptr)gd, MO_ACQ, 1, 0);
		if (g[0]) return 0;
		if (!g[1]) { g[1] = 1; return 1; }
		cur->state = F_GUARD; cur->wait = (uptr)gd; block();
	}
}
void __cxa_guard_release(int64_t* gd) { volatile char* g = (volatile char*)gd; g[0] = 1; g[1] = 0; if (ON) { hb((uptr)gd, MO_REL, 0, 1); wake_waiters(F_GUARD, (uptr)gd); } }
void __cxa_guard_abort(int64_t* gd) { volatile char* g = (volatile char*)gd; g[1] = 0; if (ON) wake_waiters(F_GUARD, (uptr)gd); }

void __assert_fail(const char* e, const char* file, unsigned line, const char*)
{
	if (g_active && expect_assert) sim_abandon();
	if (g_active) { const char* b = strrchr(file, '/'); sim_fail("assert", "assertion failed: %s (%s:%u)", e, b ? b+1 : file, line); }
	fprintf(stderr, "%s:%u: assertion failed: %s\n", file, line, e);
	abort();
}
} // extern C

// ---------------------------------------------------------------- starting a run
static void on_signal(int sig, siginfo_t* si, void*)
{
	const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : sig == SIGVTALRM ? "hang" : "signal";
	if (sig == SIGSEGV && (uptr)si->si_addr - STACK_BASE < (u64)MAXF*(STACK_SIZE+8192)) n = "stack-overflow";
	if (sig == SIGVTALRM)
	{	// every second of processor time: has anything been done since?
		static u64 last_steps; static int idle, total;
		total++;
		if (last_steps != steps || sim_in_model) idle = 0; else idle++;
		last_steps = steps;
		if (idle < 3 && total < (sim_in_model ? 30 : 120)) return;
	}
	if (sig == SIGVTALRM) sim_fail("hang", "a thread runs without touching shared memory (infinite loop)");
	sim_fail("crash", "%s", n);
}
static int tls_cb(struct dl_phdr_info* i, size_t, void*)
{
	if (i->dlpi_name && i->dlpi_name[0]) return 0;	// only the executable
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS)
		{
			tls_size = i->dlpi_phdr[k].p_memsz; tls_filesz = i->dlpi_phdr[k].p_filesz;
			tls_init = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
			u64 al = i->dlpi_phdr[k].p_align; if (!al) al = 1;
			u64 off = (tls_size + al - 1) & ~(al - 1);
			uptr fs; asm("movq %%fs:0,%0" : "=r"(fs));
			tls_base = (char*)(fs - off);
		}
	return 1;
}
static void mapat(u64 a, u64 n)
{
	void* p = mmap((void*)a, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)a) { fprintf(stderr, "sim: cannot map %llx\n", (unsigned long long)a); _exit(2); }
}
// ---- text the library prints: its arguments are checked, and it goes to the thread's collector if it has one
static std::string* g_out[64];
static void out_text(FILE* f, const char* p, size_t n) { std::string* o = cur && f == stdout ? g_out[cur->id & 63] : 0; if (o) { int m = sim_in_model; sim_in_model = 1; o->append(p, n); sim_in_model = m; } else fwrite(p, 1, n, f); }
static void out_args(const char* f, va_list ap, u32 pc)
{
	for (; *f; f++)
	{
		if (*f != '%') continue;
		if (*++f == '%') continue;
		int prec = -1, lng = 0; bool dot = false;
		for (; *f && !strchr("diouxXcspfgeEGn", *f); f++)
		{
			if (*f == '.') { dot = true; prec = 0; }
			else if (*f == '*') { int v = va_arg(ap, int); if (dot) prec = v; }
			else if (*f >= '0' && *f <= '9') { if (dot) prec = prec * 10 + *f - '0'; }
			else if (strchr("lzjt", *f)) lng++;
		}
		if (!*f) return;
		if (*f == 's')
		{
			const char* s = va_arg(ap, const char*); if (!s) continue;
			if (prec < 0) rng_access(s, safe_strlen(s, pc)+1, 0, pc);
			else { size_t k = strnlen(s, prec); rng_access(s, k < (size_t)prec ? k+1 : k, 0, pc); }
		}
		else if (*f == 'p') va_arg(ap, void*);
		else if (strchr("fgeEG", *f)) va_arg(ap, double);
		else if (lng) va_arg(ap, long); else va_arg(ap, int);
	}
}
static int out_printf(FILE* f, const char* fmt, va_list ap, u32 pc)
{
	if (ON) { va_list q; va_copy(q, ap); out_args(fmt, q, pc); va_end(q); }
	char b[4096]; va_list q; va_copy(q, ap); int n = vsnprintf(b, sizeof(b), fmt, q); va_end(q);
	if (n < 0) return n;
	if ((size_t)n < sizeof(b)) { out_text(f, b, n); return n; }
	char* big = (char*)malloc(n+1); vsnprintf(big, n+1, fmt, ap); out_text(f, big, n); free(big); return n;
}
extern "C" {
void sim_collect_output(std::string* to) { if (cur) g_out[cur->id & 63] = to; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = out_printf(stdout, fmt, ap, PC); va_end(ap); return n; }
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = out_printf(f, fmt, ap, PC); va_end(ap); return n; }
int sim_fputs(const char* s, FILE* f) { size_t n; if (ON) { u32 pc = PC; n = safe_strlen(s, pc); rng_access(s, n+1, 0, pc); } else n = strlen(s); out_text(f, s, n); return 1; }
int sim_puts(const char* s) { size_t n; if (ON) { u32 pc = PC; n = safe_strlen(s, pc); rng_access(s, n+1, 0, pc); } else n = strlen(s); out_text(stdout, s, n); out_text(stdout, "\n", 1); return 1; }
int sim_fputc(int c, FILE* f) { char b = (char)c; out_text(f, &b, 1); return c & 0xFF; }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
size_t sim_fwrite(const void* p, size_t z, size_t n, FILE* f) { if (ON) rng_access(p, z*n, 0, PC); out_text(f, (const char*)p, z*n); return n; }
}

extern "C" void sim_install(void)
{
	static int done = 0; if (done) return; done = 1;
	glo_lo = (uptr)__data_start & ~7ULL; glo_hi = (uptr)_end;
	mapat(ARENA_BASE, ARENA_SIZE); mapat(STATE_BASE, ARENA_SIZE + 4096); mapat(BIDX_BASE, ARENA_SIZE/4 + 4096);
	mapat(RSH_BASE, (u64)ARENA_SIZE/8*sizeof(Granule) + 4096); mapat(GSH_BASE, (glo_hi-glo_lo)/8*sizeof(Granule) + 65536);
	mapat(STACK_BASE, (u64)(MAXF+1)*(STACK_SIZE + 8192)); mapat(BLK_BASE, (u64)MAXBLK*sizeof(Block));
	for (int i = 0; i < MAXF; i++) mprotect((void*)(STACK_BASE + (u64)i*(STACK_SIZE+8192)), 4096, PROT_NONE);
	sv = (SyncVar*)mmap(0, sizeof(SyncVar)*NSYNC, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	dl_iterate_phdr(tls_cb, 0);
	memset(hmutex, 0, sizeof(hmutex));
}
static char altstack[65536];
static void* boot_sp;
extern "C" void sim_child_run(const SimConfig* cfg, uint64_t seed, const SimChoice* fixed, int nfixed, int explicit_mode, int verbose, SimResult* res, void (*body)(void))
{
	R = res; C = *cfg; sim_cfg = &C; g_verbose = verbose; g_explicit = explicit_mode;
	u64 s = seed; rng_s[0] = splitmix(&s); rng_s[1] = splitmix(&s) | 1; rng2_s = seed ^ 0x5DEECE66DULL;
	thash = 0xcbf29ce484222325ULL; shash = thash;
	step_budget = (u64)(C.step_budget ? C.step_budget : 400) * 1000;
	base_rt = 1700000000000000000ULL + (seed % 1000003) * 7919000017ULL % 400000000000000000ULL;
	now_ns = C.tick ? (u64)C.tick : 1000;
	if (C.tick) base_rt = base_rt / C.tick * C.tick;
	if (explicit_mode)
	{
		u32 n = 64; while (n < (u32)nfixed*3) n *= 2;
		fixtab = (SimChoice*)calloc(n, sizeof(SimChoice)); fixmask = n-1;
		for (int i = 0; i < nfixed; i++)
		{
			u64 h = fixed[i].key * 0x9E3779B97F4A7C15ULL; u32 k = (u32)(h >> 40) & fixmask;
			while (fixtab[k].value) k = (k+1) & fixmask;
			fixtab[k] = fixed[i];
		}
	}
	else
	{
		pct_n = C.pct_depth < 16 ? C.pct_depth : 16; pct_low = 999;
		for (int i = 0; i < pct_n; i++) pct_at[i] = 1 + rng() % (C.pct_len > 0 ? C.pct_len : 1000);
		reset_countdown();
	}
	stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof(altstack); ss.ss_flags = 0; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK|SA_SIGINFO|SA_NODEFER;
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM };
	for (unsigned i = 0; i < sizeof(sigs)/sizeof(*sigs); i++) sigaction(sigs[i], &sa, 0);
	struct itimerval it; memset(&it, 0, sizeof(it)); it.it_value.tv_sec = it.it_interval.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &it, 0);
	main_body = body;
	nf = 0; cur = 0;
	Fiber* f = new_fiber(-1);
	if (tls_size) memcpy(f->tls, tls_base, tls_size);
	cur = f;
	g_active = 1;
	sim_switch_ctx(&boot_sp, f->sp);
	_exit(9);
}
