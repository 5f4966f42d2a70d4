// T01 Latch, T02 Condition, T03 timed waits. Linked with lockfree.cpp and condition.cpp only, so that the
// Latches made by the simulated threads are the first ones in the process.
#include "harness.h"
#include <lockfree.h>
#include <condition.h>

enum { ENTER, PROBE, HOLDING, NEST, DYNAMIC, WORK,		// T01
	TAKE, GIVE, GIVEALL, GATE, OPEN,			// T02
	TTAKE2, TGATE,						// T02
	TWAIT, TTAKE, SLEEP,					// T03
	NCODE };
static const char* const names[] = { "enter", "probe", "holding", "nested_enter", "construct_use_destroy", "work", "take_ticket", "give_signal", "give_broadcast", "wait_gate", "open_gate", "timed_take_ticket", "timed_wait_gate", "timed_wait", "timed_take", "sleep" };
static const char* opname(int c) { return c >= 0 && c < NCODE ? names[c] : "dropped"; }

enum { P_CONTENDED, P_PROBE_OK, P_PROBE_NO, P_HOLD_T, P_HOLD_F, P_CONC_CONSTRUCT, P_WAITED, P_TIMEOUT, P_EARLY, P_REPEAT, P_SPURIOUS, P_SIG_OUT, P_BOTH, P_TIMEDTOO };
static const char* const probes[] = { "T01:enter_had_to_wait", "T01:probe_succeeded", "T01:probe_failed", "T01,T02,T03:holding_true", "T01:holding_false", "T01:latches_constructed_concurrently", "T02,T03:condition_waited", "T03:timed_wait_expired", "T03:timed_wait_woken_early", "T03:timed_wait_repeated", "T02:woken_without_ticket", "T02,T03:signalled_after_leave", "T03:timed_out_but_ticket_there", "T02:timed_waiter_alongside", 0 };

#define NL 3
struct Cell { long data[4]; };
static Latch* L[NL];
static Cell* D[NL];
static int owner[NL];		// ghost: thread inside, or -1
static int busy[NL];		// threads between the start of an operation that may hold the latch and its end
static long activity[NL];
static long expect[NL];

static void entered(int l)
{
	MODEL;
	if (owner[l] >= 0) sim_fail("mutual-exclusion", "thread %d is inside latch %d while thread %d is too", sim_self(), l, owner[l]);
	owner[l] = sim_self();
}
static void leaving(int l)
{
	MODEL;
	if (owner[l] != sim_self()) sim_fail("mutual-exclusion", "thread %d is leaving latch %d that thread %d took meanwhile", sim_self(), l, owner[l]);
	owner[l] = -1;
}
static void begin(int l) { MODEL; busy[l]++; activity[l]++; }
static void end(int l) { MODEL; busy[l]--; activity[l]++; }
static void critical(int l, int n)
{
	Cell* c = D[l];
	for (int i = 0; i < n; i++)
	{
		long v = c->data[i & 3];
		sim_yield();
		c->data[i & 3] = v + 1;
		{ MODEL; expect[l]++; if (owner[l] != sim_self()) sim_fail("mutual-exclusion", "thread %d lost latch %d inside it", sim_self(), l); }
	}
	long sum = 0;
	for (int i = 0; i < 4; i++) sum += c->data[i];
	{ MODEL; if (sum != expect[l]) sim_fail("lost-update", "data under latch %d is %ld, expected %ld", l, sum, expect[l]); }
}
static void check_holding(int l, const char* when)
{
	bool h = L[l]->holding();
	MODEL;
	if (!h) sim_fail("holding", "holding() is false for the thread that holds the latch (%s)", when);
	sim_probe(P_HOLD_T);
}
static int constructing = 0;
static void do_dynamic(int n)
{
	Latch* a; int conc;
	{ MODEL; constructing++; conc = constructing > 1; if (conc) sim_probe(P_CONC_CONSTRUCT); }
	a = new Latch;
	{ MODEL; constructing--; }
	for (int i = 0; i < n; i++)
	{
		if (i & 1) { if (!a->probe()) sim_fail("probe", "probe() of a private free latch failed"); } else a->enter();
		if (a->probe()) sim_fail("probe", "probe() succeeded on a latch already held");
		if (!a->holding()) sim_fail("holding", "holding() false for a private latch that is held");
		a->leave();
		if (a->holding()) sim_fail("holding", "holding() true for a private latch that is not held");
	}
	delete a;
}
static void exec_t01(int, const SimOp& o)
{
	int l = o.a % NL;
	switch (o.code)
	{
	case ENTER:
	{
		begin(l); uint32_t b = sim_blocked();
		L[l]->enter(); entered(l);
		if (sim_blocked() != b) sim_probe(P_CONTENDED);
		critical(l, o.b);
		if (o.c & 1) check_holding(l, "after enter");
		if (o.c & 2) { uint32_t bb = sim_blocked(); if (L[l]->probe()) sim_fail("probe", "probe() succeeded on a latch the caller holds"); if (bb != sim_blocked()) sim_fail("probe-blocks", "probe() blocked"); sim_probe(P_PROBE_NO); if (o.c & 1) check_holding(l, "after a failed probe"); }
		critical(l, o.b);
		leaving(l); L[l]->leave(); end(l);
		break;
	}
	case PROBE:
	{
		long act; int was; uint32_t b = sim_blocked();
		{ MODEL; was = busy[l]; busy[l]++; act = ++activity[l]; }
		bool got = L[l]->probe();
		if (b != sim_blocked()) sim_fail("probe-blocks", "probe() had to wait");
		if (got)
		{
			entered(l); sim_probe(P_PROBE_OK);
			critical(l, o.b);
			if (o.c & 1) check_holding(l, "after probe");
			leaving(l); L[l]->leave();
		}
		else
		{
			MODEL; sim_probe(P_PROBE_NO);
			if (was == 0 && activity[l] == act) sim_fail("probe", "probe() failed although the latch was free all the time");
		}
		end(l);
		break;
	}
	case HOLDING:
	{
		begin(l);
		bool h = L[l]->holding();
		{ MODEL; if (h) sim_fail("holding", "holding() is true for a thread that does not hold the latch"); sim_probe(P_HOLD_F); }
		end(l);
		break;
	}
	case NEST:
	{
		int m = (l + 1 + o.d % (NL-1)) % NL; int x = l < m ? l : m, y = l < m ? m : l;
		begin(x); L[x]->enter(); entered(x);
		begin(y); L[y]->enter(); entered(y);
		critical(x, o.b); critical(y, o.b);
		if (o.c & 1) { check_holding(x, "nested"); check_holding(y, "nested"); }
		if (o.c & 2) { leaving(x); L[x]->leave(); end(x); critical(y, 1); leaving(y); L[y]->leave(); end(y); }
		else { leaving(y); L[y]->leave(); end(y); critical(x, 1); leaving(x); L[x]->leave(); end(x); }
		break;
	}
	case DYNAMIC: do_dynamic(o.b); break;
	case WORK: for (int i = 0; i < o.b; i++) sim_yield(); break;
	}
}
static void setup(int payload)
{
	{ MODEL; for (int l = 0; l < NL; l++) { owner[l] = -1; busy[l] = 0; } }
	for (int l = 0; l < NL; l++) { D[l] = new Cell(); if (payload) sim_payload(D[l], sizeof(Cell)); }
}
static void end_case(uint64_t base, int leak = 1)
{
	for (int l = 0; l < NL; l++) { delete D[l]; delete L[l]; }
	char b[300]; if (leak && sim_live_blocks() != base) { sim_describe_live(b, sizeof(b)); sim_fail("leak", "%s", b); }
}
static int cfg_actors() { return sim_cfg->user[0]; }
// The shared latches themselves may be constructed by racing threads: each index by one actor
static void ctor_actor(void* a) { int l = (int)(intptr_t)a; L[l] = new Latch; }
static void body_t01()
{
	uint64_t base = sim_live_blocks();
	setup(1);
	if (sim_cfg->user[1])
	{
		int id[NL];
		sim_probe(P_CONC_CONSTRUCT);
		for (int l = 0; l < NL; l++) id[l] = sim_spawn(ctor_actor, (void*)(intptr_t)l);
		for (int l = 0; l < NL; l++) sim_join(id[l]);
	}
	else for (int l = 0; l < NL; l++) L[l] = new Latch;
	h_run_actors(cfg_actors(), exec_t01);
	end_case(base);
}
static void gen_t01(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.range(2, thorough ? 6 : 4); c.user[0] = n; c.user[1] = r.pct(50);
	sim_gen_sched(r, c, n); sim_gen_heap(r, c);
	c.race = RACE_PAYLOAD; c.step_budget = 600;
	int nl = r.range(1, NL);
	for (int f = 0; f < n; f++)
	{
		if (r.pct(30)) ops.push_back(mkop(f, DYNAMIC, 0, r.range(1, 3)));
		int k = r.range(1, thorough ? 12 : 7);
		for (int i = 0; i < k; i++)
		{
			static const int w[] = { ENTER, ENTER, ENTER, PROBE, PROBE, HOLDING, NEST, DYNAMIC, WORK };
			ops.push_back(mkop(f, w[r.below(9)], r.below(nl), r.range(0, 3), r.below(4), r.below(4)));
		}
	}
}

// ---------------------------------------------------------------- T02
static Condition* C[NL];
static long tickets[NL];	// guarded by L[i] (real data)
static long gate[NL];
static int waiting[NL];		// ghost
static void wait_on(int l)
{
	leaving(l);
	{ MODEL; waiting[l]++; }
	C[l]->wait(L[l]);
	{ MODEL; waiting[l]--; }
	entered(l);
	sim_probe(P_WAITED);
}
static long delays(int k);
static void exec_t02(int, const SimOp& o)
{
	int l = o.a % NL;
	switch (o.code)
	{
	case TAKE:
	{
		L[l]->enter(); entered(l);
		int rounds = 0;
		while (tickets[l] <= 0)
		{
			if (rounds++) sim_probe(P_SPURIOUS);
			wait_on(l);
			if (o.c & 1) check_holding(l, "after wait");
			critical(l, 1);
		}
		tickets[l]--;
		critical(l, o.b);
		leaving(l); L[l]->leave();
		break;
	}
	case GIVE:
		L[l]->enter(); entered(l);
		critical(l, o.b);
		tickets[l]++;
		if (o.c & 1) { leaving(l); L[l]->leave(); sim_probe(P_SIG_OUT); if (o.c & 2) sim_yield(); C[l]->signal(); }
		else { C[l]->signal(); critical(l, 1); leaving(l); L[l]->leave(); }
		break;
	case GIVEALL:
		L[l]->enter(); entered(l);
		tickets[l] += o.b;
		if (o.c & 1) { leaving(l); L[l]->leave(); sim_probe(P_SIG_OUT); C[l]->broadcast(); }
		else { C[l]->broadcast(); critical(l, 1); leaving(l); L[l]->leave(); }
		break;
	case GATE:
		L[l]->enter(); entered(l);
		while (!gate[l]) { wait_on(l); critical(l, 1); }
		leaving(l); L[l]->leave();
		break;
	case TTAKE2:	// a waiter with a time limit: a ticket's signal may be its to take too
	{
		L[l]->enter(); entered(l);
		long d = delays(o.b);
		for (int n = 0;; n++)
		{
			if (tickets[l] > 0) { tickets[l]--; break; }
			if (n && d <= 0) break;
			leaving(l);
			C[l]->wait(d, L[l]);
			entered(l); sim_probe(P_TIMEDTOO);
			critical(l, 1);
		}
		leaving(l); L[l]->leave();
		break;
	}
	case TGATE:
		L[l]->enter(); entered(l);
		while (!gate[l]) { long d = delays(o.b); leaving(l); C[l]->wait(d, L[l]); entered(l); sim_probe(P_TIMEDTOO); critical(l, 1); if (d <= 0) break; }
		leaving(l); L[l]->leave();
		break;
	case OPEN:
		L[l]->enter(); entered(l);
		gate[l] = 1;
		C[l]->broadcast();
		leaving(l); L[l]->leave();
		break;
	case WORK: for (int i = 0; i < o.b; i++) sim_yield(); break;
	}
}
static void body_cond(ExecFn f)
{
	uint64_t base = sim_live_blocks();
	setup(1);
	for (int l = 0; l < NL; l++) { L[l] = new Latch; C[l] = new Condition; tickets[l] = 0; gate[l] = 0; if (!C[l]->ok()) sim_fail("not-ok", "Condition::ok() is false"); }
	h_run_actors(cfg_actors(), f);
	{ MODEL; for (int l = 0; l < NL; l++) if (waiting[l]) sim_fail("stranded", "%d threads still waiting", waiting[l]); }
	for (int l = 0; l < NL; l++) delete C[l];
	end_case(base);
}
static void body_t02() { body_cond(exec_t02); }
// Conditions 0 and 1 carry tickets (waiters are interchangeable there, so one signal per ticket suffices);
// condition 2 is a gate opened once by broadcast.
static void gen_t02(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.range(2, thorough ? 7 : 5); c.user[0] = n;
	sim_gen_sched(r, c, n); sim_gen_heap(r, c);
	c.race = RACE_PAYLOAD; c.step_budget = 600;
	if (r.pct(40)) c.p_spurious = 20 << r.below(5);
	int nc = r.range(1, 2); bool usegate = r.pct(35), timedtoo = r.pct(40); int givers = 1 + r.below(n-1);	// actors 0..givers-1 give
	int takes[2] = { 0, 0 };
	for (int f = givers; f < n; f++)
	{
		int k = r.range(1, thorough ? 6 : 4);
		for (int i = 0; i < k; i++) { int l = r.below(nc); takes[l]++; if (timedtoo && r.pct(40)) ops.push_back(mkop(f, TTAKE2, l, r.below(20))); else ops.push_back(mkop(f, TAKE, l, r.below(2), r.below(2))); }
		if (usegate && r.pct(60)) ops.push_back(mkop(f, timedtoo && r.pct(40) ? TGATE : GATE, 2, r.below(20)));
		if (r.pct(30)) ops.push_back(mkop(f, WORK, 0, r.range(1, 30)));
	}
	std::vector<SimOp> g;
	for (int l = 0; l < nc; l++)
		while (takes[l] > 0)
		{
			int f = r.below(givers);
			if (r.pct(25)) { int k = r.range(1, takes[l]); takes[l] -= k; g.push_back(mkop(f, GIVEALL, l, k, r.below(2))); }
			else { takes[l]--; g.push_back(mkop(f, GIVE, l, r.below(2), r.below(4))); }
			if (r.pct(30)) g.push_back(mkop(f, WORK, 0, r.range(1, 40)));
		}
	if (usegate) g.push_back(mkop(r.below(givers), OPEN, 2));
	for (size_t i = g.size(); i > 1; i--) std::swap(g[i-1], g[r.below((int)i)]);
	ops.insert(ops.end(), g.begin(), g.end());
}

// ---------------------------------------------------------------- T03
static long delays(int k)
{
	static const long d[] = { 0, 1, 2, 3, 7, 10, 50, 100, 250, 499, 500, 501, 999, 1000, 1001, 1500, 1999, 2000, 5003, 60000, 3600000, -1, 86400000L*30 };
	return d[k % (int)(sizeof(d)/sizeof(*d))];
}
#define SLACK_NS 60000000ULL
static int precise() { return sim_cfg->p_jump == 0 && !sim_cfg->tick; }
static void timed(int l, long& d, bool signalled_possible)
{
	long asked = d; uint64_t t0 = sim_now_ns(); int sp = sim_last_fault_count(SF_SPURIOUS);
	leaving(l);
	C[l]->wait(d, L[l]);
	entered(l);
	uint64_t e = sim_now_ns() - t0;
	MODEL;
	long eff = asked < 0 ? 0 : asked;
	if (!signalled_possible && e < (uint64_t)eff*1000000ULL && sp == sim_last_fault_count(SF_SPURIOUS))
		sim_fail("timed-wait-early", "a timed wait of %ld ms that nobody signalled returned after %.3f ms", asked, e*1e-6);
	if (d < 0) sim_fail("timed-wait", "delay %ld became negative (%ld)", asked, d);
	if (d > eff) sim_fail("timed-wait", "delay %ld became larger (%ld)", asked, d);
	if (d == 0 && e < (uint64_t)eff*1000000ULL && !(signalled_possible && e + 1000000ULL >= (uint64_t)eff*1000000ULL))
		sim_fail("timed-wait-short", "a timed wait of %ld ms reported no time left after %.3f ms", asked, e*1e-6);
	// never less than what is left counting from the call to the return
	if ((uint64_t)d*1000000ULL + e < (uint64_t)eff*1000000ULL)
		sim_fail("timed-wait-short", "a timed wait of %ld ms woken after %.3f ms left only %ld ms", asked, e*1e-6, d);
	if (precise() && (uint64_t)d*1000000ULL + e > (uint64_t)eff*1000000ULL + SLACK_NS)
		sim_fail("timed-wait-long", "a timed wait of %ld ms returned after %.3f ms with %ld ms left", asked, e*1e-6, d);
	sim_probe(d == 0 ? P_TIMEOUT : P_EARLY);
}
static void exec_t03(int, const SimOp& o)
{
	int l = o.a % NL;
	switch (o.code)
	{
	case TWAIT:	// nobody signals condition 2; spurious wake-ups are possible, so repeat until the time is up
	{
		l = 2; long d = delays(o.b), want = d < 0 ? 0 : d; uint64_t t0 = sim_now_ns(); int n = 0;
		L[l]->enter(); entered(l);
		uint64_t t1 = sim_now_ns();
		do { if (n++) sim_probe(P_REPEAT); timed(l, d, false); if (o.c & 1) check_holding(l, "after timed wait"); critical(l, 1); } while (d > 0 && n < 200);
		uint64_t e = sim_now_ns() - t1; (void)t0;
		if (n < 200 && e < (uint64_t)want*1000000ULL) sim_fail("timed-wait-short", "repeating a timed wait of %ld ms took %.3f ms in total", want, e*1e-6);
		if (n < 200 && precise() && e > (uint64_t)want*1000000ULL + SLACK_NS) sim_fail("timed-wait-long", "repeating a timed wait of %ld ms took %.3f ms in total", want, e*1e-6);
		leaving(l); L[l]->leave();
		break;
	}
	case TTAKE:	// wait for a ticket, at most so long
	{
		l %= 2; long d = delays(o.b), want = d < 0 ? 0 : d; int n = 0; bool got = false, signalled = true;
		L[l]->enter(); entered(l);
		uint64_t t1 = sim_now_ns();
		for (;;)
		{
			if (tickets[l] > 0) { tickets[l]--; got = true; if (n && d == 0) sim_probe(P_BOTH); break; }
			if (n && d <= 0) break;
			if (n++) sim_probe(P_REPEAT);
			timed(l, d, signalled);
			critical(l, 1);
		}
		uint64_t e = sim_now_ns() - t1;
		if (!got && e < (uint64_t)want*1000000ULL) sim_fail("timed-wait-short", "gave up waiting after %.3f of %ld ms", e*1e-6, want);
		leaving(l); L[l]->leave();
		break;
	}
	case TAKE: case GIVE: case GIVEALL: case WORK: exec_t02(0, o); break;
	case SLEEP: { struct timespec t = { o.b/1000, (o.b%1000)*1000000L }; nanosleep(&t, 0); break; }
	}
}
static void body_t03() { body_cond(exec_t03); }
static void gen_t03(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.range(1, thorough ? 6 : 4); c.user[0] = n;
	sim_gen_sched(r, c, n); sim_gen_heap(r, c);
	c.race = RACE_OFF; c.step_budget = 600;
	if (r.pct(40)) c.p_spurious = 8 << r.below(5);
	if (r.pct(25)) c.p_jump = 20 << r.below(5);
	if (r.pct(40)) c.p_step = 10 << r.below(6);
	if (r.pct(35)) c.tick = r.pct(70) ? 1000000 : r.pct(50) ? 10000000 : 250000;
	int takes[2] = { 0, 0 }, mx[2] = { 0, 0 };
	for (int f = 0; f < n; f++)
	{
		int k = r.range(1, thorough ? 6 : 4);
		for (int i = 0; i < k; i++)
		{
			int l = r.below(2);
			switch (r.below(n > 1 ? 6 : 2))
			{
			case 0: case 1: ops.push_back(mkop(f, TWAIT, 2, r.below(23), r.below(2))); break;
			case 2: case 3: if (f) { mx[l]++; ops.push_back(mkop(f, TTAKE, l, r.below(23))); } break;
			case 4: if (f) { takes[l]++; ops.push_back(mkop(f, TAKE, l, 0, r.below(2))); } break;
			case 5: ops.push_back(mkop(f, SLEEP, 0, r.range(0, 1200))); break;
			}
		}
	}
	// thread 0 gives one ticket per taker, timed or not, so that no untimed taker can be left without
	for (int l = 0; l < 2; l++)
		for (int i = takes[l] + mx[l]; i > 0; i--)
		{
			if (r.pct(60)) ops.push_back(mkop(0, SLEEP, 0, r.pct(50) ? r.range(0, 20) : r.range(0, 2500)));
			ops.push_back(mkop(0, r.pct(80) ? GIVE : GIVEALL, l, 1, r.below(4)));
		}
}
const SimProp sim_props[] = {
	{ "T01", gen_t01, body_t01, opname, probes },
	{ "T02", gen_t02, body_t02, opname, probes },
	{ "T03", gen_t03, body_t03, opname, probes },
	{ 0, 0, 0, 0, 0 }
};
