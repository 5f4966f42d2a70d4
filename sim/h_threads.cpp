// T04..T09: Thread, its registry, join, joinAny, start failure, yield. Links the real lockfree, condition and thread.
#include "harness.h"
#include <thread.h>
#include <condition.h>

enum { START, JOIN, JOINANY, DELETE, CURRENT, PAUSE, WORK, RAW, FOREIGN, DROP, NCODE };
static const char* const names[] = { "start", "join", "joinAny", "delete", "check_current", "yield", "work", "raw_thread", "foreign_thread", "delete_unjoined" };
static const char* opname(int c) { return c >= 0 && c < NCODE ? names[c] : "dropped"; }
enum { P_JOINED, P_JOIN_WAITED, P_REAPED, P_REAP_WAITED, P_REAP_NULL, P_JOIN_RACED, P_REFUSED, P_DELETED_EARLY, P_CUR_IN_RUN, P_CUR_RAW, P_CUR_MAIN, P_NESTED, P_YIELD0, P_YIELD, P_EINTR, P_TWO_REAPERS, P_DROPPED };
static const char* const probes[] = { "T04,T05,T06,T07,T09:join_returned", "T04:join_had_to_wait", "T04,T05,T06,T07,T09:joinAny_reported", "T05:joinAny_had_to_wait", "T05,T07:joinAny_null", "T04,T05,T09:join_overlapped_joinAny", "T07:start_refused", "T04,T06:deleted_while_others_run",
	"T06:current_inside_run", "T06:current_in_unregistered_thread", "T06:current_in_main", "T04,T05,T06,T07,T09:started_by_a_worker", "T08:yield_0", "T08:yield_ms", "T08:yield_interrupted", "T05:two_threads_in_joinAny", "T05,T06,T09:destroyed_without_being_joined", 0 };

#define MAXT 14
enum GState { G_NONE, G_STARTING, G_STARTED, G_REFUSED };
class Worker;
static struct Ghost {
	Worker* obj; GState st; int runs; bool in_run, ended; int reported; int joins_in; bool deleted; bool start_called; int joined_done; bool by_any;
} G[MAXT];
static int reapers_in;			// calls of joinAny in progress
static int dropping;			// destroying a Thread that ended and that nobody joined (joinAny could return it meanwhile)
static uint64_t base_live;

// What joinAny reports is T05's matter (and T06's, T07's); elsewhere such a run is given up without a verdict
#define jfail(...) do { int w_ = sim_cfg->user[7]; if (w_ == 5 || w_ == 6 || w_ == 7) sim_fail(__VA_ARGS__); sim_abandon(); } while (0)
#define lfail(...) do { if (sim_cfg->user[7] == 9) sim_fail(__VA_ARGS__); sim_abandon(); } while (0)
static void exec(int actor, const SimOp& o);
static void check_current(Worker* self);
class Worker : public Thread
{
public:
	int	k;
	long	data[4];
	Worker(int n) : k(n) { for (int i = 0; i < 4; i++) data[i] = 0; }
	int	run();
	bool	has_ended() const { return state == Ended; }
};
int Worker::run()
{
	{
		MODEL;
		if (!G[k].start_called) sim_fail("ran-unstarted", "run() of thread %d executes although it was not started", k);
		if (G[k].runs++) sim_fail("ran-twice", "run() of thread %d executes a second time", k);
		if (G[k].deleted) sim_fail("ran-deleted", "run() of a destroyed Thread");
		if (G[k].st == G_REFUSED) sim_fail("ran-refused", "run() of a thread whose creation was refused");
		G[k].in_run = true;
	}
	for (int i = 0; i < 4; i++) data[i] = 100 + k*10 + i;
	if (sim_cfg->user[2]) check_current(this);
	h_run_ops(k);
	if (sim_cfg->user[2]) check_current(this);
	for (int i = 0; i < 4; i++) data[i] += 1000;
	{ MODEL; G[k].in_run = false; G[k].ended = true; }
	return k;
}
static void check_current(Worker* self)
{
	Thread* c = Thread::current();
	if (c != self) sim_fail("current", "current() inside run() of thread %d is %s", self->k, c ? "another Thread" : "null");
	if (self->id() != Thread::currentId()) sim_fail("current", "id() differs from currentId() inside run() of thread %d", self->k);
	sim_probe(P_CUR_IN_RUN);
}
static Thread* main_obj;
static void check_data(int k, const char* by)
{
	Worker* w = G[k].obj;
	for (int i = 0; i < 4; i++)
		if (w->data[i] != 1100 + k*10 + i) sim_fail("not-visible", "data written by thread %d is not there after %s: %ld", k, by, w->data[i]);
}
static void* raw_main(void*)
{
	Thread* c = Thread::current();
	if (c) sim_fail("current", "current() in a thread the library did not start is not null");
	if (Thread::main() != main_obj) sim_fail("main", "main() changed");
	sim_probe(P_CUR_RAW);
	return 0;
}
static void plain_main(void*) { raw_main(0); }
static uint64_t slack() { return 60000000ULL; }

static void exec(int actor, const SimOp& o)
{
	int k = o.a % MAXT;
	switch (o.code)
	{
	case START:
	{
		{ MODEL; if (k < 1 || G[k].st != G_NONE) break; G[k].st = G_STARTING; }
		Worker* w = new Worker(k);
		sim_payload(w->data, sizeof(w->data));
		uint32_t refused;
		{ MODEL; G[k].obj = w; G[k].start_called = true; refused = sim_refused(); if (actor) sim_probe(P_NESTED); }
		w->resume();
		{
			MODEL;
			if (sim_refused() != refused) { G[k].st = G_REFUSED; sim_probe(P_REFUSED); if (G[k].runs) sim_fail("ran-refused", "run() executed although the thread's creation was refused"); }
			else G[k].st = G_STARTED;
		}
		break;
	}
	case JOIN:
	{
		Worker* w; int over;
		{
			MODEL;
			// A join is made once per thread, not by the thread itself, not once it has been reported
			if (k < 1 || k == actor || G[k].st != G_STARTED || G[k].reported || G[k].joins_in || G[k].deleted) break;
			w = G[k].obj; G[k].joins_in++; over = reapers_in;
			if (over) sim_probe(P_JOIN_RACED);
		}
		uint32_t b = sim_blocked();
		w->join();
		{
			MODEL; sim_probe(P_JOINED); if (b != sim_blocked()) sim_probe(P_JOIN_WAITED);
			if (!G[k].ended) sim_fail("join-early", "join() returned before run() of thread %d had returned", k);
		}
		check_data(k, "join");
		bool del = false;
		{ MODEL; G[k].joins_in--; G[k].joined_done++; G[k].reported++; if (o.b & 1) { del = !G[k].deleted && !reapers_in && !G[k].joins_in; if (del) { G[k].deleted = true; sim_probe(P_DELETED_EARLY); } } }
		if (del) delete w;
		break;
	}
	case JOINANY:
	{
		// Workers that all wait for each other would never finish by design: one worker at a time, not while it is joined
		bool before[MAXT], done_before[MAXT]; int others;
		{
			MODEL;
			if (dropping) break;
			if (actor && reapers_in > (sim_cfg->user[3] ? 1 : 0)) break;
			if (actor && sim_cfg->user[4] != actor) break;
			others = reapers_in++;
			if (others) sim_probe(P_TWO_REAPERS);
			for (int i = 0; i < MAXT; i++) before[i] = G[i].st == G_STARTED && !G[i].reported && i != actor, done_before[i] = G[i].reported != 0;
		}
		uint32_t b = sim_blocked();
		Thread* t = Thread::joinAny();
		int found = -1;
		{
			MODEL;
			reapers_in--;
			if (b != sim_blocked()) sim_probe(P_REAP_WAITED);
			if (!t)
			{
				sim_probe(P_REAP_NULL);
				int left = 0, joins = 0, which = 0;
				for (int i = 0; i < MAXT; i++) { if (before[i] && !G[i].reported) { left++; which = i; joins += G[i].joins_in != 0; } }
				if (left - joins > reapers_in) jfail("joinAny-null", "joinAny() returned null while %d thread(s) such as %d remain unreported", left, which);
				break;
			}
			for (int i = 1; i < MAXT; i++) if (G[i].obj == t && !G[i].deleted) found = i;
			if (found < 0)
			{
				if (t == main_obj) jfail("joinAny-unknown", "joinAny() returned the main thread");
				jfail("joinAny-unknown", "joinAny() returned an object that is not a live Thread");
			}
			if (found == actor) jfail("joinAny-self", "joinAny() returned the calling thread");
			if (G[found].st == G_REFUSED) jfail("joinAny-refused", "joinAny() returned a thread that could not be started");
			if (!G[found].ended) jfail("joinAny-early", "joinAny() returned thread %d whose run() has not returned", found);
			// (a join() that overlaps this call may report the same thread: it waits for that thread whoever reaps it)
			if (done_before[found] || G[found].by_any) jfail("joinAny-twice", "joinAny() reported thread %d, which had been reported before", found);
			G[found].reported++; G[found].by_any = true; G[found].joins_in++;
			sim_probe(P_REAPED);
		}
		check_data(found, "joinAny");
		bool del = false;
		{ MODEL; G[found].joins_in--; if (o.b & 1) { del = !G[found].deleted && !reapers_in && !G[found].joins_in; if (del) { G[found].deleted = true; sim_probe(P_DELETED_EARLY); } } }
		if (del) delete G[found].obj;
		break;
	}
	case DELETE:
	{
		Worker* w;
		{ MODEL; if (k < 1 || G[k].deleted || G[k].joins_in || !(G[k].st == G_REFUSED || (G[k].reported && G[k].ended))) break; if (G[k].st != G_REFUSED && reapers_in) break; G[k].deleted = true; w = G[k].obj; }
		delete w;
		break;
	}
	case DROP:
	{
		Worker* w;
		{ MODEL; if (k < 1 || k == actor || G[k].deleted || G[k].joins_in || reapers_in || G[k].st != G_STARTED || G[k].reported || !G[k].ended || !G[k].obj->has_ended()) break; G[k].reported++; G[k].deleted = true; dropping++; w = G[k].obj; sim_probe(P_DROPPED); }
		delete w;
		{ MODEL; dropping--; }
		break;
	}
	case CURRENT:
	{
		if (Thread::main() != main_obj) sim_fail("main", "main() is not the initial thread's object");
		if (Thread::main()->id() != (ThreadId)0x7f5400000740ULL) sim_fail("main", "main()->id() is not the initial thread's identifier");
		if (actor) { Worker* w; { MODEL; w = G[actor].obj; } check_current(w); }
		else { if (Thread::currentId() != main_obj->id()) sim_fail("main", "currentId() in main is not main()->id()"); Thread* c = Thread::current(); if (c && c != main_obj) sim_fail("current", "current() in main is some other Thread"); sim_probe(P_CUR_MAIN); }
		break;
	}
	case PAUSE:
	{
		static const unsigned long ms[] = { 0, 1, 2, 5, 10, 40, 100, 250, 999, 1000, 1001, 1999, 2500, 60000, 3600000 };
		unsigned long m = ms[o.b % 15];
		uint64_t t0 = sim_now_ns(); int ei = sim_last_fault_count(SF_EINTR);
		Thread::yield(m);
		uint64_t e = sim_now_ns() - t0;
		MODEL;
		sim_probe(m ? P_YIELD : P_YIELD0);
		if (sim_last_fault_count(SF_EINTR) != ei) sim_probe(P_EINTR);
		if (e < m*1000000ULL) sim_fail("yield-short", "yield(%lu) returned after %.3f ms", m, e*1e-6);
		if (!sim_cfg->p_jump && !sim_cfg->tick && e > m*1000000ULL + slack()) sim_fail("yield-long", "yield(%lu) returned after %.3f ms", m, e*1e-6);
		break;
	}
	case WORK: for (int i = 0; i < o.b; i++) sim_yield(); break;
	case RAW:
	{
		pthread_t t; if (pthread_create(&t, 0, raw_main, 0)) break;
		pthread_join(t, 0);
		break;
	}
	case FOREIGN: sim_join(sim_spawn(plain_main, 0)); break;
	}
}
static void epilogue()
{
	// main waits for everything that is left
	SimOp o = mkop(0, JOINANY);
	for (int i = 0; i < 3*MAXT; i++)
	{
		for (;;) { int d; { MODEL; d = dropping; } if (!d) break; sim_stall(1); }
		int r = 0; { MODEL; for (int k = 1; k < MAXT; k++) r += G[k].st == G_STARTED && !G[k].reported; }
		exec(0, o);
		bool more = false; { MODEL; int r2 = 0; for (int k = 1; k < MAXT; k++) r2 += (G[k].st == G_STARTED || G[k].st == G_STARTING) && !G[k].reported; more = r2 != 0; } (void)r;
		if (!more) break;
		// a thread another one is joining may be on its way to being reported: let it
		sim_stall(1);
	}
	exec(0, o);
}
static void body_threads()
{
	base_live = sim_live_blocks();
	{ MODEL; main_obj = Thread::main(); memset(G, 0, sizeof(G)); dropping = 0; }
	if (!main_obj) sim_fail("main", "main() is null");
	h_exec = exec;
	h_run_ops(0);
	epilogue();
	Worker* del[MAXT]; int nd = 0;
	{
		MODEL;
		for (int k = 1; k < MAXT; k++)
		{
			if (G[k].st == G_STARTING) sim_fail("start-stuck", "thread %d was never started completely although its starter ended", k);
			if (G[k].st == G_REFUSED && G[k].runs) sim_fail("ran-refused", "thread %d ran though refused", k);
			if (G[k].st == G_STARTED)
			{
				if (G[k].runs != 1) sim_fail("run-count", "run() of thread %d executed %d times", k, G[k].runs);
				if (!G[k].ended) jfail("joinAny-null", "joinAny() returned null while thread %d was running", k);
				if (!G[k].reported) jfail("unreported", "thread %d ended but was never reported", k);
			}
			if (G[k].obj && !G[k].deleted) { del[nd++] = G[k].obj; G[k].deleted = true; }
		}
		if (sim_thread_unreclaimed()) lfail("thread-leak", "%u operating-system threads were neither joined nor detached after all threads were waited for", sim_thread_unreclaimed());
	}
	for (int i = 0; i < nd; i++) delete del[i];
	if (Thread::joinAny()) jfail("joinAny-unknown", "joinAny() returned something after every thread was reported and destroyed");
	if (sim_live_blocks() != base_live) { char b[300]; sim_describe_live(b, sizeof(b)); sim_fail("leak", "after all threads were destroyed: %s", b); }
	// afterwards the library behaves as if none had been started
	if (sim_cfg->user[5])
	{
		sim_alloc_faults(0);
		Worker* w = new Worker(MAXT-1);
		{ MODEL; G[MAXT-1] = Ghost(); G[MAXT-1].obj = w; G[MAXT-1].start_called = true; G[MAXT-1].st = G_STARTED; }
		uint32_t refused = sim_refused();
		w->resume();
		if (sim_refused() != refused) { if (Thread::joinAny()) jfail("joinAny-refused", "joinAny() reported a refused thread"); }
		else { Thread* t = Thread::joinAny(); if (t != w) jfail("joinAny-null", "joinAny() does not report the only thread"); { MODEL; if (!G[MAXT-1].ended) jfail("joinAny-early", "joinAny() returned before the end of run()"); } }
		delete w;
		if (Thread::joinAny()) jfail("joinAny-unknown", "joinAny() is not null at the very end");
		if (sim_thread_unreclaimed()) lfail("thread-leak", "a thread was not reclaimed");
	}
}
// user: [0] actors [2] check current() in run [3] second reaper allowed [4] worker that may call joinAny [5] one more thread at the end
static void gen_threads(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops, int which)
{
	int n = 2 + r.below(thorough ? 8 : 5); if (n > MAXT-2) n = MAXT-2;	// workers 1..n-1
	sim_gen_sched(r, c, n); sim_gen_heap(r, c);
	c.race = RACE_PAYLOAD; c.step_budget = 600;
	c.p_lateid = r.pct(50) ? 40 : 0;
	c.p_idreuse = r.pct(60) ? r.range(30, 100) : 0;
	if (r.pct(40)) c.p_spurious = 15 << r.below(6);
	if (r.pct(40)) c.p_eintr = 50;
	if (r.pct(20)) c.p_jump = 40 << r.below(5);
	if (which == 7) c.p_create = r.range(15, 80);
	c.user[7] = which; c.user[0] = n; c.user[2] = which == 6 || r.pct(30); c.user[5] = r.pct(50);
	if (which == 5 || which == 9 || r.pct(25)) { c.user[3] = 1; c.user[4] = 1 + r.below(n-1); }
	int joinpct = which == 4 ? 70 : which == 5 ? 25 : 45;
	int starter[MAXT]; 
	std::vector<SimOp> per[MAXT];
	for (int k = 1; k < n; k++) { starter[k] = r.pct(which == 7 ? 15 : 30) && k > 1 ? 1 + r.below(k-1) : 0; }
	// each thread's program
	for (int k = 1; k < n; k++) per[starter[k]].push_back(mkop(starter[k], START, k));
	for (int k = 0; k < n; k++)
	{
		int m = r.range(0, thorough ? 6 : 4); if (which == 9 && r.pct(40)) m += 4;
		for (int i = 0; i < m; i++)
		{
			SimOp o;
			switch (r.below(5))
			{
			case 0: o = mkop(k, PAUSE, 0, r.below(8)); break;
			case 1: o = mkop(k, WORK, 0, r.range(1, 25)); break;
			case 2: o = mkop(k, which == 6 || r.pct(30) ? CURRENT : WORK, 0, r.range(1, 8)); break;
			case 3: o = (which == 6 && r.pct(60)) ? mkop(k, r.pct(70) ? RAW : FOREIGN) : mkop(k, WORK, 0, 2); break;
			default: o = mkop(k, which != 4 && which != 7 && r.pct(60) ? DROP : DELETE, 1 + r.below(n-1)); break;
			}
			per[k].insert(per[k].begin() + r.below((int)per[k].size()+1), o);
		}
		// waits: joins go to higher-numbered threads only, so that they cannot form a cycle
		int w = r.range(0, thorough ? 5 : 3);
		for (int i = 0; i < w; i++)
		{
			SimOp o;
			if (r.pct(joinpct)) { if (k+1 >= n) continue; int t = r.range(k+1, n-1); if (k && t == c.user[4]) continue; o = mkop(k, JOIN, t, r.below(2)); }	// a worker in joinAny waits for its joiner
			else if (k == 0 || k == c.user[4]) o = mkop(k, JOINANY, 0, r.below(2));
			else continue;
			int lo = 0; for (size_t q = 0; q < per[k].size(); q++) if (per[k][q].code == START) { lo = (int)q+1; if (r.pct(50)) break; }
			per[k].insert(per[k].begin() + r.range(lo, (int)per[k].size()), o);
		}
	}
	if (which == 4 && r.pct(50)) for (int k = 1; k < n; k++) per[0].push_back(mkop(0, JOIN, k, r.below(2)));
	for (int k = 0; k < n; k++) ops.insert(ops.end(), per[k].begin(), per[k].end());
}
#define GEN(N) static void gen_t0##N(Rng& r, int th, SimConfig& c, std::vector<SimOp>& ops) { gen_threads(r, th, c, ops, N); }
GEN(4) GEN(5) GEN(6) GEN(7) GEN(9)
static void gen_t08(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = 1 + r.below(thorough ? 6 : 4); c.user[0] = n;
	sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_OFF; c.step_budget = 400;
	c.p_eintr = r.pct(80) ? r.range(10, 95) : 0;
	if (r.pct(30)) c.p_jump = 10 << r.below(5);
	if (r.pct(40)) c.p_step = 5 << r.below(5);
	if (r.pct(25)) c.tick = 1000000;
	for (int f = 0; f < n; f++)
	{
		int k = r.range(1, 6);
		for (int i = 0; i < k; i++) ops.push_back(r.pct(80) ? mkop(f, PAUSE, 0, r.below(15)) : mkop(f, WORK, 0, r.range(1, 30)));
	}
}
static void body_t08() { { MODEL; main_obj = Thread::main(); } h_run_actors(sim_cfg->user[0], exec); }
const SimProp sim_props[] = {
	{ "T04", gen_t04, body_threads, opname, probes },
	{ "T05", gen_t05, body_threads, opname, probes },
	{ "T06", gen_t06, body_threads, opname, probes },
	{ "T07", gen_t07, body_threads, opname, probes },
	{ "T08", gen_t08, body_t08, opname, probes },
	{ "T09", gen_t09, body_threads, opname, probes },
	{ 0, 0, 0, 0, 0 }
};
