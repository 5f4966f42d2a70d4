// Deterministic simulator for strpp: interface seen by harness code and by the runner.
// The core (core.cpp) is compiled without instrumentation; the library under test and the
// harness are compiled with -fsanitize=thread *instrumentation*, and linked with core.cpp
// instead of libtsan, so that every memory access and atomic operation comes here.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>

enum SimFault {			// kinds of fault/nondeterminism injected, counted per run
	SF_SWITCH, SF_ALLOC, SF_CREATE, SF_LATEID, SF_IDREUSE, SF_EINTR, SF_SPURIOUS, SF_STALL,
	SF_TIMEJUMP, SF_MUTEXPICK, SF_HEAPREUSE, SF_CHUNK, SF_DELAY, SF_TRUNC, SF_CORRUPT, SF_CLOCKSTEP, SF_USER1, SF_USER2, SF_USER3,
	SF_COUNT
};
extern const char* const sim_fault_names[SF_COUNT];

enum SimRaceMode { RACE_OFF = 0, RACE_PAYLOAD = 1, RACE_ALL = 2 };
enum SimSched { SCHED_NONE = 0, SCHED_RANDOM, SCHED_PCT, SCHED_COARSE, SCHED_STALL };

struct SimConfig {
	int32_t	sched;		// SimSched
	int32_t	sched_period;	// mean steps between switches (RANDOM/COARSE)
	int32_t	pct_depth, pct_len;
	int32_t	heap_reuse;	// 0 quarantine everything, 1 reuse freed blocks at once (LIFO)
	int32_t	fill;		// 0: 0xA5, 1: zero, 2: stale/random
	int32_t	race;		// SimRaceMode
	int32_t	p_spurious;	// 1/N per preemption point (0 = never)
	int32_t	p_jump;		// 1/N per preemption point: clock jumps to the next timer
	int32_t	p_lateid;	// percent
	int32_t	p_idreuse;	// percent
	int32_t	p_create;	// percent of thread creations refused
	int32_t	p_eintr;	// percent of sleeps interrupted
	int32_t	alloc_mode;	// 0 never fails; 1 single at alloc_n; 2 percent alloc_n; 3 from alloc_n on; 4 burst
	int32_t	alloc_n;
	int32_t	p_step;		// 1/N per synchronisation point: the wall clock is set forward or back
	int32_t	step_budget;	// in thousands
	int32_t	tick;		// the clock moves in steps of so many ns (0: 10 ns for each step taken)
	int32_t	user[8];	// harness-specific
};

struct SimOp { int32_t fiber, code, a, b, c, d, e, f; };

struct SimChoice { uint64_t key; int32_t value; int32_t pad; };

#define SIM_MAXCHOICE	200000
#define SIM_MAXPROBE	96
struct SimResult {		// filled in by the child, read by the parent (shared memory)
	volatile int32_t done;	// 1 = ran to the end
	int32_t		violated;
	char		kind[64];	// violation class
	char		msg[1200];
	uint64_t	steps, switches, simtime_ns;
	uint64_t	trace_hash, sched_hash;
	uint64_t	faults[SF_COUNT];
	uint32_t	probes[SIM_MAXPROBE];
	int32_t		abandoned;
	uint32_t	ops_done;
	uint32_t	allocs;
	uint32_t	max_fibers;
	uint32_t	comm_pairs;	// conflicting cross-thread access pairs seen in this run
	uint32_t	nchoices;
	int32_t		cur_fiber, cur_op;
	SimChoice	choices[SIM_MAXCHOICE];
};

#ifdef __cplusplus
extern "C" {
#endif
// ---- harness API (call inside a run) ----
extern volatile int sim_in_model;			// >0: callbacks return at once, allocations are real
void	sim_op(int index);			// the current fiber starts workload op <index>
int	sim_self(void);				// simulated thread number (0 = main)
int	sim_spawn(void (*fn)(void*), void* arg);	// start a plain simulated thread
void	sim_join(int fiber);			// wait for it (with happens-before edge)
void	sim_lock(int n);			// harness mutexes 0..15 (happens-before)
void	sim_unlock(int n);
void	sim_yield(void);			// explicit preemption point
void	sim_stall(int steps);			// let the others run that many switches
int	sim_choose(int fault_kind, int n, int percent);	// 0 unless injected: 0..n-1
uint64_t sim_rand(void);			// for workload-neutral data; recorded nowhere: use only in generators
void	sim_fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void	sim_expect_assert(int on);	// while on, an assertion that fails ends the run as sim_abandon does
void	sim_abandon(void) __attribute__((noreturn));	// end this run without a verdict (what went wrong is another property's matter)
void	sim_probe(int n);
uint64_t sim_now_ns(void);			// simulated time since boot
void	sim_alloc_faults(int on);		// per fiber: allocation failures may be injected now
int	sim_alloc_failed(void);			// allocation failures injected since the last call (this fiber)
void	sim_hash(uint64_t v);			// mix a value into the trace hash
uint64_t sim_live_blocks(void);
void	sim_describe_live(char* buf, int size);
void	sim_payload(void* p, size_t len);	// region checked in RACE_PAYLOAD mode
int	sim_is_heap(const void* p);
int	sim_check_range(const void* p, size_t len);	// 1 if the whole range is live (or not simulated heap)
void	sim_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint32_t sim_thread_unreclaimed(void);		// pthreads created and neither joined nor detached
uint32_t sim_threads_created(void);
uint32_t sim_blocked(void);			// times this thread has had to wait (mutex, condition, join, sleep)
uint32_t sim_refused(void);			// thread creations refused to this thread
int	sim_last_fault_count(int kind);
uint64_t sim_allocs(void);
void	sim_limit_steps(uint64_t more, const char* what);	// fail if this thread takes more than so many further steps in the current operation (0: no limit)
uint64_t sim_my_steps(void);			// steps this thread has taken in the current operation
uint64_t sim_my_bytes(void);			// bytes this thread has allocated so far
uint64_t sim_my_blocks(void);
void	sim_mark_peak(void);			// start looking for the largest number of live blocks
uint64_t sim_peak_blocks(void);
uint64_t sim_peak_bytes(void);			// and of live bytes
uint64_t sim_live_bytes(void);
extern const SimConfig* sim_cfg;
// ---- runner API ----
void	sim_child_run(const SimConfig* cfg, uint64_t seed, const SimChoice* fixed, int nfixed, int explicit_mode,
		int verbose, SimResult* res, void (*body)(void));	// never returns
void	sim_install(void);
#ifdef __cplusplus
}
#define SIM_FENCE asm volatile("" ::: "memory")
struct ModelScope { ModelScope() { SIM_FENCE; sim_in_model = sim_in_model + 1; SIM_FENCE; } ~ModelScope() { SIM_FENCE; sim_in_model = sim_in_model - 1; SIM_FENCE; } };
struct LibScope { int s; LibScope() { SIM_FENCE; s = sim_in_model; sim_in_model = 0; SIM_FENCE; } ~LibScope() { SIM_FENCE; sim_in_model = s; SIM_FENCE; } };
#endif
#endif
