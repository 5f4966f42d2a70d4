#ifndef RUNNER_H
#define RUNNER_H
#include "sim.h"
#include <vector>
#include <string>
struct Rng {	// generator for workloads
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
	int range(int a, int b) { return a + below(b-a+1); }
	bool pct(int p) { return below(100) < p; }
};
struct SimProp {
	const char* id;
	void (*gen)(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops);	// builds one case
	void (*body)(void);				// runs it (thread 0), using sim_ops/sim_nops
	const char* (*opname)(int code);
	const char* const* probes;			// names, null-terminated
};
extern const SimProp sim_props[];			// null id terminates; supplied by the harness
extern const SimOp* sim_ops; extern int sim_nops;	// the case being run
// helpers for generators
void sim_gen_sched(Rng& r, SimConfig& c, int nthreads);	// pick a schedule policy
void sim_gen_heap(Rng& r, SimConfig& c);
#endif
