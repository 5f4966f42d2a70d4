// Shared by the harness translation units (which are instrumented like the library).
#ifndef HARNESS_H
#define HARNESS_H
#include "runner.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define MODEL ModelScope model_scope_
typedef void (*ExecFn)(int actor, const SimOp& op);
static ExecFn h_exec;
static inline void h_run_ops(int actor)
{
	for (int i = 0; i < sim_nops; i++)
	{
		const SimOp* op;
		{ MODEL; op = &sim_ops[i]; if (op->fiber != actor || op->code < 0) continue; }
		sim_op(i);
		SimOp o; { MODEL; o = *op; }
		h_exec(actor, o);
	}
}
static inline void h_actor(void* a) { h_run_ops((int)(intptr_t)a); }
static inline void h_run_actors(int n, ExecFn f)
{
	int id[40];
	h_exec = f;
	for (int i = 1; i < n; i++) id[i] = sim_spawn(h_actor, (void*)(intptr_t)i);
	h_run_ops(0);
	for (int i = 1; i < n; i++) sim_join(id[i]);
}
static inline SimOp mkop(int fiber, int code, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0) { SimOp o = { fiber, code, a, b, c, d, e, f }; return o; }
#endif
