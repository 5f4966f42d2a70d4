// V15: objects of a program's own classes, counted by RefCounted and held by Ref, shared between simulated threads.
#include "harness.h"
#include <refcount.h>
#include <vector>
#include <new>
#define MAXA 5
#define NH 4	// handles per thread
#define NBOX 2
#define NSTATIC 2

enum { NEW, NEWSUB, COPY, ASSIGN, BYVALUE, CLEAR, SELF, LINK, UNLINK, NEXT, UNSHARE, UPCAST, RAW, READ, STATICOBJ, TEMP, SEND, RECV, SWAPBOX, CHAIN, PAUSE, LAST };
static const char* opname(int c)
{
	static const char* const n[] = { "new_object", "new_derived", "copy_handle", "assign_pointer", "pass_by_value", "clear_handle", "assign_to_itself", "link", "unlink", "follow_link", "unshare", "cast_handle", "add_and_release", "read", "static_object", "temporary_only", "send", "receive", "exchange", "chain", "pause" };
	return c < 0 ? "dropped" : c < LAST ? n[c] : "?";
}
enum { P_DIED, P_DIEDELSEWHERE, P_COPIED, P_NOTCOPIED, P_ALIAS, P_OOM, P_CHAIN, P_HANDOVER, P_STATIC, P_TWODROP, P_DERIVED };
static const char* const probes[] = { "V15:last_reference_dropped", "V15:dropped_by_another_thread_than_made_it", "V15:unshare_copied", "V15:unshare_kept_the_only_reference", "V15:handle_replaced_by_what_its_object_held", "V15:unshare_met_allocation_failure", "V15:chain_died_at_once", "V15:handed_to_another_thread", "V15:static_object_shared", "V15:two_threads_dropping_one_object", "V15:derived_object_died", 0 };

struct Ghost { int keep, pins, val, link, owner; bool dead, fixed, derived; };
static std::vector<Ghost> ob; static int nactors; static bool oom_mode;
static int current_actor() { return sim_self(); }
static void unpin(int id, const char* what)
{
	MODEL; if (id < 0) return;
	Ghost& o = ob[id];
	if (--o.pins == 0 && o.keep == 0 && !o.dead) sim_fail("not-freed", "%s: object %d is referred to by nothing any more, but was not destroyed", what, id);
}
struct Node : public RefCounted
{
	int id, val, pad[3]; Ref<Node> next;
	static int birth(int v, bool fixed, int link) { MODEL; Ghost g = { fixed ? 1 : 0, 0, v, link, current_actor(), false, fixed, false }; ob.push_back(g); if (link >= 0) ob[link].keep++; return (int)ob.size()-1; }
	static int link_of(int id) { MODEL; return ob[id].link; }
	Node(int v) : id(birth(v, false, -1)), val(v) {}
	Node(int v, bool) : RefCounted(1), id(birth(v, true, -1)), val(v) {}
	Node(const Node& n) : id(birth(n.val, false, link_of(n.id))), val(n.val), next(n.next) {}
	virtual ~Node()
	{
		int n;
		{
			MODEL; Ghost& o = ob[id];
			if (o.dead) sim_fail("destroyed-twice", "object %d is destroyed again", id);
			if (o.keep > 0) sim_fail("freed-too-early", "object %d is destroyed while %d reference%s still held", id, o.keep, o.keep == 1 ? " is" : "s are");
			o.dead = true; n = o.link; sim_probe(P_DIED); if (o.owner != current_actor()) sim_probe(P_DIEDELSEWHERE); if (o.derived) sim_probe(P_DERIVED); if (o.pins > 1) sim_probe(P_TWODROP);
			if (n >= 0) { ob[n].keep--; ob[n].pins++; sim_probe(P_CHAIN); }
		}
		val = -1; pad[0] = 0;
		next = (Node*)0;
		unpin(n, "destruction of what refers to it");
	}
};
struct Sub : public Node { int extra; Sub(int v) : Node(v), extra(v ^ 0x5555) { MODEL; ob[id].derived = true; } };

static char raw_h[MAXA][NH][sizeof(Ref<Node>)] __attribute__((aligned(16))), raw_s[MAXA][sizeof(Ref<Sub>)] __attribute__((aligned(16))), raw_b[NBOX][sizeof(Ref<Node>)] __attribute__((aligned(16))), raw_st[NSTATIC][sizeof(Node)] __attribute__((aligned(16)));
static Ref<Node>& H(int a, int i) { return *(Ref<Node>*)raw_h[a][i]; }
static Ref<Sub>& SB(int a) { return *(Ref<Sub>*)raw_s[a]; }
static Ref<Node>& B(int k) { return *(Ref<Node>*)raw_b[k]; }
static Node& ST(int k) { return *(Node*)raw_st[k]; }
static int gh[MAXA][NH], gs[MAXA], gb[NBOX];

static void take(int id) { MODEL; if (id >= 0) ob[id].keep++; }
static void drop(int id) { MODEL; if (id >= 0) { ob[id].keep--; ob[id].pins++; } }
static Ref<Node> through(Ref<Node> r) { return r; }
static void check_one(const Ref<Node>& r, int id, const char* what)
{
	bool has = (bool)r; Node* p = r;
	{ MODEL; if (has != (p != 0) || has != (id >= 0)) sim_fail("wrong-object", "%s: the handle is %s, but should be %s", what, has ? "set" : "empty", id >= 0 ? "set" : "empty"); if (!has) return; if (ob[id].dead || !sim_check_range(p, sizeof(Node))) sim_fail("freed-too-early", "%s: object %d was destroyed although it is referred to", what, id); }
	int i = r->id, v = (*r).val, e = 0; bool d; { MODEL; d = ob[i < 0 || i >= (int)ob.size() ? 0 : i].derived; } if (d) e = ((Sub*)p)->extra;
	int n = nactors == 1 ? r->GetRefCount() : 0;
	MODEL;
	if (i != id || v != ob[id].val || (d && e != (e & 0xFFFFFF))) sim_fail("wrong-object", "%s: the handle leads to object %d with the value %d, not to %d with %d", what, i, v, id, ob[id].val);
	if (nactors == 1 && n != ob[id].keep) sim_fail("wrong-count", "%s: object %d has %d references, but its count is %d", what, id, ob[id].keep, n);
}
static void exec(int A, const SimOp& op)
{
	int a = op.a % NH, b = op.b % NH, k = op.c % NBOX; const char* nm; { MODEL; nm = opname(op.code); }
	int old = gh[A][a];
	switch (op.code)
	{
	case NEW:
	{
		drop(old); int id;
		if (op.d & 1) { Node* p = new Node(op.e); id = p->id; take(id); H(A,a) = p; } else { Ref<Node> t(new Node(op.e)); id = t->id; take(id); H(A,a) = t; }
		gh[A][a] = id; unpin(old, nm); break;
	}
	case NEWSUB: { int was = gs[A]; drop(was); Sub* p = new Sub(op.e & 0xFFFF); int id = p->id; take(id); SB(A) = p; gs[A] = id; unpin(was, nm); break; }
	case UPCAST:
	{
		int id = gs[A]; take(id); drop(old);
		if (op.d & 1) H(A,a) = SB(A).Cast<Node>(); else if (op.d & 2) { Node* p = SB(A); H(A,a) = p; } else { Ref<Node> t((Node*)(Sub*)SB(A)); H(A,a) = t; }
		gh[A][a] = id; unpin(old, nm); break;
	}
	case COPY: { int id = gh[A][b]; take(id); drop(old); if (op.d & 1) H(A,a) = H(A,b); else { Ref<Node> t(H(A,b)); H(A,a) = t; } gh[A][a] = id; unpin(old, nm); check_one(H(A,b), gh[A][b], nm); break; }
	case ASSIGN: { int id = gh[A][b]; take(id); drop(old); Node* p = H(A,b); H(A,a) = p; gh[A][a] = id; unpin(old, nm); break; }
	case BYVALUE: { int id = gh[A][b]; take(id); drop(old); H(A,a) = through(H(A,b)); gh[A][a] = id; unpin(old, nm); break; }
	case CLEAR: { drop(old); if (op.d & 1) H(A,a) = (Node*)0; else H(A,a) = Ref<Node>(); gh[A][a] = -1; unpin(old, nm); break; }
	case SELF: { take(old); drop(old); if (op.d & 1) { Ref<Node>& r = H(A,a); H(A,a) = r; } else H(A,a) = (Node*)H(A,a); unpin(old, nm); break; }
	case TEMP: { if (op.d & 1) { int id; { Ref<Node> t(new Node(op.e)); id = t->id; take(id); Ref<Node> u(t), v; v = u; t = H(A,a); take(old); u = t; take(old); drop(id); v = (Node*)0; unpin(id, nm); drop(old); drop(old); } unpin(old, nm); unpin(old, nm); } else { take(old); { Ref<Node> t(H(A,a)); Ref<Node> u = through(t); drop(old); } unpin(old, nm); } break; }
	case LINK: case UNLINK:
	{
		int id = op.code == LINK ? gh[A][b] : -1, was; bool ok;
		{ MODEL; ok = old >= 0 && !ob[old].fixed && ob[old].keep == 1 && id != old; }
		if (!ok || H(A,a).GetRefCount() != 1) break;	// (the count may still be on its way down, and tells when it has got there)
		{ MODEL; was = ob[old].link; } take(id); drop(was); { MODEL; ob[old].link = id; }
		if (op.code == LINK) H(A,a)->next = H(A,b); else H(A,a)->next = (Node*)0;
		unpin(was, nm); break;
	}
	case NEXT:
	{
		int from = gh[A][b]; if (from < 0) break;
		int id; { MODEL; id = ob[from].link; if (a == b && id >= 0) sim_probe(P_ALIAS); }
		take(id); drop(old); if (op.d & 1) H(A,a) = H(A,b)->next; else H(A,a) = (Node*)H(A,b)->next; gh[A][a] = id; unpin(old, nm); break;
	}
	case UNSHARE:
	{
		if (old < 0) { H(A,a).Unshare(); break; }
		int v; { MODEL; v = ob[old].val; } drop(old); bool oom = false; bool only; { MODEL; only = ob[old].keep == 0 && ob[old].pins == 1; } bool faults = oom_mode && (op.d & 2);
		if (faults) { MODEL; sim_alloc_failed(); sim_alloc_faults(1); }
		try { H(A,a).Unshare(); } catch (const std::bad_alloc&) { oom = true; }
		int failed = 0; if (faults) { MODEL; sim_alloc_faults(0); failed = sim_alloc_failed(); if (oom) sim_probe(P_OOM); }
		int id; { MODEL; if (!(Node*)H(A,a)) sim_fail("wrong-object", "%s: the handle has become empty", nm); if (oom != (failed > 0)) sim_fail("bad-alloc", "%s: %d allocations failed, but bad_alloc was%s thrown", nm, failed, oom ? "" : " not"); }
		id = H(A,a)->id; take(id); gh[A][a] = id;
		{
			MODEL; if (oom && id != old) sim_fail("wrong-object", "%s failed, but the handle leads elsewhere", nm);
			if (!oom && (ob[id].keep != 1 || ob[id].fixed)) sim_fail("still-shared", "after unshare object %d is referred to %d times", id, ob[id].keep);
			if (only && id != old) sim_fail("needless-copy", "unshare copied object %d, which nothing else referred to", old);
			if (ob[id].val != v) sim_fail("wrong-object", "the copy that unshare made has the value %d, not %d", ob[id].val, v);
			sim_probe(id != old ? P_COPIED : P_NOTCOPIED);
		}
		unpin(old, nm);
		if (!oom && op.d & 1) { H(A,a)->val = op.e; MODEL; ob[id].val = op.e; }
		break;
	}
	case RAW:
	{
		if (old < 0) break;
		Node* p = H(A,a); p->AddRef(); take(old);
		drop(old); H(A,a) = H(A,b == a ? (a+1) % NH : b); int id = gh[A][b == a ? (a+1) % NH : b]; take(id); gh[A][a] = id; unpin(old, nm);
		int v = p->val; { MODEL; if (ob[old].dead || v != ob[old].val) sim_fail("freed-too-early", "object %d reads as %d, not %d, although a reference was added", old, v, ob[old].val); }
		drop(old); p->Release(); unpin(old, nm); break;
	}
	case STATICOBJ: { int s = op.c % NSTATIC; { MODEL; sim_probe(P_STATIC); } take(s); drop(old); H(A,a) = &ST(s); gh[A][a] = s; unpin(old, nm); break; }
	case CHAIN:
	{	// a chain of new objects
		drop(old); int n = 2 + op.e % 20, id = -1;
		{ Ref<Node> head; for (int i = 0; i < n; i++) { Node* p = new Node(op.e + i); int x = p->id; take(x); { MODEL; ob[x].link = id; if (id >= 0) { ob[id].keep++; } } p->next = head; { if (id >= 0) drop(id); } head = p; if (id >= 0) unpin(id, nm); id = x; } take(id); H(A,a) = head; drop(id); }
		unpin(id, nm); gh[A][a] = id; unpin(old, nm); break;
	}
	case SEND: { sim_lock(k); int was = gb[k], id = gh[A][a]; take(id); drop(was); B(k) = H(A,a); gb[k] = id; unpin(was, nm); sim_unlock(k); break; }
	case RECV: { sim_lock(k); int id = gb[k]; { MODEL; if (id >= 0 && ob[id].owner != current_actor()) sim_probe(P_HANDOVER); } take(id); drop(old); H(A,a) = B(k); gh[A][a] = id; unpin(old, nm); sim_unlock(k); break; }
	case SWAPBOX: { sim_lock(k); Ref<Node> t(B(k)); int id = gb[k]; take(id); drop(id); B(k) = H(A,a); take(old); gb[k] = old; unpin(id, nm); drop(old); H(A,a) = t; take(id); gh[A][a] = id; unpin(old, nm); t = (Node*)0; drop(id); unpin(id, nm); sim_unlock(k); break; }
	case PAUSE: sim_stall(1 + op.e % 40); break;
	}
	check_one(H(A,a), gh[A][a], nm);
	if (op.code == READ || op.f) for (int i = 0; i < NH; i++) check_one(H(A,i), gh[A][i], nm);
	if (op.code == NEWSUB) { Ref<Node> t((Node*)(Sub*)SB(A)); take(gs[A]); check_one(t, gs[A], nm); t = Ref<Node>(); drop(gs[A]); unpin(gs[A], nm); }
}
static void finish_actor(int A)
{
	for (int i = 0; i < NH; i++) { drop(gh[A][i]); H(A,i).~Ref<Node>(); unpin(gh[A][i], "a handle's destructor"); }
	drop(gs[A]); SB(A).~Ref<Sub>(); unpin(gs[A], "a handle's destructor");
}
static void actor(void* p) { int A = (int)(intptr_t)p; h_run_ops(A); finish_actor(A); }
static void body()
{
	{ MODEL; nactors = sim_cfg->user[0]; oom_mode = sim_cfg->alloc_mode; ob.clear(); ob.reserve(20000); }
	uint64_t base = sim_live_blocks();
	for (int k = 0; k < NSTATIC; k++) new (raw_st[k]) Node(1000 + k, true);
	for (int k = 0; k < NBOX; k++) { new (raw_b[k]) Ref<Node>(new Node(k)); gb[k] = B(k)->id; take(gb[k]); }
	for (int A = 0; A < nactors; A++) { for (int i = 0; i < NH; i++) { new (raw_h[A][i]) Ref<Node>(); gh[A][i] = -1; if (i < 2) { take(gb[i % NBOX]); H(A,i) = B(i % NBOX); gh[A][i] = gb[i % NBOX]; } } new (raw_s[A]) Ref<Sub>(); gs[A] = -1; }
	int id[MAXA]; h_exec = exec;
	for (int A = 1; A < nactors; A++) id[A] = sim_spawn(actor, (void*)(intptr_t)A);
	actor((void*)0);
	for (int A = 1; A < nactors; A++) sim_join(id[A]);
	for (int k = 0; k < NBOX; k++) { drop(gb[k]); B(k).~Ref<Node>(); unpin(gb[k], "the last handle's destructor"); }
	for (int k = 0; k < NSTATIC; k++) { int n = ST(k).GetRefCount(); MODEL; if (n != 1 || ob[k].dead) sim_fail("wrong-count", "static object %d is left with %d references, not its own", k, n); }
	{ MODEL; for (size_t i = 0; i < ob.size(); i++) if (!ob[i].fixed && !ob[i].dead) sim_fail("not-freed", "object %d was never destroyed", (int)i); }
	if (sim_live_blocks() != base) { char t[300]; sim_describe_live(t, sizeof(t)); sim_fail("leak", "after everything was dropped: %s", t); }
}
static void gen(Rng& r, int thorough, SimConfig& c, std::vector<SimOp>& ops)
{
	int n = r.pct(25) ? 1 : 2 + r.below(MAXA-1);
	c.user[0] = n; sim_gen_sched(r, c, n); sim_gen_heap(r, c); c.race = RACE_ALL; c.step_budget = 2000;
	if (r.pct(15)) { c.alloc_mode = 1 + r.below(4); c.alloc_n = c.alloc_mode == 2 ? r.range(1, 60) : r.range(1, 10); }
	int len = thorough ? 40 : 22, focus = r.pct(50) ? 2 : NH;
	static const uint8_t mix[] = { NEW, NEW, NEWSUB, COPY, COPY, COPY, ASSIGN, BYVALUE, CLEAR, CLEAR, SELF, LINK, LINK, UNLINK, NEXT, NEXT, UNSHARE, UNSHARE, UNSHARE, UPCAST, RAW, READ, STATICOBJ, TEMP, TEMP, SEND, SEND, RECV, RECV, SWAPBOX, CHAIN, PAUSE };
	for (int A = 0; A < n; A++)
		for (int i = 0, k = 1 + r.below(len); i < k; i++)
			ops.push_back(mkop(A, mix[r.below(sizeof(mix))], r.below(focus), r.below(focus), r.below(4), r.below(4), r.below(1000), r.pct(20)));
}
const SimProp sim_props[] = { { "V15", gen, body, opname, probes }, { 0, 0, 0, 0, 0 } };
