/* A plan is one fully determined simulated execution: the tasks' calls, the faults the
 * environment injects and the scheduler's slices.  Its text form is the replay file. */
#ifndef KSIM_PLAN_H
#define KSIM_PLAN_H
#include "rt.h"
#include "model.h"

#define KSIM_OPS(X) X(BC) X(BR) X(BT) X(BE) X(BD) X(BX) \
	X(HC) X(HR) X(HI) X(HO) X(HX) X(HA) \
	X(SC) X(SR) X(SE) X(SD) X(SP) X(SX) \
	X(MC) X(MR) X(MI) X(MT) X(MV) X(MX) X(MA) \
	X(AC) X(AR) X(AH) X(AE) X(AD) X(AT) X(AV) X(AX) X(CH) \
	X(KP) X(KS) X(PA) X(PR) X(PC) X(ME) X(MW) \
	X(WJ) \
	X(RC) X(RG) X(RT) X(RX) X(TM)
#define KSIM_ARGS(X) X(slot) X(alg) X(r) X(klen) X(kd) X(ilen) X(id) X(out) X(tl) X(len) X(d) X(ip) X(al) X(kind) X(pos) X(val) X(n) X(m)
enum Op {
#define X(o) OP_##o,
KSIM_OPS(X)
#undef X
OP_COUNT };
enum Arg {
#define X(o) A_##o,
KSIM_ARGS(X)
#undef X
A_COUNT };
extern const char *const op_names[OP_COUNT];
extern const char *const arg_names[A_COUNT];

struct Step { int id = 0, task = 0, op = 0; int64_t a[A_COUNT] = {0};
	Step() {}
	Step(int t, int o) : task(t), op(o) {}
	Step &set(Arg k, int64_t v) { a[k] = v; return *this; } };

enum { T_PRO = 15, T_EPI = 14, MAXTASK = 16 };

struct Plan
{
	std::string prop;
	int ntasks = 1;
	bool lengthy = false;     /* generated as a very long one: no fault variants (not part of the text form) */
	bool shared = false;      /* objects and descriptors of the prologue task are shared */
	bool retry = true;        /* after an injected failure the same request is repeated with memory available */
	int vary = -1;            /* C14: step whose candidate is varied; C20: step whose work is multiplied */
	int vfield = 0;           /* C20: the argument that says how much work */
	rt::Cfg c;
	bool expand = false;      /* batch mode: derive faulted/rescheduled executions from this plan */
	uint64_t xseed = 0;
	std::vector<Step> steps;
	std::string text() const;
	bool parse(const std::string &s);
	uint64_t sig() const;
};

/* ---- execution ---- */
struct RunOpt { bool model = false; int only = -1; bool fibers = false; };
struct RunRes { std::vector<uint64_t> obs; std::vector<int> allocs; std::vector<uint64_t> ticks; uint64_t obs_hash = 0; int alloc_failed = 0, skipped = 0, ran = 0; };
extern double worst_budget;
void run_plan(const Plan &p, const RunOpt &o, RunRes &res);
extern std::map<std::string, uint64_t> cover;   /* coverage counters: algorithm and operation reached */

/* ---- checks: whole procedure deciding one property on one plan; violations go through rt::fail ---- */
void check_plan(Plan &p);
extern const Plan *cur_plan;        /* for the violation file */
extern const char *phase;
extern uint64_t evals;               /* executions made */
extern std::set<uint64_t> distinct;  /* signatures of distinct non-trivial executions */

/* ---- caller-supplied primitives ---- */
void plug_setup(uint64_t seed);
const void *plug_desc(int kind, int alg);
extern bool plugged;

/* ---- argument domains ---- */
bool hash_ok(int a, unsigned r, unsigned sl, unsigned out);
bool stream_ok(int a, unsigned r, unsigned kl, unsigned il);
bool mac_ok(int a, unsigned r, unsigned kl, unsigned tl);
bool ae_ok(int a, unsigned r, unsigned kl, unsigned il, unsigned tl);
int block_find(const char *n);

/* ---- generation ---- */
void gen_plan(const std::string &prop, uint64_t seed, uint64_t idx, Plan &p);
#endif
