/* Simulator runtime: the seams between the library and everything non-deterministic. */
#ifndef KSIM_RT_H
#define KSIM_RT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <set>

struct Rng { uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed ^ 0x9E3779B97F4A7C15ULL); if(!s[0] && !s[1]) s[0] = 1; }
	static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	uint64_t next() { uint64_t a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14); s[1] = (b << 36) | (b >> 28); return r; }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	unsigned range(unsigned lo, unsigned hi) { return lo + (unsigned)below((uint64_t)hi - lo + 1); }
	bool chance(unsigned pct) { return below(100) < pct; }
	template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t hmix(uint64_t h, uint64_t v) { return Rng::mix(h ^ (v + 0x632BE59BD9B4E019ULL)); }
uint64_t hbytes(const void *p, size_t n, uint64_t h = 0);

namespace rt
{
	enum Kind { LIB, USER };
	struct Blk { uint8_t *p; size_t n; uint8_t kind; bool live; int step, task, idx; };
	struct TaskCtx { int step = -1; int allocs = 0; int failed = 0; int files = 0; bool in_lib = false, nofault = false; uint64_t ticks0 = 0; size_t index = 0; };
	struct Fault { int step, from, count; };            /* allocation faults: allocations [from, from+count) of a step fail */
	struct DevEv { int kind; int64_t val; };            /* per read call: 0 full, 1 short(val), 2 EINTR, 3 EIO, 4 EOF, 5 EAGAIN */
	struct Slice { int task; uint64_t ticks; };

	struct Cfg
	{
		int fill = 2;              /* new memory: 0 zeros, 1 0xFF, 2 pseudo-random, 3 stale (content of the last freed block), 4 0xA5 */
		uint64_t fillseed = 1;
		uint64_t secret = 0;       /* varied by the secrets twin */
		bool preempt = false;
		bool record = false;       /* draw slices from srng and record them */
		bool smart = true;
		uint64_t srng = 0;
		unsigned avg = 200;        /* mean slice length in ticks */
		bool freelog = false;
		bool trace = false;        /* per-call trace hash (constant-time checks) */
		uint64_t tick_limit = 0;   /* 0: none */
		uint64_t arena_limit = 64u << 20;
		std::vector<Fault> faults;
		std::vector<std::vector<DevEv>> dev;   /* per opened handle */
		uint64_t devseed = 1; int devkind = 0; int64_t devsize = -1; int openfail = 0; int coarse = 0; uint64_t plug = 0; /* 1: clock() is not available, 2: clock() counts seconds */
		std::vector<Slice> slices;
		int64_t time0 = 1000000;
		std::string env;           /* value of KRIPTO_RANDOM; empty: not set */
		bool oob = true;           /* canaries are checked */
		unsigned cpu = 25;         /* CPU seconds one execution may take */
	};
	extern Cfg cfg;
	extern TaskCtx *cur;
	extern std::vector<Blk> blks;
	extern uint64_t ticks, trace_hash, switches, sched_hash, preempt_in_lib;
	extern std::vector<Slice> taken;
	struct FreeRec { size_t n; uint64_t h; int step, task, idx; std::vector<uint8_t> data; };
	extern std::vector<FreeRec> freelog;
	extern std::map<std::string, uint64_t> stats;
	extern int open_files;
	extern int64_t now_s;
	extern std::vector<std::vector<uint8_t>> delivered;   /* per device handle: bytes handed out */
	extern std::vector<int64_t> dev_off;                  /* per device handle: bytes handed out, sparse ones included */
	extern bool vast;                     /* a read of gigabytes is going on: the device fills only marks (16 bytes of each mebibyte) and nothing is recorded */
	uint8_t devbyte(unsigned cid, int64_t off);
	extern std::vector<unsigned> dev_cid;
	extern const char *variant;
	extern std::vector<std::string> opened;               /* path of each open attempt */
	extern uint64_t call_ticks;           /* ticks of the last library call */
	extern const bool has_asan;
	extern uint64_t dev_faults;           /* device events other than a full read so far */

	void init();
	void begin(const Cfg &c);             /* fresh world */
	void arm(double cpu);                 /* CPU seconds allowed from now on */
	void end_checks();                    /* canaries, freed memory still intact */
	uint8_t *user_alloc(size_t n, unsigned align_off);
	void user_free(uint8_t *p);
	void enter(TaskCtx *t, int step);     /* start of one library call */
	void leave();
	size_t live_lib();
	const Blk *find(const void *p);
	bool in_arena(const void *p);
	void check_arena();

	/* violation sink; does not return */
	[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	extern void (*on_violation)(const char *cls, const char *msg, int step, int task);

	/* fibers */
	void run_fibers(int n, void (*body)(int task));
	void pending_check();
}
#endif
