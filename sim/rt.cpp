#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>

#ifndef KSIM_VARIANT
#define KSIM_VARIANT "fast"
#endif

extern "C" {
extern char __start_kdata[] __attribute__((weak)), __stop_kdata[] __attribute__((weak));
extern char __start_kbss[] __attribute__((weak)), __stop_kbss[] __attribute__((weak));
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
void *__asan_get_report_address(void) __attribute__((weak));
int __asan_report_present(void) __attribute__((weak));
}

uint64_t hbytes(const void *p, size_t n, uint64_t h)
{
	const uint8_t *b = (const uint8_t *)p;
	h ^= 0xCBF29CE484222325ULL + n;
	while(n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ULL; h ^= h >> 29; b += 8; n -= 8; }
	for(; n; n--) { h = (h ^ *b++) * 0x100000001B3ULL; }
	return Rng::mix(h);
}

namespace rt
{
static uint8_t *const ARENA = (uint8_t *)0x200000000000ULL;
static const size_t ARENA_SZ = 512u << 20;
#ifdef __SANITIZE_ADDRESS__
enum { RZ = 256 };
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
enum { RZ = 256 };
#else
enum { RZ = 48 };
#endif
#else
enum { RZ = 48 };
#endif
static size_t bump;
Cfg cfg;
static TaskCtx idle;
TaskCtx *cur = &idle;
std::vector<Blk> blks;
uint64_t ticks, trace_hash, switches, sched_hash, preempt_in_lib;
std::vector<Slice> taken;
std::vector<FreeRec> freelog;
std::map<std::string, uint64_t> stats;
int open_files;
int64_t now_s;
std::vector<std::vector<uint8_t>> delivered; std::vector<int64_t> dev_off; std::vector<unsigned> dev_cid; bool vast; static std::set<void *> winlive;
const char *variant = KSIM_VARIANT;
std::vector<std::string> opened;
uint64_t call_ticks, dev_faults;
const bool has_asan = __asan_poison_memory_region != nullptr;
void (*on_violation)(const char *, const char *, int, int);
static std::vector<uint8_t> kdata0, stale;
static std::string asan_msg;
static char *tls_base; static size_t tls_size; static std::vector<uint8_t> tls0;
static uint64_t call_limit_at = ~0ULL;
static unsigned handles;

static void rawcopy(volatile uint8_t *d, const volatile uint8_t *s, size_t n) { for(size_t i = 0; i < n; i++) d[i] = s[i]; }

void fail(const char *cls, const char *fmt, ...)
{
	char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	if(on_violation) on_violation(cls, buf, cur->step, -1);
	fprintf(stdout, "FATAL %s %s\n", cls, buf); fflush(stdout); _exit(4);
}
static void on_sig(int sig)
{
	static volatile sig_atomic_t nested; /* a crash while reporting a crash must not loop */
	if(nested++) { static const char m[] = "FATAL CRASH while reporting a crash\n"; ssize_t x = write(1, m, sizeof m - 1); (void)x; _exit(5); }
	if(sig == SIGPROF) fail("HANG", "no progress: CPU time limit of one run exceeded in step %d", cur->step);
	if(sig == SIGILL && !strncmp(KSIM_VARIANT, "ub", 2)) fail("OOB", "index outside its array, unaligned or null word access in step %d%s", cur->step, cur->in_lib ? " inside a library call" : " (harness)");
	fail("CRASH", "signal %d (%s) in step %d%s", sig, strsignal(sig), cur->step, cur->in_lib ? " inside a library call" : " (harness)");
}
static const char *asan_cls = "OOB";
static void asan_cb(const char *txt)
{
	if(!asan_msg.empty()) return;
	if(__asan_report_present && __asan_report_present()) { uint8_t *a = (uint8_t *)__asan_get_report_address(); const Blk *b = find(a); if(b && !b->live) asan_cls = "UAF"; else if((uintptr_t)a < 65536) asan_cls = "CRASH"; }
	const char *p = strstr(txt, "ERROR: AddressSanitizer: "); p = p ? p + 25 : txt;
	const char *e = strchr(p, '\n'); asan_msg.assign(p, e ? (size_t)(e - p) : strlen(p));
	/* keep the kind only: addresses vary */
	const char *f = strstr(txt, "#0 "); if(f && (f = strstr(f, " in "))) { const char *g = f + 4; while(*g && *g != ' ' && *g != '\n') g++; asan_msg = asan_msg.substr(0, asan_msg.find(' ')) + " in " + std::string(f + 4, g); }
}
static void asan_death() { fail(asan_cls, "AddressSanitizer: %s", asan_msg.empty() ? "fatal error" : asan_msg.c_str()); }
void pending_check() { if(!asan_msg.empty()) fail(asan_cls, "AddressSanitizer: %s", asan_msg.c_str()); }

static int tls_cb(struct dl_phdr_info *i, size_t, void *)
{
	if(i->dlpi_name && i->dlpi_name[0]) return 0;
	for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_TLS) { tls_base = (char *)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; }
	return 1;
}

void init()
{
	void *p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
	if(p != (void *)ARENA) { perror("arena"); _exit(2); }
	size_t n = (size_t)(__stop_kdata - __start_kdata);
	kdata0.resize(n); if(n) rawcopy(kdata0.data(), (uint8_t *)__start_kdata, n);
	if(!__asan_poison_memory_region) { dl_iterate_phdr(tls_cb, nullptr); if(tls_base) { tls0.assign((uint8_t *)tls_base, (uint8_t *)tls_base + tls_size); } }
	static uint8_t alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	sigaction(SIGPROF, &sa, nullptr);
	if(__asan_set_error_report_callback) { __asan_set_error_report_callback(asan_cb); __asan_set_death_callback(asan_death); }
	else for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
	if(__asan_poison_memory_region) for(int s : {SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

static Rng fillrng;
void begin(const Cfg &c)
{
	if(__asan_unpoison_memory_region) __asan_unpoison_memory_region(ARENA, bump + 4096);
	cfg = c; bump = 4096; blks.clear(); cur = &idle; idle = TaskCtx();
	ticks = trace_hash = switches = 0; sched_hash = 0; preempt_in_lib = 0; taken.clear(); freelog.clear();
	open_files = 0; now_s = c.time0; delivered.clear(); dev_off.clear(); dev_cid.clear(); vast = false; winlive.clear(); handles = 0; opened.clear(); call_ticks = dev_faults = 0; stale.clear(); asan_msg.clear();
	fillrng = Rng(c.fillseed); call_limit_at = ~0ULL;
	if(!kdata0.empty()) rawcopy((uint8_t *)__start_kdata, kdata0.data(), kdata0.size());
	for(volatile char *q = __start_kbss; q < __stop_kbss; q++) *q = 0;
	if(tls_base && tls_size) rawcopy((uint8_t *)tls_base, tls0.data(), tls_size);
	arm(c.cpu);
}
void arm(double cpu) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (time_t)cpu; setitimer(ITIMER_PROF, &it, nullptr); }

static void paint(uint8_t *p, size_t n)
{
	switch(cfg.fill)
	{
		case 0: memset(p, 0, n); break;
		case 1: memset(p, 0xFF, n); break;
		case 4: memset(p, 0xA5, n); break;
		case 3: if(!stale.empty()) { for(size_t i = 0; i < n; i++) p[i] = stale[i % stale.size()]; break; } /* fallthrough */
		default: { size_t i = 0; for(; i + 8 <= n; i += 8) { uint64_t v = fillrng.next(); memcpy(p + i, &v, 8); } for(; i < n; i++) p[i] = (uint8_t)fillrng.next(); }
	}
}
static uint8_t *carve(size_t n, unsigned off, int kind)
{
	size_t start = (bump + RZ + 15) & ~(size_t)15; start += off;
	if(n > cfg.arena_limit || start + n + RZ + 64 > ARENA_SZ || start + n > cfg.arena_limit) return nullptr;
	uint8_t *p = ARENA + start;
	if(__asan_unpoison_memory_region) __asan_unpoison_memory_region(ARENA + bump, start + n + RZ + 64 - bump);
	memset(ARENA + bump, 0xFB, start - bump);
	memset(p + n, 0xFB, RZ + 16);
	if(kind == LIB) paint(p, n);
	blks.push_back(Blk{p, n, (uint8_t)kind, true, cur->step, -1, cur->allocs});
	size_t end = (start + n + RZ / 2 + 15) & ~(size_t)15;
	if(__asan_poison_memory_region) { __asan_poison_memory_region(ARENA + bump, start - bump); __asan_poison_memory_region(p + n, ARENA + end - (p + n)); }
	bump = end;
	return p;
}
const Blk *find(const void *q)
{
	size_t lo = 0, hi = blks.size();
	while(lo < hi) { size_t m = (lo + hi) / 2; if(blks[m].p <= (const uint8_t *)q) lo = m + 1; else hi = m; }
	if(!lo) return nullptr;
	const Blk *b = &blks[lo - 1];
	return (const uint8_t *)q < b->p + (b->n ? b->n : 1) ? b : nullptr;
}
bool in_arena(const void *q) { return (const uint8_t *)q >= ARENA && (const uint8_t *)q < ARENA + ARENA_SZ; }
static void canary(const Blk &b)
{
	if(__asan_poison_memory_region || !cfg.oob) return;
	for(int i = 1; i <= RZ / 2; i++) if(b.p[-i] != 0xFB) fail("OOB", "write %d bytes before a %s block of %zu bytes allocated in step %d", i, b.kind == LIB ? "library" : "caller", b.n, b.step);
	for(int i = 0; i < RZ / 2; i++) if(b.p[b.n + (size_t)i] != 0xFB) fail("OOB", "write %d bytes past the end of a %s block of %zu bytes allocated in step %d", i + 1, b.kind == LIB ? "library" : "caller", b.n, b.step);
}
static void release(Blk &b)
{
	canary(b);
	if(b.kind == LIB && cfg.fill == 3) stale.assign(b.p, b.p + b.n);
	b.live = false;
	memset(b.p, 0xDD, b.n);
	if(__asan_poison_memory_region) __asan_poison_memory_region(b.p, b.n ? b.n : 1);
}
void check_arena()
{
	if(__asan_poison_memory_region || !cfg.oob) return;
	for(auto &b : blks) { canary(b); if(!b.live) for(size_t i = 0; i < b.n; i++) if(b.p[i] != 0xDD) fail("OOB", "write into freed memory at offset %zu of a %zu byte block allocated in step %d", i, b.n, b.step); }
}
void end_checks() { check_arena(); struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr); }
uint8_t *user_alloc(size_t n, unsigned off) { uint8_t *p = carve(n, off & 15, USER); if(!p) { fprintf(stderr, "harness arena exhausted\n"); _exit(2); } memset(p, 0xCC, n); return p; }
void user_free(uint8_t *p) { Blk *b = (Blk *)find(p); if(!b || !b->live || b->p != p) { fprintf(stderr, "harness user_free\n"); _exit(2); } release(*b); }
size_t live_lib() { size_t n = 0; for(auto &b : blks) n += b.live && b.kind == LIB; return n; }

/* ---- library call bracket ---- */
static __attribute__((noinline)) void paint_stack()
{
	volatile uint64_t area[2048];
	switch(cfg.fill)
	{
		case 0: for(auto &v : area) v = 0; break;
		case 1: for(auto &v : area) v = ~0ULL; break;
		default: { uint64_t x = cfg.fillseed * 0x9E3779B97F4A7C15ULL | 1; for(auto &v : area) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; v = x; } }
	}
	__asm__ volatile("" ::: "memory");
}
void enter(TaskCtx *t, int step)
{
	cur = t; if(t->step != step) { t->step = step; t->allocs = 0; t->failed = 0; t->nofault = false; }
	t->in_lib = true; t->ticks0 = ticks;
	if(cfg.tick_limit) call_limit_at = ticks + cfg.tick_limit;
	if(!__asan_poison_memory_region) paint_stack();
}
void leave() { call_ticks = ticks - cur->ticks0; cur->in_lib = false; call_limit_at = ~0ULL; pending_check(); }

/* ---- fibers and the clock ---- */
struct Fiber { void *sp = nullptr; uint8_t *stack = nullptr; TaskCtx *saved = nullptr; bool done = true; std::vector<uint8_t> tls; uint64_t limit = ~0ULL; };
enum { FSTACK = 1 << 20, MAXF = 8 };
static Fiber fib[MAXF]; static void *main_sp; static int curf = -1; static void (*fbody)(int);
static uint64_t slice_end = ~0ULL;
extern "C" void ksim_switch(void **save, void *to);
__asm__(".text\n.globl ksim_switch\n.type ksim_switch,@function\nksim_switch:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size ksim_switch,.-ksim_switch\n");
static void to_main() { Fiber &f = fib[curf]; f.saved = cur; f.limit = call_limit_at; ksim_switch(&f.sp, main_sp); cur = f.saved; call_limit_at = f.limit; }
static void fib_entry() { int me = curf; fbody(me); fib[me].done = true; for(;;) to_main(); }
static Rng srng;
static int edge; /* id of the last edge, for the interleaving measure */
static void preempt_now()
{
	switches++; preempt_in_lib += cur->in_lib;
	sched_hash = hmix(sched_hash, ((uint64_t)(unsigned)curf << 48) ^ ((uint64_t)(unsigned)cur->step << 32) ^ (unsigned)edge);
	to_main();
}
void run_fibers(int n, void (*body)(int))
{
	fbody = body; srng = Rng(cfg.srng ^ 0x5C4ED);
	for(int i = 0; i < n; i++)
	{
		Fiber &f = fib[i];
		if(!f.stack) { f.stack = (uint8_t *)mmap(nullptr, FSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(f.stack, 4096, PROT_NONE); }
		void **sp = (void **)(f.stack + FSTACK - 64);
		*--sp = nullptr; *--sp = (void *)fib_entry; for(int k = 0; k < 6; k++) *--sp = nullptr;
		f.sp = sp; f.done = false; f.saved = &idle; f.tls = tls0; f.limit = ~0ULL;
	}
	size_t si = 0; int last = -1;
	for(;;)
	{
		std::vector<int> alive; for(int i = 0; i < n; i++) if(!fib[i].done) alive.push_back(i);
		if(alive.empty()) break;
		int t; uint64_t len;
		if(cfg.record)
		{
			t = alive[srng.below(alive.size())];
			if(t == last && alive.size() > 1 && srng.chance(70)) t = alive[srng.below(alive.size())];
			switch(srng.below(8)) { case 0: len = 1 + srng.below(4); break; case 1: len = 1 + srng.below(cfg.avg * 20 + 1); break; case 2: len = ~0ULL >> 1; if(!srng.chance(20)) len = 1 + srng.below(cfg.avg + 1); break; default: len = 1 + srng.below(2 * cfg.avg + 1); }
		}
		else if(si < cfg.slices.size()) { t = cfg.slices[si].task; len = cfg.slices[si].ticks; si++; if(t >= n || fib[t].done) continue; }
		else { t = alive[0]; len = ~0ULL >> 1; }
		last = t;
		if(cfg.record) taken.push_back(Slice{t, 1ULL << 60}); bool rec = cfg.record;
		uint64_t start = ticks; slice_end = len > (~0ULL >> 2) ? ~0ULL : ticks + len;
		curf = t; TaskCtx *mainctx = cur;
		if(tls_size) rawcopy((uint8_t *)tls_base, fib[t].tls.data(), tls_size);
		ksim_switch(&main_sp, fib[t].sp);
		if(tls_size) rawcopy(fib[t].tls.data(), (uint8_t *)tls_base, tls_size);
		cur = mainctx; curf = -1; slice_end = ~0ULL; call_limit_at = ~0ULL;
		if(rec) taken.back().ticks = fib[t].done ? (1ULL << 60) : ticks - start;
	}
	cfg.record = false;
}
static inline void tick(unsigned n = 1)
{
	ticks += n;
	if(__builtin_expect(ticks >= slice_end, 0) && curf >= 0) preempt_now();
	if(__builtin_expect(ticks >= call_limit_at, 0)) fail("HANG", "a library call ran for more than %llu ticks in step %d", (unsigned long long)cfg.tick_limit, cur->step);
}
static inline void tr(uint64_t v) { if(__builtin_expect(cfg.trace, 0) && cur->in_lib) trace_hash = hmix(trace_hash, v); }
static inline void acc(const void *a, bool store)
{
	/* stack addresses are taken relative to the stack so that traces compare */
	uintptr_t x = (uintptr_t)a;
	if(cfg.trace) { tr((x << 1) | store); }
	if(store && cfg.preempt && cfg.record && cfg.smart && curf >= 0 &&
	   (((char *)a >= __start_kbss && (char *)a < __stop_kbss) || ((char *)a >= __start_kdata && (char *)a < __stop_kdata)) && srng.chance(50)) { ticks++; preempt_now(); return; }
	tick();
}
} /* namespace */

using namespace rt;

extern "C" {
/* ---- compiler hooks of the instrumented build ---- */
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t n; if(a == b || *a) return; for(; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { edge = (int)*g; tr(*g * 2654435761u); tick(); }
#define H(n) void __sanitizer_cov_load##n(void *a) { acc(a, false); } void __sanitizer_cov_store##n(void *a) { acc(a, true); }
H(1) H(2) H(4) H(8) H(16)

/* ---- allocator ---- */
void *sim_malloc(size_t n)
{
	tick();
	int k = cur->allocs++;
	if(!cur->nofault) for(auto &f : cfg.faults) if(f.step == cur->step && k >= f.from && k < f.from + f.count) { cur->failed++; stats["alloc_failed"]++; if(cur->allocs > 1) stats["alloc_failed_midcall"]++; errno = ENOMEM; return nullptr; }
	void *p = carve(n, 0, LIB);
	if(!p) { cur->failed++; stats["alloc_refused_too_big"]++; errno = ENOMEM; }
	return p;
}
void *sim_calloc(size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { cur->failed++; return nullptr; } void *p = sim_malloc(n); if(p) memset(p, 0, n); return p; }
void sim_free(void *q)
{
	tick();
	if(!q) return;
	Blk *b = (Blk *)find(q);
	if(!b || b->p != q) fail("BADFREE", "free of a pointer that was never allocated in step %d", cur->step);
	if(b->kind != LIB) fail("BADFREE", "free of a caller's buffer in step %d", cur->step);
	if(!b->live) fail("BADFREE", "double free in step %d of a block allocated in step %d", cur->step, b->step);
	if(cfg.freelog) freelog.push_back(FreeRec{b->n, hbytes(b->p, b->n), cur->step, -1, b->step, std::vector<uint8_t>(b->p, b->p + b->n)});
	stats["lib_frees"]++;
	release(*b);
}
void *sim_realloc(void *q, size_t n)
{
	if(!q) return sim_malloc(n);
	if(!n) { sim_free(q); return nullptr; }
	const Blk *b = find(q);
	if(!b || b->p != q || !b->live || b->kind != LIB) fail("BADFREE", "realloc of a bad pointer in step %d", cur->step);
	size_t o = b->n; void *p = sim_malloc(n); if(!p) return nullptr;
	memcpy(p, q, o < n ? o : n); sim_free(q); return p;
}
void *sim_aligned_alloc(size_t a, size_t n) { (void)a; return sim_malloc(n); }
int sim_posix_memalign(void **p, size_t a, size_t n) { (void)a; void *q = sim_malloc(n); if(!q) return ENOMEM; *p = q; return 0; }

/* ---- memory functions (instrumented builds only) ---- */
void *sim_memcpy(void *d, const void *s, size_t n) { for(size_t i = 0; i < n; i += 16) { size_t k = n - i < 16 ? n - i : 16; acc((const char *)s + i, false); memcpy((char *)d + i, (const char *)s + i, k); acc((char *)d + i, true); } if(!n) tick(); return d; }
void *sim_memmove(void *d, const void *s, size_t n) { acc(s, false); memmove(d, s, n); acc(d, true); tick((unsigned)(n / 16)); return d; }
void *sim_memset(void *d, int c, size_t n) { for(size_t i = 0; i < n; i += 32) { size_t k = n - i < 32 ? n - i : 32; memset((char *)d + i, c, k); acc((char *)d + i, true); } if(!n) tick(); return d; }
int sim_memcmp(const void *a, const void *b, size_t n) { const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b; for(size_t i = 0; i < n; i++) { tr(0x3E3C); tick(); if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1; } return 0; }
int sim_bcmp(const void *a, const void *b, size_t n) { return sim_memcmp(a, b, n); }
int sim_strcmp(const char *a, const char *b) { while(*a && *a == *b) { tr(0x57C3); tick(); a++; b++; } return (uint8_t)*a - (uint8_t)*b; }
int sim_strncmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { tr(0x57C3); tick(); if(*a != *b || !*a) return (uint8_t)*a - (uint8_t)*b; } return 0; }

/* ---- the outside world ---- */
char *sim_getenv(const char *n) { return !strcmp(n, "KRIPTO_RANDOM") && !cfg.env.empty() ? (char *)cfg.env.c_str() : nullptr; }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
time_t sim_time(time_t *t) { tick(); stats["time_calls"]++; if(t) *t = now_s; return now_s; }
clock_t sim_clock(void) { tick(); if(cfg.coarse) { stats["coarse_clock"]++; return cfg.coarse == 1 ? (clock_t)-1 : (clock_t)now_s * CLOCKS_PER_SEC; } return (clock_t)(ticks * 10 + (uint64_t)now_s); }
int sim_clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = now_s; t->tv_nsec = (long)(ticks % 1000000000); return 0; }
int sim_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = now_s; t->tv_usec = (long)(ticks % 1000000); return 0; }
pid_t sim_getpid(void) { return 4242; }

struct Dev { unsigned id; unsigned cid; size_t call; int64_t off; }; /* id: handle in order of opening, selects faults; cid: the opening step, selects contents */
/* a source that is sound by every measure but one: 4096 bytes, repeated */
static const std::vector<uint8_t> &crafted()
{
	static std::vector<uint8_t> v; static uint64_t have = ~0ull; uint64_t want = hmix(cfg.devseed, (uint64_t)cfg.devkind);
	if(have == want && !v.empty()) return v;
	have = want; v.clear(); Rng r(want); double sign = r.chance(50) ? 1 : -1;
	auto shuffle = [&](size_t from, size_t n) { for(size_t i = n; i > 1; i--) std::swap(v[from + i - 1], v[from + r.below(i)]); };
	auto fair = [&]() { v.resize(4096); for(auto &b : v) b = (uint8_t)(r.next() >> 40); };
	auto unit = [&](std::vector<double> &d, double norm2) { double m = 0, q = 0; for(double x : d) m += x / 256; for(double &x : d) { x -= m; q += x * x; } for(double &x : d) x *= sqrt(norm2 / q); };
	auto counts = [&](const std::vector<double> &d) { for(int i = 0; i < 256; i++) { double c = 16 + d[(size_t)i]; int k = (int)c; if((double)(r.next() >> 11) / 9007199254740992.0 < c - k) k++; for(; k > 0; k--) v.push_back((uint8_t)i); } while(v.size() < 4096) v.push_back((uint8_t)r.below(256)); shuffle(0, v.size()); v.resize(4096); };
	auto pairs = [&](size_t first, uint8_t (*f)(uint8_t, Rng &, double), size_t second, uint8_t (*g)(uint8_t, Rng &, double)) {
		fair(); std::vector<std::vector<uint8_t>> tok; int left[256] = {0}; for(uint8_t b : v) left[b]++;
		for(size_t n = 0, tries = 0; n < first + second && tries < 40000; tries++) { uint8_t a = (uint8_t)r.below(256); if(!left[a]) continue; left[a]--; uint8_t b = n < first ? f(a, r, sign) : g(a, r, sign); if(!left[b]) { left[a]++; continue; } left[b]--; tok.push_back({a, b}); n++; }
		for(int i = 0; i < 256; i++) while(left[i]-- > 0) tok.push_back({(uint8_t)i});
		for(size_t i = tok.size(); i > 1; i--) std::swap(tok[i - 1], tok[r.below(i)]);
		v.clear(); for(auto &t : tok) v.insert(v.end(), t.begin(), t.end()); };
	std::vector<double> lin(256), pop(256), d(256); double dot = 0, q1 = 0, q2 = 0;
	for(int i = 0; i < 256; i++) { lin[(size_t)i] = i - 127.5; pop[(size_t)i] = __builtin_popcount((unsigned)i) - 4; dot += lin[(size_t)i] * pop[(size_t)i]; q1 += lin[(size_t)i] * lin[(size_t)i]; q2 += pop[(size_t)i] * pop[(size_t)i]; }
	switch(cfg.devkind)
	{
		case 14: for(size_t i = 0; i < 256; i++) d[i] = sign * (lin[i] - dot / q2 * pop[i]); unit(d, 3800); counts(d); break;           /* only the mean */
		case 15: for(size_t i = 0; i < 256; i++) d[i] = sign * (pop[i] - dot / q1 * lin[i]); unit(d, 3800); counts(d); break;           /* only the share of ones */
		case 16: for(size_t i = 0; i < 256; i++) { d[i] = 0; for(int k = 0; k < 12; k++) d[i] += (double)r.below(1000) - 499.5; } unit(d, 7800); counts(d); break; /* too uneven */
		case 17: for(int k = 0; k < 16; k++) { for(int i = 0; i < 256; i++) v.push_back((uint8_t)i); shuffle(v.size() - 256, 256); } break; /* too even */
		case 18: fair(); for(size_t i = 1; i < 4096; i++) v[i] = (uint8_t)((v[i] & 0x7F) | (((v[i - 1] ^ (sign > 0)) & 1) << 7)); break; /* only the flips */
		case 19: { fair(); unsigned sh = (unsigned)r.below(5); std::vector<uint8_t> o[16]; for(uint8_t b : v) o[b >> sh & 15].push_back(b); v.clear(); unsigned at = (unsigned)r.below(16), m = 1 + 2 * (unsigned)r.below(8); for(unsigned k = 0; k < 16; k++) { auto &x = o[(at + k * m) & 15]; v.insert(v.end(), x.begin(), x.end()); } break; } /* sixteenths of the values take turns */
		case 20: pairs(650, [](uint8_t a, Rng &, double) { return a; }, 650, [](uint8_t a, Rng &, double) { return (uint8_t)~a; }); break; /* many repetitions */
		case 21: pairs(1300, [](uint8_t a, Rng &q, double s) { int b = (s > 0 ? a : 255 - a) + (q.chance(50) ? 1 : -1) * (1 + (int)q.below(8)); return (uint8_t)(b < 0 || b > 255 ? (s > 0 ? a : 255 - a) : b); }, 0, nullptr); break; /* each second byte follows or opposes the first */
		default: { fair(); size_t n = 512 + r.below(1536), at = r.below(4096 - n); uint8_t b = (uint8_t)r.below(256); for(size_t i = 0; i < n; i++) v[at + i] = b; break; } /* stuck for a while */
	}
	return v;
}
static uint8_t devbyte_(unsigned id, int64_t off)
{
	switch(cfg.devkind)
	{
		case 1: return 0; case 2: return 0xFF; case 3: return (uint8_t)off; case 4: return (off & 1) ? 0xAA : 0x55;
		case 5: return (uint8_t)(Rng::mix(cfg.devseed * 77 + (uint64_t)off) & 0x7F);                 /* top bit stuck */
		case 6: return (uint8_t)(Rng::mix(cfg.devseed * 77 + (uint64_t)(off % 64)));               /* short period */
		case 7: return (uint8_t)(Rng::mix(cfg.devseed * 77 + (uint64_t)off) | Rng::mix(cfg.devseed * 79 + (uint64_t)off)); /* biased ones */
		case 8: return (uint8_t)(Rng::mix(cfg.devseed * 77 + (uint64_t)(off >> 1)));               /* every byte twice */
		case 9: { uint64_t v = Rng::mix(cfg.devseed * 77 + (uint64_t)off); return (uint8_t)(v % 100 < 15 ? 0x41 : v >> 8); } /* one favourite byte */
		case 10: return (uint8_t)("0123456789abcdef"[Rng::mix(cfg.devseed * 77 + (uint64_t)off) & 15]); /* hex text */
		case 11: return (uint8_t)((unsigned)off + (unsigned)((uint64_t)off >> 8) * 17);            /* counter, permuted per page */
		case 12: return (uint8_t)((Rng::mix(cfg.devseed * 77 + (uint64_t)off) % 250));           /* slightly narrow range */
		case 13: { uint64_t s = cfg.devseed & 255; return (uint8_t)((s + (uint64_t)off * 3) & 255); }
		case 14: case 15: case 16: case 17: case 18: case 19: case 20: case 21: case 22: return crafted()[(size_t)(off & 4095)];
		default: return (uint8_t)(Rng::mix(hmix(cfg.devseed, id) + (uint64_t)off));
	}
}
static void devfill(Dev *d, char *buf, size_t n)
{
	if(vast)
	{
		if(n < 1u << 26) memset(buf, 0, n); /* larger ones are the caller's own untouched pages */
		for(int64_t m = d->off >> 20 << 20; m < d->off + (int64_t)n; m += 1 << 20) for(int64_t i = m; i < m + 16; i++) if(i >= d->off && i < d->off + (int64_t)n) buf[i - d->off] = (char)devbyte_(d->cid, i);
		d->off += (int64_t)n;
	}
	else for(size_t i = 0; i < n; i++) { buf[i] = (char)devbyte_(d->cid, d->off++); delivered[d->id].push_back((uint8_t)buf[i]); }
	dev_off[d->id] = d->off;
}
extern "C++" { namespace rt { uint8_t devbyte(unsigned cid, int64_t off) { return devbyte_(cid, off); } } }
static ssize_t dev_read(Dev *d, char *buf, size_t n)
{
	tick();
	DevEv e{0, 0};
	if(d->id < cfg.dev.size() && d->call < cfg.dev[d->id].size()) e = cfg.dev[d->id][d->call];
	d->call++;
	stats["dev_reads"]++; dev_faults += e.kind != 0;
	switch(e.kind)
	{
		case 2: stats["dev_eintr"]++; errno = EINTR; return -1;
		case 3: stats["dev_eio"]++; errno = EIO; return -1;
		case 5: stats["dev_eagain"]++; errno = EAGAIN; return -1;
		case 4: stats["dev_eof"]++; return 0;
		case 1: if((size_t)e.val < n) { n = (size_t)e.val; stats["dev_short"]++; } break;
	}
	if(cfg.devsize >= 0) { if(d->off >= cfg.devsize) { stats["dev_end"]++; return 0; } if((int64_t)n > cfg.devsize - d->off) { n = (size_t)(cfg.devsize - d->off); stats["dev_short"]++; } }
	devfill(d, buf, n);
	return (ssize_t)n;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return dev_read((Dev *)c, b, n); }
static int ck_close(void *c) { delete (Dev *)c; open_files--; return 0; }
static Dev *dev_open(const char *path)
{
	stats["dev_opens"]++; opened.push_back(path);
	int k = (int)handles++;
	if(cfg.openfail & (1 << k)) { cur->failed++; stats["dev_open_failed"]++; errno = EMFILE; delivered.emplace_back(); dev_off.push_back(0); dev_cid.push_back(0); return nullptr; }
	if(strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random") && cfg.env != path) { cur->failed++; errno = ENOENT; delivered.emplace_back(); dev_off.push_back(0); dev_cid.push_back(0); return nullptr; }
	delivered.emplace_back(); dev_off.push_back(0); dev_cid.push_back((unsigned)cur->step); open_files++;
	return new Dev{(unsigned)k, (unsigned)cur->step, 0, 0};
}
FILE *sim_fopen(const char *path, const char *mode)
{
	(void)mode; Dev *d = dev_open(path); if(!d) return nullptr;
	cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = ck_read; io.close = ck_close;
	return fopencookie(d, "r", io);
}
static std::map<int, Dev *> fds;
int sim_open(const char *path, int, ...) { Dev *d = dev_open(path); if(!d) return -1; int fd = 1000 + (int)d->id; fds[fd] = d; return fd; }
ssize_t sim_read(int fd, void *b, size_t n) { auto i = fds.find(fd); if(i == fds.end()) { errno = EBADF; return -1; } return dev_read(i->second, (char *)b, n); }
int sim_close(int fd) { auto i = fds.find(fd); if(i == fds.end()) fail("BADFREE", "close of a descriptor that is not open in step %d", cur->step); ck_close(i->second); fds.erase(i); return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { static Dev d; if(delivered.empty()) { delivered.emplace_back(); dev_off.push_back(0); dev_cid.push_back(0); d = Dev{0, 0, 0, 0}; } return dev_read(&d, (char *)b, n); }
int sim_getentropy(void *b, size_t n) { return sim_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

#ifdef KSIM_WIN
/* Windows: the system generator fills a whole request or fails it */
static Dev *win_open() { Dev *d = dev_open("/dev/urandom"); if(d) winlive.insert(d); return d; }
static Dev *win_live(void *p, const char *what) { Dev *d = (Dev *)p; if(!winlive.count(d)) fail("BADFREE", "%s of a handle that is not open in step %d", what, cur->step); return d; }
static bool win_gen(Dev *d, unsigned n, char *out)
{
	tick(); DevEv e{0, 0};
	if(d->id < cfg.dev.size() && d->call < cfg.dev[d->id].size()) e = cfg.dev[d->id][d->call];
	d->call++; stats["dev_reads"]++;
	if(e.kind || (cfg.devsize >= 0 && (int64_t)n > cfg.devsize - d->off)) { dev_faults++; stats["dev_refused"]++; return false; }
	devfill(d, out, n); return true;
}
static Dev *winproc[32]; /* one entry point for each handle, so that each object has a device of its own */
extern "C++" {
template<int I> static long long win_sysfn036(void *out, unsigned n) { if(!winlive.count(winproc[I])) fail("UAF", "the generator was called after its library was released in step %d", cur->step); return 0x5A5A5A5A5A5A5A00LL | win_gen(winproc[I], n, (char *)out); } /* BOOLEAN: only the lowest byte is defined */
template<int... I> static void *win_entry(unsigned k, std::integer_sequence<int, I...>) { static long long (*const f[])(void *, unsigned) = {win_sysfn036<I>...}; return (void *)f[k]; }
}
void *LoadLibraryA(const char *name) { if(strcasecmp(name, "advapi32.dll") && strcasecmp(name, "advapi32")) { cur->failed++; return nullptr; } return win_open(); }
void *GetProcAddress(void *lib, const char *name)
{
	Dev *d = win_live(lib, "GetProcAddress"); if(strcmp(name, "SystemFunction036")) { cur->failed++; return nullptr; }
	if(cfg.openfail && (hmix(cfg.devseed, d->id) & 1)) { cur->failed++; stats["dev_noproc"]++; return nullptr; }
	winproc[d->id & 31] = d; return win_entry(d->id & 31, std::make_integer_sequence<int, 32>());
}
int FreeLibrary(void *lib) { Dev *d = win_live(lib, "FreeLibrary"); winlive.erase(d); ck_close(d); return 1; }
int CryptAcquireContextA(unsigned long long *prov, const char *, const char *, unsigned type, unsigned flags) { if(type != 1 || !(flags & 0xF0000000u)) { cur->failed++; return 0; } Dev *d = win_open(); if(!d) return 0; *prov = (unsigned long long)d; return 1; }
int CryptGenRandom(unsigned long long prov, unsigned n, unsigned char *out) { return win_gen(win_live((void *)prov, "CryptGenRandom"), n, (char *)out); }
int CryptReleaseContext(unsigned long long prov, unsigned) { Dev *d = win_live((void *)prov, "CryptReleaseContext"); winlive.erase(d); ck_close(d); return 1; }
#endif

char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if(p) memcpy(p, s, n); return p; }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; fail("CRASH", "assertion '%s' failed in %s() in step %d", e, fn, cur->step); }
void sim_abort(void) { fail("CRASH", "abort() in step %d", cur->step); }
void sim_exit(int) { fail("CRASH", "exit() in step %d", cur->step); }
void sim_stack_chk_fail(void) { fail("OOB", "stack smashing detected in step %d", cur->step); }
}
