/* Plan executor: drives the real library through its public interface and, when asked,
 * compares every observable result with the reference models. */
#include "plan.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sstream>
#include <algorithm>
#include <functional>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
extern "C" {
#include <kripto/block.h>
#include <kripto/stream.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/ae.h>
#include <kripto/random.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/pkcs7.h>
#include <kripto/memory.h>
#include <kripto/block/3way.h>
#include <kripto/block/aes.h>
#include <kripto/block/anubis.h>
#include <kripto/block/aria.h>
#include <kripto/block/blowfish.h>
#include <kripto/block/camellia.h>
#include <kripto/block/cast5.h>
#include <kripto/block/crax_s.h>
#include <kripto/block/des.h>
#include <kripto/block/gost.h>
#include <kripto/block/idea.h>
#include <kripto/block/khazad.h>
#include <kripto/block/lea.h>
#include <kripto/block/noekeon.h>
#include <kripto/block/rc2.h>
#include <kripto/block/rc5.h>
#include <kripto/block/rc6.h>
#include <kripto/block/rectangle.h>
#include <kripto/block/rijndael128.h>
#include <kripto/block/rijndael256.h>
#include <kripto/block/safer.h>
#include <kripto/block/safer_sk.h>
#include <kripto/block/saferpp.h>
#include <kripto/block/seed.h>
#include <kripto/block/serpent.h>
#include <kripto/block/shacal2.h>
#include <kripto/block/simon128.h>
#include <kripto/block/simon32.h>
#include <kripto/block/simon64.h>
#include <kripto/block/skipjack.h>
#include <kripto/block/sm4.h>
#include <kripto/block/speck128.h>
#include <kripto/block/speck32.h>
#include <kripto/block/speck64.h>
#include <kripto/block/tea.h>
#include <kripto/block/threefish1024.h>
#include <kripto/block/threefish256.h>
#include <kripto/block/threefish512.h>
#include <kripto/block/trax_l.h>
#include <kripto/block/trax_m.h>
#include <kripto/block/twofish.h>
#include <kripto/block/xtea.h>
#include <kripto/hash/blake256.h>
#include <kripto/hash/blake2b.h>
#include <kripto/hash/blake2s.h>
#include <kripto/hash/blake512.h>
#include <kripto/hash/keccak1600.h>
#include <kripto/hash/keccak800.h>
#include <kripto/hash/md5.h>
#include <kripto/hash/sha1.h>
#include <kripto/hash/sha2_256.h>
#include <kripto/hash/sha2_512.h>
#include <kripto/hash/sha3.h>
#include <kripto/hash/skein1024.h>
#include <kripto/hash/skein256.h>
#include <kripto/hash/skein512.h>
#include <kripto/hash/tiger.h>
#include <kripto/hash/whirlpool.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/chacha.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/keccak1600.h>
#include <kripto/stream/keccak800.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/rc4.h>
#include <kripto/stream/salsa20.h>
#include <kripto/stream/skein1024.h>
#include <kripto/stream/skein256.h>
#include <kripto/stream/skein512.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/keccak1600.h>
#include <kripto/mac/keccak800.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/skein1024.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/xcbc.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
void sim_free(void *);
}
#ifdef KSIM_FB
extern "C" unsigned long ksim_seedings, ksim_seedfails;
#endif

using rt::fail;
const char *const op_names[OP_COUNT] = {
#define X(o) #o,
KSIM_OPS(X)
#undef X
};
const char *const arg_names[A_COUNT] = {
#define X(o) #o,
KSIM_ARGS(X)
#undef X
};
std::map<std::string, uint64_t> cover;
double worst_budget;

/* ---- library side tables ---- */
static const kripto_desc_block *lib_block_const(int alg)
{
	int i = 0;
#define D(s) if(i++ == alg) return kripto_block_##s;
#define G(s) if(i++ == alg) return nullptr;
#define X(n, b, k, t, e) e
#include "blocks.inc"
#undef X
#undef G
#undef D
	return nullptr;
}
static const kripto_desc_block *lib_block_make(int alg)
{
	int i = 0;
#define D(s) i++;
#define G(s) if(i++ == alg) return kripto_block_##s();
#define X(n, b, k, t, e) e
#include "blocks.inc"
#undef X
#undef G
#undef D
	return nullptr;
}
static const kripto_desc_hash *lib_hash(int a)
{
	switch(a)
	{
		case H_MD5: return kripto_hash_md5; case H_SHA1: return kripto_hash_sha1; case H_SHA2_256: return kripto_hash_sha2_256;
		case H_SHA2_512: return kripto_hash_sha2_512; case H_BLAKE256: return kripto_hash_blake256; case H_BLAKE512: return kripto_hash_blake512;
		case H_BLAKE2S: return kripto_hash_blake2s; case H_BLAKE2B: return kripto_hash_blake2b; case H_KECCAK800: return kripto_hash_keccak800;
		case H_KECCAK1600: return kripto_hash_keccak1600; case H_SHA3: return kripto_hash_sha3; case H_SKEIN256: return kripto_hash_skein256;
		case H_SKEIN512: return kripto_hash_skein512; case H_SKEIN1024: return kripto_hash_skein1024; case H_TIGER: return kripto_hash_tiger;
		default: return kripto_hash_whirlpool;
	}
}

/* ---- data ---- */
static void gen_data(uint8_t *p, int64_t d, size_t n, bool secret)
{
	uint64_t s = (uint64_t)d;
	switch(rt::cfg.secret && secret ? 15 : s & 15)
	{
		case 0: memset(p, 0, n); return;
		case 1: memset(p, 0xFF, n); return;
		case 2: for(size_t i = 0; i < n; i++) p[i] = (uint8_t)(i + (s >> 4)); return;
		case 3: { Rng r(s); size_t k = n ? 1 + r.below(4) : 0; for(size_t i = 0; i < n; i++) p[i] = i < k ? (uint8_t)r.next() : 0xFF; return; }
		case 4: { Rng r(s); for(size_t i = 0; i < n; i++) p[i] = 0; if(n) p[r.below(n)] = (uint8_t)(1u << r.below(8)); return; }
		default: { Rng r(secret ? s ^ rt::cfg.secret : s); size_t i = 0; for(; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); } if(i < n) { uint64_t v = r.next(); memcpy(p + i, &v, n - i); } }
	}
}
static Bytes mkdata(int64_t d, size_t n, bool secret) { Bytes b(n); gen_data(b.data(), d, n, secret); return b; }

/* a caller's buffer of exactly n bytes */
struct In
{
	uint8_t *p; size_t n; Bytes c; int step;
	In(const Bytes &b, unsigned off, int st, bool nullok = false) : p(nullptr), n(b.size()), c(b), step(st) { if(n || !nullok) { p = rt::user_alloc(n, off); if(n) memcpy(p, c.data(), n); } }
	void check(const char *what) { if(p && n && memcmp(p, c.data(), n)) fail("OOB", "%s buffer modified by the call in step %d", what, step); }
	~In() { if(p) rt::user_free(p); }
	In(const In &) = delete;
};
struct Out
{
	uint8_t *p; size_t n;
	Out(size_t l, unsigned off) : p(rt::user_alloc(l, off)), n(l) {}
	~Out() { rt::user_free(p); }
	Out(const Out &) = delete;
};

/* very long buffers (A_kind == BIG): a caller's input whose pages repeat a two megabyte pattern, and a
 * lazily populated output; an unmapped page follows both */
enum { BIG = 9 };
struct BigBuf
{
	static const size_t P = 1u << 21; uint8_t *p, *base; size_t n, span; Bytes per;
	BigBuf(size_t len) : n(len) { take(); if(mmap(base, span - P, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) == MAP_FAILED) die(); p = base + (span - P - n); }
	BigBuf(size_t len, const Bytes &pattern) : n(len), per(pattern)
	{
		take(); int fd = memfd_create("ksim", 0); if(fd < 0) { char nm[] = "/tmp/ksimXXXXXX"; fd = mkstemp(nm); if(fd >= 0) unlink(nm); }
		if(fd < 0 || ftruncate(fd, (off_t)P)) die();
		for(size_t i = 0; i + P < span; i += P) if(mmap(base + i, P, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_SHARED, fd, 0) == MAP_FAILED) die();
		close(fd); p = base; memcpy(p, per.data(), P);
	}
	void take() { span = (n + P - 1) / P * P + P; base = (uint8_t *)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(base == MAP_FAILED) die(); }
	void check(const char *what, int step) { if(memcmp(p, per.data(), P)) fail("OOB", "%s buffer modified by the call in step %d", what, step); }
	template<class F> void each(F f) const { for(size_t i = 0; i < n; i += P) f(per.data(), n - i < P ? n - i : P); }
	[[noreturn]] static void die() { perror("ksim: large buffer"); _exit(2); }
	~BigBuf() { munmap(base, span); }
	BigBuf(const BigBuf &) = delete;
};
static bool is_big(const Step &st) { return st.a[A_kind] == BIG; }
static bool big_ok(int64_t len) { return len >= 0 && len <= (9LL << 30); }
static uint64_t reps(const Step &st) { return st.a[A_n] > 1 ? (uint64_t)st.a[A_n] : 1; }
/* one very long call gets CPU time in proportion to what this machine needs for a fixed amount of work */
struct Guard
{
	Guard(double n, double f = 1)
	{
		static double unit; auto cpu = [] { timespec q; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &q); return (double)q.tv_sec + (double)q.tv_nsec / 1e9; };
		if(!unit) { Bytes b(1 << 20, 3); double t0 = cpu(); auto c = m_hash_ctx(H_SHA2_256, 0, Bytes(), 32); for(int i = 0; i < 32; i++) c->input(b.data(), b.size()); c->output(32); unit = (cpu() - t0) / 32e6; if(unit < 2e-9) unit = 2e-9; }
		rt::arm(10 + f * 3 * n * unit);
	}
	~Guard() { rt::arm(2000); }
};
static double step_bytes(const Step &st)
{
	switch(st.op)
	{
		case OP_HI: case OP_MI: case OP_SE: case OP_SD: case OP_SP: return (double)st.a[A_len] * (double)reps(st);
		case OP_AE: case OP_AD: case OP_AH: return (double)st.a[A_len];
		case OP_HA: return (is_big(st) ? (double)st.a[A_len] : 0) + (st.a[A_out] > 100000 ? (double)st.a[A_out] * 2 : 0);
		case OP_HO: return st.a[A_len] > 100000 ? (double)st.a[A_len] * 8 : 0;
		case OP_KP: return (double)st.a[A_out] * 64;
		case OP_ME: case OP_MW: case OP_PR: case OP_PA: return (double)st.a[A_len];
	}
	return 0;
}

/* ---- objects ---- */
struct Obj
{
	void *p = nullptr; int alg = 0, sbox = 0; unsigned r = 0, klen = 0, ilen = 0, out = 0;
	const void *desc = nullptr;
	Bytes key, iv, msg, tweak, acc;     /* acc: output already seen */
	size_t produced = 0; int dir = 0; bool done = false;
	std::shared_ptr<HashCtx> hc; std::shared_ptr<MacCtx> mc; /* set once the message became too long to keep */
	std::shared_ptr<BlockM> bm; std::shared_ptr<StreamM> sm; std::shared_ptr<AeM> am;
	size_t handle = 0, consumed = 0; uint64_t seed_bytes = 0; int64_t seed_time = 0; unsigned long seedings = 0; uint64_t gen = 0; bool eof = false;
};
enum { TB, TH, TS, TM_, TA, TR, NT };
struct Task { rt::TaskCtx ctx; std::map<int, Obj> o[NT]; std::map<int, const void *> d[5]; std::vector<void *> owned; };
static Task *tasks;
static const Plan *plan; static RunOpt opt; static RunRes *res;
static uint64_t generators; static std::set<uint64_t> *windows; /* C17: 12-byte windows of generated output */

static void observe(uint64_t v) { uint64_t &x = res->obs[rt::cur->index]; x = hmix(x, v); }
static void observe(const void *p, size_t n) { observe(hbytes(p, n)); }
static void same(const uint8_t *got, const uint8_t *want, size_t n, const char *what, const std::string &alg, int step)
{
	for(size_t i = 0; i < n; i++) if(got[i] != want[i]) fail("FUNC", "%s of %s differs from the reference at byte %zu of %zu in step %d: got %02x, expected %02x", what, alg.c_str(), i, n, step, got[i], want[i]);
}
static void cov(const std::string &s) { cover[s]++; }

/* a bracketed library call with a work budget */
static void budget(double bytes, double rounds)
{
	if(plan->prop == "C20") rt::cfg.tick_limit = (uint64_t)(6e6 + bytes * (1 + rounds / 8.0) * 3000 + rounds * 3000);
	else if(rt::cfg.tick_limit) rt::cfg.tick_limit = 0;
}
#define LIB(...) (rt::enter(&t.ctx, st.id), libcall([&] { return __VA_ARGS__; }))
template<class F> static auto libcall(F f) -> typename std::enable_if<!std::is_void<decltype(f())>::value, decltype(f())>::type
{ auto x = f(); rt::leave(); res->ticks[rt::cur->index] += rt::call_ticks; if(rt::cfg.tick_limit) { double q = (double)rt::call_ticks / (double)rt::cfg.tick_limit; if(q > worst_budget) worst_budget = q; } return x; }
template<class F> static auto libcall(F f) -> typename std::enable_if<std::is_void<decltype(f())>::value>::type
{ f(); rt::leave(); res->ticks[rt::cur->index] += rt::call_ticks; if(rt::cfg.tick_limit) { double q = (double)rt::call_ticks / (double)rt::cfg.tick_limit; if(q > worst_budget) worst_budget = q; } }

/* creation with the retry rule: a refusal needs an injected failure, and goes away with it */
template<class T, class F> static T *obtain(Task &t, const Step &st, const char *what, F f)
{
	int before = t.ctx.step == st.id ? t.ctx.failed : 0;
	T *p = f(false);
	if(p) return p;
	if(t.ctx.failed == before) fail("FUNC", "%s returned NULL in step %d although no allocation failed", what, st.id);
	rt::stats["call_failed"]++;
	if(!plan->retry) return nullptr;
	t.ctx.nofault = true;
	p = f(true);
	t.ctx.nofault = false;
	if(!p) fail("FUNC", "%s still fails in step %d after memory became available again", what, st.id);
	rt::stats["call_retried"]++;
	return p;
}
/* one-shot calls: zero on success */
template<class F> static int perform(Task &t, const Step &st, const char *what, F f)
{
	int before = t.ctx.step == st.id ? t.ctx.failed : 0;
	int x = f();
	if(!x) return 0;
	if(t.ctx.failed == before) fail("FUNC", "%s reported failure in step %d although no allocation failed", what, st.id);
	rt::stats["call_failed"]++;
	if(!plan->retry) return x;
	t.ctx.nofault = true; x = f(); t.ctx.nofault = false;
	if(x) fail("FUNC", "%s still fails in step %d after memory became available again", what, st.id);
	rt::stats["call_retried"]++;
	return 0;
}

/* ---- descriptors ---- */
static const void *cached(Task &t, int k, int a)
{
	auto i = t.d[k].find(a); if(i != t.d[k].end()) return i->second;
	if(plan->shared) { auto j = tasks[T_PRO].d[k].find(a); if(j != tasks[T_PRO].d[k].end()) return j->second; }
	return nullptr;
}
static const void *remember(Task &t, int k, int a, const void *d, bool own) { if(d) { t.d[k][a] = d; if(own) t.owned.push_back((void *)d); } return d; }
static void acc(const char *what, const std::string &alg, uint64_t got, uint64_t want) { if(got != want) fail("FUNC", "%s of %s is %llu, expected %llu", what, alg.c_str(), (unsigned long long)got, (unsigned long long)want); }

static void limits(Task &t, const Step &st, const kripto_desc_block *d, int a) { acc("block size", block_names[a], LIB(kripto_block_size(d)), block_info[a].size); acc("maxkey", block_names[a], LIB(kripto_block_maxkey(d)), block_info[a].maxkey); acc("maxtweak", block_names[a], LIB(kripto_block_maxtweak(d)), block_info[a].maxtweak); }
static void limits(Task &t, const Step &st, const kripto_desc_hash *d, int a) { acc("blocksize", hash_names[a], LIB(kripto_hash_blocksize(d)), hash_info[a].block); acc("maxout", hash_names[a], LIB(kripto_hash_maxout(d)), hash_info[a].maxout); acc("maxsalt", hash_names[a], LIB(kripto_hash_maxsalt(d)), hash_info[a].maxsalt); }
static void limits(Task &t, const Step &st, const kripto_desc_stream *d, int a) { acc("maxkey", stream_name(a), LIB(kripto_stream_maxkey(d)), stream_maxkey(a)); acc("maxiv", stream_name(a), LIB(kripto_stream_maxiv(d)), stream_maxiv(a)); }
static void limits(Task &t, const Step &st, const kripto_desc_mac *d, int a) { acc("maxkey", mac_name(a), LIB(kripto_mac_maxkey(d)), mac_maxkey(a)); acc("maxtag", mac_name(a), LIB(kripto_mac_maxtag(d)), mac_maxtag(a)); }
static void limits(Task &t, const Step &st, const kripto_desc_ae *d, int a) { acc("maxkey", ae_name(a), LIB(kripto_ae_maxkey(d)), ae_maxkey(a)); acc("maxiv", ae_name(a), LIB(kripto_ae_maxiv(d)), ae_maxiv(a)); acc("maxtag", ae_name(a), LIB(kripto_ae_maxtag(d)), ae_maxtag(a)); }

static const kripto_desc_block *dblock(Task &t, const Step &st, int a)
{
	if(const void *c = cached(t, 0, a)) return (const kripto_desc_block *)c;
	const kripto_desc_block *d = a >= B_PLUG ? (const kripto_desc_block *)plug_desc(0, a) : lib_block_const(a); bool own = false;
	if(!d) { own = true; d = obtain<const kripto_desc_block>(t, st, "block descriptor creation", [&](bool) { return LIB(lib_block_make(a)); }); if(!d) return nullptr; }
	if(opt.model) limits(t, st, d, a);
	return (const kripto_desc_block *)remember(t, 0, a, d, own);
}
/* GOST with S-boxes of the caller's own, which have to outlive the descriptor; which >= 1 */
typedef unsigned char SBox[16];
static const SBox *own_sboxes(int which)
{
	static std::map<int, SBox *> all; SBox *&x = all[which];
	if(!x)
	{
		x = (SBox *)malloc(8 * 16); Rng r((uint64_t)which * 0x9E3779B97F4A7C15u + 11);
		for(int i = 0; i < 8; i++) { for(int j = 0; j < 16; j++) x[i][j] = (unsigned char)j; for(int j = 15; j; j--) std::swap(x[i][j], x[i][r.below(j + 1)]); if(which % 3 == 0) for(int j = 0; j < 16; j++) x[i][j] = (unsigned char)r.below(16); /* not a permutation: still invertible as a whole */ }
	}
	return x;
}
static bool is_gost(int a) { return !strncmp(block_names[a], "gost", 4); }
static const kripto_desc_block *dgost(Task &t, const Step &st, int a, int which)
{
	int k = B_ALL + which;
	if(const void *c = cached(t, 0, k)) return (const kripto_desc_block *)c;
	const SBox *s = own_sboxes(which);
	const kripto_desc_block *d = obtain<const kripto_desc_block>(t, st, "block descriptor creation", [&](bool) -> const kripto_desc_block * { return LIB(kripto_block_gost(s)); });
	if(!d) return nullptr;
	if(opt.model) limits(t, st, d, a);
	return (const kripto_desc_block *)remember(t, 0, k, d, true);
}
static const kripto_desc_hash *dhash(Task &t, const Step &st, int a)
{
	if(const void *c = cached(t, 1, a)) return (const kripto_desc_hash *)c;
	const kripto_desc_hash *d = a >= H_PLUG ? (const kripto_desc_hash *)plug_desc(1, a) : lib_hash(a);
	if(opt.model) limits(t, st, d, a);
	return (const kripto_desc_hash *)remember(t, 1, a, d, false);
}
static const kripto_desc_stream *dstream(Task &t, const Step &st, int a)
{
	if(const void *c = cached(t, 2, a)) return (const kripto_desc_stream *)c;
	int b, m; const kripto_desc_stream *d = nullptr; bool own = false;
	if(stream_is_mode(a, &b, &m))
	{
		const kripto_desc_block *bd = dblock(t, st, b); if(!bd) return nullptr;
		own = true;
		d = obtain<const kripto_desc_stream>(t, st, "mode descriptor creation", [&](bool) -> const kripto_desc_stream * {
			switch(m) { case S_ECB: return LIB(kripto_stream_ecb(bd)); case S_CBC: return LIB(kripto_stream_cbc(bd)); case S_CFB: return LIB(kripto_stream_cfb(bd));
				case S_OFB: return LIB(kripto_stream_ofb(bd)); default: return LIB(kripto_stream_ctr(bd)); } });
		if(!d) return nullptr;
	}
	else if(a >= S_PLUG) d = (const kripto_desc_stream *)plug_desc(2, a);
	else switch(a)
	{
		case S_CHACHA: d = kripto_stream_chacha; break; case S_SALSA20: d = kripto_stream_salsa20; break; case S_RC4: d = kripto_stream_rc4; break;
		case S_KECCAK800: d = kripto_stream_keccak800; break; case S_KECCAK1600: d = kripto_stream_keccak1600; break;
		case S_SKEIN256: d = kripto_stream_skein256; break; case S_SKEIN512: d = kripto_stream_skein512; break; default: d = kripto_stream_skein1024;
	}
	if(opt.model) limits(t, st, d, a);
	return (const kripto_desc_stream *)remember(t, 2, a, d, own);
}
static const kripto_desc_mac *dmac(Task &t, const Step &st, int a)
{
	if(const void *c = cached(t, 3, a)) return (const kripto_desc_mac *)c;
	const kripto_desc_mac *d = nullptr; bool own = false;
	if(a >= M_HMAC)
	{
		const void *in = a < M_OMAC ? (const void *)dhash(t, st, a - M_HMAC) : (const void *)dblock(t, st, a < M_XCBC ? a - M_OMAC : a - M_XCBC);
		if(!in) return nullptr;
		own = true;
		d = obtain<const kripto_desc_mac>(t, st, "MAC descriptor creation", [&](bool) -> const kripto_desc_mac * {
			if(a < M_OMAC) return LIB(kripto_mac_hmac((const kripto_desc_hash *)in));
			if(a < M_XCBC) return LIB(kripto_mac_omac((const kripto_desc_block *)in));
			return LIB(kripto_mac_xcbc((const kripto_desc_block *)in)); });
		if(!d) return nullptr;
	}
	else if(a >= M_PLUG) d = (const kripto_desc_mac *)plug_desc(3, a);
	else switch(a)
	{
		case M_KECCAK800: d = kripto_mac_keccak800; break; case M_KECCAK1600: d = kripto_mac_keccak1600; break;
		case M_SKEIN256: d = kripto_mac_skein256; break; case M_SKEIN512: d = kripto_mac_skein512; break; default: d = kripto_mac_skein1024;
	}
	if(opt.model) limits(t, st, d, a);
	return (const kripto_desc_mac *)remember(t, 3, a, d, own);
}
static const kripto_desc_ae *dae(Task &t, const Step &st, int a)
{
	if(const void *c = cached(t, 4, a)) return (const kripto_desc_ae *)c;
	int s, m; const kripto_desc_ae *d;
	if(ae_is_eax2(a, &s, &m))
	{
		const kripto_desc_stream *sd = dstream(t, st, s); if(!sd) return nullptr;
		const kripto_desc_mac *md = dmac(t, st, m); if(!md) return nullptr;
		d = obtain<const kripto_desc_ae>(t, st, "EAX2 descriptor creation", [&](bool) { return LIB(kripto_ae_eax2(sd, md)); });
	}
	else
	{
		const kripto_desc_block *b = dblock(t, st, a); if(!b) return nullptr;
		d = obtain<const kripto_desc_ae>(t, st, "EAX descriptor creation", [&](bool) { return LIB(kripto_ae_eax(b)); });
	}
	if(!d) return nullptr;
	if(opt.model) limits(t, st, d, a);
	return (const kripto_desc_ae *)remember(t, 4, a, d, true);
}

/* ---- argument domains ---- */
bool plugged; /* the plan at hand uses caller-supplied primitives */
static bool plugging() { return plugged; }
static int nblocks() { return plugged ? B_ALL : B_COUNT; }
bool hash_ok(int a, unsigned r, unsigned sl, unsigned out)
{
	if(a < 0 || a >= (plugging() ? H_ALL : H_COUNT) || !out) return false;
	const HashInfo &h = hash_info[a];
	if(sl > h.maxsalt || sl > 100000 || (h.maxout && out > h.maxout) || (out > 100000 && (a < H_SKEIN256 || a > H_SKEIN1024 || out > 1u << 24))) return false;
	if(a >= H_PLUG) return r <= 40;
	switch(a)
	{
		case H_MD5: case H_SHA1: return r == 0;
		case H_SHA2_256: return r <= 64 && r % 8 == 0 && r != 8; case H_SHA2_512: return r <= 80 && r % 8 == 0 && r != 8;
		case H_BLAKE256: case H_BLAKE512: case H_BLAKE2S: case H_BLAKE2B: return r <= 256;
		case H_KECCAK800: return r <= 40;
		case H_KECCAK1600: return r <= 48;
		case H_SHA3: return r <= 48;
		case H_SKEIN256: case H_SKEIN512: case H_SKEIN1024: return r % 8 == 0 && r <= 256;
		case H_TIGER: return r <= 256;
		default: return r <= 10;
	}
}
bool stream_ok(int a, unsigned r, unsigned kl, unsigned il)
{
	int b, m; if(a < 0 || a >= 350) return false;
	if(a >= (plugging() ? S_ALL : S_NATIVE) && a < 100) return false;
	bool mode = stream_is_mode(a, &b, &m); if(mode && b >= nblocks()) return false;
	if(!kl || kl > stream_maxkey(a) || kl > 100000 || il > stream_maxiv(a) || il > 100000) return false;
	if(mode) return block_rounds_ok(b, r, kl);
	if(a >= S_PLUG) return r <= 40;
	if(a == S_RC4) return r <= 5000;
	if(a == S_KECCAK800) return r <= 40; if(a == S_KECCAK1600) return r <= 48;
	if(a >= S_SKEIN256) return r % 8 == 0 && r <= 256;
	return r <= 256;
}
bool mac_ok(int a, unsigned r, unsigned kl, unsigned tl)
{
	if(a < 0 || a >= M_XCBC + nblocks() || (a >= (plugging() ? M_ALL : M_NATIVE) && a < M_HMAC) || !kl || kl > mac_maxkey(a) || kl > 100000 || !tl || tl > 100000) return false;
	if(mac_maxtag(a) && tl > mac_maxtag(a)) return false;
	if(a >= M_PLUG && a < M_ALL) return r <= 40;
	if(a == M_KECCAK800) return r <= 40 && tl <= 49; if(a == M_KECCAK1600) return r <= 48 && tl <= 99;
	if(a < M_HMAC) return r % 8 == 0 && r <= 256;
	if(a < M_OMAC) return hash_ok(a - M_HMAC, r, 0, tl);
	if(a < M_XCBC) return a - M_OMAC < nblocks() && block_rounds_ok(a - M_OMAC, r, kl);
	int b = a - M_XCBC; return block_info[b].maxkey >= block_info[b].size && block_rounds_ok(b, r, kl) && block_rounds_ok(b, r, block_info[b].size);
}
bool ae_ok(int a, unsigned r, unsigned kl, unsigned il, unsigned tl)
{
	int s, m; if(a < 0 || !kl || !tl) return false;
	if(!ae_is_eax2(a, &s, &m)) return a < nblocks() && kl <= block_info[a].maxkey && il <= block_info[a].size && tl <= block_info[a].size && block_rounds_ok(a, r, kl);
	if(kl < 2) return false;
	uint64_t sk = (kl + 1) / 2; if(sk > stream_maxkey(s)) sk = stream_maxkey(s);
	uint64_t mk = kl - sk; if(mk > mac_maxkey(m)) { mk = mac_maxkey(m); sk = kl - mk; }
	if(sk > stream_maxkey(s)) return false;
	unsigned si = tl < stream_maxiv(s) ? tl : stream_maxiv(s);
	return il <= stream_maxiv(s) && il <= 100000 && stream_ok(s, r, (unsigned)sk, si) && mac_ok(m, r, (unsigned)mk, tl);
}

/* ---- small helpers ---- */
static unsigned aoff(const Step &st) { return (unsigned)st.a[A_al] & 15; }
static unsigned boff(const Step &st) { return (unsigned)(st.a[A_al] >> 4) & 15; }
static bool nul(const Step &st) { return st.a[A_al] & 0x100; }
static Obj *look(Task &t, int type, int64_t slot) { auto i = t.o[type].find((int)slot); return i == t.o[type].end() ? nullptr : &i->second; }
static std::vector<size_t> cuts(size_t total, unsigned mult, int64_t seed)
{
	std::vector<size_t> v; Rng r((uint64_t)seed * 2654435761u + 7); size_t at = 0; unsigned style = (unsigned)r.below(4);
	while(at < total)
	{
		size_t rest = (total - at) / mult, k;
		switch(style) { case 0: k = rest; break; case 1: k = 1 + r.below(3); break; case 2: k = 1 + r.below(rest); break; default: k = r.below(40); }
		if(k > rest) k = rest;
		if(!k && r.chance(70)) k = 1;
		v.push_back(k * mult); at += k * mult;
	}
	if(r.chance(20)) v.push_back(0);
	return v;
}

static void dead(Task &t, int type, int64_t slot) { t.o[type].erase((int)slot); }

/* ---- block ciphers ---- */
static void op_block(Task &t, const Step &st)
{
	const int64_t *a = st.a; Obj *o = look(t, TB, a[A_slot]); bool sh = false;
	if(!o && plan->shared && (st.op == OP_BE || st.op == OP_BD)) { o = look(tasks[T_PRO], TB, a[A_slot]); sh = true; }
	switch(st.op)
	{
		case OP_BC: case OP_BR:
		{
			bool re = st.op == OP_BR; if(re ? !o : !!o) return;
			int alg = re ? o->alg : (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen];
			if(alg < 0 || alg >= nblocks() || !kl || kl > block_info[alg].maxkey || !block_rounds_ok(alg, r, kl)) return;
			int sb = re ? o->sbox : is_gost(alg) && a[A_kind] > 0 ? 1 + (int)(a[A_kind] & 15) : 0;
			const kripto_desc_block *d = re ? (const kripto_desc_block *)o->desc : sb ? dgost(t, st, alg, sb) : dblock(t, st, alg); if(!d) return;
			Bytes kb = mkdata(a[A_kd], kl, true); In key(kb, aoff(st), st.id);
			budget(kl, r);
			kripto_block *p = obtain<kripto_block>(t, st, re ? "block recreate" : "block create", [&](bool again) {
				if(re && !again) return LIB(kripto_block_recreate((kripto_block *)o->p, r, key.p, kl));
				return LIB(kripto_block_create(d, r, key.p, kl)); });
			key.check("key");
			if(!p) { if(re) dead(t, TB, a[A_slot]); observe(1); return; }
			if(!re) o = &(t.o[TB][(int)a[A_slot]] = Obj());
			o->p = p; o->alg = alg; o->r = r; o->klen = kl; o->desc = d; o->tweak.clear(); o->key = kb; o->sbox = sb;
			if(opt.model) { if(LIB(kripto_block_getdesc(p)) != d) fail("FUNC", "getdesc of a %s object does not return its descriptor in step %d", block_names[alg], st.id);
				o->bm = std::make_shared<BlockM>(alg, r, kb, sb ? own_sboxes(sb) : nullptr); if(sb) cov("block.own_sboxes"); }
			cov(std::string(re ? "block.recreate." : "block.create.") + block_names[alg]);
			observe(2); break;
		}
		case OP_BT:
		{
			if(!o || !block_info[o->alg].maxtweak || a[A_tl] < 1 || a[A_tl] > block_info[o->alg].maxtweak) return;
			Bytes tb = mkdata(a[A_id], (size_t)a[A_tl], false); In tw(tb, aoff(st), st.id, nul(st)); budget(64, 0);
			LIB(kripto_block_tweak((kripto_block *)o->p, tw.p, (unsigned)tw.n)); tw.check("tweak");
			if(opt.model) o->bm->tweak(tb);
			observe(3); break;
		}
		case OP_BE: case OP_BD:
		{
			if(!o) return;
			unsigned n = block_info[o->alg].size; Bytes ib = mkdata(a[A_d], n, true); bool e = st.op == OP_BE;
			In in(ib, aoff(st), st.id); Bytes got(n); budget(n, o->r);
			auto call = [&](const void *i, void *q) { if(e) LIB(kripto_block_encrypt((const kripto_block *)o->p, i, q)); else LIB(kripto_block_decrypt((const kripto_block *)o->p, i, q)); };
			if(a[A_ip]) { call(in.p, in.p); memcpy(got.data(), in.p, n); }
			else { Out out(n, boff(st)); call(in.p, out.p); in.check("input"); memcpy(got.data(), out.p, n); }
			if(opt.model) { Bytes w(n); if(e) o->bm->enc(ib.data(), w.data()); else o->bm->dec(ib.data(), w.data()); same(got.data(), w.data(), n, e ? "encryption" : "decryption", block_names[o->alg], st.id);
				Bytes z(n); if(e) o->bm->dec(w.data(), z.data()); else o->bm->enc(w.data(), z.data()); same(z.data(), ib.data(), n, "round trip", block_names[o->alg], st.id); }
			cov(std::string(e ? "block.enc." : "block.dec.") + block_names[o->alg]); if(sh) cov("shared.block");
			observe(got.data(), n); break;
		}
		case OP_BX: if(!o) return; budget(0, 0); LIB(kripto_block_destroy((kripto_block *)o->p)); dead(t, TB, a[A_slot]); observe(4); break;
	}
}

/* ---- hashes ---- */
static void op_hash(Task &t, const Step &st)
{
	const int64_t *a = st.a; Obj *o = look(t, TH, a[A_slot]);
	switch(st.op)
	{
		case OP_HC: case OP_HR:
		{
			bool re = st.op == OP_HR; if(re ? !o : !!o) return;
			int alg = re ? o->alg : (int)a[A_alg]; unsigned r = (unsigned)a[A_r], sl = (unsigned)a[A_ilen], out = (unsigned)a[A_out];
			if(!hash_ok(alg, r, sl, out)) return;
			const kripto_desc_hash *d = dhash(t, st, alg);
			Bytes sb = mkdata(a[A_id], sl, false); In salt(sb, aoff(st), st.id, nul(st)); budget(sl, r);
			kripto_hash *p = obtain<kripto_hash>(t, st, re ? "hash recreate" : "hash create", [&](bool again) {
				if(re && !again) return LIB(kripto_hash_recreate((kripto_hash *)o->p, r, salt.p, sl, out));
				return LIB(kripto_hash_create(d, r, salt.p, sl, out)); });
			salt.check("salt");
			if(!p) { if(re) dead(t, TH, a[A_slot]); observe(1); return; }
			if(!re) o = &(t.o[TH][(int)a[A_slot]] = Obj());
			o->p = p; o->alg = alg; o->r = r; o->iv = sb; o->out = out; o->desc = d; o->msg.clear(); o->produced = 0; o->hc.reset();
			if(opt.model && LIB(kripto_hash_getdesc(p)) != d) fail("FUNC", "getdesc of a %s object does not return its descriptor in step %d", hash_names[alg], st.id);
			cov(std::string(re ? "hash.recreate." : "hash.create.") + hash_names[alg]);
			observe(2); break;
		}
		case OP_HI:
		{
			if(!o || o->produced || a[A_len] < 0) return;
			size_t n = (size_t)a[A_len]; uint64_t k = reps(st); bool big = is_big(st); if(big ? !big_ok(a[A_len]) : n * k > 1u << 24 && n > 1u << 24) return;
			if(opt.model && (big || k > 1) && !o->hc) { o->hc = m_hash_ctx(o->alg, o->r, o->iv, o->out); o->hc->input(o->msg.data(), o->msg.size()); o->msg.clear(); }
			if(big)
			{
				BigBuf in(n, mkdata(a[A_d], BigBuf::P, true)); { Guard g((double)n); budget((double)n, o->r); LIB(kripto_hash_input((kripto_hash *)o->p, in.p, n)); } in.check("message", st.id);
				if(opt.model) in.each([&](const uint8_t *p, size_t z) { o->hc->input(p, z); });
				rt::stats["long_calls"]++; observe(3); break;
			}
			Bytes b = mkdata(a[A_d], n, true); In in(b, aoff(st), st.id, nul(st)); budget((double)n + 512, o->r);
			for(uint64_t i = 0; i < k; i++) LIB(kripto_hash_input((kripto_hash *)o->p, in.p, n));
			in.check("message"); if(k > 1) rt::stats["repeated_calls"] += k;
			if(opt.model) { if(o->hc) for(uint64_t i = 0; i < k; i++) o->hc->input(b.data(), n); else o->msg.insert(o->msg.end(), b.begin(), b.end()); }
			observe(3); break;
		}
		case OP_HO:
		{
			if(!o || a[A_len] < 1 || (o->hc && o->produced)) return;
			size_t n = (size_t)a[A_len]; unsigned mo = hash_info[o->alg].maxout; if(mo && o->produced + n > mo) return; if(((o->alg >= H_SKEIN256 && o->alg <= H_SKEIN1024) || o->alg >= H_PLUG) && o->produced + n > o->out) return;
			Out out(n, boff(st)); budget((double)n + 1024, o->r); LIB(kripto_hash_output((kripto_hash *)o->p, out.p, n));
			if(opt.model) { Bytes w = o->hc ? o->hc->output(n) : m_hash(o->alg, o->r, o->iv, o->out, o->msg.data(), o->msg.size(), o->produced + n); same(out.p, &w[o->produced], n, "digest", hash_names[o->alg], st.id); }
			o->produced += n; cov(std::string("hash.out.") + hash_names[o->alg]);
			observe(out.p, n); break;
		}
		case OP_HX: if(!o) return; budget(0, 0); LIB(kripto_hash_destroy((kripto_hash *)o->p)); dead(t, TH, a[A_slot]); observe(4); break;
		case OP_HA:
		{
			int alg = (int)a[A_alg]; unsigned r = (unsigned)a[A_r], sl = (unsigned)a[A_ilen], ol = (unsigned)a[A_out];
			bool vast = a[A_out] > 100000; /* one call for a very long output */
			if(vast ? !big_ok(a[A_out]) || is_big(st) || a[A_len] > 1 << 24 || alg < 0 || alg >= H_COUNT || hash_info[alg].maxout || !hash_ok(alg, r, sl, 1) : !hash_ok(alg, r, sl, ol)) return;
			if(a[A_len] < 0) return;
			const kripto_desc_hash *d = dhash(t, st, alg);
			size_t n = (size_t)a[A_len];
			if(vast)
			{
				size_t z = (size_t)a[A_out]; Bytes sb = mkdata(a[A_id], sl, false), b = mkdata(a[A_d], n, true);
				In salt(sb, aoff(st), st.id, nul(st)), in(b, boff(st), st.id, nul(st)); BigBuf out(z); budget((double)z * 4, r);
				int x = perform(t, st, "one-shot hash", [&] { Guard g((double)z, alg < H_SKEIN256 ? 30 : 4); return LIB(kripto_hash_all(d, r, salt.p, sl, in.p, n, out.p, z)); }); salt.check("salt"); in.check("message");
				if(x) { observe(1); return; }
				if(opt.model)
				{
					auto c = m_hash_ctx(alg, r, sb, z); c->input(b.data(), n); Bytes w(BigBuf::P);
					/* the rate of so long a Keccak output is two bytes: the start must do */
					size_t end = alg >= H_SKEIN256 && alg <= H_SKEIN1024 ? z : std::min<size_t>(z, 1 << 17);
					for(size_t at = 0; at < end;) { size_t k = std::min<size_t>(end - at, w.size()); c->squeeze(w.data(), k); if(memcmp(out.p + at, w.data(), k)) same(out.p + at, w.data(), k, "long one-shot digest", hash_names[alg], st.id); at += k; }
				}
				rt::stats["long_calls"]++; cov(std::string("hash.vast.") + hash_names[alg]); observe(out.p, std::min<size_t>(z, 1 << 16)); break;
			}
			if(is_big(st))
			{
				if(!big_ok(a[A_len])) return;
				Bytes sb = mkdata(a[A_id], sl, false); In salt(sb, aoff(st), st.id, nul(st)); Out out(ol, boff(st)); BigBuf in(n, mkdata(a[A_d], BigBuf::P, true)); budget((double)n, r);
				int x = perform(t, st, "one-shot hash", [&] { Guard g((double)n); return LIB(kripto_hash_all(d, r, salt.p, sl, in.p, n, out.p, ol)); }); in.check("message", st.id);
				if(x) { observe(1); return; }
				if(opt.model) { auto c = m_hash_ctx(alg, r, sb, ol); in.each([&](const uint8_t *p, size_t z) { c->input(p, z); }); Bytes w = c->output(ol); same(out.p, w.data(), ol, "one-shot digest", hash_names[alg], st.id); }
				rt::stats["long_calls"]++; observe(out.p, ol); break;
			}
			Bytes sb = mkdata(a[A_id], sl, false), b = mkdata(a[A_d], n, true);
			In salt(sb, aoff(st), st.id, nul(st)), in(b, boff(st), st.id, nul(st)); Out out(ol, boff(st)); budget((double)n + sl + ol + 1024, r);
			int x = perform(t, st, "one-shot hash", [&] { return LIB(kripto_hash_all(d, r, salt.p, sl, in.p, n, out.p, ol)); });
			salt.check("salt"); in.check("message");
			if(x) { observe(1); return; }
			if(opt.model) { Bytes w = m_hash(alg, r, sb, ol, b.data(), n, ol); same(out.p, w.data(), ol, "one-shot digest", hash_names[alg], st.id); }
			cov(std::string("hash.all.") + hash_names[alg]);
			observe(out.p, ol); break;
		}
	}
}

/* ---- streams ---- */
static kripto_stream *mkstream(Task &t, const Step &st, Obj *o, const kripto_desc_stream *d, unsigned r, const Bytes &kb, const Bytes &ib)
{
	In key(kb, aoff(st), st.id), iv(ib, boff(st), st.id, nul(st)); budget((double)kb.size() + ib.size() + 64, r);
	kripto_stream *p = obtain<kripto_stream>(t, st, o ? "stream recreate" : "stream create", [&](bool again) {
		if(o && !again) return LIB(kripto_stream_recreate((kripto_stream *)o->p, r, key.p, (unsigned)key.n, iv.p, (unsigned)iv.n));
		return LIB(kripto_stream_create(d, r, key.p, (unsigned)key.n, iv.p, (unsigned)iv.n)); });
	key.check("key"); iv.check("iv");
	return p;
}
static Obj *stream_setup(Task &t, const Step &st, int64_t slot, int alg, unsigned r, const Bytes &kb, const Bytes &ib)
{
	/* create, or recreate when the slot holds an object of the same algorithm; NULL when it failed */
	Obj *o = look(t, TS, slot); if(o && o->alg != alg) return nullptr;
	const kripto_desc_stream *d = o ? (const kripto_desc_stream *)o->desc : dstream(t, st, alg); if(!d) return nullptr;
	bool re = o; kripto_stream *p = mkstream(t, st, o, d, r, kb, ib);
	if(!p) { if(re) dead(t, TS, slot); return nullptr; }
	if(!o) o = &(t.o[TS][(int)slot] = Obj());
	o->p = p; o->alg = alg; o->r = r; o->desc = d; o->dir = 0; o->produced = 0; o->key = kb; o->iv = ib;
	if(opt.model)
	{
		if(LIB(kripto_stream_getdesc(p)) != d) fail("FUNC", "getdesc of a %s object does not return its descriptor in step %d", stream_name(alg).c_str(), st.id);
		acc("multof", stream_name(alg), LIB(kripto_stream_multof(p)), stream_multof(alg));
		o->sm = std::shared_ptr<StreamM>(m_stream(alg, r, kb, ib).release());
	}
	cov(std::string(re ? "stream.recreate." : "stream.create.") + stream_name(alg));
	return o;
}
static void stream_crypt(Task &t, const Step &st, Obj *o, bool e, const uint8_t *src, size_t n, uint8_t *dst, bool ip)
{
	Bytes ib(src, src + n); In in(ib, aoff(st), st.id, nul(st) && !ip); budget((double)n + 256, o->r > 40 ? 0 : o->r);
	auto call = [&](const void *i, void *q) { if(e) LIB(kripto_stream_encrypt((kripto_stream *)o->p, i, q, n)); else LIB(kripto_stream_decrypt((kripto_stream *)o->p, i, q, n)); };
	if(ip) { call(in.p, in.p); if(n) memcpy(dst, in.p, n); }
	else { Out out(n, boff(st)); call(in.p, out.p); in.check("input"); if(n) memcpy(dst, out.p, n); }
	if(opt.model) { Bytes w(n); if(e) o->sm->enc(ib.data(), w.data(), n); else o->sm->dec(ib.data(), w.data(), n); same(dst, w.data(), n, e ? "encryption" : "decryption", stream_name(o->alg), st.id); }
}
static bool dirful(int alg) { int m; return stream_is_mode(alg, nullptr, &m) && (m == S_CBC || m == S_CFB); }
static void op_stream(Task &t, const Step &st)
{
	const int64_t *a = st.a; Obj *o = look(t, TS, a[A_slot]);
	switch(st.op)
	{
		case OP_SC: case OP_SR:
		{
			bool re = st.op == OP_SR; if(re ? !o : !!o) return;
			int alg = re ? o->alg : (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen], il = (unsigned)a[A_ilen];
			if(!stream_ok(alg, r, kl, il)) return;
			o = stream_setup(t, st, a[A_slot], alg, r, mkdata(a[A_kd], kl, true), mkdata(a[A_id], il, false));
			observe(o ? 2 : 1); break;
		}
		case OP_SE: case OP_SD:
		{
			if(!o || a[A_len] < 0) return;
			bool e = st.op == OP_SE; unsigned mu = stream_multof(o->alg); size_t n = (size_t)a[A_len] / mu * mu;
			if(dirful(o->alg)) { int want = e ? 1 : 2; if(o->dir && o->dir != want) return; o->dir = want; }
			if(is_big(st))
			{
				if(!big_ok(a[A_len])) return;
				BigBuf in(n, mkdata(a[A_d], BigBuf::P, true)), out(n); budget((double)n, o->r);
				{ Guard g((double)n); if(e) LIB(kripto_stream_encrypt((kripto_stream *)o->p, in.p, out.p, n)); else LIB(kripto_stream_decrypt((kripto_stream *)o->p, in.p, out.p, n)); }
				in.check("input", st.id); rt::stats["long_calls"]++;
				if(opt.model) { size_t at = 0; Bytes w(BigBuf::P); in.each([&](const uint8_t *p, size_t z) { if(e) o->sm->enc(p, w.data(), z); else o->sm->dec(p, w.data(), z); if(memcmp(out.p + at, w.data(), z)) same(out.p + at, w.data(), z, e ? "long encryption" : "long decryption", stream_name(o->alg), st.id); at += z; }); }
				observe(3); break;
			}
			Bytes src = mkdata(a[A_d], n, true), dst(n);
			if(reps(st) > 1)
			{
				In in(src, aoff(st), st.id); Out out(n, boff(st)); budget((double)n, o->r); Bytes w(n);
				for(uint64_t k = reps(st); k; k--)
				{
					if(e) LIB(kripto_stream_encrypt((kripto_stream *)o->p, in.p, out.p, n)); else LIB(kripto_stream_decrypt((kripto_stream *)o->p, in.p, out.p, n));
					if(opt.model) { if(e) o->sm->enc(src.data(), w.data(), n); else o->sm->dec(src.data(), w.data(), n); if(memcmp(out.p, w.data(), n)) same(out.p, w.data(), n, e ? "repeated encryption" : "repeated decryption", stream_name(o->alg), st.id); }
				}
				in.check("input"); rt::stats["repeated_calls"] += reps(st); observe(out.p, n); break;
			}
			stream_crypt(t, st, o, e, src.data(), n, dst.data(), a[A_ip]);
			cov(std::string(e ? "stream.enc." : "stream.dec.") + stream_name(o->alg));
			observe(dst.data(), n); break;
		}
		case OP_SP:
		{
			int m; if(!o || a[A_len] < 0 || (stream_is_mode(o->alg, nullptr, &m) && (m == S_ECB || m == S_CBC))) return;
			if(dirful(o->alg)) { if(o->dir && o->dir != 1) return; o->dir = 1; }
			size_t n = (size_t)a[A_len] / stream_multof(o->alg) * stream_multof(o->alg);
			if(is_big(st))
			{
				if(!big_ok(a[A_len])) return;
				BigBuf out(n); budget((double)n, o->r); { Guard g((double)n); LIB(kripto_stream_prng((kripto_stream *)o->p, out.p, n)); } rt::stats["long_calls"]++;
				if(opt.model) { Bytes w(BigBuf::P); for(size_t i = 0; i < n; i += BigBuf::P) { size_t z = n - i < BigBuf::P ? n - i : BigBuf::P; o->sm->prng(w.data(), z); same(out.p + i, w.data(), z, "long generated keystream", stream_name(o->alg), st.id); } }
				observe(3); break;
			}
			Out out(n, boff(st)); budget((double)n + 256, o->r > 40 ? 0 : o->r);
			for(uint64_t k = reps(st); k; k--)
			{
				LIB(kripto_stream_prng((kripto_stream *)o->p, out.p, n));
				if(opt.model) { Bytes w(n); o->sm->prng(w.data(), n); same(out.p, w.data(), n, "generated keystream", stream_name(o->alg), st.id); }
			}
			cov("stream.prng." + stream_name(o->alg)); observe(out.p, n); break;
		}
		case OP_SX: if(!o) return; budget(0, 0); LIB(kripto_stream_destroy((kripto_stream *)o->p)); dead(t, TS, a[A_slot]); observe(4); break;
	}
}

/* ---- warps: the world's volume clock jumps ----
 * An object that counts the blocks it has processed is moved on by as many blocks as bring its counter just below a
 * power of two, as if they had been processed: terabytes of data in no time.  The counter is found in a scratch object
 * of the same kind as the one word that grows by a constant step with every block, and the find is trusted only when
 * a scratch object moved on by a harmless distance behaves as the reference does there; otherwise nothing is done. */
struct Ctr { long off = -1; uint64_t step = 0; };
template<class F> static Ctr find_counter(const void *p, std::initializer_list<uint64_t> steps, F advance)
{
	Ctr c; const rt::Blk *b = rt::find(p); if(!b || b->p != p || b->n < 8) return c;
	std::vector<Bytes> s; auto snap = [&] { s.push_back(Bytes(b->p, b->p + b->n)); };
	snap(); advance(1); snap(); advance(1); snap(); advance(3); snap();
	auto w = [&](int k, size_t o) { uint32_t v; memcpy(&v, &s[(size_t)k][o], 4); return v; };
	for(size_t o = 0; o + 4 <= b->n; o += 4) for(uint64_t d : steps)
		if(w(1, o) - w(0, o) == (uint32_t)d && w(2, o) - w(1, o) == (uint32_t)d && w(3, o) - w(2, o) == 3 * (uint32_t)d)
		{ if(c.off >= 0) { c.off = -1; return c; } c.off = (long)o; c.step = d; }
	return c;
}
static bool poke(void *p, const Ctr &c, uint64_t blocks, bool wide)
{
	const rt::Blk *b = rt::find(p); if(!b || b->p != p || (size_t)c.off + (wide ? 8 : 4) > b->n) return false;
	if(wide) { uint64_t v; memcpy(&v, b->p + c.off, 8); v += blocks * c.step; memcpy(b->p + c.off, &v, 8); }
	else { uint32_t v; memcpy(&v, b->p + c.off, 4); v += (uint32_t)(blocks * c.step); memcpy(b->p + c.off, &v, 4); }
	return true;
}
static void op_warp(Task &t, const Step &st)
{
	const int64_t *a = st.a; bool hash = a[A_kind] & 1, wide = a[A_kind] & 2; uint64_t below = (uint64_t)a[A_pos] & 7;
	Obj *o = look(t, hash ? TH : TS, a[A_slot]); if(!o || !opt.model) return;
	budget(1 << 20, o->r); Ctr c; unsigned B; Bytes z(1024, 0x5A), g(1024);
	if(hash)
	{
		if(o->produced || o->alg >= H_PLUG) return; B = hash_info[o->alg].block; if(!B || B > 256) return;
		/* a counter of more than 64 bits may wrap its low word; those of 64 bits end there */
		if(wide && o->alg != H_SHA2_512 && o->alg != H_BLAKE512 && o->alg != H_BLAKE2B && o->alg != H_WHIRLPOOL) return;
		const kripto_desc_hash *d = (const kripto_desc_hash *)o->desc; Bytes salt = o->iv;
		auto mk = [&] { return LIB(kripto_hash_create(d, o->r, salt.empty() ? nullptr : salt.data(), (unsigned)salt.size(), o->out)); };
		auto in = [&](kripto_hash *h, size_t n) { LIB(kripto_hash_input(h, z.data(), n)); };
		kripto_hash *h = mk(); if(!h) return; in(h, B + 1);
		c = find_counter(h, {1, (uint64_t)B, 8ull * B}, [&](unsigned k) { while(k--) in(h, B); }); LIB(kripto_hash_destroy(h)); if(c.off < 0) return;
		unsigned n = hash_info[o->alg].maxout && o->out > hash_info[o->alg].maxout ? hash_info[o->alg].maxout : o->out; if(!n || n > 1024) return;
		for(uint64_t k : {(uint64_t)5, (uint64_t)(wide ? 1ULL << 33 : 9ULL)})
		{
			h = mk(); if(!h) return; in(h, B + 1); bool ok = poke(h, c, k, k > 9); in(h, 9); LIB(kripto_hash_output(h, g.data(), n)); LIB(kripto_hash_destroy(h));
			auto m = m_hash_ctx(o->alg, o->r, salt, o->out); m->input(z.data(), B + 1); if(!m->warp(k)) return; m->input(z.data(), 9);
			if(!ok || memcmp(m->output(n).data(), g.data(), n)) { rt::stats["warps_declined"]++; return; }
		}
	}
	else
	{
		if(wide || !o->sm || !(B = o->sm->warp(0)) || B > 256) return;
		if(o->alg == S_CHACHA && o->iv.size() > 8 && o->iv.size() <= 12) return; /* that variant ends at 2^32 blocks */
		const kripto_desc_stream *d = (const kripto_desc_stream *)o->desc;
		auto mk = [&] { return LIB(kripto_stream_create(d, o->r, o->key.data(), (unsigned)o->key.size(), o->iv.empty() ? nullptr : o->iv.data(), (unsigned)o->iv.size())); };
		auto in = [&](kripto_stream *s, size_t n) { LIB(kripto_stream_encrypt(s, z.data(), g.data(), n)); };
		kripto_stream *s = mk(); if(!s) return; in(s, B + 1);
		c = find_counter(s, {1}, [&](unsigned k) { while(k--) in(s, B); }); LIB(kripto_stream_destroy(s)); if(c.off < 0) return;
		s = mk(); if(!s) return; in(s, B + 1); bool ok = poke(s, c, 1000, false); in(s, 2 * B); LIB(kripto_stream_destroy(s));
		StreamP m = m_stream(o->alg, o->r, o->key, o->iv); Bytes w(2 * B); m->enc(z.data(), w.data(), B + 1); m->warp(1000); m->enc(z.data(), w.data(), 2 * B);
		if(!ok || memcmp(w.data(), g.data(), 2 * B)) { rt::stats["warps_declined"]++; return; }
	}
	const rt::Blk *b = rt::find(o->p); if(!b || b->p != o->p || (size_t)c.off + 8 > b->n) return;
	uint64_t v = 0, k; memcpy(&v, b->p + c.off, wide ? 8 : 4);
	k = wide ? (~0ULL - v) / c.step : (0xFFFFFFFFULL - v) / c.step; if(k < below) return; k -= below;
	if(!poke(o->p, c, k, wide)) return;
	if(hash)
	{
		if(!o->hc) { o->hc = m_hash_ctx(o->alg, o->r, o->iv, o->out); o->hc->input(o->msg.data(), o->msg.size()); o->msg.clear(); }
		o->hc->warp(k); cov(std::string(wide ? "hash.warp64." : "hash.warp32.") + hash_names[o->alg]);
	}
	else { o->sm->warp(k); cov("stream.warp32." + stream_name(o->alg)); }
	rt::stats["volume_warps"]++; rt::stats["warped_gigabytes"] += k * B >> 30;
}

/* ---- MACs ---- */
static Bytes mutate(const Bytes &tag, int kind, int64_t pos, int64_t val)
{
	Bytes c = tag; if(c.empty()) return c;
	size_t n = c.size();
	switch(kind)
	{
		case 0: break;
		case 1: c[(size_t)pos % n] ^= (uint8_t)(val & 255 ? val & 255 : 1); break;
		case 2: for(auto &x : c) x = 0; break;
		case 3: for(auto &x : c) x = (uint8_t)~x; break;
		case 4: { Rng r((uint64_t)val); for(auto &x : c) x = (uint8_t)r.next(); break; }
		case 5: for(size_t i = (size_t)pos % n; i < n; i++) c[i] ^= (uint8_t)(0x80 >> (val & 7)); break; /* same prefix only */
		case 6: { size_t i = (size_t)pos % n, j = (i + 1 + (size_t)(val & 7)) % n; uint8_t m = (uint8_t)(1u << (val & 7)); c[i] ^= m; if(j != i) c[j] ^= m; break; } /* two differences that cancel in a sum */
		case 7: std::rotate(c.begin(), c.begin() + (long)((size_t)pos % n), c.end()); break;
	}
	return c;
}
static kripto_mac *mkmac(Task &t, const Step &st, Obj *o, const kripto_desc_mac *d, unsigned r, const Bytes &kb, unsigned tl)
{
	In key(kb, aoff(st), st.id); budget((double)kb.size() + 512, r);
	kripto_mac *p = obtain<kripto_mac>(t, st, o ? "MAC recreate" : "MAC create", [&](bool again) {
		if(o && !again) return LIB(kripto_mac_recreate((kripto_mac *)o->p, r, key.p, (unsigned)key.n, tl));
		return LIB(kripto_mac_create(d, r, key.p, (unsigned)key.n, tl)); });
	key.check("key"); return p;
}
static void op_mac(Task &t, const Step &st)
{
	const int64_t *a = st.a; Obj *o = look(t, TM_, a[A_slot]);
	switch(st.op)
	{
		case OP_MC: case OP_MR:
		{
			bool re = st.op == OP_MR; if(re ? !o : !!o) return;
			int alg = re ? o->alg : (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen], tl = (unsigned)a[A_tl];
			if(!mac_ok(alg, r, kl, tl)) return;
			const kripto_desc_mac *d = re ? (const kripto_desc_mac *)o->desc : dmac(t, st, alg); if(!d) { observe(1); return; }
			Bytes kb = mkdata(a[A_kd], kl, true); kripto_mac *p = mkmac(t, st, o, d, r, kb, tl);
			if(!p) { if(re) dead(t, TM_, a[A_slot]); observe(1); return; }
			if(!re) o = &(t.o[TM_][(int)a[A_slot]] = Obj());
			o->p = p; o->alg = alg; o->r = r; o->key = kb; o->out = tl; o->desc = d; o->msg.clear(); o->done = false; o->mc.reset();
			if(opt.model && LIB(kripto_mac_getdesc(p)) != d) fail("FUNC", "getdesc of a %s object does not return its descriptor in step %d", mac_name(alg).c_str(), st.id);
			cov(std::string(re ? "mac.recreate." : "mac.create.") + mac_name(alg)); observe(2); break;
		}
		case OP_MI:
		{
			if(!o || o->done || a[A_len] < 0) return;
			size_t n = (size_t)a[A_len]; uint64_t k = reps(st); bool big = is_big(st); if(big ? !big_ok(a[A_len]) : n > 1u << 24) return;
			if((big || k > 1) && !o->mc) { if(!opt.model) return; o->mc = m_mac_ctx(o->alg, o->r, o->key, o->out); o->mc->input(o->msg.data(), o->msg.size()); o->msg.clear(); }
			if(big)
			{
				BigBuf in(n, mkdata(a[A_d], BigBuf::P, true)); budget((double)n, o->r); { Guard g((double)n); LIB(kripto_mac_input((kripto_mac *)o->p, in.p, n)); } in.check("message", st.id);
				in.each([&](const uint8_t *p, size_t z) { o->mc->input(p, z); }); rt::stats["long_calls"]++; observe(3); break;
			}
			Bytes b = mkdata(a[A_d], n, true); In in(b, aoff(st), st.id, nul(st)); budget((double)n + 512, o->r);
			for(uint64_t i = 0; i < k; i++) LIB(kripto_mac_input((kripto_mac *)o->p, in.p, n));
			in.check("message"); if(k > 1) rt::stats["repeated_calls"] += k;
			if(o->mc) for(uint64_t i = 0; i < k; i++) o->mc->input(b.data(), n); else o->msg.insert(o->msg.end(), b.begin(), b.end());
			observe(3); break;
		}
		case OP_MT:
		{
			if(!o || o->done || a[A_len] < 1) return;
			unsigned n = (unsigned)a[A_len]; if(n > o->out) n = o->out;
			Out out(n, boff(st)); budget(n + 2048, o->r); LIB(kripto_mac_tag((kripto_mac *)o->p, out.p, n)); o->done = true;
			if(opt.model) { Bytes w = o->mc ? o->mc->tag() : m_mac(o->alg, o->r, o->key, o->out, o->msg.data(), o->msg.size()); same(out.p, w.data(), n, "tag", mac_name(o->alg), st.id); }
			cov("mac.tag." + mac_name(o->alg)); observe(out.p, n); break;
		}
		case OP_MV:
		{
			if(!o || o->done || a[A_len] < 1) return;
			unsigned n = (unsigned)a[A_len]; if(n > o->out) n = o->out;
			/* without a model the candidate is derived from a twin object's tag */
			Bytes w;
			if(opt.model) { w = o->mc ? o->mc->tag() : m_mac(o->alg, o->r, o->key, o->out, o->msg.data(), o->msg.size()); w.resize(n); }
			else
			{
				Out q(n, 0); In mk(o->key, 0, st.id), mm(o->msg, 0, st.id); budget(1e9, 0);
				kripto_mac *p = obtain<kripto_mac>(t, st, "MAC create", [&](bool) { return LIB(kripto_mac_create((const kripto_desc_mac *)o->desc, o->r, mk.p, (unsigned)mk.n, o->out)); });
				if(!p) { observe(1); return; }
				LIB(kripto_mac_input(p, mm.p, mm.n)); LIB(kripto_mac_tag(p, q.p, n)); LIB(kripto_mac_destroy(p));
				w.assign(q.p, q.p + n);
			}
			Bytes c = mutate(w, (int)a[A_kind], a[A_pos], a[A_val]); In tag(c, aoff(st), st.id); budget(n + 2048, o->r);
			int x = LIB(kripto_mac_verify((kripto_mac *)o->p, tag.p, n)); o->done = true; tag.check("tag");
			bool eq = c == w;
			if(!!x != eq) fail("FUNC", "verification of %s tag by %s in step %d returned %d", eq ? "the correct" : "an altered", mac_name(o->alg).c_str(), st.id, x);
			cov((eq ? "mac.accept." : "mac.reject.") + mac_name(o->alg)); observe((uint64_t)!!x); break;
		}
		case OP_MX: if(!o) return; budget(0, 0); LIB(kripto_mac_destroy((kripto_mac *)o->p)); dead(t, TM_, a[A_slot]); observe(4); break;
		case OP_MA:
		{
			int alg = (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen], tl = (unsigned)a[A_tl];
			if(!mac_ok(alg, r, kl, tl) || a[A_len] < 0) return;
			const kripto_desc_mac *d = dmac(t, st, alg); if(!d) { observe(1); return; }
			size_t n = (size_t)a[A_len]; Bytes kb = mkdata(a[A_kd], kl, true), b = mkdata(a[A_d], n, true);
			In key(kb, aoff(st), st.id), in(b, boff(st), st.id, nul(st)); Out out(tl, boff(st)); budget((double)n + kl + 4096, r);
			int x = perform(t, st, "one-shot MAC", [&] { return LIB(kripto_mac_all(d, r, key.p, kl, in.p, (unsigned)n, out.p, tl)); });
			key.check("key"); in.check("message");
			if(x) { observe(1); return; }
			if(opt.model) { Bytes w = m_mac(alg, r, kb, tl, b.data(), n); same(out.p, w.data(), tl, "one-shot tag", mac_name(alg), st.id); }
			cov("mac.all." + mac_name(alg)); observe(out.p, tl); break;
		}
	}
}

/* ---- authenticated encryption ---- */
static Obj *ae_setup(Task &t, const Step &st, int64_t slot, int alg, unsigned r, const Bytes &kb, const Bytes &ib, unsigned tl)
{
	Obj *o = look(t, TA, slot); if(o && o->alg != alg) return nullptr;
	const kripto_desc_ae *d = o ? (const kripto_desc_ae *)o->desc : dae(t, st, alg); if(!d) return nullptr;
	bool re = o; In key(kb, aoff(st), st.id), iv(ib, boff(st), st.id, nul(st)); budget((double)kb.size() + ib.size() + tl + 2048, r);
	kripto_ae *p = obtain<kripto_ae>(t, st, o ? "AE recreate" : "AE create", [&](bool again) {
		if(o && !again) return LIB(kripto_ae_recreate((kripto_ae *)o->p, r, key.p, (unsigned)key.n, iv.p, (unsigned)iv.n, tl));
		return LIB(kripto_ae_create(d, r, key.p, (unsigned)key.n, iv.p, (unsigned)iv.n, tl)); });
	key.check("key"); iv.check("iv");
	if(!p) { if(re) dead(t, TA, slot); return nullptr; }
	if(!o) o = &(t.o[TA][(int)slot] = Obj());
	o->p = p; o->alg = alg; o->r = r; o->out = tl; o->desc = d; o->dir = 0; o->done = false; o->key = kb;
	if(opt.model)
	{
		if(LIB(kripto_ae_getdesc(p)) != d) fail("FUNC", "getdesc of a %s object does not return its descriptor in step %d", ae_name(alg).c_str(), st.id);
		acc("multof", ae_name(alg), LIB(kripto_ae_multof(p)), ae_multof(alg));
		o->am = std::shared_ptr<AeM>(m_ae(alg, r, kb, ib, tl).release());
	}
	cov(std::string(re ? "ae.recreate." : "ae.create.") + ae_name(alg));
	return o;
}
static void ae_crypt(Task &t, const Step &st, Obj *o, bool e, const uint8_t *src, size_t n, uint8_t *dst, bool ip)
{
	Bytes ib(src, src + n); In in(ib, aoff(st), st.id, nul(st) && !ip); budget((double)n * 2 + 512, o->r);
	auto call = [&](const void *i, void *q) { if(e) LIB(kripto_ae_encrypt((kripto_ae *)o->p, i, q, n)); else LIB(kripto_ae_decrypt((kripto_ae *)o->p, i, q, n)); };
	if(ip) { call(in.p, in.p); if(n) memcpy(dst, in.p, n); }
	else { Out out(n, boff(st)); call(in.p, out.p); in.check("input"); if(n) memcpy(dst, out.p, n); }
	if(opt.model) { Bytes w(n); if(e) o->am->enc(ib.data(), w.data(), n); else o->am->dec(ib.data(), w.data(), n); same(dst, w.data(), n, e ? "encryption" : "decryption", ae_name(o->alg), st.id); }
}
static void ae_hdr(Task &t, const Step &st, Obj *o, const uint8_t *src, size_t n)
{
	Bytes ib(src, src + n); In in(ib, aoff(st), st.id, nul(st)); budget((double)n + 512, o->r);
	LIB(kripto_ae_header((kripto_ae *)o->p, in.p, n)); in.check("header");
	if(opt.model) o->am->header(ib.data(), n);
}
/* one message over a misbehaving channel */
static void op_channel(Task &t, const Step &st)
{
	const int64_t *a = st.a; int alg = (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen], il = (unsigned)a[A_ilen], tl = (unsigned)a[A_tl];
	if(!ae_ok(alg, r, kl, il, tl) || a[A_slot] == a[A_m] || a[A_len] < 0 || a[A_n] < 0) return;
	Obj *s = look(t, TA, a[A_slot]), *q = look(t, TA, a[A_m]); if((s && s->alg != alg) || (q && q->alg != alg)) return;
	unsigned mu = ae_multof(alg); size_t n = (size_t)a[A_len] / mu * mu, hn = (size_t)a[A_n]; Rng rs((uint64_t)a[A_pos] * 31 + (uint64_t)a[A_val] + 5);
	Bytes key = mkdata(a[A_kd], kl, true), iv = mkdata(a[A_id], il, false), msg = mkdata(a[A_d], n, true), hdr = mkdata(a[A_id] ^ 0x5551, hn, false), ct(n), tag(tl);
	s = ae_setup(t, st, a[A_slot], alg, r, key, iv, tl); if(!s) { observe(1); return; }
	size_t at = 0; for(size_t k : cuts(hn, 1, a[A_pos] + 1)) { ae_hdr(t, st, s, &hdr[0] + at, k); at += k; }
	std::vector<std::pair<size_t, size_t>> chunks; at = 0;
	for(size_t k : cuts(n, mu, a[A_pos] + 2)) { ae_crypt(t, st, s, true, msg.data() + at, k, ct.data() + at, a[A_ip] & 1); chunks.push_back({at, k}); at += k; }
	{ Out o(tl, boff(st)); budget(4096, r); LIB(kripto_ae_tag((kripto_ae *)s->p, o.p, tl)); s->done = true; memcpy(tag.data(), o.p, tl);
	  if(opt.model) { Bytes w = s->am->tag(); same(tag.data(), w.data(), tl, "tag", ae_name(alg), st.id); } }
	observe(ct.data(), n); observe(tag.data(), tl);
	/* the channel */
	Bytes rct = ct, rh = hdr, riv = iv, rtag = tag; int64_t v = a[A_val];
	auto flip = [&](Bytes &b) { if(!b.empty()) b[rs.below(b.size())] ^= (uint8_t)(1u << rs.below(8)); };
	switch(a[A_kind])
	{
		case 1: flip(rct); break;
		case 2: if(n) rct.resize((n / mu - 1 - (size_t)v % (n / mu)) * mu); break;
		case 3: { Bytes x = mkdata(v & 1 ? 0 : v, mu * (1 + (size_t)v % 3), false); rct.insert(rct.end(), x.begin(), x.end()); break; }
		case 4: if(!chunks.empty()) { auto c = chunks[(size_t)v % chunks.size()]; Bytes x(ct.begin() + (long)c.first, ct.begin() + (long)(c.first + c.second)); rct.insert(rct.begin() + (long)(c.first + c.second), x.begin(), x.end()); } break;
		case 5: if(!chunks.empty()) { auto c = chunks[(size_t)v % chunks.size()]; rct.erase(rct.begin() + (long)c.first, rct.begin() + (long)(c.first + c.second)); } break;
		case 6: if(chunks.size() > 1) { size_t i = (size_t)v % (chunks.size() - 1); auto c = chunks[i], e = chunks[i + 1]; std::rotate(rct.begin() + (long)c.first, rct.begin() + (long)e.first, rct.begin() + (long)(e.first + e.second)); } break;
		case 7: flip(rh); break;
		case 8: if(hn) rh.resize((size_t)v % hn); break;
		case 9: { Bytes x = mkdata(v & 1 ? 0 : v, 1 + (size_t)v % 20, false); rh.insert(rh.end(), x.begin(), x.end()); break; }
		case 10: flip(rtag); break;
		case 11: flip(riv); break;
		case 12: if(il) riv.resize((size_t)v % il); break;
		case 13: if(il < ae_maxiv(alg)) riv.push_back((uint8_t)(v & 1 ? 0 : v)); break;
		case 14: rct.insert(rct.end(), ct.begin(), ct.end()); break;
		case 15: if(n && mu == 1) { rh.push_back(rct[0]); rct.erase(rct.begin()); } break;
		case 16: std::swap(rh, riv); if(riv.size() > ae_maxiv(alg)) std::swap(rh, riv); break;
		case 17: rtag = mutate(tag, 6, v, v); break;
		case 18: if(n) { size_t b = ae_multof(alg) > 1 ? mu : 16; if(n >= 2 * b) std::swap_ranges(rct.begin(), rct.begin() + (long)b, rct.begin() + (long)b); } break;
		default: break;
	}
	bool altered = rct != ct || rh != hdr || riv != iv || rtag != tag;
	if(!ae_ok(alg, r, kl, (unsigned)riv.size(), tl)) return;
	if(altered) rt::stats["channel_corrupted"]++; else rt::stats["channel_clean"]++;
	q = ae_setup(t, st, a[A_m], alg, r, key, riv, tl); if(!q) { observe(1); return; }
	Bytes pt(rct.size());
	/* header pieces may come between the data pieces */
	std::vector<size_t> hc = cuts(rh.size(), 1, a[A_pos] + 3), cc = cuts(rct.size(), mu, a[A_pos] + 4); size_t hi = 0, ci = 0, ha = 0, ca = 0; bool mix = a[A_pos] & 1;
	while(hi < hc.size() || ci < cc.size())
	{
		bool h = hi < hc.size() && (ci >= cc.size() || !mix || rs.chance(50));
		if(h) { ae_hdr(t, st, q, rh.data() + ha, hc[hi]); ha += hc[hi++]; }
		else { ae_crypt(t, st, q, false, rct.data() + ca, cc[ci], pt.data() + ca, a[A_ip] & 2); ca += cc[ci++]; }
	}
	In tb(rtag, aoff(st), st.id); budget(4096, r); int x = LIB(kripto_ae_verify((kripto_ae *)q->p, tb.p, tl)); q->done = true; tb.check("tag");
	bool expect = !altered;
	if(opt.model) { Bytes w = q->am->tag(); w.resize(tl); expect = w == rtag; if(altered && expect && tl >= 8) rt::stats["channel_collision"]++; /* round counts that make the cipher an involution: the mode itself collides */ }
	if((opt.model || !altered) && !!x != expect) /* whether an altered message collides is for the model to say */ fail("FUNC", "%s in step %d: receiver %s a message that the channel %s (channel fault kind %d)", ae_name(alg).c_str(), st.id, x ? "accepted" : "rejected", altered ? "had altered" : "delivered unchanged", (int)a[A_kind]);
	if(!altered && pt != msg) fail("FUNC", "%s in step %d: accepted plaintext differs from the message sent", ae_name(alg).c_str(), st.id);
	cov((altered ? "ae.reject." : "ae.accept.") + ae_name(alg)); cov("channel.kind" + std::to_string((int)a[A_kind]));
	observe(pt.data(), pt.size()); observe((uint64_t)!!x);
}
static void op_ae(Task &t, const Step &st)
{
	const int64_t *a = st.a; Obj *o = look(t, TA, a[A_slot]);
	switch(st.op)
	{
		case OP_AC: case OP_AR:
		{
			bool re = st.op == OP_AR; if(re ? !o : !!o) return;
			int alg = re ? o->alg : (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen], il = (unsigned)a[A_ilen], tl = (unsigned)a[A_tl];
			if(!ae_ok(alg, r, kl, il, tl)) return;
			o = ae_setup(t, st, a[A_slot], alg, r, mkdata(a[A_kd], kl, true), mkdata(a[A_id], il, false), tl);
			observe(o ? 2 : 1); break;
		}
		case OP_AH:
			if(!o || o->done || a[A_len] < 0) return;
			if(is_big(st))
			{
				if(!big_ok(a[A_len])) return;
				BigBuf in((size_t)a[A_len], mkdata(a[A_id], BigBuf::P, false)); budget((double)in.n, o->r); { Guard g((double)in.n); LIB(kripto_ae_header((kripto_ae *)o->p, in.p, in.n)); } in.check("header", st.id);
				if(opt.model) in.each([&](const uint8_t *p, size_t z) { o->am->header(p, z); });
				rt::stats["long_calls"]++; observe(3); break;
			}
			{ Bytes b = mkdata(a[A_id], (size_t)a[A_len], false); ae_hdr(t, st, o, b.data(), b.size()); } observe(3); break;
		case OP_AE: case OP_AD:
		{
			if(!o || o->done || a[A_len] < 0) return;
			bool e = st.op == OP_AE; int want = e ? 1 : 2; if(o->dir && o->dir != want) return; o->dir = want;
			unsigned mu = ae_multof(o->alg); size_t n = (size_t)a[A_len] / mu * mu;
			if(is_big(st))
			{
				if(!big_ok(a[A_len])) return;
				BigBuf in(n, mkdata(a[A_d], BigBuf::P, true)), out(n); budget((double)n, o->r);
				{ Guard g((double)n, 2); if(e) LIB(kripto_ae_encrypt((kripto_ae *)o->p, in.p, out.p, n)); else LIB(kripto_ae_decrypt((kripto_ae *)o->p, in.p, out.p, n)); }
				in.check("input", st.id); rt::stats["long_calls"]++;
				if(opt.model) { size_t at = 0; Bytes w(BigBuf::P); in.each([&](const uint8_t *p, size_t z) { if(e) o->am->enc(p, w.data(), z); else o->am->dec(p, w.data(), z); if(memcmp(out.p + at, w.data(), z)) same(out.p + at, w.data(), z, e ? "long encryption" : "long decryption", ae_name(o->alg), st.id); at += z; }); }
				observe(3); break;
			}
			Bytes src = mkdata(a[A_d], n, true), dst(n);
			ae_crypt(t, st, o, e, src.data(), n, dst.data(), a[A_ip]); cov(std::string(e ? "ae.enc." : "ae.dec.") + ae_name(o->alg));
			observe(dst.data(), n); break;
		}
		case OP_AT:
		{
			if(!o || o->done || a[A_len] < 1) return;
			unsigned n = (unsigned)a[A_len]; if(n > o->out) n = o->out;
			Out out(n, boff(st)); budget(4096, o->r); LIB(kripto_ae_tag((kripto_ae *)o->p, out.p, n)); o->done = true;
			if(opt.model) { Bytes w = o->am->tag(); same(out.p, w.data(), n, "tag", ae_name(o->alg), st.id); }
			cov("ae.tag." + ae_name(o->alg)); observe(out.p, n); break;
		}
		case OP_AV:
		{
			if(!o || o->done || a[A_len] < 1) return;
			unsigned n = (unsigned)a[A_len]; if(n > o->out) n = o->out;
			Bytes w, c;
			if(opt.model) { w = o->am->tag(); w.resize(n); c = mutate(w, (int)a[A_kind], a[A_pos], a[A_val]); }
			else c = mkdata(a[A_val] | 15, n, false);
			In tag(c, aoff(st), st.id); budget(4096, o->r); int x = LIB(kripto_ae_verify((kripto_ae *)o->p, tag.p, n)); o->done = true; tag.check("tag");
			if(opt.model) { bool eq = c == w; if(!!x != eq) fail("FUNC", "verification of %s tag by %s in step %d returned %d", eq ? "the correct" : "an altered", ae_name(o->alg).c_str(), st.id, x); }
			observe((uint64_t)!!x); break;
		}
		case OP_AX: if(!o) return; budget(0, 0); LIB(kripto_ae_destroy((kripto_ae *)o->p)); dead(t, TA, a[A_slot]); observe(4); break;
		case OP_CH: op_channel(t, st); break;
	}
}

/* ---- key derivation ---- */
/* requests that need more memory than there is, whatever their sizes look like after rounding to some word size:
 * the only right answer is the error */
enum { MONSTER = 1 };
static void kdf_monster(Task &t, const Step &st)
{
	const int64_t *a = st.a; int mac = (int)a[A_alg]; unsigned pl = (unsigned)a[A_klen], sl = (unsigned)a[A_ilen]; bool kp = st.op == OP_KP;
	if(a[A_out] < 1 || mac < 0 || mac >= 250 || !mac_ok(mac, 0, pl, mac_maxtag(mac) ? mac_maxtag(mac) : 49)) return;
	__uint128_t need; uint64_t n = (uint64_t)a[A_n], ol = (uint64_t)a[A_out]; uint32_t rr = (uint32_t)a[A_m], p = (uint32_t)a[A_pos];
	if(kp) { if(mac_maxtag(mac) || !n || n > 3) return; need = ol; }
	else { if(n < 2 || (n & (n - 1)) || !rr || !p || ol > 100000 || (uint64_t)rr * p >= 1u << 30) return; need = (__uint128_t)128 * rr * ((__uint128_t)n + p); }
	if(need <= (__uint128_t)rt::cfg.arena_limit * 4 || (kp && !big_ok((int64_t)ol))) return;
	const kripto_desc_mac *d = dmac(t, st, mac); if(!d) { observe(1); return; }
	Bytes pb = mkdata(a[A_kd], pl, true), sb = mkdata(a[A_id], sl, false); In pass(pb, aoff(st), st.id), salt(sb, boff(st), st.id, nul(st)); BigBuf out(ol);
	budget(4e6, 0); size_t live = rt::live_lib(); Guard guard(3e8);
	int x = kp ? LIB(kripto_pbkdf2(d, 0, (unsigned)n, pass.p, pl, salt.p, sl, out.p, ol)) : LIB(kripto_scrypt(d, 0, n, rr, p, pass.p, pl, salt.p, sl, out.p, ol));
	if(!x) fail("FUNC", "%s claims success in step %d although it cannot have had the memory it needs", kp ? "PBKDF2" : "scrypt", st.id);
	if(rt::live_lib() != live) fail("LEAK", "%s failed in step %d and left %zu blocks allocated", kp ? "PBKDF2" : "scrypt", st.id, rt::live_lib() - live);
	size_t k = ol < 4096 ? ol : 4096; for(size_t i = 0; i < k; i++) if(out.p[i] || out.p[ol - 1 - i]) fail("FUNC", "%s reported an error in step %d after writing to the output", kp ? "PBKDF2" : "scrypt", st.id);
	pass.check("password"); salt.check("salt"); rt::stats[kp ? "pbkdf2_beyond_memory" : "scrypt_beyond_memory"]++; observe(1);
}
static void op_kdf(Task &t, const Step &st)
{
	const int64_t *a = st.a; int mac = (int)a[A_alg]; unsigned r = (unsigned)a[A_r], pl = (unsigned)a[A_klen], sl = (unsigned)a[A_ilen]; size_t ol = (size_t)a[A_out];
	unsigned hl = mac >= 0 && mac < 250 ? mac_maxtag(mac) : 0; if(!hl) hl = (unsigned)ol;
	if(a[A_kind] == MONSTER) { kdf_monster(t, st); return; }
	if(!ol || a[A_out] > (st.op == OP_KP ? 300000000 : 200000) || !mac_ok(mac, r, pl, hl)) return;
	const kripto_desc_mac *d = dmac(t, st, mac); if(!d) { observe(1); return; }
	Bytes pb = mkdata(a[A_kd], pl, true), sb = mkdata(a[A_id], sl, false), w; In pass(pb, aoff(st), st.id), salt(sb, boff(st), st.id, nul(st)); Out out(ol, boff(st));
	int x; const char *nm;
	size_t live = rt::live_lib();
	if(st.op == OP_KP)
	{
		unsigned it = (unsigned)a[A_n]; if(!it || it > 100000) return;
		budget(((double)ol / hl + 1) * it * (double)(512 + pl + hl) + ((double)ol / hl + 1) * sl, r); nm = "PBKDF2";
		x = perform(t, st, nm, [&] { int y = LIB(kripto_pbkdf2(d, r, it, pass.p, pl, salt.p, sl, out.p, ol)); if(y && rt::live_lib() != live) fail("LEAK", "PBKDF2 failed in step %d and left %zu blocks allocated", st.id, rt::live_lib() - live); return y; });
		if(!x && opt.model) w = m_pbkdf2(mac, r, it, pb, sb, ol);
	}
	else
	{
		uint64_t n = (uint64_t)a[A_n]; uint32_t rr = (uint32_t)a[A_m], p = (uint32_t)a[A_pos]; nm = "scrypt";
		if(n < 2 || (n & (n - 1)) || n > 65536 || !rr || !p || rr * p > 4096 || (double)n * rr * 128 > 32e6) return;
		/* a descriptor whose MAC has no maximum tag uses the requested length: both PBKDF2 lengths must be acceptable */
		if(!mac_maxtag(mac) && !mac_ok(mac, r, pl, 128 * rr * p)) return;
		budget((double)n * rr * p * 600 + (double)rr * p * 128 * 600 + (double)ol * 600 + sl, r);
		x = perform(t, st, nm, [&] { int y = LIB(kripto_scrypt(d, r, n, rr, p, pass.p, pl, salt.p, sl, out.p, ol)); if(y && rt::live_lib() != live) fail("LEAK", "scrypt failed in step %d and left %zu blocks allocated", st.id, rt::live_lib() - live); return y; });
		if(!x && opt.model) w = m_scrypt(mac, r, n, rr, p, pb, sb, ol);
	}
	pass.check("password"); salt.check("salt");
	if(x) { observe(1); return; }
	if(opt.model) same(out.p, w.data(), ol, "derived key", std::string(nm) + "-" + mac_name(mac), st.id);
	cov(std::string(nm) + "." + mac_name(mac)); observe(out.p, ol);
}

/* ---- padding ---- */
static size_t ref_unpad(const Bytes &b) { size_t n = b.size(); uint8_t v = b[n - 1]; if(!v || v > n) return n; for(size_t i = n - v; i < n; i++) if(b[i] != v) return n; return n - v; }
static void op_pad(Task &t, const Step &st)
{
	const int64_t *a = st.a; size_t n = (size_t)a[A_len]; unsigned pad = (unsigned)a[A_n];
	if(a[A_len] < 0) return;
	if(is_big(st) && (st.op == OP_PA || st.op == OP_PR))
	{
		if(!big_ok(a[A_len]) || n < BigBuf::P) return;
		if(st.op == OP_PA)
		{
			if(pad < 1 || pad > 255 || a[A_m] < 0 || a[A_m] > 600) return;
			size_t add = pad - n % pad, cap = n + (size_t)a[A_m], want = n + add > cap ? 0 : n + add; BigBuf b(cap, mkdata(a[A_d], BigBuf::P, true)); Bytes w = b.per;
			size_t got; { Guard g(1e6); got = LIB(kripto_pkcs7_add(b.p, n, pad, cap)); } if(got != want) fail("FUNC", "padding %zu bytes to a multiple of %u with room for %zu returned %zu, expected %zu, in step %d", n, pad, cap, got, want, st.id);
			for(size_t i = n; i < want; i++) w[i % BigBuf::P] = (uint8_t)add;
			same(b.p, w.data(), BigBuf::P, "padded buffer", "pkcs7", st.id); rt::stats["long_calls"]++; observe(got); return;
		}
		size_t v = (size_t)a[A_val] & 255; Bytes per = mkdata(a[A_d], BigBuf::P, true); for(size_t i = 0; i < v; i++) per[(n - 1 - i) % BigBuf::P] = (uint8_t)v;
		if(a[A_pos]) per[(n - 1 - (size_t)(a[A_pos] & 255) % (v ? v : 1)) % BigBuf::P] ^= 1;
		BigBuf b(n, per); Bytes tail; for(size_t i = n - 300; i < n; i++) tail.push_back(per[i % BigBuf::P]);
		size_t got = LIB(kripto_pkcs7_rem(b.p, n)), want = n - (300 - ref_unpad(tail)); b.check("padded", st.id);
		if(got != want) fail("FUNC", "removing padding from %zu bytes returned %zu, expected %zu, in step %d", n, got, want, st.id);
		rt::stats["long_calls"]++; observe(got); return;
	}
	if(st.op == OP_PA)
	{
		if(pad < 1 || pad > 255 || a[A_m] < 0) return;
		size_t add = pad - n % pad, cap = (size_t)a[A_m]; if(cap < n) cap = n; if(cap > n + 600) cap = n + 600;
		Bytes b = mkdata(a[A_d], cap, true); In buf(b, aoff(st), st.id); budget((double)cap + 256, 0);
		size_t got = LIB(kripto_pkcs7_add(buf.p, n, pad, cap)); size_t want = n + add > cap ? 0 : n + add;
		if(got != want) fail("FUNC", "padding %zu bytes to a multiple of %u with room for %zu returned %zu, expected %zu, in step %d", n, pad, cap, got, want, st.id);
		Bytes w = b; for(size_t i = n; i < want; i++) w[i] = (uint8_t)add;
		same(buf.p, w.data(), cap, "padded buffer", "pkcs7", st.id);
		cov("pad.add"); observe(buf.p, cap); return;
	}
	if(st.op == OP_PR)
	{
		if(!n) return;
		Bytes b = mkdata(a[A_d], n, true); size_t v = (size_t)a[A_val] & 255;
		switch(a[A_kind]) { case 0: break; case 1: for(size_t i = 0; i < v && i < n; i++) b[n - 1 - i] = (uint8_t)v; break; case 2: b[n - 1] = (uint8_t)v; break;
			case 3: for(size_t i = 0; i < v && i < n; i++) b[n - 1 - i] = (uint8_t)v; b[n - 1 - (size_t)a[A_pos] % n] ^= (uint8_t)(1u << (a[A_pos] >> 4 & 7)); break; }
		In buf(b, aoff(st), st.id); budget((double)n + 256, 0); size_t got = LIB(kripto_pkcs7_rem(buf.p, n)), want = ref_unpad(b); buf.check("padded");
		if(got != want) fail("FUNC", "removing padding from %zu bytes returned %zu, expected %zu, in step %d", n, got, want, st.id);
		cov(want == n ? "pad.malformed" : "pad.rem"); observe((uint64_t)got); return;
	}
	/* transport: pad, encrypt, channel, decrypt, unpad */
	int alg = (int)a[A_alg]; unsigned r = (unsigned)a[A_r], kl = (unsigned)a[A_klen], il = (unsigned)a[A_ilen];
	if(!stream_ok(alg, r, kl, il) || a[A_slot] == a[A_m] || pad < 1 || pad > 255) return;
	unsigned mu = stream_multof(alg); if(pad % mu) return;
	Obj *s = look(t, TS, a[A_slot]), *q = look(t, TS, a[A_m]); if((s && s->alg != alg) || (q && q->alg != alg)) return;
	Bytes key = mkdata(a[A_kd], kl, true), iv = mkdata(a[A_id], il, false), msg = mkdata(a[A_d], n, true);
	size_t total = n + pad - n % pad; Bytes buf = msg; buf.resize(total, 0);
	{ In b(buf, aoff(st), st.id); budget((double)total + 256, 0); size_t got = LIB(kripto_pkcs7_add(b.p, n, pad, total)); if(got != total) fail("FUNC", "padding %zu bytes to a multiple of %u returned %zu in step %d", n, pad, got, st.id); buf.assign(b.p, b.p + total); }
	s = stream_setup(t, st, a[A_slot], alg, r, key, iv); if(!s) { observe(1); return; }
	Bytes ct(total); size_t at = 0; for(size_t k : cuts(total, mu, a[A_pos] + 1)) { stream_crypt(t, st, s, true, &buf[at < total ? at : 0], k, &ct[at < total ? at : 0], a[A_ip] & 1); at += k; }
	Bytes rc = ct; Rng rs((uint64_t)a[A_val] + 3);
	switch(a[A_kind])
	{
		case 1: rc[rs.below(total)] ^= (uint8_t)(1u << rs.below(8)); break;
		case 2: if(total / mu > 1) rc.resize((1 + rs.below(total / mu - 1)) * mu); break;
		case 3: { size_t k = rc.size() > mu ? rs.below(total / mu) * mu : 0; Bytes x(rc.begin() + (long)k, rc.begin() + (long)(k + mu)); rc.insert(rc.end(), x.begin(), x.end()); break; }
		case 4: if(total / mu > 1) { size_t i = rs.below(total / mu - 1) * mu; std::swap_ranges(rc.begin() + (long)i, rc.begin() + (long)(i + mu), rc.begin() + (long)(i + mu)); } break;
		case 5: rc[total - 1] ^= (uint8_t)(1 + rs.below(255)); break;
		default: break;
	}
	bool alt = rc != ct; rt::stats[alt ? "channel_corrupted" : "channel_clean"]++;
	q = stream_setup(t, st, a[A_m], alg, r, key, iv); if(!q) { observe(1); return; }
	Bytes pt(rc.size()); at = 0; for(size_t k : cuts(rc.size(), mu, a[A_pos] + 2)) { stream_crypt(t, st, q, false, &rc[at < rc.size() ? at : 0], k, &pt[at < pt.size() ? at : 0], a[A_ip] & 2); at += k; }
	In b(pt, aoff(st), st.id); budget((double)pt.size() + 256, 0); size_t got = LIB(kripto_pkcs7_rem(b.p, pt.size())); b.check("padded");
	if(!alt) { if(got != n || memcmp(pt.data(), msg.data(), n)) fail("FUNC", "a message of %zu bytes came back as %zu bytes through %s in step %d", n, got, stream_name(alg).c_str(), st.id); }
	else { size_t want = ref_unpad(pt); if(got > pt.size()) fail("FUNC", "unpadding %zu bytes reported %zu in step %d", pt.size(), got, st.id); if(got != want) fail("FUNC", "unpadding corrupted data of %zu bytes reported %zu, expected %zu, in step %d", pt.size(), got, want, st.id); }
	cov((alt ? "transport.corrupted." : "transport.clean.") + stream_name(alg)); observe(pt.data(), got);
}
static void op_mem(Task &t, const Step &st)
{
	const int64_t *a = st.a; if(a[A_len] < 0) return; size_t n = (size_t)a[A_len];
	if(is_big(st))
	{
		if(!big_ok(a[A_len]) || n < 16) return;
		if(st.op == OP_MW) { BigBuf x(n); for(size_t i = 0; i < n; i += 4096) x.p[i] = 0x77; x.p[n - 1] = 1; { Guard g((double)n); LIB(kripto_memory_wipe(x.p, n)); } for(size_t i = 0; i < n; i += 4096) if(x.p[i]) fail("SECRET", "wiping %zu bytes left byte %zu as it was in step %d", n, i, st.id); if(x.p[n - 1]) fail("SECRET", "wiping %zu bytes left the last one as it was in step %d", n, st.id); rt::stats["long_calls"]++; observe(1); return; }
		/* zero pages that are never written: only the pages around a difference take memory */
		BigBuf x(n), y(n); size_t at = (size_t)a[A_pos] % n; if(a[A_val]) x.p[at] ^= (uint8_t)a[A_val];
		int got; { Guard g((double)n, 8); got = LIB(kripto_memory_equals(x.p, y.p, n)); } bool eq = !(uint8_t)a[A_val];
		if(!!got != eq) fail("FUNC", "comparing two %s buffers of %zu bytes returned %d in step %d (difference at %zu)", eq ? "equal" : "different", n, got, st.id, at);
		rt::stats["long_calls"]++; observe((uint64_t)!!got); return;
	}
	Bytes b = mkdata(a[A_d], n, true);
	if(st.op == OP_MW) { In x(b, aoff(st), st.id); LIB(kripto_memory_wipe(x.p, n)); for(size_t i = 0; i < n; i++) if(x.p[i]) fail("SECRET", "wiping %zu bytes left byte %zu as it was in step %d", n, i, st.id); cov("memory.wipe"); observe(x.p, n); return; }
	Bytes c = mutate(b, (int)a[A_kind], a[A_pos], a[A_val]); In x(b, aoff(st), st.id), y(c, boff(st), st.id);
	int got = LIB(kripto_memory_equals(x.p, y.p, n)); x.check("first"); y.check("second");
	if(!!got != (b == c)) fail("FUNC", "comparing two %s buffers of %zu bytes returned %d in step %d", b == c ? "equal" : "different", n, got, st.id);
	cov(b == c ? "memory.equal" : "memory.differ"); observe((uint64_t)!!got);
}

/* ---- random ---- */
/* the self-test's statistics, recomputed; returns -1 outside, +1 clearly inside, 0 too close to call */
static int sample_quality(const uint8_t *s)
{
	double cnt[256] = {0}, ent = 0, chi = 0, avg = 0, c1 = 0, c2 = 0, c3 = 0, flips = 0, bits = 0, rep = 0; uint8_t prev = 0;
	for(int i = 0; i < 4096; i++)
	{
		cnt[s[i]]++; bits += __builtin_popcount(s[i]);
		unsigned w = (unsigned)(prev & 1) << 8 | s[i]; flips += __builtin_popcount((w ^ (w >> 1)) & 0xFF);
		c1 += (double)prev * s[i]; c2 += s[i]; c3 += (double)s[i] * s[i]; rep += prev == s[i]; prev = s[i];
	}
	for(int i = 0; i < 256; i++) { double t = cnt[i] - 16; chi += t * t; t = cnt[i] / 4096; if(t > 0) ent -= t * __builtin_log2(t); avg += i * cnt[i]; }
	chi /= 16; avg /= 4096; double q = c2 * c2, den = 4096 * c3 - q, corr = den ? (4096 * c1 - q) / den : 1; if(corr < 0) corr = -corr;
	double gap = 0; int last[256]; double sum[256] = {0}; for(int i = 0; i < 256; i++) last[i] = -1;
	for(int i = 0; i < 4096; i++) { sum[s[i]] += i - last[s[i]]; last[s[i]] = i; }
	for(int i = 0; i < 256; i++) gap += cnt[i] ? sum[i] / cnt[i] : 4096; gap /= 256;
	bits /= 32768; flips /= 32768;
	bool all = true; for(int i = 0; i < 256; i++) all = all && cnt[i];
	int out = (ent < 7.8) | (avg < 120 || avg > 135) << 1 | (bits < 0.475 || bits > 0.525) << 2 | (chi < 150) << 3 | (chi > 420) << 4 | (flips < 0.465 || flips > 0.535) << 5 | (rep / 4096 > 0.13) << 6 | (corr > 0.16) << 7 | (all && (gap < 170 || gap > 350)) << 8;
	static const char *const names[] = {"entropy", "mean", "ones", "even", "uneven", "flips", "repeats", "correlation", "distance"};
	for(int i = 0; i < 9; i++) if(out == 1 << i) rt::stats[std::string("selftest_only_") + names[i]]++;
	if(out) return -1;
	if(ent > 7.93 && avg > 125.8 && avg < 129.7 && bits > 0.4925 && bits < 0.5075 && chi > 205 && chi < 305 && flips > 0.4925 && flips < 0.5075 && rep / 4096 < 0.05 && corr < 0.08 && gap > 215 && gap < 262) return 1;
	return 0;
}
static void op_random(Task &t, const Step &st)
{
	const int64_t *a = st.a; Obj *o = look(t, TR, a[A_slot]);
	switch(st.op)
	{
		case OP_RC:
		{
			if(o) return;
			size_t h = rt::delivered.size(), opens = rt::opened.size(); budget(1e6, 0);
#ifdef KSIM_FB
			unsigned long s0 = ksim_seedings;
			kripto_random *p = obtain<kripto_random>(t, st, "random source creation", [&](bool) { s0 = ksim_seedings; unsigned long d0 = ksim_seedfails; kripto_random *x = LIB(kripto_random_create()); if(x && ksim_seedfails != d0) fail("FUNC", "a generator was created in step %d although deriving its seed failed", st.id); return x; });
			if(!p) { observe(1); return; }
			(void)h; (void)opens;
			if(ksim_seedings == s0) fail("FUNC", "the fallback generator was created without seeding in step %d", st.id);
			o = &(t.o[TR][(int)a[A_slot]] = Obj()); o->p = p; o->seed_time = rt::now_s; o->seedings = ksim_seedings; o->gen = ++generators;
#else
			kripto_random *p = LIB(kripto_random_create());
			bool refused = false; for(size_t i = h; i < rt::delivered.size(); i++) if(rt::cfg.openfail & (1 << i)) refused = true;
			
#ifdef KSIM_WIN
			const std::string want;
#else
			const std::string want = rt::cfg.env.empty() ? "" : rt::cfg.env;
#endif

			for(size_t i = opens; i < rt::opened.size(); i++) if(!want.empty() ? rt::opened[i] != want : rt::opened[i] != "/dev/urandom" && rt::opened[i] != "/dev/random") fail("FUNC", "random source opened '%s' instead of '%s' in step %d", rt::opened[i].c_str(), want.c_str(), st.id);
			if(!p) { if(!refused && !t.ctx.failed) fail("FUNC", "random source creation failed in step %d although the device opens", st.id); cov("random.refused"); observe(1); return; }
			if(refused && rt::delivered.size() == h + 1) fail("FUNC", "random source creation succeeded in step %d although the device cannot be opened", st.id);
			o = &(t.o[TR][(int)a[A_slot]] = Obj()); o->p = p; o->handle = rt::delivered.size() > h ? rt::delivered.size() - 1 : h;
#endif
			cov("random.create"); observe(2); break;
		}
		case OP_RG: case OP_RT:
		{
			if(!o || a[A_len] < 0) return;
#ifndef KSIM_FB
			if(st.op == OP_RG && is_big(st))
			{ /* gigabytes: only sixteen bytes of each mebibyte are filled by the device and compared */
				if(!big_ok(a[A_len]) || o->handle >= rt::delivered.size()) return;
				size_t n = (size_t)a[A_len], h = o->handle; uint64_t f0 = rt::dev_faults, e0 = rt::stats["dev_end"]; BigBuf out(n); int64_t off0 = rt::dev_off[h]; size_t k; budget((double)n, 0);
				{ Guard g((double)n); rt::vast = true; k = LIB(kripto_random_gen((kripto_random *)o->p, out.p, n)); rt::vast = false; }
				std::vector<uint8_t> &dv = rt::delivered[h]; size_t av = dv.size() - o->consumed, got = (size_t)(rt::dev_off[h] - off0); bool faulted = rt::dev_faults != f0 || rt::stats["dev_end"] != e0;
				if(k > n) fail("FUNC", "a random read of %zu bytes reported %zu in step %d", n, k, st.id);
				if(k > av + got) fail("FUNC", "a random read reported %zu bytes in step %d, the device delivered %zu", k, st.id, av + got);
				if(k < n && !faulted && !o->eof) fail("FUNC", "a random read returned %zu of %zu bytes in step %d although the device had no fault", k, n, st.id);
				if(k && memcmp(out.p, dv.data() + o->consumed, k < av ? k : av)) fail("FUNC", "the bytes returned in step %d are not the next device bytes in order", st.id);
				for(size_t p = av; p < k; )
				{
					int64_t off = off0 + (int64_t)(p - av), in = off & 0xFFFFF;
					if(in >= 16) { p += (size_t)((1 << 20) - in); continue; }
					if(out.p[p] != rt::devbyte(rt::dev_cid[h], off)) fail("FUNC", "the bytes returned in step %d are not the next device bytes in order at %zu", st.id, p);
					p++;
				}
				if(k >= av) { size_t rest = av + got - k; o->consumed = dv.size(); for(int64_t off = rt::dev_off[h] - (int64_t)rest; off < rt::dev_off[h]; off++) dv.push_back((off & 0xFFFFF) < 16 ? rt::devbyte(rt::dev_cid[h], off) : 0); } else o->consumed += k;
				if(k < n) rt::stats["short_result"]++; rt::stats["long_calls"]++;
				cov(k < n ? "random.vastshort" : "random.vast"); observe(k); return;
			}
#endif
#ifdef KSIM_FB
			bool vast = st.op == OP_RG && is_big(st); if(vast && !big_ok(a[A_len])) return;
			if(vast)
			{ /* gigabytes from the fallback generator: volume accounting, and a stretch of each mebibyte compared with all others */
				size_t n = (size_t)a[A_len]; BigBuf out(n); budget((double)n, 0); unsigned long s0 = ksim_seedings; size_t k, live = rt::live_lib();
				bool must = rt::now_s - o->seed_time > KRIPTO_RESEED_TIME || (o->seed_bytes && o->seed_bytes + n > KRIPTO_RESEED_OUTPUT);
				{ Guard g((double)n); k = LIB(kripto_random_gen((kripto_random *)o->p, out.p, n)); }
				if(k != n) fail("FUNC", "the fallback generator returned %zu of %zu bytes in step %d although nothing failed", k, n, st.id);
				if(ksim_seedings != s0) { o->seed_bytes = 0; o->seed_time = rt::now_s; if(rt::live_lib() > live) fail("LEAK", "a reseed in step %d left %zu more blocks allocated", st.id, rt::live_lib() - live); }
				else if(must) fail("FUNC", "no reseed in step %d although %llu bytes were produced and %lld s passed since the last one", st.id, (unsigned long long)o->seed_bytes, (long long)(rt::now_s - o->seed_time));
				o->seed_bytes += k;
				for(size_t j = 0; j + 12 <= n; j++)
				{
					if((j & 0xFFFFF) > 52 && j + 64 < n) { size_t nx = (j | 0xFFFFF) + 1; j = (nx < n - 64 ? nx : n - 64) - 1; continue; }
					uint64_t v = hbytes(out.p + j, 12); if(rt::cfg.coarse) v = hmix(v, o->gen);
					if(!windows->insert(v).second) fail("FUNC", "generated output repeats an earlier stretch in step %d at byte %zu", st.id, j);
				}
				rt::stats["long_calls"]++; cov("random.vast"); return;
			}
#endif
			if(a[A_len] > (1 << 22)) return;
			bool test = st.op == OP_RT; size_t n = test ? 4096 : (size_t)a[A_len]; Out out(n, boff(st)); uint64_t f0 = rt::dev_faults, e0 = rt::stats["dev_end"]; budget((double)n + 8192, 0);
#ifdef KSIM_FB
			if(test) return;
			unsigned long s0 = ksim_seedings; bool must = rt::now_s - o->seed_time > KRIPTO_RESEED_TIME || (o->seed_bytes && o->seed_bytes + n > KRIPTO_RESEED_OUTPUT); int fails0 = t.ctx.step == st.id ? t.ctx.failed : 0;
			size_t live = rt::live_lib(); unsigned long d0 = ksim_seedfails;
			size_t k = LIB(kripto_random_gen((kripto_random *)o->p, out.p, n));
			if(k && ksim_seedfails != d0) fail("FUNC", "output was produced in step %d although deriving the new seed failed", st.id);
			if(k && k != n) fail("FUNC", "the fallback generator returned %zu of %zu bytes in step %d", k, n, st.id);
			if(!k && n)
			{
				if(t.ctx.failed == fails0) fail("FUNC", "the fallback generator produced nothing in step %d although nothing failed", st.id);
				for(size_t i = 0; i < n; i++) if(out.p[i] != 0xCC) fail("FUNC", "a failed reseed still wrote output in step %d", st.id);
				rt::stats["reseed_failed"]++;
				if(rt::live_lib() > live) fail("LEAK", "a failed reseed in step %d left %zu more blocks allocated", st.id, rt::live_lib() - live);
				observe(1); cov("random.reseedfail"); return;
			}
			if(ksim_seedings != s0) { rt::stats["reseeds"]++; o->seed_bytes = 0; o->seed_time = rt::now_s; if(rt::live_lib() > live) fail("LEAK", "a reseed in step %d left %zu more blocks allocated", st.id, rt::live_lib() - live); }
			else if(must && n) fail("FUNC", "no reseed in step %d although %llu bytes were produced and %lld s passed since the last one", st.id, (unsigned long long)o->seed_bytes, (long long)(rt::now_s - o->seed_time));
			o->seed_bytes += k;
			for(size_t i = 0; i + 12 <= n; i++) { uint64_t v = hbytes(out.p + i, 12); if(rt::cfg.coarse) v = hmix(v, o->gen); /* seeds of different generators may then be equal */ if(!windows->insert(v).second) fail("FUNC", "generated output repeats an earlier stretch in step %d at byte %zu", st.id, i); }
			cov("random.gen"); observe(out.p, n); return;
#else
			int x = 0; size_t k;
			if(test) { x = LIB(kripto_random_test((kripto_random *)o->p)); k = n; }
			else k = LIB(kripto_random_gen((kripto_random *)o->p, out.p, n));
			if(o->handle >= rt::delivered.size()) { if(k) fail("FUNC", "random bytes returned in step %d without reading any device", st.id); return; }
			const std::vector<uint8_t> &dv = rt::delivered[o->handle]; size_t av = dv.size() - o->consumed; bool faulted = rt::dev_faults != f0 || rt::stats["dev_end"] != e0;
			if(test)
			{
				if(av < 4096)
				{
					if(x) fail("FUNC", "the self-test passed in step %d although the device delivered only %zu bytes", st.id, av);
					if(!faulted && !o->eof) fail("FUNC", "the self-test read fewer than 4096 bytes in step %d from a healthy device", st.id);
					o->consumed = dv.size(); if(faulted) o->eof = true;
				}
				else
				{
					int q = sample_quality(&dv[o->consumed]);
					if(q < 0 && x) fail("FUNC", "the self-test passed a broken source in step %d", st.id);
					if(q > 0 && !x) fail("FUNC", "the self-test rejected a healthy source in step %d", st.id);
					rt::stats[q < 0 ? "selftest_broken" : q > 0 ? "selftest_healthy" : "selftest_borderline"]++;
					o->consumed += 4096;
				}
				cov("random.test"); observe((uint64_t)!!x); return;
			}
			if(k > n) fail("FUNC", "a random read of %zu bytes reported %zu in step %d", n, k, st.id);
			if(k > av) fail("FUNC", "a random read reported %zu bytes in step %d, the device delivered %zu", k, st.id, av);
			if(k && memcmp(out.p, &dv[o->consumed], k)) fail("FUNC", "the bytes returned in step %d are not the next device bytes in order", st.id);
			for(size_t i = k; i < n; i++) if(out.p[i] != 0xCC) fail("FUNC", "a random read that reported %zu of %zu bytes wrote beyond them in step %d", k, n, st.id);
			if(k < n && !faulted && !o->eof) fail("FUNC", "a random read returned %zu of %zu bytes in step %d although the device had no fault", k, n, st.id);
			o->consumed += k; if(k < n) { rt::stats["short_result"]++; }
			/* end of file may be final */
			if(k < n && (rt::stats["dev_eof"] || rt::stats["dev_end"] != e0)) o->eof = true;
			cov(k < n ? "random.short" : "random.gen"); observe(out.p, n); observe(k); return;
#endif
		}
		case OP_RX: if(!o) return; budget(0, 0); LIB(kripto_random_destroy((kripto_random *)o->p)); dead(t, TR, a[A_slot]); observe(4); break;
		case OP_TM: rt::now_s += a[A_val]; rt::stats["clock_moves"]++; if(a[A_val] < 0) rt::stats["clock_backwards"]++; break;
	}
}

/* C23: every live object of the task still answers for its own descriptor, and every descriptor it holds still states the same limits */
template<class D> static void mine(const Obj &o, const D *got, const std::string &n, int step) { if(got != (const D *)o.desc) fail("FUNC", "a %s object no longer returns its descriptor after step %d", n.c_str(), step); }
static void answers(Task &t, const Step &st)
{
	if(t.ctx.step != st.id) return;
	uint64_t &q = rt::stats["descriptor_queries"];
	for(auto &i : t.o[TB]) { const Obj &o = i.second; mine(o, LIB(kripto_block_getdesc((const kripto_block *)o.p)), block_names[o.alg], st.id); q++; }
	for(auto &i : t.o[TH]) { const Obj &o = i.second; mine(o, LIB(kripto_hash_getdesc((const kripto_hash *)o.p)), hash_names[o.alg], st.id); q++; }
	for(auto &i : t.o[TM_]) { const Obj &o = i.second; mine(o, LIB(kripto_mac_getdesc((const kripto_mac *)o.p)), mac_name(o.alg), st.id); q++; }
	for(auto &i : t.o[TS]) { const Obj &o = i.second; mine(o, LIB(kripto_stream_getdesc((const kripto_stream *)o.p)), stream_name(o.alg), st.id); acc("multof", stream_name(o.alg), LIB(kripto_stream_multof((const kripto_stream *)o.p)), stream_multof(o.alg)); q += 2; }
	for(auto &i : t.o[TA]) { const Obj &o = i.second; mine(o, LIB(kripto_ae_getdesc((const kripto_ae *)o.p)), ae_name(o.alg), st.id); acc("multof", ae_name(o.alg), LIB(kripto_ae_multof((const kripto_ae *)o.p)), ae_multof(o.alg)); q += 2; }
	if(st.id % 5) return;
	for(auto &i : t.d[0]) { limits(t, st, (const kripto_desc_block *)i.second, i.first >= B_ALL ? block_find("gost_cbr") : i.first); q += 3; }
	for(auto &i : t.d[1]) { limits(t, st, (const kripto_desc_hash *)i.second, i.first); q += 3; }
	for(auto &i : t.d[2]) { limits(t, st, (const kripto_desc_stream *)i.second, i.first); q += 2; }
	for(auto &i : t.d[3]) { limits(t, st, (const kripto_desc_mac *)i.second, i.first); q += 2; }
	for(auto &i : t.d[4]) { limits(t, st, (const kripto_desc_ae *)i.second, i.first); q += 3; }
}

static void run_step(Task &t, const Step &st, size_t index)
{
	rt::cur = &t.ctx; t.ctx.index = index; res->obs[index] = 0x1234; res->ran++;
	if(st.op <= OP_BX) op_block(t, st);
	else if(st.op <= OP_HA) op_hash(t, st);
	else if(st.op <= OP_SX) op_stream(t, st);
	else if(st.op <= OP_MA) op_mac(t, st);
	else if(st.op <= OP_CH) op_ae(t, st);
	else if(st.op <= OP_KS) op_kdf(t, st);
	else if(st.op <= OP_PC) op_pad(t, st);
	else if(st.op <= OP_MW) op_mem(t, st);
	else if(st.op == OP_WJ) op_warp(t, st);
	else op_random(t, st);
	if(opt.model && plan->prop == "C23") answers(t, st);
	res->allocs[index] = t.ctx.step == st.id ? t.ctx.allocs : 0;
	res->alloc_failed += t.ctx.step == st.id ? t.ctx.failed : 0;
}
static void fiber_body(int task)
{
	for(size_t i = 0; i < plan->steps.size(); i++) if(plan->steps[i].task == task) run_step(tasks[task], plan->steps[i], i);
}
static void destroy_all(Task &t, int tid)
{
	Step st; st.id = 1000000 + tid;
	rt::cfg.tick_limit = 0;
	for(auto &i : t.o[TA]) LIB(kripto_ae_destroy((kripto_ae *)i.second.p));
	for(auto &i : t.o[TM_]) LIB(kripto_mac_destroy((kripto_mac *)i.second.p));
	for(auto &i : t.o[TS]) LIB(kripto_stream_destroy((kripto_stream *)i.second.p));
	for(auto &i : t.o[TH]) LIB(kripto_hash_destroy((kripto_hash *)i.second.p));
	for(auto &i : t.o[TB]) LIB(kripto_block_destroy((kripto_block *)i.second.p));
	for(auto &i : t.o[TR]) LIB(kripto_random_destroy((kripto_random *)i.second.p));
	for(auto &i : t.o) i.clear();
}
void run_plan(const Plan &p, const RunOpt &o, RunRes &r)
{
	Task ts[MAXTASK]; tasks = ts; plan = &p; opt = o; res = &r;
	std::set<uint64_t> win; windows = &win; generators = 0;
	r = RunRes(); r.obs.assign(p.steps.size(), 0); r.allocs.assign(p.steps.size(), 0); r.ticks.assign(p.steps.size(), 0);
	double bytes = 0; for(auto &s : p.steps) bytes += step_bytes(s);
	rt::Cfg c = p.c; c.cpu = 25 + (unsigned)(bytes / 1e7); if(bytes > 3e6) c.arena_limit = 500u << 20; rt::begin(c);
	plugged = c.plug != 0; if(plugged) plug_setup(c.plug);
	evals++;
	auto phase_of = [&](int task) { for(size_t i = 0; i < p.steps.size(); i++) if(p.steps[i].task == task) run_step(ts[task], p.steps[i], i); };
	phase_of(T_PRO);
	std::vector<size_t> snapi; std::vector<uint64_t> snaph;
	if(p.shared) for(size_t i = 0; i < rt::blks.size(); i++) if(rt::blks[i].live && rt::blks[i].kind == rt::LIB) { snapi.push_back(i); snaph.push_back(hbytes(rt::blks[i].p, rt::blks[i].n)); }
	if(o.fibers) rt::run_fibers(p.ntasks, fiber_body);
	else for(size_t i = 0; i < p.steps.size(); i++) { int k = p.steps[i].task; if(k < p.ntasks && (o.only < 0 || o.only == k)) run_step(ts[k], p.steps[i], i); }
	for(size_t i = 0; i < snapi.size(); i++) if(hbytes(rt::blks[snapi[i]].p, rt::blks[snapi[i]].n) != snaph[i]) fail("SHARED", "using a shared object or descriptor changed its memory (block of %zu bytes)", rt::blks[snapi[i]].n);
	phase_of(T_EPI);
	for(int k = 0; k < MAXTASK; k++) destroy_all(ts[k], k);
	for(int k = 0; k < MAXTASK; k++) { rt::enter(&ts[k].ctx, 2000000 + k); for(auto i = ts[k].owned.rbegin(); i != ts[k].owned.rend(); ++i) sim_free(*i); rt::leave(); }
	if(rt::live_lib())
	{
		for(auto &b : rt::blks) if(b.live && b.kind == rt::LIB) fail("LEAK", "%zu blocks are still allocated at the end; the first is %zu bytes from allocation %d of step %d", rt::live_lib(), b.n, b.idx, b.step);
	}
	if(rt::open_files) fail("LEAK", "%d device handles are still open at the end", rt::open_files);
	rt::end_checks();
	uint64_t h = 0; for(uint64_t v : r.obs) h = hmix(h, v);
	r.obs_hash = h;
}

/* ---- text form ---- */
std::string Plan::text() const
{
	std::ostringstream s;
	s << "prop " << prop << "\n";
	s << "c ntasks=" << ntasks << " shared=" << shared << " retry=" << retry << " vary=" << vary << " vfield=" << vfield << " fill=" << c.fill << " fillseed=" << c.fillseed << " secret=" << c.secret
	  << " record=" << c.record << " smart=" << c.smart << " srng=" << c.srng << " avg=" << c.avg << " devseed=" << c.devseed << " devkind=" << c.devkind << " devsize=" << c.devsize << " coarse=" << c.coarse << " plug=" << c.plug
	  << " xseed=" << xseed << " openfail=" << c.openfail << " time0=" << c.time0 << "\n";
	if(!c.env.empty()) s << "e " << c.env << "\n";
	for(auto &f : c.faults) s << "f " << f.step << " " << f.from << " " << f.count << "\n";
	for(size_t h = 0; h < c.dev.size(); h++) for(size_t k = 0; k < c.dev[h].size(); k++) if(c.dev[h][k].kind) s << "d " << h << " " << k << " " << c.dev[h][k].kind << " " << c.dev[h][k].val << "\n";
	for(auto &st : steps)
	{
		s << "s " << st.id << " " << st.task << " " << op_names[st.op];
		for(int k = 0; k < A_COUNT; k++) if(st.a[k]) s << " " << arg_names[k] << "=" << st.a[k];
		s << "\n";
	}
	for(auto &l : c.slices) s << "l " << l.task << " " << l.ticks << "\n";
	return s.str();
}
bool Plan::parse(const std::string &src)
{
	*this = Plan(); c.preempt = true;
	std::istringstream in(src); std::string line;
	while(std::getline(in, line))
	{
		std::istringstream l(line); std::string k; if(!(l >> k) || k[0] == '#') continue;
		if(k == "prop") l >> prop;
		else if(k == "e") l >> c.env;
		else if(k == "c")
		{
			std::string kv;
			while(l >> kv)
			{
				size_t e = kv.find('='); if(e == std::string::npos) return false;
				std::string n = kv.substr(0, e); const char *v = kv.c_str() + e + 1; long long i = strtoll(v, nullptr, 10); uint64_t u = strtoull(v, nullptr, 10);
				if(n == "ntasks") ntasks = (int)i; else if(n == "shared") shared = i; else if(n == "retry") retry = i; else if(n == "vary") vary = (int)i; else if(n == "vfield") vfield = (int)i; else if(n == "fill") c.fill = (int)i;
				else if(n == "fillseed") c.fillseed = u; else if(n == "secret") c.secret = u; else if(n == "record") c.record = i; else if(n == "smart") c.smart = i; else if(n == "srng") c.srng = u;
				else if(n == "avg") c.avg = (unsigned)i; else if(n == "devseed") c.devseed = u; else if(n == "devkind") c.devkind = (int)i; else if(n == "devsize") c.devsize = i; else if(n == "coarse") c.coarse = (int)i; else if(n == "plug") c.plug = u;
				else if(n == "openfail") c.openfail = (int)i; else if(n == "time0") c.time0 = i; else if(n == "xseed") xseed = u; else return false;
			}
		}
		else if(k == "f") { rt::Fault f{0, 0, 0}; l >> f.step >> f.from >> f.count; c.faults.push_back(f); }
		else if(k == "d") { size_t h, i; rt::DevEv e{0, 0}; l >> h >> i >> e.kind >> e.val; if(h > 64 || i > 100000) return false; if(c.dev.size() <= h) c.dev.resize(h + 1); if(c.dev[h].size() <= i) c.dev[h].resize(i + 1, rt::DevEv{0, 0}); c.dev[h][i] = e; }
		else if(k == "l") { rt::Slice q{0, 0}; l >> q.task >> q.ticks; c.slices.push_back(q); }
		else if(k == "s")
		{
			Step st; std::string op, kv; l >> st.id >> st.task >> op; st.op = -1;
			for(int i = 0; i < OP_COUNT; i++) if(op == op_names[i]) st.op = i;
			if(st.op < 0 || st.task < 0 || st.task >= MAXTASK) return false;
			while(l >> kv) { size_t e = kv.find('='); if(e == std::string::npos) return false; bool ok = false; for(int i = 0; i < A_COUNT; i++) if(kv.substr(0, e) == arg_names[i]) { st.a[i] = strtoll(kv.c_str() + e + 1, nullptr, 10); ok = true; } if(!ok) return false; }
			steps.push_back(st);
		}
		else return false;
	}
	if(ntasks < 1 || ntasks > 8) return false;
	return true;
}
uint64_t Plan::sig() const
{
	uint64_t h = (uint64_t)ntasks;
	for(auto &s : steps) { h = hmix(h, (uint64_t)s.op * 16 + (uint64_t)s.task); for(int k = 0; k < A_COUNT; k++) if(k != A_kd && k != A_id && k != A_d && k != A_al) h = hmix(h, (uint64_t)s.a[k]); }
	for(auto &f : c.faults) h = hmix(h, (uint64_t)f.step * 7919 + (uint64_t)f.from * 31 + (uint64_t)f.count);
	return h;
}
