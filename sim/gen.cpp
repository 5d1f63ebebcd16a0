/* Plan generator: one (property, seed, index) triple gives one plan. */
#include "plan.h"
#include <algorithm>

static Rng R;
static unsigned extreme; /* how often (percent) lengths are drawn at the advertised limits; C23: mostly */
static unsigned one_of(std::initializer_list<unsigned> l) { return *(l.begin() + R.below(l.size())); }
static int64_t dseed() { unsigned k = (unsigned)R.below(20); int64_t s = (int64_t)(R.next() >> 8) & ~15LL; return s | (k < 6 ? k % 5 : 5 + R.below(11)); }
static int64_t dkey() { int64_t s = (int64_t)(R.next() >> 8) & ~15LL; return s | (R.chance(6) ? R.below(5) : 15); }
static int64_t al() { return R.chance(40) ? 0 : (int64_t)(R.below(256) | (R.chance(30) ? 0x100 : 0)); }
static unsigned maxlen = 400; /* usual upper bound of a piece */
static unsigned piece(unsigned g)
{
	switch(R.below(16))
	{
		case 0: return 0; case 1: return 1; case 2: return g - 1; case 3: case 4: return g; case 5: return g + 1;
		case 6: return 2 * g - 1; case 7: return 2 * g; case 8: return 2 * g + 1; case 9: return g * (unsigned)R.below(5);
		case 10: return g * (unsigned)R.below(9) + (unsigned)R.below(3);
		case 11: return g > 9 ? g - 9 + (unsigned)R.below(10) : (unsigned)R.below(10);
		case 12: return (unsigned)R.below(maxlen * (R.chance(8) ? 12 : 2) + 1);
		default: return (unsigned)R.below(2 * g + 20);
	}
}
static unsigned rounds_for(bool (*ok)(unsigned, int, unsigned), int alg, unsigned extra, unsigned pct = 25)
{
	if(!R.chance(pct)) return 0;
	for(int i = 0; i < 60; i++) { unsigned r = R.chance(50) ? (unsigned)R.below(41) : R.chance(8) ? R.chance(70) ? 8 * (unsigned)R.range(11, 32) : (unsigned)R.range(89, 256) : 4 * (unsigned)R.below(22); if(ok(r, alg, extra)) return r; }
	return 0;
}
static bool rk_block(unsigned r, int a, unsigned kl) { return block_rounds_ok(a, r, kl); }
static bool rk_hash(unsigned r, int a, unsigned) { return hash_ok(a, r, 0, 1); }

/* C23: the ends of an advertised range, and for the unlimited ones the places where narrower integers end */
static unsigned edge(unsigned max, unsigned least)
{
	if(max > 100000) return R.chance(30) ? least : R.chance(15) ? one_of({4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 99999, 100000}) : one_of({2, 127, 128, 129, 255, 256, 257, 300, 1000});
	if(max <= least) return max;
	switch(R.below(8)) { case 0: return least; case 1: return max - 1; case 2: return (max + 1) / 2; case 3: return least + 1; default: return max; }
}
static unsigned keylen(unsigned max, unsigned block = 0)
{
	if(extreme && R.chance(extreme)) return edge(max, 1);
	unsigned lim = max > 300 ? 300 : max, k;
	switch(R.below(8))
	{
		case 0: case 1: k = lim; if(max > 300) k = 1 + (unsigned)R.below(300); break;
		case 2: k = 16; break; case 3: k = 32; break; case 4: k = one_of({8, 10, 12, 24, 20, 40, 64}); break;
		case 5: k = block ? block - 1 + (unsigned)R.below(3) : 1 + (unsigned)R.below(lim); break;
		case 6: k = 1 + (unsigned)R.below(4); break;
		default: k = 1 + (unsigned)R.below(lim);
	}
	if(k < 1) k = 1; return k > max ? max : k;
}
static unsigned outlen(unsigned max, unsigned cap)
{
	unsigned m = max ? max : 200; if(cap && m > cap) m = cap;
	if(extreme && R.chance(extreme)) return edge(m, 1);
	return R.chance(55) ? (max ? m : 1 + (unsigned)R.below(m)) : R.chance(50) ? std::min(m, one_of({16, 20, 28, 32, 48, 64, 4, 8, 24})) : 1 + (unsigned)R.below(m);
}
static std::vector<Step> *out;
static int task;
static bool warps; /* C01, C02: volume warps */
static Step &S(int op) { out->push_back(Step(task, op)); return out->back().set(A_al, al()); }

/* algorithm pickers; `fixed` lets several tasks use the same algorithm */
struct Bias { int block = -1, hash = -1, stream = -1, mac = -1, ae = -1; } bias;
static int one(int n, int plug, int all) { return plugged && R.chance(85) ? plug + (int)R.below((unsigned)(all - plug)) : (int)R.below((unsigned)n); }
static int any_block() { return one(B_COUNT, B_PLUG, B_ALL); }
static int any_hash() { return one(H_COUNT, H_PLUG, H_ALL); }
static int pick_block() { return bias.block >= 0 && R.chance(75) ? bias.block : any_block(); }
static int pick_hash() { return bias.hash >= 0 && R.chance(75) ? bias.hash : any_hash(); }
static int any_mode() { return S_ECB + 50 * (int)R.below(5) + pick_block(); }
static int any_stream() { return R.chance(plugged ? 25 : 50) ? one(S_NATIVE, S_PLUG, S_ALL) : any_mode(); }
static int pick_stream() { return bias.stream >= 0 && R.chance(75) ? bias.stream : any_stream(); }
static int any_mac()
{
	switch(R.below(4))
	{
		case 0: return one(M_NATIVE, M_PLUG, M_ALL); case 1: return M_HMAC + pick_hash(); case 2: return M_OMAC + pick_block();
		default: for(;;) { int b = any_block(); if(block_info[b].maxkey >= block_info[b].size) return M_XCBC + b; }
	}
}
static int pick_mac() { return bias.mac >= 0 && R.chance(75) ? bias.mac : any_mac(); }
static int any_ae() { return R.chance(50) ? pick_block() : ae_eax2(any_stream(), any_mac()); }
static int pick_ae() { return bias.ae >= 0 && R.chance(75) ? bias.ae : any_ae(); }

static unsigned gran_hash(int a, unsigned o)
{
	if(a == H_KECCAK1600 || a == H_SHA3) return o > 99 ? 2 : 200 - 2 * o;
	if(a == H_KECCAK800) return o > 49 ? 2 : 100 - 2 * o;
	return hash_info[a].block;
}
static void blk_cfg(Step &s, int a, bool round_ok = true)
{
	unsigned kl = keylen(block_info[a].maxkey, block_info[a].size); if(kl > block_info[a].maxkey) kl = block_info[a].maxkey;
	s.set(A_klen, kl).set(A_kd, dkey()).set(A_r, round_ok ? rounds_for(rk_block, a, kl) : 0);
	if(round_ok && !strncmp(block_names[a], "gost", 4) && R.chance(50)) s.set(A_kind, 1 + R.below(15)); /* S-boxes of the caller's own */
}
static void sess_block(int slot, unsigned ops)
{
	int a = pick_block(); Step &c = S(OP_BC).set(A_slot, slot).set(A_alg, a); blk_cfg(c, a); Step first = c;
	int64_t last = dseed();
	for(unsigned i = 0; i < ops; i++)
	{
		unsigned k = (unsigned)R.below(10);
		if(k < 2) { Step &s = S(OP_BR).set(A_slot, slot); blk_cfg(s, a); if(R.chance(20)) { s.set(A_klen, first.a[A_klen]).set(A_kd, first.a[A_kd]); if(!block_rounds_ok(a, (unsigned)s.a[A_r], (unsigned)s.a[A_klen])) s.set(A_r, 0); } }
		else if(k < 4 && block_info[a].maxtweak) { unsigned m = block_info[a].maxtweak; S(OP_BT).set(A_slot, slot).set(A_tl, extreme && R.chance(extreme) ? edge(m, 1) : R.chance(60) ? m : 1 + R.below(m)).set(A_id, dseed()); }
		else { if(!R.chance(20)) last = dseed(); S(R.chance(50) ? OP_BE : OP_BD).set(A_slot, slot).set(A_d, last).set(A_ip, R.chance(40)); }
	}
	if(R.chance(70)) S(OP_BX).set(A_slot, slot);
}
static void hash_cfg(Step &s, int a)
{
	const HashInfo &h = hash_info[a]; unsigned ol = outlen(h.maxout, R.chance(extreme > 50 ? 50 : 15) ? 0 : a == H_KECCAK800 ? 49 : a == H_KECCAK1600 ? 99 : 0);
	unsigned sl = h.maxsalt && R.chance(35) ? (h.maxsalt > 300 ? (unsigned)R.below(200) : (R.chance(50) ? h.maxsalt : (unsigned)R.below(h.maxsalt + 1))) : 0;
	if(warps && a >= H_SKEIN256 && a <= H_SKEIN1024 && R.chance(3)) ol = 256u * h.block - 70 + (unsigned)R.below(h.block * 3 + 300); /* more than 256 blocks of output */
	if(extreme && R.chance(extreme)) sl = edge(h.maxsalt, 0);
	s.set(A_out, ol).set(A_ilen, sl).set(A_id, dseed()).set(A_r, rounds_for(rk_hash, a, 0));
}
static void hash_body(int slot, int a, unsigned ol)
{
	unsigned g = gran_hash(a, ol), k = (unsigned)R.below(6);
	unsigned wj = warps && R.chance(12) ? (unsigned)R.below(k + 1) : ~0u;
	for(unsigned i = 0; i <= k; i++)
	{
		if(i == wj) S(OP_WJ).set(A_slot, slot).set(A_kind, R.chance(60) ? 1 : 3).set(A_pos, R.below(3));
		if(i < k) S(OP_HI).set(A_slot, slot).set(A_len, piece(g)).set(A_d, dseed());
	}
	if(R.chance(90))
	{
		unsigned mo = hash_info[a].maxout, left = a >= H_PLUG ? ol : mo ? mo : a >= H_SKEIN256 && a <= H_SKEIN1024 ? ol : 20 + (unsigned)R.below(2 * g + 300), n = R.chance(50) ? 1 : 1 + (unsigned)R.below(5);
		if(R.chance(60) && ol < left) left = ol;
		for(unsigned i = 0; i < n && left; i++) { unsigned x = i + 1 == n ? left : 1 + (unsigned)R.below(left); S(OP_HO).set(A_slot, slot).set(A_len, x); left -= x; }
	}
}
static void sess_hash(int slot, unsigned n)
{
	int a = pick_hash(); Step &c = S(OP_HC).set(A_slot, slot).set(A_alg, a); hash_cfg(c, a); unsigned ol = (unsigned)c.a[A_out];
	hash_body(slot, a, ol);
	for(unsigned i = 1; i < n; i++)
	{
		if(R.chance(25)) { Step &o = S(OP_HA).set(A_alg, R.chance(70) ? a : pick_hash()); int b = (int)o.a[A_alg]; hash_cfg(o, b); o.set(A_len, piece(gran_hash(b, (unsigned)o.a[A_out]))).set(A_d, dseed()); }
		Step &r = S(OP_HR).set(A_slot, slot); hash_cfg(r, a); ol = (unsigned)r.a[A_out]; hash_body(slot, a, ol);
	}
	if(R.chance(70)) S(OP_HX).set(A_slot, slot);
}
static void stream_cfg(Step &s, int a)
{
	int b; bool mode = stream_is_mode(a, &b);
	for(int i = 0; i < 50; i++)
	{
		unsigned kl = keylen(stream_maxkey(a)), mi = stream_maxiv(a), il = mi > 200 ? (unsigned)R.below(100) : R.chance(60) ? mi : R.chance(30) ? std::min(mi, one_of({8, 12, 24, 16})) : (unsigned)R.below(mi + 1);
		if(extreme && R.chance(extreme)) il = edge(mi, 0);
		unsigned r = R.chance(80) ? 0 : a == S_RC4 ? (unsigned)R.below(1000) : mode ? rounds_for(rk_block, b, kl, 90) : R.chance(8) ? R.chance(50) ? 8 * (unsigned)R.range(6, 32) : (unsigned)R.range(41, 256) : R.chance(50) ? 8 * (unsigned)R.below(6) : (unsigned)R.below(40);
		if(!stream_ok(a, r, kl, il)) continue;
		s.set(A_klen, kl).set(A_ilen, il).set(A_r, r).set(A_kd, dkey()).set(A_id, R.chance(25) ? ((int64_t)(R.next() >> 8) & ~15LL) | (R.chance(50) ? 1 : 3) : dseed()); return;
	}
	s.set(A_klen, 16).set(A_kd, dkey());
}
static unsigned gran_stream(int a, unsigned kl)
{
	int b; if(stream_is_mode(a, &b)) return block_info[b].size;
	switch(a) { case S_SKEIN256: return 32; case S_SKEIN512: return 64; case S_SKEIN1024: return 128; case S_KECCAK800: return 100 > 2 * kl ? 100 - 2 * kl : 8; case S_KECCAK1600: return 200 > 2 * kl ? 200 - 2 * kl : 8; default: return 64; }
}
static void stream_data(int slot, int a, unsigned g, int dir)
{
	int m = 0; bool mode = stream_is_mode(a, nullptr, &m), ec = mode && (m == S_ECB || m == S_CBC), dirful = mode && (m == S_CBC || m == S_CFB);
	int op = dirful ? (dir == 1 ? (m == S_CFB && R.chance(20) ? OP_SP : OP_SE) : OP_SD) : (R.chance(20) && !ec ? OP_SP : R.chance(50) ? OP_SE : OP_SD);
	unsigned n = ec ? g * (unsigned)R.below(6) : piece(g);
	S(op).set(A_slot, slot).set(A_len, n).set(A_d, dseed()).set(A_ip, R.chance(35));
}
static void sess_stream(int slot, unsigned n, int alg = -1)
{
	int a = alg >= 0 ? alg : pick_stream(); Step &c = S(OP_SC).set(A_slot, slot).set(A_alg, a); stream_cfg(c, a); Step first = c; unsigned kl = (unsigned)c.a[A_klen];
	bool twin = R.chance(35); if(twin) { Step q = c; q.set(A_slot, slot + 1); out->push_back(q); }
	for(unsigned i = 0; i < n; i++)
	{
		if(i) { Step &r = S(OP_SR).set(A_slot, slot); stream_cfg(r, a); if(R.chance(25)) { for(Arg k : {A_klen, A_kd, A_id, A_ilen, A_r}) r.a[k] = first.a[k]; } kl = (unsigned)r.a[A_klen]; }
		int dir = R.chance(50) ? 1 : 2; unsigned g = gran_stream(a, kl), k = 1 + (unsigned)R.below(6);
		unsigned wj = warps && R.chance(20) ? (unsigned)R.below(k) : ~0u;
		for(unsigned j = 0; j < k; j++) { if(j == wj) S(OP_WJ).set(A_slot, slot).set(A_pos, R.below(4)); stream_data(slot, a, g, dir); }
		if(twin) for(unsigned j = R.below(3); j; j--) stream_data(slot + 1, a, g, 2);
	}
	if(R.chance(70)) S(OP_SX).set(A_slot, slot);
}
static bool mac_cfg(Step &s, int a)
{
	for(int i = 0; i < 60; i++)
	{
		unsigned mt = mac_maxtag(a), blk = a >= M_HMAC && a < M_OMAC ? hash_info[a - M_HMAC].block : 32, kl = keylen(mac_maxkey(a), blk), tl = outlen(mt, 0);
		if(!mt && tl > 99 && !R.chance(extreme > 50 ? 50 : 15)) tl = 99;
		unsigned r = R.chance(80) ? 0 : R.chance(8) ? 8 * (unsigned)R.range(6, 32) : R.chance(50) ? 8 * (unsigned)R.below(6) : (unsigned)R.below(34);
		if(!mac_ok(a, r, kl, tl)) continue;
		s.set(A_klen, kl).set(A_tl, tl).set(A_r, r).set(A_kd, dkey()); return true;
	}
	s.set(A_klen, 0); return false;
}
static unsigned gran_mac(int a, unsigned tl)
{
	if(a == M_KECCAK800) return 100 > 2 * tl ? 100 - 2 * tl : 4; if(a == M_KECCAK1600) return 200 > 2 * tl ? 200 - 2 * tl : 8;
	if(a < M_HMAC) return a == M_SKEIN256 ? 32 : a == M_SKEIN512 ? 64 : 128;
	if(a < M_OMAC) return gran_hash(a - M_HMAC, tl);
	return block_info[a < M_XCBC ? a - M_OMAC : a - M_XCBC].size;
}
static void mac_body(int slot, int a, unsigned tl)
{
	unsigned g = gran_mac(a, tl), k = (unsigned)R.below(5);
	for(unsigned i = 0; i < k; i++) S(OP_MI).set(A_slot, slot).set(A_len, piece(g)).set(A_d, dseed());
	unsigned n = R.chance(70) ? tl : 1 + (unsigned)R.below(tl);
	if(R.chance(55)) S(OP_MT).set(A_slot, slot).set(A_len, n);
	else if(R.chance(85)) S(OP_MV).set(A_slot, slot).set(A_len, n).set(A_kind, R.chance(40) ? 0 : R.below(8)).set(A_pos, R.below(300)).set(A_val, R.below(1 << 20));
}
static void sess_mac(int slot, unsigned n)
{
	int a = pick_mac(); Step &c = S(OP_MC).set(A_slot, slot).set(A_alg, a); mac_cfg(c, a); mac_body(slot, a, (unsigned)c.a[A_tl] ? (unsigned)c.a[A_tl] : 8);
	for(unsigned i = 1; i < n; i++)
	{
		if(R.chance(25)) { int b = R.chance(70) ? a : pick_mac(); Step &o = S(OP_MA).set(A_alg, b); mac_cfg(o, b); o.set(A_len, piece(gran_mac(b, (unsigned)o.a[A_tl] ? (unsigned)o.a[A_tl] : 8))).set(A_d, dseed()); }
		Step &r = S(OP_MR).set(A_slot, slot); mac_cfg(r, a); mac_body(slot, a, (unsigned)r.a[A_tl] ? (unsigned)r.a[A_tl] : 8);
	}
	if(R.chance(70)) S(OP_MX).set(A_slot, slot);
}
static bool ae_cfg(Step &s, int a)
{
	int st, mc; bool e2 = ae_is_eax2(a, &st, &mc);
	for(int i = 0; i < 200; i++)
	{
		unsigned mk = ae_maxkey(a), kl = e2 ? (R.chance(50) ? keylen(mk) : 2 + (unsigned)R.below(std::min(mk, 300u))) : keylen(mk);
		if(kl > mk) continue;
		unsigned mi = ae_maxiv(a), il = mi > 100 ? (unsigned)R.below(60) : R.chance(50) ? mi : (unsigned)R.below(mi + 1), mt = ae_maxtag(a);
		unsigned tl = e2 ? (mt ? (R.chance(60) ? mt : 1 + (unsigned)R.below(mt)) : 1 + (unsigned)R.below(R.chance(15) ? 200 : 49)) : (R.chance(60) ? mt : 1 + (unsigned)R.below(mt));
		if(extreme && R.chance(extreme)) { il = edge(mi, 0); if(mt) tl = edge(mt, 1); }
		unsigned r = R.chance(88) ? 0 : 4 * (unsigned)R.below(9);
		if(!ae_ok(a, r, kl, il, tl)) continue;
		s.set(A_klen, kl).set(A_ilen, il).set(A_tl, tl).set(A_r, r).set(A_kd, dkey()).set(A_id, dseed()); return true;
	}
	return false;
}
static unsigned gran_ae(int a) { int st; if(ae_is_eax2(a, &st)) return gran_stream(st, 16); return block_info[a].size; }
static void sess_ae(int slot, unsigned n)
{
	int a = pick_ae(); unsigned g = gran_ae(a);
	for(unsigned i = 0; i < n; i++)
	{
		Step &c = S(i ? OP_AR : OP_AC).set(A_slot, slot).set(A_alg, a); ae_cfg(c, a); unsigned tl = (unsigned)c.a[A_tl] ? (unsigned)c.a[A_tl] : 8;
		int dir = R.chance(50) ? OP_AE : OP_AD; unsigned k = (unsigned)R.below(6);
		for(unsigned j = 0; j < k; j++) if(R.chance(35)) S(OP_AH).set(A_slot, slot).set(A_len, piece(g)).set(A_id, dseed()); else S(dir).set(A_slot, slot).set(A_len, piece(g)).set(A_d, dseed()).set(A_ip, R.chance(35));
		if(R.chance(60)) S(OP_AT).set(A_slot, slot).set(A_len, R.chance(75) ? tl : 1 + R.below(tl));
		else if(R.chance(80)) S(OP_AV).set(A_slot, slot).set(A_len, R.chance(75) ? tl : 1 + R.below(tl)).set(A_kind, R.chance(50) ? 0 : R.below(8)).set(A_pos, R.below(300)).set(A_val, R.below(1 << 20));
	}
	if(R.chance(60)) S(OP_AX).set(A_slot, slot);
}
static void sess_channel(int slot, unsigned n)
{
	int a = pick_ae(); unsigned g = gran_ae(a);
	for(unsigned i = 0; i < n; i++)
	{
		Step &c = S(OP_CH).set(A_slot, slot).set(A_m, slot + 1).set(A_alg, a); ae_cfg(c, a);
		c.set(A_len, piece(g) + (R.chance(50) ? piece(g) : 0)).set(A_n, R.chance(25) ? 0 : piece(g)).set(A_d, dseed()).set(A_kind, R.chance(30) ? 0 : R.below(19)).set(A_pos, (int64_t)R.below(1 << 20)).set(A_val, (int64_t)R.below(1 << 20)).set(A_ip, (int64_t)R.below(4));
	}
}
static void monster_kdf()
{
	auto ends = [](uint64_t base) { return (int64_t)(base + (R.chance(30) ? 0 : R.chance(50) ? R.below(5) : R.below(1 << 20))); };
	if(R.chance(40))
	{
		S(OP_KP).set(A_kind, 1).set(A_alg, M_HMAC + one_of({H_KECCAK800, H_KECCAK1600, H_SKEIN256, H_SKEIN512, H_SKEIN1024})).set(A_klen, 1 + R.below(40)).set(A_kd, dkey()).set(A_ilen, R.below(40)).set(A_id, dseed()).set(A_n, 1 + R.below(3)).set(A_out, ends(R.chance(35) ? 1ull << 31 : R.chance(50) ? 1ull << 32 : R.chance(50) ? 1ull << 33 : 1ull << (29 + R.below(4))));
		return;
	}
	Step &s = S(OP_KS).set(A_kind, 1).set(A_alg, M_HMAC + any_hash()).set(A_klen, 1 + R.below(40)).set(A_kd, dkey()).set(A_ilen, R.below(40)).set(A_id, dseed()).set(A_out, 1 + R.below(100));
	unsigned w = (unsigned)R.below(3); uint64_t z = R.below(12); /* trailing zeros of r: 128 * r * n is a multiple of 2^32 or 2^64 */
	uint64_t r = w == 2 ? 1 + R.below(8) : ((1 + 2 * R.below(16)) << z);
	unsigned top = w == 0 ? 25 : w == 1 ? 57 : 25 + (unsigned)R.below(37);
	unsigned e = top > (w == 2 ? 0 : z) ? top - (w == 2 ? 0 : (unsigned)z) + (R.chance(30) ? (unsigned)R.below(3) : 0) : top; if(e > 62) e = 62; if(e < 20) e = 20;
	s.set(A_m, r).set(A_n, 1LL << e).set(A_pos, 1 + R.below(4));
	if(R.chance(30)) { uint64_t q = 1 + R.below(64); s.set(A_n, 2LL << R.below(4)).set(A_m, q).set(A_pos, ((1ull << 25) + R.below(100)) / q + R.below(2)); if(R.chance(50)) { int64_t x = s.a[A_m]; s.set(A_m, s.a[A_pos]).set(A_pos, x); } } /* 128 * r * p just beyond 2^32 */
}
static void one_kdf(bool big)
{
	if(big && R.chance(8)) { monster_kdf(); return; }
	bool sc = R.chance(30); int m = R.chance(55) ? M_HMAC + any_hash() : any_mac(); Step &s = S(sc ? OP_KS : OP_KP).set(A_alg, m);
	unsigned hl = mac_maxtag(m), pl = keylen(mac_maxkey(m) > 200 ? 200 : mac_maxkey(m), 64); unsigned o = hl ? hl : 49;
	unsigned ol; switch(R.below(6)) { case 0: ol = o; break; case 1: ol = 1 + (unsigned)R.below(o); break; case 2: ol = o + 1 + (unsigned)R.below(o); break; case 3: ol = 2 * o; break; default: ol = 1 + (unsigned)R.below(3 * o); }
	if(!hl && ol > 49 && R.chance(70)) ol = 1 + ol % 49;
	if(big && R.chance(3) && hl) ol = hl * (255 + (unsigned)R.below(6)) + 3;
	s.set(A_klen, pl).set(A_kd, dkey()).set(A_ilen, R.chance(15) ? 0 : R.below(R.chance(20) ? 200 : 40)).set(A_id, dseed()).set(A_out, ol).set(A_r, 0);
	if(sc) { s.set(A_n, 2u << R.below(R.chance(20) ? 7 : 4)).set(A_m, 1 + R.below(3)).set(A_pos, 1 + R.below(3)); if(R.chance(4)) s.set(A_n, 2).set(A_m, 1 + R.below(20)).set(A_pos, 1); }
	else s.set(A_n, R.chance(40) ? 1 : 1 + R.below(ol > 1000 ? 2 : 6));
}
static void one_pad(int slot)
{
	switch(R.below(3))
	{
		case 0: { unsigned pad = R.chance(50) ? one_of({8, 16, 12, 32, 255, 1, 2, 64, 128}) : 1 + (unsigned)R.below(255), n = R.chance(50) ? pad * (unsigned)R.below(4) + (R.chance(50) ? 0 : pad - 1) : (unsigned)R.below(300); unsigned add = pad - n % pad;
			S(OP_PA).set(A_len, n).set(A_n, pad).set(A_d, dseed()).set(A_m, R.chance(50) ? n + add : R.chance(50) ? n + add - 1 : n + R.below(2 * pad + 2)); break; }
		case 1: { unsigned n = 1 + (unsigned)R.below(R.chance(50) ? 20 : 300); unsigned v = R.chance(60) ? 1 + (unsigned)R.below(n > 255 ? 255 : n) : R.chance(30) ? n & 255 : (unsigned)R.below(256); S(OP_PR).set(A_len, n).set(A_d, dseed()).set(A_kind, R.chance(45) ? 1 : R.below(4)).set(A_val, v).set(A_pos, R.below(v ? v : 1) + 16 * 0); out->back().a[A_pos] = R.below(n); break; }
		default:
		{
			int a = R.chance(70) ? S_ECB + 50 * (int)R.below(2) + pick_block() : any_stream(); unsigned mu = stream_multof(a), pad = mu > 1 ? mu * (R.chance(80) ? 1 : 1 + (unsigned)R.below(255 / mu > 4 ? 4 : 255 / mu)) : one_of({8, 16, 1, 12, 255});
			if(pad > 255 || pad % mu) pad = mu;
			for(unsigned k = 1 + (unsigned)R.below(3); k; k--) { Step &s = S(OP_PC).set(A_slot, slot).set(A_m, slot + 1).set(A_alg, a); stream_cfg(s, a); s.set(A_len, R.chance(40) ? pad * R.below(5) : R.below(200)).set(A_n, pad).set(A_d, dseed()).set(A_kind, R.chance(40) ? 0 : R.below(6)).set(A_pos, (int64_t)R.below(1 << 20)).set(A_val, (int64_t)R.below(1 << 20)).set(A_ip, (int64_t)R.below(4)); }
		}
	}
}
static void sess_random(int slot, bool test)
{
	S(OP_RC).set(A_slot, slot);
	for(unsigned k = 1 + (unsigned)R.below(6); k; k--)
		if(test && R.chance(30)) S(OP_RT).set(A_slot, slot);
		else S(OP_RG).set(A_slot, slot).set(A_len, R.chance(20) ? R.below(9000) : R.chance(10) ? 0 : R.below(100));
	if(R.chance(60)) S(OP_RX).set(A_slot, slot);
}
static void one_mem() { S(R.chance(80) ? OP_ME : OP_MW).set(A_len, R.chance(10) ? 0 : R.below(100)).set(A_d, dseed()).set(A_kind, R.below(8)).set(A_pos, R.below(200)).set(A_val, R.below(1 << 20)); }

static void sess_any(int slot, bool kdf, bool small)
{
	unsigned n = 1 + (unsigned)R.below(small ? 2 : 3);
	switch(R.below(kdf ? 16 : 13))
	{
		case 0: case 1: sess_block(slot, 2 + (unsigned)R.below(small ? 5 : 12)); break;
		case 2: case 3: case 4: sess_hash(slot, n); break;
		case 5: case 6: case 7: sess_stream(slot, n); break;
		case 8: case 9: case 10: sess_mac(slot, n); break;
		case 11: sess_ae(slot, n); break;
		case 12: sess_channel(slot, n); break;
		case 13: one_kdf(false); break;
		case 14: one_pad(slot); break;
		default: if(R.chance(50)) one_mem(); else sess_random(slot, false); break;
	}
}
/* one call whose stated work can be multiplied by sixteen, after the calls that prepare it: the argument that states it */
static int scale_plan(rt::Cfg &cfg)
{
	auto x = [](unsigned g) { return (int64_t)(g < 8 ? 40 * g + R.below(60) : 600 + g * R.below(8) + R.below(1200)); };
	switch(R.below(15))
	{
		case 0: case 1: { int a = any_hash(); Step &c = S(OP_HC).set(A_slot, 0).set(A_alg, a); hash_cfg(c, a); unsigned g = gran_hash(a, (unsigned)c.a[A_out]); bool n = R.chance(40); Step &s = S(OP_HI).set(A_slot, 0).set(A_d, dseed()); if(n) { int64_t l = 1 + piece(g); s.set(A_len, l).set(A_n, 10 + 10 * g / l + R.below(30)); return A_n; } s.set(A_len, x(g)); return A_len; }
		case 2: { int a = any_hash(); Step &s = S(OP_HA).set(A_alg, a); hash_cfg(s, a); s.set(A_len, x(gran_hash(a, (unsigned)s.a[A_out]))).set(A_d, dseed()); return A_len; }
		case 3: { int a = R.chance(50) ? H_KECCAK800 : H_KECCAK1600; S(OP_HC).set(A_slot, 0).set(A_alg, a).set(A_out, 8 + R.below(20)); S(OP_HI).set(A_slot, 0).set(A_len, R.below(100)).set(A_d, dseed()); S(OP_HO).set(A_slot, 0).set(A_len, x(50)); return A_len; }
		case 4: case 5: case 6:
		{
			int a = any_stream(), m = 0; bool mode = stream_is_mode(a, nullptr, &m); Step &c = S(OP_SC).set(A_slot, 0).set(A_alg, a); stream_cfg(c, a); unsigned g = gran_stream(a, (unsigned)c.a[A_klen]);
			bool n = R.chance(40); Step &s = S(mode && m == S_ECB ? (R.chance(50) ? OP_SE : OP_SD) : mode && m == S_CBC ? (R.chance(50) ? OP_SE : OP_SD) : R.chance(40) ? OP_SE : R.chance(50) ? OP_SD : OP_SP).set(A_slot, 0).set(A_d, dseed()).set(A_ip, R.chance(30));
			unsigned mu = stream_multof(a); if(n) { int64_t l = (1 + piece(g) + mu - 1) / mu * mu; s.set(A_len, l).set(A_n, 10 + 10 * g / l + R.below(30)); return A_n; } s.set(A_len, x(g) / mu * mu); return A_len;
		}
		case 7: case 8: { int a = any_mac(); Step &c = S(OP_MC).set(A_slot, 0).set(A_alg, a); mac_cfg(c, a); unsigned g = gran_mac(a, (unsigned)c.a[A_tl] ? (unsigned)c.a[A_tl] : 8); bool n = R.chance(40); Step &s = S(OP_MI).set(A_slot, 0).set(A_d, dseed()); if(n) { int64_t l = 1 + piece(g); s.set(A_len, l).set(A_n, 10 + 10 * g / l + R.below(30)); return A_n; } s.set(A_len, x(g)); return A_len; }
		case 9: { int a = any_mac(); Step &s = S(OP_MA).set(A_alg, a); mac_cfg(s, a); s.set(A_len, x(gran_mac(a, (unsigned)s.a[A_tl] ? (unsigned)s.a[A_tl] : 8))).set(A_d, dseed()); return A_len; }
		case 10: { int a = any_ae(); Step &c = S(OP_AC).set(A_slot, 0).set(A_alg, a); ae_cfg(c, a); int op = R.chance(33) ? OP_AH : R.chance(50) ? OP_AE : OP_AD; S(op).set(A_slot, 0).set(A_len, x(gran_ae(a))).set(A_d, dseed()).set(A_id, dseed()).set(A_ip, R.chance(30)); return A_len; }
		case 11: { int m = R.chance(60) ? M_HMAC + any_hash() : any_mac(); unsigned hl = mac_maxtag(m); Step &s = S(OP_KP).set(A_alg, m).set(A_klen, keylen(mac_maxkey(m) > 200 ? 200 : mac_maxkey(m), 64)).set(A_kd, dkey()).set(A_ilen, R.below(40)).set(A_id, dseed()).set(A_out, hl ? 1 + R.below(2 * hl) : 1 + R.below(40)).set(A_n, 1 + R.below(3)); switch(R.below(4)) { case 0: case 1: s.set(A_n, 8 + R.below(20)); return A_n; case 2: if(hl) { s.set(A_out, hl * (20 + R.below(100))); return A_out; } default: s.set(A_ilen, 600 + R.below(600)); return A_ilen; } }
		case 12: { Step &s = S(OP_KS).set(A_alg, M_HMAC + any_hash()).set(A_klen, 1 + R.below(40)).set(A_kd, dkey()).set(A_ilen, R.below(40)).set(A_id, dseed()).set(A_out, 1 + R.below(60)).set(A_n, 2u << R.below(3)).set(A_m, 1 + R.below(2)).set(A_pos, 1 + R.below(2)); switch(R.below(3)) { case 0: s.set(A_n, 4u << R.below(4)); return A_n; case 1: s.set(A_m, 2 + R.below(3)); return A_m; default: s.set(A_pos, 2 + R.below(3)); return A_pos; } }
		case 13: switch(R.below(4))
		{
			case 0: S(OP_MW).set(A_len, 600 + R.below(2000)).set(A_d, dseed()); return A_len;
			case 1: S(OP_ME).set(A_len, 600 + R.below(2000)).set(A_d, dseed()).set(A_kind, R.below(8)).set(A_pos, R.below(200)).set(A_val, R.below(1 << 20)); return A_len;
			case 2: cfg.devseed = R.next() >> 1; S(OP_RC).set(A_slot, 0); S(OP_RG).set(A_slot, 0).set(A_len, 600 + R.below(2000)); return A_len;
			default: { bool nonce = R.chance(50); if(nonce) { int a = one_of({S_SKEIN256, S_SKEIN512, S_SKEIN1024}); S(OP_SC).set(A_slot, 0).set(A_alg, a).set(A_klen, 32).set(A_kd, dkey()).set(A_ilen, 600 + R.below(1000)).set(A_id, dseed()); return A_ilen; } int h = any_hash(), a = R.chance(70) ? M_HMAC + h : one_of({M_SKEIN256, M_SKEIN512, M_SKEIN1024}); S(OP_MC).set(A_slot, 0).set(A_alg, a).set(A_klen, 600 + R.below(1000)).set(A_kd, dkey()).set(A_tl, 16); return A_klen; }
		}
		default: { int h = one_of({H_SKEIN256, H_SKEIN512, H_SKEIN1024}); S(OP_HC).set(A_slot, 0).set(A_alg, h).set(A_out, 32).set(A_ilen, 600 + R.below(1000)).set(A_id, dseed()); return A_ilen; }
	}
}
static void set_bias() { bias.block = (int)R.below(B_COUNT); bias.hash = (int)R.below(H_COUNT); bias.stream = any_stream(); bias.mac = any_mac(); bias.ae = any_ae(); }

/* interleave the tasks' step lists at call granularity */
static void merge(Plan &p, std::vector<std::vector<Step>> &l)
{
	std::vector<size_t> at(l.size(), 0); int last = 0;
	for(;;)
	{
		std::vector<int> alive; for(size_t i = 0; i < l.size(); i++) if(at[i] < l[i].size()) alive.push_back((int)i);
		if(alive.empty()) break;
		int k = R.chance(40) && std::find(alive.begin(), alive.end(), last) != alive.end() ? last : alive[R.below(alive.size())];
		p.steps.push_back(l[(size_t)k][at[(size_t)k]++]); last = k;
	}
}
static void number(Plan &p) { int id = 1; for(auto &s : p.steps) s.id = id++; }

/* very long messages, at fixed places of the sequence: counters of 29, 32 and 24 bits wrap, lengths exceed 32 bits */
static const int64_t G29 = 1LL << 29, G32 = 1LL << 32;
static unsigned min_rounds_hash(int a) { switch(a) { case H_MD5: case H_SHA1: return 0; case H_SHA2_256: case H_SHA2_512: return 16; case H_SKEIN256: case H_SKEIN512: case H_SKEIN1024: return 8; default: return 1; } }
static int blk(const char *n) { return block_find(n); }
static void long_hash(int a, int64_t total, bool one)
{
	unsigned mo = hash_info[a].maxout, ol = mo ? mo : 32, r = min_rounds_hash(a);
	if(one) { S(OP_HA).set(A_alg, a).set(A_r, r).set(A_out, ol).set(A_len, total).set(A_kind, 9).set(A_d, dseed() | 15); return; }
	S(OP_HC).set(A_slot, 0).set(A_alg, a).set(A_r, r).set(A_out, ol);
	unsigned pre = (unsigned)R.below(200); S(OP_HI).set(A_slot, 0).set(A_len, pre).set(A_d, dseed() | 15);
	int64_t k = total / 65536; S(OP_HI).set(A_slot, 0).set(A_len, 65536).set(A_n, k).set(A_d, dseed() | 15);
	S(OP_HI).set(A_slot, 0).set(A_len, 1 + R.below(300)).set(A_d, dseed() | 15);
	S(OP_HO).set(A_slot, 0).set(A_len, ol);
}
static void long_stream(int a, unsigned r, unsigned kl, unsigned il, int op, int64_t len, int64_t n)
{
	S(OP_SC).set(A_slot, 0).set(A_alg, a).set(A_r, r).set(A_klen, kl).set(A_ilen, il).set(A_kd, dkey() | 15).set(A_id, dseed() | 15);
	S(op).set(A_slot, 0).set(A_len, R.below(5) * 128).set(A_d, dseed()); 
	S(op).set(A_slot, 0).set(A_len, len).set(A_d, dseed() | 15).set(n ? A_n : A_kind, n ? n : 9);
	S(op).set(A_slot, 0).set(A_len, 300).set(A_d, dseed());
}
static void long_mac(int a, unsigned r, unsigned kl, unsigned tl, int64_t len, int64_t n)
{
	S(OP_MC).set(A_slot, 0).set(A_alg, a).set(A_r, r).set(A_klen, kl).set(A_tl, tl).set(A_kd, dkey() | 15);
	S(OP_MI).set(A_slot, 0).set(A_len, R.below(100)).set(A_d, dseed());
	S(OP_MI).set(A_slot, 0).set(A_len, len).set(A_d, dseed() | 15).set(n ? A_n : A_kind, n ? n : 9);
	S(OP_MI).set(A_slot, 0).set(A_len, R.below(100)).set(A_d, dseed());
	S(OP_MT).set(A_slot, 0).set(A_len, tl);
}
static void long_ae(int a, unsigned r, unsigned kl, unsigned il, unsigned tl, int64_t hdr, int64_t len)
{
	S(OP_AC).set(A_slot, 0).set(A_alg, a).set(A_r, r).set(A_klen, kl).set(A_ilen, il).set(A_tl, tl).set(A_kd, dkey() | 15).set(A_id, dseed() | 15);
	if(hdr) S(OP_AH).set(A_slot, 0).set(A_len, hdr).set(A_kind, hdr > 1 << 22 ? 9 : 0).set(A_id, dseed() | 15);
	if(len) S(OP_AE).set(A_slot, 0).set(A_len, len).set(A_kind, len > 1 << 22 ? 9 : 0).set(A_d, dseed() | 15);
	S(OP_AT).set(A_slot, 0).set(A_len, tl);
}
static bool long_plan(const std::string &prop, uint64_t k)
{
	int64_t tail = (int64_t)R.below(4000) + 1; int t1024 = blk("threefish1024");
	if(prop == "C15")
	{ /* reads of more than two and four gigabytes */
		if(k > 5 && (k < 100 || k > 140)) return false;
		S(OP_RC); if(R.chance(70)) S(OP_RG).set(A_len, R.below(5000));
		S(OP_RG).set(A_kind, 9).set(A_len, (k % 3 == 0 ? G32 : k % 3 == 1 ? G32 / 2 : G32 + G32 / 2) + (R.chance(70) ? R.below(9000) : -(int64_t)R.below(9000)));
		for(unsigned i = R.below(4); i; i--) S(OP_RG).set(A_len, R.below(5000));
		if(k >= 100 && R.chance(50)) { S(OP_RG).set(A_kind, 9).set(A_len, G32 / 2 + R.below(1 << 30)); S(OP_RG).set(A_len, R.below(300)); }
		if(R.chance(80)) S(OP_RX); return true;
	}
	if(prop == "C17")
	{ /* requests beyond 4 GiB from the fallback generator, then small ones: the volume must be remembered in full */
		if(k != 0 && k != 100 && k != 108) return false;
		S(OP_RC); if(R.chance(50)) S(OP_RG).set(A_len, R.below(3000));
		S(OP_RG).set(A_kind, 9).set(A_len, (k == 108 ? G32 / 2 : G32) + R.below(2000));
		for(unsigned i = 1 + R.below(4); i; i--) S(OP_RG).set(A_len, 1 + R.below(1500));
		S(OP_RX); return true;
	}
	if(prop == "C01")
	{
		static const int one32[] = {H_BLAKE2S, H_SKEIN256, H_SKEIN512, H_SKEIN1024, H_SHA2_256, H_SHA2_512, H_BLAKE256, H_BLAKE512, H_BLAKE2B, H_KECCAK1600, H_TIGER}, slow[] = {H_SHA1, H_MD5, H_SHA3, H_KECCAK800};
		if(k < 16) { long_hash((int)k, G29, false); return true; }
		if(k < 27) { long_hash(one32[k - 16], G32 + tail, true); return true; }
		if(k >= 100 && k < 104) { long_hash(slow[k - 100], G32 + tail, true); return true; }
		/* outputs that exceed counters of 8, 16, 24 and, in bytes, 32 bits; those of four gigabytes by one worker */
		auto vast = [&](int a, int64_t n) { S(OP_HA).set(A_alg, a).set(A_r, min_rounds_hash(a)).set(A_out, n).set(A_len, R.below(300)).set(A_d, dseed() | 15).set(A_ilen, a >= H_SKEIN256 && R.chance(30) ? 16 : 0).set(A_id, dseed()); return true; };
		switch(k)
		{
			case 27: return vast(H_SKEIN256, (1LL << 29) + 32 * tail + 5);
			case 28: return vast(H_SKEIN512, (1LL << 30) + 64 * tail);
			case 32: return vast(H_SKEIN1024, G32 + tail);
			case 108: return vast(H_SKEIN256, G32 + tail); case 116: return vast(H_SKEIN512, G32 + tail);
			case 124: return vast(H_KECCAK1600, G32 + tail); case 132: return vast(H_KECCAK800, G32 + 24 + tail % 20);
			case 29: case 30: case 31:
			{
				int a = H_SKEIN256 + (int)(k - 29); int64_t n = 65536LL * (k == 29 ? 32 : k == 30 ? 64 : 128) + 200 + tail, m = (int64_t)R.below(5000) + 1;
				S(OP_HC).set(A_slot, 0).set(A_alg, a).set(A_r, 8).set(A_out, n); S(OP_HI).set(A_slot, 0).set(A_len, R.below(300)).set(A_d, dseed());
				S(OP_HO).set(A_slot, 0).set(A_len, n - m); S(OP_HO).set(A_slot, 0).set(A_len, m); return true;
			}
		}
		return false;
	}
	if(prop == "C02") switch(k)
	{
		/* outputs of four gigabytes: three of them by the same worker, to bound memory */
		case 0: long_stream(S_CHACHA, 2, 32, 8, OP_SE, G32 + tail, 0); return true;
		case 8: long_stream(S_SALSA20, 2, 32, 8, OP_SD, G32 + tail, 0); return true;
		case 100: long_stream(S_RC4, 1, 16, 0, OP_SE, G32 + tail, 0); return true;
		case 24: long_stream(S_CHACHA, 2, 16, 8, OP_SP, G32 + tail, 0); return true;
		case 1: long_stream(S_SKEIN256, 8, 32, 8, OP_SP, 65521, (1 << 24) * 32 / 65521 + 3); return true;
		case 2: long_stream(S_SKEIN512, 8, 64, 8, OP_SE, 65521, (1 << 18) * 64 / 65521 + 3); return true;
		case 3: long_stream(S_SKEIN1024, 8, 64, 8, OP_SE, 65521, (1 << 18) * 128 / 65521 + 3); return true;
		case 4: long_stream(S_CHACHA, 2, 32, 8, OP_SD, 65521, (1 << 24) * 64LL / 65521 + 3); return true;
		case 5: long_stream(S_SALSA20, 2, 32, 8, OP_SE, 65521, (1 << 24) * 64LL / 65521 + 3); return true;
		case 6: long_stream(S_KECCAK800, 1, 10, 8, OP_SE, 65521, 3000); return true;
		case 7: long_stream(S_KECCAK1600, 1, 32, 16, OP_SP, 65521, 3000); return true;
		case 9: long_stream(S_RC4, 0, 16, 0, OP_SE, 65521, 3000); return true;
		case 10: long_stream(S_SALSA20, 2, 32, 8, OP_SP, 65521, 20000); return true;
		default: return false;
	}
	if(prop == "C03")
	{
		static const int m[] = {S_CTR, S_CBC, S_OFB, S_CFB, S_ECB};
		if(k % 8 == 0 && k / 8 < 5) { long_stream(m[k / 8] + t1024, 8, 128, 128, OP_SE, G32 + tail / 128 * 128 + 128, 0); return true; }
		if(k == 1) { long_stream(S_CTR + blk("speck32"), 1, 8, 4, OP_SE, 65536, ((1 << 24) + 5000) * 4 / 65536); return true; }
		if(k == 2) { long_stream(S_CTR + blk("xtea"), 1, 16, 8, OP_SP, 65521, (1 << 24) / 65521 + 5); return true; }
		if(k == 3) { long_stream(S_OFB + blk("speck32"), 0, 8, 4, OP_SE, 65521, (1 << 24) / 65521 + 5); return true; }
		if(k == 4) { long_stream(S_CFB + blk("speck64"), 0, 16, 8, OP_SD, 65521, (1 << 24) / 65521 + 5); return true; }
		if(k == 5) { long_stream(S_CBC + blk("speck128"), 0, 16, 16, OP_SD, 65536, (1 << 24) / 65536 + 5); return true; }
		if(k == 6) { long_stream(S_CTR + blk("aes"), 0, 16, 16, OP_SE, 65521, (1 << 26) / 65521 + 5); return true; }
		return false;
	}
	if(prop == "C04") switch(k)
	{
		case 0: long_mac(M_SKEIN256, 8, 32, 32, G32 + tail, 0); return true;
		case 1: long_mac(M_SKEIN512, 8, 64, 64, G32 + tail, 0); return true;
		case 2: long_mac(M_SKEIN1024, 8, 64, 128, G32 + tail, 0); return true;
		case 3: long_mac(M_KECCAK1600, 1, 32, 32, G32 + tail, 0); return true;
		case 4: long_mac(M_HMAC + H_BLAKE2S, 1, 32, 32, G32 + tail, 0); return true;
		case 5: long_mac(M_OMAC + t1024, 8, 128, 128, G32 + tail, 0); return true;
		case 6: long_mac(M_XCBC + t1024, 8, 128, 128, G32 + tail, 0); return true;
		case 7: long_mac(M_KECCAK800, 1, 16, 20, G29 + tail, 0); return true;
		case 8: long_mac(M_HMAC + H_MD5, 0, 16, 16, 65536, G29 / 65536); return true;
		case 9: long_mac(M_HMAC + H_SHA1, 0, 16, 20, 65536, G29 / 65536); return true;
		case 10: long_mac(M_HMAC + H_SHA2_256, 16, 16, 32, 65536, G29 / 65536); return true;
		case 11: long_mac(M_HMAC + H_SHA2_512, 16, 16, 64, G32 + tail, 0); return true;
		case 12: long_mac(M_OMAC + blk("speck32"), 0, 8, 4, 65521, 1100); return true;
		case 13: long_mac(M_XCBC + blk("speck64"), 0, 16, 8, 65521, 1100); return true;
		default: return false;
	}
	if(prop == "C05") switch(k)
	{
		case 0: long_ae(t1024, 8, 128, 128, 128, 100, G32 + tail); return true;
		case 1: long_ae(t1024, 8, 128, 128, 128, G32 + tail, 100); return true;
		case 8: long_ae(ae_eax2(S_CHACHA, M_HMAC + H_BLAKE2S), 2, 64, 8, 32, 0, G32 + tail); return true;
		case 2: long_ae(ae_eax2(S_SALSA20, M_SKEIN512), 8, 64, 8, 64, G32 + tail, 1000); return true;
		case 3: long_ae(blk("speck32"), 0, 8, 4, 4, 0, (1 << 26) + 40000); return true;
		case 4: long_ae(blk("aes"), 0, 16, 16, 16, 70000, 4000000); return true;
		case 5: long_ae(blk("rc5"), 1, 16, 8, 8, 4000000, 1 << 26); return true;
		default: return false;
	}
	if(prop == "C13") { if(k < 3 || k == 100) { S(OP_MW).set(A_kind, 9).set(A_len, (k == 0 ? 1 << 22 : k == 1 ? G32 : k == 2 ? G29 : 2 * G32) + tail); return true; } return false; }
	if(prop == "C14")
	{
		if(k == 0 || k == 100) { int64_t n = G32 + 16 + tail; S(OP_ME).set(A_kind, 9).set(A_len, n).set(A_pos, k ? G32 - 1 : n - 1).set(A_val, 1 + R.below(255)); return true; }
		if(k == 1) { S(OP_ME).set(A_kind, 9).set(A_len, G29 / 2 + tail).set(A_pos, 0).set(A_val, 0); return true; }
		return false;
	}
	if(prop == "C18") switch(k)
	{
		case 0: S(OP_KP).set(A_alg, M_HMAC + H_MD5).set(A_klen, 8).set(A_ilen, 8).set(A_n, 1).set(A_out, 16 * 65536 + 40).set(A_kd, 15).set(A_id, dseed()); return true;
		case 1: S(OP_KP).set(A_alg, M_OMAC + blk("speck32")).set(A_klen, 8).set(A_ilen, 8).set(A_n, 1).set(A_out, 4 * (1 << 24) + 4 * 300 + 1).set(A_kd, 31).set(A_id, dseed()); return true;
		case 2: S(OP_KP).set(A_alg, M_HMAC + H_SHA2_256).set(A_klen, 8).set(A_ilen, 70000).set(A_n, 3).set(A_out, 100).set(A_kd, 15).set(A_id, dseed()); return true;
		case 3: S(OP_KP).set(A_alg, M_HMAC + H_MD5).set(A_klen, 8).set(A_ilen, 8).set(A_n, 66000).set(A_out, 20).set(A_kd, 15).set(A_id, dseed()); return true;
		case 4: S(OP_KS).set(A_alg, M_HMAC + H_SHA2_256).set(A_klen, 8).set(A_ilen, 8).set(A_n, 65536).set(A_m, 1).set(A_pos, 1).set(A_out, 64).set(A_kd, 15).set(A_id, dseed()); return true;
		case 5: S(OP_KS).set(A_alg, M_HMAC + H_MD5).set(A_klen, 8).set(A_ilen, 8).set(A_n, 2).set(A_m, 600).set(A_pos, 3).set(A_out, 64).set(A_kd, 15).set(A_id, dseed()); return true;
		case 6: S(OP_KS).set(A_alg, M_HMAC + H_MD5).set(A_klen, 8).set(A_ilen, 8).set(A_n, 2).set(A_m, 1).set(A_pos, 3000).set(A_out, 64).set(A_kd, 15).set(A_id, dseed()); return true;
		default: return false;
	}
	if(prop == "C19")
	{
		if(k >= 24) return false;
		int64_t n = (k % 3 == 0 ? G32 : k % 3 == 1 ? G29 : 3 * G32 / 2) + tail; unsigned pad = 1 + (unsigned)R.below(255);
		if(k & 1) S(OP_PA).set(A_kind, 9).set(A_len, n).set(A_n, pad).set(A_m, R.below(2) ? 300 : R.below(300)).set(A_d, dseed());
		else S(OP_PR).set(A_kind, 9).set(A_len, n).set(A_val, 1 + R.below(255)).set(A_pos, R.chance(50) ? 0 : 1 + R.below(250)).set(A_d, dseed());
		return true;
	}
	return false;
}

void gen_plan(const std::string &prop, uint64_t seed, uint64_t idx, Plan &p)
{
	uint64_t h = hbytes(prop.data(), prop.size(), seed); R = Rng(hmix(h, idx));
	p = Plan(); p.prop = prop; bias = Bias(); maxlen = 400; warps = prop == "C01" || prop == "C02";
	extreme = prop == "C23" ? 85 : prop <= "C06" ? 3 : 0; plugged = prop == "C22" || (prop == "C23" && R.chance(20)); if(plugged) { p.c.plug = R.next() | 1; plug_config(p.c.plug); }
	p.c.fill = (int)R.below(4); p.c.fillseed = R.next() | 1;
	std::vector<std::vector<Step>> l;
	auto with = [&](int n, auto f) { p.ntasks = n; l.resize((size_t)n); for(int k = 0; k < n; k++) { out = &l[(size_t)k]; task = k; f(k); } merge(p, l); };
	auto cyc = [&](uint64_t n) { return (int)((idx + seed * 7) % n); }; /* visit every algorithm evenly */

	/* the slowest ones only where the thorough tier gets to */
	uint64_t lk = idx >= 1000 && idx < 1100 ? idx - 1000 : idx >= 1000000 && idx < 1000100 ? idx - 1000000 + 100 : ~0ULL;
	if(lk != ~0ULL)
	{
		p.ntasks = 1; out = &p.steps; task = 0;
		if(long_plan(prop, lk)) { number(p); p.lengthy = true; return; }
		p.steps.clear();
	}
	if(prop == "C01") { int a = cyc(H_COUNT); with(1 + (int)R.below(3), [&](int k) { bias.hash = k ? (int)R.below(H_COUNT) : a; sess_hash(0, 1 + (unsigned)R.below(4)); if(R.chance(30)) sess_hash(1, 1); }); }
	else if(prop == "C02") { int a = cyc(S_NATIVE); with(1 + (int)R.below(2), [&](int k) { sess_stream(0, 1 + (unsigned)R.below(4), k ? (int)R.below(S_NATIVE) : a); }); }
	else if(prop == "C03") { int a = S_ECB + 50 * cyc(5) + (int)R.below(B_COUNT); with(1 + (int)R.below(2), [&](int k) { sess_stream(0, 1 + (unsigned)R.below(4), k ? any_mode() : a); }); }
	else if(prop == "C04") with(1 + (int)R.below(2), [&](int) { sess_mac(0, 1 + (unsigned)R.below(4)); if(R.chance(20)) one_mem(); if(R.chance(30)) sess_mac(1, 1); });
	else if(prop == "C05") with(1 + (int)R.below(2), [&](int) { bias.ae = any_ae(); if(R.chance(70)) sess_channel(0, 1 + (unsigned)R.below(4)); if(R.chance(40)) sess_ae(4, 1 + (unsigned)R.below(3)); });
	else if(prop == "C06") { int a = cyc(B_COUNT); with(1 + (int)R.below(3), [&](int k) { bias.block = k ? (int)R.below(B_COUNT) : a; sess_block(0, 5 + (unsigned)R.below(25)); if(R.chance(30)) sess_block(1, 5); }); }
	else if(prop == "C07")
	{
		maxlen = 120; set_bias();
		with(2 + (int)R.below(3), [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, true); });
		p.c.preempt = p.c.record = true; p.c.srng = R.next(); p.c.avg = one_of({20, 100, 500, 3000, 20000}); p.c.fill = 4;
	}
	else if(prop == "C08")
	{
		maxlen = 120; set_bias(); p.shared = true; p.ntasks = 2 + (int)R.below(3); std::vector<Step> pro; out = &pro; task = T_PRO;
		unsigned nb = 1 + (unsigned)R.below(2); std::vector<int> algs;
		for(unsigned i = 0; i < nb; i++) { int a = R.chance(50) && idx % 2 ? cyc(B_COUNT) : (int)R.below(B_COUNT); algs.push_back(a); Step &c = S(OP_BC).set(A_slot, 100 + i).set(A_alg, a); blk_cfg(c, a); if(block_info[a].maxtweak && R.chance(50)) S(OP_BT).set(A_slot, 100 + i).set(A_tl, block_info[a].maxtweak).set(A_id, dseed()); }
		/* the descriptors the tasks will share are made by the prologue through throw-away objects */
		if(R.chance(60)) { Step &c = S(OP_SC).set(A_slot, 50).set(A_alg, bias.stream); stream_cfg(c, bias.stream); }
		if(R.chance(60)) { Step &c = S(OP_MC).set(A_slot, 50).set(A_alg, bias.mac); mac_cfg(c, bias.mac); }
		if(R.chance(60)) { Step &c = S(OP_AC).set(A_slot, 50).set(A_alg, bias.ae); ae_cfg(c, bias.ae); }
		p.steps = pro;
		l.resize((size_t)p.ntasks);
		for(int k = 0; k < p.ntasks; k++)
		{
			out = &l[(size_t)k]; task = k;
			for(unsigned n = 3 + (unsigned)R.below(8); n; n--) S(R.chance(50) ? OP_BE : OP_BD).set(A_slot, 100 + R.below(nb)).set(A_d, dseed()).set(A_ip, R.chance(30));
			if(R.chance(50)) sess_any(4, false, true);
		}
		merge(p, l);
		out = &p.steps; task = T_EPI; 
		p.c.preempt = p.c.record = true; p.c.srng = R.next(); p.c.avg = one_of({20, 100, 500, 3000}); p.c.fill = 4;
	}
	else if(prop == "C09" || prop == "C10")
	{
		maxlen = 100; p.c.fill = prop == "C09" ? 4 : (int)R.below(4);
		with(1 + (int)R.below(2), [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, true); });
		p.retry = prop == "C09" || R.chance(50);
		bool dev = false; for(const Step &s : p.steps) dev |= s.op == OP_RC;
		if(prop == "C10" && dev && R.chance(75))
		{
			p.c.devseed = R.next() >> 1; if(R.chance(40)) p.c.openfail = (int)(1 + R.below(15)); if(R.chance(20)) p.c.devsize = (int64_t)R.below(6000);
			if(R.chance(70)) { p.c.dev.resize(4); for(auto &d : p.c.dev) { d.resize(R.below(12)); for(auto &e : d) if(R.chance(40)) { e.kind = 1 + (int)R.below(5); if(e.kind == 1) e.val = (int64_t)(1 + R.below(400)); } } }
		}
	}
	else if(prop == "C22") { maxlen = 150; with(1 + (int)R.below(2), [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, true); }); p.retry = R.chance(60); }
	else if(prop == "C11") with(1, [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, false); });
	else if(prop == "C12") with(1, [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, false); });
	else if(prop == "C13") { maxlen = 150; with(1, [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, true); }); p.retry = R.chance(50); }
	else if(prop == "C14")
	{
		with(1, [&](int) {
			if(R.chance(50)) S(OP_ME).set(A_len, 1 + R.below(R.chance(20) ? 300 : 70)).set(A_d, dseed() | 5);
			else if(R.chance(60)) { int a = any_mac(); Step &c = S(OP_MC).set(A_slot, 0).set(A_alg, a); mac_cfg(c, a); int64_t tl = c.a[A_tl] ? c.a[A_tl] : 8; for(unsigned k = (unsigned)R.below(3); k; k--) S(OP_MI).set(A_slot, 0).set(A_len, R.below(60)).set(A_d, dseed()); S(OP_MV).set(A_slot, 0).set(A_len, tl); }
			else { int a = any_ae(); Step &c = S(OP_AC).set(A_slot, 0).set(A_alg, a); ae_cfg(c, a); int64_t tl = c.a[A_tl] ? c.a[A_tl] : 8; S(OP_AD).set(A_slot, 0).set(A_len, R.below(60)).set(A_d, dseed()); S(OP_AV).set(A_slot, 0).set(A_len, tl); }
		});
		p.vary = (int)p.steps.size();
	}
	else if(prop == "C20" && R.chance(6)) { p.c.fill = 4; p.ntasks = 1; out = &p.steps; task = 0; p.vfield = scale_plan(p.c); p.vary = (int)p.steps.size(); }
	else if(prop == "C15" || prop == "C16" || (prop == "C20" && R.chance(20)))
	{
		if(prop == "C20") p.c.fill = 4;
		p.c.devseed = R.next() >> 1; if(R.chance(15)) p.c.env = R.chance(50) ? "/sim/trng0" : "/dev/random";
		with(1, [&](int) {
			unsigned n = 1 + (unsigned)R.below(3);
			for(unsigned i = 0; i < n; i++) S(OP_RC).set(A_slot, i);
			for(unsigned k = 2 + (unsigned)R.below(14); k; k--)
			{
				unsigned s = (unsigned)R.below(n);
				if(prop != "C15" ? R.chance(50) : R.chance(5)) S(OP_RT).set(A_slot, s);
				else S(OP_RG).set(A_slot, s).set(A_len, R.chance(25) ? R.below(20000) : R.chance(10) ? 0 : R.chance(30) ? 4090 + R.below(12) : R.below(200));
				if(R.chance(6)) { S(OP_RX).set(A_slot, s); if(R.chance(60)) S(OP_RC).set(A_slot, s); }
			} });
		if(prop != "C16" ? R.chance(85) : R.chance(35))
		{
			p.c.dev.resize(4); unsigned pct = one_of({5, 20, 50}); bool fatal = R.chance(40);
			for(auto &d : p.c.dev) { d.resize(R.below(24)); for(auto &e : d) if(R.chance(pct)) { e.kind = 1 + (int)R.below(fatal ? 5 : 3); if(e.kind == 1) e.val = (int64_t)(R.chance(50) ? 1 + R.below(16) : 1 + R.below(4095)); } }
		}
		if(R.chance(15)) p.c.openfail = 1 << R.below(4);
		if(R.chance(prop == "C15" ? 10 : prop == "C16" ? 15 : 40)) p.c.devsize = (int64_t)R.below(12000);
		p.c.devkind = prop == "C16" && R.chance(60) ? 1 + (int)R.below(22) : 0;
	}
	else if(prop == "C17")
	{
		with(1, [&](int) {
			unsigned n = 1 + (unsigned)R.below(2);
			for(unsigned i = 0; i < n; i++) S(OP_RC).set(A_slot, i);
			for(unsigned k = 3 + (unsigned)R.below(20); k; k--)
			{
				unsigned s = (unsigned)R.below(n), x = (unsigned)R.below(10);
				if(x < 7) S(OP_RG).set(A_slot, s).set(A_len, R.chance(25) ? R.below(6000) : R.chance(30) ? 1 + R.below(1200) : R.below(100));
				else if(x < 9) S(OP_TM).set(A_val, R.chance(20) ? -(int64_t)R.below(1000) : R.chance(40) ? 299 + (int64_t)R.below(4) : (int64_t)R.below(400));
				else if(R.chance(30)) { S(OP_RX).set(A_slot, s); if(R.chance(70)) S(OP_RC).set(A_slot, s); }
			} });
		p.retry = true; p.c.fill = 2; if(R.chance(30)) p.c.coarse = 1 + (int)R.below(2);
	}
	else if(prop == "C18") with(1, [&](int) { for(unsigned k = 1 + (unsigned)R.below(3); k; k--) one_kdf(true); });
	else if(prop == "C19") with(1, [&](int) { for(unsigned k = 1 + (unsigned)R.below(4); k; k--) one_pad((int)k * 4); });
	else if(prop == "C20") { maxlen = R.chance(10) ? 6000 : 300; with(1, [&](int) { sess_any(4, true, true); }); p.retry = R.chance(50); p.c.fill = 4; }
	else if(prop == "C23")
	{
		maxlen = 150;
		with(1 + (int)R.below(2), [&](int) { for(unsigned k = 1 + (unsigned)R.below(3); k; k--) switch(R.below(10)) { case 0: case 1: sess_block((int)k * 4, 2 + (unsigned)R.below(6)); break; case 2: case 3: sess_hash((int)k * 4, 1 + (unsigned)R.below(3)); break; case 4: case 5: sess_stream((int)k * 4, 1 + (unsigned)R.below(3)); break; case 6: case 7: sess_mac((int)k * 4, 1 + (unsigned)R.below(3)); break; default: sess_ae((int)k * 4, 1 + (unsigned)R.below(3)); } });
		p.retry = R.chance(70);
	}
	else { with(1 + (int)R.below(2), [&](int) { for(unsigned k = 1 + (unsigned)R.below(2); k; k--) sess_any((int)k * 4, true, false); }); p.c.fill = 4; } /* C21 */
	number(p);
}
