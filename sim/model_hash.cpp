/* Reference hash functions.  Written from the published definitions; block-at-a-time, no tricks. */
#include "model.h"
#include <math.h>
#include <stdlib.h>
#include "consts.inc"

const char *const hash_names[H_ALL] = {"md5","sha1","sha2_256","sha2_512","blake256","blake512","blake2s","blake2b",
 "keccak800","keccak1600","sha3","skein256","skein512","skein1024","tiger","whirlpool","plughash0","plughash1","plughash2"};
HashInfo hash_info[H_ALL] = {{64,16,0},{64,20,0},{64,32,0},{128,64,0},{64,32,16},{128,64,32},{64,32,8},{128,64,16},
 {100,0,0},{200,0,0},{200,64,0},{32,0,~0u},{64,0,~0u},{128,0,~0u},{64,24,0},{64,64,0}};

static inline uint32_t rl32(uint32_t x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static inline uint32_t rr32(uint32_t x, unsigned n) { return rl32(x, 32 - (n & 31)); }
static inline uint64_t rl64(uint64_t x, unsigned n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
static inline uint64_t rr64(uint64_t x, unsigned n) { return rl64(x, 64 - (n & 63)); }
static inline uint32_t ldl32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static inline uint64_t ldl64(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static inline uint32_t ldb32(const uint8_t *p) { return __builtin_bswap32(ldl32(p)); }
static inline uint64_t ldb64(const uint8_t *p) { return __builtin_bswap64(ldl64(p)); }
static inline void stl32(uint8_t *p, uint32_t v) { memcpy(p, &v, 4); }
static inline void stl64(uint8_t *p, uint64_t v) { memcpy(p, &v, 8); }
static inline void stb32(uint8_t *p, uint32_t v) { stl32(p, __builtin_bswap32(v)); }
static inline void stb64(uint8_t *p, uint64_t v) { stl64(p, __builtin_bswap64(v)); }

/* generic block feeder; LAZY keeps a full last block back until more input or the end */
template<bool LAZY> struct Feeder : HashCtx
{
	unsigned bs; uint8_t buf[256]; unsigned i = 0; unsigned __int128 total = 0;
	explicit Feeder(unsigned b) : bs(b) {}
	bool warp(uint64_t k) override { total += (unsigned __int128)k * bs; return true; }
	virtual void block(const uint8_t *p) = 0;
	void input(const uint8_t *p, size_t n) override
	{
		total += n;
		while(n)
		{
			if(LAZY && i == bs) { block(buf); i = 0; }
			if(i == 0 && n > bs) { block(p); p += bs; n -= bs; continue; }
			size_t k = bs - i < n ? bs - i : n;
			memcpy(buf + i, p, k); i += k; p += k; n -= k;
			if(!LAZY && i == bs) { block(buf); i = 0; }
		}
	}
	/* 10*-padding followed by a big or little endian length field of lb bytes */
	void mdpad(uint8_t first, unsigned lb, bool be)
	{
		unsigned __int128 bits = total * 8;
		uint8_t b[256]; memcpy(b, buf, i); unsigned n = i; b[n++] = first;
		if(n > bs - lb) { memset(b + n, 0, bs - n); block(b); n = 0; }
		memset(b + n, 0, bs - n);
		for(unsigned k = 0; k < lb && k < 16; k++)
		{
			uint8_t v = (uint8_t)(bits >> (8 * k));
			if(be) b[bs - 1 - k] = v; else b[bs - lb + k] = v;
		}
		block(b);
	}
	static Bytes trunc(const uint8_t *p, size_t have, size_t want) { Bytes r(want, 0); memcpy(r.data(), p, want < have ? want : have); return r; }
};

/* ---- MD5 ---- */
struct Md5 : Feeder<false>
{
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
	Md5() : Feeder(64) {}
	void block(const uint8_t *p) override
	{
		static uint32_t T[64]; static bool init = false;
		if(!init) { for(int j = 0; j < 64; j++) T[j] = (uint32_t)(int64_t)floor(fabs(sin((double)(j + 1))) * 4294967296.0); init = true; }
		static const unsigned R[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
		for(int j = 0; j < 64; j++)
		{
			uint32_t f; int g;
			switch(j >> 4)
			{
				case 0: f = (b & c) | (~b & d); g = j; break;
				case 1: f = (d & b) | (~d & c); g = (5 * j + 1) & 15; break;
				case 2: f = b ^ c ^ d; g = (3 * j + 5) & 15; break;
				default: f = c ^ (b | ~d); g = (7 * j) & 15; break;
			}
			uint32_t t = d; d = c; c = b;
			b = b + rl32(a + f + T[j] + ldl32(p + 4 * g), R[j >> 4][j & 3]);
			a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d;
	}
	Bytes output(size_t w) override { mdpad(0x80, 8, false); uint8_t o[16]; for(int j = 0; j < 4; j++) stl32(o + 4 * j, h[j]); return trunc(o, 16, w); }
};

/* ---- SHA-1 ---- */
struct Sha1 : Feeder<false>
{
	uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
	Sha1() : Feeder(64) {}
	void block(const uint8_t *p) override
	{
		uint32_t w[80];
		for(int j = 0; j < 16; j++) w[j] = ldb32(p + 4 * j);
		for(int j = 16; j < 80; j++) w[j] = rl32(w[j-3] ^ w[j-8] ^ w[j-14] ^ w[j-16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for(int j = 0; j < 80; j++)
		{
			uint32_t f, k;
			if(j < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
			else if(j < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
			else if(j < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
			else { f = b ^ c ^ d; k = 0xca62c1d6; }
			uint32_t t = rl32(a, 5) + f + e + k + w[j];
			e = d; d = c; c = rl32(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	Bytes output(size_t w) override { mdpad(0x80, 8, true); uint8_t o[20]; for(int j = 0; j < 5; j++) stb32(o + 4 * j, h[j]); return trunc(o, 20, w); }
};

/* ---- SHA-2 ---- */
struct Sha256 : Feeder<false>
{
	uint32_t h[8]; unsigned r; unsigned len;
	Sha256(unsigned rounds, unsigned out) : Feeder(64), r(rounds ? rounds : 64)
	{
		static const uint32_t i224[8] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
		if(out > 28) { for(int j = 0; j < 8; j++) h[j] = (uint32_t)(SQRT64[j] >> 32); len = 32; }
		else { memcpy(h, i224, sizeof h); len = 32; }
	}
	void block(const uint8_t *p) override
	{
		uint32_t w[160];
		for(unsigned j = 0; j < 16; j++) w[j] = ldb32(p + 4 * j);
		for(unsigned j = 16; j < r; j++)
		{
			uint32_t s0 = rr32(w[j-15], 7) ^ rr32(w[j-15], 18) ^ (w[j-15] >> 3);
			uint32_t s1 = rr32(w[j-2], 17) ^ rr32(w[j-2], 19) ^ (w[j-2] >> 10);
			w[j] = w[j-16] + s0 + w[j-7] + s1;
		}
		uint32_t v[8]; memcpy(v, h, sizeof h);
		for(unsigned j = 0; j < r; j++)
		{
			uint32_t S1 = rr32(v[4], 6) ^ rr32(v[4], 11) ^ rr32(v[4], 25);
			uint32_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
			uint32_t t1 = v[7] + S1 + ch + (uint32_t)(SHA_K64[j] >> 32) + w[j];
			uint32_t S0 = rr32(v[0], 2) ^ rr32(v[0], 13) ^ rr32(v[0], 22);
			uint32_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			uint32_t t2 = S0 + mj;
			v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
		}
		for(int j = 0; j < 8; j++) h[j] += v[j];
	}
	Bytes output(size_t w) override { mdpad(0x80, 8, true); uint8_t o[32]; for(int j = 0; j < 8; j++) stb32(o + 4 * j, h[j]); return trunc(o, len, w); }
};

struct Sha512 : Feeder<false>
{
	uint64_t h[8]; unsigned r;
	Sha512(unsigned rounds, unsigned out) : Feeder(128), r(rounds ? rounds : 80)
	{
		for(int j = 0; j < 8; j++) h[j] = out > 48 ? SQRT64[j] : SQRT64[j + 8];
	}
	void block(const uint8_t *p) override
	{
		uint64_t w[160];
		for(unsigned j = 0; j < 16; j++) w[j] = ldb64(p + 8 * j);
		for(unsigned j = 16; j < r; j++)
		{
			uint64_t s0 = rr64(w[j-15], 1) ^ rr64(w[j-15], 8) ^ (w[j-15] >> 7);
			uint64_t s1 = rr64(w[j-2], 19) ^ rr64(w[j-2], 61) ^ (w[j-2] >> 6);
			w[j] = w[j-16] + s0 + w[j-7] + s1;
		}
		uint64_t v[8]; memcpy(v, h, sizeof h);
		for(unsigned j = 0; j < r; j++)
		{
			uint64_t S1 = rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41);
			uint64_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
			uint64_t t1 = v[7] + S1 + ch + SHA_K64[j] + w[j];
			uint64_t S0 = rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39);
			uint64_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			uint64_t t2 = S0 + mj;
			v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
		}
		for(int j = 0; j < 8; j++) h[j] += v[j];
	}
	Bytes output(size_t w) override { mdpad(0x80, 16, true); uint8_t o[64]; for(int j = 0; j < 8; j++) stb64(o + 8 * j, h[j]); return trunc(o, 64, w); }
};

/* ---- BLAKE / BLAKE2 ---- */
static const uint8_t SIG[10][16] = {
 {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
 {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
 {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
 {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
 {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static const uint8_t QR[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};

template<typename W> struct BlakeT : HashCtx
{
	enum { WB = sizeof(W), BS = 16 * WB };
	W h[8], s[4]; unsigned r; bool full; Bytes tail; unsigned __int128 total = 0;
	static W ror(W x, unsigned n) { return WB == 4 ? (W)rr32((uint32_t)x, n) : (W)rr64(x, n); }
	static W ldb(const uint8_t *p) { return WB == 4 ? (W)ldb32(p) : (W)ldb64(p); }
	static W K(int i) { return WB == 4 ? (W)PI32[i] : (W)PI64[i]; }
	BlakeT(unsigned rounds, unsigned out, const Bytes &salt)
	{
		r = rounds ? rounds : (WB == 4 ? 14 : 16);
		full = out > 7 * WB - (WB == 8 ? 8 : 0);   /* >28 / >48 */
		static const uint32_t i224[8] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
		for(int j = 0; j < 8; j++)
		{
			if(WB == 4) h[j] = full ? (W)(SQRT64[j] >> 32) : (W)i224[j];
			else h[j] = full ? (W)SQRT64[j] : (W)SQRT64[j + 8];
		}
		Bytes z(salt); z.resize(4 * WB, 0);
		for(int j = 0; j < 4; j++) s[j] = ldb(z.data() + WB * j);
	}
	bool warp(uint64_t k) override { total += (unsigned __int128)k * 8 * BS; return true; }
	void comp(const uint8_t *p, unsigned __int128 bits)
	{
		W m[16], v[16]; W t0 = (W)bits, t1 = (W)(bits >> (8 * WB));
		for(int j = 0; j < 16; j++) m[j] = ldb(p + WB * j);
		for(int j = 0; j < 8; j++) v[j] = h[j];
		for(int j = 0; j < 4; j++) v[8 + j] = s[j] ^ K(j);
		v[12] = t0 ^ K(4); v[13] = t0 ^ K(5); v[14] = t1 ^ K(6); v[15] = t1 ^ K(7);
		static const unsigned R4[4] = {16,12,8,7}, R8[4] = {32,25,16,11};
		const unsigned *R = WB == 4 ? R4 : R8;
		for(unsigned i = 0; i < r; i++) for(int q = 0; q < 8; q++)
		{
			W &a = v[QR[q][0]], &b = v[QR[q][1]], &c = v[QR[q][2]], &d = v[QR[q][3]];
			unsigned x = SIG[i % 10][2 * q], y = SIG[i % 10][2 * q + 1];
			a += b + (m[x] ^ K(y)); d = ror(d ^ a, R[0]); c += d; b = ror(b ^ c, R[1]);
			a += b + (m[y] ^ K(x)); d = ror(d ^ a, R[2]); c += d; b = ror(b ^ c, R[3]);
		}
		for(int j = 0; j < 8; j++) h[j] ^= s[j & 3] ^ v[j] ^ v[j + 8];
	}
	void input(const uint8_t *p, size_t n) override
	{
		while(n)
		{
			if(tail.empty() && n >= BS) { total += 8 * BS; comp(p, total); p += BS; n -= BS; continue; }
			size_t k = BS - tail.size(); if(k > n) k = n;
			tail.insert(tail.end(), p, p + k); p += k; n -= k;
			if(tail.size() == BS) { total += 8 * BS; comp(tail.data(), total); tail.clear(); }
		}
	}
	Bytes output(size_t w) override
	{
		unsigned __int128 l = total + 8 * tail.size();
		Bytes pad(tail); size_t tl = tail.size();
		pad.push_back(0x80);
		while(pad.size() % BS != BS - 2 * WB) pad.push_back(0);
		if(full) pad[pad.size() - 1] |= 0x01;
		for(int j = 2 * WB - 1; j >= 0; j--) pad.push_back((uint8_t)(l >> (8 * j)));
		/* counter of a block = message bits up to and including it, 0 if it holds none */
		size_t nb = pad.size() / BS;
		for(size_t b = 0; b < nb; b++) comp(&pad[b * BS], (b * BS < tl) ? l : 0);
		uint8_t o[64]; for(int j = 0; j < 8; j++) { if(WB == 4) stb32(o + 4 * j, (uint32_t)h[j]); else stb64(o + 8 * j, h[j]); }
		return Feeder<false>::trunc(o, 8 * WB, w);
	}
};

template<typename W> struct Blake2T : Feeder<true>
{
	enum { WB = sizeof(W), BS = 16 * WB };
	W h[8]; unsigned r; unsigned __int128 t = 0;
	static W ror(W x, unsigned n) { return WB == 4 ? (W)rr32((uint32_t)x, n) : (W)rr64(x, n); }
	static W ldl(const uint8_t *p) { return WB == 4 ? (W)ldl32(p) : (W)ldl64(p); }
	static W IV(int j) { return WB == 4 ? (W)(SQRT64[j] >> 32) : (W)SQRT64[j]; }
	Blake2T(unsigned rounds, unsigned out, const Bytes &salt) : Feeder(16 * sizeof(W))
	{
		r = rounds ? rounds : (WB == 4 ? 10 : 12);
		uint8_t prm[64]; memset(prm, 0, sizeof prm);
		prm[0] = (uint8_t)out; prm[2] = 1; prm[3] = 1;
		memcpy(prm + 4 * WB, salt.data(), salt.size());
		for(int j = 0; j < 8; j++) h[j] = IV(j) ^ ldl(prm + WB * j);
	}
	void comp(const uint8_t *p, bool last)
	{
		W m[16], v[16];
		for(int j = 0; j < 16; j++) m[j] = ldl(p + WB * j);
		for(int j = 0; j < 8; j++) { v[j] = h[j]; v[j + 8] = IV(j); }
		v[12] ^= (W)t; v[13] ^= (W)(t >> (8 * WB)); if(last) v[14] = ~v[14];
		static const unsigned R4[4] = {16,12,8,7}, R8[4] = {32,24,16,63};
		const unsigned *R = WB == 4 ? R4 : R8;
		for(unsigned i = 0; i < r; i++) for(int q = 0; q < 8; q++)
		{
			W &a = v[QR[q][0]], &b = v[QR[q][1]], &c = v[QR[q][2]], &d = v[QR[q][3]];
			a += b + m[SIG[i % 10][2 * q]]; d = ror(d ^ a, R[0]); c += d; b = ror(b ^ c, R[1]);
			a += b + m[SIG[i % 10][2 * q + 1]]; d = ror(d ^ a, R[2]); c += d; b = ror(b ^ c, R[3]);
		}
		for(int j = 0; j < 8; j++) h[j] ^= v[j] ^ v[j + 8];
	}
	void block(const uint8_t *p) override { t += BS; comp(p, false); }
	bool warp(uint64_t k) override { t += (unsigned __int128)k * BS; return true; }
	Bytes output(size_t w) override
	{
		t += i; memset(buf + i, 0, BS - i); comp(buf, true);
		uint8_t o[64]; for(int j = 0; j < 8; j++) { if(WB == 4) stl32(o + 4 * j, (uint32_t)h[j]); else stl64(o + 8 * j, h[j]); }
		return trunc(o, 8 * WB, w);
	}
};

/* ---- Keccak ---- */
static uint64_t keccak_rc(unsigned round)
{
	/* LFSR x^8+x^6+x^5+x^4+1 */
	uint64_t v = 0;
	for(int j = 0; j <= 6; j++)
	{
		unsigned t = (7 * round + j) % 255, R = 1;
		for(unsigned k = 0; k < t; k++) { R <<= 1; if(R & 0x100) R ^= 0x171; }
		if(R & 1) v |= 1ULL << ((1u << j) - 1);
	}
	return v;
}
static void keccak_p(uint64_t A[25], unsigned wbits, unsigned rounds)
{
	const uint64_t mask = wbits == 64 ? ~0ULL : ((1ULL << wbits) - 1);
	static uint64_t RC[64]; static bool init = false;
	static unsigned rho[25];
	if(!init)
	{
		for(int j = 0; j < 64; j++) RC[j] = keccak_rc(j);
		unsigned x = 1, y = 0; rho[0] = 0;
		for(unsigned t = 0; t < 24; t++) { rho[x + 5 * y] = (t + 1) * (t + 2) / 2; unsigned ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
		init = true;
	}
	auto rot = [&](uint64_t v, unsigned n) { n %= wbits; return n ? ((v << n) | (v >> (wbits - n))) & mask : v; };
	for(unsigned r = 0; r < rounds; r++)
	{
		uint64_t C[5], D[5], B[25];
		for(int x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
		for(int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
		for(int j = 0; j < 25; j++) A[j] ^= D[j % 5];
		for(int x = 0; x < 5; x++) for(int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rot(A[x + 5 * y], rho[x + 5 * y]);
		for(int y = 0; y < 5; y++) for(int x = 0; x < 5; x++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & mask & B[(x + 2) % 5 + 5 * y]);
		A[0] ^= RC[r] & mask;
	}
}
struct KeccakM : HashCtx
{
	unsigned wb, rate, r; uint8_t pad; uint64_t A[25]; unsigned pos = 0;
	bool done = false; unsigned k = 0;
	KeccakM(unsigned w, unsigned rounds, uint64_t out, uint8_t p) : wb(w / 8), pad(p)
	{
		if(out > (25 * wb - 1) / 2) out = (25 * wb - 1) / 2; rate = 25 * wb - 2 * (unsigned)out; r = rounds ? rounds : (w == 64 ? 24 : 22);
		memset(A, 0, sizeof A);
	}
	void xorb(unsigned p, uint8_t v) { A[p / wb] ^= (uint64_t)v << (8 * (p % wb)); }
	void input(const uint8_t *p, size_t n) override
	{
		for(size_t k = 0; k < n; k++) { xorb(pos++, p[k]); if(pos == rate) { keccak_p(A, 8 * wb, r); pos = 0; } }
	}
	Bytes output(size_t w) override
	{
		Bytes o(w); squeeze(o.data(), w); return o;
	}
	bool squeeze(uint8_t *o, size_t n) override
	{
		if(!done) { xorb(pos, pad); xorb(rate - 1, 0x80); keccak_p(A, 8 * wb, r); done = true; }
		for(; n; n--)
		{
			if(k == rate) { keccak_p(A, 8 * wb, r); k = 0; }
			*o++ = (uint8_t)(A[k / wb] >> (8 * (k % wb))); k++;
		}
		return true;
	}
};

/* ---- Threefish / Skein ---- */
void m_threefish(unsigned nw, unsigned rounds, const uint64_t *key, const uint64_t tweak[2], const uint64_t *in, uint64_t *out)
{
	static const uint8_t R4[8][2] = {{14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32}};
	static const uint8_t R8[8][4] = {{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
	static const uint8_t R16[8][8] = {{24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},
	 {41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20}};
	static const uint8_t P4[4] = {0,3,2,1}, P8[8] = {2,1,4,7,6,5,0,3}, P16[16] = {0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1};
	uint64_t k[17], t[3], v[16];
	k[nw] = 0x1BD11BDAA9FC1A22ULL;
	for(unsigned i = 0; i < nw; i++) { k[i] = key[i]; k[nw] ^= key[i]; v[i] = in[i]; }
	t[0] = tweak[0]; t[1] = tweak[1]; t[2] = t[0] ^ t[1];
	if(!rounds) rounds = nw == 16 ? 80 : 72;
	auto sub = [&](unsigned s)
	{
		for(unsigned i = 0; i < nw; i++) v[i] += k[(s + i) % (nw + 1)];
		v[nw - 3] += t[s % 3]; v[nw - 2] += t[(s + 1) % 3]; v[nw - 1] += s;
	};
	for(unsigned d = 0; d < rounds; d++)
	{
		if(d % 4 == 0) sub(d / 4);
		for(unsigned j = 0; j < nw / 2; j++)
		{
			unsigned R = nw == 4 ? R4[d % 8][j] : nw == 8 ? R8[d % 8][j] : R16[d % 8][j];
			v[2*j] += v[2*j+1]; v[2*j+1] = rl64(v[2*j+1], R) ^ v[2*j];
		}
		uint64_t u[16];
		for(unsigned i = 0; i < nw; i++) u[i] = v[nw == 4 ? P4[i] : nw == 8 ? P8[i] : P16[i]];
		memcpy(v, u, 8 * nw);
	}
	sub(rounds / 4);
	for(unsigned i = 0; i < nw; i++) out[i] = v[i];
}

struct Ubi
{
	unsigned nw, r; uint64_t G[16]; uint64_t pos; bool first; unsigned type; Bytes buf;
	Ubi(unsigned words, unsigned rounds) : nw(words), r(rounds) { memset(G, 0, sizeof G); }
	void start(unsigned ty) { pos = 0; first = true; type = ty; buf.clear(); }
	void blk(const uint8_t *p, unsigned bytes, bool final)
	{
		uint64_t m[16], c[16], tw[2];
		for(unsigned i = 0; i < nw; i++) m[i] = ldl64(p + 8 * i);
		pos += bytes; tw[0] = pos;
		tw[1] = ((uint64_t)type << 56) | (first ? 1ULL << 62 : 0) | (final ? 1ULL << 63 : 0);
		m_threefish(nw, r, G, tw, m, c);
		for(unsigned i = 0; i < nw; i++) G[i] = c[i] ^ m[i];
		first = false;
	}
	void add(const uint8_t *p, size_t n)
	{
		unsigned bs = 8 * nw;
		while(n)
		{
			if(buf.size() == bs) { blk(buf.data(), bs, false); buf.clear(); }
			if(buf.empty() && n > bs) { blk(p, bs, false); p += bs; n -= bs; continue; }
			size_t k = bs - buf.size(); if(k > n) k = n;
			buf.insert(buf.end(), p, p + k); p += k; n -= k;
		}
	}
	void finish() { unsigned l = buf.size(); buf.resize(8 * nw, 0); blk(buf.data(), l, true); buf.clear(); }
	void whole(unsigned ty, const uint8_t *p, size_t n) { start(ty); add(p, n); finish(); }
	void config(uint64_t outbits)
	{
		uint8_t c[32]; memset(c, 0, 32); memcpy(c, "SHA3", 4); c[4] = 1; stl64(c + 8, outbits); whole(4, c, 32);
	}
	/* the block of output with that number, once the message is finished */
	void outblock(uint64_t ctr, uint8_t *o)
	{
		uint64_t save[16]; memcpy(save, G, sizeof G);
		uint8_t c[8]; stl64(c, ctr); whole(63, c, 8);
		for(unsigned i = 0; i < nw; i++) stl64(o + 8 * i, G[i]);
		memcpy(G, save, sizeof G);
	}
};
struct SkeinM : HashCtx
{
	Ubi u;
	bool done = false; uint64_t ctr = 0; uint8_t blk[128]; unsigned left = 0;
	SkeinM(unsigned nw, unsigned r, uint64_t out, const Bytes &salt) : u(nw, r)
	{
		u.config(out * 8);
		if(!salt.empty()) u.whole(20, salt.data(), salt.size());
		u.start(48);
	}
	void input(const uint8_t *p, size_t n) override { u.add(p, n); }
	bool warp(uint64_t k) override { u.pos += k * 8 * u.nw; return true; }
	Bytes output(size_t w) override { Bytes o(w); squeeze(o.data(), w); return o; }
	bool squeeze(uint8_t *o, size_t n) override
	{
		if(!done) { u.finish(); done = true; }
		unsigned bs = 8 * u.nw;
		while(n)
		{
			if(!left) { u.outblock(ctr++, blk); left = bs; }
			unsigned z = left < n ? left : (unsigned)n; memcpy(o, blk + bs - left, z); o += z; n -= z; left -= z;
		}
		return true;
	}
};
/* used by the MAC and stream models */
std::unique_ptr<HashCtx> m_skein_mac_ctx(unsigned nw, unsigned r, unsigned out, const Bytes &key)
{
	SkeinM *m = new SkeinM(nw, r, out, Bytes()); Ubi u(nw, r);
	u.whole(0, key.data(), key.size()); u.config((uint64_t)out * 8); u.start(48); m->u = u;
	return std::unique_ptr<HashCtx>(m);
}
/* Skein stream as the library defines it: chain = CFG(NONCE) over the key, no message stage */
struct SkeinStreamChain : Ubi { SkeinStreamChain(unsigned nw, unsigned r) : Ubi(nw, r) {} };
void m_skein_stream_init(unsigned nw, unsigned r, const Bytes &key, const Bytes &iv, uint64_t G[16])
{
	Ubi u(nw, r);
	u.whole(0, key.data(), key.size());
	u.config(~0ULL);
	if(!iv.empty()) u.whole(20, iv.data(), iv.size());
	memcpy(G, u.G, sizeof u.G);
}
void m_skein_stream_block(unsigned nw, unsigned r, const uint64_t G[16], uint64_t ctr, uint8_t *out)
{
	Ubi u(nw, r); memcpy(u.G, G, sizeof u.G);
	uint8_t c[8]; stl64(c, ctr); u.whole(63, c, 8);
	for(unsigned i = 0; i < 8 * nw; i++) out[i] = (uint8_t)(u.G[i / 8] >> (8 * (i % 8)));
}

/* ---- Tiger ---- */
static uint64_t TT[4][256];
static void tiger_pass(const uint64_t T[4][256], uint64_t &a, uint64_t &b, uint64_t &c, const uint64_t x[8], uint64_t mul)
{
	uint64_t *v[3] = {&a, &b, &c};
	for(int i = 0; i < 8; i++)
	{
		uint64_t &A = *v[i % 3], &B = *v[(i + 1) % 3], &C = *v[(i + 2) % 3];
		C ^= x[i];
		uint8_t q[8]; stl64(q, C);
		A -= T[0][q[0]] ^ T[1][q[2]] ^ T[2][q[4]] ^ T[3][q[6]];
		B += T[3][q[1]] ^ T[2][q[3]] ^ T[1][q[5]] ^ T[0][q[7]];
		B *= mul;
	}
}
static void tiger_sched(uint64_t x[8])
{
	x[0] -= x[7] ^ 0xA5A5A5A5A5A5A5A5ULL; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ ((~x[1]) << 19);
	x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ ((~x[4]) >> 23); x[7] ^= x[6];
	x[0] += x[7]; x[1] -= x[0] ^ ((~x[7]) << 19); x[2] ^= x[1]; x[3] += x[2];
	x[4] -= x[3] ^ ((~x[2]) >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789ABCDEFULL;
}
static void tiger_compress(const uint64_t T[4][256], uint64_t h[3], const uint8_t *p, unsigned passes)
{
	uint64_t x[8]; for(int i = 0; i < 8; i++) x[i] = ldl64(p + 8 * i);
	uint64_t a = h[0], b = h[1], c = h[2];
	tiger_pass(T, a, b, c, x, 5); tiger_sched(x);
	tiger_pass(T, c, a, b, x, 7); tiger_sched(x);
	tiger_pass(T, b, c, a, x, 9);
	for(unsigned ps = 3; ps < passes; ps++)
	{
		tiger_sched(x); tiger_pass(T, a, b, c, x, 9);
		uint64_t t = a; a = c; c = b; b = t;
	}
	h[0] = a ^ h[0]; h[1] = b - h[1]; h[2] = c + h[2];
}
static void tiger_gen()
{
	static bool done = false; if(done) return; done = true;
	static const char str[] = "Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham";
	uint64_t st[3] = {0x0123456789ABCDEFULL, 0xFEDCBA9876543210ULL, 0xF096A5B4C3B2E187ULL};
	uint8_t *tb = (uint8_t *)TT;
	for(int i = 0; i < 1024; i++) for(int c = 0; c < 8; c++) tb[8 * i + c] = (uint8_t)(i & 255);
	int abc = 2;
	for(int cnt = 0; cnt < 5; cnt++)
		for(int i = 0; i < 256; i++)
			for(int sb = 0; sb < 1024; sb += 256)
			{
				abc++;
				if(abc == 3) { abc = 0; tiger_compress(TT, st, (const uint8_t *)str, 3); }
				for(int c = 0; c < 8; c++)
				{
					uint8_t o = ((uint8_t *)&st[abc])[c];
					uint8_t v = tb[8 * (sb + i) + c];
					tb[8 * (sb + i) + c] = tb[8 * (sb + o) + c];
					tb[8 * (sb + o) + c] = v;
				}
			}
}
struct TigerM : Feeder<false>
{
	uint64_t h[3] = {0x0123456789ABCDEFULL, 0xFEDCBA9876543210ULL, 0xF096A5B4C3B2E187ULL}; unsigned ps;
	explicit TigerM(unsigned r) : Feeder(64), ps(r < 3 ? 3 : r) { tiger_gen(); }
	void block(const uint8_t *p) override { tiger_compress(TT, h, p, ps); }
	Bytes output(size_t w) override { mdpad(0x01, 8, false); uint8_t o[24]; for(int j = 0; j < 3; j++) stl64(o + 8 * j, h[j]); return trunc(o, 24, w); }
};

/* ---- Whirlpool ---- */
struct WhirlM : Feeder<false>
{
	uint8_t h[64]; unsigned r;
	static uint8_t S[256], MUL[16][256];
	static void gen()
	{
		static bool done = false; if(done) return; done = true;
		static const uint8_t E[16] = {1,0xB,9,0xC,0xD,6,0xF,3,0xE,8,7,4,0xA,2,5,0}, R[16] = {7,0xC,0xB,0xD,0xE,4,9,0xF,6,3,8,0xA,2,5,1,0};
		uint8_t Ei[16]; for(int i = 0; i < 16; i++) Ei[E[i]] = i;
		for(int x = 0; x < 256; x++)
		{
			uint8_t a = E[x >> 4], b = Ei[x & 15], c = R[a ^ b];
			S[x] = (uint8_t)((E[a ^ c] << 4) | Ei[b ^ c]);
		}
		for(int m = 0; m < 16; m++) for(int x = 0; x < 256; x++)
		{
			unsigned v = 0, y = x;
			for(int b = 0; b < 4; b++) { if(m >> b & 1) v ^= y; y <<= 1; if(y & 0x100) y ^= 0x11D; }
			MUL[m][x] = (uint8_t)v;
		}
	}
	explicit WhirlM(unsigned rounds) : Feeder(64), r(rounds ? rounds : 10) { gen(); memset(h, 0, 64); }
	static void rnd(uint8_t s[64])
	{
		static const uint8_t C[8] = {1,1,4,1,8,5,2,9};
		uint8_t t[64], u[64];
		for(int row = 0; row < 8; row++) for(int col = 0; col < 8; col++) t[8 * ((row + col) & 7) + col] = S[s[8 * row + col]];
		for(int row = 0; row < 8; row++) for(int col = 0; col < 8; col++)
		{
			uint8_t v = 0;
			for(int k = 0; k < 8; k++) v ^= MUL[C[(col - k) & 7]][t[8 * row + k]];
			u[8 * row + col] = v;
		}
		memcpy(s, u, 64);
	}
	void block(const uint8_t *p) override
	{
		uint8_t k[64], s[64];
		memcpy(k, h, 64); for(int i = 0; i < 64; i++) s[i] = p[i] ^ k[i];
		for(unsigned i = 0; i < r; i++)
		{
			rnd(k); for(int j = 0; j < 8; j++) k[j] ^= S[8 * i + j];
			rnd(s); for(int j = 0; j < 64; j++) s[j] ^= k[j];
		}
		for(int i = 0; i < 64; i++) h[i] ^= s[i] ^ p[i];
	}
	Bytes output(size_t w) override { mdpad(0x80, 32, true); return trunc(h, 64, w); }
};
uint8_t WhirlM::S[256], WhirlM::MUL[16][256];

std::unique_ptr<HashCtx> m_hash_ctx(int alg, unsigned r, const Bytes &salt, uint64_t len)
{
	unsigned out = (unsigned)len; /* all but the functions without a maximum */
	if(alg >= H_PLUG) return m_plug_hash(alg, r, salt, out);
	HashCtx *c = nullptr;
	switch(alg)
	{
		case H_MD5: c = new Md5; break;
		case H_SHA1: c = new Sha1; break;
		case H_SHA2_256: c = new Sha256(r, out); break;
		case H_SHA2_512: c = new Sha512(r, out); break;
		case H_BLAKE256: c = new BlakeT<uint32_t>(r, out, salt); break;
		case H_BLAKE512: c = new BlakeT<uint64_t>(r, out, salt); break;
		case H_BLAKE2S: c = new Blake2T<uint32_t>(r, out, salt); break;
		case H_BLAKE2B: c = new Blake2T<uint64_t>(r, out, salt); break;
		case H_KECCAK800: c = new KeccakM(32, r, len, 0x01); break;
		case H_KECCAK1600: c = new KeccakM(64, r, len, 0x01); break;
		case H_SHA3: c = new KeccakM(64, r, out, 0x06); break;
		case H_SKEIN256: c = new SkeinM(4, r, len, salt); break;
		case H_SKEIN512: c = new SkeinM(8, r, len, salt); break;
		case H_SKEIN1024: c = new SkeinM(16, r, len, salt); break;
		case H_TIGER: c = new TigerM(r); break;
		case H_WHIRLPOOL: c = new WhirlM(r); break;
	}
	return std::unique_ptr<HashCtx>(c);
}
Bytes m_hash(int alg, unsigned r, const Bytes &salt, unsigned out, const uint8_t *msg, size_t len, size_t want)
{
	auto c = m_hash_ctx(alg, r, salt, out);
	c->input(msg, len);
	return c->output(want);
}
