/* Reference models of the stream ciphers, block modes, MACs, AE and KDFs. */
#include "model.h"
#include <stdio.h>

extern std::unique_ptr<HashCtx> m_skein_mac_ctx(unsigned nw, unsigned r, unsigned out, const Bytes &key);
extern void m_skein_stream_init(unsigned nw, unsigned r, const Bytes &key, const Bytes &iv, uint64_t G[16]);
extern void m_skein_stream_block(unsigned nw, unsigned r, const uint64_t G[16], uint64_t ctr, uint8_t *out);

static inline uint32_t rl(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
static inline uint32_t ld(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void st(uint8_t *p, uint32_t v) { for(int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> 8 * i); }

/* ---- ChaCha and Salsa20: half rounds, as the library counts them ---- */
static void chacha_rounds(uint32_t x[16], unsigned r)
{
	auto qr = [&](int a, int b, int c, int d) {
		x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7); };
	for(unsigned i = 0; i < r; i++) for(int k = 0; k < 4; k++)
		if(i & 1) qr(k, 4 + ((k + 1) & 3), 8 + ((k + 2) & 3), 12 + ((k + 3) & 3));
		else qr(k, 4 + k, 8 + k, 12 + k);
}
static void salsa_rounds(uint32_t x[16], unsigned r)
{
	auto qr = [&](int a, int b, int c, int d) {
		x[b] ^= rl(x[a] + x[d], 7); x[c] ^= rl(x[b] + x[a], 9); x[d] ^= rl(x[c] + x[b], 13); x[a] ^= rl(x[d] + x[c], 18); };
	for(unsigned i = 0; i < r; i++)
		if(i & 1) { qr(0,1,2,3); qr(5,6,7,4); qr(10,11,8,9); qr(15,12,13,14); }
		else { qr(0,4,8,12); qr(5,9,13,1); qr(10,14,2,6); qr(15,3,7,11); }
}
static void djb_const(uint32_t c[4], unsigned klen)
{
	uint8_t s[17] = "expand 00-byte k";
	s[7] = (uint8_t)('0' + klen / 10); s[8] = (uint8_t)('0' + klen % 10);
	for(int i = 0; i < 4; i++) c[i] = ld(s + 4 * i);
}
static void djb_key(uint8_t k[32], const Bytes &key) { for(unsigned i = 0; i < 32; i++) k[i] = key[i % key.size()]; }
static void chacha_setup(uint32_t x[16], unsigned r, const Bytes &key, const Bytes &iv)
{
	uint8_t k[32], z[32] = {0}; djb_key(k, key); djb_const(x, (unsigned)key.size());
	for(int i = 0; i < 8; i++) x[4 + i] = ld(k + 4 * i);
	if(!iv.empty()) memcpy(z, iv.data(), iv.size());
	x[12] = x[13] = x[14] = x[15] = 0;
	if(iv.size() <= 8) { x[14] = ld(z); x[15] = ld(z + 4); }
	else if(iv.size() <= 12) { x[13] = ld(z); x[14] = ld(z + 4); x[15] = ld(z + 8); }
	else
	{
		for(int i = 0; i < 4; i++) x[12 + i] = ld(z + 4 * i);
		chacha_rounds(x, r);
		for(int i = 0; i < 4; i++) { x[4 + i] = x[i]; x[8 + i] = x[12 + i]; }
		djb_const(x, (unsigned)key.size());
		x[12] = x[13] = 0; x[14] = ld(z + 16); x[15] = ld(z + 20);
	}
}
static void salsa_setup(uint32_t x[16], unsigned r, const Bytes &key, const Bytes &iv)
{
	uint8_t k[32], z[32] = {0}; uint32_t c[4]; djb_key(k, key); djb_const(c, (unsigned)key.size());
	if(!iv.empty()) memcpy(z, iv.data(), iv.size());
	for(int i = 0; i < 4; i++) { x[5 * i] = c[i]; x[1 + i] = ld(k + 4 * i); x[11 + i] = ld(k + 16 + 4 * i); x[6 + i] = 0; }
	x[6] = ld(z); x[7] = ld(z + 4);
	if(iv.size() > 8)
	{
		x[8] = ld(z + 8); x[9] = ld(z + 12);
		salsa_rounds(x, r);
		uint32_t o[8] = {x[0], x[5], x[10], x[15], x[6], x[7], x[8], x[9]};
		for(int i = 0; i < 4; i++) { x[5 * i] = c[i]; x[1 + i] = o[i]; x[11 + i] = o[4 + i]; }
		x[6] = ld(z + 16); x[7] = ld(z + 20); x[8] = x[9] = 0;
	}
}
static void chacha_out(uint32_t s[16], unsigned r, uint64_t ctr, uint8_t out[64])
{
	uint32_t y[16], x[16]; memcpy(x, s, 64);
	uint64_t base = x[12] | (uint64_t)x[13] << 32; base += ctr; x[12] = (uint32_t)base; x[13] = (uint32_t)(base >> 32);
	memcpy(y, x, 64); chacha_rounds(y, r);
	for(int i = 0; i < 16; i++) st(out + 4 * i, y[i] + x[i]);
}
static void salsa_out(uint32_t s[16], unsigned r, uint64_t ctr, uint8_t out[64])
{
	uint32_t y[16], x[16]; memcpy(x, s, 64);
	x[8] = (uint32_t)ctr; x[9] = (uint32_t)(ctr >> 32);
	memcpy(y, x, 64); salsa_rounds(y, r);
	for(int i = 0; i < 16; i++) st(out + 4 * i, y[i] + x[i]);
}
void m_chacha_block(unsigned r, const Bytes &key, const Bytes &iv, uint64_t ctr, uint8_t out[64])
{ if(!r) r = 20; uint32_t x[16]; chacha_setup(x, r, key, iv); chacha_out(x, r, ctr, out); }
void m_salsa_block(unsigned r, const Bytes &key, const Bytes &iv, uint64_t ctr, uint8_t out[64])
{ if(!r) r = 20; uint32_t x[16]; salsa_setup(x, r, key, iv); salsa_out(x, r, ctr, out); }

/* keystream ciphers */
struct KsM : StreamM
{
	uint8_t ks[256]; unsigned pos = 0, n = 0;
	virtual unsigned next(uint8_t *o) = 0;
	uint8_t byte() { if(pos == n) { n = next(ks); pos = 0; } return ks[pos++]; }
	void enc(const uint8_t *in, uint8_t *out, size_t l) override { for(size_t i = 0; i < l; i++) out[i] = in[i] ^ byte(); }
	void dec(const uint8_t *in, uint8_t *out, size_t l) override { enc(in, out, l); }
	bool prng(uint8_t *out, size_t l) override { for(size_t i = 0; i < l; i++) out[i] = byte(); return true; }
};
struct ChaM : KsM { uint32_t x[16]; unsigned r; uint64_t c = 0;
	ChaM(unsigned r_, const Bytes &k, const Bytes &iv) : r(r_ ? r_ : 20) { chacha_setup(x, r, k, iv); }
	unsigned next(uint8_t *o) override { chacha_out(x, r, c++, o); return 64; }
	unsigned warp(uint64_t k) override { c += k; return 64; } };
struct SalM : KsM { uint32_t x[16]; unsigned r; uint64_t c = 0;
	SalM(unsigned r_, const Bytes &k, const Bytes &iv) : r(r_ ? r_ : 20) { salsa_setup(x, r, k, iv); }
	unsigned next(uint8_t *o) override { salsa_out(x, r, c++, o); return 64; }
	unsigned warp(uint64_t k) override { c += k; return 64; } };
struct Rc4M : KsM { uint8_t S[256], i = 0, j = 0;
	uint8_t step() { i++; j = (uint8_t)(j + S[i]); std::swap(S[i], S[j]); return S[(uint8_t)(S[i] + S[j])]; }
	Rc4M(unsigned drop, const Bytes &k) { for(int a = 0; a < 256; a++) S[a] = (uint8_t)a; uint8_t q = 0;
		for(int a = 0; a < 256; a++) { q = (uint8_t)(q + S[a] + k[(size_t)a % k.size()]); std::swap(S[a], S[q]); }
		while(drop--) step(); }
	unsigned next(uint8_t *o) override { *o = step(); return 1; } };
/* sponge keystream: unbounded squeeze of key || iv, one growing prefix at a time */
struct KeccM : KsM { std::unique_ptr<HashCtx> h; Bytes all; size_t at = 0; int alg; unsigned r; Bytes in, key;
	KeccM(int a, unsigned r_, const Bytes &k, const Bytes &iv) : alg(a), r(r_), in(k), key(k) { in.insert(in.end(), iv.begin(), iv.end()); }
	unsigned next(uint8_t *o) override {
		if(at + 64 > all.size()) all = m_hash(alg, r, Bytes(), (unsigned)key.size(), in.data(), in.size(), all.size() ? all.size() * 2 : 1024);
		memcpy(o, &all[at], 64); at += 64; return 64; } };
struct SkeM : KsM { uint64_t G[16]; unsigned nw, r; uint64_t c = 0;
	SkeM(unsigned w, unsigned r_, const Bytes &k, const Bytes &iv) : nw(w), r(r_) { m_skein_stream_init(nw, r, k, iv, G); }
	unsigned next(uint8_t *o) override { m_skein_stream_block(nw, r, G, c++, o); return 8 * nw; }
	unsigned warp(uint64_t k) override { c += k; return 8 * nw; } };

/* ---- block modes ---- */
struct ModeM : StreamM
{
	BlockM b; unsigned bs; Bytes v;
	ModeM(int alg, unsigned r, const Bytes &key, const Bytes &iv) : b(alg, r, key), bs(b.size), v(iv) { v.resize(bs, 0); }
	bool prng(uint8_t *, size_t) override { return false; }
};
struct EcbM : ModeM { using ModeM::ModeM;
	void enc(const uint8_t *in, uint8_t *out, size_t n) override { for(size_t i = 0; i < n; i += bs) b.enc(in + i, out + i); }
	void dec(const uint8_t *in, uint8_t *out, size_t n) override { for(size_t i = 0; i < n; i += bs) b.dec(in + i, out + i); } };
struct CbcM : ModeM { using ModeM::ModeM;
	void enc(const uint8_t *in, uint8_t *out, size_t n) override {
		for(size_t i = 0; i < n; i += bs) { for(unsigned k = 0; k < bs; k++) v[k] ^= in[i + k]; Bytes c(bs); b.enc(v.data(), c.data()); v = c; memcpy(out + i, v.data(), bs); } }
	void dec(const uint8_t *in, uint8_t *out, size_t n) override {
		for(size_t i = 0; i < n; i += bs) { Bytes c(in + i, in + i + bs), p(bs); b.dec(c.data(), p.data()); for(unsigned k = 0; k < bs; k++) out[i + k] = p[k] ^ v[k]; v = c; } } };
struct CfbM : ModeM { unsigned u; Bytes e;
	CfbM(int a, unsigned r, const Bytes &k, const Bytes &iv) : ModeM(a, r, k, iv), u(bs), e(bs) {}
	uint8_t ks() { if(u == bs) { b.enc(v.data(), e.data()); u = 0; } return e[u]; }
	void enc(const uint8_t *in, uint8_t *out, size_t n) override { for(size_t i = 0; i < n; i++) { uint8_t c = in[i] ^ ks(); v[u++] = c; out[i] = c; } }
	void dec(const uint8_t *in, uint8_t *out, size_t n) override { for(size_t i = 0; i < n; i++) { uint8_t c = in[i]; out[i] = c ^ ks(); v[u++] = c; } }
	bool prng(uint8_t *out, size_t n) override { Bytes z(n, 0); enc(z.data(), out, n); return true; } };
struct OfbM : KsM { ModeM *m; struct H : EcbM { using EcbM::EcbM; } h;
	OfbM(int a, unsigned r, const Bytes &k, const Bytes &iv) : m(nullptr), h(a, r, k, iv) {}
	unsigned next(uint8_t *o) override { Bytes e(h.bs); h.b.enc(h.v.data(), e.data()); h.v = e; memcpy(o, e.data(), h.bs); return h.bs; } };
struct CtrM : KsM { struct H : EcbM { using EcbM::EcbM; } h;
	CtrM(int a, unsigned r, const Bytes &k, const Bytes &iv) : h(a, r, k, iv) {}
	unsigned next(uint8_t *o) override { h.b.enc(h.v.data(), o); for(unsigned n = h.bs; n--;) if(++h.v[n]) break; return h.bs; } };

bool stream_is_mode(int alg, int *blk, int *mode)
{
	if(alg < 100) return false;
	int m = (alg - 100) / 50; if(blk) *blk = (alg - 100) % 50; if(mode) *mode = 100 + 50 * m; return true;
}
static const struct { const char *n; unsigned mk, mi; } snat[S_NATIVE] = {{"chacha",32,24},{"salsa20",32,24},{"rc4",256,0},
	{"keccak800",49,~0u},{"keccak1600",99,~0u},{"skein256",~0u,~0u},{"skein512",~0u,~0u},{"skein1024",~0u,~0u}};
unsigned stream_maxkey(int a) { int b; if(a >= S_PLUG && a < S_ALL) return plug_stream[a - S_PLUG].maxkey; return stream_is_mode(a, &b) ? block_info[b].maxkey : snat[a].mk; }
unsigned stream_maxiv(int a) { int b, m; if(a >= S_PLUG && a < S_ALL) return plug_stream[a - S_PLUG].maxiv; if(!stream_is_mode(a, &b, &m)) return snat[a].mi; return m == S_ECB ? 0 : block_info[b].size; }
unsigned stream_multof(int a) { int b, m; if(a >= S_PLUG && a < S_ALL) return plug_stream[a - S_PLUG].multof; if(!stream_is_mode(a, &b, &m)) return 1; return m == S_ECB || m == S_CBC ? block_info[b].size : 1; }
std::string stream_name(int a)
{
	int b, m; if(a >= S_PLUG && a < S_ALL) return "plugstream" + std::to_string(a - S_PLUG); if(!stream_is_mode(a, &b, &m)) return snat[a].n;
	const char *mn[] = {"ecb", "cbc", "cfb", "ofb", "ctr"}; return std::string(mn[(m - 100) / 50]) + "-" + block_names[b];
}
StreamP m_stream(int a, unsigned r, const Bytes &k, const Bytes &iv)
{
	int b, m; StreamM *s = nullptr;
	if(stream_is_mode(a, &b, &m)) switch(m)
	{
		case S_ECB: s = new EcbM(b, r, k, iv); break; case S_CBC: s = new CbcM(b, r, k, iv); break;
		case S_CFB: s = new CfbM(b, r, k, iv); break; case S_OFB: s = new OfbM(b, r, k, iv); break;
		default: s = new CtrM(b, r, k, iv);
	}
	else if(a >= S_PLUG) s = m_plug_stream(a, r, k, iv);
	else switch(a)
	{
		case S_CHACHA: s = new ChaM(r, k, iv); break; case S_SALSA20: s = new SalM(r, k, iv); break; case S_RC4: s = new Rc4M(r, k); break;
		case S_KECCAK800: s = new KeccM(H_KECCAK800, r, k, iv); break; case S_KECCAK1600: s = new KeccM(H_KECCAK1600, r, k, iv); break;
		case S_SKEIN256: s = new SkeM(4, r, k, iv); break; case S_SKEIN512: s = new SkeM(8, r, k, iv); break;
		case S_SKEIN1024: s = new SkeM(16, r, k, iv); break;
	}
	s->multof = stream_multof(a);
	return StreamP(s);
}

/* ---- MACs ---- */
static const struct { const char *n; unsigned mk, mt; } mnat[M_NATIVE] = {{"keccak800",~0u,49},{"keccak1600",~0u,99},{"skein256",~0u,32},{"skein512",~0u,64},{"skein1024",~0u,128}};
unsigned mac_maxkey(int a) { if(a >= M_PLUG && a < M_ALL) return plug_mac[a - M_PLUG].maxkey; if(a < 100) return mnat[a].mk; if(a < M_OMAC) return ~0u; if(a < M_XCBC) return block_info[a - M_OMAC].maxkey; return block_info[a - M_XCBC].maxkey; }
unsigned mac_maxtag(int a) { if(a >= M_PLUG && a < M_ALL) return plug_mac[a - M_PLUG].maxtag; if(a < 100) return mnat[a].mt; if(a < M_OMAC) return hash_info[a - M_HMAC].maxout; if(a < M_XCBC) return block_info[a - M_OMAC].size; return block_info[a - M_XCBC].size; }
std::string mac_name(int a) { if(a >= M_PLUG && a < M_ALL) return "plugmac" + std::to_string(a - M_PLUG); if(a < 100) return mnat[a].n; if(a < M_OMAC) return std::string("hmac-") + hash_names[a - M_HMAC];
	if(a < M_XCBC) return std::string("omac-") + block_names[a - M_OMAC];
	return std::string("xcbc-") + block_names[a - M_XCBC]; }

/* doubling in GF(2^n) with the lexicographically first irreducible pentanomial (OMAC paper), by block size in
 * bytes; found by search with an irreducibility test (tools/poly.py) */
static Bytes dbl(const Bytes &a)
{
	static const uint64_t P[256] = {
		0,0x1B,0x2B,0x1B,0x8D,0x39,0x2D,0x95,0x1B,0x609,0x215,0xC5,0x641,0x1B,0x39,0x1B,
		0x87,0x2D,0x95,0x4D,0x2D,0x800D,0x80D,0x381,0x87,0x2D,0x20B,0x8B,0x309,0x215,0x129,0xC401,
		0x425,0x245,0x20D,0x225,0xC03,0x8D,0x807,0x291,0x1B,0x10B,0x93,0x87,0x2841,0x2D,0x8D,0x1A1,
		0x100D,0x2441,0x2D,0x2D,0x225,0x285,0x2019,0x1B,0x851,0x40241,0xC2001,0x80D,0x8241,0x1B,0x10025,0xC041,
		0x125,0x8805,0x845,0xA9,0x10B,0x90201,0xA41,0x80C1,0x2019,0x6009,0x2049,0x225,0x82041,0x80409,0x861,0x207,
		0x400D,0x200B,0xB1,0xB01,0x861,0x810201,0x84041,0x800405,0x10D,0x39,0x251,0x1D,0x2141,0x2803,0x2409,0x861,
		0xA0011,0xC081,0x2241,0x289,0x283,0x400D,0x905,0x851,0x2025,0x823,0x813,0x80409,0x200441,0x200B,0x80A1,0xC0401,
		0xA9,0x1085,0xA3,0x4241,0x40D,0xB001,0x1A01,0x10281,0x1209,0x225,0x20441,0x1000209,0x2A001,0x39,0xA0101,0x8049,
		0x80043,0x208009,0x8501,0x8085,0x807,0x2A01,0x80301,0x8241,0x600401,0x1008041,0x200241,0x8141,0x2241,0x8B,0x215,0xA81,
		0x800D,0x8805,0x1085,0xA09,0x2D,0x381,0x8241,0xC41,0xA000201,0x1281,0x2000405,0x200A1,0x8029,0xC0000005,0x2D,0x10281,
		0x10A1,0x810041,0xC005,0x128001,0xC005,0x1209,0x200809,0x10D,0x8043,0x24041,0x2D,0x8221,0xC0401,0x823,0x28021,0x10B,
		0x6041,0x641,0x845,0xC41,0x6081,0x80D,0x215,0x1209,0x813,0xC05,0x341,0x2811,0x10D,0x609,0x2409,0x60081,
		0x200045,0x883,0x81005,0x125,0x200481,0x100205,0x282001,0x10A1,0x4803,0xA003,0x2019,0x2821,0x28009,0xA3,0x42003,0x88401,
		0x20241,0x39,0x845,0x8141,0x8049,0x4809,0x9021,0x24401,0xC21,0x84041,0xC0005,0x4D,0x10D,0x2000061,0x609,0xA00041,
		0x24009,0x400025,0x90201,0x840003,0xA3,0x42081,0x200405,0x12009,0xA11,0xA03,0x425,0x8015,0x22005,0x4000805,0x1803,0x108401,
		0x80D,0x30081,0x8403,0x8440001,0xC041,0x28005,0x2084001,0x20A0001,0x2821,0x4D,0x2441,0x4802001,0x208081,0x10800000201,0xC5,0x87,
	};
	size_t n = a.size(); Bytes o(n);
	for(size_t i = 0; i < n; i++) o[i] = (uint8_t)(a[i] << 1 | (i + 1 < n ? a[i + 1] >> 7 : 0));
	if(a[0] & 0x80) for(size_t k = 0; k < 6 && k < n; k++) o[n - 1 - k] ^= (uint8_t)(P[n] >> 8 * k);
	return o;
}
struct HashMac : MacCtx
{
	std::unique_ptr<HashCtx> h; unsigned n;
	void input(const uint8_t *p, size_t l) override { h->input(p, l); }
	Bytes tag() override { return h->output(n); }
};
struct HmacM : MacCtx
{
	int hash; unsigned r, n; Bytes okey; std::unique_ptr<HashCtx> h;
	void input(const uint8_t *p, size_t l) override { h->input(p, l); }
	Bytes tag() override { Bytes d = h->output(n), o = okey; o.insert(o.end(), d.begin(), d.end()); return m_hash(hash, r, Bytes(), n, o.data(), o.size(), n); }
};
struct CbcMacM : MacCtx
{
	BlockP b; Bytes full, pad, x, last;
	void input(const uint8_t *p, size_t l) override
	{
		size_t bs = b->size;
		while(l)
		{
			if(last.size() == bs) { for(size_t k = 0; k < bs; k++) x[k] ^= last[k]; uint8_t y[256]; b->enc(x.data(), y); memcpy(x.data(), y, bs); last.clear(); }
			size_t k = bs - last.size(); if(k > l) k = l;
			last.insert(last.end(), p, p + k); p += k; l -= k;
		}
	}
	Bytes tag() override
	{
		size_t bs = b->size; Bytes z = last; const Bytes &m = z.size() == bs ? full : pad;
		if(z.size() < bs) { z.push_back(0x80); z.resize(bs, 0); }
		Bytes y(bs); for(size_t k = 0; k < bs; k++) z[k] ^= x[k] ^ m[k];
		b->enc(z.data(), y.data()); return y;
	}
};
std::unique_ptr<MacCtx> m_mac_ctx(int a, unsigned r, const Bytes &key, unsigned tag_len)
{
	if(a >= M_PLUG && a < M_ALL) return m_plug_mac(a, r, key, tag_len);
	if(a < 100)
	{
		HashMac *m = new HashMac; m->n = tag_len;
		if(a < 2) { m->h = m_hash_ctx(a == M_KECCAK800 ? H_KECCAK800 : H_KECCAK1600, r, Bytes(), tag_len); m->h->input(key.data(), key.size()); }
		else m->h = m_skein_mac_ctx(a == M_SKEIN256 ? 4 : a == M_SKEIN512 ? 8 : 16, r, tag_len, key);
		return std::unique_ptr<MacCtx>(m);
	}
	if(a < M_OMAC)
	{
		HmacM *m = new HmacM; m->hash = a - M_HMAC; m->r = r; m->n = tag_len;
		unsigned bs = hash_info[m->hash].block; Bytes k = key;
		if(k.size() > bs) { unsigned kl = tag_len < bs ? tag_len : bs; k = m_hash(m->hash, r, Bytes(), kl, key.data(), key.size(), kl); }
		k.resize(bs, 0); Bytes in(bs); m->okey.resize(bs);
		for(unsigned i = 0; i < bs; i++) { in[i] = k[i] ^ 0x36; m->okey[i] = k[i] ^ 0x5C; }
		m->h = m_hash_ctx(m->hash, r, Bytes(), tag_len); m->h->input(in.data(), bs);
		return std::unique_ptr<MacCtx>(m);
	}
	CbcMacM *m = new CbcMacM;
	if(a < M_XCBC)
	{
		m->b = std::make_shared<BlockM>(a - M_OMAC, r, key); Bytes L(m->b->size, 0); m->b->enc(Bytes(m->b->size, 0).data(), L.data());
		m->full = dbl(L); m->pad = dbl(m->full);
	}
	else
	{
		BlockM b(a - M_XCBC, r, key); unsigned bs = b.size; Bytes k[3];
		for(int i = 0; i < 3; i++) { Bytes c(bs, (uint8_t)(i + 1)); k[i].resize(bs); b.enc(c.data(), k[i].data()); }
		m->b = std::make_shared<BlockM>(a - M_XCBC, r, k[0]); m->full = k[1]; m->pad = k[2];
	}
	m->x.assign(m->b->size, 0);
	return std::unique_ptr<MacCtx>(m);
}
Bytes m_mac(int a, unsigned r, const Bytes &key, unsigned tag_len, const uint8_t *msg, size_t len)
{
	auto m = m_mac_ctx(a, r, key, tag_len); m->input(msg, len); return m->tag();
}

/* ---- AE ---- */
bool ae_is_eax2(int a, int *s, int *m) { if(a < 1000) return false; if(s) *s = a / 1000 - 1; if(m) *m = a % 1000; return true; }
int ae_eax2(int s, int m) { return 1000 + 1000 * s + m; }
unsigned ae_maxkey(int a) { int s, m; if(!ae_is_eax2(a, &s, &m)) return block_info[a].maxkey;
	unsigned x = stream_maxkey(s), y = mac_maxkey(m); return x + y < x ? ~0u : x + y; }
unsigned ae_maxiv(int a) { int s; return ae_is_eax2(a, &s) ? stream_maxiv(s) : block_info[a].size; }
unsigned ae_maxtag(int a) { int s, m; return ae_is_eax2(a, &s, &m) ? mac_maxtag(m) : block_info[a].size; }
unsigned ae_multof(int a) { int s; return ae_is_eax2(a, &s) ? stream_multof(s) : 1; }
std::string ae_name(int a) { int s, m; return ae_is_eax2(a, &s, &m) ? "eax2-" + stream_name(s) + "/" + mac_name(m) : std::string("eax-") + block_names[a]; }
struct EaxM : AeM
{
	int mac; unsigned r, tl; Bytes mk, N; StreamP st; std::unique_ptr<MacCtx> H, C;
	std::unique_ptr<MacCtx> om(uint8_t t) { Bytes x(tl, 0); x[tl - 1] = t; auto c = m_mac_ctx(mac, r, mk, tl); c->input(x.data(), tl); return c; }
	void nonce(const Bytes &iv) { auto c = om(0); c->input(iv.data(), iv.size()); N = c->tag(); H = om(1); C = om(2); }
	void header(const uint8_t *p, size_t n) override { H->input(p, n); }
	void enc(const uint8_t *in, uint8_t *out, size_t n) override { st->enc(in, out, n); C->input(out, n); }
	void dec(const uint8_t *in, uint8_t *out, size_t n) override { C->input(in, n); st->dec(in, out, n); }
	Bytes tag() override { Bytes h = H->tag(), c = C->tag(), t(tl); for(unsigned i = 0; i < tl; i++) t[i] = N[i] ^ h[i] ^ c[i]; return t; }
};
AeP m_ae(int a, unsigned r, const Bytes &key, const Bytes &iv, unsigned tag_len)
{
	EaxM *e = new EaxM; int s, m; e->r = r;
	if(!ae_is_eax2(a, &s, &m)) { e->mac = M_OMAC + a; e->tl = block_info[a].size; e->mk = key; e->nonce(iv); e->st = m_stream(S_CTR + a, r, key, e->N); }
	else
	{
		uint64_t sk = (key.size() + 1) / 2; if(sk > stream_maxkey(s)) sk = stream_maxkey(s);
		uint64_t mk = key.size() - sk; if(mk > mac_maxkey(m)) { mk = mac_maxkey(m); sk = key.size() - mk; }
		e->mac = m; e->tl = tag_len; e->mk = Bytes(key.begin(), key.begin() + (long)mk); e->nonce(iv);
		size_t n = tag_len < stream_maxiv(s) ? tag_len : stream_maxiv(s);
		e->st = m_stream(s, r, Bytes(key.begin() + (long)mk, key.end()), Bytes(e->N.begin(), e->N.begin() + (long)n));
	}
	return AeP(e);
}

/* ---- KDF ---- */
Bytes m_pbkdf2(int mac, unsigned mr, unsigned iter, const Bytes &pass, const Bytes &salt, size_t out_len)
{
	unsigned hl = mac_maxtag(mac); if(!hl) hl = (unsigned)out_len;
	Bytes out;
	for(uint32_t i = 1; out.size() < out_len; i++)
	{
		Bytes u = salt; for(int k = 24; k >= 0; k -= 8) u.push_back((uint8_t)(i >> k));
		Bytes t;
		for(unsigned j = 0; j < iter; j++)
		{
			u = m_mac(mac, mr, pass, hl, u.data(), u.size());
			if(!j) t = u; else for(unsigned k = 0; k < hl; k++) t[k] ^= u[k];
		}
		out.insert(out.end(), t.begin(), t.end());
	}
	out.resize(out_len); return out;
}
static void blockmix(Bytes &B, uint32_t r)
{
	uint8_t X[64]; Bytes Y(B.size()); memcpy(X, &B[B.size() - 64], 64);
	for(uint32_t i = 0; i < 2 * r; i++)
	{
		uint32_t x[16], y[16];
		for(int k = 0; k < 64; k++) X[k] ^= B[64 * i + (unsigned)k];
		for(int k = 0; k < 16; k++) x[k] = y[k] = ld(X + 4 * k);
		salsa_rounds(y, 8);
		for(int k = 0; k < 16; k++) st(X + 4 * k, x[k] + y[k]);
		memcpy(&Y[64 * ((i & 1) * r + i / 2)], X, 64);
	}
	B = Y;
}
Bytes m_scrypt(int mac, unsigned mr, uint64_t n, uint32_t r, uint32_t p, const Bytes &pass, const Bytes &salt, size_t out_len)
{
	Bytes B = m_pbkdf2(mac, mr, 1, pass, salt, (size_t)p * 128 * r);
	for(uint32_t i = 0; i < p; i++)
	{
		Bytes X(B.begin() + 128 * (long)r * i, B.begin() + 128 * (long)r * (i + 1));
		std::vector<Bytes> V;
		for(uint64_t k = 0; k < n; k++) { V.push_back(X); blockmix(X, r); }
		for(uint64_t k = 0; k < n; k++)
		{
			uint64_t j = 0; for(int q = 0; q < 8; q++) j |= (uint64_t)X[X.size() - 64 + (unsigned)q] << 8 * q;
			j &= n - 1;
			for(size_t q = 0; q < X.size(); q++) X[q] ^= V[j][q];
			blockmix(X, r);
		}
		memcpy(&B[128 * (size_t)r * i], X.data(), X.size());
	}
	return m_pbkdf2(mac, mr, 1, pass, B, out_len);
}
