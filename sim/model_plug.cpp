/* Caller-supplied primitives ("plug" algorithms): what they compute.  The same functions are used by the
 * stand-ins the library is given through its descriptor interface (plug.cpp) and by the models of the
 * modes built over them.  Sizes and limits are drawn from the plan's plug seed. */
#include "model.h"
static uint64_t mx(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
uint64_t plug_mix(uint64_t h, const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; h = mx(h ^ n); while(n--) h = mx(h ^ *b++); return h; }
PlugInfo plug_stream[S_ALL - S_PLUG], plug_mac[M_ALL - M_PLUG]; unsigned plug_moves[4][4];

void plug_config(uint64_t seed)
{
	uint64_t s = mx(seed); auto below = [&](unsigned n) { s = mx(s); return (unsigned)(s % n); };
	static const unsigned odd[] = {1, 2, 3, 5, 7, 9, 12, 15, 16, 17, 20, 31, 33, 48, 63, 64, 65, 96, 127, 128, 129, 137, 152, 157, 200, 221, 237, 243, 253, 254, 255};
	for(int i = B_PLUG; i < B_ALL; i++)
	{
		unsigned n = below(3) ? odd[below(sizeof odd / sizeof *odd)] : 1 + below(255);
		block_info[i].size = n; block_info[i].maxkey = below(3) ? n + below(40) : 1 + below(64); block_info[i].maxtweak = below(2) ? 0 : 1 + below(32);
		plug_moves[0][i - B_PLUG] = below(3);
	}
	for(int i = H_PLUG; i < H_ALL; i++) { hash_info[i].block = below(3) ? 1 + below(150) : 1 + below(16); hash_info[i].maxout = below(4) ? 1 + below(100) : 0; hash_info[i].maxsalt = below(2) ? 0 : 1 + below(40); plug_moves[1][i - H_PLUG] = below(3); }
	for(int i = S_PLUG; i < S_ALL; i++) { PlugInfo &q = plug_stream[i - S_PLUG]; q.maxkey = 1 + below(80); q.maxiv = below(3) ? 1 + below(60) : 0; q.multof = below(3) ? 1 : 1 + below(20); plug_moves[2][i - S_PLUG] = below(3); }
	for(int i = M_PLUG; i < M_ALL; i++) { PlugInfo &q = plug_mac[i - M_PLUG]; q.maxkey = below(4) ? 1 + below(80) : ~0u; q.maxtag = below(5) ? 1 + below(90) : 0; plug_moves[3][i - M_PLUG] = below(3); }
}
uint64_t plug_key(int kind, int i, unsigned r, const void *key, size_t kl, const void *more, size_t ml)
{
	uint64_t h = mx((uint64_t)(kind * 64 + i) << 32 | r); h = plug_mix(h, key, kl); return plug_mix(h ^ 0x55, more, ml);
}
/* a keyed permutation of n bytes: every byte is scaled by an odd factor after adding something depending on
 * the key, its place and its neighbour */
void plug_block(uint64_t k, unsigned n, const uint8_t *in, uint8_t *out, bool dec)
{
	uint8_t x[256]; memcpy(x, in, n);
	auto f = [&](unsigned p, unsigned i) { return (uint8_t)(mx(k ^ ((uint64_t)p << 40 | (uint64_t)i << 16 | (n > 1 ? x[(i + n - 1) % n] : 0))) >> 7); };
	if(!dec) { for(unsigned p = 0; p < 3; p++) for(unsigned i = 0; i < n; i++) x[i] = (uint8_t)((uint8_t)(x[i] + f(p, i)) * 0xA5u); }
	else for(unsigned p = 3; p--;) for(unsigned i = n; i--;) x[i] = (uint8_t)((uint8_t)(x[i] * 0x2Du) - f(p, i)); /* 0xA5 * 0x2D = 1 mod 256 */
	memcpy(out, x, n);
}
uint8_t plug_byte(uint64_t k, uint64_t pos) { return (uint8_t)(mx(k + 0x1234567 * (pos / 8)) >> 8 * (pos % 8)); }
uint64_t plug_absorb(uint64_t h, const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; while(n--) h = (h ^ *b++) * 0x9FB21C651E98DF25ULL, h ^= h >> 31; return h; }

struct PlugHashM : HashCtx
{
	uint64_t h;
	void input(const uint8_t *p, size_t n) override { h = plug_absorb(h, p, n); }
	Bytes output(size_t w) override { Bytes o(w); for(size_t i = 0; i < w; i++) o[i] = plug_byte(h, i); return o; }
};
std::unique_ptr<HashCtx> m_plug_hash(int a, unsigned r, const Bytes &salt, unsigned out)
{
	PlugHashM *m = new PlugHashM; m->h = plug_key(1, a - H_PLUG, r, salt.data(), salt.size(), &out, sizeof out); return std::unique_ptr<HashCtx>(m);
}
struct PlugMacM : MacCtx
{
	uint64_t h; unsigned n;
	void input(const uint8_t *p, size_t l) override { h = plug_absorb(h, p, l); }
	Bytes tag() override { Bytes o(n); for(size_t i = 0; i < n; i++) o[i] = plug_byte(h, i); return o; }
};
std::unique_ptr<MacCtx> m_plug_mac(int a, unsigned r, const Bytes &key, unsigned tag_len)
{
	PlugMacM *m = new PlugMacM; m->n = tag_len; m->h = plug_key(3, a - M_PLUG, r, key.data(), key.size(), &tag_len, sizeof tag_len); return std::unique_ptr<MacCtx>(m);
}
struct PlugStreamM : StreamM
{
	uint64_t k, pos = 0;
	void enc(const uint8_t *in, uint8_t *out, size_t n) override { while(n--) *out++ = (uint8_t)(*in++ + plug_byte(k, pos++)); }
	void dec(const uint8_t *in, uint8_t *out, size_t n) override { while(n--) *out++ = (uint8_t)(*in++ - plug_byte(k, pos++)); }
	bool prng(uint8_t *out, size_t n) override { while(n--) *out++ = plug_byte(k, pos++); return true; }
};
StreamM *m_plug_stream(int a, unsigned r, const Bytes &key, const Bytes &iv)
{
	PlugStreamM *m = new PlugStreamM; m->k = plug_key(2, a - S_PLUG, r, key.data(), key.size(), iv.data(), iv.size()); return m;
}
