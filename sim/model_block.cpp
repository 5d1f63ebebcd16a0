/* Block ciphers: frozen copies of the sources (see /verif/model/block), symbols prefixed frz_. */
#include "model.h"
#include <set>
#include <map>
extern "C" {
#define G(f) extern void *frz_kripto_block_##f(void);
#define D(f) extern const void *const frz_kripto_block_##f;
#define X(n, b, k, t, e) e
#include "blocks.inc"
#undef X
#undef G
#undef D
void *frz_kripto_block_create(const void *desc, unsigned r, const void *key, unsigned len);
void frz_kripto_block_tweak(void *s, const void *t, unsigned len);
void frz_kripto_block_encrypt(const void *s, const void *in, void *out);
void frz_kripto_block_decrypt(const void *s, const void *in, void *out);
void frz_kripto_block_destroy(void *s);
void *frz_kripto_block_gost(const unsigned char (*sboxes)[16]);
}
#define X(n, b, k, t, e) #n,
const char *const block_names[B_ALL] = {
#include "blocks.inc"
"plug0", "plug1", "plug2", "plug3"
};
#undef X
#define X(n, b, k, t, e) {b, k, t},
BlockInfo block_info[B_ALL] = {
#include "blocks.inc"
};
#undef X
static const void *desc(int a)
{
	static const void *d[B_COUNT];
	if(!d[0])
	{
		int i = 0;
#define G(f) frz_kripto_block_##f()
#define D(f) frz_kripto_block_##f
#define X(n, b, k, t, e) d[i++] = e;
#include "blocks.inc"
#undef X
#undef G
#undef D
	}
	return d[a];
}
static const void *gost_with(const unsigned char (*sboxes)[16])
{
	static std::map<const void *, const void *> d; const void *&x = d[sboxes];
	if(!x) x = frz_kripto_block_gost(sboxes);
	return x;
}
BlockM::BlockM(int a, unsigned r, const Bytes &key, const unsigned char (*sboxes)[16]) : size(block_info[a].size), h(a >= B_PLUG ? nullptr : frz_kripto_block_create(sboxes ? gost_with(sboxes) : desc(a), r, key.data(), (unsigned)key.size())), alg(a) { if(!h) base = pk = plug_key(0, a - B_PLUG, r, key.data(), key.size(), nullptr, 0); }
BlockM::~BlockM() { if(h) frz_kripto_block_destroy(h); }
void BlockM::tweak(const Bytes &t) { if(!h) { pk = plug_mix(base, t.data(), t.size()); return; } frz_kripto_block_tweak(h, t.data(), (unsigned)t.size()); }
void BlockM::enc(const uint8_t *in, uint8_t *out) const { if(!h) { plug_block(pk, size, in, out, false); return; } frz_kripto_block_encrypt(h, in, out); }
void BlockM::dec(const uint8_t *in, uint8_t *out) const { if(!h) { plug_block(pk, size, in, out, true); return; } frz_kripto_block_decrypt(h, in, out); }

int block_find(const char *n) { for(int i = 0; i < B_COUNT; i++) if(!strcmp(block_names[i], n)) return i; return -1; }

/* round counts each cipher's own definition (and the library's tables) supports; 0 always means the default */
bool block_rounds_ok(int a, unsigned r, unsigned klen)
{
	if(!r) return true;
	if(r > 256 || (r > 88 && a >= B_PLUG)) return false;
	if(a >= B_PLUG) return true;
	std::string n = block_names[a];
	if(r > 88)
	{
		static const std::set<std::string> many = {"aes", "rijndael256", "rc5", "rc6", "speck32", "speck64", "speck128", "simon32", "simon64", "simon128", "tea", "xtea", "threefish256", "threefish512", "threefish1024"};
		if(!many.count(n)) return false;
	}
	auto is = [&](const char *s) { return n == s; };
	if(is("anubis")) return r <= 64; /* as many round constants as the cipher defines */
	if(is("t3way")) return r <= 11;
	if(is("aes") || is("rijndael256")) return true;
	if(is("aria") || is("twofish")) return r % 2 == 0;
	if(is("blowfish")) return r <= 34;
	if(is("camellia") || is("cast5")) return false;
	if(n.substr(0, 4) == "gost") return r % 2 == 0 && r >= 2 * ((klen + 3) / 4);
	if(is("khazad")) return r <= 8;
	if(is("lea")) return r % 4 == 0;
	if(is("noekeon")) return r <= 33;
	if(is("rectangle")) return r <= 25;
	if(is("serpent") || is("shacal2") || n.substr(0, 9) == "threefish") return r % 8 == 0;
	if(n.substr(0, 5) == "simon") return r >= 4;
	if(is("skipjack")) return r == 32;
	if(is("sm4")) return r % 4 == 0 && r <= 32;
	return true;
}
