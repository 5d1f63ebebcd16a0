/* Reference models: independent, deliberately simple implementations of what the
 * algorithms' published definitions say.  Nothing here calls the library under test. */
#ifndef KSIM_MODEL_H
#define KSIM_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
#include <memory>

typedef std::vector<uint8_t> Bytes;

/* ---- algorithm identifiers (shared with the plan format) ---- */
enum HashAlg { H_MD5, H_SHA1, H_SHA2_256, H_SHA2_512, H_BLAKE256, H_BLAKE512, H_BLAKE2S, H_BLAKE2B,
  H_KECCAK800, H_KECCAK1600, H_SHA3, H_SKEIN256, H_SKEIN512, H_SKEIN1024, H_TIGER, H_WHIRLPOOL, H_COUNT, H_PLUG = H_COUNT, H_ALL = H_PLUG + 3 };
extern const char *const hash_names[H_ALL];

struct HashInfo { unsigned block, maxout /*0: unlimited*/, maxsalt /*~0u: unlimited*/; };
extern HashInfo hash_info[H_ALL];

/* digest: first `want` bytes of the hash configured with (rounds, salt, out_len) */
Bytes m_hash(int alg, unsigned rounds, const Bytes &salt, unsigned out_len, const uint8_t *msg, size_t len, size_t want);

/* streaming variant, for very long messages */
struct HashCtx { virtual ~HashCtx() {} virtual void input(const uint8_t *p, size_t n) = 0; virtual Bytes output(size_t want) = 0;
	virtual bool squeeze(uint8_t *, size_t) { return false; } /* the next so many bytes of the output, where its length is open */
	virtual bool warp(uint64_t) { return false; } /* count that many blocks more, without hashing them */ };
std::unique_ptr<HashCtx> m_hash_ctx(int alg, unsigned rounds, const Bytes &salt, uint64_t out_len);

/* ---- block ciphers: frozen copies of the pinned sources, wrapped ---- */
enum { B_COUNT = 42, B_PLUG = B_COUNT, B_ALL = B_PLUG + 4 };
extern const char *const block_names[B_ALL];
struct BlockInfo { unsigned size, maxkey, maxtweak; };
extern BlockInfo block_info[B_ALL];
bool block_rounds_ok(int alg, unsigned r, unsigned key_len);
struct BlockM
{
	BlockM(int alg, unsigned r, const Bytes &key, const unsigned char (*sboxes)[16] = nullptr); /* GOST with the caller's S-boxes */
	~BlockM();
	void tweak(const Bytes &t);
	void enc(const uint8_t *in, uint8_t *out) const;
	void dec(const uint8_t *in, uint8_t *out) const;
	unsigned size;
	void *h; int alg; uint64_t base = 0, pk = 0;
	BlockM(const BlockM &) = delete;
};
typedef std::shared_ptr<BlockM> BlockP;

/* ---- streams ---- */
enum { S_CHACHA, S_SALSA20, S_RC4, S_KECCAK800, S_KECCAK1600, S_SKEIN256, S_SKEIN512, S_SKEIN1024, S_NATIVE, S_PLUG = S_NATIVE, S_ALL = S_PLUG + 3,
  S_ECB = 100, S_CBC = 150, S_CFB = 200, S_OFB = 250, S_CTR = 300 };
struct StreamM { virtual ~StreamM() {}
	virtual void enc(const uint8_t *in, uint8_t *out, size_t n) = 0;
	virtual void dec(const uint8_t *in, uint8_t *out, size_t n) = 0;
	virtual bool prng(uint8_t *out, size_t n) = 0;
	virtual unsigned warp(uint64_t) { return 0; } /* skip that many blocks of keystream; block size, or 0: no counter */
	unsigned multof = 1; };
typedef std::unique_ptr<StreamM> StreamP;
bool stream_is_mode(int alg, int *blk = nullptr, int *mode = nullptr);
unsigned stream_maxkey(int alg), stream_maxiv(int alg), stream_multof(int alg);
std::string stream_name(int alg);
StreamP m_stream(int alg, unsigned r, const Bytes &key, const Bytes &iv);
/* keystream block at an arbitrary position (chacha/salsa only) */
void m_chacha_block(unsigned r, const Bytes &key, const Bytes &iv, uint64_t ctr, uint8_t out[64]);
void m_salsa_block(unsigned r, const Bytes &key, const Bytes &iv, uint64_t ctr, uint8_t out[64]);

/* ---- MACs ---- */
enum { M_KECCAK800, M_KECCAK1600, M_SKEIN256, M_SKEIN512, M_SKEIN1024, M_NATIVE, M_PLUG = M_NATIVE, M_ALL = M_PLUG + 3, M_HMAC = 100, M_OMAC = 150, M_XCBC = 200 };
unsigned mac_maxkey(int alg), mac_maxtag(int alg) /*0: unlimited*/;
std::string mac_name(int alg);
/* tag as defined, full for the configured tag_len */
Bytes m_mac(int alg, unsigned r, const Bytes &key, unsigned tag_len, const uint8_t *msg, size_t len);
struct MacCtx { virtual ~MacCtx() {} virtual void input(const uint8_t *p, size_t n) = 0; virtual Bytes tag() = 0; };
std::unique_ptr<MacCtx> m_mac_ctx(int alg, unsigned r, const Bytes &key, unsigned tag_len);

/* ---- AE ---- */
/* alg: 0..B_COUNT-1 = EAX(block); otherwise EAX2: 1000 + stream*1000 + mac  (stream alg id, mac alg id) */
bool ae_is_eax2(int alg, int *st = nullptr, int *mc = nullptr);
int ae_eax2(int st, int mc);
unsigned ae_maxkey(int alg), ae_maxiv(int alg), ae_maxtag(int alg), ae_multof(int alg);
std::string ae_name(int alg);
struct AeM { virtual ~AeM() {}
	virtual void header(const uint8_t *p, size_t n) = 0;
	virtual void enc(const uint8_t *in, uint8_t *out, size_t n) = 0;
	virtual void dec(const uint8_t *in, uint8_t *out, size_t n) = 0;
	virtual Bytes tag() = 0; };
typedef std::unique_ptr<AeM> AeP;
AeP m_ae(int alg, unsigned r, const Bytes &key, const Bytes &iv, unsigned tag_len);

/* ---- KDF ---- */
Bytes m_pbkdf2(int mac, unsigned r, unsigned iter, const Bytes &pass, const Bytes &salt, size_t out_len);
Bytes m_scrypt(int mac, unsigned mr, uint64_t n, uint32_t r, uint32_t p, const Bytes &pass, const Bytes &salt, size_t out_len);

/* ---- caller-supplied primitives ---- */
struct PlugInfo { unsigned maxkey, maxiv, maxtag, multof; };
extern PlugInfo plug_stream[S_ALL - S_PLUG], plug_mac[M_ALL - M_PLUG];
extern unsigned plug_moves[4][4];
void plug_config(uint64_t seed);
uint64_t plug_mix(uint64_t h, const void *p, size_t n);
uint64_t plug_key(int kind, int i, unsigned r, const void *key, size_t kl, const void *more, size_t ml);
void plug_block(uint64_t k, unsigned n, const uint8_t *in, uint8_t *out, bool dec);
uint8_t plug_byte(uint64_t k, uint64_t pos);
uint64_t plug_absorb(uint64_t h, const void *p, size_t n);
std::unique_ptr<HashCtx> m_plug_hash(int a, unsigned r, const Bytes &salt, unsigned out);
std::unique_ptr<MacCtx> m_plug_mac(int a, unsigned r, const Bytes &key, unsigned tag_len);
StreamM *m_plug_stream(int a, unsigned r, const Bytes &key, const Bytes &iv);

/* threefish core used by the Skein models */
void m_threefish(unsigned words, unsigned rounds, const uint64_t *key, const uint64_t tweak[2], const uint64_t *in, uint64_t *out);

#endif
