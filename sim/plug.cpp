/* Stand-ins for caller-supplied primitives, handed to the library through its public descriptor structures.
 * They compute what model_plug.cpp says, draw their memory from the simulated allocator (so that creating or
 * rekeying them can fail and can move the object), and watch that the library keeps to the interface. */
#include "plan.h"
#include <stdlib.h>
extern "C" {
#include <kripto/block.h>
#include <kripto/stream.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/desc/block.h>
#include <kripto/desc/stream.h>
#include <kripto/desc/hash.h>
#include <kripto/desc/mac.h>
void *sim_malloc(size_t);
void sim_free(void *);
}
using rt::fail;
struct kripto_block { const kripto_desc_block *desc; unsigned multof; uint64_t magic, base, k; unsigned r, kl; };
struct kripto_hash { const kripto_desc_hash *desc; unsigned multof; uint64_t magic, k, pos; unsigned r, out, salt; bool done; kripto_hash *spare; };
struct kripto_stream { const kripto_desc_stream *desc; unsigned multof; uint64_t magic, k, pos; unsigned r, kl; };
struct kripto_mac { const kripto_desc_mac *desc; unsigned multof; uint64_t magic, k, pos; unsigned r, kl, tl; bool done; };
static kripto_desc_block db[B_ALL - B_PLUG]; static kripto_desc_hash dh[H_ALL - H_PLUG]; static kripto_desc_stream ds[S_ALL - S_PLUG]; static kripto_desc_mac dm[M_ALL - M_PLUG];
static const uint64_t MAGIC[4] = {0xB10CB10C11ULL, 0x4A5408A540ULL, 0x57EA3057EA30ULL, 0x3AC3AC3AC3ULL}, DEAD = 0xDEADDEADDEADULL;
static const char *const NAME[4] = {"block cipher", "hash", "stream cipher", "MAC"};

/* [p, p + n) lies inside one live block, as far as that can be told */
static void span(int kind, const char *what, const void *p, size_t n)
{
	if(!n) return;
	if(!p) fail("FUNC", "a supplied %s was given a null pointer as %s of %zu bytes in step %d", NAME[kind], what, n, rt::cur->step);
	if(!rt::in_arena(p)) return;
	const rt::Blk *b = rt::find(p);
	if(!b || !b->live || (const uint8_t *)p + n > b->p + b->n) fail("FUNC", "a supplied %s was given %zu bytes of %s that are not all inside a live buffer in step %d", NAME[kind], n, what, rt::cur->step);
}
template<class T> static void live(int kind, const char *call, const T *s)
{
	const rt::Blk *b = s ? rt::find(s) : nullptr;
	if(!b || !b->live || b->p != (const uint8_t *)s || b->n < sizeof(T) || s->magic != MAGIC[kind]) fail("FUNC", "%s of a supplied %s was called in step %d on something that is not a live object of it", call, NAME[kind], rt::cur->step);
	rt::stats["plug_calls"]++;
}
template<class T> static T *fresh(int kind) { T *s = (T *)sim_malloc(sizeof(T)); if(s) { s->magic = MAGIC[kind]; s->multof = 1; } rt::stats[s ? "plug_objects" : "plug_refused"]++; return s; }
template<class T> static void gone(T *s) { s->magic = DEAD; sim_free(s); }
/* rekeying: 0 in place, 1 always moves, 2 moves when something changed */
template<class T> static T *again(int kind, unsigned how, bool changed, T *s)
{
	if(how == 0 || (how == 2 && !changed)) return s;
	T *n = fresh<T>(kind); if(n) { n->desc = s->desc; rt::stats["plug_moved"]++; }
	gone(s); return n;
}
static void limit(int kind, const char *what, unsigned v, unsigned lo, unsigned hi) { if(v < lo || v > hi) fail("FUNC", "a supplied %s that takes %s lengths from %u to %u was given %u in step %d", NAME[kind], what, lo, hi, v, rt::cur->step); }

/* block cipher */
static int bi(const kripto_desc_block *d) { if(d < db || d >= db + (B_ALL - B_PLUG)) fail("FUNC", "a supplied block cipher was created from a descriptor that is not its own in step %d", rt::cur->step); return (int)(d - db); }
static void b_key(kripto_block *s, int i, unsigned r, const void *key, unsigned kl) { s->base = plug_key(0, i, r, key, kl, nullptr, 0); s->k = s->base; s->r = r; s->kl = kl; }
static kripto_block *b_create(const kripto_desc_block *d, unsigned r, const void *key, unsigned kl)
{
	int i = bi(d); limit(0, "key", kl, 1, d->maxkey); span(0, "key", key, kl);
	kripto_block *s = fresh<kripto_block>(0); if(!s) return nullptr;
	s->desc = d; b_key(s, i, r, key, kl); return s;
}
static kripto_block *b_recreate(kripto_block *s, unsigned r, const void *key, unsigned kl)
{
	live(0, "recreate", s); const kripto_desc_block *d = s->desc; int i = bi(d); limit(0, "key", kl, 1, d->maxkey); span(0, "key", key, kl);
	uint64_t k = plug_key(0, i, r, key, kl, nullptr, 0); s = again(0, plug_moves[0][i], kl != s->kl || r != s->r, s); if(!s) return nullptr; /* the key may lie in what is released */
	s->base = s->k = k; s->r = r; s->kl = kl; return s;
}
static void b_tweak(kripto_block *s, const void *t, unsigned n) { live(0, "tweak", s); limit(0, "tweak", n, 1, s->desc->maxtweak); span(0, "tweak", t, n); s->k = plug_mix(s->base, t, n); }
static void b_enc(const kripto_block *s, const void *i, void *o) { live(0, "encrypt", s); unsigned n = s->desc->blocksize; span(0, "input", i, n); span(0, "output", o, n); plug_block(s->k, n, (const uint8_t *)i, (uint8_t *)o, false); }
static void b_dec(const kripto_block *s, const void *i, void *o) { live(0, "decrypt", s); unsigned n = s->desc->blocksize; span(0, "input", i, n); span(0, "output", o, n); plug_block(s->k, n, (const uint8_t *)i, (uint8_t *)o, true); }
static void b_destroy(kripto_block *s) { live(0, "destroy", s); gone(s); }

/* hash; rekeying with unchanged rounds and output length succeeds, as it does for every hash of the library, because HMAC has no
 * way to report that it did not; it may move the object to a place reserved for it */
static int hi(const kripto_desc_hash *d) { if(d < dh || d >= dh + (H_ALL - H_PLUG)) fail("FUNC", "a supplied hash was created from a descriptor that is not its own in step %d", rt::cur->step); return (int)(d - dh); }
static void h_args(const kripto_desc_hash *d, const void *salt, unsigned sl, unsigned out) { limit(1, "salt", sl, 0, d->maxsalt); limit(1, "output", out, 1, d->maxout ? d->maxout : ~0u); span(1, "salt", salt, sl); }
static void h_init(kripto_hash *s, int i, unsigned r, const void *salt, unsigned sl, unsigned out) { s->k = plug_key(1, i, r, salt, sl, &out, sizeof out); s->pos = 0; s->r = r; s->out = out; s->salt = sl; s->done = false; }
static kripto_hash *h_create(const kripto_desc_hash *d, unsigned r, const void *salt, unsigned sl, unsigned out)
{
	int i = hi(d); h_args(d, salt, sl, out); kripto_hash *s = fresh<kripto_hash>(1); if(!s) return nullptr;
	s->spare = nullptr; if(plug_moves[1][i] == 1) { s->spare = fresh<kripto_hash>(1); if(!s->spare) { gone(s); return nullptr; } s->spare->magic = DEAD; }
	s->desc = d; h_init(s, i, r, salt, sl, out); return s;
}
static kripto_hash *h_recreate(kripto_hash *s, unsigned r, const void *salt, unsigned sl, unsigned out)
{
	live(1, "recreate", s); const kripto_desc_hash *d = s->desc; int i = hi(d); h_args(d, salt, sl, out); bool ch = r != s->r || out != s->out || sl != s->salt;
	kripto_hash q = *s, *n; h_init(&q, i, r, salt, sl, out);
	if(s->spare && !ch) { n = s->spare; s->magic = DEAD; q.spare = s; rt::stats["plug_moved"]++; *n = q; return n; }
	n = again(1, ch ? plug_moves[1][i] : 0, ch, s); if(!n) { if(q.spare) sim_free(q.spare); return nullptr; } *n = q; return n;
}
static void h_input(kripto_hash *s, const void *p, size_t n) { live(1, "input", s); if(s->done) fail("FUNC", "a supplied hash was given more input after output had been taken from it in step %d", rt::cur->step); span(1, "input", p, n); s->k = plug_absorb(s->k, p, n); }
static void h_output(kripto_hash *s, void *p, size_t n)
{
	live(1, "output", s); s->done = true; span(1, "output", p, n); if(s->pos + n > s->out) fail("FUNC", "a supplied hash created for %u bytes of output was asked for %llu in step %d", s->out, (unsigned long long)(s->pos + n), rt::cur->step);
	for(size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = plug_byte(s->k, s->pos++);
}
static void h_destroy(kripto_hash *s) { live(1, "destroy", s); if(s->spare) gone(s->spare); gone(s); }
static int h_all(const kripto_desc_hash *d, const unsigned r, const void *salt, unsigned sl, const void *in, size_t n, void *out, size_t ol)
{
	kripto_hash *s = h_create(d, r, salt, sl, (unsigned)ol); if(!s) return -1;
	h_input(s, in, n); h_output(s, out, ol); h_destroy(s); return 0;
}

/* stream cipher */
static int si(const kripto_desc_stream *d) { if(d < ds || d >= ds + (S_ALL - S_PLUG)) fail("FUNC", "a supplied stream cipher was created from a descriptor that is not its own in step %d", rt::cur->step); return (int)(d - ds); }
static void s_args(const kripto_desc_stream *d, const void *key, unsigned kl, const void *iv, unsigned il) { limit(2, "key", kl, 1, d->maxkey); limit(2, "initialisation vector", il, 0, d->maxiv); span(2, "key", key, kl); span(2, "initialisation vector", iv, il); }
static kripto_stream *s_create(const kripto_desc_stream *d, unsigned r, const void *key, unsigned kl, const void *iv, unsigned il)
{
	int i = si(d); s_args(d, key, kl, iv, il); kripto_stream *s = fresh<kripto_stream>(2); if(!s) return nullptr;
	s->desc = d; s->multof = plug_stream[i].multof; s->k = plug_key(2, i, r, key, kl, iv, il); s->pos = 0; s->r = r; s->kl = kl; return s;
}
static kripto_stream *s_recreate(kripto_stream *s, unsigned r, const void *key, unsigned kl, const void *iv, unsigned il)
{
	live(2, "recreate", s); const kripto_desc_stream *d = s->desc; int i = si(d); s_args(d, key, kl, iv, il); uint64_t k = plug_key(2, i, r, key, kl, iv, il);
	s = again(2, plug_moves[2][i], r != s->r || kl != s->kl, s); if(!s) return nullptr;
	s->multof = plug_stream[i].multof; s->k = k; s->pos = 0; s->r = r; s->kl = kl; return s;
}
static void s_io(kripto_stream *s, const char *call, const void *in, const void *out, size_t n) { live(2, call, s); span(2, "input", in, in ? n : 0); span(2, "output", out, n); if(n % s->multof) fail("FUNC", "a supplied stream cipher that takes multiples of %u bytes was given %zu in step %d", s->multof, n, rt::cur->step); }
static void s_enc(kripto_stream *s, const void *i, void *o, size_t n) { s_io(s, "encrypt", i, o, n); for(size_t j = 0; j < n; j++) ((uint8_t *)o)[j] = (uint8_t)(((const uint8_t *)i)[j] + plug_byte(s->k, s->pos++)); }
static void s_dec(kripto_stream *s, const void *i, void *o, size_t n) { s_io(s, "decrypt", i, o, n); for(size_t j = 0; j < n; j++) ((uint8_t *)o)[j] = (uint8_t)(((const uint8_t *)i)[j] - plug_byte(s->k, s->pos++)); }
static void s_prng(kripto_stream *s, void *o, size_t n) { s_io(s, "prng", nullptr, o, n); for(size_t j = 0; j < n; j++) ((uint8_t *)o)[j] = plug_byte(s->k, s->pos++); }
static void s_destroy(kripto_stream *s) { live(2, "destroy", s); gone(s); }

/* MAC */
static int mi(const kripto_desc_mac *d) { if(d < dm || d >= dm + (M_ALL - M_PLUG)) fail("FUNC", "a supplied MAC was created from a descriptor that is not its own in step %d", rt::cur->step); return (int)(d - dm); }
static void m_args(const kripto_desc_mac *d, const void *key, unsigned kl, unsigned tl) { limit(3, "key", kl, 1, d->maxkey); limit(3, "tag", tl, 1, d->maxtag ? d->maxtag : ~0u); span(3, "key", key, kl); }
static kripto_mac *m_create(const kripto_desc_mac *d, unsigned r, const void *key, unsigned kl, unsigned tl)
{
	int i = mi(d); m_args(d, key, kl, tl); kripto_mac *s = fresh<kripto_mac>(3); if(!s) return nullptr;
	s->desc = d; s->k = plug_key(3, i, r, key, kl, &tl, sizeof tl); s->pos = 0; s->r = r; s->kl = kl; s->tl = tl; s->done = false; return s;
}
static kripto_mac *m_recreate(kripto_mac *s, unsigned r, const void *key, unsigned kl, unsigned tl)
{
	live(3, "recreate", s); const kripto_desc_mac *d = s->desc; int i = mi(d); m_args(d, key, kl, tl); uint64_t k = plug_key(3, i, r, key, kl, &tl, sizeof tl);
	s = again(3, plug_moves[3][i], r != s->r || kl != s->kl || tl != s->tl, s); if(!s) return nullptr;
	s->k = k; s->pos = 0; s->r = r; s->kl = kl; s->tl = tl; s->done = false; return s;
}
static void m_input(kripto_mac *s, const void *p, size_t n) { live(3, "input", s); if(s->done) fail("FUNC", "a supplied MAC was given more input after its tag had been taken in step %d", rt::cur->step); span(3, "input", p, n); s->k = plug_absorb(s->k, p, n); }
static void m_tag(kripto_mac *s, void *p, unsigned n)
{
	live(3, "tag", s); s->done = true; span(3, "tag", p, n); if(s->pos + n > s->tl) fail("FUNC", "a supplied MAC created for a tag of %u bytes was asked for %llu in step %d", s->tl, (unsigned long long)(s->pos + n), rt::cur->step);
	for(unsigned i = 0; i < n; i++) ((uint8_t *)p)[i] = plug_byte(s->k, s->pos++);
}
static void m_destroy(kripto_mac *s) { live(3, "destroy", s); gone(s); }

void plug_setup(uint64_t seed)
{
	plug_config(seed);
	for(int i = 0; i < B_ALL - B_PLUG; i++) { const BlockInfo &q = block_info[B_PLUG + i]; db[i] = kripto_desc_block{b_create, b_recreate, q.maxtweak ? b_tweak : nullptr, b_enc, b_dec, b_destroy, q.size, q.maxkey, q.maxtweak}; }
	for(int i = 0; i < H_ALL - H_PLUG; i++) { const HashInfo &q = hash_info[H_PLUG + i]; dh[i] = kripto_desc_hash{h_create, h_recreate, h_input, h_output, h_destroy, h_all, q.maxout, q.block, q.maxsalt}; }
	for(int i = 0; i < S_ALL - S_PLUG; i++) ds[i] = kripto_desc_stream{s_create, s_recreate, s_enc, s_dec, s_prng, s_destroy, plug_stream[i].maxkey, plug_stream[i].maxiv};
	for(int i = 0; i < M_ALL - M_PLUG; i++) dm[i] = kripto_desc_mac{m_create, m_recreate, m_input, m_tag, m_destroy, plug_mac[i].maxtag, plug_mac[i].maxkey};
}
const void *plug_desc(int kind, int i) { switch(kind) { case 0: return &db[i - B_PLUG]; case 1: return &dh[i - H_PLUG]; case 2: return &ds[i - S_PLUG]; default: return &dm[i - M_PLUG]; } }
