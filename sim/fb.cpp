/* Stand-in for the expensive scrypt call inside the fallback generator: a keyed mixing of
 * exactly the bytes it was given, with one allocation so that it can fail. */
#include "rt.h"
#include <string.h>
extern "C" { unsigned long ksim_seedings, ksim_seedfails; void *sim_malloc(size_t); void sim_free(void *);
int sim_scrypt(const void *mac, unsigned mr, uint64_t n, uint32_t r, uint32_t p, const void *pass, unsigned pl, const void *salt, unsigned sl, void *out, size_t ol)
{
	(void)mac; (void)mr;
	void *w = sim_malloc(64); if(!w) { ksim_seedfails++; return -1; }
	uint64_t h = hbytes(pass, pl, n * 31 + r * 7 + p); if(sl) h = hbytes(salt, sl, h);
	Rng g(h); for(size_t i = 0; i < ol; i++) ((uint8_t *)out)[i] = (uint8_t)g.next();
	memset(w, 0, 64); sim_free(w); ksim_seedings++; return 0;
}
}
