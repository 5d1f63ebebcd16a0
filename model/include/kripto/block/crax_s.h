#ifndef KRIPTO_BLOCK_CRAX_S_H
#define KRIPTO_BLOCK_CRAX_S_H

extern const kripto_desc_block *const kripto_block_crax_s;

#endif
