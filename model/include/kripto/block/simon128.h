#ifndef KRIPTO_BLOCK_SIMON128_H
#define KRIPTO_BLOCK_SIMON128_H

extern const kripto_desc_block *const kripto_block_simon128;

#endif
