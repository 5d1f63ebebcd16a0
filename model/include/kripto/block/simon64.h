#ifndef KRIPTO_BLOCK_SIMON64_H
#define KRIPTO_BLOCK_SIMON64_H

extern const kripto_desc_block *const kripto_block_simon64;

#endif
