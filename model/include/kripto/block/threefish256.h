#ifndef KRIPTO_BLOCK_THREEFISH256_H
#define KRIPTO_BLOCK_THREEFISH256_H

extern const kripto_desc_block *const kripto_block_threefish256;

extern void kripto_block_threefish256_tweak(kripto_block *s, const void *tweak);

#endif
