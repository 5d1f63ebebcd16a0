#ifndef KRIPTO_BLOCK_3WAY_H
#define KRIPTO_BLOCK_3WAY_H

extern const kripto_desc_block *const kripto_block_3way;

#endif
