#ifndef KRIPTO_BLOCK_SPECK128_H
#define KRIPTO_BLOCK_SPECK128_H

extern const kripto_desc_block *const kripto_block_speck128;

#endif
