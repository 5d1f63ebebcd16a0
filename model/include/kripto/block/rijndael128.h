#ifndef KRIPTO_BLOCK_RIJNDAEL128_H
#define KRIPTO_BLOCK_RIJNDAEL128_H

extern const kripto_desc_block *const kripto_block_rijndael128;

#endif
