#ifndef KRIPTO_BLOCK_RIJNDAEL256_H
#define KRIPTO_BLOCK_RIJNDAEL256_H

extern const kripto_desc_block *const kripto_block_rijndael256;

#endif
