#ifndef KRIPTO_BLOCK_XTEA_H
#define KRIPTO_BLOCK_XTEA_H

extern const kripto_desc_block *const kripto_block_xtea;

#endif
