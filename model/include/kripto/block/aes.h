#ifndef KRIPTO_BLOCK_AES_H
#define KRIPTO_BLOCK_AES_H

extern const kripto_desc_block *const kripto_block_aes;

#endif
