#ifndef KRIPTO_BLOCK_BLOWFISH_H
#define KRIPTO_BLOCK_BLOWFISH_H

extern const kripto_desc_block *const kripto_block_blowfish;

#endif
