#ifndef KRIPTO_BLOCK_CAST5_H
#define KRIPTO_BLOCK_CAST5_H

extern const kripto_desc_block *const kripto_block_cast5;

#endif
