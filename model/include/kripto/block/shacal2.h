#ifndef KRIPTO_BLOCK_SHACAL2_H
#define KRIPTO_BLOCK_SHACAL2_H

extern const kripto_desc_block *const kripto_block_shacal2;

#endif
