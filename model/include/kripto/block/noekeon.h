#ifndef KRIPTO_BLOCK_NOEKEON_H
#define KRIPTO_BLOCK_NOEKEON_H

extern const kripto_desc_block *const kripto_block_noekeon;

#endif
