#ifndef KRIPTO_BLOCK_SERPENT_H
#define KRIPTO_BLOCK_SERPENT_H

extern const kripto_desc_block *const kripto_block_serpent;

#endif
