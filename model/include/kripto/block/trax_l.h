#ifndef KRIPTO_BLOCK_TRAX_L_H
#define KRIPTO_BLOCK_TRAX_L_H

extern const kripto_desc_block *const kripto_block_trax_l;

#endif
