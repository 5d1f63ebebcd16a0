#ifndef KRIPTO_BLOCK_KHAZAD_H
#define KRIPTO_BLOCK_KHAZAD_H

extern const kripto_desc_block *const kripto_block_khazad;

#endif
