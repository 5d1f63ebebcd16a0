#ifndef KRIPTO_BLOCK_ANUBIS_H
#define KRIPTO_BLOCK_ANUBIS_H

extern const kripto_desc_block *const kripto_block_anubis;

#endif
