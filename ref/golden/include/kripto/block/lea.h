#ifndef KRIPTO_BLOCK_LEA_H
#define KRIPTO_BLOCK_LEA_H

extern const kripto_desc_block *const kripto_block_lea;

#endif
