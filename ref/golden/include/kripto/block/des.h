#ifndef KRIPTO_BLOCK_DES_H
#define KRIPTO_BLOCK_DES_H

extern const kripto_desc_block *const kripto_block_des;

#endif
