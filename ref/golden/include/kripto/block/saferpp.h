#ifndef KRIPTO_BLOCK_SAFERPP_H
#define KRIPTO_BLOCK_SAFERPP_H

extern const kripto_desc_block *const kripto_block_saferpp;

#endif
