#ifndef KRIPTO_BLOCK_THREEFISH1024_H
#define KRIPTO_BLOCK_THREEFISH1024_H

extern const kripto_desc_block *const kripto_block_threefish1024;

extern void kripto_block_threefish1024_tweak(kripto_block *s, const void *tweak);

#endif
