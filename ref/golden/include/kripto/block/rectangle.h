#ifndef KRIPTO_BLOCK_RECTANGLE_H
#define KRIPTO_BLOCK_RECTANGLE_H

extern const kripto_desc_block *const kripto_block_rectangle;

#endif
