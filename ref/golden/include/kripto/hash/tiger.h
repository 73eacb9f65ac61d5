#ifndef KRIPTO_HASH_TIGER_H
#define KRIPTO_HASH_TIGER_H

extern const kripto_desc_hash *const kripto_hash_tiger;

#endif
