#ifndef KRIPTO_HASH_BLAKE256_H
#define KRIPTO_HASH_BLAKE256_H

extern const kripto_desc_hash *const kripto_hash_blake256;

#endif
