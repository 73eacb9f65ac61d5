#ifndef KRIPTO_HASH_BLAKE2B_H
#define KRIPTO_HASH_BLAKE2B_H

extern const kripto_desc_hash *const kripto_hash_blake2b;

#endif
