#ifndef KRIPTO_HASH_SHA2_256_H
#define KRIPTO_HASH_SHA2_256_H

extern const kripto_desc_hash *const kripto_hash_sha2_256;

#endif
