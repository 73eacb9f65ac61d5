#ifndef KRIPTO_HASH_SHA2_512_H
#define KRIPTO_HASH_SHA2_512_H

extern const kripto_desc_hash *const kripto_hash_sha2_512;

#endif
