#ifndef KRIPTO_HASH_SKEIN512_H
#define KRIPTO_HASH_SKEIN512_H

extern const kripto_desc_hash *const kripto_hash_skein512;

#endif
