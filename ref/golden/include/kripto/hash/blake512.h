#ifndef KRIPTO_HASH_BLAKE512_H
#define KRIPTO_HASH_BLAKE512_H

extern const kripto_desc_hash *const kripto_hash_blake512;

#endif
