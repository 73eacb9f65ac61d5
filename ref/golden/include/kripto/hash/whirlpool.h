#ifndef KRIPTO_HASH_WHIRLPOOL_H
#define KRIPTO_HASH_WHIRLPOOL_H

extern const kripto_desc_hash *const kripto_hash_whirlpool;

#endif
