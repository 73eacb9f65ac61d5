/* the hash functions by number */
#ifndef HASHES_H
#define HASHES_H
#include "ks.h"
#include <kripto/hash.h>
#include <kripto/hash/blake256.h>
#include <kripto/hash/blake2b.h>
#include <kripto/hash/blake2s.h>
#include <kripto/hash/blake512.h>
#include <kripto/hash/keccak1600.h>
#include <kripto/hash/keccak800.h>
#include <kripto/hash/md5.h>
#include <kripto/hash/sha1.h>
#include <kripto/hash/sha2_256.h>
#include <kripto/hash/sha2_512.h>
#include <kripto/hash/sha3.h>
#include <kripto/hash/skein1024.h>
#include <kripto/hash/skein256.h>
#include <kripto/hash/skein512.h>
#include <kripto/hash/tiger.h>
#include <kripto/hash/whirlpool.h>
enum { H_blake256, H_blake2b, H_blake2s, H_blake512, H_keccak1600, H_keccak800, H_md5, H_sha1, H_sha2_256, H_sha2_512, H_sha3, H_skein1024, H_skein256, H_skein512, H_tiger, H_whirlpool, H_N };
static inline const kripto_desc_hash *h_hash(int h)
{
	switch(h)
	{
		case H_blake256: return kripto_hash_blake256;
		case H_blake2b: return kripto_hash_blake2b;
		case H_blake2s: return kripto_hash_blake2s;
		case H_blake512: return kripto_hash_blake512;
		case H_keccak1600: return kripto_hash_keccak1600;
		case H_keccak800: return kripto_hash_keccak800;
		case H_md5: return kripto_hash_md5;
		case H_sha1: return kripto_hash_sha1;
		case H_sha2_256: return kripto_hash_sha2_256;
		case H_sha2_512: return kripto_hash_sha2_512;
		case H_sha3: return kripto_hash_sha3;
		case H_skein1024: return kripto_hash_skein1024;
		case H_skein256: return kripto_hash_skein256;
		case H_skein512: return kripto_hash_skein512;
		case H_tiger: return kripto_hash_tiger;
		case H_whirlpool: return kripto_hash_whirlpool;
		default: return 0;
	}
}
/* the maximal message bytes one compression takes, given the output length */
static inline unsigned h_rate(int h, unsigned out)
{
	switch(h)
	{
		case H_keccak1600: case H_sha3: return 200 - 2 * out;
		case H_keccak800: return 100 - 2 * out;
		default: return kripto_hash_blocksize(h_hash(h));
	}
}
#endif
