/* H01: every hash against the frozen reference copy. lo..hi: message lengths */
#include "hashes.h"
#include "goldenapi.h"
static const void *g_hash(int h)
{
	switch(h)
	{
		case H_blake256: return ref_kripto_hash_blake256;
		case H_blake2b: return ref_kripto_hash_blake2b;
		case H_blake2s: return ref_kripto_hash_blake2s;
		case H_blake512: return ref_kripto_hash_blake512;
		case H_keccak1600: return ref_kripto_hash_keccak1600;
		case H_keccak800: return ref_kripto_hash_keccak800;
		case H_md5: return ref_kripto_hash_md5;
		case H_sha1: return ref_kripto_hash_sha1;
		case H_sha2_256: return ref_kripto_hash_sha2_256;
		case H_sha2_512: return ref_kripto_hash_sha2_512;
		case H_sha3: return ref_kripto_hash_sha3;
		case H_skein1024: return ref_kripto_hash_skein1024;
		case H_skein256: return ref_kripto_hash_skein256;
		case H_skein512: return ref_kripto_hash_skein512;
		case H_tiger: return ref_kripto_hash_tiger;
		case H_whirlpool: return ref_kripto_hash_whirlpool;
		default: return 0;
	}
}
void hash_golden(void)
{
	int h = ks_param("h", 0);
	const kripto_desc_hash *d = h_hash(h);
	unsigned n = (unsigned)ks_choose(ks_param("lo", 0), ks_param("hi", 0), "len"), o = (unsigned)ks_param("o", 16), s = (unsigned)ks_param("s", 0), r = (unsigned)ks_param("r", 0), t = (unsigned)ks_param("t", 0);
	uint8_t msg[2048]; uint8_t salt[160]; uint8_t x[1024], y[1024];
	kripto_hash *p; void *q;
	if(!t) t = o;
	ks_sym(msg, n, "msg"); ks_sym(salt, s, "salt");
	p = kripto_hash_create(d, r, salt, s, o); q = ref_kripto_hash_create(g_hash(h), r, salt, s, o);
	ks_assert(p != 0, "creation failed");
	kripto_hash_input(p, msg, n); ref_kripto_hash_input(q, msg, n);
	kripto_hash_output(p, x, t); ref_kripto_hash_output(q, y, t);
	ks_eq(x, y, t, "digest");
	if(ks_param("all", 1))
	{
		ks_assert(kripto_hash_all(d, r, salt, s, msg, n, x, o) == 0, "kripto_hash_all failed");
		ks_eq(x, y, o, "kripto_hash_all");
	}
	kripto_hash_destroy(p); ref_kripto_hash_destroy(q);
	ks_cover("end");
}
