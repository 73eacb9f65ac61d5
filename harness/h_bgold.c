/* B02, B01: the library's block ciphers against the frozen reference copy. */
#include "ciphers.h"
#include "golden.h"

void b_golden(void)
{
	int c = ks_param("c", 0), t = ks_param("t", 0), dir = ks_param("dir", 3);
	const kripto_desc_block *d = h_cipher(c); const void *g = h_golden(c);
	unsigned k = (unsigned)ks_param("k", 1), r = (unsigned)ks_param("r", 0);
	size_t bs = kripto_block_size(d); int klo = ks_param("klo", 0);
	uint8_t key[256], x[128], y[128], z[128], tw[128];
	kripto_block *s; void *q;
	if(klo) k = (unsigned)ks_choose(klo, (int)k, "keylen"); /* every length from klo on */
	if(ks_param("rn", 0)) r = (unsigned)(ks_param("rlo", 1) + ks_param("rst", 1) * ks_choose(0, ks_param("rn", 0) - 1, "rounds"));
	ks_secret(key, k, "key");
	ks_sym(x, bs, "x");
	s = kripto_block_create(d, r, key, k); q = ref_kripto_block_create(g, r, key, k);
	ks_assert(s != 0, "creation failed");
	if(t)
	{
		ks_sym(tw, (size_t)t, "tweak");
		kripto_block_tweak(s, tw, (unsigned)t); ref_kripto_block_tweak(q, tw, (unsigned)t);
	}
	if(ks_param("rt", 0) && ks_native())
	{
		/* B01: a difference from the reference is a violation only if the round trip fails */
		kripto_block_encrypt(s, x, y); kripto_block_decrypt(s, y, z); ks_eq(z, x, bs, "decryption of the encryption");
		kripto_block_decrypt(s, x, y); kripto_block_encrypt(s, y, z); ks_eq(z, x, bs, "encryption of the decryption");
		return;
	}
	if(dir & 1)
	{
		kripto_block_encrypt(s, x, y); ref_kripto_block_encrypt(q, x, z);
		ks_eq(y, z, bs, "encryption");
	}
	if(dir & 2)
	{
		kripto_block_decrypt(s, x, y); ref_kripto_block_decrypt(q, x, z);
		ks_eq(y, z, bs, "decryption");
	}
	kripto_block_destroy(s); ref_kripto_block_destroy(q);
	ks_cover("end");
}
