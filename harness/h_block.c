/* Block cipher properties, generic over the cipher (parameter c), the number of
   rounds (r) and the key length (k; 0 = every accepted length). */
#include "ciphers.h"

static unsigned h_klen(const kripto_desc_block *d)
{
	int k = ks_param("k", 0);
	if(!k) k = ks_choose(1, (int)kripto_block_maxkey(d), "klen");
	return (unsigned)k;
}
static void h_tweak(const kripto_desc_block *d, kripto_block *s, int t)
{
	uint8_t tw[128];
	if(!t) return;
	ks_sym(tw, (size_t)t, "tweak");
	kripto_block_tweak(s, tw, (unsigned)t);
	(void)d;
}

/* the key: symbolic, or one of a few fixed patterns (parameter ck) */
static void h_key(uint8_t *key, unsigned k)
{
	int ck = ks_param("ck", 0); unsigned i;
	if(!ck) { ks_secret(key, k, "key"); return; }
	for(i = 0; i < k; i++) key[i] = (uint8_t)(ck == 1 ? 0 : ck == 2 ? 0xFF : (i * 157 + 89 * ck) ^ (i >> 1) * 11);
}

/* B01: decrypt(encrypt(x)) = x and encrypt(decrypt(x)) = x */
void b_roundtrip(void)
{
	const kripto_desc_block *d = h_cipher(ks_param("c", 0));
	unsigned k = h_klen(d), r = (unsigned)ks_param("r", 0);
	size_t bs = kripto_block_size(d);
	uint8_t key[256], x[128], y[128], z[128];
	kripto_block *s;
	if(ks_param("rn", 0)) r = (unsigned)(ks_param("rlo", 1) + ks_param("rst", 1) * ks_choose(0, ks_param("rn", 0) - 1, "rounds"));
	h_key(key, k);
	ks_sym(x, bs, "x");
	s = kripto_block_create(d, r, key, k);
	ks_assert(s != 0, "creation failed");
	h_tweak(d, s, ks_param("t", 0));
	if(ks_param("dir", 1) & 1)
	{
		kripto_block_encrypt(s, x, y);
		kripto_block_decrypt(s, y, z);
		ks_eq(z, x, bs, "decryption of the encryption");
	}
	if(ks_param("dir", 1) & 2)
	{
		kripto_block_decrypt(s, x, y);
		kripto_block_encrypt(s, y, z);
		ks_eq(z, x, bs, "encryption of the decryption");
	}
	kripto_block_destroy(s);
	ks_cover("end");
}

/* B03: recreate = create anew. k1, r1: before; k2, r2: after */
void b_recreate(void)
{
	const kripto_desc_block *d = h_cipher(ks_param("c", 0));
	unsigned k1 = (unsigned)ks_param("k1", 1), k2 = (unsigned)ks_param("k2", 1);
	unsigned r1 = (unsigned)ks_param("r1", 0), r2 = (unsigned)ks_param("r2", 0);
	int t = ks_param("t", 0); unsigned i;
	size_t bs = kripto_block_size(d);
	uint8_t ka[256], kb[256], x[128], w[128], y[128], z[128];
	kripto_block *s, *q;
	if(ks_param("ck", 0)) { for(i = 0; i < k1; i++) ka[i] = (uint8_t)(i * 37 + 9); }
	else ks_secret(ka, k1, "oldkey");
	ks_secret(kb, k2, "key");
	ks_sym(x, bs, "x"); ks_sym(w, bs, "w");
	s = kripto_block_create(d, r1, ka, k1);
	ks_assert(s != 0, "creation failed");
	if(t) h_tweak(d, s, t);
	kripto_block_encrypt(s, w, y); kripto_block_decrypt(s, y, y);
	s = kripto_block_recreate(s, r2, kb, k2);
	ks_assert(s != 0, "recreation failed");
	ks_assert(kripto_block_getdesc(s) == d, "descriptor after recreate");
	q = kripto_block_create(d, r2, kb, k2);
	kripto_block_encrypt(s, x, y); kripto_block_encrypt(q, x, z);
	ks_eq(y, z, bs, "encryption after recreate");
	kripto_block_decrypt(s, x, y); kripto_block_decrypt(q, x, z);
	ks_eq(y, z, bs, "decryption after recreate");
	/* the calls above leave no trace */
	if(ks_param("again", 1))
	{
		kripto_block_encrypt(s, w, z); kripto_block_decrypt(s, z, z);
		kripto_block_encrypt(s, x, y); kripto_block_encrypt(q, x, z);
		ks_eq(y, z, bs, "encryption after other calls");
	}
	if(t)
	{
		uint8_t tw[128];
		ks_sym(tw, (size_t)t, "newtweak");
		kripto_block_tweak(s, tw, (unsigned)t); kripto_block_tweak(q, tw, (unsigned)t);
		kripto_block_encrypt(s, x, y); kripto_block_encrypt(q, x, z);
		ks_eq(y, z, bs, "encryption after recreate and tweak");
	}
	kripto_block_destroy(s); kripto_block_destroy(q);
	ks_assert(ks_live() == ks_param("live", 0), "memory is still allocated");
	ks_cover("end");
}

/* B04: in place = separate, nothing else written, the input and the key kept */
void b_alias(void)
{
	const kripto_desc_block *d = h_cipher(ks_param("c", 0));
	unsigned k = (unsigned)ks_param("k", 1), r = (unsigned)ks_param("r", 0);
	size_t bs = kripto_block_size(d);
	uint8_t key[256], kc[256], in[160], inc[160], out[160], outc[160];
	kripto_block *s; int dir;
	if(ks_param("rn", 0)) r = (unsigned)(ks_param("rlo", 1) + ks_param("rst", 1) * ks_choose(0, ks_param("rn", 0) - 1, "rounds"));
	ks_secret(key, k, "key"); memcpy(kc, key, k);
	ks_sym(in, bs + 32, "in"); memcpy(inc, in, bs + 32);
	ks_sym(out, bs + 32, "out"); memcpy(outc, out, bs + 32);
	s = kripto_block_create(d, r, key, k);
	ks_assert(s != 0, "creation failed");
	ks_eq(key, kc, k, "key after creation");
	if(ks_param("t", 0)) h_tweak(d, s, ks_param("t", 0));
	for(dir = 0; dir < 2; dir++)
	{
		if(dir) kripto_block_decrypt(s, in + 16, out + 16); else kripto_block_encrypt(s, in + 16, out + 16);
		ks_eq(in, inc, bs + 32, "input buffer after the call");
		ks_eq(out, outc, 16, "bytes before the output block");
		ks_eq(out + 16 + bs, outc + 16 + bs, 16, "bytes after the output block");
		if(dir) kripto_block_decrypt(s, in + 16, in + 16); else kripto_block_encrypt(s, in + 16, in + 16);
		ks_eq(in + 16, out + 16, bs, "in-place result");
		ks_eq(in, inc, 16, "bytes before the block in place");
		ks_eq(in + 16 + bs, inc + 16 + bs, 16, "bytes after the block in place");
		memcpy(in, inc, bs + 32); memcpy(out, outc, bs + 32);
	}
	/* the object is as before: it still encrypts the same */
	kripto_block_encrypt(s, in + 16, out + 16);
	memcpy(outc, out, bs + 32);
	kripto_block_encrypt(s, in + 16, out + 16);
	ks_eq(out, outc, bs + 32, "second encryption of the same block");
	kripto_block_destroy(s);
	ks_cover("end");
}
