/* S04: the stream ciphers against the frozen reference copy */
#include "streams.h"
#include "goldenapi.h"
#define MAXN 400
static const void *g_stream(int t)
{
	switch(t)
	{
		case T_chacha: return ref_kripto_stream_chacha;
		case T_salsa20: return ref_kripto_stream_salsa20;
		case T_rc4: return ref_kripto_stream_rc4;
		case T_keccak1600: return ref_kripto_stream_keccak1600;
		case T_keccak800: return ref_kripto_stream_keccak800;
		case T_skein256: return ref_kripto_stream_skein256;
		case T_skein512: return ref_kripto_stream_skein512;
		case T_skein1024: return ref_kripto_stream_skein1024;
	}
	return 0;
}
void st_golden(void)
{
	int t = ks_param("t", 0), kl = ks_param("k", 16), il = ks_param("i", 8), j, ck = ks_param("ck", 0); const kripto_desc_stream *d = h_stream(t);
	unsigned k, i, n = (unsigned)ks_param("n", 20), r = (unsigned)ks_param("r", 0);
	uint8_t key[300], iv[300], in[MAXN], x[MAXN], y[MAXN]; kripto_stream *e; void *g;
	k = kl < 0 ? (unsigned)ks_choose(ks_param("klo", 1), -kl, "keylen") : (unsigned)kl; i = il < 0 ? (unsigned)ks_choose(ks_param("ilo", 0), -il, "ivlen") : (unsigned)il;
	if(ck) { for(j = 0; j < (int)k; j++) key[j] = (uint8_t)(j * j * 7 + 29 * ck + j); if(ck > 1) ks_secret(key + k - 1, 1, "key"); }
	else ks_secret(key, k, "key");
	ks_sym(iv, i, "iv"); ks_sym(in, n, "in");
	e = kripto_stream_create(d, r, key, k, iv, i); g = ref_kripto_stream_create(g_stream(t), r, key, k, iv, i);
	ks_assert(e != 0, "creation failed");
	kripto_stream_prng(e, x, n); ref_kripto_stream_prng(g, y, n);
	ks_eq(x, y, n, "keystream");
	kripto_stream_encrypt(e, in, x, n); ref_kripto_stream_encrypt(g, in, y, n);
	ks_eq(x, y, n, "encryption");
	kripto_stream_decrypt(e, in, x, n); ref_kripto_stream_decrypt(g, in, y, n);
	ks_eq(x, y, n, "decryption");
	kripto_stream_destroy(e); ref_kripto_stream_destroy(g);
	ks_cover("end");
}
