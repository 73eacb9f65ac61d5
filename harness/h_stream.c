/* Stream properties, generic over the stream (t), key length (k), IV length (i),
   message length (n) and rounds (r). */
#include "streams.h"
#define MAXN 400
static void h_keyiv(uint8_t *key, unsigned k, uint8_t *iv, unsigned i)
{
	if(ks_param("ck", 0)) { unsigned j; for(j = 0; j < k; j++) key[j] = (uint8_t)(j * 57 + 3); }
	else ks_secret(key, k, "key");
	ks_sym(iv, i, "iv");
}
static unsigned h_cut(unsigned lo, unsigned n, unsigned mult, const char *name)
{
	return mult * (unsigned)ks_choose((int)(lo / mult), (int)(n / mult), name);
}
/* S01: what one object encrypts, another decrypts; both split freely. ip: in place */
void st_pair(void)
{
	int t = ks_param("t", 0), ip = ks_param("ip", 0); const kripto_desc_stream *d = h_stream(t);
	unsigned k = (unsigned)ks_param("k", 16), i = (unsigned)ks_param("i", 8), n = (unsigned)ks_param("n", 20), r = (unsigned)ks_param("r", 0), m, a, b;
	uint8_t key[256], iv[256], pt[MAXN], x[MAXN], y[MAXN]; kripto_stream *e, *f;
	h_keyiv(key, k, iv, i); ks_sym(pt, n, "pt");
	e = kripto_stream_create(d, r, key, k, iv, i); f = kripto_stream_create(d, r, key, k, iv, i);
	ks_assert(e && f, "creation failed");
	m = kripto_stream_multof(e);
	a = h_cut(0, n, m, "cut1"); b = ks_param("one", 0) ? a : h_cut(0, n, m, "cut2");
	if(ip)
	{
		memcpy(x, pt, n);
		kripto_stream_encrypt(e, x, x, a); kripto_stream_encrypt(e, x + a, x + a, n - a);
		kripto_stream_decrypt(f, x, x, b); kripto_stream_decrypt(f, x + b, x + b, n - b);
		ks_eq(x, pt, n, "decrypted plaintext, in place");
	}
	else
	{
		kripto_stream_encrypt(e, pt, x, a); kripto_stream_encrypt(e, pt + a, x + a, n - a);
		kripto_stream_decrypt(f, x, y, b); kripto_stream_decrypt(f, x + b, y + b, n - b);
		ks_eq(y, pt, n, "decrypted plaintext");
	}
	kripto_stream_destroy(e); kripto_stream_destroy(f); h_stream_done(t, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* S02: one call = pieces. f: 0 encrypt, 1 decrypt, 2 prng; ip: pieces in place */
static void h_do(int f, kripto_stream *s, const uint8_t *in, uint8_t *out, unsigned n)
{
	if(f == 0) kripto_stream_encrypt(s, in, out, n);
	else if(f == 1) kripto_stream_decrypt(s, in, out, n);
	else kripto_stream_prng(s, out, n);
}
void st_split(void)
{
	int t = ks_param("t", 0), fn = ks_param("f", 0), ip = ks_param("ip", 0), cuts = ks_param("m", 2); const kripto_desc_stream *d = h_stream(t);
	unsigned k = (unsigned)ks_param("k", 16), i = (unsigned)ks_param("i", 8), n = (unsigned)ks_param("n", 20), r = (unsigned)ks_param("r", 0), m, a, b;
	uint8_t key[256], iv[256], in[MAXN], ic[MAXN], x[MAXN + 16], y[MAXN + 16], g[MAXN + 16]; kripto_stream *e, *f;
	h_keyiv(key, k, iv, i); ks_sym(in, n, "in"); memcpy(ic, in, n); ks_sym(g, n + 16, "guard"); memcpy(x, g, n + 16); memcpy(y, g, n + 16);
	e = kripto_stream_create(d, r, key, k, iv, i); f = kripto_stream_create(d, r, key, k, iv, i);
	ks_assert(e && f, "creation failed");
	m = kripto_stream_multof(e);
	h_do(fn, e, in, x + 8, n);
	ks_eq(in, ic, n, "input buffer");
	ks_eq(x, g, 8, "bytes before the output"); ks_eq(x + 8 + n, g + 8 + n, 8, "bytes after the output");
	a = h_cut(0, n, m, "cut1"); b = cuts > 1 ? h_cut(a, n, m, "cut2") : a;
	if(ip) memcpy(y + 8, in, n);
	h_do(fn, f, ip ? y + 8 : in, y + 8, a);
	ks_eq(y, g, 8, "bytes before the output"); if(!ip) ks_eq(y + 8 + a, g + 8 + a, n - a, "bytes after the output");
	h_do(fn, f, ip ? y + 8 + a : in + a, y + 8 + a, b - a); h_do(fn, f, ip ? y + 8 + b : in + b, y + 8 + b, n - b);
	ks_eq(y + 8, x + 8, n, "output of the pieces");
	ks_eq(y + 8 + n, g + 8 + n, 8, "bytes after the output");
	kripto_stream_destroy(e); kripto_stream_destroy(f); h_stream_done(t, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* S02: generated bytes are the encryption of zeros, freely interleaved */
void st_prng(void)
{
	int t = ks_param("t", 0), w; const kripto_desc_stream *d = h_stream(t);
	unsigned k = (unsigned)ks_param("k", 16), i = (unsigned)ks_param("i", 8), n = (unsigned)ks_param("n", 20), r = (unsigned)ks_param("r", 0), a, b, j;
	uint8_t key[256], iv[256], in[MAXN], x[MAXN], y[MAXN]; kripto_stream *e, *f;
	h_keyiv(key, k, iv, i); ks_sym(in, n, "in");
	e = kripto_stream_create(d, r, key, k, iv, i); f = kripto_stream_create(d, r, key, k, iv, i);
	ks_assert(e && f, "creation failed");
	a = (unsigned)ks_choose(0, (int)n, "cut1"); b = ks_param("m", 2) > 1 ? (unsigned)ks_choose((int)a, (int)n, "cut2") : n; w = ks_choose(0, 1, "order");
	for(j = 0; j < n; j++) if((j < a || j >= b) == w) in[j] = 0;
	kripto_stream_encrypt(e, in, x, n);
	if(w) { kripto_stream_prng(f, y, a); kripto_stream_encrypt(f, in + a, y + a, b - a); kripto_stream_prng(f, y + b, n - b); }
	else { kripto_stream_encrypt(f, in, y, a); kripto_stream_prng(f, y + a, b - a); kripto_stream_encrypt(f, in + b, y + b, n - b); }
	ks_eq(y, x, n, "generated and encrypted bytes");
	kripto_stream_destroy(e); kripto_stream_destroy(f); h_stream_done(t, d);
	ks_cover("end");
}
/* S05: recreate. k1,i1,r1,n1 (n1 < 0: every length up to -n1): before */
void st_recreate(void)
{
	int t = ks_param("t", 0), n1 = ks_param("n1", 5), w; const kripto_desc_stream *d = h_stream(t);
	unsigned k = (unsigned)ks_param("k", 16), i = (unsigned)ks_param("i", 8), n = (unsigned)ks_param("n", 20), r = (unsigned)ks_param("r", 0);
	unsigned k1 = (unsigned)ks_param("k1", 16), i1 = (unsigned)ks_param("i1", 8), r1 = (unsigned)ks_param("r1", 0), m;
	uint8_t key1[304], iv1[304], key[304], iv[304], in[MAXN], old[MAXN], x[MAXN], y[MAXN]; kripto_stream *e, *f;
	h_keyiv(key, k, iv, i); ks_sym(in, n, "in");
	if(ks_param("ck", 0)) memset(key1, 7, k1); else ks_secret(key1, k1, "oldkey");
	ks_sym(iv1, i1, "oldiv");
	f = kripto_stream_create(d, r1, key1, k1, iv1, i1);
	ks_assert(f != 0, "creation failed");
	m = kripto_stream_multof(f);
	if(n1 < 0) n1 = (int)m * ks_choose(0, -n1 / (int)m, "oldlen");
	w = n1 ? ks_choose(0, h_hasprng(t) ? 2 : 1, "oldcall") : 0;
	ks_sym(old, (size_t)n1, "old");
	h_do(w, f, old, x, (unsigned)n1);
	f = kripto_stream_recreate(f, r, key, k, iv, i);
	ks_assert(f != 0, "recreation failed");
	ks_assert(kripto_stream_getdesc(f) == d, "descriptor after recreate");
	ks_assert(kripto_stream_multof(f) == m, "granularity after recreate");
	e = kripto_stream_create(d, r, key, k, iv, i);
	ks_assert(e != 0, "creation failed");
	w = ks_choose(0, h_hasprng(t) ? 2 : 1, "call");
	h_do(w, e, in, x, n); h_do(w, f, in, y, n);
	ks_eq(y, x, n, "output after recreate");
	kripto_stream_destroy(e); kripto_stream_destroy(f); h_stream_done(t, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* S03: the mode definitions, over an arbitrary permutation */
static void ref_mode(int t, int dec, unsigned bs, unsigned r, const uint8_t *key, unsigned k, const uint8_t *iv, unsigned i, const uint8_t *in, uint8_t *out, unsigned n)
{
	uint8_t c[64], s[64]; unsigned j, b, q; const unsigned F = 100 + r;
	for(j = 0; j < bs; j++) c[j] = j < i ? iv[j] : 0;
	for(b = 0; b < n; b += bs)
	{
		unsigned l = n - b < bs ? n - b : bs;
		switch(t)
		{
			case T_ecb: ks_perm(F, dec, key, k, in + b, out + b, bs); break;
			case T_cbc:
				if(dec) { ks_perm(F, 1, key, k, in + b, s, bs); for(j = 0; j < bs; j++) { out[b + j] = s[j] ^ c[j]; c[j] = in[b + j]; } }
				else { for(j = 0; j < bs; j++) s[j] = in[b + j] ^ c[j]; ks_perm(F, 0, key, k, s, c, bs); memcpy(out + b, c, bs); }
				break;
			case T_cfb:
				ks_perm(F, 0, key, k, c, s, bs);
				for(j = 0; j < l; j++) { out[b + j] = in[b + j] ^ s[j]; c[j] = dec ? in[b + j] : out[b + j]; }
				break;
			case T_ofb:
				ks_perm(F, 0, key, k, c, s, bs); memcpy(c, s, bs);
				for(j = 0; j < l; j++) out[b + j] = in[b + j] ^ s[j];
				break;
			case T_ctr:
				ks_perm(F, 0, key, k, c, s, bs);
				for(j = 0; j < l; j++) out[b + j] = in[b + j] ^ s[j];
				for(q = 1, j = bs; j-- > 0; ) { q += c[j]; c[j] = (uint8_t)q; q >>= 8; }
				break;
		}
	}
}
void mode_spec(void)
{
	int t = ks_param("t", T_cbc), dec = ks_param("dec", 0); unsigned bs = (unsigned)ks_param("bs", 8); const kripto_desc_stream *d = h_stream(t);
	unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), n = (unsigned)ks_param("n", 20), i; int il = ks_param("i", -1);
	uint8_t key[64], iv[64], in[MAXN], x[MAXN], y[MAXN]; kripto_stream *e;
	i = il < 0 ? (unsigned)ks_choose(0, t == T_ecb ? 0 : (int)bs, "ivlen") : (unsigned)il;
	h_keyiv(key, k, iv, i); ks_sym(in, n, "in");
	e = kripto_stream_create(d, r, key, k, iv, i);
	ks_assert(e != 0, "creation failed");
	ks_assert(kripto_stream_multof(e) == (t == T_cbc || t == T_ecb ? bs : 1), "granularity");
	if(dec) kripto_stream_decrypt(e, in, x, n); else kripto_stream_encrypt(e, in, x, n);
	ref_mode(t, dec, bs, r, key, k, iv, i, in, y, n);
	ks_eq(x, y, n, "output of the mode");
	kripto_stream_destroy(e); h_stream_done(t, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* S03: the counter near every carry: iv = FF..FF from byte c on, 3 blocks */
void ctr_carry(void)
{
	unsigned bs = (unsigned)ks_param("bs", 8), c, j, n = 3 * bs; const kripto_desc_stream *d = h_stream(T_ctr);
	uint8_t key[16], iv[64], in[MAXN], x[MAXN], y[MAXN]; kripto_stream *e; int low;
	c = (unsigned)ks_choose(0, (int)bs, "ff_from"); low = ks_choose(0, 1, "last");
	ks_secret(key, 16, "key"); ks_sym(iv, bs, "iv"); ks_sym(in, n, "in");
	for(j = c; j < bs; j++) iv[j] = 0xFF;
	if(low) iv[bs - 1] = 0xFE;
	e = kripto_stream_create(d, 0, key, 16, iv, bs);
	ks_assert(e != 0, "creation failed");
	if(ks_param("prng", 0)) { memset(in, 0, n); kripto_stream_prng(e, x, n); } else kripto_stream_encrypt(e, in, x, n);
	ref_mode(T_ctr, 0, bs, 0, key, 16, iv, bs, in, y, n);
	ks_eq(x, y, n, "output of the counter mode");
	kripto_stream_destroy(e); h_stream_done(T_ctr, d);
	ks_cover("end");
}
