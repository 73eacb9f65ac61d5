/* The H, S and M properties at large sizes: n bytes of input, the first pre of them a
   fixed pattern and the rest arbitrary, in one call and in pieces. */
#define H_CAP 4800
#include "streams.h"
#include "macs.h"
#include "hashes.h"
#include "ref_mac.h"
#include "goldenapi.h"
static uint8_t *h_data(size_t n, unsigned pre)
{
	uint8_t *p = malloc(n + 1); size_t i;
	if(!p) abort();
	for(i = 0; i < pre && i < n; i++) p[i] = (uint8_t)(i * 131 + (i >> 8) * 29 + 7);
	if(n > pre) ks_sym(p + pre, n - pre, "rest");
	return p;
}
/* length of the next piece of pattern w at position pos; b: block, m: granularity */
#define H_PATTERNS 11
static unsigned h_piece(int w, unsigned b, unsigned m, unsigned pos, unsigned n)
{
	unsigned l = n - pos, x = l;
	switch(w)
	{
		case 0: if(pos == 0) x = 1; break;
		case 1: if(pos == 0) x = b - 1; break;
		case 2: x = pos == 0 ? b + 1 : pos == b + 1 ? 5 * b - 2 : l; break;
		case 3: x = 300; break;
		case 4: x = pos == 0 ? 3 * b : pos == 3 * b ? 4 * b + 1 : l; break;
		case 5: if(pos == 0) x = n / 2; break;
		case 6: if(pos == 0) x = n - 1; break;
		case 7: if(pos == 0) x = b; break;
		case 8: x = 2 * b; break;
		case 9: if(pos == 0) x = 257; break;
		case 10: x = pos == 0 ? 2 * b + b / 2 : pos == 2 * b + b / 2 ? 2 * b : l; break;
	}
	x -= x % m; if(x == 0) x = m;
	return x < l ? x : l;
}
static const void *g_hash(int h)
{
	switch(h)
	{
		case H_blake256: return ref_kripto_hash_blake256;
		case H_blake2b: return ref_kripto_hash_blake2b;
		case H_blake2s: return ref_kripto_hash_blake2s;
		case H_blake512: return ref_kripto_hash_blake512;
		case H_keccak1600: return ref_kripto_hash_keccak1600;
		case H_keccak800: return ref_kripto_hash_keccak800;
		case H_md5: return ref_kripto_hash_md5;
		case H_sha1: return ref_kripto_hash_sha1;
		case H_sha2_256: return ref_kripto_hash_sha2_256;
		case H_sha2_512: return ref_kripto_hash_sha2_512;
		case H_sha3: return ref_kripto_hash_sha3;
		case H_skein1024: return ref_kripto_hash_skein1024;
		case H_skein256: return ref_kripto_hash_skein256;
		case H_skein512: return ref_kripto_hash_skein512;
		case H_tiger: return ref_kripto_hash_tiger;
		case H_whirlpool: return ref_kripto_hash_whirlpool;
		default: return 0;
	}
}
static const void *g_stream(int t)
{
	switch(t)
	{
		case T_chacha: return ref_kripto_stream_chacha;
		case T_salsa20: return ref_kripto_stream_salsa20;
		case T_rc4: return ref_kripto_stream_rc4;
		case T_keccak1600: return ref_kripto_stream_keccak1600;
		case T_keccak800: return ref_kripto_stream_keccak800;
		case T_skein256: return ref_kripto_stream_skein256;
		case T_skein512: return ref_kripto_stream_skein512;
		case T_skein1024: return ref_kripto_stream_skein1024;
	}
	return 0;
}
static const void *g_mac(int m)
{
	switch(m)
	{
		case M_keccak1600: return ref_kripto_mac_keccak1600;
		case M_keccak800: return ref_kripto_mac_keccak800;
		case M_skein256: return ref_kripto_mac_skein256;
		case M_skein512: return ref_kripto_mac_skein512;
		case M_skein1024: return ref_kripto_mac_skein1024;
	}
	return 0;
}
/* g = 1: against the frozen reference; g = 0: pieces. t: output bytes read, also in pieces */
void hash_big(void)
{
	int h = ks_param("h", 0), g = ks_param("g", 0), w; const kripto_desc_hash *d = h_hash(h);
	unsigned n = (unsigned)ks_param("n", 600), pre = (unsigned)ks_param("pre", 0), o = (unsigned)ks_param("o", 16), s = (unsigned)ks_param("s", 0), t = (unsigned)ks_param("t", 0), b = h_rate(h, o), pos, l;
	uint8_t *msg = h_data(n, pre), *salt = malloc(s + 1), *x, *y; kripto_hash *p; void *q;
	if(!t) t = o;
	x = malloc(t); y = malloc(t); ks_sym(salt, s, "salt");
	p = kripto_hash_create(d, 0, salt, s, o); ks_assert(p != 0, "creation failed");
	if(g)
	{
		kripto_hash_input(p, msg, n); kripto_hash_output(p, x, t);
		q = ref_kripto_hash_create(g_hash(h), 0, salt, s, o); ref_kripto_hash_input(q, msg, n); ref_kripto_hash_output(q, y, t); ref_kripto_hash_destroy(q);
		ks_eq(x, y, t, "digest");
		if(ks_param("all", 0)) { ks_assert(kripto_hash_all(d, 0, salt, s, msg, n, x, o) == 0, "kripto_hash_all failed"); ks_eq(x, y, o, "kripto_hash_all"); }
	}
	else
	{
		w = ks_param("w", -1); if(w < 0) w = ks_choose(0, H_PATTERNS - 1, "pieces");
		kripto_hash_input(p, msg, n); kripto_hash_output(p, y, t);
		kripto_hash_destroy(p); p = kripto_hash_create(d, 0, salt, s, o); ks_assert(p != 0, "creation failed");
		for(pos = 0; pos < n; pos += l) { l = h_piece(w, b, 1, pos, n); kripto_hash_input(p, msg + pos, l); }
		for(pos = 0; pos < t; pos += l) { l = t > o ? h_piece(w, b, 1, pos, t) : t; kripto_hash_output(p, x + pos, l); }
		ks_eq(x, y, t, "digest of the pieces");
	}
	kripto_hash_destroy(p); free(msg); free(salt); free(x); free(y);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* f: 0 encrypt, 1 decrypt, 2 generate; what: 0 pieces, 1 against the frozen reference,
   2 against the definition of the mode, 3 decryption of the encryption */
static void h_do(int f, kripto_stream *s, const uint8_t *in, uint8_t *out, unsigned n)
{
	if(f == 0) kripto_stream_encrypt(s, in, out, n);
	else if(f == 1) kripto_stream_decrypt(s, in, out, n);
	else kripto_stream_prng(s, out, n);
}
void stream_big(void)
{
	int t = ks_param("t", 0), f = ks_param("f", 0), what = ks_param("what", 0), w, ip = ks_param("ip", 0); const kripto_desc_stream *d = h_stream(t);
	unsigned n = (unsigned)ks_param("n", 600), pre = (unsigned)ks_param("pre", 0), k = (unsigned)ks_param("k", 16), i = (unsigned)ks_param("i", 8), b = (unsigned)ks_param("b", 64), bs = (unsigned)ks_param("bs", 8), pos, l, m, j, r = (unsigned)ks_param("r", 0);
	uint8_t *in = h_data(n, pre), *x = malloc(n + 1), *y = malloc(n + 1), *key = malloc(k + 1), *iv = malloc(i + 1); kripto_stream *s, *e; void *q;
	if(ks_param("ck", 0)) for(j = 0; j < k; j++) key[j] = (uint8_t)(j * 57 + 3); else ks_secret(key, k, "key");
	if(ks_param("ci", 0)) for(j = 0; j < i; j++) iv[j] = (uint8_t)(j * 77 + 200); else ks_sym(iv, i, "iv");
	if(ks_param("ci", 0) > 1) { ks_sym(iv, i - 2, "iv"); iv[i - 2] = ks_param("ci", 0) == 2 ? 0xFF : 0x10; iv[i - 1] = 0xFB; }
	s = kripto_stream_create(d, r, key, k, iv, i); ks_assert(s != 0, "creation failed");
	m = kripto_stream_multof(s);
	x[n] = 0x5A; y[n] = 0x5A;
	if(what == 1)
	{
		q = ref_kripto_stream_create(g_stream(t), r, key, k, iv, i);
		if(f == 2) ref_kripto_stream_prng(q, y, n); else if(f == 1) ref_kripto_stream_decrypt(q, in, y, n); else ref_kripto_stream_encrypt(q, in, y, n);
		ref_kripto_stream_destroy(q);
		h_do(f, s, in, x, n); ks_eq(x, y, n, "output");
	}
	else if(what == 2)
	{
		uint8_t c[64], z[64], *in2 = in; const unsigned F = 100 + r;
		if(ip) { memcpy(x, in, n); h_do(f, s, x, x, n); } else h_do(f, s, in, x, n);
		if(f == 2) { in2 = malloc(n); memset(in2, 0, n); }
		for(j = 0; j < bs; j++) c[j] = j < i ? iv[j] : 0;
		for(pos = 0; pos < n; pos += bs)
		{
			l = n - pos < bs ? n - pos : bs;
			switch(t)
			{
				case T_ecb: ks_perm(F, f, key, k, in2 + pos, y + pos, bs); break;
				case T_cbc:
					if(f) { ks_perm(F, 1, key, k, in2 + pos, z, bs); for(j = 0; j < bs; j++) { y[pos + j] = z[j] ^ c[j]; c[j] = in2[pos + j]; } }
					else { for(j = 0; j < bs; j++) z[j] = in2[pos + j] ^ c[j]; ks_perm(F, 0, key, k, z, c, bs); memcpy(y + pos, c, bs); }
					break;
				case T_cfb: ks_perm(F, 0, key, k, c, z, bs); for(j = 0; j < l; j++) { y[pos + j] = in2[pos + j] ^ z[j]; c[j] = f == 1 ? in2[pos + j] : y[pos + j]; } break;
				case T_ofb: ks_perm(F, 0, key, k, c, z, bs); memcpy(c, z, bs); for(j = 0; j < l; j++) y[pos + j] = in2[pos + j] ^ z[j]; break;
				case T_ctr:
					ks_perm(F, 0, key, k, c, z, bs); for(j = 0; j < l; j++) y[pos + j] = in2[pos + j] ^ z[j];
					{ unsigned v = 1; for(j = bs; j-- > 0; ) { v += c[j]; c[j] = (uint8_t)v; v >>= 8; } }
					break;
			}
		}
		ks_eq(x, y, n, "output of the mode");
		if(f == 2) free(in2);
	}
	else
	{
		w = ks_param("w", -1); if(w < 0) w = ks_choose(0, H_PATTERNS - 1, "pieces");
		h_do(f, s, in, y, n);
		e = kripto_stream_create(d, r, key, k, iv, i); ks_assert(e != 0, "creation failed");
		if(what == 3)
		{
			if(ip) memcpy(x, y, n);
			for(pos = 0; pos < n; pos += l) { l = h_piece(w, b, m, pos, n); h_do(!f, e, ip ? x + pos : y + pos, x + pos, l); }
			ks_eq(x, in, n, "decryption of the encryption");
		}
		else
		{
			if(ip) memcpy(x, in, n);
			for(pos = 0; pos < n; pos += l) { l = h_piece(w, b, m, pos, n); h_do(f, e, ip ? x + pos : in + pos, x + pos, l); }
			ks_eq(x, y, n, "output of the pieces");
		}
		kripto_stream_destroy(e);
	}
	ks_assert(x[n] == 0x5A && y[n] == 0x5A, "byte behind the output");
	kripto_stream_destroy(s); h_stream_done(t, d); free(in); free(x); free(y); free(key); free(iv);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* what: 0 pieces, 1 the definition or the frozen reference */
void mac_big(void)
{
	int m = ks_param("m", M_hmac), what = ks_param("what", 0), w; const kripto_desc_mac *d = h_mac(m);
	unsigned n = (unsigned)ks_param("n", 600), pre = (unsigned)ks_param("pre", 0), k = (unsigned)ks_param("k", 16), t = (unsigned)ks_param("t", 8), b = (unsigned)ks_param("b", 16), r = (unsigned)ks_param("r", 0), pos, l, j;
	uint8_t *msg = h_data(n, pre), *key = malloc(k + 1), x[136], y[136]; kripto_mac *s; void *q;
	if(ks_param("ck", 0)) { for(j = 0; j < k; j++) key[j] = (uint8_t)(j * 57 + 3); } else ks_secret(key, k, "key");
	s = kripto_mac_create(d, r, key, k, t); ks_assert(s != 0, "creation failed");
	kripto_mac_input(s, msg, n); kripto_mac_tag(s, x, t);
	if(what)
	{
		if(m == M_hmac) ref_hmac((unsigned)ks_param("hb", 16), r, key, k, msg, n, y, t);
		else if(m == M_omac) ref_omac((unsigned)ks_param("bs", 8), r, key, k, msg, n, y, t);
		else if(m == M_xcbc) ref_xcbc((unsigned)ks_param("bs", 8), r, key, k, msg, n, y, t);
		else { q = ref_kripto_mac_create(g_mac(m), r, key, k, t); ref_kripto_mac_input(q, msg, n); ref_kripto_mac_tag(q, y, t); ref_kripto_mac_destroy(q); }
		ks_eq(x, y, t, "tag");
		ks_assert(kripto_mac_all(d, r, key, k, msg, n, x, t) == 0, "kripto_mac_all failed"); ks_eq(x, y, t, "kripto_mac_all");
	}
	else
	{
		w = ks_param("w", -1); if(w < 0) w = ks_choose(0, H_PATTERNS - 1, "pieces");
		kripto_mac_destroy(s); s = kripto_mac_create(d, r, key, k, t); ks_assert(s != 0, "creation failed");
		for(pos = 0; pos < n; pos += l) { l = h_piece(w, b, 1, pos, n); kripto_mac_input(s, msg + pos, l); }
		kripto_mac_tag(s, y, t); ks_eq(y, x, t, "tag of the pieces");
	}
	kripto_mac_destroy(s); h_mac_done(m, d); free(msg); free(key);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
