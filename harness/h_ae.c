/* A01, A02: EAX over the stub block cipher (bs) and EAX2 over the stub stream and
   MAC (maxkeys sk, mk; maximum IV si; maximum tag mt). Lengths: key k, nonce i,
   header h, message n, tag t; a negative length means every length up to it. */
#define H_CAP 1600
#include "ref_mac.h"
#include <kripto/ae.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#define MX 1100
static const kripto_desc_ae *h_aedesc(void)
{
	const kripto_desc_ae *d;
	h_mac_move = ks_param("move", 0);
	if(ks_param("a", 0)) d = kripto_ae_eax2(h_stub_stream((unsigned)ks_param("sk", 32), (unsigned)ks_param("si", 16)), h_stub_mac((unsigned)ks_param("mt", 16), (unsigned)ks_param("mk", 64)));
	else d = kripto_ae_eax(h_stub_block((unsigned)ks_param("bs", 8)));
	ks_assert(d != 0, "no descriptor");
	return d;
}
static unsigned h_len(const char *p, int dflt, const char *nm)
{
	int n = ks_param(p, dflt);
	return n < 0 ? (unsigned)ks_choose(ks_param("lo", 0), -n, nm) : (unsigned)n;
}
/* OMAC^t_K(M) of the EAX paper: OMAC_K([t]_n || M) */
static void ref_omact(unsigned b, unsigned r, const uint8_t *key, unsigned k, unsigned tw, const uint8_t *m, unsigned n, uint8_t *out)
{
	uint8_t x[MX + 136];
	memset(x, 0, b); x[b - 1] = (uint8_t)tw; memcpy(x + b, m, n);
	ref_omac(b, r, key, k, x, b + n, out, b);
}
static void ref_eax(unsigned b, unsigned r, const uint8_t *key, unsigned k, const uint8_t *iv, unsigned i, const uint8_t *h, unsigned hn, const uint8_t *pt, unsigned n, uint8_t *ct, uint8_t *tag, unsigned t)
{
	uint8_t N[128], c[128], s[128], H[128], C[128]; unsigned j, p;
	ref_omact(b, r, key, k, 0, iv, i, N); memcpy(c, N, b);
	for(p = 0; p < n; p += b)
	{
		ks_perm(100 + r, 0, key, k, c, s, b);
		for(j = 0; j < b && p + j < n; j++) ct[p + j] = pt[p + j] ^ s[j];
		for(j = b; j-- > 0; ) if(++c[j]) break;
	}
	ref_omact(b, r, key, k, 1, h, hn, H); ref_omact(b, r, key, k, 2, ct, n, C);
	for(j = 0; j < t; j++) tag[j] = N[j] ^ H[j] ^ C[j];
}
/* EAX2: the MAC key is the first part of the key, the stream key the rest; the halves
   are equal, the stream's the larger, unless a limit forbids it */
static void ref_mact(unsigned r, const uint8_t *key, unsigned k, unsigned tw, unsigned t, const uint8_t *m, unsigned n, uint8_t *out)
{
	uint8_t x[MX + 136];
	memset(x, 0, t); x[t - 1] = (uint8_t)tw; memcpy(x + t, m, n);
	h_mc_f(r, t, key, k, x, t + n, out, t);
}
static void ref_eax2(unsigned r, const uint8_t *key, unsigned k, const uint8_t *iv, unsigned i, const uint8_t *h, unsigned hn, const uint8_t *pt, unsigned n, uint8_t *ct, uint8_t *tag, unsigned t)
{
	uint8_t N[128], H[128], C[128], s; unsigned j, k1, k2, si = (unsigned)ks_param("si", 16), sk = (unsigned)ks_param("sk", 32), mk = (unsigned)ks_param("mk", 64);
	k2 = k - k / 2; if(k2 > sk) k2 = sk;
	k1 = k - k2; if(k1 > mk) { k1 = mk; k2 = k - k1; }
	ref_mact(r, key, k1, 0, t, iv, i, N);
	for(j = 0; j < n; j++) { h_str_f(r, key + k1, k2, N, t < si ? t : si, j, &s); ct[j] = pt[j] ^ s; }
	ref_mact(r, key, k1, 1, t, h, hn, H); ref_mact(r, key, k1, 2, t, ct, n, C);
	for(j = 0; j < t; j++) tag[j] = N[j] ^ H[j] ^ C[j];
}
static void ref_ae(unsigned r, const uint8_t *key, unsigned k, const uint8_t *iv, unsigned i, const uint8_t *h, unsigned hn, const uint8_t *pt, unsigned n, uint8_t *ct, uint8_t *tag, unsigned t)
{
	if(ks_param("a", 0)) ref_eax2(r, key, k, iv, i, h, hn, pt, n, ct, tag, t);
	else ref_eax((unsigned)ks_param("bs", 8), r, key, k, iv, i, h, hn, pt, n, ct, tag, t);
}
static void nocarry(unsigned b, unsigned r, uint8_t *key, unsigned k, uint8_t *iv, unsigned i)
{
	uint8_t N[128]; unsigned v;
	/* the stand-in for the arbitrary cipher maps the solver's IV elsewhere: find another one */
	if(ks_native() && i > 1) for(v = 0; v < 65536; v++)
	{
		ref_omact(b, r, key, k, 0, iv, i, N); if(N[b - 1] == 0x10) break;
		iv[0] = (uint8_t)v; iv[1] = (uint8_t)(v >> 8);
	}
	ref_omact(b, r, key, k, 0, iv, i, N); ks_assume(N[b - 1] == 0x10);
}
/* tag bytes asked for: EAX any prefix, EAX2 any prefix of tag_len */
void ae_spec(void)
{
	const kripto_desc_ae *d = h_aedesc(); unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), i = h_len("i", 8, "ivlen"), hn = h_len("h", 5, "hlen"), n = h_len("n", 10, "len"), t = (unsigned)ks_param("t", 8), l, j;
	uint8_t key[MX], iv[MX], h[MX], pt[MX], ct[MX], tag[MX], x[MX], y[MX + 1], tg[MX]; kripto_ae *s; int e, same, vf;
	ks_secret(key, k, "key"); ks_sym(iv, i, "iv"); ks_sym(h, hn, "header"); ks_sym(pt, n, "pt");
	if(ks_param("nocarry", 0))
	{
		/* long messages over EAX: the counter starts at .. 10, so that it does not carry */
		nocarry((unsigned)ks_param("bs", 8), r, key, k, iv, i);
	}
	ref_ae(r, key, k, iv, i, h, hn, pt, n, ct, tag, t);
	l = ks_param("pre", 0) ? (unsigned)ks_choose(1, (int)t, "taken") : t;
	/* encrypt */
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	ks_assert(kripto_ae_getdesc(s) == d && kripto_ae_multof(s) == 1, "descriptor and granularity");
	kripto_ae_header(s, h, hn); kripto_ae_encrypt(s, pt, x, n);
	memset(tg, 0xA5, l + 1); kripto_ae_tag(s, tg, l);
	ks_eq(x, ct, n, "ciphertext"); ks_eq(tg, tag, l, "tag"); ks_assert(tg[l] == 0xA5, "byte after the tag");
	kripto_ae_destroy(s);
	/* decrypt and verify any candidate */
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	kripto_ae_header(s, h, hn); kripto_ae_decrypt(s, ct, y, n);
	ks_eq(y, pt, n, "decrypted plaintext");
	vf = ks_param("verify", 0);
	if(vf == 1)
	{
		uint8_t df; j = (unsigned)ks_choose(0, (int)l - 1, "at"); ks_sym(&df, 1, "diff");
		memcpy(tg, tag, l); tg[j] ^= df;
		e = kripto_ae_verify(s, tg, l);
		ks_assert((e != 0) == (df == 0), "verification of a tag with one byte changed");
	}
	else if(vf == 2)
	{
		ks_sym(tg, l, "candidate");
		e = kripto_ae_verify(s, tg, l);
		for(same = 1, j = 0; j < l; j++) same &= tg[j] == tag[j];
		ks_assert((e != 0) == same, "verification of an arbitrary tag");
	}
	else { kripto_ae_tag(s, tg, l); ks_eq(tg, tag, l, "tag after decryption"); }
	kripto_ae_destroy(s); free((void *)d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* A02: header and message in two pieces each, in any order, in place or not */
void ae_split(void)
{
	const kripto_desc_ae *d = h_aedesc(); unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), i = (unsigned)ks_param("i", 8), hn = (unsigned)ks_param("h", 5), n = (unsigned)ks_param("n", 10), t = (unsigned)ks_param("t", 8), a, b;
	uint8_t key[MX], iv[MX], h[MX], pt[MX], ct[MX], tag[MX], x[MX], tg[MX]; kripto_ae *s; int w, ip = ks_param("ip", 0), dec = ks_param("dec", 0);
	const uint8_t *in;
	ks_secret(key, k, "key"); ks_sym(iv, i, "iv"); ks_sym(h, hn, "header"); ks_sym(pt, n, "pt");
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	kripto_ae_header(s, h, hn);
	if(dec) kripto_ae_decrypt(s, pt, ct, n); else kripto_ae_encrypt(s, pt, ct, n);
	kripto_ae_tag(s, tag, t); kripto_ae_destroy(s);
	a = (unsigned)ks_choose(0, (int)hn, "hcut"); b = (unsigned)ks_choose(0, (int)n, "cut"); w = ks_choose(0, 5, "order");
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	in = pt; if(ip) { memcpy(x, pt, n); in = x; }
#define H1 kripto_ae_header(s, h, a)
#define H2 kripto_ae_header(s, h + a, hn - a)
#define P1 if(dec) kripto_ae_decrypt(s, in, x, b); else kripto_ae_encrypt(s, in, x, b)
#define P2 if(dec) kripto_ae_decrypt(s, in + b, x + b, n - b); else kripto_ae_encrypt(s, in + b, x + b, n - b)
	switch(w)
	{
		case 0: H1; H2; P1; P2; break;
		case 1: H1; P1; H2; P2; break;
		case 2: H1; P1; P2; H2; break;
		case 3: P1; H1; H2; P2; break;
		case 4: P1; H1; P2; H2; break;
		case 5: P1; P2; H1; H2; break;
	}
	kripto_ae_tag(s, tg, t);
	ks_eq(x, ct, n, "output of the pieces"); ks_eq(tg, tag, t, "tag of the pieces");
	kripto_ae_destroy(s); free((void *)d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* A02: long header and message in pieces of w bytes, header and message pieces taking turns */
void ae_pieces(void)
{
	const kripto_desc_ae *d = h_aedesc(); unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), i = (unsigned)ks_param("i", 8), hn = (unsigned)ks_param("h", 90), n = (unsigned)ks_param("n", 90), t = (unsigned)ks_param("t", 8), p = 0, q = 0, l, w, b = (unsigned)ks_param("b", 8);
	uint8_t key[MX], iv[MX], h[MX], pt[MX], ct[MX], tag[MX], x[MX], tg[MX]; kripto_ae *s; int ip = ks_param("ip", 0), dec = ks_param("dec", 0);
	const uint8_t *in;
	ks_secret(key, k, "key"); ks_sym(iv, i, "iv"); ks_sym(h, hn, "header"); ks_sym(pt, n, "pt");
	if(!ks_param("a", 0)) nocarry(b, r, key, k, iv, i);
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	kripto_ae_header(s, h, hn);
	if(dec) kripto_ae_decrypt(s, pt, ct, n); else kripto_ae_encrypt(s, pt, ct, n);
	kripto_ae_tag(s, tag, t); kripto_ae_destroy(s);
	switch(ks_choose(0, 7, "piece")) { case 0: w = 1; break; case 1: w = b - 1; break; case 2: w = b; break; case 3: w = b + 1; break; case 4: w = 2 * b; break; case 5: w = 4 * b + 1; break; case 6: w = 5 * b - 2; break; default: w = 3; }
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	in = pt; if(ip) { memcpy(x, pt, n); in = x; }
	while(p < hn || q < n)
	{
		l = hn - p < w ? hn - p : w; if(l) kripto_ae_header(s, h + p, l);
		p += l;
		l = n - q < w + 1 ? n - q : w + 1; if(l) { if(dec) kripto_ae_decrypt(s, in + q, x + q, l); else kripto_ae_encrypt(s, in + q, x + q, l); }
		q += l;
	}
	kripto_ae_tag(s, tg, t);
	ks_eq(x, ct, n, "output of the pieces"); ks_eq(tg, tag, t, "tag of the pieces");
	kripto_ae_destroy(s); free((void *)d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* A02: recreate; 1-parameters: before */
void ae_recreate(void)
{
	const kripto_desc_ae *d = h_aedesc(); unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), i = (unsigned)ks_param("i", 8), hn = (unsigned)ks_param("h", 3), n = (unsigned)ks_param("n", 10), t = (unsigned)ks_param("t", 8);
	unsigned k1 = (unsigned)ks_param("k1", 16), r1 = (unsigned)ks_param("r1", 0), i1 = (unsigned)ks_param("i1", 8), t1 = (unsigned)ks_param("t1", 8), hn1 = h_len("h1", 3, "oldhlen"), n1 = h_len("n1", 5, "oldlen");
	uint8_t key[MX], iv[MX], h[MX], pt[MX], ct[MX], tag[MX], x[MX], tg[MX], key1[MX], iv1[MX], old[MX]; kripto_ae *s; int w;
	ks_secret(key, k, "key"); ks_sym(iv, i, "iv"); ks_sym(h, hn, "header"); ks_sym(pt, n, "pt");
	ks_secret(key1, k1, "oldkey"); ks_sym(iv1, i1, "oldiv"); ks_sym(old, 160, "old");
	s = kripto_ae_create(d, r, key, k, iv, i, t); ks_assert(s != 0, "creation failed");
	kripto_ae_header(s, h, hn); kripto_ae_encrypt(s, pt, ct, n); kripto_ae_tag(s, tag, t); kripto_ae_destroy(s);
	s = kripto_ae_create(d, r1, key1, k1, iv1, i1, t1); ks_assert(s != 0, "creation failed");
	w = ks_choose(0, 2, "then");
	kripto_ae_header(s, old, hn1); if(w) kripto_ae_encrypt(s, old, x, n1); else kripto_ae_decrypt(s, old, x, n1);
	if(w == 2) kripto_ae_tag(s, tg, t1);
	s = kripto_ae_recreate(s, r, key, k, iv, i, t); ks_assert(s != 0, "recreation failed");
	ks_assert(kripto_ae_getdesc(s) == d && kripto_ae_multof(s) == 1, "descriptor after recreate");
	if(ks_choose(0, 1, "dec")) { kripto_ae_header(s, h, hn); kripto_ae_decrypt(s, ct, x, n); ks_eq(x, pt, n, "decryption after recreate"); }
	else { kripto_ae_header(s, h, hn); kripto_ae_encrypt(s, pt, x, n); ks_eq(x, ct, n, "encryption after recreate"); }
	kripto_ae_tag(s, tg, t); ks_eq(tg, tag, t, "tag after recreate");
	kripto_ae_destroy(s); free((void *)d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
