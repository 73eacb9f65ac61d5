/* X05: the limits the descriptors report. Tables for the concrete algorithms; the
   descriptors of modes, MACs and AE are built over descriptors whose limits are
   symbolic, so their fields are decided for every underlying primitive. */
#include "ciphers.h"
#include "hashes.h"
#include "streams.h"
#include "macs.h"
#include <kripto/ae.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#include <limits.h>
#define P(n, d) ((unsigned)ks_param(n, d))
#define SAME(x, y, m) do { unsigned h_x = (x), h_y = (y); ks_eq(&h_x, &h_y, sizeof h_x, m); } while(0)
static const unsigned h_bt[][3] = { {12,12,0},{16,32,0},{16,40,0},{16,32,0},{8,56,0},{16,32,0},{8,16,0},{8,16,0},{8,24,0},{8,16,0},{8,16,0},{16,32,0},{16,16,0},{8,128,0},{8,255,0},{16,255,0},{8,16,0},{16,32,0},{32,32,0},{8,16,0},{8,16,0},{16,32,0},{16,16,0},{16,32,0},{32,64,0},{4,8,0},{8,16,0},{16,32,0},{8,10,0},{16,16,0},{4,8,0},{8,16,0},{16,32,0},{8,16,0},{32,32,16},{64,64,16},{128,128,16},{32,32,16},{16,16,8},{16,32,0},{8,16,0},{8,32,0},{8,32,0} };
static const unsigned h_ht[][3] = { {32,16,64},{64,16,128},{32,8,64},{64,32,128},{0,0,200},{0,0,100},{16,0,64},{20,0,64},{32,0,64},{64,0,128},{64,0,200},{0,UINT_MAX,128},{0,UINT_MAX,32},{0,UINT_MAX,64},{24,0,64},{64,0,64} };
static const unsigned h_tt[][2] = { {32,24},{32,24},{256,0},{99,UINT_MAX},{49,UINT_MAX},{UINT_MAX,UINT_MAX},{UINT_MAX,UINT_MAX},{UINT_MAX,UINT_MAX} };
static const unsigned h_mt[][2] = { {99,UINT_MAX},{49,UINT_MAX},{32,UINT_MAX},{64,UINT_MAX},{128,UINT_MAX} };
static unsigned h_any(const char *n) { unsigned x = 0; ks_sym(&x, sizeof x, n); return x; }
void d_block(void)
{
	int c = ks_choose(0, C_N - 1, "cipher"), k; unsigned m; const kripto_desc_block *d = h_cipher(c); uint8_t key[256]; kripto_block *s;
	ks_assert(d != 0, "descriptor");
	SAME(kripto_block_size(d), h_bt[c][0], "block size"); SAME(kripto_block_maxkey(d), h_bt[c][1], "largest key"); SAME(kripto_block_maxtweak(d), h_bt[c][2], "largest tweak");
	memset(key, 5, sizeof key); m = h_bt[c][1];
	for(k = 0; k < 2; k++)
	{
		s = kripto_block_create(d, 0, key, k ? 1 : m); ks_assert(s != 0, "creation failed"); ks_assert(kripto_block_getdesc(s) == d, "descriptor of the object");
		s = kripto_block_recreate(s, 0, key, k ? m : 1); ks_assert(s != 0, "creation failed"); ks_assert(kripto_block_getdesc(s) == d, "descriptor of the object");
		if(h_bt[c][2]) { kripto_block_tweak(s, key, h_bt[c][2]); ks_assert(kripto_block_getdesc(s) == d, "descriptor of the object"); }
		kripto_block_destroy(s);
	}
	if(c >= C_gost_cbr) free((void *)d);
	ks_cover("end");
}
void d_hash(void)
{
	int c = ks_choose(0, H_N - 1, "hash"); const kripto_desc_hash *d = h_hash(c); kripto_hash *s; uint8_t in[4] = { 1 }, out[64]; unsigned o, salt; uint8_t sa[64];
	SAME(kripto_hash_maxout(d), h_ht[c][0], "largest output"); SAME(kripto_hash_maxsalt(d), h_ht[c][1], "largest salt"); SAME(kripto_hash_blocksize(d), h_ht[c][2], "block size");
	o = h_ht[c][0] ? h_ht[c][0] : 32; salt = h_ht[c][1] < 64 ? h_ht[c][1] : 64; memset(sa, 3, 64);
	s = kripto_hash_create(d, 0, sa, salt, o); ks_assert(s != 0, "creation failed"); ks_assert(kripto_hash_getdesc(s) == d, "descriptor of the object");
	kripto_hash_input(s, in, 4); kripto_hash_output(s, out, o); ks_assert(kripto_hash_getdesc(s) == d, "descriptor of the object");
	s = kripto_hash_recreate(s, 0, sa, 0, 1); ks_assert(s != 0, "creation failed"); ks_assert(kripto_hash_getdesc(s) == d, "descriptor of the object");
	kripto_hash_destroy(s); ks_cover("end");
}
void d_stream(void)
{
	int c = ks_choose(0, T_skein1024, "stream"); const kripto_desc_stream *d = h_stream(c); kripto_stream *s; uint8_t key[256], y[8]; unsigned k, i;
	SAME(kripto_stream_maxkey(d), h_tt[c][0], "largest key"); SAME(kripto_stream_maxiv(d), h_tt[c][1], "largest IV");
	memset(key, 5, sizeof key); k = h_tt[c][0] < 256 ? h_tt[c][0] : 256; i = h_tt[c][1] < 64 ? h_tt[c][1] : 64;
	s = kripto_stream_create(d, 0, key, k, key, i); ks_assert(s != 0, "creation failed"); ks_assert(kripto_stream_getdesc(s) == d, "descriptor of the object"); SAME(kripto_stream_multof(s), 1, "granularity");
	kripto_stream_encrypt(s, key, y, 3);
	s = kripto_stream_recreate(s, 0, key, 1, key, 0); ks_assert(s != 0, "creation failed"); ks_assert(kripto_stream_getdesc(s) == d, "descriptor of the object"); SAME(kripto_stream_multof(s), 1, "granularity");
	kripto_stream_destroy(s); ks_cover("end");
}
void d_mac(void)
{
	int c = ks_choose(M_keccak1600, M_N - 1, "mac"); const kripto_desc_mac *d = h_mac(c); kripto_mac *s; uint8_t key[64], tg[128]; unsigned t = h_mt[c - M_keccak1600][0];
	SAME(kripto_mac_maxtag(d), t, "largest tag"); SAME(kripto_mac_maxkey(d), h_mt[c - M_keccak1600][1], "largest key");
	memset(key, 5, sizeof key);
	s = kripto_mac_create(d, 0, key, 64, t); ks_assert(s != 0, "creation failed"); ks_assert(kripto_mac_getdesc(s) == d, "descriptor of the object");
	kripto_mac_input(s, key, 3); kripto_mac_tag(s, tg, t);
	s = kripto_mac_recreate(s, 0, key, 1, 1); ks_assert(s != 0, "creation failed"); ks_assert(kripto_mac_getdesc(s) == d, "descriptor of the object");
	kripto_mac_destroy(s); ks_cover("end");
}
/* descriptors over primitives with arbitrary limits */
void d_over(void)
{
	kripto_desc_block b; kripto_desc_hash h; kripto_desc_stream t; kripto_desc_mac m; const kripto_desc_stream *sd; const kripto_desc_mac *md; const kripto_desc_ae *ad; int i; unsigned bs, mk, ho, hb, sk, si, mt, mm, sum;
	b = *h_stub_block(8); h = *h_stub_hash(16, 12); t = *h_stub_stream(32, 16); m = *h_stub_mac(16, 64);
	bs = h_any("blocksize"); mk = h_any("maxkey"); hb = h_any("hash block"); ho = h_any("hash maxout"); sk = h_any("stream maxkey"); si = h_any("stream maxiv"); mt = h_any("mac maxtag"); mm = h_any("mac maxkey");
	ks_assume(bs >= 1 && bs <= 255); ks_assume(mk >= 1); ks_assume(ho >= 1 && hb >= 1); ks_assume(sk >= 1 && mt >= 1 && mm >= 1);
	b.blocksize = bs; b.maxkey = mk; h.blocksize = hb; h.maxout = ho; t.maxkey = sk; t.maxiv = si; m.maxtag = mt; m.maxkey = mm;
	for(i = T_cbc; i < T_N; i++)
	{
		sd = h_stream_over(i, &b); ks_assert(sd != 0, "descriptor");
		SAME(kripto_stream_maxkey(sd), mk, "largest key of a mode"); SAME(kripto_stream_maxiv(sd), i == T_ecb ? 0 : bs, "largest IV of a mode");
		free((void *)sd);
	}
	for(i = 0; i < 2; i++)
	{
		md = i ? kripto_mac_omac(&b) : kripto_mac_xcbc(&b); ks_assert(md != 0, "descriptor");
		SAME(kripto_mac_maxtag(md), bs, "largest tag of a cipher MAC"); SAME(kripto_mac_maxkey(md), mk, "largest key of a cipher MAC"); free((void *)md);
	}
	md = kripto_mac_hmac(&h); ks_assert(md != 0, "descriptor"); SAME(kripto_mac_maxtag(md), ho, "largest tag of HMAC"); SAME(kripto_mac_maxkey(md), UINT_MAX, "largest key of HMAC"); free((void *)md);
	ad = kripto_ae_eax(&b); ks_assert(ad != 0, "descriptor"); SAME(kripto_ae_maxkey(ad), mk, "largest key of EAX"); SAME(kripto_ae_maxiv(ad), bs, "largest nonce of EAX"); SAME(kripto_ae_maxtag(ad), bs, "largest tag of EAX"); free((void *)ad);
	ad = kripto_ae_eax2(&t, &m); ks_assert(ad != 0, "descriptor");
	sum = sk > UINT_MAX - mm ? UINT_MAX : sk + mm;
	SAME(kripto_ae_maxkey(ad), sum, "largest key of EAX2"); SAME(kripto_ae_maxiv(ad), si, "largest nonce of EAX2"); SAME(kripto_ae_maxtag(ad), mt, "largest tag of EAX2"); free((void *)ad);
	ks_cover("end");
}
/* objects over them: descriptor and granularity, at the limits, after any re-creation */
void d_modes(void)
{
	int i = ks_choose(T_cbc, T_N - 1, "mode"), j; unsigned bs = P("bs", 8), n = i == T_ecb ? 0 : bs; const kripto_desc_stream *d = h_stream_over(i, h_stub_block(bs)); kripto_stream *s; uint8_t key[64], iv[256], x[256];
	ks_sym(key, 64, "key"); ks_sym(iv, 256, "iv"); ks_sym(x, 256, "data");
	ks_assert(d != 0, "descriptor");
	s = kripto_stream_create(d, 0, key, 64, iv, n);
	for(j = 0; j < 3; j++)
	{
		ks_assert(s != 0, "creation failed"); ks_assert(kripto_stream_getdesc(s) == d, "descriptor of the object"); SAME(kripto_stream_multof(s), i == T_cbc || i == T_ecb ? bs : 1, "granularity of a mode");
		kripto_stream_encrypt(s, x, x, bs); ks_assert(kripto_stream_getdesc(s) == d, "descriptor of the object"); SAME(kripto_stream_multof(s), i == T_cbc || i == T_ecb ? bs : 1, "granularity of a mode");
		if(j < 2) s = kripto_stream_recreate(s, (unsigned)j, key, j ? 64 : 1, iv, j ? n : 0);
	}
	kripto_stream_destroy(s); free((void *)d); ks_cover("end");
}
void d_macs(void)
{
	int i = ks_choose(M_hmac, M_xcbc, "mac"), j; unsigned bs = P("bs", 8); const kripto_desc_mac *d = i == M_hmac ? kripto_mac_hmac(h_stub_hash(2 * bs, bs)) : i == M_omac ? kripto_mac_omac(h_stub_block(bs)) : kripto_mac_xcbc(h_stub_block(bs)); kripto_mac *s; uint8_t key[64], x[256];
	ks_sym(key, 64, "key"); ks_sym(x, 256, "data"); ks_assert(d != 0, "descriptor");
	s = kripto_mac_create(d, 0, key, 64, bs);
	for(j = 0; j < 3; j++)
	{
		ks_assert(s != 0, "creation failed"); ks_assert(kripto_mac_getdesc(s) == d, "descriptor of the object");
		kripto_mac_input(s, x, bs); kripto_mac_tag(s, x, j == 1 ? 1 : bs); ks_assert(kripto_mac_getdesc(s) == d, "descriptor of the object");
		if(j < 2) s = kripto_mac_recreate(s, (unsigned)j, key, j ? 64 : 1, j ? bs : 1);
	}
	kripto_mac_destroy(s); free((void *)d); ks_cover("end");
}
void d_aes(void)
{
	int a = ks_choose(0, 1, "mode"), j; unsigned bs = P("bs", 8), si = P("si", 16), k = a ? 96 : 64; const kripto_desc_ae *d = a ? kripto_ae_eax2(h_stub_stream(32, si), h_stub_mac(bs, 64)) : kripto_ae_eax(h_stub_block(bs)); kripto_ae *s; uint8_t key[96], iv[64], x[128]; unsigned ni = a ? si : bs;
	ks_sym(key, 96, "key"); ks_sym(x, 128, "data"); ks_sym(iv, 64, "iv"); ks_assert(d != 0, "descriptor");
	s = kripto_ae_create(d, 0, key, k, iv, ni, bs);
	for(j = 0; j < 3; j++)
	{
		ks_assert(s != 0, "creation failed"); ks_assert(kripto_ae_getdesc(s) == d, "descriptor of the object"); SAME(kripto_ae_multof(s), 1, "granularity of AE");
		kripto_ae_encrypt(s, x, x, 5); kripto_ae_tag(s, x, j == 1 ? 1 : bs); ks_assert(kripto_ae_getdesc(s) == d, "descriptor of the object"); SAME(kripto_ae_multof(s), 1, "granularity of AE");
		if(j < 2) s = kripto_ae_recreate(s, (unsigned)j, key, j ? k : 2, iv, j ? ni : 0, j ? bs : 1);
	}
	kripto_ae_destroy(s); free((void *)d); ks_cover("end");
}
