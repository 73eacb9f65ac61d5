/* Primitives the modes are instantiated with: an arbitrary keyed permutation as
   the block cipher, arbitrary functions as hash, MAC and stream cipher. Their
   results are uninterpreted functions of everything they may depend on. */
#ifndef STUBS_H
#define STUBS_H
#include "ks.h"
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/desc/block.h>
#include <kripto/desc/hash.h>
#include <kripto/desc/mac.h>
#include <kripto/desc/stream.h>
#ifndef H_KCAP
#define H_KCAP 256
#endif
#ifndef H_CAP
#define H_CAP 512
#endif
/* --- block cipher --- */
struct h_blk { const kripto_desc_block *desc; unsigned r, klen, bs; uint8_t key[256]; };
static kripto_block *h_blk_create(const kripto_desc_block *d, unsigned r, const void *key, unsigned klen)
{
	struct h_blk *s = malloc(sizeof *s);
	if(!s) return 0;
	s->desc = d; s->r = r; s->klen = klen; s->bs = d->blocksize;
	memcpy(s->key, key, klen);
	return (kripto_block *)s;
}
static void h_blk_destroy(kripto_block *b) { memset(b, 0, sizeof(struct h_blk)); free(b); }
static kripto_block *h_blk_recreate(kripto_block *b, unsigned r, const void *key, unsigned klen)
{
	/* moves, like the ciphers whose size depends on the rounds */
	const kripto_desc_block *d = ((struct h_blk *)b)->desc;
	h_blk_destroy(b);
	return h_blk_create(d, r, key, klen);
}
static void h_blk_tweak(kripto_block *b, const void *t, unsigned n) { (void)b; (void)t; (void)n; }
static void h_blk_encrypt(const kripto_block *b, const void *pt, void *ct)
{
	const struct h_blk *s = (const struct h_blk *)b;
	ks_perm(100 + s->r, 0, s->key, s->klen, pt, ct, s->bs);
}
static void h_blk_decrypt(const kripto_block *b, const void *ct, void *pt)
{
	const struct h_blk *s = (const struct h_blk *)b;
	ks_perm(100 + s->r, 1, s->key, s->klen, ct, pt, s->bs);
}
static kripto_desc_block h_blk_desc;
static const kripto_desc_block *h_stub_block(unsigned bs)
{
	kripto_desc_block d = { h_blk_create, h_blk_recreate, h_blk_tweak, h_blk_encrypt, h_blk_decrypt, h_blk_destroy, 0, 64, 0 };
	d.blocksize = bs; if(bs > 64) d.maxkey = bs; h_blk_desc = d; return &h_blk_desc;
}
/* --- hash: output = F(rounds, out_len, message), any length up to H_CAP --- */
struct h_hsh { const kripto_desc_hash *desc; unsigned r, out, n, pos; uint8_t m[H_CAP]; };
static kripto_hash *h_hsh_recreate(kripto_hash *h, unsigned r, const void *salt, unsigned sl, unsigned out)
{
	struct h_hsh *s = (struct h_hsh *)h; (void)salt; (void)sl;
	s->r = r; s->out = out; s->n = s->pos = 0; return h;
}
static kripto_hash *h_hsh_create(const kripto_desc_hash *d, unsigned r, const void *salt, unsigned sl, unsigned out)
{
	struct h_hsh *s = malloc(sizeof *s);
	if(!s) return 0;
	s->desc = d; return h_hsh_recreate((kripto_hash *)s, r, salt, sl, out);
}
/* a stub takes all n bytes, also where it could not keep them (h_far) */
static void h_touch(const void *in, size_t n) { if(n > H_CAP) (void)*(const volatile uint8_t *)((const uint8_t *)in + n - 1); }
static void h_hsh_input(kripto_hash *h, const void *in, size_t n)
{
	struct h_hsh *s = (struct h_hsh *)h;
	h_touch(in, n); ks_assert(s->n + n <= H_CAP, "stub hash: message too long"); if(n) memcpy(s->m + s->n, in, n); s->n += (unsigned)n;
}
static void h_hsh_f(unsigned r, unsigned out, const uint8_t *m, unsigned n, uint8_t *res, unsigned len)
{
	uint8_t t[H_CAP + 8];
	t[0] = (uint8_t)r; t[1] = (uint8_t)out; memcpy(t + 2, m, n);
	ks_uf(7, t, n + 2, res, len);
}
static void h_hsh_output(kripto_hash *h, void *o, size_t n)
{
	struct h_hsh *s = (struct h_hsh *)h; uint8_t t[256];
	ks_assert(s->pos + n <= 256, "stub hash: output too long");
	h_hsh_f(s->r, s->out, s->m, s->n, t, s->pos + (unsigned)n);
	memcpy(o, t + s->pos, n); s->pos += (unsigned)n;
}
static void h_hsh_destroy(kripto_hash *h) { memset(h, 0, sizeof(struct h_hsh)); free(h); }
static int h_hsh_all(const kripto_desc_hash *d, unsigned r, const void *salt, unsigned sl, const void *in, size_t n, void *out, size_t on)
{
	uint8_t t[256]; (void)d; (void)salt; (void)sl;
	h_hsh_f(r, (unsigned)on, in, (unsigned)n, t, (unsigned)on); memcpy(out, t, on); return 0;
}
static kripto_desc_hash h_hsh_desc;
static const kripto_desc_hash *h_stub_hash(unsigned bs, unsigned maxout)
{
	kripto_desc_hash d = { h_hsh_create, h_hsh_recreate, h_hsh_input, h_hsh_output, h_hsh_destroy, h_hsh_all, 0, 0, 0 };
	d.maxout = maxout; d.blocksize = bs; h_hsh_desc = d; return &h_hsh_desc;
}
/* --- MAC: tag = G(rounds, tag_len, key, message) --- */
struct h_mc { const kripto_desc_mac *desc; unsigned r, tag, klen, n; uint8_t key[H_KCAP], m[H_CAP]; };
static int h_mac_move;
static kripto_mac *h_mc_create(const kripto_desc_mac *d, unsigned r, const void *key, unsigned klen, unsigned tag)
{
	struct h_mc *s = malloc(sizeof *s);
	if(!s) return 0;
	ks_assert(klen <= H_KCAP, "stub MAC: key too long"); ks_assert(klen <= d->maxkey, "MAC key longer than the limit"); ks_assert(tag <= d->maxtag, "MAC tag longer than the limit");
	s->desc = d; s->r = r; s->tag = tag; s->klen = klen; s->n = 0; memcpy(s->key, key, klen);
	return (kripto_mac *)s;
}
static void h_mc_destroy(kripto_mac *m) { memset(m, 0, sizeof(struct h_mc)); free(m); }
static kripto_mac *h_mc_recreate(kripto_mac *m, unsigned r, const void *key, unsigned klen, unsigned tag)
{
	const kripto_desc_mac *d = ((struct h_mc *)m)->desc;
	uint8_t k[H_KCAP];
	if(h_mac_move) { memcpy(k, key, klen); h_mc_destroy(m); return h_mc_create(d, r, k, klen, tag); }
	{
		struct h_mc *s = (struct h_mc *)m;
		ks_assert(klen <= H_KCAP, "stub MAC: key too long"); ks_assert(klen <= d->maxkey, "MAC key longer than the limit"); ks_assert(tag <= d->maxtag, "MAC tag longer than the limit");
		s->r = r; s->tag = tag; s->klen = klen; s->n = 0; memcpy(s->key, key, klen);
	}
	return m;
}
static void h_mc_input(kripto_mac *m, const void *in, size_t n)
{
	struct h_mc *s = (struct h_mc *)m;
	h_touch(in, n); ks_assert(s->n + n <= H_CAP, "stub MAC: message too long"); if(n) memcpy(s->m + s->n, in, n); s->n += (unsigned)n;
}
static void h_mc_f(unsigned r, unsigned tl, const uint8_t *key, unsigned klen, const uint8_t *m, unsigned n, uint8_t *tag, unsigned len)
{
	uint8_t t[H_CAP + H_KCAP + 44], o[256];
	t[0] = (uint8_t)r; t[1] = (uint8_t)tl; t[2] = (uint8_t)klen; t[3] = (uint8_t)(klen >> 8); memcpy(t + 4, key, klen); memcpy(t + 4 + klen, m, n);
	ks_uf(8, t, 4 + klen + n, o, tl); memcpy(tag, o, len);
}
static void h_mc_tag(kripto_mac *m, void *tag, unsigned len)
{
	struct h_mc *s = (struct h_mc *)m;
	ks_assert(len <= s->tag, "more tag bytes requested than the MAC was created for");
	h_mc_f(s->r, s->tag, s->key, s->klen, s->m, s->n, tag, len);
}
static kripto_desc_mac h_mc_desc;
static const kripto_desc_mac *h_stub_mac(unsigned maxtag, unsigned maxkey)
{
	kripto_desc_mac d = { h_mc_create, h_mc_recreate, h_mc_input, h_mc_tag, h_mc_destroy, 0, 0 };
	d.maxtag = maxtag; d.maxkey = maxkey; h_mc_desc = d; return &h_mc_desc;
}
/* --- stream: keystream = K(rounds, key, iv) --- */
struct h_str { const kripto_desc_stream *desc; unsigned multof; unsigned r, klen, ivlen, pos; uint8_t key[128], iv[64]; };
static kripto_stream *h_str_recreate(kripto_stream *p, unsigned r, const void *key, unsigned klen, const void *iv, unsigned ivlen)
{
	struct h_str *s = (struct h_str *)p;
	s->r = r; s->klen = klen; s->ivlen = ivlen; s->pos = 0; memcpy(s->key, key, klen); if(ivlen) memcpy(s->iv, iv, ivlen);
	return p;
}
static kripto_stream *h_str_create(const kripto_desc_stream *d, unsigned r, const void *key, unsigned klen, const void *iv, unsigned ivlen)
{
	struct h_str *s = malloc(sizeof *s);
	if(!s) return 0;
	s->desc = d; s->multof = 1;
	return h_str_recreate((kripto_stream *)s, r, key, klen, iv, ivlen);
}
static void h_str_f(unsigned r, const uint8_t *key, unsigned klen, const uint8_t *iv, unsigned ivlen, unsigned pos, uint8_t *out)
{
	uint8_t t[256];
	t[0] = (uint8_t)r; t[1] = (uint8_t)klen; t[2] = (uint8_t)ivlen; t[3] = (uint8_t)pos; t[4] = (uint8_t)(pos >> 8); memcpy(t + 5, key, klen); memcpy(t + 5 + klen, iv, ivlen);
	ks_uf(9, t, 5 + klen + ivlen, out, 1);
}
static void h_str_crypt(kripto_stream *p, const void *in, void *out, size_t n)
{
	struct h_str *s = (struct h_str *)p; size_t i; uint8_t k;
	for(i = 0; i < n; i++) { h_str_f(s->r, s->key, s->klen, s->iv, s->ivlen, s->pos++, &k); ((uint8_t *)out)[i] = ((const uint8_t *)in)[i] ^ k; }
}
static void h_str_prng(kripto_stream *p, void *out, size_t n)
{
	struct h_str *s = (struct h_str *)p; size_t i;
	for(i = 0; i < n; i++) h_str_f(s->r, s->key, s->klen, s->iv, s->ivlen, s->pos++, (uint8_t *)out + i);
}
static void h_str_destroy(kripto_stream *p) { memset(p, 0, sizeof(struct h_str)); free(p); }
static kripto_desc_stream h_str_desc;
static const kripto_desc_stream *h_stub_stream(unsigned maxkey, unsigned maxiv)
{
	kripto_desc_stream d = { h_str_create, h_str_recreate, h_str_crypt, h_str_crypt, h_str_prng, h_str_destroy, 0, 0 };
	d.maxkey = maxkey; d.maxiv = maxiv; h_str_desc = d; return &h_str_desc;
}
#endif
