/* X04: two objects used in any interleaving behave as each does alone. An actor is an
   object of one type and the sequence of calls made on it: create, use, use, re-create
   and use, destroy. Each runs alone first, then both in an order chosen step by step. */
#define H_CAP 640
#include "ciphers.h"
#include "hashes.h"
#include "streams.h"
#include "macs.h"
#include <kripto/ae.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#define P(n, d) ((unsigned)ks_param(n, d))
enum { K_block, K_hash, K_stream, K_mac, K_ae };
#define STEPS 5
static const unsigned h_order[] = { 0x155, 0x2aa, 0x1e1, 0x1ce }; /* bit set: a step of the second */
struct actor
{
	int kind, id; unsigned bs, klen, k2len, n, olen;
	uint8_t key[140], key2[140], iv[64], msg[300];
	const void *desc; void *s;
	uint8_t out[4][300]; unsigned on, ol[4];
};
/* the pieces a message is handed over in */
static unsigned h_cut(const struct actor *a) { return a->kind == K_stream && (a->id == T_cbc || a->id == T_ecb) ? a->bs : a->n / 3; }
static void h_put(struct actor *a, const void *p, unsigned n) { ks_assert(a->on < 4 && n <= 300, "harness: actor output"); a->ol[a->on] = n; memcpy(a->out[a->on++], p, n); }
static const void *h_getdesc(struct actor *a)
{
	switch(a->kind)
	{
		case K_block: return h_cipher(a->id);
		case K_hash: return h_hash(a->id);
		case K_stream: return h_ismode(a->id) ? h_stream_over(a->id, h_stub_block(a->bs)) : h_stream(a->id);
		case K_mac: return a->id == M_hmac ? kripto_mac_hmac(h_stub_hash(16, 12)) : a->id == M_omac ? kripto_mac_omac(h_stub_block(a->bs)) : a->id == M_xcbc ? kripto_mac_xcbc(h_stub_block(a->bs)) : h_mac(a->id);
		default: return a->id ? (const void *)kripto_ae_eax2(h_stub_stream(32, 16), h_stub_mac(16, 64)) : (const void *)kripto_ae_eax(h_stub_block(a->bs));
	}
}
static void h_dropdesc(struct actor *a)
{
	if((a->kind == K_stream && h_ismode(a->id)) || (a->kind == K_mac && a->id < M_keccak1600) || a->kind == K_ae || (a->kind == K_block && a->id >= C_gost_cbr)) free((void *)a->desc);
}
static void h_step(struct actor *a, int step)
{
	uint8_t y[300]; unsigned c = h_cut(a), n = a->n; int again = step == 3; const uint8_t *key = again ? a->key2 : a->key; unsigned klen = again ? a->k2len : a->klen;
	switch(a->kind)
	{
		case K_block:
			if(step == 0) a->s = kripto_block_create(a->desc, 0, a->key, a->klen);
			else if(step == 4) kripto_block_destroy(a->s);
			else
			{
				if(again) a->s = kripto_block_recreate(a->s, 0, key, klen);
				ks_assert(a->s != 0, "object");
				if(step == 2) kripto_block_decrypt(a->s, a->msg, y); else kripto_block_encrypt(a->s, a->msg, y);
				h_put(a, y, kripto_block_size(a->desc));
			}
			break;
		case K_hash:
			if(step == 0) a->s = kripto_hash_create(a->desc, 0, 0, 0, a->olen);
			else if(step == 1) kripto_hash_input(a->s, a->msg, c);
			else if(step == 2) { kripto_hash_input(a->s, a->msg + c, n - c); kripto_hash_output(a->s, y, a->olen); h_put(a, y, a->olen); }
			else if(again) { a->s = kripto_hash_recreate(a->s, 0, 0, 0, a->olen); ks_assert(a->s != 0, "object"); kripto_hash_input(a->s, a->msg, c); kripto_hash_output(a->s, y, a->olen); h_put(a, y, a->olen); }
			else kripto_hash_destroy(a->s);
			break;
		case K_stream:
		{
			unsigned il = a->id == T_ecb || a->id == T_rc4 ? 0 : 8;
			if(step == 0) a->s = kripto_stream_create(a->desc, 0, a->key, a->klen, a->iv, il);
			else if(step == 1) { kripto_stream_encrypt(a->s, a->msg, y, c); h_put(a, y, c); }
			else if(step == 2) { kripto_stream_encrypt(a->s, a->msg + c, y, n - c); h_put(a, y, n - c); }
			else if(again) { a->s = kripto_stream_recreate(a->s, 0, key, klen, a->iv, il); ks_assert(a->s != 0, "object"); kripto_stream_decrypt(a->s, a->msg, y, n); h_put(a, y, n); }
			else kripto_stream_destroy(a->s);
			break;
		}
		case K_mac:
			if(step == 0) a->s = kripto_mac_create(a->desc, 0, a->key, a->klen, a->olen);
			else if(step == 1) kripto_mac_input(a->s, a->msg, c);
			else if(step == 2) { kripto_mac_input(a->s, a->msg + c, n - c); kripto_mac_tag(a->s, y, a->olen); h_put(a, y, a->olen); }
			else if(again) { a->s = kripto_mac_recreate(a->s, 0, key, klen, a->olen); ks_assert(a->s != 0, "object"); kripto_mac_input(a->s, a->msg, c); kripto_mac_tag(a->s, y, a->olen); h_put(a, y, a->olen); }
			else kripto_mac_destroy(a->s);
			break;
		default:
			if(step == 0) a->s = kripto_ae_create(a->desc, 0, a->key, a->klen, a->iv, 8, a->olen);
			else if(step == 1) { kripto_ae_header(a->s, a->iv, 5); kripto_ae_encrypt(a->s, a->msg, y, c); h_put(a, y, c); }
			else if(step == 2) { kripto_ae_encrypt(a->s, a->msg + c, y, n - c); h_put(a, y, n - c); kripto_ae_tag(a->s, y, a->olen); h_put(a, y, a->olen); }
			else if(again) { a->s = kripto_ae_recreate(a->s, 0, key, klen, a->iv, 8, a->olen); ks_assert(a->s != 0, "object"); kripto_ae_decrypt(a->s, a->msg, y, c); h_put(a, y, c); }
			else kripto_ae_destroy(a->s);
	}
	ks_assert(a->s != 0, "object");
}
/* parameters: kind, id, k, k2, n, o, bs of the first; the same with suffix b of the second; sched: one order, -1 all */
static void h_setup(struct actor *a, int b)
{
	a->kind = (int)P(b ? "kindb" : "kind", 0); a->id = (int)P(b ? "idb" : "id", 0); a->klen = P(b ? "kb" : "k", 16); a->k2len = P(b ? "k2b" : "k2", 8); a->n = P(b ? "nb" : "n", 20); a->olen = P(b ? "ob" : "o", 8); a->bs = P("bs", 8); a->on = 0;
	if(ks_param(b ? "ckb" : "ck", 0)) { unsigned i; for(i = 0; i < a->klen; i++) a->key[i] = (uint8_t)(i * 37 + b + 1); for(i = 0; i < a->k2len; i++) a->key2[i] = (uint8_t)(i * 11 + b + 5); }
	else { ks_sym(a->key, a->klen, b ? "keyb" : "key"); ks_sym(a->key2, a->k2len, b ? "key2b" : "key2"); }
	ks_sym(a->iv, 16, b ? "ivb" : "iv"); ks_sym(a->msg, a->kind == K_block ? 128 : a->n, b ? "msgb" : "msg");
}
static void h_run(struct actor *a) { int i; for(i = 0; i < STEPS; i++) h_step(a, i); }
void x_two(void)
{
	struct actor *a = malloc(sizeof *a), *b = malloc(sizeof *b), *a1 = malloc(sizeof *a1), *b1 = malloc(sizeof *b1); int i, j, n, base, sch = ks_param("sched", 0); unsigned k;
	ks_assert(a && b && a1 && b1, "harness: out of memory");
	h_setup(a, 0); h_setup(b, 1);
	base = ks_live();
	a->desc = h_getdesc(a);
	b->desc = P("share", 0) ? a->desc : h_getdesc(b);
	memcpy(a1, a, sizeof *a); memcpy(b1, b, sizeof *b);
	h_run(a1); h_run(b1);
	for(i = j = 0; i + j < 2 * STEPS; )
	{
		if(i == STEPS) n = 1; else if(j == STEPS) n = 0;
		else n = sch < 0 ? ks_choose(0, 1, "next") : (int)(h_order[sch] >> (i + j) & 1);
		if(n) h_step(b, j++); else h_step(a, i++);
	}
	ks_assert(a->on == a1->on && b->on == b1->on, "harness: outputs");
	for(k = 0; k < a->on; k++) ks_eq(a->out[k], a1->out[k], a->ol[k], "an object behaves differently when another is used in between");
	for(k = 0; k < b->on; k++) ks_eq(b->out[k], b1->out[k], b->ol[k], "an object behaves differently when another is used in between");
	h_dropdesc(a); if(b->desc != a->desc) h_dropdesc(b);
	ks_assert(ks_live() == base, "memory is still allocated");
	ks_cover("end");
}
