/* X01 (memory safety), X02 (no secrets in freed memory), X03 (allocation failure),
   X04 (independent objects, no leaks): the life of an object of every type in buffers
   of exactly the size passed. Parameter f: allocation failures (every allocation of the
   library in turn; f is more than the number of allocations of a run). */
#define H_CAP 1400
#include "ciphers.h"
#include "hashes.h"
#include "streams.h"
#include "macs.h"
#include <kripto/ae.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#define P(n, d) ((unsigned)ks_param(n, d))
static int h_nf, h_f, h_a0, h_base; /* buffers of the harness, failing allocation */
/* a length: fixed, or every value from <name>lo (0) to the negated parameter */
static unsigned h_len(const char *p, const char *lo, int dflt)
{
	int n = ks_param(p, dflt);
	return n < 0 ? (unsigned)ks_choose(ks_param(lo, 0), -n, p) : (unsigned)n;
}
static void *h_new(size_t n) { void *p = malloc(n); ks_assert(p != 0, "harness: out of memory"); h_nf++; return p; }
static void *h_in(size_t n, const char *nm) { uint8_t *p = h_new(n); ks_sym(p, n, nm); return p; }
/* keys are concrete where the key schedule has data-dependent table chains (ck) */
static void *h_sec(size_t n, const char *nm)
{
	uint8_t *p = h_new(n); size_t i;
	if(ks_param("ck", 0)) for(i = 0; i < n; i++) p[i] = (uint8_t)(i * 37 + ks_param("ck", 0));
	else ks_secret(p, n, nm);
	return p;
}
static void h_free(void *p) { free(p); h_nf--; }
static void h_arm(void)
{
	int n = ks_param("f", 0);
	if(n) { h_f = ks_choose(0, n, "failing_allocation"); ks_fail_alloc(h_f); } else h_f = -1;
	h_a0 = ks_alloc_count(); h_base = ks_live();
}
static int h_failed(void) { return h_f >= 0 && ks_alloc_count() - h_a0 > h_f; }
/* object creation: may fail only if an allocation did, and then leaks nothing */
static int h_ok(const void *s, const char *what, int live)
{
	if(s) { ks_assert(!h_failed(), "success although an allocation failed"); return 1; }
	ks_assert(h_failed(), what);
	ks_assert(ks_live() == live, "a failed call leaves memory allocated");
	return 0;
}
static void h_end(void)
{
	if(h_f >= 0) ks_cover(h_failed() ? "failed" : "nofail");
	ks_cover("end");
}
#define H_X uint8_t *
/* --- block ciphers: c, k, r, t; then k2, r2 --- */
void x_block(void)
{
	const kripto_desc_block *d; unsigned k = h_len("k", "klo", 16), k2 = h_len("k2", "k2lo", 1), r = P("r", 0), r2 = P("r2", 0), t = h_len("t", "tlo", 0); int c = (int)P("c", 0); size_t bs; kripto_block *s; H_X key = h_sec(k, "key"); H_X key2 = h_sec(k2, "key2"); H_X tw = h_in(t, "tweak"); H_X x; H_X y; H_X z;
	d = h_cipher(c); ks_assert(d != 0, "descriptor");
	bs = kripto_block_size(d); x = h_in(bs, "in"); y = h_new(bs); z = h_in(bs, "in2");
	h_arm();
	s = kripto_block_create(d, r, key, k); if(!h_ok(s, "creation failed", h_base)) return h_end();
	if(t) kripto_block_tweak(s, tw, t);
	kripto_block_encrypt(s, x, y); kripto_block_decrypt(s, y, y); ks_init(y, bs, "decrypted block"); kripto_block_encrypt(s, z, z); ks_init(z, bs, "encrypted block");
	s = kripto_block_recreate(s, r2, key2, k2); if(!h_ok(s, "recreation failed", h_base)) return h_end();
	kripto_block_encrypt(s, z, z); kripto_block_decrypt(s, x, y); ks_init(y, bs, "decrypted block"); ks_init(z, bs, "encrypted block");
	kripto_block_destroy(s);
	ks_assert(ks_live() == h_base, "memory is still allocated");
	h_end();
}
/* the constructors of the GOST descriptors */
void x_gost(void)
{
	const kripto_desc_block *d; h_arm();
	d = h_cipher((int)P("c", C_gost_cbr)); if(!h_ok(d, "descriptor", h_base)) return h_end();
	free((void *)d); ks_assert(ks_live() == h_base, "memory is still allocated"); h_end();
}
/* --- hashes: h, o, sl, n; then o2, n2 --- */
void x_hash(void)
{
	const kripto_desc_hash *d = h_hash((int)P("h", 0)); unsigned o = h_len("o", "olo", 16), o2 = P("o2", 8), r = P("r", 0), r2 = P("r2", 0), sl = h_len("sl", "sllo", 0), sl2 = P("sl2", 0), n = h_len("n", "nlo", 10), n2 = P("n2", 3), cut = n / 3; kripto_hash *s; int e;
	H_X in; H_X in2 = h_sec(n2, "msg2"); H_X x = h_new(o); H_X y = h_new(o2); H_X sa = h_in(sl, "salt"); H_X sb = h_in(sl2, "salt2"); H_X ia; H_X ib;
	in = h_sec(n, "msg"); ia = h_new(cut); ib = h_new(n - cut); memcpy(ia, in, cut); memcpy(ib, in + cut, n - cut);
	h_arm();
	e = kripto_hash_all(d, r, sa, sl, in, n, x, o);
	if(h_failed()) { ks_assert(e != 0, "success although an allocation failed"); ks_assert(ks_live() == h_base, "a failed call leaves memory allocated"); return h_end(); }
	ks_assert(e == 0, "kripto_hash_all failed"); ks_init(x, o, "digest"); ks_assert(ks_live() == h_base, "memory is still allocated");
	s = kripto_hash_create(d, r, sa, sl, o); if(!h_ok(s, "creation failed", h_base)) return h_end();
	kripto_hash_input(s, ia, cut); kripto_hash_input(s, ib, n - cut); kripto_hash_output(s, x, o); ks_init(x, o, "digest");
	s = kripto_hash_recreate(s, r2, sb, sl2, o2); if(!h_ok(s, "recreation failed", h_base)) return h_end();
	kripto_hash_input(s, in2, n2); kripto_hash_output(s, y, o2); ks_init(y, o2, "digest");
	s = kripto_hash_recreate(s, r, sa, sl, o); if(!h_ok(s, "recreation failed", h_base)) return h_end();
	kripto_hash_input(s, in, n);
	kripto_hash_destroy(s);
	ks_assert(ks_live() == h_base, "memory is still allocated");
	h_end();
}
/* --- streams: t, k, i, n; then k2, i2, n2 --- */
void x_stream(void)
{
	int t = (int)P("t", 0); const kripto_desc_stream *d; unsigned k = h_len("k", "klo", 16), k2 = P("k2", 8), i = h_len("i", "ilo", 8), i2 = P("i2", 0), r = P("r", 0), r2 = P("r2", 0), n = h_len("n", "nlo", 16), n2 = P("n2", 16), cut = P("cut", 0); kripto_stream *s;
	H_X key = h_sec(k, "key"); H_X key2 = h_sec(k2, "key2"); H_X iv = h_in(i, "iv"); H_X iv2 = h_in(i2, "iv2"); H_X x = h_sec(n, "msg"); H_X y = h_new(n); H_X x2 = h_sec(n2, "msg2"); int md = h_ismode(t); const kripto_desc_block *b = 0;
	if(cut > n) cut = n;
	if(md) b = h_stub_block(P("bs", 8));
	h_arm();
	if(md) d = h_stream_over(t, b); else d = h_stream(t);
	if(!h_ok(d, "descriptor", h_base)) return h_end();
	s = kripto_stream_create(d, r, key, k, iv, i);
	if(!h_ok(s, "creation failed", h_base + md)) { h_stream_done(t, d); return h_end(); }
	kripto_stream_encrypt(s, x, y, cut); kripto_stream_encrypt(s, x + cut, y + cut, n - cut); ks_init(y, n, "ciphertext");
	kripto_stream_encrypt(s, x2, x2, n2); ks_init(x2, n2, "ciphertext");
	s = kripto_stream_recreate(s, r2, key2, k2, iv2, i2);
	if(!h_ok(s, "recreation failed", h_base + md)) { h_stream_done(t, d); return h_end(); }
	kripto_stream_decrypt(s, x, y, n); ks_init(y, n, "plaintext"); kripto_stream_decrypt(s, x2, x2, n2);
	if(h_hasprng(t)) { kripto_stream_prng(s, y, n); ks_init(y, n, "keystream"); }
	s = kripto_stream_recreate(s, r, key, k, iv, i);
	if(!h_ok(s, "recreation failed", h_base + md)) { h_stream_done(t, d); return h_end(); }
	if(h_hasprng(t)) { kripto_stream_prng(s, x2, n2); kripto_stream_prng(s, y, n); ks_init(y, n, "keystream"); }
	else kripto_stream_encrypt(s, x, x, n);
	kripto_stream_destroy(s); h_stream_done(t, d);
	ks_assert(ks_live() == h_base, "memory is still allocated");
	h_end();
}
/* --- MACs: m, k, tl, n; then k2, tl2 --- */
void x_mac(void)
{
	int m = (int)P("m", 0); const kripto_desc_mac *d = 0; unsigned k = h_len("k", "klo", 16), k2 = P("k2", 8), tl = h_len("tl", "tllo", 8), tl2 = P("tl2", 4), r = P("r", 0), r2 = P("r2", 0), n = h_len("n", "nlo", 10), cut = n / 2; kripto_mac *s; int e, own = m < M_keccak1600;
	H_X key = h_sec(k, "key"); H_X key2 = h_sec(k2, "key2"); H_X in = h_sec(n, "msg"); H_X x = h_new(tl); H_X y = h_new(tl2); H_X ib = h_new(n - cut); memcpy(ib, in + cut, n - cut);
	h_arm();
	switch(m)
	{
		case M_hmac: d = kripto_mac_hmac(h_stub_hash(P("hb", 16), P("ho", 12))); break;
		case M_omac: d = kripto_mac_omac(h_stub_block(P("bs", 8))); break;
		case M_xcbc: d = kripto_mac_xcbc(h_stub_block(P("bs", 8))); break;
		default: d = h_mac(m);
	}
	if(!h_ok(d, "descriptor", h_base)) return h_end();
	e = kripto_mac_all(d, r, key, k, in, n, x, tl);
	if(h_failed()) { ks_assert(e != 0, "success although an allocation failed"); ks_assert(ks_live() == h_base + own, "a failed call leaves memory allocated"); h_mac_done(m, d); return h_end(); }
	ks_assert(e == 0, "kripto_mac_all failed"); ks_init(x, tl, "tag"); ks_assert(ks_live() == h_base + own, "memory is still allocated");
	s = kripto_mac_create(d, r, key, k, tl); if(!h_ok(s, "creation failed", h_base + own)) { h_mac_done(m, d); return h_end(); }
	kripto_mac_input(s, in, cut); kripto_mac_input(s, ib, n - cut); kripto_mac_tag(s, x, tl); ks_init(x, tl, "tag");
	s = kripto_mac_recreate(s, r2, key2, k2, tl2); if(!h_ok(s, "recreation failed", h_base + own)) { h_mac_done(m, d); return h_end(); }
	kripto_mac_input(s, in, n); kripto_mac_tag(s, y, tl2); ks_init(y, tl2, "tag");
	s = kripto_mac_recreate(s, r, key, k, tl); if(!h_ok(s, "recreation failed", h_base + own)) { h_mac_done(m, d); return h_end(); }
	kripto_mac_input(s, in, n);
	if(ks_param("vf", 1)) (void)kripto_mac_verify(s, x, tl);
	kripto_mac_destroy(s); h_mac_done(m, d);
	ks_assert(ks_live() == h_base, "memory is still allocated");
	h_end();
}
/* --- AE: a (0 EAX, 1 EAX2), k, i, h, n, tl --- */
void x_ae(void)
{
	const kripto_desc_ae *d; unsigned k = h_len("k", "klo", 16), k2 = P("k2", 8), i = h_len("i", "ilo", 8), i2 = P("i2", 0), hn = h_len("hn", "hnlo", 4), n = h_len("n", "nlo", 10), tl = h_len("tl", "tllo", 8), tl2 = P("tl2", 4), r = P("r", 0), r2 = P("r2", 0), a = P("a", 0); kripto_ae *s;
	H_X key = h_sec(k, "key"); H_X key2 = h_sec(k2, "key2"); H_X iv = h_in(i, "iv"); H_X iv2 = h_in(i2, "iv2"); H_X hd = h_in(hn, "header"); H_X x = h_sec(n, "msg"); H_X y = h_new(n); H_X tg = h_new(tl); H_X tg2 = h_new(tl2);
	h_mac_move = (int)P("move", 0);
	h_arm();
	if(a) d = kripto_ae_eax2(h_stub_stream(P("sk", 32), P("si", 16)), h_stub_mac(P("mt", 16), P("mk", 64)));
	else d = kripto_ae_eax(h_stub_block(P("bs", 8)));
	if(!h_ok(d, "descriptor", h_base)) return h_end();
	s = kripto_ae_create(d, r, key, k, iv, i, tl); if(!h_ok(s, "creation failed", h_base + 1)) { free((void *)d); return h_end(); }
	kripto_ae_header(s, hd, hn); kripto_ae_encrypt(s, x, y, n); kripto_ae_tag(s, tg, tl); ks_init(y, n, "ciphertext"); ks_init(tg, tl, "tag");
	s = kripto_ae_recreate(s, r2, key2, k2, iv2, i2, tl2); if(!h_ok(s, "recreation failed", h_base + 1)) { free((void *)d); return h_end(); }
	kripto_ae_decrypt(s, y, y, n); kripto_ae_header(s, hd, hn); kripto_ae_tag(s, tg2, tl2); ks_init(tg2, tl2, "tag");
	s = kripto_ae_recreate(s, r, key, k, iv, i, tl); if(!h_ok(s, "recreation failed", h_base + 1)) { free((void *)d); return h_end(); }
	kripto_ae_header(s, hd, hn); kripto_ae_decrypt(s, x, x, n);
	if(ks_param("vf", 1)) (void)kripto_ae_verify(s, tg, tl);
	kripto_ae_destroy(s); free((void *)d);
	ks_assert(ks_live() == h_base, "memory is still allocated");
	h_end();
}
/* --- key derivation --- */
void x_kdf(void)
{
	const kripto_desc_mac *d = h_stub_mac(P("mt", 8), 256); unsigned pn = h_len("pn", "pnlo", 5), sn = h_len("sn", "snlo", 5), o = h_len("o", "olo", 10); int e;
	H_X p = h_sec(pn, "pass"); H_X sa = h_in(sn, "salt"); H_X x = h_new(o);
	h_mac_move = (int)P("move", 0);
	h_arm();
	e = ks_param("scrypt", 0) ? kripto_scrypt(d, P("mr", 0), P("N", 2), P("r", 1), P("pp", 1), p, pn, sa, sn, x, o) : kripto_pbkdf2(d, P("mr", 0), P("it", 2), p, pn, sa, sn, x, o);
	if(h_failed()) ks_assert(e != 0, "success although an allocation failed");
	else { ks_assert(e == 0, "key derivation failed"); ks_init(x, o, "derived key"); }
	ks_assert(ks_live() == h_base, "memory is still allocated");
	h_end();
}
