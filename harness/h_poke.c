/* Counters far into a message or key stream. The executor cannot feed 2^32 blocks, so
   the state there is built: objects are advanced by 1..4 blocks, the memory words that
   grow by the same step with each block are found, and in the object under test (and in
   the reference) they are moved on by the same number of blocks. Nothing is assumed of
   the layout: where no such word is found the case ends without a verdict. Replayed
   natively, the objects are really advanced as far as that takes minutes at most.
   kd 0 hash h, 1 stream t, 2 mac m; th 0: 2^32 bits, 1: 2^32 bytes, 2: 2^32 blocks,
   3: 2^64 counter steps; dr 0 encrypt, 1 prng, 2 decrypt (streams); sp 1: one call against
   single bytes; re 1: the object is recreated afterwards instead */
#include "streams.h"
#include "hashes.h"
#include "macs.h"
#include "goldenapi.h"
static const void *g_of(int kd, int i)
{
	if(kd == 0) switch(i)
	{
		case H_blake256: return ref_kripto_hash_blake256;
		case H_blake2b: return ref_kripto_hash_blake2b;
		case H_blake2s: return ref_kripto_hash_blake2s;
		case H_blake512: return ref_kripto_hash_blake512;
		case H_keccak1600: return ref_kripto_hash_keccak1600;
		case H_keccak800: return ref_kripto_hash_keccak800;
		case H_md5: return ref_kripto_hash_md5;
		case H_sha1: return ref_kripto_hash_sha1;
		case H_sha2_256: return ref_kripto_hash_sha2_256;
		case H_sha2_512: return ref_kripto_hash_sha2_512;
		case H_sha3: return ref_kripto_hash_sha3;
		case H_skein1024: return ref_kripto_hash_skein1024;
		case H_skein256: return ref_kripto_hash_skein256;
		case H_skein512: return ref_kripto_hash_skein512;
		case H_tiger: return ref_kripto_hash_tiger;
		case H_whirlpool: return ref_kripto_hash_whirlpool;
	}
	if(kd == 1) switch(i)
	{
		case T_chacha: return ref_kripto_stream_chacha;
		case T_salsa20: return ref_kripto_stream_salsa20;
		case T_skein256: return ref_kripto_stream_skein256;
		case T_skein512: return ref_kripto_stream_skein512;
		case T_skein1024: return ref_kripto_stream_skein1024;
	}
	if(kd == 2) switch(i)
	{
		case M_skein256: return ref_kripto_mac_skein256;
		case M_skein512: return ref_kripto_mac_skein512;
		case M_skein1024: return ref_kripto_mac_skein1024;
	}
	return 0;
}
typedef struct { int kd, i, g; unsigned o, b, r; uint8_t key[16], iv[8]; } ctx;
static void *mk(const ctx *c)
{
	unsigned k = c->kd == 1 && ks_param("k", 16) ? (unsigned)ks_param("k", 16) : 16; void *p = 0;
	switch(c->kd * 2 + c->g)
	{
		case 0: p = kripto_hash_create(h_hash(c->i), c->r, 0, 0, c->o); break;
		case 1: p = ref_kripto_hash_create(g_of(0, c->i), c->r, 0, 0, c->o); break;
		case 2: p = kripto_stream_create(h_stream(c->i), c->r, c->key, k, c->iv, 8); break;
		case 3: p = ref_kripto_stream_create(g_of(1, c->i), c->r, c->key, k, c->iv, 8); break;
		case 4: p = kripto_mac_create(h_mac(c->i), c->r, c->key, k, c->o); break;
		case 5: p = ref_kripto_mac_create(g_of(2, c->i), c->r, c->key, k, c->o); break;
	}
	ks_assert(p != 0, "creation failed"); return p;
}
static void *remk(const ctx *c, void *p)
{
	switch(c->kd)
	{
		case 0: p = kripto_hash_recreate(p, c->r, 0, 0, c->o); break;
		case 1: p = kripto_stream_recreate(p, c->r, c->key, 16, c->iv, 8); break;
		case 2: p = kripto_mac_recreate(p, c->r, c->key, 16, c->o); break;
	}
	ks_assert(p != 0, "recreation failed"); return p;
}
static void feed(const ctx *c, void *p, const uint8_t *in, uint8_t *out, size_t n)
{
	switch(c->kd * 2 + c->g)
	{
		case 0: kripto_hash_input(p, in, n); break;
		case 1: ref_kripto_hash_input(p, in, n); break;
		case 2: kripto_stream_encrypt(p, in, out, n); break;
		case 3: ref_kripto_stream_encrypt(p, in, out, n); break;
		case 4: kripto_mac_input(p, in, n); break;
		case 5: ref_kripto_mac_input(p, in, n); break;
	}
}
/* the tested step of a stream: dr 0 encrypt, 1 prng, 2 decrypt */
static void step(const ctx *c, void *p, const uint8_t *in, uint8_t *out, size_t n, int dr)
{
	if(c->kd != 1 || !dr) feed(c, p, in, out, n);
	else if(dr == 1 && !c->g) kripto_stream_prng(p, out, n);
	else if(dr == 1) ref_kripto_stream_prng(p, out, n);
	else if(!c->g) kripto_stream_decrypt(p, in, out, n);
	else ref_kripto_stream_decrypt(p, in, out, n);
}
static void done(const ctx *c, void *p, uint8_t *out)
{
	switch(c->kd * 2 + c->g)
	{
		case 0: kripto_hash_output(p, out, c->o); break;
		case 1: ref_kripto_hash_output(p, out, c->o); break;
		case 4: kripto_mac_tag(p, out, c->o); break;
		case 5: ref_kripto_mac_tag(p, out, c->o); break;
	}
}
static void bye(const ctx *c, void *p)
{
	switch(c->kd * 2 + c->g)
	{
		case 0: kripto_hash_destroy(p); break;
		case 1: ref_kripto_hash_destroy(p); break;
		case 2: kripto_stream_destroy(p); break;
		case 3: ref_kripto_stream_destroy(p); break;
		case 4: kripto_mac_destroy(p); break;
		case 5: ref_kripto_mac_destroy(p); break;
	}
}
#define MAXW 8
typedef struct { unsigned off; int be; uint64_t st; } win;
/* 8-byte word at p, 0 if not wholly known */
static int word(const uint8_t *p, int be, uint64_t *v)
{
	int i; uint64_t x = 0;
	for(i = 0; i < 8; i++)
	{
		uint8_t b = p[be ? i : 7 - i];
		if(ks_is_symbolic(b)) return 0;
		x = x << 8 | b;
	}
	*v = x; return 1;
}
static unsigned counters(ctx c, win *w)
{
	uint8_t z[640], y[640]; uint8_t *o[4]; uint64_t v[4], d; unsigned k, n, off, al, f = 0; int be, ok;
	memset(z, 0, sizeof z); memset(c.key, 0, 16); memset(c.iv, 0, 8);
	for(k = 0; k < 4; k++) { o[k] = mk(&c); feed(&c, o[k], z, y, (k + 1) * c.b); }
	n = (unsigned)ks_objsize(o[0]);
	/* aligned words first: the low byte of a little-endian word also ends an unaligned
	   big-endian one, and the other way round */
	for(al = 4; al && !f; al -= 3) for(off = 0; off + 8 <= n && f < MAXW; off += al) for(be = 0; be < 2; be++)
	{
		ok = 1;
		for(k = 0; k < 4 && ok; k++) ok = word(o[k] + off, be, v + k);
		if(!ok || v[0] >= 65536) continue;
		d = v[1] - v[0];
		if((d != 1 && d != c.b && d != c.b * 8 && d != c.b / 4 && d != c.b / 8) || v[2] - v[1] != d || v[3] - v[2] != d) continue;
		w[f].off = off; w[f].be = be; w[f].st = d; f++; off += 8 - al; break;
	}
	for(k = 0; k < 4; k++) bye(&c, o[k]);
	return f;
}
/* moves the counters of p on by n blocks; 0 if they are not known numbers there */
static int move(uint8_t *p, const win *w, unsigned f, uint64_t n)
{
	unsigned i; int j; uint64_t v;
	for(i = 0; i < f; i++)
	{
		if(!word(p + w[i].off, w[i].be, &v)) return 0;
		v += n * w[i].st;
		for(j = 0; j < 8; j++) p[w[i].off + (w[i].be ? 7 - j : j)] = (uint8_t)(v >> 8 * j);
	}
	return 1;
}
/* n blocks of zeros for real */
static void drive(const ctx *c, void *p, uint64_t n)
{
	static uint8_t h_z[65536], h_y[65536]; uint64_t l = n * c->b;
	while(l) { size_t m = l > 65536 ? 65536 : (size_t)l; feed(c, p, h_z, h_y, m); l -= m; }
}
static void far(ctx c, void *p, const win *w, unsigned f, uint64_t n)
{
	if(ks_native() && n * c.b <= (1ull << 32)) drive(&c, p, n);
	else ks_assert(move(p, w, f, n), "counter not concrete");
}
void poke(void)
{
	ctx c, g; win w[MAXW], v[MAXW]; unsigned nw, nv, i, n; uint64_t N = 0, sw = 0, sv = 0; int th = ks_param("th", 0), re = ks_param("re", 0), dr = ks_param("dr", 0), sp = ks_param("sp", 0);
	uint8_t first[128], in[640], x[640], y[640], z[128]; void *p, *q; int same = 1;
	c.kd = ks_param("kd", 0); c.i = ks_param("i", 0); c.o = (unsigned)ks_param("o", 16); c.b = (unsigned)ks_param("b", 64); c.r = (unsigned)ks_param("r", 0); c.g = 0;
	g = c; g.g = 1;
	nw = counters(c, w); nv = counters(g, v);
	ks_note("counters", (long)nw); ks_note("reference counters", (long)nv);
	for(i = 0; i < nw; i++) if(w[i].st > sw) sw = w[i].st;
	for(i = 0; i < nv; i++) if(v[i].st > sv) sv = v[i].st;
	if(!nw || !nv) { ks_cover("no counter found"); ks_cover("end"); return; }
	if(c.kd == 1) /* the state of a stream is its counter: the method can be tested */
	{
		ctx a = c; memset(a.key, 3, 16); memset(a.iv, 4, 8); memset(in, 0, c.b);
		p = mk(&a); q = mk(&a); feed(&a, p, in, x, c.b); feed(&a, q, in, y, c.b);
		if(!move(p, w, nw, 3)) same = 0;
		for(i = 0; i < 3; i++) feed(&a, q, in, y, c.b);
		feed(&a, p, in, x, c.b); feed(&a, q, in, y, c.b);
		for(i = 0; i < c.b; i++) if(x[i] != y[i]) same = 0;
		bye(&a, p); bye(&a, q);
		if(!same) { ks_cover("counter not recognised"); ks_cover("end"); return; }
	}
	switch(th)
	{
		case 0: N = (1ull << 32) / (8 * c.b); break;
		case 1: N = (1ull << 32) / c.b; break;
		case 2: N = 1ull << 32; break;
		case 3:
			if(sw != sv) { ks_cover("counters of different scale"); ks_cover("end"); return; }
			N = sw > 1 ? (1ull << 32) / sw << 32 : 0; break; /* N * sw = 2^64 */
	}
	N -= 3;
	n = (unsigned)ks_choose(0, 4, "len"); n = n == 4 ? 3 * c.b + 1 : 2 * c.b - 1 + n;
	ks_sym(first, c.b, "first"); ks_sym(in, n, "in"); ks_sym(c.key, 16, "key"); ks_sym(c.iv, 8, "iv");
	memcpy(g.key, c.key, 16); memcpy(g.iv, c.iv, 8);
	p = mk(&c); feed(&c, p, first, z, c.b); far(c, p, w, nw, N);
	if(re)
	{
		feed(&c, p, in, x, n); p = remk(&c, p); q = mk(&c); c.g = 0; g.g = 0;
	}
	else if(sp) /* the same stream, the step split in single bytes and an empty call */
	{
		q = mk(&c); feed(&c, q, first, z, c.b); far(c, q, w, nw, N); g.g = 0;
	}
	else { q = mk(&g); feed(&g, q, first, z, c.b); far(g, q, v, nv, N); }
	step(&c, p, in, x, n, dr);
	if(sp) { step(&g, q, in, y, 0, dr); for(i = 0; i < n; i++) step(&g, q, in + i, y + i, 1, dr); }
	else step(&g, q, in, y, n, dr);
	if(c.kd == 1) ks_eq(x, y, n, sp ? "split differs across a counter carry" : re ? "recreated after a counter carry" : "key stream across a counter carry");
	else { done(&c, p, x); done(&g, q, y); ks_eq(x, y, c.o, re ? "recreated after a counter carry" : "digest or tag across a counter carry"); }
	bye(&c, p); bye(&g, q);
	ks_cover("end");
}
