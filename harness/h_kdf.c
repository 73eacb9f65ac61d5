/* K01, K02: PBKDF2 and scrypt over the stub MAC (maximum tag mt) against independent
   implementations of RFC 8018 and RFC 7914. */
#ifndef H_CAP
#define H_CAP 34000
#define MR 260
#endif
#define H_KCAP 1100
#include "stubs.h"
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#define MP 1100
static unsigned h_len(const char *p, int dflt, int lo, const char *nm)
{
	int n = ks_param(p, dflt);
	return n < 0 ? (unsigned)ks_choose(lo, -n, nm) : (unsigned)n;
}
/* PRF(P, m) with hl bytes of output */
static void ref_pbkdf2(unsigned hl, unsigned mr, unsigned iter, const uint8_t *p, unsigned pn, const uint8_t *s, unsigned sn, uint8_t *out, unsigned on)
{
	unsigned b, i, j; uint8_t u[256], t[256], x[H_CAP];
	for(b = 0; b * hl < on; b++)
	{
		unsigned c = b + 1;
		memcpy(x, s, sn); x[sn] = (uint8_t)(c >> 24); x[sn + 1] = (uint8_t)(c >> 16); x[sn + 2] = (uint8_t)(c >> 8); x[sn + 3] = (uint8_t)c;
		h_mc_f(mr, hl, p, pn, x, sn + 4, u, hl); memcpy(t, u, hl);
		for(i = 1; i < iter; i++) { h_mc_f(mr, hl, p, pn, u, hl, u, hl); for(j = 0; j < hl; j++) t[j] ^= u[j]; }
		for(j = 0; j < hl && b * hl + j < on; j++) out[b * hl + j] = t[j];
	}
}
void pbkdf2_spec(void)
{
	unsigned mt = (unsigned)ks_param("mt", 8), mr = (unsigned)ks_param("mr", 0), it = (unsigned)ks_param("it", 1), pn = h_len("p", 8, 1, "passlen"), sn = h_len("s", 8, 0, "saltlen"), on = h_len("o", 8, 1, "outlen");
	uint8_t p[MP], pc[MP], s[MP], sc[MP], x[1200], y[1200]; const kripto_desc_mac *d = h_stub_mac(mt, H_KCAP);
	h_mac_move = ks_param("move", 0);
	ks_secret(p, pn, "pass"); ks_sym(s, sn, "salt"); memcpy(pc, p, pn); memcpy(sc, s, sn);
	memset(x, 0xA5, on + 2);
	ks_assert(kripto_pbkdf2(d, mr, it, p, pn, s, sn, x + 1, on) == 0, "pbkdf2 failed");
	ref_pbkdf2(mt, mr, it, p, pn, s, sn, y, on);
	ks_eq(x + 1, y, on, "derived key");
	ks_assert(x[0] == 0xA5 && x[on + 1] == 0xA5, "bytes around the output");
	ks_eq(p, pc, pn, "password buffer"); ks_eq(s, sc, sn, "salt buffer");
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* more than 255 and more than 65535 blocks: selected blocks of a long output */
void pbkdf2_big(void)
{
	unsigned mt = (unsigned)ks_param("mt", 1), on = (unsigned)ks_param("o", 66000), pn = 3, sn = 2, i, j; uint8_t p[8], s[8], x[16], u[16], *o = malloc(on + 1); const kripto_desc_mac *d = h_stub_mac(mt, H_KCAP);
	static const unsigned h_pick[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65534, 65535, 65536, 65537, 65791, 65792};
	if(!o) return;
	ks_secret(p, pn, "pass"); ks_sym(s, sn, "salt");
	o[on] = 0xA5;
	ks_assert(kripto_pbkdf2(d, 0, 1, p, pn, s, sn, o, on) == 0, "pbkdf2 failed");
	for(i = 0; i < sizeof h_pick / sizeof *h_pick; i++)
	{
		unsigned c = h_pick[i] + 1;
		if(c * mt > on) continue;
		memcpy(x, s, sn); x[sn] = (uint8_t)(c >> 24); x[sn + 1] = (uint8_t)(c >> 16); x[sn + 2] = (uint8_t)(c >> 8); x[sn + 3] = (uint8_t)c;
		h_mc_f(0, mt, p, pn, x, sn + 4, u, mt);
		for(j = 0; j < mt; j++) ks_eq(o + (c - 1) * mt + j, u + j, 1, "block of a long key");
	}
	ks_assert(o[on] == 0xA5, "byte behind the output");
	free(o); ks_assert(ks_live() == 0, "memory is still allocated"); ks_cover("end");
}
/* RFC 7914 */
static uint32_t ref_rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void ref_salsa8(uint32_t *b)
{
	uint32_t x[16]; int i;
	for(i = 0; i < 16; i++) x[i] = b[i];
	for(i = 8; i > 0; i -= 2)
	{
		x[ 4] ^= ref_rol(x[ 0]+x[12], 7);  x[ 8] ^= ref_rol(x[ 4]+x[ 0], 9); x[12] ^= ref_rol(x[ 8]+x[ 4],13);  x[ 0] ^= ref_rol(x[12]+x[ 8],18);
		x[ 9] ^= ref_rol(x[ 5]+x[ 1], 7);  x[13] ^= ref_rol(x[ 9]+x[ 5], 9); x[ 1] ^= ref_rol(x[13]+x[ 9],13);  x[ 5] ^= ref_rol(x[ 1]+x[13],18);
		x[14] ^= ref_rol(x[10]+x[ 6], 7);  x[ 2] ^= ref_rol(x[14]+x[10], 9); x[ 6] ^= ref_rol(x[ 2]+x[14],13);  x[10] ^= ref_rol(x[ 6]+x[ 2],18);
		x[ 3] ^= ref_rol(x[15]+x[11], 7);  x[ 7] ^= ref_rol(x[ 3]+x[15], 9); x[11] ^= ref_rol(x[ 7]+x[ 3],13);  x[15] ^= ref_rol(x[11]+x[ 7],18);
		x[ 1] ^= ref_rol(x[ 0]+x[ 3], 7);  x[ 2] ^= ref_rol(x[ 1]+x[ 0], 9); x[ 3] ^= ref_rol(x[ 2]+x[ 1],13);  x[ 0] ^= ref_rol(x[ 3]+x[ 2],18);
		x[ 6] ^= ref_rol(x[ 5]+x[ 4], 7);  x[ 7] ^= ref_rol(x[ 6]+x[ 5], 9); x[ 4] ^= ref_rol(x[ 7]+x[ 6],13);  x[ 5] ^= ref_rol(x[ 4]+x[ 7],18);
		x[11] ^= ref_rol(x[10]+x[ 9], 7);  x[ 8] ^= ref_rol(x[11]+x[10], 9); x[ 9] ^= ref_rol(x[ 8]+x[11],13);  x[10] ^= ref_rol(x[ 9]+x[ 8],18);
		x[12] ^= ref_rol(x[15]+x[14], 7);  x[13] ^= ref_rol(x[12]+x[15], 9); x[14] ^= ref_rol(x[13]+x[12],13);  x[15] ^= ref_rol(x[14]+x[13],18);
	}
	for(i = 0; i < 16; i++) b[i] += x[i];
}
static void ref_blockmix(const uint32_t *B, uint32_t *Y, unsigned r)
{
	uint32_t X[16]; unsigned i, j;
	for(j = 0; j < 16; j++) X[j] = B[16 * (2 * r - 1) + j];
	for(i = 0; i < 2 * r; i++)
	{
		for(j = 0; j < 16; j++) X[j] ^= B[16 * i + j];
		ref_salsa8(X);
		for(j = 0; j < 16; j++) Y[16 * ((i & 1 ? r : 0) + i / 2) + j] = X[j];
	}
}
static void ref_romix(uint8_t *B, unsigned r, unsigned N)
{
	uint32_t *V, X[32 * MR], Y[32 * MR]; unsigned i, j, k, L = 32 * r;
	V = malloc(4 * (size_t)N * L); if(!V) return;
	for(i = 0; i < L; i++) X[i] = (uint32_t)B[4 * i] | (uint32_t)B[4 * i + 1] << 8 | (uint32_t)B[4 * i + 2] << 16 | (uint32_t)B[4 * i + 3] << 24;
	for(i = 0; i < N; i++) { for(k = 0; k < L; k++) V[i * L + k] = X[k]; ref_blockmix(X, Y, r); memcpy(X, Y, 4 * L); }
	for(i = 0; i < N; i++)
	{
		j = X[L - 16] & (N - 1);
		for(k = 0; k < L; k++) Y[k] = X[k] ^ V[j * L + k];
		ref_blockmix(Y, X, r);
	}
	free(V);
	for(i = 0; i < L; i++) { B[4 * i] = (uint8_t)X[i]; B[4 * i + 1] = (uint8_t)(X[i] >> 8); B[4 * i + 2] = (uint8_t)(X[i] >> 16); B[4 * i + 3] = (uint8_t)(X[i] >> 24); }
}
void scrypt_spec(void)
{
	unsigned mt = (unsigned)ks_param("mt", 32), mr = (unsigned)ks_param("mr", 0), N = (unsigned)ks_param("N", 2), r = (unsigned)ks_param("r", 1), p = (unsigned)ks_param("pp", 1), pn = h_len("p", 4, 1, "passlen"), sn = h_len("s", 4, 0, "saltlen"), on = h_len("o", 8, 1, "outlen"), i;
	uint8_t pw[MP], s[MP], B[128 * MR], x[400], y[400]; const kripto_desc_mac *d = h_stub_mac(mt, H_KCAP);
	ks_secret(pw, pn, "pass"); ks_sym(s, sn, "salt");
	memset(x, 0xA5, on + 2);
	ks_assert(kripto_scrypt(d, mr, N, r, p, pw, pn, s, sn, x + 1, on) == 0, "scrypt failed");
	ref_pbkdf2(mt, mr, 1, pw, pn, s, sn, B, p * 128 * r);
	for(i = 0; i < p; i++) ref_romix(B + 128 * r * i, r, N);
	ref_pbkdf2(mt, mr, 1, pw, pn, B, p * 128 * r, y, on);
	ks_eq(x + 1, y, on, "derived key");
	ks_assert(x[0] == 0xA5 && x[on + 1] == 0xA5, "bytes around the output");
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* parameters whose working memory cannot exist (128 r p, 128 r N beyond 32 or 64 bits):
   an error, and nothing outside the buffers is touched */
void scrypt_sizes(void)
{
	static const struct { uint64_t n; uint32_t r, p; } T[] = {
		{ 2, 1, 1u << 25 }, { 2, 1, (1u << 25) + 1 }, { 2, 8, 1u << 22 }, { 2, 8, (1u << 22) + 1 }, { 2, 3, 1u << 25 }, { 4, 65536, 65536 }, { 2, 1u << 25, 1 }, { 2, (1u << 25) + 1, 1 }, { 2, 1u << 31, 2 }, { 2, 1, 0x3fffffff }, { 1, 0x3fffffff, 1 }, { 2, 0xffffffff, 1 }, { 2, 1, 0xffffffff },
		{ (uint64_t)1 << 54, 8, 1 }, { (uint64_t)1 << 57, 1, 1 }, { (uint64_t)1 << 56, 2, 3 }, { (uint64_t)1 << 63, 1, 1 }, { (uint64_t)1 << 63, 2, 1 }, { (uint64_t)1 << 61, 24, 2 }, { (uint64_t)1 << 32, 8, 1 }, { (uint64_t)1 << 25, 1, 1 }, { (uint64_t)1 << 40, 8, 16 }, { (uint64_t)1 << 24, 256, 2 } };
	uint8_t pw[4], s[4], x[10], c[10]; int i = ks_choose(0, sizeof T / sizeof *T - 1, "sizes"); const kripto_desc_mac *d = h_stub_mac(32, H_KCAP);
	ks_secret(pw, 4, "pass"); ks_sym(s, 4, "salt"); ks_sym(x, 10, "output before"); memcpy(c, x, 10);
	ks_assert(kripto_scrypt(d, 0, T[i].n, T[i].r, T[i].p, pw, 4, s, 4, x + 1, 8) != 0, "success although the memory cannot be had");
	ks_assert(x[0] == c[0] && x[9] == c[9], "bytes around the output");
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
