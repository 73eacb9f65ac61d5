/* definitions over the stub primitives */
#ifndef REF_MAC_H
#define REF_MAC_H
#include "stubs.h"
/* --- the definitions --- */
/* RFC 2104 over H_t, the hash with t bytes of output */
static inline void ref_hmac(unsigned B, unsigned r, const uint8_t *key, unsigned k, const uint8_t *m, unsigned n, uint8_t *tag, unsigned t)
{
	uint8_t kb[256], x[H_CAP]; unsigned i;
	memset(kb, 0, B);
	if(k > B) h_hsh_f(r, t, key, k, kb, t); else memcpy(kb, key, k);
	for(i = 0; i < B; i++) x[i] = kb[i] ^ 0x36;
	memcpy(x + B, m, n);
	h_hsh_f(r, t, x, B + n, tag, t);
	for(i = 0; i < B; i++) x[i] = kb[i] ^ 0x5C;
	memcpy(x + B, tag, t);
	h_hsh_f(r, t, x, B + t, tag, t);
}
/* Low words of the irreducible polynomials x^(8b) + ... of degree 8b, b = 1..255: the
   lexicographically first pentanomials, computed (Rabin test) by tools/poly.py */
static const uint64_t ref_poly[256] =
{
	0, 0x1B, 0x2B, 0x1B, 0x8D, 0x39, 0x2D, 0x95,
	0x1B, 0x609, 0x215, 0xC5, 0x641, 0x1B, 0x39, 0x1B,
	0x87, 0x2D, 0x95, 0x4D, 0x2D, 0x800D, 0x80D, 0x381,
	0x87, 0x2D, 0x20B, 0x8B, 0x309, 0x215, 0x129, 0xC401,
	0x425, 0x245, 0x20D, 0x225, 0xC03, 0x8D, 0x807, 0x291,
	0x1B, 0x10B, 0x93, 0x87, 0x2841, 0x2D, 0x8D, 0x1A1,
	0x100D, 0x2441, 0x2D, 0x2D, 0x225, 0x285, 0x2019, 0x1B,
	0x851, 0x40241, 0xC2001, 0x80D, 0x8241, 0x1B, 0x10025, 0xC041,
	0x125, 0x8805, 0x845, 0xA9, 0x10B, 0x90201, 0xA41, 0x80C1,
	0x2019, 0x6009, 0x2049, 0x225, 0x82041, 0x80409, 0x861, 0x207,
	0x400D, 0x200B, 0xB1, 0xB01, 0x861, 0x810201, 0x84041, 0x800405,
	0x10D, 0x39, 0x251, 0x1D, 0x2141, 0x2803, 0x2409, 0x861,
	0xA0011, 0xC081, 0x2241, 0x289, 0x283, 0x400D, 0x905, 0x851,
	0x2025, 0x823, 0x813, 0x80409, 0x200441, 0x200B, 0x80A1, 0xC0401,
	0xA9, 0x1085, 0xA3, 0x4241, 0x40D, 0xB001, 0x1A01, 0x10281,
	0x1209, 0x225, 0x20441, 0x1000209, 0x2A001, 0x39, 0xA0101, 0x8049,
	0x80043, 0x208009, 0x8501, 0x8085, 0x807, 0x2A01, 0x80301, 0x8241,
	0x600401, 0x1008041, 0x200241, 0x8141, 0x2241, 0x8B, 0x215, 0xA81,
	0x800D, 0x8805, 0x1085, 0xA09, 0x2D, 0x381, 0x8241, 0xC41,
	0xA000201, 0x1281, 0x2000405, 0x200A1, 0x8029, 0xC0000005, 0x2D, 0x10281,
	0x10A1, 0x810041, 0xC005, 0x128001, 0xC005, 0x1209, 0x200809, 0x10D,
	0x8043, 0x24041, 0x2D, 0x8221, 0xC0401, 0x823, 0x28021, 0x10B,
	0x6041, 0x641, 0x845, 0xC41, 0x6081, 0x80D, 0x215, 0x1209,
	0x813, 0xC05, 0x341, 0x2811, 0x10D, 0x609, 0x2409, 0x60081,
	0x200045, 0x883, 0x81005, 0x125, 0x200481, 0x100205, 0x282001, 0x10A1,
	0x4803, 0xA003, 0x2019, 0x2821, 0x28009, 0xA3, 0x42003, 0x88401,
	0x20241, 0x39, 0x845, 0x8141, 0x8049, 0x4809, 0x9021, 0x24401,
	0xC21, 0x84041, 0xC0005, 0x4D, 0x10D, 0x2000061, 0x609, 0xA00041,
	0x24009, 0x400025, 0x90201, 0x840003, 0xA3, 0x42081, 0x200405, 0x12009,
	0xA11, 0xA03, 0x425, 0x8015, 0x22005, 0x4000805, 0x1803, 0x108401,
	0x80D, 0x30081, 0x8403, 0x8440001, 0xC041, 0x28005, 0x2084001, 0x20A0001,
	0x2821, 0x4D, 0x2441, 0x4802001, 0x208081, 0x10800000201, 0xC5, 0x87
};
/* NIST SP 800-38B: doubling in GF(2^(8b)) with the lexicographically first
   irreducible polynomial of minimal weight */
static inline void ref_dbl(uint8_t *x, unsigned b)
{
	uint64_t p = ref_poly[b]; unsigned i, c, msb = x[0] >> 7;
	for(c = 0, i = b; i-- > 0; ) { unsigned v = x[i]; x[i] = (uint8_t)(v << 1 | c); c = v >> 7; }
	if(msb) for(i = 0; i < 6 && i < b; i++) x[b - 1 - i] ^= (uint8_t)(p >> 8 * i);
}
static inline void ref_omac(unsigned b, unsigned r, const uint8_t *key, unsigned k, const uint8_t *m, unsigned n, uint8_t *tag, unsigned t)
{
	uint8_t L[256], c[256]; unsigned i, pos, F = 100 + r;
	memset(L, 0, b); ks_perm(F, 0, key, k, L, L, b); ref_dbl(L, b);
	memset(c, 0, b);
	for(pos = 0; pos + b < n; pos += b) { for(i = 0; i < b; i++) c[i] ^= m[pos + i]; ks_perm(F, 0, key, k, c, c, b); }
	if(n && n - pos == b) { for(i = 0; i < b; i++) c[i] ^= m[pos + i]; }
	else { ref_dbl(L, b); for(i = 0; i < b; i++) c[i] ^= pos + i < n ? m[pos + i] : pos + i == n ? 0x80 : 0; }
	for(i = 0; i < b; i++) c[i] ^= L[i];
	ks_perm(F, 0, key, k, c, c, b);
	memcpy(tag, c, t);
}
/* RFC 3566 (XCBC), any block size */
static inline void ref_xcbc(unsigned b, unsigned r, const uint8_t *key, unsigned k, const uint8_t *m, unsigned n, uint8_t *tag, unsigned t)
{
	uint8_t k1[256], kx[256], c[256]; unsigned i, pos, F = 100 + r;
	memset(k1, 1, b); ks_perm(F, 0, key, k, k1, k1, b);
	memset(c, 0, b);
	for(pos = 0; pos + b < n; pos += b) { for(i = 0; i < b; i++) c[i] ^= m[pos + i]; ks_perm(F, 0, k1, b, c, c, b); }
	if(n && n - pos == b) memset(kx, 2, b); else memset(kx, 3, b);
	ks_perm(F, 0, key, k, kx, kx, b);
	for(i = 0; i < b; i++) c[i] ^= kx[i] ^ (pos + i < n ? m[pos + i] : pos + i == n ? 0x80 : 0);
	ks_perm(F, 0, k1, b, c, c, b);
	memcpy(tag, c, t);
}
#endif
