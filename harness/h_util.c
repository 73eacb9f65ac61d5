/* U01 (PKCS#7), U02 (memory helpers), U04 (random source). */
#define h_stdio_stub 1
#include "ks.h"
#include <kripto/pkcs7.h>
#include <kripto/memory.h>
#include <kripto/version.h>

/* U01 */
#define PB 1100
void pkcs7_add(void) /* block size bs, data length lo..hi, every maximum length */
{
	unsigned bs = (unsigned)ks_param("bs", 16), len = (unsigned)ks_choose(ks_param("lo", 0), ks_param("hi", 33), "len"), need = len + bs - len % bs, i;
	uint8_t b[PB], c[PB]; uint64_t maxlen; size_t r;
	ks_sym(b, need + 3, "data"); memcpy(c, b, need + 3); ks_sym(&maxlen, 8, "maxlen");
	r = kripto_pkcs7_add(b + 1, len, bs, (size_t)maxlen);
	if(maxlen < need) { ks_assert(r == 0, "padding that does not fit is not refused"); ks_eq(b, c, need + 3, "buffer without room"); }
	else
	{
		ks_assert(r == need, "padded length");
		ks_eq(b, c, 1 + len, "data before the padding"); ks_eq(b + 1 + need, c + 1 + need, 2, "bytes behind the padding");
		for(i = len; i < need; i++) c[1 + i] = (uint8_t)(need - len);
		ks_eq(b + 1, c + 1, need, "padded data");
		if(bs < 256)
		{
			ks_assert(kripto_pkcs7_rem(b + 1, need) == len, "removing the padding gives back the length");
			ks_eq(b + 1, c + 1, need, "data after removing the padding"); ks_eq(b, c, 1, "byte before the data");
		}
	}
	ks_cover("end");
}
void pkcs7_rem(void) /* arbitrary contents */
{
	unsigned len = (unsigned)ks_choose(ks_param("lo", 1), ks_param("hi", 64), "len"); uint8_t b[PB], c[PB]; size_t r, e;
	ks_sym(b, len + 2, "data"); memcpy(c, b, len + 2);
	r = kripto_pkcs7_rem(b + 1, len);
	e = c[len] <= len ? len - c[len] : len;
	ks_assert(r == e, "length without padding");
	ks_assert(r <= len, "longer than the buffer");
	ks_eq(b, c, len + 2, "buffer");
	ks_cover("end");
}
void pkcs7_big(void) /* the last 300 bytes arbitrary */
{
	size_t n = (size_t)ks_param("n", 65536), i, r, e; uint8_t *b = malloc(n + 2), *c = malloc(n + 2);
	if(!b || !c) return;
	for(i = 0; i < n + 2; i++) b[i] = (uint8_t)(i * 5 + 1);
	ks_sym(b + n - 300, 300, "data"); memcpy(c, b, n + 2);
	r = kripto_pkcs7_rem(b, n); e = n - c[n - 1];
	ks_assert(r == e, "length without padding"); ks_eq(b, c, n + 2, "buffer"); free(b); free(c); ks_cover("end");
}
void pkcs7_addbig(void)
{
	size_t n = (size_t)ks_param("n", 65536), bs = (size_t)ks_param("bs", 16), i, need = n + bs - n % bs; uint8_t *b = malloc(need + 2), *c = malloc(need + 2); uint64_t maxlen; size_t r;
	if(!b || !c) return;
	for(i = 0; i < need + 2; i++) b[i] = (uint8_t)(i * 5 + 1);
	ks_sym(b + n - 200, 200, "data"); memcpy(c, b, need + 2); ks_sym(&maxlen, 8, "maxlen");
	r = kripto_pkcs7_add(b, n, (unsigned)bs, (size_t)maxlen);
	if(maxlen < need) { ks_assert(r == 0, "padding that does not fit is not refused"); ks_eq(b, c, need + 2, "buffer without room"); }
	else
	{
		ks_assert(r == need, "padded length");
		for(i = n; i < need; i++) c[i] = (uint8_t)(need - n);
		ks_eq(b, c, need + 2, "padded data");
		ks_assert(kripto_pkcs7_rem(b, need) == n, "removing the padding gives back the length"); ks_eq(b, c, need + 2, "buffer after removing the padding");
	}
	free(b); free(c); ks_cover("end");
}
/* lengths beyond 16, 31 and 32 bits: only the surroundings of the end are accessible */
void pkcs7_far(void)
{
	uint8_t t[900], c[900]; size_t n = ((size_t)1 << ks_param("e", 32)) + (size_t)(int64_t)ks_param("l", 0), r, need, e; unsigned bs = (unsigned)ks_param("bs", 16), i; uint64_t maxlen;
	void *b = (void *)((uintptr_t)t + 300 - n);
	ks_sym(t, 900, "data"); memcpy(c, t, 900); ks_sym(&maxlen, 8, "maxlen"); need = n + bs - n % bs;
	r = kripto_pkcs7_rem(b, n); e = c[299] <= n ? n - c[299] : n;
	ks_assert(r == e, "length after removing the padding"); ks_eq(t, c, 900, "buffer after removing the padding");
	r = kripto_pkcs7_add(b, n, bs, (size_t)maxlen);
	if(maxlen < need) { ks_assert(r == 0, "padding that does not fit is not refused"); ks_eq(t, c, 900, "buffer without room"); }
	else
	{
		ks_assert(r == need, "padded length");
		for(i = 0; i < need - n; i++) c[300 + i] = (uint8_t)(need - n);
		ks_eq(t, c, 900, "padded data");
		ks_assert(kripto_pkcs7_rem(b, need) == n, "removing the padding gives back the length"); ks_eq(t, c, 900, "buffer after removing the padding");
	}
	ks_cover("end");
}

/* U02 */
void mem_equals(void)
{
	unsigned n = (unsigned)ks_choose(ks_param("lo", 0), ks_param("hi", 24), "len"), i, o = (unsigned)ks_choose(0, 1, "offset"), diff = 0; uint8_t a[400], b[400], c[400]; unsigned char r;
	ks_secret(a, n + 3, "a"); ks_secret(b, n + 3, "b"); memcpy(c, a, n + 3);
	ks_ct(1); r = kripto_memory_equals(a + 1, b + o, n); ks_ct(0);
	for(i = 0; i < n; i++) diff |= a[1 + i] ^ b[o + i];
	ks_assert((r != 0) == (diff == 0), "result of the comparison");
	ks_eq(a, c, n + 3, "first region");
	ks_cover("end");
}
void mem_equals1(void) /* one byte differs, by any value, at any place */
{
	unsigned n = (unsigned)ks_param("n", 300), k = (unsigned)ks_choose(0, (int)n - 1, "place"); uint8_t a[400], b[400], d; unsigned char r;
	ks_secret(a, n, "a"); memcpy(b, a, n); ks_secret(&d, 1, "difference"); b[k] ^= d;
	ks_ct(1); r = kripto_memory_equals(a, b, n); ks_ct(0);
	ks_assert((r != 0) == (d == 0), "result of the comparison"); ks_cover("end");
}
/* long regions: fixed contents but for arbitrary bytes at the places around which an
   implementation changes its step */
void mem_equals_big(void)
{
	unsigned n = (unsigned)ks_param("n", 65537), i, k = 0, diff = 0; uint8_t *a = malloc(n + 8), *b = malloc(n + 8); unsigned char r; int m = ks_param("m", 0);
	if(!a || !b) return;
	for(i = 0; i < n + 8; i++) a[i] = b[i] = (uint8_t)(i * 7 + (i >> 8));
	for(i = 0; i < n; i++)
	{
		unsigned near = i < 2 || i + 2 >= n || (i & 4095) == 0 || (i & 4095) == 4095 || i == 255 || i == 256 || i == 257 || (i & 0x3FF) == (n & 0x3FF);
		if(near) { ks_secret(a + 1 + i, 1, "a"); ks_secret(b + i, 1, "b"); diff |= a[1 + i] ^ b[i]; k++; } else b[i] = a[1 + i];
	}
	if(m) { /* accumulated differences that could cancel: one value at two places */
		uint8_t d; unsigned p = (unsigned)ks_param("p", 0), q = (unsigned)ks_param("q", 256);
		for(i = 0; i < n; i++) b[i] = a[1 + i];
		ks_secret(&d, 1, "difference"); b[p] ^= d; b[q] ^= d; diff = d;
	}
	ks_ct(1); r = kripto_memory_equals(a + 1, b, n); ks_ct(0);
	ks_assert((r != 0) == (diff == 0), "result of the comparison");
	ks_assert(k > 0, "places"); free(a); free(b); ks_cover("end");
}
void mem_same(void)
{
	unsigned n = (unsigned)ks_choose(0, 300, "len"); uint8_t a[400]; ks_secret(a, n + 1, "a");
	ks_ct(1);
	ks_assert(kripto_memory_equals(a, a, n) != 0, "a region equals itself");
	ks_ct(0); ks_cover("end");
}
void mem_wipe(void)
{
	unsigned n = (unsigned)ks_choose(ks_param("lo", 0), ks_param("hi", 70), "len"), o = (unsigned)ks_choose(0, 2, "offset"), i; uint8_t a[1100], c[1100];
	ks_secret(a, n + 5, "a"); memcpy(c, a, n + 5);
	ks_ct(1); kripto_memory_wipe(a + o, n); ks_ct(0);
	for(i = 0; i < n; i++) c[o + i] = 0;
	ks_eq(a, c, n + 5, "memory after the wipe"); ks_cover("end");
}
void mem_wipe_big(void)
{
	unsigned n = (unsigned)ks_param("n", 70000), i, bad = 0; uint8_t *a = malloc(n + 2);
	if(!a) return;
	memset(a, 0xC3, n + 2); kripto_memory_wipe(a + 1, n);
	for(i = 0; i < n; i++) bad |= a[1 + i];
	ks_assert(bad == 0, "bytes left by the wipe"); ks_assert(a[0] == 0xC3 && a[n + 1] == 0xC3, "bytes around the wiped region");
	free(a); ks_cover("end");
}
void version(void)
{
	ks_assert(kripto_version_major == KRIPTO_VERSION_MAJOR && kripto_version_minor == KRIPTO_VERSION_MINOR && kripto_version_revision == KRIPTO_VERSION_REVISION, "version"); ks_cover("end");
}
