/* MAC properties, generic over the MAC (m), key length (k), message length (n; < 0:
   every length up to -n), tag length (t) and rounds (r). */
#include "macs.h"
#include "ref_mac.h"
#define MAXM 420
#define MAXK 310
static unsigned h_len(const char *p, int dflt, const char *nm)
{
	int n = ks_param(p, dflt);
	return n < 0 ? (unsigned)ks_choose(0, -n, nm) : (unsigned)n;
}
/* M01: the tag of the definition, by create/input/tag and by mac_all */
void mac_spec(void)
{
	int m = ks_param("m", M_hmac); const kripto_desc_mac *d = h_mac(m);
	unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), t = (unsigned)ks_param("t", 8), n = h_len("n", -20, "len");
	uint8_t key[MAXK], kc[MAXK], msg[MAXM], mc[MAXM], x[264], y[264]; kripto_mac *s;
	ks_secret(key, k, "key"); ks_sym(msg, n, "msg"); memcpy(kc, key, k); memcpy(mc, msg, n);
	if(m == M_hmac) ref_hmac((unsigned)ks_param("hb", 16), r, key, k, msg, n, y, t);
	else if(m == M_omac) ref_omac((unsigned)ks_param("bs", 8), r, key, k, msg, n, y, t);
	else ref_xcbc((unsigned)ks_param("bs", 8), r, key, k, msg, n, y, t);
	s = kripto_mac_create(d, r, key, k, t);
	ks_assert(s != 0, "creation failed");
	kripto_mac_input(s, msg, n);
	memset(x, 0xA5, t + 1);
	kripto_mac_tag(s, x, t);
	ks_eq(x, y, t, "tag"); ks_assert(x[t] == 0xA5, "byte after the tag");
	ks_eq(key, kc, k, "key buffer"); ks_eq(msg, mc, n, "message buffer");
	ks_assert(kripto_mac_all(d, r, key, k, msg, n, x, t) == 0, "kripto_mac_all failed");
	ks_eq(x, y, t, "kripto_mac_all");
	kripto_mac_destroy(s); h_mac_done(m, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* M02: the tag does not depend on the pieces; the tag may be read in pieces except for HMAC */
void mac_split(void)
{
	int m = ks_param("m", M_hmac), cuts = ks_param("cuts", 2); const kripto_desc_mac *d = h_mac(m);
	unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), t = (unsigned)ks_param("t", 8), n = h_len("n", 20, "len"), a, b, c, i;
	uint8_t key[MAXK], msg[MAXM], x[264], y[264]; kripto_mac *s;
	ks_secret(key, k, "key"); ks_sym(msg, n, "msg");
	ks_assert(kripto_mac_all(d, r, key, k, msg, n, y, t) == 0, "kripto_mac_all failed");
	s = kripto_mac_create(d, r, key, k, t);
	ks_assert(s != 0, "creation failed");
	if(cuts)
	{
		a = (unsigned)ks_choose(0, (int)n, "cut1"); b = cuts > 1 ? (unsigned)ks_choose((int)a, (int)n, "cut2") : n;
		kripto_mac_input(s, msg, a); kripto_mac_input(s, msg + a, b - a); kripto_mac_input(s, msg + b, n - b);
	}
	else for(i = 0; i < n; i++) { kripto_mac_input(s, msg + i, 1); kripto_mac_input(s, msg, 0); }
	c = m == M_hmac ? t : (unsigned)ks_choose(0, (int)t, "tagcut");
	if(c < t) { kripto_mac_tag(s, x, c); kripto_mac_tag(s, x + c, t - c); } else kripto_mac_tag(s, x, t);
	ks_eq(x, y, t, "tag of the pieces");
	kripto_mac_destroy(s); h_mac_done(m, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* M02: verify accepts exactly the tag. */
void mac_verify(void)
{
	int m = ks_param("m", M_hmac), e, same; const kripto_desc_mac *d = h_mac(m);
	unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), t = (unsigned)ks_param("t", 8), n = h_len("n", 5, "len"), l, i;
	uint8_t key[MAXK], msg[MAXM], x[256], c[256], cc[256]; kripto_mac *s;
	if(ks_param("ck", 0)) { for(i = 0; i < k; i++) key[i] = (uint8_t)(i * 57 + 3); for(i = 0; i < n; i++) msg[i] = (uint8_t)(i * 23 + 9); }
	else { ks_secret(key, k, "key"); ks_sym(msg, n, "msg"); }
	ks_sym(c, t, "candidate");
	l = m == M_hmac ? t : (unsigned)ks_choose(1, (int)t, "verified");
	s = kripto_mac_create(d, r, key, k, t); ks_assert(s != 0, "creation failed");
	kripto_mac_input(s, msg, n); kripto_mac_tag(s, x, l); kripto_mac_destroy(s);
	s = kripto_mac_create(d, r, key, k, t); ks_assert(s != 0, "creation failed");
	kripto_mac_input(s, msg, n);
	if(!ks_choose(0, 1, "arbitrary"))
	{
		/* the candidate is the tag, xor an arbitrary difference in one byte */
		uint8_t df; i = (unsigned)ks_choose(0, (int)l - 1, "at"); ks_sym(&df, 1, "diff");
		memcpy(c, x, l); c[i] ^= df; memcpy(cc, c, l);
		e = kripto_mac_verify(s, c, l);
		ks_assert((e != 0) == (df == 0), "verification of a tag with one byte changed");
	}
	else
	{
		memcpy(cc, c, l);
		e = kripto_mac_verify(s, c, l);
		for(same = 1, i = 0; i < l; i++) same &= c[i] == x[i];
		ks_assert((e != 0) == same, "verification of an arbitrary tag");
	}
	ks_eq(c, cc, l, "candidate buffer");
	kripto_mac_destroy(s); h_mac_done(m, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* M03: recreate; k1, r1, t1, n1 (n1 < 0: every length): before */
void mac_recreate(void)
{
	int m = ks_param("m", M_hmac); const kripto_desc_mac *d = h_mac(m);
	unsigned k = (unsigned)ks_param("k", 16), r = (unsigned)ks_param("r", 0), t = (unsigned)ks_param("t", 8), n = h_len("n", 5, "len");
	unsigned k1 = (unsigned)ks_param("k1", 16), r1 = (unsigned)ks_param("r1", 0), t1 = (unsigned)ks_param("t1", 8), n1 = h_len("n1", 5, "oldlen");
	uint8_t key[MAXK], key1[MAXK], msg[MAXM], old[MAXM], x[264], y[264]; kripto_mac *s;
	ks_secret(key, k, "key"); ks_sym(msg, n, "msg"); ks_secret(key1, k1, "oldkey"); ks_sym(old, n1, "old");
	ks_assert(kripto_mac_all(d, r, key, k, msg, n, y, t) == 0, "kripto_mac_all failed");
	s = kripto_mac_create(d, r1, key1, k1, t1);
	ks_assert(s != 0, "creation failed");
	kripto_mac_input(s, old, n1);
	switch(ks_choose(0, 2, "then")) { case 1: kripto_mac_tag(s, x, t1); break; case 2: (void)kripto_mac_verify(s, old, t1 < n1 ? t1 : n1 ? n1 : 1); break; }
	s = kripto_mac_recreate(s, r, key, k, t);
	ks_assert(s != 0, "recreation failed");
	ks_assert(kripto_mac_getdesc(s) == d, "descriptor after recreate");
	kripto_mac_input(s, msg, n);
	kripto_mac_tag(s, x, t);
	ks_eq(x, y, t, "tag after recreate");
	if(ks_param("twice", 0))
	{
		s = kripto_mac_recreate(s, r, key, k, t); ks_assert(s != 0, "recreation failed");
		kripto_mac_input(s, msg, n); kripto_mac_tag(s, x, t);
		ks_eq(x, y, t, "tag after the second recreate");
	}
	kripto_mac_destroy(s); h_mac_done(m, d);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
