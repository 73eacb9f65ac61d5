/* M01: the Keccak and Skein MACs against the frozen reference copy */
#include "macs.h"
#include "goldenapi.h"
static const void *g_mac(int m)
{
	switch(m)
	{
		case M_keccak1600: return ref_kripto_mac_keccak1600;
		case M_keccak800: return ref_kripto_mac_keccak800;
		case M_skein256: return ref_kripto_mac_skein256;
		case M_skein512: return ref_kripto_mac_skein512;
		case M_skein1024: return ref_kripto_mac_skein1024;
	}
	return 0;
}
void mac_golden(void)
{
	int m = ks_param("m", M_skein256), kp = ks_param("k", 16), np = ks_param("n", -20); const kripto_desc_mac *d = h_mac(m);
	unsigned k, n, r = (unsigned)ks_param("r", 0), t = (unsigned)ks_param("t", 8);
	uint8_t key[420], msg[420], x[128], y[128]; kripto_mac *s; void *q;
	k = kp < 0 ? (unsigned)ks_choose(ks_param("klo", 1), -kp, "keylen") : (unsigned)kp;
	n = np < 0 ? (unsigned)ks_choose(ks_param("nlo", 0), -np, "len") : (unsigned)np;
	ks_secret(key, k, "key"); ks_sym(msg, n, "msg");
	s = kripto_mac_create(d, r, key, k, t); q = ref_kripto_mac_create(g_mac(m), r, key, k, t);
	ks_assert(s != 0, "creation failed");
	kripto_mac_input(s, msg, n); ref_kripto_mac_input(q, msg, n);
	kripto_mac_tag(s, x, t); ref_kripto_mac_tag(q, y, t);
	ks_eq(x, y, t, "tag");
	kripto_mac_destroy(s); ref_kripto_mac_destroy(q);
	ks_cover("end");
}
