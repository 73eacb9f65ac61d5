/* H02, H03 and the hash part of the X properties, generic over the hash (parameter h). */
#include "hashes.h"

/* parameters: n total length; o output length; s salt length; r rounds;
   m = number of cuts (1: every cut; 2: two cuts out of the boundary set) */
static int h_near(unsigned x, unsigned bs, unsigned n)
{
	return x == 0 || x == 1 || x == n || x + 1 == n || x % bs == 0 || x % bs == 1 || x % bs == bs - 1;
}
void hash_split(void)
{
	int h = ks_param("h", 0), m = ks_param("m", 1);
	const kripto_desc_hash *d = h_hash(h);
	unsigned n = (unsigned)ks_param("n", 0), o = (unsigned)ks_param("o", 16), s = (unsigned)ks_param("s", 0), r = (unsigned)ks_param("r", 0), bs = h_rate(h, o);
	uint8_t msg[1024]; uint8_t salt[160], x[256], y[256]; unsigned a, b, c;
	kripto_hash *p;
	ks_sym(msg, n, "msg"); ks_sym(salt, s, "salt");
	ks_assert(kripto_hash_all(d, r, salt, s, msg, n, x, o) == 0, "kripto_hash_all failed");
	p = kripto_hash_create(d, r, salt, s, o);
	ks_assert(p != 0, "creation failed");
	if(m == 0)
	{
		for(a = 0; a < n; a++) kripto_hash_input(p, msg + a, 1);
	}
	else
	{
		a = (unsigned)ks_choose(0, (int)n, "cut1");
		if(m == 2)
		{
			if(!h_near(a, bs, n)) { ks_cover("skip"); return; }
			b = (unsigned)ks_choose((int)a, (int)n, "cut2");
			if(!h_near(b, bs, n) && b - a != bs) { ks_cover("skip"); return; }
		}
		else b = a;
		kripto_hash_input(p, msg, a); kripto_hash_input(p, msg + a, b - a); kripto_hash_input(p, msg + b, n - b);
	}
	c = ks_param("oc", 0) ? (unsigned)ks_choose(0, (int)o, "outcut") : 0;
	kripto_hash_output(p, y, c); kripto_hash_output(p, y + c, o - c);
	ks_eq(x, y, o, "digest of the pieces");
	kripto_hash_destroy(p);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
/* longer output than one squeeze, split (hashes without an output limit) */
void hash_long(void)
{
	int h = ks_param("h", 0);
	const kripto_desc_hash *d = h_hash(h);
	unsigned n = (unsigned)ks_param("n", 3), o = (unsigned)ks_param("o", 16), t = (unsigned)ks_param("t", 40), c;
	uint8_t msg[64]; uint8_t x[1024], y[1024];
	kripto_hash *p, *q;
	ks_sym(msg, n, "msg");
	p = kripto_hash_create(d, 0, 0, 0, o); q = kripto_hash_create(d, 0, 0, 0, o);
	ks_assert(p && q, "creation failed");
	kripto_hash_input(p, msg, n); kripto_hash_input(q, msg, n);
	c = (unsigned)ks_choose(0, (int)t, "outcut");
	kripto_hash_output(p, x, t);
	kripto_hash_output(q, y, c); kripto_hash_output(q, y + c, t - c);
	ks_eq(x, y, t, "output in pieces");
	kripto_hash_destroy(p); kripto_hash_destroy(q);
	ks_cover("end");
}
/* H03: parameters r1,s1,o1,n1,f (1: read the output before), then r,s,o,n */
void hash_recreate(void)
{
	int h = ks_param("h", 0);
	const kripto_desc_hash *d = h_hash(h);
	unsigned r1 = (unsigned)ks_param("r1", 0), s1 = (unsigned)ks_param("s1", 0), o1 = (unsigned)ks_param("o1", 16), r = (unsigned)ks_param("r", 0), s = (unsigned)ks_param("s", 0), o = (unsigned)ks_param("o", 16);
	int n1 = ks_param("n1", 5), n = ks_param("n", 3), f;
	uint8_t old[1024], msg[1024]; uint8_t salt1[160], salt[160], x[256], y[256], w[256];
	kripto_hash *p, *q;
	if(n1 < 0) n1 = ks_choose(0, -n1, "oldlen");
	if(n < 0) n = ks_choose(0, -n, "len");
	f = ks_choose(0, 2, "finished");
	ks_sym(old, (size_t)n1, "old"); ks_sym(msg, (size_t)n, "msg"); ks_sym(salt1, s1, "oldsalt"); ks_sym(salt, s, "salt");
	p = kripto_hash_create(d, r1, salt1, s1, o1);
	ks_assert(p != 0, "creation failed");
	kripto_hash_input(p, old, (size_t)n1);
	if(f == 1) kripto_hash_output(p, w, o1);
	if(f == 2) kripto_hash_output(p, w, 1);
	p = kripto_hash_recreate(p, r, salt, s, o);
	ks_assert(p != 0, "recreation failed");
	ks_assert(kripto_hash_getdesc(p) == d, "descriptor after recreate");
	q = kripto_hash_create(d, r, salt, s, o);
	ks_assert(q != 0, "creation failed");
	kripto_hash_input(p, msg, (size_t)n); kripto_hash_input(q, msg, (size_t)n);
	kripto_hash_output(p, x, o); kripto_hash_output(q, y, o);
	ks_eq(x, y, o, "digest after recreate");
	kripto_hash_destroy(p); kripto_hash_destroy(q);
	ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
