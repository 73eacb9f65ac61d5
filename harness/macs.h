/* the MACs by number: HMAC over the stub hash (block hb, output ho), OMAC and XCBC
   over the stub cipher (block bs), the Keccak and Skein MACs */
#ifndef MACS_H
#define MACS_H
#include "stubs.h"
#include <kripto/mac/hmac.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/xcbc.h>
#include <kripto/mac/keccak1600.h>
#include <kripto/mac/keccak800.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/skein1024.h>
enum { M_hmac, M_omac, M_xcbc, M_keccak1600, M_keccak800, M_skein256, M_skein512, M_skein1024, M_N };
static inline const kripto_desc_mac *h_mac(int m)
{
	const kripto_desc_mac *d = 0;
	switch(m)
	{
		case M_hmac: d = kripto_mac_hmac(h_stub_hash((unsigned)ks_param("hb", 16), (unsigned)ks_param("ho", 12))); break;
		case M_omac: d = kripto_mac_omac(h_stub_block((unsigned)ks_param("bs", 8))); break;
		case M_xcbc: d = kripto_mac_xcbc(h_stub_block((unsigned)ks_param("bs", 8))); break;
		case M_keccak1600: return kripto_mac_keccak1600;
		case M_keccak800: return kripto_mac_keccak800;
		case M_skein256: return kripto_mac_skein256;
		case M_skein512: return kripto_mac_skein512;
		case M_skein1024: return kripto_mac_skein1024;
	}
	ks_assert(d != 0, "no descriptor");
	return d;
}
static inline void h_mac_done(int m, const kripto_desc_mac *d) { if(m < M_keccak1600) free((void *)d); }
#endif
