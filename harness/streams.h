/* the stream ciphers and modes by number; the modes work over the stub cipher with
   blocks of parameter bs bytes */
#ifndef STREAMS_H
#define STREAMS_H
#include "stubs.h"
#include <kripto/stream/chacha.h>
#include <kripto/stream/salsa20.h>
#include <kripto/stream/rc4.h>
#include <kripto/stream/keccak1600.h>
#include <kripto/stream/keccak800.h>
#include <kripto/stream/skein256.h>
#include <kripto/stream/skein512.h>
#include <kripto/stream/skein1024.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/ofb.h>
enum { T_chacha, T_salsa20, T_rc4, T_keccak1600, T_keccak800, T_skein256, T_skein512, T_skein1024, T_cbc, T_cfb, T_ctr, T_ecb, T_ofb, T_N };
static inline int h_ismode(int t) { return t >= T_cbc; }
static inline const kripto_desc_stream *h_stream_over(int t, const kripto_desc_block *b)
{
	switch(t)
	{
		case T_cbc: return kripto_stream_cbc(b);
		case T_cfb: return kripto_stream_cfb(b);
		case T_ctr: return kripto_stream_ctr(b);
		case T_ecb: return kripto_stream_ecb(b);
		case T_ofb: return kripto_stream_ofb(b);
	}
	return 0;
}
static inline const kripto_desc_stream *h_stream(int t)
{
	const kripto_desc_stream *d;
	switch(t)
	{
		case T_chacha: return kripto_stream_chacha;
		case T_salsa20: return kripto_stream_salsa20;
		case T_rc4: return kripto_stream_rc4;
		case T_keccak1600: return kripto_stream_keccak1600;
		case T_keccak800: return kripto_stream_keccak800;
		case T_skein256: return kripto_stream_skein256;
		case T_skein512: return kripto_stream_skein512;
		case T_skein1024: return kripto_stream_skein1024;
	}
	d = h_stream_over(t, h_stub_block((unsigned)ks_param("bs", 8)));
	ks_assert(d != 0, "no descriptor");
	return d;
}
static inline void h_stream_done(int t, const kripto_desc_stream *d) { if(h_ismode(t)) free((void *)d); }
static inline int h_hasprng(int t) { return t != T_cbc && t != T_ecb; }
#endif
