/* Lengths that do not fit a narrower integer: a call is given (1 << e) + l bytes, of
   which only the first there (H_THERE) are there. The call goes well when it reaches beyond them
   (a call that handles every byte must); it fails when it returns, because then it has
   not. kd 0 hash input, 1 hash output, 2..4 stream encrypt, decrypt, prng, 5 MAC input,
   6..8 AE header, encrypt, decrypt, 9 memory_equals, 10 memory_wipe, 11 PBKDF2 output,
   12 scrypt output,
   13 kripto_hash_all input, 14 kripto_mac_all input; i: which; a: bytes handled by a call before */
#define H_CAP 1600
#define H_THERE 640
#include "streams.h"
#include "macs.h"
#include "hashes.h"
#include <kripto/ae.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#include <kripto/memory.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
void far_len(void)
{
	int kd = ks_param("kd", 0), i = ks_param("i", 0); unsigned o = (unsigned)ks_param("o", 16), a = (unsigned)ks_param("a", 0); size_t n = ((size_t)1 << ks_param("e", 32)) + (size_t)(long)ks_param("l", 5);
	uint8_t key[32], iv[16], z[H_THERE], y[H_THERE]; size_t th = (size_t)ks_param("there", H_THERE); uint8_t *x = ks_edge(th);
	memset(key, 0x5A, 32); memset(iv, 0x3C, 16); memset(z, 0, sizeof z);
	if(kd == 13) ks_assert(kripto_hash_all(h_hash(i), 0, 0, 0, x, n, y, o) == 0, "hash failed");
	else if(kd == 14) ks_assert(kripto_mac_all(h_mac(i), 0, key, 16, x, n, y, 8) == 0, "MAC failed");
	else if(kd < 2)
	{
		kripto_hash *h = kripto_hash_create(h_hash(i), 0, 0, 0, o);
		ks_assert(h != 0, "creation failed");
		if(a) kripto_hash_input(h, z, a);
		if(kd == 0) kripto_hash_input(h, x, n); else kripto_hash_output(h, x, n);
	}
	else if(kd < 5)
	{
		kripto_stream *s = kripto_stream_create(h_stream(i), 0, key, 16, i == T_ecb || i == T_rc4 ? 0 : iv, i == T_ecb || i == T_rc4 ? 0 : 8);
		ks_assert(s != 0, "creation failed");
		if(a) kripto_stream_encrypt(s, z, y, a);
		if(kd == 2) kripto_stream_encrypt(s, x, x, n); else if(kd == 3) kripto_stream_decrypt(s, x, x, n); else kripto_stream_prng(s, x, n);
	}
	else if(kd == 5)
	{
		kripto_mac *m = kripto_mac_create(h_mac(i), 0, key, 16, 8);
		ks_assert(m != 0, "creation failed");
		if(a) kripto_mac_input(m, z, a);
		kripto_mac_input(m, x, n);
	}
	else if(kd < 9)
	{
		kripto_ae *s = kripto_ae_create(i ? kripto_ae_eax2(h_stub_stream(32, 16), h_stub_mac(16, 64)) : kripto_ae_eax(h_stub_block(8)), 0, key, 16, iv, 8, 8);
		ks_assert(s != 0, "creation failed");
		if(kd == 6) { if(a) kripto_ae_header(s, z, a); kripto_ae_header(s, x, n); }
		else
		{
			if(a) kripto_ae_encrypt(s, z, y, a);
			if(kd == 7) kripto_ae_encrypt(s, x, x, n); else kripto_ae_decrypt(s, x, x, n);
		}
	}
	else if(kd == 9) (void)kripto_memory_equals(x, ks_edge(th), n);
	else if(kd == 10) kripto_memory_wipe(x, n);
	else if(kd == 11) ks_assert(kripto_pbkdf2(h_stub_mac(o, 64), 0, 1, key, 8, iv, 8, x, n) == 0, "PBKDF2 failed");
	else ks_assert(kripto_scrypt(h_stub_mac(o, 64), 0, 2, 1, 1, key, 8, iv, 8, x, n) == 0, "scrypt failed");
	ks_assert(0, "the call returned before it had handled all bytes");
	ks_cover("end");
}
