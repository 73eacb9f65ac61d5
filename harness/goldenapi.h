/* the frozen reference copy (ref/golden), all of its interface; untyped so that a
   change of the library's own headers cannot reach it */
#ifndef GOLDENAPI_H
#define GOLDENAPI_H
#include <stddef.h>
extern const void *const ref_kripto_hash_blake256, *const ref_kripto_hash_blake2b, *const ref_kripto_hash_blake2s, *const ref_kripto_hash_blake512,
	*const ref_kripto_hash_keccak1600, *const ref_kripto_hash_keccak800, *const ref_kripto_hash_md5, *const ref_kripto_hash_sha1,
	*const ref_kripto_hash_sha2_256, *const ref_kripto_hash_sha2_512, *const ref_kripto_hash_sha3, *const ref_kripto_hash_skein1024,
	*const ref_kripto_hash_skein256, *const ref_kripto_hash_skein512, *const ref_kripto_hash_tiger, *const ref_kripto_hash_whirlpool;
extern void *ref_kripto_hash_create(const void *, unsigned, const void *, unsigned, unsigned);
extern void ref_kripto_hash_input(void *, const void *, size_t);
extern void ref_kripto_hash_output(void *, void *, size_t);
extern void ref_kripto_hash_destroy(void *);
extern const void *const ref_kripto_stream_chacha, *const ref_kripto_stream_salsa20, *const ref_kripto_stream_rc4, *const ref_kripto_stream_keccak1600,
	*const ref_kripto_stream_keccak800, *const ref_kripto_stream_skein256, *const ref_kripto_stream_skein512, *const ref_kripto_stream_skein1024;
extern void *ref_kripto_stream_create(const void *, unsigned, const void *, unsigned, const void *, unsigned);
extern void ref_kripto_stream_encrypt(void *, const void *, void *, size_t);
extern void ref_kripto_stream_decrypt(void *, const void *, void *, size_t);
extern void ref_kripto_stream_prng(void *, void *, size_t);
extern void ref_kripto_stream_destroy(void *);
extern const void *const ref_kripto_mac_keccak1600, *const ref_kripto_mac_keccak800, *const ref_kripto_mac_skein256, *const ref_kripto_mac_skein512, *const ref_kripto_mac_skein1024;
extern void *ref_kripto_mac_create(const void *, unsigned, const void *, unsigned, unsigned);
extern void ref_kripto_mac_input(void *, const void *, size_t);
extern void ref_kripto_mac_tag(void *, void *, unsigned);
extern void ref_kripto_mac_destroy(void *);
#endif
