/* the frozen reference copy of the block ciphers (ref/golden) */
#ifndef GOLDEN_H
#define GOLDEN_H
extern const void *const ref_kripto_block_3way;
extern const void *const ref_kripto_block_aes;
extern const void *const ref_kripto_block_anubis;
extern const void *const ref_kripto_block_aria;
extern const void *const ref_kripto_block_blowfish;
extern const void *const ref_kripto_block_camellia;
extern const void *const ref_kripto_block_cast5;
extern const void *const ref_kripto_block_crax_s;
extern const void *const ref_kripto_block_des;
extern const void *const ref_kripto_block_idea;
extern const void *const ref_kripto_block_khazad;
extern const void *const ref_kripto_block_lea;
extern const void *const ref_kripto_block_noekeon;
extern const void *const ref_kripto_block_rc2;
extern const void *const ref_kripto_block_rc5;
extern const void *const ref_kripto_block_rc6;
extern const void *const ref_kripto_block_rectangle;
extern const void *const ref_kripto_block_rijndael128;
extern const void *const ref_kripto_block_rijndael256;
extern const void *const ref_kripto_block_safer;
extern const void *const ref_kripto_block_safer_sk;
extern const void *const ref_kripto_block_saferpp;
extern const void *const ref_kripto_block_seed;
extern const void *const ref_kripto_block_serpent;
extern const void *const ref_kripto_block_shacal2;
extern const void *const ref_kripto_block_simon32;
extern const void *const ref_kripto_block_simon64;
extern const void *const ref_kripto_block_simon128;
extern const void *const ref_kripto_block_skipjack;
extern const void *const ref_kripto_block_sm4;
extern const void *const ref_kripto_block_speck32;
extern const void *const ref_kripto_block_speck64;
extern const void *const ref_kripto_block_speck128;
extern const void *const ref_kripto_block_tea;
extern const void *const ref_kripto_block_threefish256;
extern const void *const ref_kripto_block_threefish512;
extern const void *const ref_kripto_block_threefish1024;
extern const void *const ref_kripto_block_trax_l;
extern const void *const ref_kripto_block_trax_m;
extern const void *const ref_kripto_block_twofish;
extern const void *const ref_kripto_block_xtea;
extern void *ref_kripto_block_gost_cbr(void);
extern void *ref_kripto_block_gost_r34_12_2015(void);
extern void *ref_kripto_block_create(const void *, unsigned, const void *, unsigned);
extern void ref_kripto_block_tweak(void *, const void *, unsigned);
extern void ref_kripto_block_encrypt(const void *, const void *, void *);
extern void ref_kripto_block_decrypt(const void *, const void *, void *);
extern void ref_kripto_block_destroy(void *);
static const void *h_golden(int c)
{
	switch(c)
	{
		case C_3way: return ref_kripto_block_3way;
		case C_aes: return ref_kripto_block_aes;
		case C_anubis: return ref_kripto_block_anubis;
		case C_aria: return ref_kripto_block_aria;
		case C_blowfish: return ref_kripto_block_blowfish;
		case C_camellia: return ref_kripto_block_camellia;
		case C_cast5: return ref_kripto_block_cast5;
		case C_crax_s: return ref_kripto_block_crax_s;
		case C_des: return ref_kripto_block_des;
		case C_idea: return ref_kripto_block_idea;
		case C_khazad: return ref_kripto_block_khazad;
		case C_lea: return ref_kripto_block_lea;
		case C_noekeon: return ref_kripto_block_noekeon;
		case C_rc2: return ref_kripto_block_rc2;
		case C_rc5: return ref_kripto_block_rc5;
		case C_rc6: return ref_kripto_block_rc6;
		case C_rectangle: return ref_kripto_block_rectangle;
		case C_rijndael128: return ref_kripto_block_rijndael128;
		case C_rijndael256: return ref_kripto_block_rijndael256;
		case C_safer: return ref_kripto_block_safer;
		case C_safer_sk: return ref_kripto_block_safer_sk;
		case C_saferpp: return ref_kripto_block_saferpp;
		case C_seed: return ref_kripto_block_seed;
		case C_serpent: return ref_kripto_block_serpent;
		case C_shacal2: return ref_kripto_block_shacal2;
		case C_simon32: return ref_kripto_block_simon32;
		case C_simon64: return ref_kripto_block_simon64;
		case C_simon128: return ref_kripto_block_simon128;
		case C_skipjack: return ref_kripto_block_skipjack;
		case C_sm4: return ref_kripto_block_sm4;
		case C_speck32: return ref_kripto_block_speck32;
		case C_speck64: return ref_kripto_block_speck64;
		case C_speck128: return ref_kripto_block_speck128;
		case C_tea: return ref_kripto_block_tea;
		case C_threefish256: return ref_kripto_block_threefish256;
		case C_threefish512: return ref_kripto_block_threefish512;
		case C_threefish1024: return ref_kripto_block_threefish1024;
		case C_trax_l: return ref_kripto_block_trax_l;
		case C_trax_m: return ref_kripto_block_trax_m;
		case C_twofish: return ref_kripto_block_twofish;
		case C_xtea: return ref_kripto_block_xtea;
		case C_gost_cbr: return ref_kripto_block_gost_cbr();
		case C_gost_r34: return ref_kripto_block_gost_r34_12_2015();
		default: return 0;
	}
}
#endif
