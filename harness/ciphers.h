/* the block ciphers of the library, by number */
#include "ks.h"
#include <kripto/block.h>
#include <kripto/desc/block.h>
#include <kripto/block/3way.h>
#include <kripto/block/aes.h>
#include <kripto/block/anubis.h>
#include <kripto/block/aria.h>
#include <kripto/block/blowfish.h>
#include <kripto/block/camellia.h>
#include <kripto/block/cast5.h>
#include <kripto/block/crax_s.h>
#include <kripto/block/des.h>
#include <kripto/block/idea.h>
#include <kripto/block/khazad.h>
#include <kripto/block/lea.h>
#include <kripto/block/noekeon.h>
#include <kripto/block/rc2.h>
#include <kripto/block/rc5.h>
#include <kripto/block/rc6.h>
#include <kripto/block/rectangle.h>
#include <kripto/block/rijndael128.h>
#include <kripto/block/rijndael256.h>
#include <kripto/block/safer.h>
#include <kripto/block/safer_sk.h>
#include <kripto/block/saferpp.h>
#include <kripto/block/seed.h>
#include <kripto/block/serpent.h>
#include <kripto/block/shacal2.h>
#include <kripto/block/simon32.h>
#include <kripto/block/simon64.h>
#include <kripto/block/simon128.h>
#include <kripto/block/skipjack.h>
#include <kripto/block/sm4.h>
#include <kripto/block/speck32.h>
#include <kripto/block/speck64.h>
#include <kripto/block/speck128.h>
#include <kripto/block/tea.h>
#include <kripto/block/threefish256.h>
#include <kripto/block/threefish512.h>
#include <kripto/block/threefish1024.h>
#include <kripto/block/trax_l.h>
#include <kripto/block/trax_m.h>
#include <kripto/block/twofish.h>
#include <kripto/block/xtea.h>
#include <kripto/block/gost.h>
enum { C_3way, C_aes, C_anubis, C_aria, C_blowfish, C_camellia, C_cast5, C_crax_s, C_des, C_idea, C_khazad, C_lea, C_noekeon, C_rc2, C_rc5, C_rc6, C_rectangle, C_rijndael128, C_rijndael256, C_safer, C_safer_sk, C_saferpp, C_seed, C_serpent, C_shacal2, C_simon32, C_simon64, C_simon128, C_skipjack, C_sm4, C_speck32, C_speck64, C_speck128, C_tea, C_threefish256, C_threefish512, C_threefish1024, C_trax_l, C_trax_m, C_twofish, C_xtea, C_gost_cbr, C_gost_r34, C_N };
static const kripto_desc_block *h_cipher(int c)
{
	switch(c)
	{
		case C_3way: return kripto_block_3way;
		case C_aes: return kripto_block_aes;
		case C_anubis: return kripto_block_anubis;
		case C_aria: return kripto_block_aria;
		case C_blowfish: return kripto_block_blowfish;
		case C_camellia: return kripto_block_camellia;
		case C_cast5: return kripto_block_cast5;
		case C_crax_s: return kripto_block_crax_s;
		case C_des: return kripto_block_des;
		case C_idea: return kripto_block_idea;
		case C_khazad: return kripto_block_khazad;
		case C_lea: return kripto_block_lea;
		case C_noekeon: return kripto_block_noekeon;
		case C_rc2: return kripto_block_rc2;
		case C_rc5: return kripto_block_rc5;
		case C_rc6: return kripto_block_rc6;
		case C_rectangle: return kripto_block_rectangle;
		case C_rijndael128: return kripto_block_rijndael128;
		case C_rijndael256: return kripto_block_rijndael256;
		case C_safer: return kripto_block_safer;
		case C_safer_sk: return kripto_block_safer_sk;
		case C_saferpp: return kripto_block_saferpp;
		case C_seed: return kripto_block_seed;
		case C_serpent: return kripto_block_serpent;
		case C_shacal2: return kripto_block_shacal2;
		case C_simon32: return kripto_block_simon32;
		case C_simon64: return kripto_block_simon64;
		case C_simon128: return kripto_block_simon128;
		case C_skipjack: return kripto_block_skipjack;
		case C_sm4: return kripto_block_sm4;
		case C_speck32: return kripto_block_speck32;
		case C_speck64: return kripto_block_speck64;
		case C_speck128: return kripto_block_speck128;
		case C_tea: return kripto_block_tea;
		case C_threefish256: return kripto_block_threefish256;
		case C_threefish512: return kripto_block_threefish512;
		case C_threefish1024: return kripto_block_threefish1024;
		case C_trax_l: return kripto_block_trax_l;
		case C_trax_m: return kripto_block_trax_m;
		case C_twofish: return kripto_block_twofish;
		case C_xtea: return kripto_block_xtea;
		case C_gost_cbr: return kripto_block_gost_cbr();
		case C_gost_r34: return kripto_block_gost_r34_12_2015();
		default: return 0;
	}
}
