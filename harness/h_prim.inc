/* U03: every primitive of loadstore.h and rotate.h. Included by h_prim_{native,portable,le}.c.
   Written out by hand rules: rotations by n against the shift definition, loads and
   stores against their byte order. */
#include "ks.h"
#include <kripto/cast.h>
#include <kripto/loadstore.h>
#include <kripto/rotate.h>
#define M(w) ((uint64_t)-1 >> (64 - (w)))
static uint64_t ref_rol(uint64_t x, unsigned r, unsigned w)
{
	r %= w;
	return r ? ((x << r) | (x >> (w - r))) & M(w) : x;
}
static void same(uint64_t a, uint64_t b, const char *m) { ks_eq(&a, &b, 8, m); }
void rot_var(void)
{
	unsigned w = (unsigned)ks_param("w", 32), r = (unsigned)ks_choose(0, 2 * (int)w + 1, "amount");
	uint64_t x; ks_sym(&x, 8, "x"); x &= M(w);
	if(ks_param("big", 0)) r += 256 * w;
	switch(w)
	{
		case 8: same(ROL8((uint8_t)x, r), ref_rol(x, r, 8), "ROL8"); same(ROR8((uint8_t)x, r), ref_rol(x, 8 - r % 8, 8), "ROR8"); break;
		case 16: same(ROL16((uint16_t)x, r), ref_rol(x, r, 16), "ROL16"); same(ROR16((uint16_t)x, r), ref_rol(x, 16 - r % 16, 16), "ROR16"); break;
		case 32: same(ROL32((uint32_t)x, r), ref_rol(x, r, 32), "ROL32"); same(ROR32((uint32_t)x, r), ref_rol(x, 32 - r % 32, 32), "ROR32"); break;
		default: same(ROL64(x, r), ref_rol(x, r, 64), "ROL64"); same(ROR64(x, r), ref_rol(x, 64 - r % 64, 64), "ROR64"); break;
	}
	ks_cover("end");
}
void rot_sym(void) /* the amount is symbolic too */
{
	uint64_t x, y = 0; uint8_t r; unsigned i, w = (unsigned)ks_param("w", 32); ks_sym(&x, 8, "x"); ks_sym(&r, 1, "r"); x &= M(w);
	for(i = 0; i < w; i++) if(r % w == i) y = ref_rol(x, i, w);
	switch(w)
	{
		case 8: same(ROL8((uint8_t)x, r), y, "ROL8"); same(ROR8((uint8_t)y, r), x, "ROR8"); break;
		case 16: same(ROL16((uint16_t)x, r), y, "ROL16"); same(ROR16((uint16_t)y, r), x, "ROR16"); break;
		case 32: same(ROL32((uint32_t)x, r), y, "ROL32"); same(ROR32((uint32_t)y, r), x, "ROR32"); break;
		default: same(ROL64(x, r), y, "ROL64"); same(ROR64(y, r), x, "ROR64"); break;
	}
	ks_cover("end");
}
void rot8(void)
{
	uint64_t v; uint8_t x; ks_sym(&v, 8, "x"); x = (uint8_t)v;
	same(ROL8_1(x), ref_rol(x, 1, 8), "ROL8_1"); same(ROR8_1(x), ref_rol(x, 7, 8), "ROR8_1");
	same(ROL8_2(x), ref_rol(x, 2, 8), "ROL8_2"); same(ROR8_2(x), ref_rol(x, 6, 8), "ROR8_2");
	same(ROL8_3(x), ref_rol(x, 3, 8), "ROL8_3"); same(ROR8_3(x), ref_rol(x, 5, 8), "ROR8_3");
	same(ROL8_4(x), ref_rol(x, 4, 8), "ROL8_4"); same(ROR8_4(x), ref_rol(x, 4, 8), "ROR8_4");
	same(ROL8_5(x), ref_rol(x, 5, 8), "ROL8_5"); same(ROR8_5(x), ref_rol(x, 3, 8), "ROR8_5");
	same(ROL8_6(x), ref_rol(x, 6, 8), "ROL8_6"); same(ROR8_6(x), ref_rol(x, 2, 8), "ROR8_6");
	same(ROL8_7(x), ref_rol(x, 7, 8), "ROL8_7"); same(ROR8_7(x), ref_rol(x, 1, 8), "ROR8_7");
	ks_cover("end");
}
void rot16(void)
{
	uint64_t v; uint16_t x; ks_sym(&v, 8, "x"); x = (uint16_t)v;
	same(ROL16_01(x), ref_rol(x, 1, 16), "ROL16_01"); same(ROR16_01(x), ref_rol(x, 15, 16), "ROR16_01");
	same(ROL16_02(x), ref_rol(x, 2, 16), "ROL16_02"); same(ROR16_02(x), ref_rol(x, 14, 16), "ROR16_02");
	same(ROL16_03(x), ref_rol(x, 3, 16), "ROL16_03"); same(ROR16_03(x), ref_rol(x, 13, 16), "ROR16_03");
	same(ROL16_04(x), ref_rol(x, 4, 16), "ROL16_04"); same(ROR16_04(x), ref_rol(x, 12, 16), "ROR16_04");
	same(ROL16_05(x), ref_rol(x, 5, 16), "ROL16_05"); same(ROR16_05(x), ref_rol(x, 11, 16), "ROR16_05");
	same(ROL16_06(x), ref_rol(x, 6, 16), "ROL16_06"); same(ROR16_06(x), ref_rol(x, 10, 16), "ROR16_06");
	same(ROL16_07(x), ref_rol(x, 7, 16), "ROL16_07"); same(ROR16_07(x), ref_rol(x, 9, 16), "ROR16_07");
	same(ROL16_08(x), ref_rol(x, 8, 16), "ROL16_08"); same(ROR16_08(x), ref_rol(x, 8, 16), "ROR16_08");
	same(ROL16_09(x), ref_rol(x, 9, 16), "ROL16_09"); same(ROR16_09(x), ref_rol(x, 7, 16), "ROR16_09");
	same(ROL16_10(x), ref_rol(x, 10, 16), "ROL16_10"); same(ROR16_10(x), ref_rol(x, 6, 16), "ROR16_10");
	same(ROL16_11(x), ref_rol(x, 11, 16), "ROL16_11"); same(ROR16_11(x), ref_rol(x, 5, 16), "ROR16_11");
	same(ROL16_12(x), ref_rol(x, 12, 16), "ROL16_12"); same(ROR16_12(x), ref_rol(x, 4, 16), "ROR16_12");
	same(ROL16_13(x), ref_rol(x, 13, 16), "ROL16_13"); same(ROR16_13(x), ref_rol(x, 3, 16), "ROR16_13");
	same(ROL16_14(x), ref_rol(x, 14, 16), "ROL16_14"); same(ROR16_14(x), ref_rol(x, 2, 16), "ROR16_14");
	same(ROL16_15(x), ref_rol(x, 15, 16), "ROL16_15"); same(ROR16_15(x), ref_rol(x, 1, 16), "ROR16_15");
	ks_cover("end");
}
void rot32(void)
{
	uint64_t v; uint32_t x; ks_sym(&v, 8, "x"); x = (uint32_t)v;
	same(ROL32_01(x), ref_rol(x, 1, 32), "ROL32_01"); same(ROR32_01(x), ref_rol(x, 31, 32), "ROR32_01");
	same(ROL32_02(x), ref_rol(x, 2, 32), "ROL32_02"); same(ROR32_02(x), ref_rol(x, 30, 32), "ROR32_02");
	same(ROL32_03(x), ref_rol(x, 3, 32), "ROL32_03"); same(ROR32_03(x), ref_rol(x, 29, 32), "ROR32_03");
	same(ROL32_04(x), ref_rol(x, 4, 32), "ROL32_04"); same(ROR32_04(x), ref_rol(x, 28, 32), "ROR32_04");
	same(ROL32_05(x), ref_rol(x, 5, 32), "ROL32_05"); same(ROR32_05(x), ref_rol(x, 27, 32), "ROR32_05");
	same(ROL32_06(x), ref_rol(x, 6, 32), "ROL32_06"); same(ROR32_06(x), ref_rol(x, 26, 32), "ROR32_06");
	same(ROL32_07(x), ref_rol(x, 7, 32), "ROL32_07"); same(ROR32_07(x), ref_rol(x, 25, 32), "ROR32_07");
	same(ROL32_08(x), ref_rol(x, 8, 32), "ROL32_08"); same(ROR32_08(x), ref_rol(x, 24, 32), "ROR32_08");
	same(ROL32_09(x), ref_rol(x, 9, 32), "ROL32_09"); same(ROR32_09(x), ref_rol(x, 23, 32), "ROR32_09");
	same(ROL32_10(x), ref_rol(x, 10, 32), "ROL32_10"); same(ROR32_10(x), ref_rol(x, 22, 32), "ROR32_10");
	same(ROL32_11(x), ref_rol(x, 11, 32), "ROL32_11"); same(ROR32_11(x), ref_rol(x, 21, 32), "ROR32_11");
	same(ROL32_12(x), ref_rol(x, 12, 32), "ROL32_12"); same(ROR32_12(x), ref_rol(x, 20, 32), "ROR32_12");
	same(ROL32_13(x), ref_rol(x, 13, 32), "ROL32_13"); same(ROR32_13(x), ref_rol(x, 19, 32), "ROR32_13");
	same(ROL32_14(x), ref_rol(x, 14, 32), "ROL32_14"); same(ROR32_14(x), ref_rol(x, 18, 32), "ROR32_14");
	same(ROL32_15(x), ref_rol(x, 15, 32), "ROL32_15"); same(ROR32_15(x), ref_rol(x, 17, 32), "ROR32_15");
	same(ROL32_16(x), ref_rol(x, 16, 32), "ROL32_16"); same(ROR32_16(x), ref_rol(x, 16, 32), "ROR32_16");
	same(ROL32_17(x), ref_rol(x, 17, 32), "ROL32_17"); same(ROR32_17(x), ref_rol(x, 15, 32), "ROR32_17");
	same(ROL32_18(x), ref_rol(x, 18, 32), "ROL32_18"); same(ROR32_18(x), ref_rol(x, 14, 32), "ROR32_18");
	same(ROL32_19(x), ref_rol(x, 19, 32), "ROL32_19"); same(ROR32_19(x), ref_rol(x, 13, 32), "ROR32_19");
	same(ROL32_20(x), ref_rol(x, 20, 32), "ROL32_20"); same(ROR32_20(x), ref_rol(x, 12, 32), "ROR32_20");
	same(ROL32_21(x), ref_rol(x, 21, 32), "ROL32_21"); same(ROR32_21(x), ref_rol(x, 11, 32), "ROR32_21");
	same(ROL32_22(x), ref_rol(x, 22, 32), "ROL32_22"); same(ROR32_22(x), ref_rol(x, 10, 32), "ROR32_22");
	same(ROL32_23(x), ref_rol(x, 23, 32), "ROL32_23"); same(ROR32_23(x), ref_rol(x, 9, 32), "ROR32_23");
	same(ROL32_24(x), ref_rol(x, 24, 32), "ROL32_24"); same(ROR32_24(x), ref_rol(x, 8, 32), "ROR32_24");
	same(ROL32_25(x), ref_rol(x, 25, 32), "ROL32_25"); same(ROR32_25(x), ref_rol(x, 7, 32), "ROR32_25");
	same(ROL32_26(x), ref_rol(x, 26, 32), "ROL32_26"); same(ROR32_26(x), ref_rol(x, 6, 32), "ROR32_26");
	same(ROL32_27(x), ref_rol(x, 27, 32), "ROL32_27"); same(ROR32_27(x), ref_rol(x, 5, 32), "ROR32_27");
	same(ROL32_28(x), ref_rol(x, 28, 32), "ROL32_28"); same(ROR32_28(x), ref_rol(x, 4, 32), "ROR32_28");
	same(ROL32_29(x), ref_rol(x, 29, 32), "ROL32_29"); same(ROR32_29(x), ref_rol(x, 3, 32), "ROR32_29");
	same(ROL32_30(x), ref_rol(x, 30, 32), "ROL32_30"); same(ROR32_30(x), ref_rol(x, 2, 32), "ROR32_30");
	same(ROL32_31(x), ref_rol(x, 31, 32), "ROL32_31"); same(ROR32_31(x), ref_rol(x, 1, 32), "ROR32_31");
	ks_cover("end");
}
void rot64(void)
{
	uint64_t v; uint64_t x; ks_sym(&v, 8, "x"); x = (uint64_t)v;
	same(ROL64_01(x), ref_rol(x, 1, 64), "ROL64_01"); same(ROR64_01(x), ref_rol(x, 63, 64), "ROR64_01");
	same(ROL64_02(x), ref_rol(x, 2, 64), "ROL64_02"); same(ROR64_02(x), ref_rol(x, 62, 64), "ROR64_02");
	same(ROL64_03(x), ref_rol(x, 3, 64), "ROL64_03"); same(ROR64_03(x), ref_rol(x, 61, 64), "ROR64_03");
	same(ROL64_04(x), ref_rol(x, 4, 64), "ROL64_04"); same(ROR64_04(x), ref_rol(x, 60, 64), "ROR64_04");
	same(ROL64_05(x), ref_rol(x, 5, 64), "ROL64_05"); same(ROR64_05(x), ref_rol(x, 59, 64), "ROR64_05");
	same(ROL64_06(x), ref_rol(x, 6, 64), "ROL64_06"); same(ROR64_06(x), ref_rol(x, 58, 64), "ROR64_06");
	same(ROL64_07(x), ref_rol(x, 7, 64), "ROL64_07"); same(ROR64_07(x), ref_rol(x, 57, 64), "ROR64_07");
	same(ROL64_08(x), ref_rol(x, 8, 64), "ROL64_08"); same(ROR64_08(x), ref_rol(x, 56, 64), "ROR64_08");
	same(ROL64_09(x), ref_rol(x, 9, 64), "ROL64_09"); same(ROR64_09(x), ref_rol(x, 55, 64), "ROR64_09");
	same(ROL64_10(x), ref_rol(x, 10, 64), "ROL64_10"); same(ROR64_10(x), ref_rol(x, 54, 64), "ROR64_10");
	same(ROL64_11(x), ref_rol(x, 11, 64), "ROL64_11"); same(ROR64_11(x), ref_rol(x, 53, 64), "ROR64_11");
	same(ROL64_12(x), ref_rol(x, 12, 64), "ROL64_12"); same(ROR64_12(x), ref_rol(x, 52, 64), "ROR64_12");
	same(ROL64_13(x), ref_rol(x, 13, 64), "ROL64_13"); same(ROR64_13(x), ref_rol(x, 51, 64), "ROR64_13");
	same(ROL64_14(x), ref_rol(x, 14, 64), "ROL64_14"); same(ROR64_14(x), ref_rol(x, 50, 64), "ROR64_14");
	same(ROL64_15(x), ref_rol(x, 15, 64), "ROL64_15"); same(ROR64_15(x), ref_rol(x, 49, 64), "ROR64_15");
	same(ROL64_16(x), ref_rol(x, 16, 64), "ROL64_16"); same(ROR64_16(x), ref_rol(x, 48, 64), "ROR64_16");
	same(ROL64_17(x), ref_rol(x, 17, 64), "ROL64_17"); same(ROR64_17(x), ref_rol(x, 47, 64), "ROR64_17");
	same(ROL64_18(x), ref_rol(x, 18, 64), "ROL64_18"); same(ROR64_18(x), ref_rol(x, 46, 64), "ROR64_18");
	same(ROL64_19(x), ref_rol(x, 19, 64), "ROL64_19"); same(ROR64_19(x), ref_rol(x, 45, 64), "ROR64_19");
	same(ROL64_20(x), ref_rol(x, 20, 64), "ROL64_20"); same(ROR64_20(x), ref_rol(x, 44, 64), "ROR64_20");
	same(ROL64_21(x), ref_rol(x, 21, 64), "ROL64_21"); same(ROR64_21(x), ref_rol(x, 43, 64), "ROR64_21");
	same(ROL64_22(x), ref_rol(x, 22, 64), "ROL64_22"); same(ROR64_22(x), ref_rol(x, 42, 64), "ROR64_22");
	same(ROL64_23(x), ref_rol(x, 23, 64), "ROL64_23"); same(ROR64_23(x), ref_rol(x, 41, 64), "ROR64_23");
	same(ROL64_24(x), ref_rol(x, 24, 64), "ROL64_24"); same(ROR64_24(x), ref_rol(x, 40, 64), "ROR64_24");
	same(ROL64_25(x), ref_rol(x, 25, 64), "ROL64_25"); same(ROR64_25(x), ref_rol(x, 39, 64), "ROR64_25");
	same(ROL64_26(x), ref_rol(x, 26, 64), "ROL64_26"); same(ROR64_26(x), ref_rol(x, 38, 64), "ROR64_26");
	same(ROL64_27(x), ref_rol(x, 27, 64), "ROL64_27"); same(ROR64_27(x), ref_rol(x, 37, 64), "ROR64_27");
	same(ROL64_28(x), ref_rol(x, 28, 64), "ROL64_28"); same(ROR64_28(x), ref_rol(x, 36, 64), "ROR64_28");
	same(ROL64_29(x), ref_rol(x, 29, 64), "ROL64_29"); same(ROR64_29(x), ref_rol(x, 35, 64), "ROR64_29");
	same(ROL64_30(x), ref_rol(x, 30, 64), "ROL64_30"); same(ROR64_30(x), ref_rol(x, 34, 64), "ROR64_30");
	same(ROL64_31(x), ref_rol(x, 31, 64), "ROL64_31"); same(ROR64_31(x), ref_rol(x, 33, 64), "ROR64_31");
	same(ROL64_32(x), ref_rol(x, 32, 64), "ROL64_32"); same(ROR64_32(x), ref_rol(x, 32, 64), "ROR64_32");
	same(ROL64_33(x), ref_rol(x, 33, 64), "ROL64_33"); same(ROR64_33(x), ref_rol(x, 31, 64), "ROR64_33");
	same(ROL64_34(x), ref_rol(x, 34, 64), "ROL64_34"); same(ROR64_34(x), ref_rol(x, 30, 64), "ROR64_34");
	same(ROL64_35(x), ref_rol(x, 35, 64), "ROL64_35"); same(ROR64_35(x), ref_rol(x, 29, 64), "ROR64_35");
	same(ROL64_36(x), ref_rol(x, 36, 64), "ROL64_36"); same(ROR64_36(x), ref_rol(x, 28, 64), "ROR64_36");
	same(ROL64_37(x), ref_rol(x, 37, 64), "ROL64_37"); same(ROR64_37(x), ref_rol(x, 27, 64), "ROR64_37");
	same(ROL64_38(x), ref_rol(x, 38, 64), "ROL64_38"); same(ROR64_38(x), ref_rol(x, 26, 64), "ROR64_38");
	same(ROL64_39(x), ref_rol(x, 39, 64), "ROL64_39"); same(ROR64_39(x), ref_rol(x, 25, 64), "ROR64_39");
	same(ROL64_40(x), ref_rol(x, 40, 64), "ROL64_40"); same(ROR64_40(x), ref_rol(x, 24, 64), "ROR64_40");
	same(ROL64_41(x), ref_rol(x, 41, 64), "ROL64_41"); same(ROR64_41(x), ref_rol(x, 23, 64), "ROR64_41");
	same(ROL64_42(x), ref_rol(x, 42, 64), "ROL64_42"); same(ROR64_42(x), ref_rol(x, 22, 64), "ROR64_42");
	same(ROL64_43(x), ref_rol(x, 43, 64), "ROL64_43"); same(ROR64_43(x), ref_rol(x, 21, 64), "ROR64_43");
	same(ROL64_44(x), ref_rol(x, 44, 64), "ROL64_44"); same(ROR64_44(x), ref_rol(x, 20, 64), "ROR64_44");
	same(ROL64_45(x), ref_rol(x, 45, 64), "ROL64_45"); same(ROR64_45(x), ref_rol(x, 19, 64), "ROR64_45");
	same(ROL64_46(x), ref_rol(x, 46, 64), "ROL64_46"); same(ROR64_46(x), ref_rol(x, 18, 64), "ROR64_46");
	same(ROL64_47(x), ref_rol(x, 47, 64), "ROL64_47"); same(ROR64_47(x), ref_rol(x, 17, 64), "ROR64_47");
	same(ROL64_48(x), ref_rol(x, 48, 64), "ROL64_48"); same(ROR64_48(x), ref_rol(x, 16, 64), "ROR64_48");
	same(ROL64_49(x), ref_rol(x, 49, 64), "ROL64_49"); same(ROR64_49(x), ref_rol(x, 15, 64), "ROR64_49");
	same(ROL64_50(x), ref_rol(x, 50, 64), "ROL64_50"); same(ROR64_50(x), ref_rol(x, 14, 64), "ROR64_50");
	same(ROL64_51(x), ref_rol(x, 51, 64), "ROL64_51"); same(ROR64_51(x), ref_rol(x, 13, 64), "ROR64_51");
	same(ROL64_52(x), ref_rol(x, 52, 64), "ROL64_52"); same(ROR64_52(x), ref_rol(x, 12, 64), "ROR64_52");
	same(ROL64_53(x), ref_rol(x, 53, 64), "ROL64_53"); same(ROR64_53(x), ref_rol(x, 11, 64), "ROR64_53");
	same(ROL64_54(x), ref_rol(x, 54, 64), "ROL64_54"); same(ROR64_54(x), ref_rol(x, 10, 64), "ROR64_54");
	same(ROL64_55(x), ref_rol(x, 55, 64), "ROL64_55"); same(ROR64_55(x), ref_rol(x, 9, 64), "ROR64_55");
	same(ROL64_56(x), ref_rol(x, 56, 64), "ROL64_56"); same(ROR64_56(x), ref_rol(x, 8, 64), "ROR64_56");
	same(ROL64_57(x), ref_rol(x, 57, 64), "ROL64_57"); same(ROR64_57(x), ref_rol(x, 7, 64), "ROR64_57");
	same(ROL64_58(x), ref_rol(x, 58, 64), "ROL64_58"); same(ROR64_58(x), ref_rol(x, 6, 64), "ROR64_58");
	same(ROL64_59(x), ref_rol(x, 59, 64), "ROL64_59"); same(ROR64_59(x), ref_rol(x, 5, 64), "ROR64_59");
	same(ROL64_60(x), ref_rol(x, 60, 64), "ROL64_60"); same(ROR64_60(x), ref_rol(x, 4, 64), "ROR64_60");
	same(ROL64_61(x), ref_rol(x, 61, 64), "ROL64_61"); same(ROR64_61(x), ref_rol(x, 3, 64), "ROR64_61");
	same(ROL64_62(x), ref_rol(x, 62, 64), "ROL64_62"); same(ROR64_62(x), ref_rol(x, 2, 64), "ROR64_62");
	same(ROL64_63(x), ref_rol(x, 63, 64), "ROL64_63"); same(ROR64_63(x), ref_rol(x, 1, 64), "ROR64_63");
	ks_cover("end");
}
void ls(void)
{
	uint8_t b[24], c[24], d[24]; unsigned i, o = (unsigned)ks_choose(0, 9, "offset"); uint64_t v, e; ks_sym(b, 24, "b"); ks_sym(&v, 8, "v"); ks_sym(c, 24, "c"); memcpy(d, c, 24);
	e = 0; for(i = 0; i < 2; i++) e |= (uint64_t)b[o + i] << 8 * i;
	same(LOAD16L(b + o), e, "LOAD16L");
	memcpy(c, d, 24); STORE16L((uint16_t)v, c + o);
	for(i = 0; i < 24; i++) { uint8_t q = d[i]; if(i >= o && i < o + 2) q = (uint8_t)(v >> 8 * (i - o)); ks_eq(c + i, &q, 1, "STORE16L"); }
	e = 0; for(i = 0; i < 2; i++) e |= (uint64_t)b[o + i] << 8 * (1 - i);
	same(LOAD16B(b + o), e, "LOAD16B");
	memcpy(c, d, 24); STORE16B((uint16_t)v, c + o);
	for(i = 0; i < 24; i++) { uint8_t q = d[i]; if(i >= o && i < o + 2) q = (uint8_t)(v >> 8 * (1 - (i - o))); ks_eq(c + i, &q, 1, "STORE16B"); }
	e = 0; for(i = 0; i < 4; i++) e |= (uint64_t)b[o + i] << 8 * i;
	same(LOAD32L(b + o), e, "LOAD32L");
	memcpy(c, d, 24); STORE32L((uint32_t)v, c + o);
	for(i = 0; i < 24; i++) { uint8_t q = d[i]; if(i >= o && i < o + 4) q = (uint8_t)(v >> 8 * (i - o)); ks_eq(c + i, &q, 1, "STORE32L"); }
	e = 0; for(i = 0; i < 4; i++) e |= (uint64_t)b[o + i] << 8 * (3 - i);
	same(LOAD32B(b + o), e, "LOAD32B");
	memcpy(c, d, 24); STORE32B((uint32_t)v, c + o);
	for(i = 0; i < 24; i++) { uint8_t q = d[i]; if(i >= o && i < o + 4) q = (uint8_t)(v >> 8 * (3 - (i - o))); ks_eq(c + i, &q, 1, "STORE32B"); }
	e = 0; for(i = 0; i < 8; i++) e |= (uint64_t)b[o + i] << 8 * i;
	same(LOAD64L(b + o), e, "LOAD64L");
	memcpy(c, d, 24); STORE64L((uint64_t)v, c + o);
	for(i = 0; i < 24; i++) { uint8_t q = d[i]; if(i >= o && i < o + 8) q = (uint8_t)(v >> 8 * (i - o)); ks_eq(c + i, &q, 1, "STORE64L"); }
	e = 0; for(i = 0; i < 8; i++) e |= (uint64_t)b[o + i] << 8 * (7 - i);
	same(LOAD64B(b + o), e, "LOAD64B");
	memcpy(c, d, 24); STORE64B((uint64_t)v, c + o);
	for(i = 0; i < 24; i++) { uint8_t q = d[i]; if(i >= o && i < o + 8) q = (uint8_t)(v >> 8 * (7 - (i - o))); ks_eq(c + i, &q, 1, "STORE64B"); }
	ks_cover("end");
}
void arr16(void)
{
	uint8_t b[40], c[48]; uint16_t a[6], z; unsigned i, n = (unsigned)ks_choose(0, 8, "bytes"), o = (unsigned)ks_choose(0, 3, "offset"), sb = (unsigned)ks_choose(0, 4, "src_byte"), m = n; uint64_t e; ks_sym(b, 40, "b");
	memset(a, 0, sizeof a); LOAD16L_ARRAY(b + o, a, n);
	for(i = 0; i < 6; i++) { unsigned j; e = 0; for(j = 0; j < 2; j++) if(i * 2 + j < n) e |= (uint64_t)b[o + i * 2 + j] << 8 * j; same(a[i], e, "LOAD16L_ARRAY"); }
	ks_sym(a, sizeof a, "aL"); memset(c, 0x5A, 48); STORE16L_ARRAY(a, sb, c + 1 + o, m);
	for(i = 0; i < 48; i++) { uint8_t q = 0x5A; if(i >= 1 + o && i < 1 + o + m) { unsigned k = sb + i - 1 - o; z = a[k / 2]; q = (uint8_t)(z >> 8 * (k % 2)); } ks_eq(c + i, &q, 1, "STORE16L_ARRAY"); }
	memset(a, 0, sizeof a); LOAD16B_ARRAY(b + o, a, n);
	for(i = 0; i < 6; i++) { unsigned j; e = 0; for(j = 0; j < 2; j++) if(i * 2 + j < n) e |= (uint64_t)b[o + i * 2 + j] << 8 * (1 - j); same(a[i], e, "LOAD16B_ARRAY"); }
	ks_sym(a, sizeof a, "aB"); memset(c, 0x5A, 48); STORE16B_ARRAY(a, sb, c + 1 + o, m);
	for(i = 0; i < 48; i++) { uint8_t q = 0x5A; if(i >= 1 + o && i < 1 + o + m) { unsigned k = sb + i - 1 - o; z = a[k / 2]; q = (uint8_t)(z >> 8 * (1 - k % 2)); } ks_eq(c + i, &q, 1, "STORE16B_ARRAY"); }
	ks_cover("end");
}
void arr32(void)
{
	uint8_t b[40], c[48]; uint32_t a[6], z; unsigned i, n = (unsigned)ks_choose(0, 16, "bytes"), o = (unsigned)ks_choose(0, 3, "offset"), sb = (unsigned)ks_choose(0, 8, "src_byte"), m = n; uint64_t e; ks_sym(b, 40, "b");
	memset(a, 0, sizeof a); LOAD32L_ARRAY(b + o, a, n);
	for(i = 0; i < 6; i++) { unsigned j; e = 0; for(j = 0; j < 4; j++) if(i * 4 + j < n) e |= (uint64_t)b[o + i * 4 + j] << 8 * j; same(a[i], e, "LOAD32L_ARRAY"); }
	ks_sym(a, sizeof a, "aL"); memset(c, 0x5A, 48); STORE32L_ARRAY(a, sb, c + 1 + o, m);
	for(i = 0; i < 48; i++) { uint8_t q = 0x5A; if(i >= 1 + o && i < 1 + o + m) { unsigned k = sb + i - 1 - o; z = a[k / 4]; q = (uint8_t)(z >> 8 * (k % 4)); } ks_eq(c + i, &q, 1, "STORE32L_ARRAY"); }
	memset(a, 0, sizeof a); LOAD32B_ARRAY(b + o, a, n);
	for(i = 0; i < 6; i++) { unsigned j; e = 0; for(j = 0; j < 4; j++) if(i * 4 + j < n) e |= (uint64_t)b[o + i * 4 + j] << 8 * (3 - j); same(a[i], e, "LOAD32B_ARRAY"); }
	ks_sym(a, sizeof a, "aB"); memset(c, 0x5A, 48); STORE32B_ARRAY(a, sb, c + 1 + o, m);
	for(i = 0; i < 48; i++) { uint8_t q = 0x5A; if(i >= 1 + o && i < 1 + o + m) { unsigned k = sb + i - 1 - o; z = a[k / 4]; q = (uint8_t)(z >> 8 * (3 - k % 4)); } ks_eq(c + i, &q, 1, "STORE32B_ARRAY"); }
	ks_cover("end");
}
void arr64(void)
{
	uint8_t b[40], c[48]; uint64_t a[6], z; unsigned i, n = (unsigned)ks_choose(0, 32, "bytes"), o = (unsigned)ks_choose(0, 3, "offset"), sb = (unsigned)ks_choose(0, 16, "src_byte"), m = n; uint64_t e; ks_sym(b, 40, "b");
	memset(a, 0, sizeof a); LOAD64L_ARRAY(b + o, a, n);
	for(i = 0; i < 6; i++) { unsigned j; e = 0; for(j = 0; j < 8; j++) if(i * 8 + j < n) e |= (uint64_t)b[o + i * 8 + j] << 8 * j; same(a[i], e, "LOAD64L_ARRAY"); }
	ks_sym(a, sizeof a, "aL"); memset(c, 0x5A, 48); STORE64L_ARRAY(a, sb, c + 1 + o, m);
	for(i = 0; i < 48; i++) { uint8_t q = 0x5A; if(i >= 1 + o && i < 1 + o + m) { unsigned k = sb + i - 1 - o; z = a[k / 8]; q = (uint8_t)(z >> 8 * (k % 8)); } ks_eq(c + i, &q, 1, "STORE64L_ARRAY"); }
	memset(a, 0, sizeof a); LOAD64B_ARRAY(b + o, a, n);
	for(i = 0; i < 6; i++) { unsigned j; e = 0; for(j = 0; j < 8; j++) if(i * 8 + j < n) e |= (uint64_t)b[o + i * 8 + j] << 8 * (7 - j); same(a[i], e, "LOAD64B_ARRAY"); }
	ks_sym(a, sizeof a, "aB"); memset(c, 0x5A, 48); STORE64B_ARRAY(a, sb, c + 1 + o, m);
	for(i = 0; i < 48; i++) { uint8_t q = 0x5A; if(i >= 1 + o && i < 1 + o + m) { unsigned k = sb + i - 1 - o; z = a[k / 8]; q = (uint8_t)(z >> 8 * (7 - k % 8)); } ks_eq(c + i, &q, 1, "STORE64B_ARRAY"); }
	ks_cover("end");
}
