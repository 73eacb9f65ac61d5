/* U03, the little-endian variants of loadstore.h */
#define KRIPTO_LITTLE_ENDIAN
#include "h_prim.inc"
