/* U03, the portable C variants of rotate.h and loadstore.h */
#include "ks.h"
#include <assert.h>
#undef __x86_64__
#undef __i386__
#include "h_prim.inc"
