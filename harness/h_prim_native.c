/* U03, the build of this machine */
#include "h_prim.inc"
