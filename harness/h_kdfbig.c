/* K02 with large r and p */
#define H_CAP 142000
#define MR 1100
#include "h_kdf.c"
