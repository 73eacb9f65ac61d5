/* The concrete stand-ins for uninterpreted functions, shared by the engine's
   simulator and the native replay runtime so that both agree on them. */
#ifndef KSPRIM_H
#define KSPRIM_H
#include <stdint.h>
#include <stddef.h>
static inline uint64_t ksp_mix(uint64_t h, uint64_t x)
{
  h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
  return h;
}
static inline uint8_t ksp_uf(uint32_t fn, uint32_t idx, const uint8_t *in, size_t n)
{
  uint64_t h = ksp_mix(fn * 0x51ED27ull + 11, n);
  size_t i;
  for(i = 0; i < n; i++) h = ksp_mix(h, in[i]);
  h = ksp_mix(h, idx + 0x1000);
  return (uint8_t)(h >> 17);
}
/* a keyed permutation of n-byte blocks: 4 byte-wise unbalanced passes, each byte
   is changed by a function of the key, its position and all other bytes */
static inline void ksp_perm(uint32_t fn, int dir, const uint8_t *key, size_t nk, uint8_t *x, size_t n)
{
  int r, r0; size_t i, j, jj;
  uint64_t hk = ksp_mix(fn * 0x7777ull + 5, nk);
  for(i = 0; i < nk; i++) hk = ksp_mix(hk, key[i]);
  for(r0 = 0; r0 < 3; r0++)
  {
    r = dir ? 2 - r0 : r0;
    for(jj = 0; jj < n; jj++)
    {
      uint64_t h;
      j = dir ? n - 1 - jj : jj;
      h = ksp_mix(hk, (uint64_t)r * 1000 + j);
      for(i = 0; i < n; i++) if(i != j) h = ksp_mix(h, x[i]);
      x[j] ^= (uint8_t)(h >> 13);
    }
  }
}
#endif
