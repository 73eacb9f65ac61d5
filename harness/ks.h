/* Interface between the harnesses and whatever executes them: the symbolic
   executor (engine/exec.cpp) or, for replay, the native runtime (replay.c). */
#ifndef KS_H
#define KS_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

extern void ks_sym(void *p, size_t n, const char *name);      /* n arbitrary bytes */
extern void ks_secret(void *p, size_t n, const char *name);   /* the same, tracked as secret */
extern int ks_choose(int lo, int hi, const char *name);       /* every value lo..hi */
extern int ks_param(const char *name, int dflt);              /* run parameter */
extern void ks_assume(int c);
extern void ks_assert(int c, const char *msg);
extern void ks_eq(const void *a, const void *b, size_t n, const char *msg);
extern void ks_init(const void *p, size_t n, const char *msg);
extern void ks_uf(unsigned fn, const void *in, size_t nin, void *out, size_t nout);
extern void ks_perm(unsigned fn, int dir, const void *key, size_t nkey, const void *in, void *out, size_t bs);
extern void ks_fail_alloc(int n);                             /* the n-th allocation from now fails; -1 none */
extern int ks_alloc_count(void);
extern int ks_live(void);
extern void ks_cover(const char *name);
extern void ks_note(const char *name, long v);
extern void ks_ct(int on);
extern void ks_wipe_mode(int on);
extern int ks_is_symbolic(int x);
extern size_t ks_objsize(const void *p);                      /* bytes of the heap object at p */
extern void *ks_edge(size_t n);                               /* zeros, 64 GiB claimed, n bytes there: an access beyond ends the case well */
extern int ks_native(void);                                   /* 1 when replayed natively */
#endif
