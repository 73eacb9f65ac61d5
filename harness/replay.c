/* Native replay of a counterexample: the harness, compiled by an ordinary
   compiler and linked with the real library, runs with the solver's values.
   Usage: replay ENTRY CEXFILE. The file has lines
     P name value      run parameter
     C name value      choice (in order)
     V name hexvalue   variable name[i] or name[i]/w
     E 0|1             little-endian variables wider than a byte
     S 0|1             use the primed copy of secret variables
   Exit: 0 nothing failed, 77 an assertion of the harness failed, 76 an assumption
   does not hold, 75 the file does not fit the harness; sanitizers use 78. */
#define _GNU_SOURCE
#include "ks.h"
#include "../engine/ksprim.h"
#include <stdio.h>
#include <dlfcn.h>
#include <unistd.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
struct kv { char k[96]; unsigned long long v; };
static struct kv *P, *C, *V; static int nP, nC, nV, posC, le, sec, ct;
static struct { char n[64]; int c; } seen[256]; static int nseen;
static long failAt = -1, allocs, live;
static int dumpFree;

static struct kv *addkv(struct kv *a, int *n, const char *k, unsigned long long v)
{
	if(!(*n & (*n - 1))) a = realloc(a, (*n ? *n * 2 : 1) * sizeof *a);
	snprintf(a[*n].k, sizeof a[*n].k, "%s", k); a[*n].v = v; ++*n; return a;
}
static int count(const char *n)
{
	int i;
	for(i = 0; i < nseen; i++) if(!strcmp(seen[i].n, n)) return seen[i].c++;
	snprintf(seen[nseen].n, 64, "%s", n); seen[nseen++].c = 1; return 0;
}
static struct kv *find(struct kv *a, int n, const char *k) { int i; for(i = 0; i < n; i++) if(!strcmp(a[i].k, k)) return a + i; return 0; }

/* allocation */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
void *__wrap_malloc(size_t n)
{
	void *p; long k = allocs++;
	if(failAt >= 0 && k == failAt) return 0;
	if(n > (1ul << 26)) return 0;
	p = __real_malloc(n + (dumpFree ? 16 : 0)); if(!p) return p;
	live++;
	if(dumpFree) { memset(p, 0, n + 16); *(size_t *)p = n; p = (char *)p + 16; }
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p; long k = allocs++;
	if(failAt >= 0 && k == failAt) return 0;
	if(dumpFree) { p = __real_calloc(1, a * b + 16); *(size_t *)p = a * b; live++; return (char *)p + 16; }
	p = __real_calloc(a, b); if(p) live++;
	return p;
}
void __wrap_free(void *p)
{
	if(!p) return;
	live--;
	if(dumpFree)
	{
		size_t i, n = *(size_t *)((char *)p - 16); unsigned char *q = p;
		printf("FREE ");
		for(i = 0; i < n; i++) printf("%02x", q[i]);
		printf("\n"); fflush(stdout);
		p = q - 16;
	}
	__real_free(p);
}
static void fill(void *p, size_t n, const char *name, int secret)
{
	uint8_t *d = p; size_t i, j; unsigned w; char nm[64], key[96]; int k = count(name);
	if(k) snprintf(nm, sizeof nm, "%s#%d", name, k); else snprintf(nm, sizeof nm, "%s", name);
	for(i = 0; nm[i]; i++) if(nm[i] == ' ') nm[i] = '_';
	for(i = 0; i < n; i++)
	{
		d[i] = 0;
		for(w = 1; w <= 8; w *= 2)
		{
			struct kv *e = 0; size_t b = i / w * w;
			if(w > 1) snprintf(key, 90, "%s[%zu]/%u", nm, b, w); else snprintf(key, 90, "%s[%zu]", nm, b);
			if(secret && sec) { strcat(key, "'"); e = find(V, nV, key); if(!e) key[strlen(key) - 1] = 0; }
			if(!e) e = find(V, nV, key);
			if(e) { j = i - b; d[i] = (uint8_t)(e->v >> 8 * (le ? j : w - 1 - j)); break; }
		}
	}
#ifdef MSAN
	if(secret && ct) __msan_poison(p, n);
#endif
}
void ks_sym(void *p, size_t n, const char *name) { fill(p, n, name, 0); }
void ks_secret(void *p, size_t n, const char *name) { fill(p, n, name, 1); }
static void stop(int c) { fflush(stdout); _exit(c); }
int ks_choose(int lo, int hi, const char *name0)
{
	char name[64]; size_t q;
	snprintf(name, sizeof name, "%s", name0); for(q = 0; name[q]; q++) if(name[q] == ' ') name[q] = '_';
	(void)count(name);
	if(posC >= nC) { printf("choice %s not in file\n", name); stop(0); }
	if(strncmp(C[posC].k, name, strlen(name)) || (long long)C[posC].v < lo || (long long)C[posC].v > hi) { printf("choice mismatch %s\n", name); stop(75); }
	return (int)C[posC++].v;
}
int ks_param(const char *name, int dflt) { struct kv *e = find(P, nP, name); return e ? (int)e->v : dflt; }
void ks_assume(int c) { if(!c) { printf("ASSUMPTION does not hold\n"); stop(76); } }
void ks_assert(int c, const char *msg) { if(!c) { printf("FAILED: %s\n", msg); stop(77); } }
void ks_eq(const void *a, const void *b, size_t n, const char *msg)
{
	const uint8_t *x = a, *y = b; size_t i;
#ifdef MSAN
	__msan_check_mem_is_initialized(a, n); __msan_check_mem_is_initialized(b, n);
#endif
	for(i = 0; i < n; i++) if(x[i] != y[i])
	{
		printf("FAILED: %s: byte %zu of %zu: %02x, expected %02x\n", msg, i, n, x[i], y[i]);
		for(i = 0; i < n; i++) printf("%02x", x[i]);
		printf("\n");
		for(i = 0; i < n; i++) printf("%02x", y[i]);
		printf("\n");
		stop(77);
	}
}
void ks_init(const void *p, size_t n, const char *msg)
{
	(void)p; (void)n; (void)msg;
#ifdef MSAN
	__msan_check_mem_is_initialized(p, n);
#endif
}
void ks_uf(unsigned fn, const void *in, size_t nin, void *out, size_t nout)
{
	size_t i; uint8_t *t = __real_malloc(nout + 1);
	for(i = 0; i < nout; i++) t[i] = ksp_uf(fn, (uint32_t)i, in, nin);
	memcpy(out, t, nout); __real_free(t);
}
void ks_perm(unsigned fn, int dir, const void *key, size_t nkey, const void *in, void *out, size_t bs)
{
	uint8_t t[512]; memcpy(t, in, bs); ksp_perm(fn, dir, key, nkey, t, bs); memcpy(out, t, bs);
}
void ks_fail_alloc(int n) { failAt = n < 0 ? -1 : allocs + n; }
int ks_alloc_count(void) { return (int)allocs; }
int ks_live(void) { return (int)live; }
void ks_cover(const char *name) { if(getenv("KS_PROBE")) printf("COVER %s\n", name); }
void ks_note(const char *name, long v) { (void)name; (void)v; }
void ks_ct(int on) { (void)on; }
void ks_wipe_mode(int on) { (void)on; }
int ks_is_symbolic(int x) { (void)x; return 0; }
size_t ks_objsize(const void *p) { return malloc_usable_size((void *)p); }
/* the first n bytes end at a page boundary; what follows is claimed, not accessible */
static char *edge_at[8]; static int edges;
static void edge_hit(int sig, siginfo_t *i, void *c)
{
	int k; char *p = i->si_addr;
	(void)sig; (void)c;
	for(k = 0; k < edges; k++) if(p >= edge_at[k] && p < edge_at[k] + (1ull << 36)) _exit(0);
	_exit(79);
}
void *ks_edge(size_t n)
{
	size_t pg = 4096, m = (n + pg - 1) / pg * pg; char *p; struct sigaction a;
	p = mmap(0, m + (1ull << 36), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED || edges == 8) stop(76);
	mprotect(p, m, PROT_READ | PROT_WRITE);
	edge_at[edges++] = p + m;
	memset(&a, 0, sizeof a); a.sa_sigaction = edge_hit; a.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &a, 0); sigaction(SIGBUS, &a, 0);
	return p + m - n;
}
int ks_native(void) { return 1; }
int main(int argc, char **argv)
{
	char t, k[96], v[64], line[256]; FILE *f; void (*fn)(void);
	if(argc < 3 || !(f = fopen(argv[2], "r"))) { fprintf(stderr, "usage: replay ENTRY CEX\n"); return 75; }
	while(fgets(line, sizeof line, f))
	{
		if(sscanf(line, "%c %95s %63s", &t, k, v) < 2) continue;
		if(t == 'P') P = addkv(P, &nP, k, strtoull(v, 0, 0));
		else if(t == 'C') C = addkv(C, &nC, k, strtoull(v, 0, 0));
		else if(t == 'V') V = addkv(V, &nV, k, strtoull(v, 0, 16));
		else if(t == 'E') le = atoi(k);
		else if(t == 'S') sec = atoi(k);
		else if(t == 'D') dumpFree = atoi(k);
		else if(t == 'T') ct = atoi(k);
	}
	fclose(f);
	fn = (void (*)(void))dlsym(0, argv[1]);
	if(!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 75; }
	allocs = live = 0;
	fn();
	printf("replay: nothing failed\n");
	stop(0);
	return 0;
}
