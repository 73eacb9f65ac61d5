/* U04: lib/random.c over a model of the operating system: fopen, fread, fclose and
   getenv are replaced; open may fail, every read delivers any number of the bytes
   asked for (short reads included), the environment override may be set. */
#define _DEFAULT_SOURCE
#include "ks.h"
#include <stdio.h>
static int h_opens, h_closes, h_pos, h_env, h_bad, h_eof, h_iserr, h_mode;
static uint8_t h_src[9000]; static char h_envv[16] = "/dev/other"; static char h_file[8];
static FILE *h_fopen(const char *path, const char *mode)
{
	const char *want = h_env ? h_envv : "/dev/urandom"; unsigned i;
	for(i = 0; want[i] && path[i] == want[i]; i++);
	if(path[i] != want[i]) h_bad = 1;
	if(mode[0] != 'r') h_bad = 1;
	for(i = 0; mode[i]; i++) if(mode[i] == '+') h_bad = 1;
	if(ks_choose(0, 1, "open fails")) return 0;
	h_opens++; return (FILE *)h_file;
}
static int h_fclose(FILE *f) { if(f != (FILE *)h_file || h_opens - h_closes != 1) h_bad = 1; h_closes++; return 0; }
/* the bytes of one read call: all, or a short count */
static size_t h_fread(void *p, size_t sz, size_t n, FILE *f)
{
	size_t tot = sz * n, k, d;
	if(f != (FILE *)h_file || h_opens - h_closes != 1 || h_pos + tot > sizeof h_src) { h_bad = 1; return 0; }
	if(!sz || !n) return 0;
	d = h_mode == 0 ? tot : h_eof ? 0 : (size_t)ks_choose(0, (int)tot, "delivered");
	if(d < tot) { h_eof = 1; if(ks_param("err", 0)) h_iserr = ks_choose(0, 1, "error, not end"); }
	for(k = 0; k < d; k++) ((uint8_t *)p)[k] = h_src[h_pos + k];
	h_pos += (int)d; return d / sz;
}
/* what the source delivers after the end indicator is cleared may be anything again */
static void h_clearerr(FILE *f) { if(f != (FILE *)h_file) h_bad = 1; h_eof = 0; }
static int h_fgetc(FILE *f) { uint8_t b; return h_fread(&b, 1, 1, f) ? b : -1; }
static int h_setvbuf(FILE *f) { if(f != (FILE *)h_file) h_bad = 1; return 0; }
static char *h_getenv(const char *n)
{
	const char *w = "KRIPTO_RANDOM"; unsigned i;
	for(i = 0; w[i] && n[i] == w[i]; i++);
	if(n[i] != w[i]) h_bad = 1;
	return h_env ? h_envv : 0;
}
#undef fopen
#undef fclose
#undef fread
#undef getenv
#undef setvbuf
#undef setbuf
#undef feof
#undef ferror
#undef clearerr
#undef fgetc
#undef getc
#define fopen h_fopen
#define fclose h_fclose
#define fread h_fread
#define getenv h_getenv
#define setvbuf(f, b, m, n) h_setvbuf(f)
#define setbuf(f, b) ((void)h_setvbuf(f))
#define feof(f) (h_eof && !h_iserr)
#define ferror(f) (h_eof && h_iserr)
#define clearerr h_clearerr
#define fgetc h_fgetc
#define getc h_fgetc
#define kripto_random_create h_random_create
#define kripto_random_gen h_random_gen
#define kripto_random_destroy h_random_destroy
#define kripto_random_test h_random_test
#define kripto_random h_random
#include "random.c"
void rnd(void)
{
	kripto_random *r; unsigned i, calls = (unsigned)ks_param("calls", 1), n, tot = 0; uint8_t b[9000]; int ds; size_t g;
	h_env = ks_choose(0, 1, "environment override"); h_mode = ks_param("short", 0);
	ks_sym(h_src, (size_t)ks_param("src", 200), "source");
	r = h_random_create();
	if(!h_opens) { ks_assert(!r, "success although the source cannot be opened"); ks_assert(!h_bad, "use of the system source"); ks_assert(ks_live() == 0, "memory is still allocated"); ks_cover("failed"); ks_cover("end"); return; }
	ks_assert(r != 0, "failure although the source was opened");
	for(i = 0; i < calls; i++)
	{
		n = (unsigned)ks_choose(ks_param("lo", 0), ks_param("hi", 40), "len");
		memset(b, 0xA5, n + 2); ds = h_pos;
		g = h_random_gen(r, b + 1, n);
		ks_assert(b[0] == 0xA5 && b[n + 1] == 0xA5, "bytes around the buffer");
		ks_assert(g <= n, "more than asked for"); tot += n;
		ks_assert((g == n) == (h_pos - ds == (int)n), "success exactly if the source delivered everything");
		ks_eq(b + 1, h_src + ds, g, "delivered bytes");
	}
	h_random_destroy(r);
	ks_assert(h_opens == 1 && h_closes == 1, "the source is closed once"); ks_assert(!h_bad, "use of the system source"); ks_assert(ks_live() == 0, "memory is still allocated");
	ks_cover("end");
}
