/* Concrete counterexample search and replay for the contracts of libsamplerate.
** One process, real library code (compiled from /repo/src with ASan+UBSan), oracles per property.
**   h <property> search <seed> <seconds> <first> <step>      random cases first, first+step, ...
**   h <property> case <seed> <n>                              replay one case
** exit 0 nothing found, 1 a failing case (line "FAIL ..."), anything else a crash (the last
** line "CASE n" names it). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <math.h>
#include <float.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include "samplerate.h"
typedef float coeff_t ;
#include "fastest_coeffs.h"
#include "mid_qual_coeffs.h"
#ifdef __cplusplus
#error C only
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
void __sanitizer_set_death_callback (void (*) (void)) ;

static uint64_t rs ; static long cur_case ; static uint64_t cur_seed ; static const char *cur_prop ;
static uint64_t rnd (void) { rs ^= rs << 13 ; rs ^= rs >> 7 ; rs ^= rs << 17 ; return rs * 2685821657736338717ull ; }
static uint64_t rn (uint64_t n) { return n ? (rnd () >> 11) % n : 0 ; }
static double ru (void) { return (rnd () >> 11) * (1.0 / 9007199254740992.0) ; }
static void seed_case (uint64_t s, long n) { rs = (s + 1) * 0x9E3779B97F4A7C15ull ^ (uint64_t) (n + 1) * 0xD1B54A32D192ED03ull ; if (!rs) rs = 1 ; for (int i = 0 ; i < 8 ; i++) rnd () ; }

static int quiet_allocs ;
static char trace [8192] ; static size_t tn ;
#define TR(...) do { if (tn < sizeof (trace) - 200) tn += snprintf (trace + tn, sizeof (trace) - tn, __VA_ARGS__) ; } while (0)
static void wr (const char *s) { ssize_t r = write (1, s, strlen (s)) ; (void) r ; }
static void death (void)
{	char b [128] ; snprintf (b, sizeof (b), "\nCASE %ld seed %llu property %s\n", cur_case, (unsigned long long) cur_seed, cur_prop) ; wr (b) ;
	wr ("HISTORY ") ; wr (trace) ; wr ("\n") ; }
static void onsig (int s) { char b [64] ; snprintf (b, sizeof (b), "\n%s\n", s == SIGALRM ? "FAIL call does not return (hang)" : s == SIGABRT ? "FAIL abort (assertion)" : "FAIL signal") ; wr (b) ; death () ; _exit (1) ; }
#define FAIL(...) do { printf ("FAIL %s: ", cur_prop) ; printf (__VA_ARGS__) ; printf ("\n") ; fflush (stdout) ; death () ; _exit (1) ; } while (0)

/* ------------------------------------------------------------- allocation tracking */
typedef struct { void *p ; size_t n ; } BLK ;
static BLK blk [4096] ; static int nblk ; static int track ; static long alloc_no ; static uint64_t fail_mask ; static int nfail_seen ;
void *__real_malloc (size_t) ; void *__real_calloc (size_t, size_t) ; void __real_free (void *) ; void *__real_realloc (void *, size_t) ;
static int should_fail (void) { long k = alloc_no++ ; if (k < 64 && (fail_mask >> k & 1)) { nfail_seen++ ; return 1 ; } return 0 ; }
static void add_blk (void *p, size_t n) { if (p && nblk < 4096) { blk [nblk].p = p ; blk [nblk].n = n ; nblk++ ; } }
void *__wrap_malloc (size_t n) { if (!track) return __real_malloc (n) ; if (should_fail ()) return NULL ; void *p = __real_malloc (n) ; if (p) memset (p, 0xC6, n) ; add_blk (p, n) ; return p ; }
void *__wrap_calloc (size_t a, size_t b) { if (!track) return __real_calloc (a, b) ; if (should_fail ()) return NULL ; void *p = __real_calloc (a, b) ; add_blk (p, a * b) ; return p ; }
void *__wrap_realloc (void *q, size_t n)
{	if (!track) return __real_realloc (q, n) ; if (should_fail ()) return NULL ;
	for (int i = 0 ; i < nblk ; i++) if (blk [i].p == q) { blk [i] = blk [--nblk] ; break ; }
	void *p = __real_realloc (q, n) ; add_blk (p, n) ; return p ; }
void __wrap_free (void *p)
{	if (p) for (int i = 0 ; i < nblk ; i++) if (blk [i].p == p) { blk [i] = blk [--nblk] ; break ; }
	__real_free (p) ; }
#define LIB(x) do { track = 1 ; alarm (20) ; x ; alarm (0) ; track = 0 ; } while (0)

/* snapshot of all library-owned blocks, except those in `not` */
typedef struct { int n ; void *p [4096] ; size_t sz [4096] ; unsigned char *d [4096] ; } SNAP ;
static SNAP *snap (int from, int to)
{	SNAP *s = malloc (sizeof (SNAP)) ; s->n = 0 ;
	for (int i = from ; i < to && i < nblk ; i++) { s->p [s->n] = blk [i].p ; s->sz [s->n] = blk [i].n ; s->d [s->n] = malloc (blk [i].n + 1) ; memcpy (s->d [s->n], blk [i].p, blk [i].n) ; s->n++ ; }
	return s ; }
static int snap_same (SNAP *s)
{	for (int i = 0 ; i < s->n ; i++) if (memcmp (s->d [i], s->p [i], s->sz [i])) return 0 ; return 1 ; }
static void snap_free (SNAP *s) { for (int i = 0 ; i < s->n ; i++) free (s->d [i]) ; free (s) ; }

/* ------------------------------------------------------------- reference model */
typedef struct
{	int conv, ch ; double last_ratio, pos ; int dirty ; float last [160] ;
	/* sinc */
	const float *tab ; int chl, inc ; long b_len, bc, be, bre ; long base ;	/* base: stream sample held by buffer [0], in samples (can be negative) */
	float *st ; long stn, stcap ;	/* the stream in samples */
	int ramp_seen ;
	double alt ;	/* value over the full stream */
	double total_in_pos ;
} REF ;
static void ref_reset (REF *r) { r->last_ratio = 0 ; r->pos = 0 ; r->dirty = 0 ; memset (r->last, 0, sizeof (r->last)) ; r->bc = r->be = 0 ; r->bre = -1 ; r->base = 0 ; r->stn = 0 ; r->ramp_seen = 0 ; }
static void ref_init (REF *r, int conv, int ch)
{	memset (r, 0, sizeof (*r)) ; r->conv = conv ; r->ch = ch ;
	if (conv == SRC_SINC_FASTEST) { r->tab = fastest_coeffs.coeffs ; r->chl = sizeof (fastest_coeffs.coeffs) / sizeof (float) - 2 ; r->inc = fastest_coeffs.increment ; }
	if (conv == SRC_SINC_MEDIUM_QUALITY) { r->tab = slow_mid_qual_coeffs.coeffs ; r->chl = sizeof (slow_mid_qual_coeffs.coeffs) / sizeof (float) - 2 ; r->inc = slow_mid_qual_coeffs.increment ; }
	if (r->tab) { long l = 3 * lrint ((r->chl + 2.0) / r->inc * 256 + 1) ; if (l < 4096) l = 4096 ; r->b_len = l * ch + 1 ; }
	ref_reset (r) ; }
static void ref_free (REF *r) { free (r->st) ; r->st = NULL ; }
static void ref_copy (REF *d, const REF *s) { *d = *s ; if (s->st) { d->st = malloc (s->stcap * sizeof (float)) ; memcpy (d->st, s->st, s->stn * sizeof (float)) ; } }
static double fmod1 (double x) { double r = x - lrint (x) ; return r < 0 ? r + 1.0 : r ; }

typedef struct { long used, gen ; float *out ; float *alt ; } ROUT ;

static void ref_zl (REF *r, const float *in, long fi, long fo, double ratio, ROUT *o)
{	int ch = r->ch, c ; double q = r->last_ratio, x = r->pos, rem ; long u = 0, g = 0 ;
	if (fi <= 0) { o->used = o->gen = 0 ; return ; }
	if (!r->dirty) { for (c = 0 ; c < ch ; c++) r->last [c] = in [c] ; r->dirty = 1 ; }
	int vary = fabs (r->last_ratio - ratio) > 1e-20 ;
	while (x < 1.0 && g < fo)
	{	if (x >= fi) break ;
		if (ch * x >= (double) fi * ch) break ;
		if (vary) q = r->last_ratio + (double) (g * ch) * (ratio - r->last_ratio) / (double) (fo * ch) ;
		for (c = 0 ; c < ch ; c++) o->out [g * ch + c] = r->conv == SRC_ZERO_ORDER_HOLD ? r->last [c] : (float) (r->last [c] + x * ((double) in [c] - r->last [c])) ;
		g++ ; x += 1.0 / q ; }
	rem = fmod1 (x) ; u += lrint (x - rem) ; x = rem ;
	while (g < fo && (r->conv == SRC_ZERO_ORDER_HOLD ? u * ch + ch * x <= (double) fi * ch : u * ch + ch * x < (double) fi * ch))
	{	if (vary) q = r->last_ratio + (double) (g * ch) * (ratio - r->last_ratio) / (double) (fo * ch) ;
		for (c = 0 ; c < ch ; c++)
		{	float l = u > 0 ? in [(u - 1) * ch + c] : r->last [c] ;
			o->out [g * ch + c] = r->conv == SRC_ZERO_ORDER_HOLD ? l : (float) (l + x * ((double) in [u * ch + c] - l)) ; }
		g++ ; x += 1.0 / q ; rem = fmod1 (x) ; u += lrint (x - rem) ; x = rem ; }
	if (u > fi) { x += u - fi ; u = fi ; }
	r->pos = x ;
	if (u > 0) for (c = 0 ; c < ch ; c++) r->last [c] = in [(u - 1) * ch + c] ;
	r->last_ratio = q ; o->used = u ; o->gen = g ; }

static float ref_at (REF *r, long i) { return i < 0 || i >= r->stn ? 0.0f : r->st [i] ; }
static void ref_prep (REF *r, const float *in, long *used, long fi, int eoi, long half)
{	long len ; int ch = r->ch ;
	if (r->bre >= 0 || in == NULL) return ;
	if (r->bc == 0) { len = r->b_len - 2 * half ; r->base = r->stn - half ; r->bc = r->be = half ; }
	else if (r->be + half + ch < r->b_len) len = r->b_len - r->bc - half ;
	else { long l = r->be - r->bc ; r->base += r->bc - half ; r->bc = half ; r->be = half + l ; len = r->b_len - r->bc - half ; }
	if (len < 0) len = 0 ;
	if (len > fi * ch - *used) len = fi * ch - *used ;
	len -= len % ch ;
	if (r->stn + len > r->stcap) { r->stcap = 2 * (r->stn + len) + 1024 ; r->st = realloc (r->st, r->stcap * sizeof (float)) ; }
	if (len) memcpy (r->st + r->stn, in + *used, len * sizeof (float)) ; r->stn += len ;
	r->be += len ; *used += len ;
	if (*used == fi * ch && r->be - r->bc < 2 * half && eoi)
	{	if (r->b_len - r->be < half + 5 && r->bc > half) { long l = r->be - r->bc ; r->base += r->bc - half ; r->bc = half ; r->be = half + l ; }
		r->bre = r->be ; len = half + 5 ; if (r->be + len > r->b_len) len = r->b_len - r->be ; len -= len % ch ; r->be += len ; }
}
static double ref_tap (REF *r, int fi) { double f = (fi & 4095) * (1.0 / 4096.0) ; int i = fi >> 12 ; return r->tab [i] + f * (r->tab [i + 1] - r->tab [i]) ; }
static void ref_sinc (REF *r, const float *in, long fi, long fo, double ratio, int eoi, ROUT *o)
{	int ch = r->ch, c ; double q = r->last_ratio, x = r->pos, rem, cnt = (r->chl + 2.0) / r->inc, mn = r->last_ratio < ratio ? r->last_ratio : ratio ; long used = 0, g = 0 ;
	if (mn < 1.0) cnt /= mn ;
	long half = ch * (lrint (cnt) + 1) ;
	double term = 1.0 / q + 1e-20 ;
	double tol = ch == 1 ? 1e-10 : 1e-10 ;
	while (g < fo)
	{	long hand = (r->be - r->bc + r->b_len) % r->b_len ;
		if (hand <= half) { ref_prep (r, in, &used, fi, eoi, half) ; hand = (r->be - r->bc + r->b_len) % r->b_len ; if (hand <= half) break ; }
		if (r->bre >= 0 && r->bc + x + term >= r->bre && (ch != 1 || r->bc + x + term > r->bre)) break ;
		if (fabs (r->last_ratio - ratio) > tol) q = r->last_ratio + (double) (g * ch) * (ratio - r->last_ratio) / (double) (fo * ch) ;
		double fin = r->inc * (q < 1.0 ? q : 1.0) ;
		long incr = lrint (fin * 4096.0), start = lrint (x * fin * 4096.0), mx = (long) r->chl << 12 ;
		for (c = 0 ; c < ch ; c++)
		{	double l = 0, rr = 0, lf = 0 ; long k ;
			for (k = (mx - start) / incr ; start + k * incr >= 0 ; k--)
			{	long d = r->bc - k * ch ; double t = ref_tap (r, start + k * incr) ; float v = ref_at (r, r->base + d + c) ;
				lf += t * v ; if (d >= 0) l += t * v ; }
			for (k = (mx - (incr - start)) / incr ; k >= 0 ; k--)
			{	long fx = incr - start + k * incr ; if (fx <= 0 && k < (mx - (incr - start)) / incr) break ;
				rr += ref_tap (r, fx) * ref_at (r, r->base + r->bc + (k + 1) * ch + c) ; }
			o->out [g * ch + c] = (float) (fin / r->inc * (l + rr)) ;
			o->alt [g * ch + c] = (float) (fin / r->inc * (lf + rr)) ; }
		g++ ; x += 1.0 / q ; rem = fmod1 (x) ; r->bc = (r->bc + ch * lrint (x - rem)) % r->b_len ; x = rem ; }
	r->pos = x ; r->last_ratio = q ; o->used = used / ch ; o->gen = g ; }

static void ref_process (REF *r, const float *in, long fi, long fo, double ratio, int eoi, ROUT *o)
{	if (fi < 0) fi = 0 ; if (fo < 0) fo = 0 ;
	if (r->last_ratio < 1.0 / 256) r->last_ratio = ratio ;
	if (r->tab) ref_sinc (r, in, fi, fo, ratio, eoi, o) ; else ref_zl (r, in, fi, fo, ratio, o) ; }

/* ------------------------------------------------------------- generators */
static const int CONVS [4] = { SRC_ZERO_ORDER_HOLD, SRC_LINEAR, SRC_SINC_FASTEST, SRC_SINC_MEDIUM_QUALITY } ;
static int is_sinc (int c) { return c <= SRC_SINC_FASTEST ; }
static int g_conv (void) { static const int w [10] = { 3, 3, 4, 4, 2, 2, 2, 2, 2, 1 } ; return w [rn (10)] ; }
static int g_ch (int conv) { switch (rn (10)) { case 0 : case 1 : case 2 : return 1 ; case 3 : case 4 : return 2 ; case 5 : return 4 ; case 6 : return 6 ; case 7 : return 3 + rn (8) ; case 8 : return rn (3) ? 5 : is_sinc (conv) ? 128 : 130 ; default : return 1 + rn (rn (4) ? 12 : 128) ; } }
static double g_ratio (double near_)
{	switch (rn (14))
	{	case 0 : return 1.0 ; case 1 : return 256.0 ; case 2 : return 1.0 / 256 ; case 3 : return 0.5 + ru () * 0.5 ; case 4 : return 2.0 ; case 5 : return 1.0 + ru () ;
		case 6 : if (near_ > 0) { double d [6] = { 1e-9, 1e-11, 1e-14, 1e-16, -1e-9, 1e-4 } ; double q = near_ + d [rn (6)] ; if (q >= 1.0 / 256 && q <= 256) return q ; } return 0.75 ;
		case 7 : return nextafter (256.0, 0) ; case 8 : return nextafter (1.0 / 256, 1) ; case 9 : if (near_ > 0) return near_ ; return 1.5 ;
		case 10 : return exp ((ru () * 2 - 1) * log (8)) ; case 11 : return (1 + rn (16)) / 4.0 ; default : return exp ((ru () * 2 - 1) * log (255.9)) ; } }
static long g_frames (int big)
{	switch (rn (9)) { case 0 : return 0 ; case 1 : return 1 ; case 2 : return 2 ; case 3 : return rn (8) ; case 4 : return rn (40) ; case 5 : return rn (300) ; case 6 : return 1 + rn (3) ; case 7 : return rn (1500) ; default : return rn (big ? 9000 : 400) ; } }
static float g_sample (int mode, long i)
{	switch (mode) { case 0 : return (float) (ru () * 2 - 1) ; case 1 : return (float) sin (i * 0.1) ; case 2 : return rn (20) ? 0.0f : 1.0f ; case 3 : return (float) (i % 97) / 97.0f ; default : return (float) ((ru () * 2 - 1) * (rn (50) ? 1 : 1e30)) ; } }
static float *xb (long n) { float *p = malloc (n > 0 ? n * sizeof (float) : 1) ; return p ; }	/* exact size: ASan sees every overrun */

#define GUARD 0x7fc12345u
static void fillg (float *p, long n) { uint32_t g = GUARD ; for (long i = 0 ; i < n ; i++) memcpy (p + i, &g, 4) ; }
static int isg (const float *p) { uint32_t v ; memcpy (&v, p, 4) ; return v == GUARD ; }

typedef struct { SRC_STATE *s ; REF r ; int conv, ch, ended ; double lastq ; long gen_total, calls ; int values_ok ; } H ;
static void h_new (H *h, int conv, int ch)
{	int e = 77 ; memset (h, 0, sizeof (*h)) ; h->conv = conv ; h->ch = ch ; LIB (h->s = src_new (conv, ch, &e)) ;
	if (!h->s) FAIL ("src_new (%d, %d) failed: %d", conv, ch, e) ;
	ref_init (&h->r, conv, ch) ; TR ("new(conv=%d,ch=%d);", conv, ch) ; }
static void h_del (H *h) { LIB (src_delete (h->s)) ; ref_free (&h->r) ; h->s = NULL ; }

/* which oracles a process call checks */
enum { O_COUNTS = 1, O_RET = 2, O_VAL = 4, O_FRAME = 8, O_PROG = 16, O_REFCOUNT = 32, O_CHANRANGE = 64 } ;
static int near_eq (float a, float b, double scale) { if (a == b) return 1 ; if (a != a && b != b) return 1 ; return fabs ((double) a - b) <= 3e-7 * scale + 1e-30 ; }

static int h_process_in (H *h, const float *in0, long fi, long fo, double ratio, int eoi, int ora, float *keep, long *pgen, long *pused)
{	int ch = h->ch ; long ni = (fi > 0 ? fi : 0) * ch, no = (fo > 0 ? fo : 0) * ch ;
	float *in = xb (ni), *in2 = xb (ni), *out = xb (no) ;
	if (ni) { memcpy (in, in0, ni * 4) ; memcpy (in2, in0, ni * 4) ; } fillg (out, no) ;
	ROUT o = { 0, 0, xb (no), xb (no) } ;
	REF before ; int rb = (ora & (O_VAL | O_REFCOUNT)) != 0 ;
	double amp = 1e-6 ; for (long i = 0 ; i < ni ; i++) if (fabsf (in [i]) > amp) amp = fabsf (in [i]) ;
	for (long i = 0 ; i < h->r.stn ; i++) if (fabsf (h->r.st [i]) > amp) amp = fabsf (h->r.st [i]) ;
	(void) before ;
	SRC_DATA d ; memset (&d, 0, sizeof (d)) ;
	d.data_in = in ; d.data_out = out ; d.input_frames = fi ; d.output_frames = fo ; d.src_ratio = ratio ; d.end_of_input = eoi ; d.input_frames_used = -55 ; d.output_frames_gen = -55 ;
	TR ("process(in=%ld,out=%ld,ratio=%.17g,eoi=%d)", fi, fo, ratio, eoi) ;
	int ret ; LIB (ret = src_process (h->s, &d)) ;
	TR ("->%d used=%ld gen=%ld;", ret, d.input_frames_used, d.output_frames_gen) ;
	h->calls++ ;
	if ((ora & O_RET) && ret != 0) FAIL ("valid request returned %d (%s)", ret, src_strerror (ret)) ;
	if (ret == 0)
	{	long u = d.input_frames_used, g = d.output_frames_gen ;
		long cfi = fi > 0 ? fi : 0, cfo = fo > 0 ? fo : 0 ;
		if (ora & O_COUNTS) { if (u < 0 || u > cfi || g < 0 || g > cfo) FAIL ("counts out of range: used %ld of %ld, generated %ld of %ld", u, cfi, g, cfo) ; }
		if (ora & O_FRAME)
		{	if (ni && memcmp (in, in2, ni * 4)) FAIL ("input buffer modified") ;
			for (long i = 0 ; i < no ; i++)
			{	if (i < g * ch && isg (out + i)) FAIL ("output sample %ld of %ld reported frames not written", i, g) ;
				if (i >= g * ch && !isg (out + i)) FAIL ("output sample %ld written although only %ld frames reported", i, g) ; } }
		if (u < 0 || u > cfi || g < 0 || g > cfo) { FAIL ("counts out of range") ; }
		if ((ora & O_PROG) && cfi > 0 && cfo > 0 && u == 0 && g == 0 && !(is_sinc (h->conv) && (h->ended || eoi)))
			FAIL ("no progress with %ld input frames and %ld output frames", cfi, cfo) ;
		if (rb && h->values_ok >= 0)
		{	ref_process (&h->r, in, fi, fo, ratio, eoi, &o) ;
			if (ora & O_REFCOUNT) if (o.used != u || o.gen != g) FAIL ("position: expected used=%ld gen=%ld, got used=%ld gen=%ld", o.used, o.gen, u, g) ;
			if (ora & O_VAL)
			{	long n = o.gen < g ? o.gen : g ;
				for (long i = 0 ; i < n * ch ; i++)
				{	int ok ;
					if (h->r.tab) ok = near_eq (out [i], o.out [i], amp) || near_eq (out [i], o.alt [i], amp) ;
					else ok = !memcmp (out + i, o.out + i, 4) || (out [i] != out [i] && o.out [i] != o.out [i]) || out [i] == o.out [i] ;
					if (!ok) FAIL ("output frame %ld channel %ld is %.9g, the specification gives %.9g", i / ch, i % ch, out [i], o.out [i]) ; } }
			if (o.used != u || o.gen != g) h->values_ok = -1 ;	/* histories diverge: stop comparing */
		}
		if (eoi && u == cfi) h->ended = 1 ;
		h->gen_total += g ;
		if (keep) { memcpy (keep, out, g * ch * 4) ; } if (pgen) *pgen = g ; if (pused) *pused = u ;
	}
	h->lastq = ratio ;
	free (in) ; free (in2) ; free (out) ; free (o.out) ; free (o.alt) ; return ret ; }

static int h_process (H *h, int big, int ora)
{	long fi = g_frames (big), fo = g_frames (big) ; double q = g_ratio (h->lastq) ; int m = rn (5) ;
	if (is_sinc (h->conv)) { if (q < 0.05) fo = fo > 60 ? 60 : fo ; if (h->ch > 12) { fo = fo > 60 ? 60 : fo ; fi = fi > 800 ? 800 : fi ; } if (h->conv == 1 && fo > 150) fo = 150 ; if (fo > 2500) fo = 2500 ; }
	if (!(ora & O_VAL) && m == 4 && 0) m = 0 ;
	if (rn (40) == 0) fi = -(long) rn (5) ; if (rn (40) == 0) fo = -(long) rn (5) ;
	if (rn (2) && h->lastq > 0) q = h->lastq ;
	int eoi = rn (12) == 0 ; if (rn (200) == 0) eoi = -1 ;
	float *in = xb ((fi > 0 ? fi : 0) * h->ch) ; for (long i = 0 ; i < fi * h->ch ; i++) in [i] = g_sample (m == 4 ? 0 : m, i + h->calls * 31) ;
	int r = h_process_in (h, in, fi, fo, q, eoi, ora, NULL, NULL, NULL) ; free (in) ; return r ; }

static void h_reset (H *h) { LIB (src_reset (h->s)) ; ref_reset (&h->r) ; h->ended = 0 ; h->values_ok = 0 ; TR ("reset;") ; }
static void h_set (H *h, double q) { int e ; LIB (e = src_set_ratio (h->s, q)) ; TR ("set_ratio(%.17g)->%d;", q, e) ; if (e) FAIL ("set_ratio (%.17g) rejected", q) ; h->r.last_ratio = q ; h->lastq = q ; }

/* a long stream in one direction: fill and wrap the sinc buffer */
static void long_stream (H *h, int ora)
{	double q = rn (3) ? 0.4 + ru () * 1.2 : g_ratio (0) ; if (q > 3) q = 3 ; if (q < 0.02) q = 0.02 ;
	long total = 0, lim = h->ch > 6 ? 30000 : 80000 ; if (h->conv == 1) lim = 90000 ; int k = 0 ;
	if (h->ch > 2) lim = lim * 2 / h->ch ;
	while (total < lim && k++ < 60)
	{	long fi = 1 + rn (12000), fo = 1 + rn (rn (3) ? 400 : 4000) ; if (h->conv == 1 || q < 0.2) fo = 1 + rn (200) ; if (h->ch > 4) { fi = 1 + rn (3000) ; fo = 1 + rn (100) ; }
		if (rn (3) == 0) q = g_ratio (q) ; if (q > 3) q = 3 ; if (q < 0.02) q = 0.02 ;
		float *in = xb (fi * h->ch) ; for (long i = 0 ; i < fi * h->ch ; i++) in [i] = g_sample (0, i) ;
		long g, u ; int eoi = rn (25) == 0 ; if (h_process_in (h, in, fi, fo, q, eoi, ora, NULL, &g, &u)) { free (in) ; return ; } total += u ; free (in) ; if (h->ended) return ; } }

static void history (H *h, int n, int ora)
{	if (is_sinc (h->conv) && rn (12) == 0) { long_stream (h, ora) ; }
	for (int i = 0 ; i < n ; i++)
	{	int k = rn (20) ;
		if (k == 0) h_reset (h) ;
		else if (k == 1) h_set (h, g_ratio (h->lastq)) ;
		else h_process (h, rn (6) == 0, ora) ; } }

/* ------------------------------------------------------------- properties */
static void c_mem (int lo, int hi, int ora)
{	H h ; int conv ; do conv = g_conv () ; while (conv < lo || conv > hi) ;
	h_new (&h, conv, g_ch (conv)) ; history (&h, 1 + rn (14), ora) ;
	if (rn (5) == 0)
	{	int e ; SRC_STATE *c ; LIB (c = src_clone (h.s, &e)) ; TR ("clone;") ; if (c) { REF r ; ref_copy (&r, &h.r) ; LIB (src_delete (h.s)) ; ref_free (&h.r) ; h.s = c ; h.r = r ; history (&h, 1 + rn (8), ora) ; } }
	h_del (&h) ; }

static int bad_ratio (double q) { return !(q >= 1.0 / 256 && q <= 256) ; }
static double g_double (void)
{	double t [] = { 0.0, -0.0, 1.0, 256.0, 1.0 / 256, INFINITY, -INFINITY, NAN, -NAN, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, -1.0, -256.0, 257, 1e300, 1.0 / 257, 0.5 } ; uint64_t u ; double d ;
	switch (rn (6)) { case 0 : return t [rn (sizeof (t) / sizeof (t [0]))] ; case 1 : d = 256.0 ; for (int i = rn (5) ; i > 0 ; i--) d = nextafter (d, rn (2) ? 1e9 : 0) ; return d ;
		case 2 : d = 1.0 / 256 ; for (int i = rn (5) ; i > 0 ; i--) d = nextafter (d, rn (2) ? 1e9 : 0) ; return d ; case 3 : u = rnd () ; memcpy (&d, &u, 8) ; return d ; case 4 : return exp ((ru () * 2 - 1) * 7) ; default : return (double) (long) rn (600) - 100 ; } }

static long cbn ; static float *cbp ; static int cb_called ;
static long cb_simple (void *u, float **p) { (void) u ; cb_called++ ; *p = cbp ; return cbn ; }

static void c04 (void)
{	int conv = g_conv (), ch = g_ch (conv) ; if (ch > 8) ch = 3 ; H h ; h_new (&h, conv, ch) ; history (&h, rn (4), 0) ;
	int expect = 0 ; int cbm = rn (6) == 0 ; SRC_STATE *st = h.s, *cs = NULL ; int e ;
	if (cbm) { LIB (cs = src_callback_new (cb_simple, conv, ch, &e, NULL)) ; if (cs) st = cs ; else cbm = 0 ; }
	int nullst = rn (10) == 0 ; if (nullst) st = NULL ;
	long n = 400 * ch ; float *arena = xb (n), *copy = xb (n) ; for (long i = 0 ; i < n ; i++) arena [i] = (float) i ; memcpy (copy, arena, n * 4) ;
	SRC_DATA d, d2 ; memset (&d, 0, sizeof (d)) ;
	long fi = (long) rn (30) - 3, fo = (long) rn (30) - 3 ; long ai = rn (100), ao = 200 + rn (100) ;
	if (rn (2)) { long cf = fi > 0 ? fi : 0 ; ao = ai + cf * ch + (long) rn (5) - 2 - (rn (4) ? 0 : ch * (long) rn (8)) ; if (ao < 0) ao = 0 ; }
	else if (rn (2)) { long cf = fo > 0 ? fo : 0 ; ao = 40 + rn (60) ; ai = ao + cf * ch + (long) rn (5) - 2 - (rn (4) ? 0 : ch * (long) rn (8)) ; if (ai < 0) ai = 0 ; }
	if (rn (12) == 0) ao = ai ;
	if (ai + 30 * ch > n) ai = 0 ; if (ao + 30 * ch > n) ao = 0 ;
	d.data_in = rn (8) ? arena + ai : NULL ; d.data_out = rn (8) ? arena + ao : NULL ; d.input_frames = fi ; d.output_frames = fo ; d.src_ratio = rn (3) ? g_ratio (0) : g_double () ; d.end_of_input = rn (2) ;
	d.input_frames_used = -7 ; d.output_frames_gen = -9 ; d2 = d ; int nulld = rn (12) == 0 ;
	long pi = fi > 0 ? fi : 0, po = fo > 0 ? fo : 0 ;
	const float *bi = d.data_in, *bo = d.data_out ; long si = pi * ch, so = po * ch ;
	int overlap = bi && bo ? (bi < bo ? bi + si > bo : bo + so > bi) : 0 ;
	int fuzzy = 0 ;
	if (bi == NULL || bo == NULL) { overlap = 0 ; if (bi == bo) fuzzy = 0 ; }
	if (bi && bi == bo && so == 0) overlap = 0 ;
	if (nullst) expect = 9 - 9 + 2 ; /* SRC_ERR_BAD_STATE == 2 */
	else if (cbm) expect = 18 ; else if (nulld) expect = 3 ;
	else if ((!bi && fi > 0) || (!bo && fo > 0)) expect = 4 ;
	else if (bad_ratio (d.src_ratio)) expect = 6 ;
	else if (overlap) expect = 16 ;
	SNAP *s = snap (0, nblk) ; int err0 = st ? src_error (st) : 0 ;
	int ret ; TR ("process(null=%d cb=%d nulldata=%d in=%ld@%ld out=%ld@%ld ch=%d ratio=%.17g)", nullst, cbm, nulld, fi, bi ? ai : -1, fo, bo ? ao : -1, ch, d.src_ratio) ;
	LIB (ret = src_process (st, nulld ? NULL : &d)) ; TR ("->%d;", ret) ;
	if (!fuzzy)
	{	if (expect && ret != expect) FAIL ("invalid request returned %d, documented %d", ret, expect) ;
		if (!expect && ret != 0) FAIL ("valid request rejected with %d", ret) ; }
	if (expect)
	{	if (!snap_same (s)) FAIL ("rejected request (%d) changed the handle", expect) ;
		if (memcmp (arena, copy, n * 4)) FAIL ("rejected request changed the buffers") ;
		if (st && src_error (st) != err0) FAIL ("rejected request changed the error state") ;
		if (!nulld && (d.input_frames_used != d2.input_frames_used || d.output_frames_gen != d2.output_frames_gen)) FAIL ("rejected request changed the frame counts") ; }
	else { if (d.input_frames_used < 0 || d.input_frames_used > pi || d.output_frames_gen < 0 || d.output_frames_gen > po) FAIL ("counts out of range") ; }
	snap_free (s) ; free (arena) ; free (copy) ; if (cs) LIB (src_delete (cs)) ; h_del (&h) ;
	/* one-shot: same validation, NULL data */
	if (rn (4) == 0) { LIB (ret = src_simple (NULL, conv, ch)) ; if (ret == 0) FAIL ("src_simple (NULL) succeeded") ; }
	int code = (int) rn (40) - 5 ; (void) code ; }

static void c05 (void)
{	double q = g_double () ; int want = !bad_ratio (q), got, e ; int conv = CONVS [rn (3)], ch = 1 + rn (2) ;
	TR ("ratio=%.17g conv=%d;", q, conv) ;
	LIB (got = src_is_valid_ratio (q)) ; if ((got != 0) != want) FAIL ("src_is_valid_ratio (%.17g) = %d", q, got) ;
	H h ; h_new (&h, conv, ch) ;
	float in [64] = { 0 }, out [64] ; for (int i = 0 ; i < 64 ; i++) in [i] = i ;
	double first = 0 ; if (rn (2)) { first = g_ratio (0) ; h_set (&h, first) ; }
	if (rn (2)) h_process (&h, 0, 0) ;
	SNAP *s = snap (0, nblk) ; LIB (got = src_set_ratio (h.s, q)) ; if ((got == 0) != want) FAIL ("src_set_ratio (%.17g) = %d", q, got) ;
	if (!want) { if (got != 6) FAIL ("wrong error %d for bad ratio", got) ; if (!snap_same (s)) FAIL ("rejected ratio %.17g changed the handle", q) ; }
	snap_free (s) ;
	SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = out ; d.input_frames = 16 ; d.output_frames = 16 ; d.src_ratio = q ;
	s = snap (0, nblk) ; LIB (got = src_process (h.s, &d)) ; if ((got == 0) != want) FAIL ("src_process with ratio %.17g = %d", q, got) ; if (!want && !snap_same (s)) FAIL ("rejected ratio %.17g changed the handle", q) ; snap_free (s) ;
	h_del (&h) ;
	memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = out ; d.input_frames = 16 ; d.output_frames = 16 ; d.src_ratio = q ;
	LIB (got = src_simple (&d, conv, ch)) ; if ((got == 0) != want) FAIL ("src_simple with ratio %.17g = %d", q, got) ;
	SRC_STATE *c ; cbp = in ; cbn = 16 ; cb_called = 0 ; LIB (c = src_callback_new (cb_simple, conv, ch, &e, NULL)) ;
	if (c) { long g ; LIB (g = src_callback_read (c, q, 4, out)) ; if (!want && (g != 0 || cb_called || src_error (c) != 6)) FAIL ("src_callback_read with ratio %.17g: %ld frames, error %d", q, g, src_error (c)) ;
		if (want && src_error (c) != 0) FAIL ("src_callback_read with ratio %.17g: error %d", q, src_error (c)) ; LIB (src_delete (c)) ; } }

static float g_float (void)
{	uint32_t u = (uint32_t) (rnd () >> 20) ; float f ;
	switch (rn (9)) { case 0 : memcpy (&f, &u, 4) ; return f == f ? f : 0.25f ; case 1 : return (float) (ru () * 2 - 1) ; case 2 : return ((float) (long) rn (70000) - 35000 + (rn (2) ? 0.5f : 0)) / 32768.0f ; case 3 : f = rn (2) ? 1.0f : -1.0f ; for (int i = rn (4) ; i > 0 ; i--) f = nextafterf (f, rn (2) ? 9 : 0) ; return f ;
		case 4 : return rn (2) ? INFINITY : -INFINITY ; case 5 : return (float) ((ru () * 2 - 1) * 4) ; case 6 : f = (float) ((32766.0 + rn (4) * 0.5) / 32768) ; return rn (2) ? f : -f ; case 7 : f = (rn (2) ? 1.0f : -1.0f) * (float) (rn (16) / 2147483648.0 / 2) ; return f ; default : f = 1.0f + (float) ru () * 1e-6f ; return rn (2) ? f : -f ; } }
static long want_int (float x, double sc, long lo, long hi) { double v = nearbyint ((double) x * sc) ; return v >= hi ? hi : v <= lo ? lo : (long) v ; }
static void c06 (void)
{	int n = rn (300) ; int nn = rn (30) ? n : -(int) rn (5) ; int cnt = nn > 0 ? nn : 0 ;
	float *in = xb (cnt) ; short *s = malloc (cnt * 2 + 1) ; int *q = malloc (cnt * 4 + 1) ;
	for (int i = 0 ; i < cnt ; i++) in [i] = g_float () ;
	LIB (src_float_to_short_array (in, s, nn)) ; LIB (src_float_to_int_array (in, q, nn)) ;
	for (int i = 0 ; i < cnt ; i++)
	{	long w = want_int (in [i], 32768.0, -32768, 32767) ; if (s [i] != w) FAIL ("float %.9g to short: %d, nearest is %ld", in [i], s [i], w) ;
		w = want_int (in [i], 2147483648.0, -2147483647L - 1, 2147483647L) ; if (q [i] != w) FAIL ("float %.9g to int: %d, nearest is %ld", in [i], q [i], w) ; }
	/* guard elements around */
	short gs [24] ; int gi [24] ; for (int i = 0 ; i < 24 ; i++) { gs [i] = 12345 ; gi [i] = 1234567 ; } int k = rn (8) ; float t [8] ; for (int i = 0 ; i < 8 ; i++) t [i] = g_float () ;
	src_float_to_short_array (t, gs + 8, k) ; src_float_to_int_array (t, gi + 8, k) ;
	for (int i = 0 ; i < 24 ; i++) if ((i < 8 || i >= 8 + k) && (gs [i] != 12345 || gi [i] != 1234567)) FAIL ("element %d outside the %d converted was written", i - 8, k) ;
	free (in) ; free (s) ; free (q) ; }
static void c07 (void)
{	static int done ; if (!done)
	{	done = 1 ; short *s = malloc (65536 * 2), *b = malloc (65536 * 2) ; float *f = malloc (65536 * 4) ; for (int i = 0 ; i < 65536 ; i++) s [i] = (short) (i - 32768) ;
		src_short_to_float_array (s, f, 65536) ; src_float_to_short_array (f, b, 65536) ;
		for (int i = 0 ; i < 65536 ; i++) { if (f [i] != (float) (s [i] / 32768.0)) FAIL ("short %d to float: %.9g", s [i], f [i]) ; if (b [i] != s [i]) FAIL ("round trip of short %d gives %d", s [i], b [i]) ; }
		free (s) ; free (b) ; free (f) ; }
	int n = rn (300) ; int nn = rn (30) ? n : -(int) rn (5) ; int cnt = nn > 0 ? nn : 0 ; int *q = malloc (cnt * 4 + 1) ; short *s = malloc (cnt * 2 + 1) ; float *f = xb (cnt), *g = xb (cnt) ;
	for (int i = 0 ; i < cnt ; i++) { q [i] = rn (5) ? (int) rnd () : rn (2) ? INT_MAX - (int) rn (200) : INT_MIN + (int) rn (200) ; s [i] = (short) rnd () ; }
	LIB (src_int_to_float_array (q, f, nn)) ; LIB (src_short_to_float_array (s, g, nn)) ;
	for (int i = 0 ; i < cnt ; i++) { float w = (float) (q [i] / 2147483648.0) ; if (f [i] != w) FAIL ("int %d to float: %.9g, nearest is %.9g", q [i], f [i], w) ; if (g [i] != (float) (s [i] / 32768.0)) FAIL ("short %d to float: %.9g", s [i], g [i]) ; }
	float gf [24] ; fillg (gf, 24) ; int k = rn (8) ; int t [8] = { 1, 2, 3, 4, 5, 6, 7, 8 } ; short ts [8] = { 1, 2, 3, 4, 5, 6, 7, 8 } ; src_int_to_float_array (t, gf + 8, k) ;
	for (int i = 0 ; i < 24 ; i++) if ((i < 8 || i >= 8 + k) && !isg (gf + i)) FAIL ("element %d outside the %d converted was written", i - 8, k) ;
	fillg (gf, 24) ; src_short_to_float_array (ts, gf + 8, k) ;
	for (int i = 0 ; i < 24 ; i++) if ((i < 8 || i >= 8 + k) && !isg (gf + i)) FAIL ("element %d outside the %d converted was written", i - 8, k) ;
	free (q) ; free (s) ; free (f) ; free (g) ; }

/* drive two handles with identical requests and demand identical results */
typedef struct { uint64_t seed ; long n ; } CB ;
static long cb_rand (void *u, float **p);
typedef struct { int ch ; uint64_t s ; float *blk ; long n ; int ended ; long limit ; long given ; int calls ; long zero_at ; } SRCB ;
static long cb_stream (void *u, float **p)
{	SRCB *b = u ; free (b->blk) ; b->blk = NULL ; b->calls++ ;	/* earlier block is gone: reading it again is an ASan error */
	b->s = b->s * 6364136223846793005ull + 1442695040888963407ull ;
	long n = (b->s >> 40) % ((b->s >> 33) % 4 ? 40 : 900) ; if (n == 0) n = 1 ; if (b->given + n > b->limit) n = b->limit - b->given ;
	if (n <= 0) { b->n = 0 ; *p = NULL ; static float dummy [256] ; *p = dummy ; return 0 ; }
	b->blk = malloc (n * b->ch * 4) ; for (long i = 0 ; i < n * b->ch ; i++) b->blk [i] = (float) sin ((double) (b->given * b->ch + i) * 0.37) ;
	b->given += n ; b->n = n ; *p = b->blk ; return n ; }

static void same_process (SRC_STATE *a, SRC_STATE *b, int ch, int conv, long fi, long fo, double q, int eoi, const char *what)
{	float *in = xb (fi * ch), *o1 = xb (fo * ch), *o2 = xb (fo * ch) ; for (long i = 0 ; i < fi * ch ; i++) in [i] = g_sample (0, i) ; fillg (o1, fo * ch) ; fillg (o2, fo * ch) ;
	SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = o1 ; d.input_frames = fi ; d.output_frames = fo ; d.src_ratio = q ; d.end_of_input = eoi ; SRC_DATA e = d ; e.data_out = o2 ;
	int r1, r2 ; TR ("both.process(in=%ld,out=%ld,ratio=%.17g,eoi=%d)", fi, fo, q, eoi) ;
	LIB (r1 = src_process (a, &d)) ; LIB (r2 = src_process (b, &e)) ;
	if (r1 != r2 || d.input_frames_used != e.input_frames_used || d.output_frames_gen != e.output_frames_gen) FAIL ("%s: results differ: ret %d/%d used %ld/%ld gen %ld/%ld", what, r1, r2, d.input_frames_used, e.input_frames_used, d.output_frames_gen, e.output_frames_gen) ;
	if (memcmp (o1, o2, fo * ch * 4)) FAIL ("%s: outputs differ", what) ;
	if (src_error (a) != src_error (b)) FAIL ("%s: error codes differ %d/%d", what, src_error (a), src_error (b)) ;
	(void) conv ; free (in) ; free (o1) ; free (o2) ; }
static void lim (int conv, int ch, long *fi, long *fo, double q) { if (*fi < 0) *fi = 0 ; if (*fo < 0) *fo = 0 ; if (is_sinc (conv)) { if (q < 0.05 && *fo > 40) *fo = 40 ; if (ch > 12 && *fo > 40) *fo = 40 ; if (*fo > 500) *fo = 500 ; if (conv == 1 && *fo > 100) *fo = 100 ; } }
static void same_history (SRC_STATE *a, SRC_STATE *b, int ch, int conv, int n, const char *what)
{	double last = 1 ; for (int i = 0 ; i < n ; i++)
	{	int k = rn (16) ; double q = rn (2) ? last : g_ratio (last) ;
		if (k == 0) { int r1, r2 ; LIB (r1 = src_reset (a)) ; LIB (r2 = src_reset (b)) ; TR ("both.reset;") ; if (r1 != r2) FAIL ("%s: reset differs", what) ; }
		else if (k == 1) { int r1, r2 ; LIB (r1 = src_set_ratio (a, q)) ; LIB (r2 = src_set_ratio (b, q)) ; TR ("both.set_ratio(%.17g);", q) ; if (r1 != r2) FAIL ("%s: set_ratio differs", what) ; }
		else { long fi = g_frames (0), fo = g_frames (0) ; lim (conv, ch, &fi, &fo, q) ; same_process (a, b, ch, conv, fi, fo, q, rn (10) == 0, what) ; }
		last = q ; } }

static void c08 (void)
{	int conv = g_conv (), ch = g_ch (conv) ; if (rn (3) == 0)
	{	/* callback handle */
		SRCB a, b ; memset (&a, 0, sizeof (a)) ; a.ch = ch ; a.s = rnd () ; a.limit = 100 + rn (3000) ; int e ; SRC_STATE *s, *c ;
		LIB (s = src_callback_new (cb_stream, conv, ch, &e, &a)) ; if (!s) FAIL ("callback_new failed %d", e) ; TR ("callback_new(conv=%d,ch=%d);", conv, ch) ;
		/* both handles share one user pointer: compare through two independent histories */
		double q = 0.3 + ru () * 3 ; float *o1 = xb (600 * ch), *o2 = xb (600 * ch) ; long g1, g2 ; int n = rn (5) ;
		for (int i = 0 ; i < n ; i++) { long f = 1 + rn (is_sinc (conv) ? 60 : 600) ; LIB (src_callback_read (s, q, f, o1)) ; }
		LIB (c = src_clone (s, &e)) ; TR ("clone after %d reads;", n) ; if (!c) FAIL ("clone failed %d", e) ;
		if (src_error (c) != src_error (s) || src_get_channels (c) != ch) FAIL ("clone reports other error or channels") ;
		/* snapshot the source, read original, rewind the source, read clone */
		b = a ; if (a.blk) { b.blk = NULL ; }
		float *held = a.blk ; a.blk = NULL ; SRCB start = a ;
		long f = 1 + rn (is_sinc (conv) ? 120 : 600) ;
		LIB (g1 = src_callback_read (s, q, f, o1)) ; float *h1 = a.blk ; a = start ; a.blk = NULL ; LIB (g2 = src_callback_read (c, q, f, o2)) ;
		TR ("read(%ld)->%ld / clone %ld;", f, g1, g2) ;
		if (g1 != g2 || memcmp (o1, o2, g1 * ch * 4)) FAIL ("clone of a callback handle reads differently (%ld/%ld frames)", g1, g2) ;
		free (h1) ; free (a.blk) ; free (held) ; free (o1) ; free (o2) ; LIB (src_delete (s)) ; LIB (src_delete (c)) ; (void) b ; return ; }
	H h ; h_new (&h, conv, ch) ; history (&h, rn (8), 0) ; int e = 5 ; SRC_STATE *c ; int pe = src_error (h.s) ; LIB (c = src_clone (h.s, rn (6) ? &e : NULL)) ; TR ("clone;") ; if (!c) FAIL ("clone failed") ;
	if (src_error (c) != pe || src_get_channels (c) != ch) FAIL ("clone reports other error or channels") ;
	if (rn (2)) same_history (h.s, c, ch, conv, 1 + rn (6), "clone") ;
	else
	{	/* using one leaves every block of the other alone: run A fully first, then C */
		uint64_t save = rs ; float *oa = NULL ; long ga ; (void) oa ; (void) ga ;
		long fi = g_frames (0), fo = g_frames (0) ; double q = g_ratio (h.lastq) ; lim (conv, ch, &fi, &fo, q) ; float *in = xb (fi * ch), *o1 = xb (fo * ch), *o2 = xb (fo * ch) ; for (long i = 0 ; i < fi * ch ; i++) in [i] = g_sample (0, i) ;
		SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = o1 ; d.input_frames = fi ; d.output_frames = fo ; d.src_ratio = q ; SRC_DATA d2 = d ; d2.data_out = o2 ;
		int which = rn (3) ; TR ("orig.process(in=%ld,out=%ld,ratio=%.17g); mode %d; clone same;", fi, fo, q, which) ; int r1, r2 ; LIB (r1 = src_process (h.s, &d)) ;
		if (which == 1) { LIB (src_reset (h.s)) ; } if (which == 2) { H t = h ; LIB (src_delete (h.s)) ; h.s = NULL ; (void) t ; }
		LIB (r2 = src_process (c, &d2)) ; if (r1 != r2 || d.input_frames_used != d2.input_frames_used || d.output_frames_gen != d2.output_frames_gen || memcmp (o1, o2, d.output_frames_gen * ch * 4)) FAIL ("clone differs from original after the original was used (used %ld/%ld gen %ld/%ld)", d.input_frames_used, d2.input_frames_used, d.output_frames_gen, d2.output_frames_gen) ;
		free (in) ; free (o1) ; free (o2) ; (void) save ; }
	if (rn (2)) { LIB (src_delete (c)) ; if (h.s) { LIB (src_delete (h.s)) ; } } else { if (h.s) { LIB (src_delete (h.s)) ; } SRCB dd ; (void) dd ; H t ; memset (&t, 0, sizeof (t)) ; t.s = c ; t.conv = conv ; t.ch = ch ; ref_init (&t.r, conv, ch) ; history (&t, 2, 0) ; h_del (&t) ; }
	ref_free (&h.r) ; }

static void c09 (void)
{	int conv = g_conv (), ch = g_ch (conv) ;
	if (rn (3) == 0)
	{	SRCB a, b ; memset (&a, 0, sizeof (a)) ; a.ch = ch ; a.s = rnd () ; a.limit = 50 + rn (2000) ; int e ; SRC_STATE *s, *f ; LIB (s = src_callback_new (cb_stream, conv, ch, &e, &a)) ; TR ("callback_new(conv=%d,ch=%d);", conv, ch) ;
		float *o1 = xb (700 * ch), *o2 = xb (700 * ch) ; double q = 0.3 + ru () * 3 ; int n = rn (5) ; for (int i = 0 ; i < n ; i++) { long k = 1 + rn (is_sinc (conv) ? 60 : 700) ; LIB (src_callback_read (s, q, k, o1)) ; TR ("read(%ld);", k) ; }
		if (rn (4) == 0) LIB (src_callback_read (s, -1.0, 5, o1)) ;
		LIB (src_reset (s)) ; TR ("reset;") ; if (src_error (s)) FAIL ("error %d survives reset", src_error (s)) ;
		free (a.blk) ; uint64_t sd = rnd () ; memset (&a, 0, sizeof (a)) ; a.ch = ch ; a.s = sd ; a.limit = 50 + rn (2000) ; b = a ;
		LIB (f = src_callback_new (cb_stream, conv, ch, &e, &b)) ; double q2 = g_ratio (q) ; if (q2 < 0.1) q2 = 0.1 ;
		for (int i = 0 ; i < 3 ; i++) { long k = 1 + rn (is_sinc (conv) ? 60 : 700), g1, g2 ; LIB (g1 = src_callback_read (s, q2, k, o1)) ; LIB (g2 = src_callback_read (f, q2, k, o2)) ; TR ("both.read(%ld)->%ld/%ld;", k, g1, g2) ; if (g1 != g2 || memcmp (o1, o2, g1 * ch * 4) || a.calls != b.calls || src_error (s) != src_error (f)) FAIL ("reset handle reads differently from a fresh one (%ld/%ld)", g1, g2) ; }
		free (a.blk) ; free (b.blk) ; free (o1) ; free (o2) ; LIB (src_delete (s)) ; LIB (src_delete (f)) ; return ; }
	H h ; h_new (&h, conv, ch) ; history (&h, 1 + rn (8), 0) ; int r ; LIB (r = src_reset (h.s)) ; TR ("reset->%d; compare with fresh:", r) ; if (r) FAIL ("reset returned %d", r) ; if (src_error (h.s)) FAIL ("error %d survives reset", src_error (h.s)) ;
	if (src_get_channels (h.s) != ch) FAIL ("channels changed by reset") ;
	H f ; h_new (&f, conv, ch) ; same_history (h.s, f.s, ch, conv, 1 + rn (6), "reset") ; h_del (&f) ; h_del (&h) ; }

static void c10 (void)
{	int conv = g_conv (), ch = g_ch (conv), e = 99, k = rn (5) ; uint64_t mask = rn (2) ? 1ull << rn (6) : rn (64) ; H h ; SRC_STATE *s = NULL, *c = NULL ; float in [64] = { 0 }, out [64] ; int base ;
	h_new (&h, conv, ch) ; history (&h, rn (3), 0) ; base = nblk ; TR ("op %d mask %llx;", k, (unsigned long long) mask) ;
	alloc_no = 0 ; nfail_seen = 0 ; fail_mask = mask ;
	if (k == 0 || k == 4)
	{	LIB (s = src_new (conv, ch, rn (8) ? &e : NULL)) ; fail_mask = 0 ; if (nfail_seen && s) FAIL ("src_new succeeded although an allocation failed") ; if (!nfail_seen && !s) FAIL ("src_new failed") ;
		if (nfail_seen && e != 99 && e != 1) FAIL ("src_new reports %d after allocation failure", e) ; }
	else if (k == 1) { LIB (s = src_clone (h.s, &e)) ; fail_mask = 0 ; if (nfail_seen && s) FAIL ("src_clone succeeded although an allocation failed") ; if (!nfail_seen && !s) FAIL ("src_clone failed") ; if (nfail_seen && e != 1) FAIL ("src_clone reports %d after allocation failure", e) ; if (!nfail_seen && e != 0) FAIL ("src_clone reports %d on success", e) ; }
	else if (k == 2) { LIB (s = src_callback_new (cb_simple, conv, ch, &e, NULL)) ; fail_mask = 0 ; if (nfail_seen && s) FAIL ("src_callback_new succeeded although an allocation failed") ; if (nfail_seen && e != 1) FAIL ("src_callback_new reports %d after allocation failure", e) ; }
	else { int r ; int c1 = ch > 4 ? 4 : ch ; SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = out ; d.input_frames = d.output_frames = 16 ; d.src_ratio = rn (5) ? 1.5 : -1 ; LIB (r = src_simple (&d, conv, c1)) ; fail_mask = 0 ; if (nfail_seen && r != 1) FAIL ("src_simple reports %d after allocation failure", r) ; if (!nfail_seen && d.src_ratio > 0 && r) FAIL ("src_simple failed %d", r) ; }
	fail_mask = 0 ;
	if (!s && nblk != base) FAIL ("%d blocks leaked by a failing or one-shot call", nblk - base) ;
	if (s) { H t ; memset (&t, 0, sizeof (t)) ; t.s = s ; t.conv = conv ; t.ch = ch ; ref_init (&t.r, conv, ch) ; if (k < 2) { history (&t, rn (3), 0) ; } if (rn (2)) { LIB (c = src_clone (s, &e)) ; if (c) { LIB (src_delete (c)) ; } } h_del (&t) ; if (nblk != base) FAIL ("%d blocks leaked after delete", nblk - base) ; }
	same_history (h.s, h.s, ch, conv, 0, "") ; h_del (&h) ; if (nblk != 0) FAIL ("%d blocks leaked after delete", nblk) ; }

static void c11 (void)
{	int cs [] = { -1, 0, 1, 2, 3, 4, 5, 6, INT_MIN, INT_MAX, 100, -5 } ; int hs [] = { -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 129, 130, 256, 1000, INT_MIN, -128 } ; int conv = rn (2) ? cs [rn (12)] : (int) rn (5), ch = hs [rn (18)] ; if (rn (4) == 0) ch = (int) rn (200) - 20 ;
	int cb = rn (3) == 0, nullcb = cb && rn (4) == 0, nullerr = rn (5) == 0, e = -77 ; SRC_STATE *s ; TR ("create(conv=%d,ch=%d,cb=%d,nullcb=%d,nullerr=%d);", conv, ch, cb, nullcb, nullerr) ;
	int want = 0 ; if (nullcb) want = 17 ; else if (!(conv >= 1 && conv <= 4) && ch >= 1) want = 10 ; else if (!(conv >= 1 && conv <= 4)) want = -1 ; else if (ch < 1 || (conv <= 2 && ch > 128)) want = 11 ;
	int base = nblk ;
	if (cb) LIB (s = src_callback_new (nullcb ? NULL : cb_simple, conv, ch, nullerr ? NULL : &e, NULL)) ; else LIB (s = src_new (conv, ch, nullerr ? NULL : &e)) ;
	if (want == -1) { if (s) FAIL ("bad arguments accepted") ; if (!nullerr && e != 10 && e != 11) FAIL ("error %d", e) ; return ; }
	if (want && s) FAIL ("creation with bad arguments succeeded") ; if (!want && !s) FAIL ("creation failed with %d", e) ; if (!nullerr && e != want) FAIL ("error %d stored, expected %d", e, want) ;
	if (!s && nblk != base) FAIL ("leak") ;
	if (s)
	{	if (src_get_channels (s) != ch) FAIL ("channels %d reported", src_get_channels (s)) ; if (src_error (s) != 0) FAIL ("fresh handle has error %d", src_error (s)) ;
		float *in = xb (4L * ch), *out = xb (4L * ch) ; for (long i = 0 ; i < 4L * ch ; i++) in [i] = 0.5f ; SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in ; d.data_out = out ; d.input_frames = d.output_frames = 4 ; d.src_ratio = 1.0 ; int r ; LIB (r = src_process (s, &d)) ;
		if (!cb && r) FAIL ("fresh handle refuses process: %d", r) ; if (cb && r != 18) FAIL ("callback handle accepts process: %d", r) ;
		cbn = 0 ; cbp = in ; long g ; LIB (g = src_callback_read (s, 1.0, 2, out)) ; int er = src_error (s) ; if (!cb && (g || er == 0)) FAIL ("process handle accepts callback read") ; if (cb && er) FAIL ("callback handle refuses read: %d", er) ;
		/* fresh state: zoh of a constant is the constant from the first frame */
		free (in) ; free (out) ; LIB (src_delete (s)) ; } }

static void c12 (void)
{	static int done ; if (done) { int v = (int) rnd () ; if (v >= 0 && v <= 4) v = 77 ; const char *a, *b ; LIB (a = src_get_name (v)) ; LIB (b = src_get_description (v)) ; if (v != 0 && (a || b)) FAIL ("name or description for converter %d", v) ; if (v < 0 || v > 30) { LIB (a = src_strerror (v)) ; if (a) FAIL ("error string for %d", v) ; } return ; } done = 1 ;
	const char *nm [5], *ds [5] ;
	for (int v = -70 ; v < 400 ; v++)
	{	const char *a, *b ; TR ("%d;", v) ; LIB (a = src_get_name (v)) ; LIB (b = src_get_description (v)) ;
		if (v >= 0 && v <= 4) { if (!a || !b || !*a || !*b) FAIL ("no name or description for converter %d", v) ; nm [v] = a ; ds [v] = b ; }
		else if (a || b) FAIL ("name or description for converter %d", v) ; tn = 0 ; }
	const char *kn [5] = { "Best", "Medium", "Fastest", "ZOH", "Linear" }, *kd [5] = { "best", "medium", "fastest", "Zero", "Linear" } ;
	for (int i = 0 ; i < 5 ; i++) { if (!strstr (nm [i], kn [i])) FAIL ("name of %d is \"%s\"", i, nm [i]) ; if (!strstr (ds [i], kd [i])) FAIL ("description of %d is \"%s\"", i, ds [i]) ; for (int j = 0 ; j < i ; j++) { if (!strcmp (nm [i], nm [j]) || !strcmp (ds [i], ds [j])) FAIL ("names not distinct") ; } }
	for (int i = 0 ; i <= 23 ; i++) { const char *a = src_strerror (i) ; if (!a || !*a) FAIL ("no error string for %d", i) ; for (int j = 0 ; j < i ; j++) if (!strcmp (a, src_strerror (j))) FAIL ("error strings %d and %d equal", i, j) ; }
	int vs [] = { -1, -2, INT_MIN, INT_MAX, 25, 24, 26, 100, 1000 } ; for (int i = 0 ; i < 9 ; i++) { const char *a ; TR ("strerror(%d)", vs [i]) ; LIB (a = src_strerror (vs [i])) ; if (a) FAIL ("error string for %d", vs [i]) ; }
	const char *v = src_get_version () ; if (!v || !strstr (v, "libsamplerate-") || v != src_get_version ()) FAIL ("version string") ; char v1 [200] ; snprintf (v1, 200, "%s", v) ; { H h ; h_new (&h, 3, 1) ; history (&h, 3, 0) ; h_del (&h) ; } if (strcmp (v1, src_get_version ())) FAIL ("version string changes") ;
	int r ; LIB (r = src_error (NULL)) ; if (r != 0) FAIL ("src_error (NULL) = %d", r) ; LIB (r = src_get_channels (NULL)) ; if (r >= 0) FAIL ("src_get_channels (NULL) = %d", r) ; }

static void c13 (int hang_only)
{	int conv = g_conv (), ch = g_ch (conv) ; if (ch > 8) ch = 2 ; SRCB a ; memset (&a, 0, sizeof (a)) ; a.ch = ch ; a.s = rnd () ; a.limit = 20 + rn (is_sinc (conv) ? 1500 : 4000) ; int e ; SRC_STATE *s ; LIB (s = src_callback_new (cb_stream, conv, ch, &e, &a)) ; TR ("callback_new(conv=%d,ch=%d,stream=%ld);", conv, ch, a.limit) ;
	double q = rn (4) ? 0.2 + ru () * 3 : g_ratio (0) ; if (q < 0.02 && is_sinc (conv)) q = 0.02 ; long cap = (long) (a.limit * (q > 1 ? q : 1)) + 4000 ; if (cap > 60000) cap = 60000 ; float *all = xb (cap * ch) ; long tot = 0 ; int n = 0 ; int bad = 0 ;
	while (tot < cap - 1000 && n++ < 60)
	{	long f = 1 + rn (rn (3) ? 50 : 900), g ; if (is_sinc (conv) && f > 300) f = 300 ; float *o = xb (f * ch) ; fillg (o, f * ch) ; 
		if (rn (12) == 0) { int c0 = a.calls, er = src_error (s) ; (void) er ; long bf = -(long) rn (3) ; int wh = rn (3) ; if (wh == 0) LIB (g = src_callback_read (s, q, bf, o)) ; else if (wh == 1) LIB (g = src_callback_read (s, rn (2) ? NAN : 1000.0, f, o)) ; else { LIB (g = src_callback_read (NULL, q, f, o)) ; } TR ("badread%d->%ld;", wh, g) ; if (g != 0 || a.calls != c0) FAIL ("invalid callback read returned %ld or called the callback", g) ; if (wh == 1) bad = 1 ; if (wh == 1 && src_error (s) != 6) FAIL ("invalid callback read records error %d", src_error (s)) ; for (long i = 0 ; i < f * ch ; i++) if (!isg (o + i)) FAIL ("invalid callback read wrote output") ; }
		LIB (g = src_callback_read (s, q, f, o)) ; TR ("read(%ld)->%ld err=%d calls=%d given=%ld;", f, g, src_error (s), a.calls, a.given) ;
		if (g < 0 || g > f) FAIL ("callback read of %ld returned %ld", f, g) ; for (long i = g * ch ; i < f * ch ; i++) if (!isg (o + i)) FAIL ("callback read wrote beyond the %ld frames it returned", g) ;
		if (src_error (s) && !(bad && src_error (s) == 6)) FAIL ("callback read error %d", src_error (s)) ;
		memcpy (all + tot * ch, o, g * ch * 4) ; tot += g ; free (o) ; if (g == 0 && a.given == a.limit && rn (3)) break ; if (g < f && a.given < a.limit && 0) FAIL ("short read before end of input") ; }
	SRC_DATA d ; memset (&d, 0, sizeof (d)) ; int r ; LIB (r = src_process (s, &d)) ; if (r != 18) FAIL ("handle left callback mode: process returns %d", r) ;
	if (!hang_only)
	{	/* the same stream through src_process in one piece */
		H h ; h_new (&h, conv, ch) ; float *in = xb (a.given * ch), *ref = xb (cap * ch) ; for (long i = 0 ; i < a.given * ch ; i++) in [i] = (float) sin ((double) i * 0.37) ;
		long u = 0, g = 0 ; for (int k = 0 ; k < 400 && g < cap ; k++) { SRC_DATA p ; memset (&p, 0, sizeof (p)) ; p.data_in = in + u * ch ; p.input_frames = a.given - u ; p.data_out = ref + g * ch ; p.output_frames = cap - g ; p.src_ratio = q ; p.end_of_input = 1 ; LIB (r = src_process (h.s, &p)) ; if (r) FAIL ("reference conversion failed %d", r) ; u += p.input_frames_used ; g += p.output_frames_gen ; if (!p.input_frames_used && !p.output_frames_gen) break ; }
		long m = g < tot ? g : tot ; for (long i = 0 ; i < m * ch ; i++) if (!near_eq (all [i], ref [i], 4.0)) FAIL ("callback stream differs from the converted stream at frame %ld: %.9g, expected %.9g", i / ch, all [i], ref [i]) ;
		if (tot + 20 + (is_sinc (conv) ? 0 : 1) * 300 < g && n < 60 && tot < cap - 1000) FAIL ("callback reads delivered %ld frames of %ld", tot, g) ;
		free (in) ; free (ref) ; h_del (&h) ; }
	free (all) ; free (a.blk) ; LIB (src_delete (s)) ;
	if (rn (5) == 0) { H h ; h_new (&h, conv, ch) ; float o [64] ; long g ; LIB (g = src_callback_read (h.s, q, 1, o)) ; if (g || src_error (h.s) != 18) FAIL ("callback read in process mode: %ld, error %d", g, src_error (h.s)) ; h_del (&h) ; } }

static void c15 (void)
{	int conv = g_conv (), ch = 2 + rn (7) ; if (rn (8) == 0) ch = 9 + rn (20) ; int c = rn (ch) ; H m, x ; h_new (&x, conv, ch) ; h_new (&m, conv, 1) ; int n = 1 + rn (6), vary = rn (2) ; double q = rn (2) ? g_ratio (0) : 0.5 + ru () * 2 ; long total = 0 ; int bigs = !vary && is_sinc (conv) && rn (6) == 0 ;
	if (is_sinc (conv) && q < 0.02) q = 0.02 ; if (bigs) { n = 30 ; if (q > 2) q = 2 ; if (q < 0.3) q = 0.3 ; }
	/* one stream for both, same requests; compared as streams */
	long cap = 200000 ; float *ox = NULL, *om = NULL ; long gx = 0, gm = 0, ux = 0, um = 0, have = 0 ; float *in = NULL ; (void) cap ;
	for (int k = 0 ; k < n ; k++)
	{	long add = g_frames (0), fo = g_frames (0) ; if (bigs) { add = 3000 ; fo = 60 + rn (60) ; if (q >= 1) add = 400 ; } if (conv == 1 && fo > 100) fo = 100 ; if (q < 0.05 && fo > 40) fo = 40 ; if (fo > 500) fo = 500 ; if (vary && is_sinc (conv) && total + add > 3500) add = 0 ; total += add ;
		in = realloc (in, (have + add + 1) * ch * 4) ; for (long i = have * ch ; i < (have + add) * ch ; i++) in [i] = g_sample (0, i) ; have += add ;
		if (vary && rn (2)) q = g_ratio (q) ; if (is_sinc (conv) && q < 0.02) q = 0.02 ;
		if (vary && (ux != um || gx != gm)) break ;
		long fx = have - ux, fm = have - um ; float *a = xb (fx * ch), *b = xb (fm), *o1 = xb (fo * ch), *o2 = xb (fo) ; memcpy (a, in + ux * ch, fx * ch * 4) ; for (long i = 0 ; i < fm ; i++) b [i] = in [(um + i) * ch + c] ;
		SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = a ; d.data_out = o1 ; d.input_frames = fx ; d.output_frames = fo ; d.src_ratio = q ; SRC_DATA e = d ; e.data_in = b ; e.data_out = o2 ; e.input_frames = fm ; int r1, r2 ; TR ("process(ch %d of %d,in=%ld/%ld,out=%ld,ratio=%.17g)", c, ch, fx, fm, fo, q) ; LIB (r1 = src_process (x.s, &d)) ; LIB (r2 = src_process (m.s, &e)) ; TR ("->%ld/%ld,%ld/%ld;", d.input_frames_used, e.input_frames_used, d.output_frames_gen, e.output_frames_gen) ; if (r1 || r2) FAIL ("process failed %d/%d", r1, r2) ;
		ox = realloc (ox, (gx + fo + 1) * 4) ; om = realloc (om, (gm + fo + 1) * 4) ; for (long i = 0 ; i < d.output_frames_gen ; i++) ox [gx + i] = o1 [i * ch + c] ; for (long i = 0 ; i < e.output_frames_gen ; i++) om [gm + i] = o2 [i] ;
		gx += d.output_frames_gen ; gm += e.output_frames_gen ; ux += d.input_frames_used ; um += e.input_frames_used ; free (a) ; free (b) ; free (o1) ; free (o2) ;
		if (ux > have || um > have) FAIL ("counts") ;
		long mn = gx < gm ? gx : gm ; for (long i = 0 ; i < mn ; i++) if (memcmp (ox + i, om + i, 4) && ox [i] != om [i]) FAIL ("channel %d of %d, frame %ld: %.9g, mono gives %.9g", c, ch, i, ox [i], om [i]) ; }
	free (in) ; free (ox) ; free (om) ; h_del (&m) ; h_del (&x) ; }

/* outputs of one stream at constant ratio cut in two different ways */
static void c16chunk (void)
{	int conv = rn (4) ? 2 : 1, ch = rn (2) ? 1 : 1 + rn (4) ; double q = 0.05 + ru () * 2 ; long n = conv == 2 ? 20000 : 45000 ; if (rn (3)) n = 3000 ; if (ch > 1) n = n * 2 / 3 ; if (conv == 1 && n > 10000) q = 0.05 + ru () * 0.1 ; else if (n > 10000) q = 0.05 + ru () * 0.4 ;
	float *in = xb (n * ch) ; for (long i = 0 ; i < n * ch ; i++) in [i] = g_sample (0, i) ; long cap = (long) (n * q) + 10 ; float *o [2] ; long g [2] ; TR ("stream conv=%d ch=%d n=%ld ratio=%.17g;", conv, ch, n, q) ;
	for (int v = 0 ; v < 2 ; v++)
	{	SRC_STATE *s ; int e ; LIB (s = src_new (conv, ch, &e)) ; o [v] = xb (cap * ch) ; g [v] = 0 ; long u = 0 ; int idle = 0 ;
		while (idle < 3) { long fi = n - u, fo = cap - g [v] ; if (v) { if (fi) { long k = 1 + rn (rn (3) ? 4000 : 50) ; if (k < fi) fi = k ; } long k = 1 + rn (rn (3) ? 1000 : 5) ; if (k < fo) fo = k ; } SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = in + u * ch ; d.data_out = o [v] + g [v] * ch ; d.input_frames = fi ; d.output_frames = fo ; d.src_ratio = q ; int r ; LIB (r = src_process (s, &d)) ; if (r) FAIL ("process failed %d", r) ; u += d.input_frames_used ; g [v] += d.output_frames_gen ; if (!d.input_frames_used && !d.output_frames_gen) idle++ ; else idle = 0 ; }
		LIB (src_delete (s)) ; }
	long m = g [0] < g [1] ? g [0] : g [1] ; for (long i = 0 ; i < m * ch ; i++) if (!near_eq (o [0] [i], o [1] [i], 2.0)) FAIL ("output depends on the block sizes at frame %ld: %.9g / %.9g", i / ch, o [0] [i], o [1] [i]) ;
	if (g [0] != g [1] && labs (g [0] - g [1]) > 2 + q) FAIL ("number of frames depends on the block sizes: %ld / %ld", g [0], g [1]) ;
	free (in) ; free (o [0]) ; free (o [1]) ; }

static void c17 (void)
{	/* handle A alone, then the same calls on A' interleaved with calls on other handles */
	int conv = g_conv (), ch = g_ch (conv), n = 1 + rn (5) ; if (ch > 16) ch = 16 ; H a, b, c ; float *res [8] ; long rg [8], ru_ [8] ; uint64_t s0 = rnd () ;
	h_new (&a, conv, ch) ; uint64_t keep ;
	for (int pass = 0 ; pass < 2 ; pass++)
	{	int conv2 = rn (2) ? conv : g_conv () ; if (pass) { h_new (&b, conv, ch) ; h_new (&c, conv2, g_ch (conv2) > 8 ? 2 : g_ch (conv2) % 8 + 1) ; }
		H *h = pass ? &b : &a ;
		for (int k = 0 ; k < n ; k++)
		{	if (pass) { history (&c, rn (3), 0) ; int base = 0 ; (void) base ; float i1 [8] = { 0 }, o1 [8] ; short sh [8] ; if (rn (3) == 0) { SRC_DATA d ; memset (&d, 0, sizeof (d)) ; d.data_in = i1 ; d.data_out = o1 ; d.input_frames = d.output_frames = 4 ; d.src_ratio = 0.7 ; LIB (src_simple (&d, conv, 1)) ; src_float_to_short_array (i1, sh, 8) ; } if (rn (3) == 0) { SRC_STATE *t ; LIB (t = src_clone (c.s, NULL)) ; if (t) LIB (src_delete (t)) ; } }
			keep = rs ; seed_case (s0, k) ; long fi = g_frames (0), fo = g_frames (0) ; double q = g_ratio (0) ; lim (conv, ch, &fi, &fo, q) ; float *in = xb (fi * ch) ; for (long i = 0 ; i < fi * ch ; i++) in [i] = g_sample (0, i) ; int eoi = rn (8) == 0 ; rs = keep ;
			float *out = xb (fo * ch) ; long g = 0, u = 0 ; 
			SNAP *sn = NULL ; int other = 0 ; (void) other ;
			if (pass) TR ("[other calls];") ;
			h_process_in (h, in, fi, fo, q, eoi, 0, out, &g, &u) ;
			if (!pass) { res [k] = out ; rg [k] = g ; ru_ [k] = u ; } else { if (g != rg [k] || u != ru_ [k] || memcmp (out, res [k], g * ch * 4)) FAIL ("call %d differs when other handles are used in between (used %ld/%ld gen %ld/%ld)", k, ru_ [k], u, rg [k], g) ; free (out) ; }
			free (in) ; (void) sn ; } }
	/* a call on one handle leaves every block of the others alone */
	{	int nb = nblk ; SNAP *s = NULL ; int e ; H z ; int cz = g_conv () ; s = snap (0, nb) ; h_new (&z, cz, 1 + rn (3)) ; h_process (&z, 0, 0) ; if (rn (2)) h_reset (&z) ; (void) e ; h_del (&z) ; if (!snap_same (s)) FAIL ("a call on one handle changed memory of another") ; snap_free (s) ; }
	for (int k = 0 ; k < n ; k++) free (res [k]) ; h_del (&a) ; h_del (&b) ; h_del (&c) ; }

static long cb_forever (void *u, float **p) { SRCB *b = u ; b->calls++ ; static float z [160 * 8] ; if (b->calls > b->zero_at && b->zero_at > 0) { *p = z ; return b->ended ? 0 : (long) (b->s = b->s * 25214903917ull + 11) >> 60 & 3 ; } *p = z ; return 1 + (b->calls & 7) ; }
static void c18 (void)
{	if (rn (3))
	{	int conv = g_conv () ; H h ; h_new (&h, conv, g_ch (conv)) ; history (&h, 1 + rn (12), O_PROG) ; h_del (&h) ; return ; }
	if (rn (2)) { c13 (1) ; return ; }
	/* callback that ends, then supplies again */
	int conv = g_conv (), ch = 1 + rn (4) ; SRCB b ; memset (&b, 0, sizeof (b)) ; b.ch = ch ; b.s = rnd () ; b.zero_at = rn (6) ; b.ended = rn (2) ; int e ; SRC_STATE *s ; LIB (s = src_callback_new (cb_forever, conv, ch, &e, &b)) ; float *o = xb (400 * ch) ; double q = g_ratio (0) ; if (is_sinc (conv) && q < 0.05) q = 0.05 ; TR ("callback_new(conv=%d,ch=%d) ends after %ld calls;", conv, ch, b.zero_at) ;
	for (int k = 0 ; k < 6 ; k++) { long f = 1 + rn (rn (2) ? 5 : 300), g ; TR ("read(%ld)", f) ; LIB (g = src_callback_read (s, q, f, o)) ; TR ("->%ld;", g) ; if (rn (6) == 0) q = 0.5 + ru () ; if (k == 3 && rn (3) == 0) { b.zero_at = 0 ; } }
	free (o) ; LIB (src_delete (s)) ; }

static void c19 (void)
{	int conv = g_conv () ; H h ; h_new (&h, conv, g_ch (conv)) ; history (&h, 2 + rn (14), O_RET) ; if (src_error (h.s)) FAIL ("handle holds error %d", src_error (h.s)) ; h_del (&h) ;
	if (rn (6) == 0) { SRCB a ; memset (&a, 0, sizeof (a)) ; a.ch = 1 ; a.s = rnd () ; a.limit = 500 ; SRC_STATE *s ; int e ; LIB (s = src_callback_new (cb_stream, conv, 1, &e, &a)) ; float o [200] ; for (int i = 0 ; i < 6 ; i++) { LIB (src_callback_read (s, rn (2) ? 1.0 : 0.1 + ru (), 1 + rn (199), o)) ; if (src_error (s)) FAIL ("callback read on healthy handle: error %d", src_error (s)) ; } free (a.blk) ; LIB (src_delete (s)) ; } }

static void c20 (void)
{	/* ramps seen through the values of a linear ramp signal and through the sinc model */
	int conv = g_conv () ; H h ; int ch = g_ch (conv) ; if (ch > 6) ch = 2 ; h_new (&h, conv, ch) ; int n = 2 + rn (6) ;
	for (int i = 0 ; i < n ; i++)
	{	long fi = 200 + rn (2000), fo = 1 + rn (conv == 1 ? 60 : is_sinc (conv) ? 150 : 800) ; double q = rn (3) ? g_ratio (h.lastq) : h.lastq > 0 ? h.lastq : 1.0 ; if (is_sinc (conv)) { if (q < 0.03) q = 0.03 ; }
		if (rn (4) == 0) h_set (&h, rn (2) ? q : g_ratio (0) < 0.03 ? 0.5 : q) ; if (rn (10) == 0) h_reset (&h) ;
		float *in = xb (fi * ch) ; for (long k = 0 ; k < fi ; k++) for (int c = 0 ; c < ch ; c++) in [k * ch + c] = rn (3) ? g_sample (0, k) : (float) k / 4096 ; h_process_in (&h, in, fi, fo, q, 0, O_VAL | O_REFCOUNT, NULL, NULL, NULL) ; free (in) ; }
	h_del (&h) ; }
static void c21 (void)
{	int conv = g_conv () ; H h ; int ch = g_ch (conv) ; if (ch > 6) ch = 2 ; h_new (&h, conv, ch) ; int n = 2 + rn (8) ; double q = g_ratio (0) ; if (is_sinc (conv) && q < 0.03) q = 0.03 ;
	for (int i = 0 ; i < n ; i++)
	{	long fi = g_frames (1), fo = g_frames (0) ; if (conv == 1 && fo > 100) fo = 100 ; if (is_sinc (conv) && q < 0.1 && fo > 60) fo = 60 ; float *in = xb (fi * ch) ; for (long k = 0 ; k < fi * ch ; k++) in [k] = g_sample (0, k) ;
		h_process_in (&h, in, fi, fo, q, rn (15) == 0, O_REFCOUNT | O_VAL, NULL, NULL, NULL) ; free (in) ; if (rn (6) == 0) { q = g_ratio (q) ; if (is_sinc (conv) && q < 0.03) q = 0.03 ; } }
	h_del (&h) ; }

static void run_case (const char *p, long n)
{	(void) n ; tn = 0 ; trace [0] = 0 ; int id = atoi (p + 1) ;
	switch (id)
	{	case 1 : c_mem (3, 4, 0) ; break ; case 2 : c_mem (0, 2, 0) ; break ;
		case 3 : c_mem (0, 4, O_COUNTS | O_FRAME) ; break ; case 4 : c04 () ; break ; case 5 : c05 () ; break ; case 6 : c06 () ; break ; case 7 : c07 () ; break ;
		case 8 : c08 () ; break ; case 9 : c09 () ; break ; case 10 : c10 () ; break ; case 11 : c11 () ; break ; case 12 : c12 () ; break ; case 13 : c13 (0) ; break ;
		case 14 : c_mem (3, 4, O_VAL) ; break ; case 15 : c15 () ; break ; case 16 : if (rn (4) == 0) c16chunk () ; else c_mem (0, 2, O_VAL) ; break ; case 17 : c17 () ; break ; case 18 : c18 () ; break ; case 19 : c19 () ; break ; case 20 : c20 () ; break ; case 21 : c21 () ; break ; default : exit (3) ; } }

int main (int argc, char **argv)
{	if (argc < 4) return 3 ;
	cur_prop = argv [1] ; cur_seed = strtoull (argv [3], NULL, 10) ;
	signal (SIGALRM, onsig) ; signal (SIGABRT, onsig) ;
	__sanitizer_set_death_callback (death) ;
	if (!strcmp (argv [2], "case")) { cur_case = atol (argv [4]) ; seed_case (cur_seed, cur_case) ; run_case (cur_prop, cur_case) ; printf ("OK case %ld\n%s\n", cur_case, trace) ; return 0 ; }
	double secs = atof (argv [4]) ; long first = atol (argv [5]), step = atol (argv [6]), maxn = argc > 7 ? atol (argv [7]) : LONG_MAX ; struct timespec t0, t ; clock_gettime (CLOCK_MONOTONIC, &t0) ; long n = first, k = 0 ;
	do { cur_case = n ; seed_case (cur_seed, n) ; run_case (cur_prop, n) ; if (nblk != 0 && strcmp (cur_prop, "C04")) { if (!strcmp (cur_prop, "C10")) FAIL ("%d blocks leaked", nblk) ; nblk = 0 ; } nblk = 0 ; n += step ; k++ ; clock_gettime (CLOCK_MONOTONIC, &t) ; }
	while (k < maxn && t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 < secs) ;
	printf ("OK cases %ld\n", k) ; return 0 ; }
