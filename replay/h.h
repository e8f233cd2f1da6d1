/* Replay helpers: independent oracle arithmetic on extended rationals, failure reporting. */
#ifndef REPLAY_H
#define REPLAY_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <gmp.h>
#include "num.h"
#include "bound.h"
#include "itv.h"

static uint64_t rng_s = 88172645463325252ull;
static inline uint64_t rnd(void) { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s; }
static inline int rint_(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
static long n_cases = 0, n_fail = 0;
static char ctx_[4096];
static void fail_(const char* what, const char* fmt, ...)
{
  va_list ap; char b[8192];
  static struct { const char* w; int n; } seen[64]; static int ns;   /* a few reports of each kind */
  int k; for (k = 0; k < ns && strcmp(seen[k].w, what); k++) ;
  if (k == ns && ns < 64) { seen[ns].w = strdup(what); ns++; }
  if (k < 64 && ++seen[k].n > 4) return;
  va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  printf("FAIL %s :: %s\n", what, b); fflush(stdout);
  if (++n_fail >= 20) { printf("CASES %ld\n", n_cases); fflush(stdout); _exit(0); }
}
static void onsig_(int s) { printf("FAIL crash :: signal %d while running: %s\n", s, ctx_); fflush(stdout); printf("CASES %ld\n", n_cases); fflush(stdout); _exit(0); }
static void doing(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(ctx_, sizeof ctx_, fmt, ap); va_end(ap); }
static void h_init(int argc, char** argv)
{
  rng_s = 88172645463325252ull + 7919ull * (argc > 1 ? strtoull(argv[1], 0, 10) : 1);
  signal(SIGSEGV, onsig_); signal(SIGABRT, onsig_); signal(SIGFPE, onsig_); signal(SIGBUS, onsig_); signal(SIGALRM, onsig_);
  alarm(argc > 2 ? atoi(argv[2]) : 120);
}
static int h_done(void) { printf("CASES %ld\n", n_cases); fflush(stdout); _exit(0); }

/* extended rational of the oracle */
typedef struct { int inf; mpq_t q; } xr;     /* inf = -1,0,+1 */
static void xr_init(xr* a) { a->inf = 0; mpq_init(a->q); }
static void xr_clear(xr* a) { mpq_clear(a->q); }
static void xr_set(xr* a, const xr* b) { a->inf = b->inf; mpq_set(a->q, b->q); }
static void xr_q(xr* a, long n, long d) { a->inf = 0; mpq_set_si(a->q, d < 0 ? -n : n, d < 0 ? -d : d); mpq_canonicalize(a->q); }
static void xr_inf(xr* a, int s) { a->inf = s; mpq_set_si(a->q, 0, 1); }
static int xr_cmp(const xr* a, const xr* b)
{ if (a->inf != b->inf) return a->inf < b->inf ? -1 : 1; if (a->inf) return 0; int c = mpq_cmp(a->q, b->q); return (c > 0) - (c < 0); }
static int xr_sgn(const xr* a) { return a->inf ? a->inf : mpq_sgn(a->q); }
static void xr_neg(xr* a, const xr* b) { a->inf = -b->inf; mpq_neg(a->q, b->q); }
static void xr_add(xr* a, const xr* b, const xr* c)   /* not both infinite with opposite signs */
{ if (b->inf) xr_inf(a, b->inf); else if (c->inf) xr_inf(a, c->inf); else { a->inf = 0; mpq_add(a->q, b->q, c->q); } }
static void xr_mul(xr* a, const xr* b, const xr* c)
{ int s = xr_sgn(b) * xr_sgn(c); if (s == 0) { a->inf = 0; mpq_set_si(a->q, 0, 1); } else if (b->inf || c->inf) xr_inf(a, s); else { a->inf = 0; mpq_mul(a->q, b->q, c->q); } }
static void xr_div(xr* a, const xr* b, const xr* c)
{ int sb = xr_sgn(b), sc = xr_sgn(c); if (sb == 0 || c->inf) { a->inf = 0; mpq_set_si(a->q, 0, 1); } else if (sc == 0) xr_inf(a, sb); else if (b->inf) xr_inf(a, sb * sc); else { a->inf = 0; mpq_div(a->q, b->q, c->q); } }
static int xr_int(const xr* a) { return !a->inf && mpz_cmp_ui(mpq_denref(a->q), 1) == 0; }
static void xr_round(xr* a, const xr* b, int mode)  /* -1 floor, 1 ceil, 0 trunc */
{
  xr_set(a, b); if (b->inf) return;
  mpz_t z; mpz_init(z);
  if (mode < 0) mpz_fdiv_q(z, mpq_numref(b->q), mpq_denref(b->q));
  else if (mode > 0) mpz_cdiv_q(z, mpq_numref(b->q), mpq_denref(b->q));
  else mpz_tdiv_q(z, mpq_numref(b->q), mpq_denref(b->q));
  mpq_set_z(a->q, z); mpz_clear(z);
}
static const char* xr_s(const xr* a)
{ static char buf[16][256]; static int k = 0; k = (k + 1) & 15; if (a->inf) return a->inf > 0 ? "+oo" : "-oo"; gmp_snprintf(buf[k], 256, "%Qd", a->q); return buf[k]; }

/* between the oracle and the library's bounds */
static void b_of(bound_t b, const xr* a) { if (a->inf) bound_set_infty(b, a->inf); else mpq_set(*(mpq_t*)b, a->q); }
static void b_to(xr* a, bound_t b)
{
  mpq_ptr q = (mpq_ptr)b;
  if (mpz_sgn(mpq_denref(q)) == 0) xr_inf(a, mpz_sgn(mpq_numref(q)));
  else { a->inf = 0; mpq_set(a->q, q); }
}
/* representation well-formed: lowest terms / den 0 with num +-1 */
static int b_wf(bound_t b)
{
  mpq_ptr q = (mpq_ptr)b;
  if (mpz_sgn(mpq_denref(q)) == 0) return mpz_cmpabs_ui(mpq_numref(q), 1) == 0;
  if (mpz_sgn(mpq_denref(q)) < 0) return 0;
  mpz_t g; mpz_init(g); mpz_gcd(g, mpq_numref(q), mpq_denref(q)); int r = mpz_cmp_ui(g, 1) == 0; mpz_clear(g); return r;
}
#endif
