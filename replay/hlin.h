/* Linear expressions for the replay harnesses: an array of exactly representable coefficients is the oracle. */
#ifndef HLIN_H
#define HLIN_H
#include "h.h"
#include <math.h>
#include "ap_linexpr0.h"
#include "ap_lincons0.h"
#include "ap_generator0.h"
#define LD 48
typedef struct { int k; double l, h; } co;                    /* k: 0 scalar, 1 interval; dyadic bounds */
typedef struct { int discr; size_t nd; co c[LD]; co cst; } lx;  /* nd: no dimension >= nd is mentioned */
static const co CO0 = {0, 0, 0};
static double rdy(int m) { return rint_(-m, m) / (rint_(0, 3) ? 1. : 4.); }
static void put_s(ap_scalar_t* s, double v)
{
  switch (rint_(0, 2)) {
  case 0: ap_scalar_set_double(s, v); break;
  case 1: { if (isinf(v)) { ap_scalar_reinit(s, AP_SCALAR_MPQ); ap_scalar_set_infty(s, v > 0 ? 1 : -1); } else { mpq_t q; mpq_init(q); mpq_set_d(q, v); ap_scalar_set_mpq(s, q); mpq_clear(q); } break; }
  default: { mpfr_t f; mpfr_init2(f, 60); mpfr_set_d(f, v, MPFR_RNDN); ap_scalar_set_mpfr(s, f); mpfr_clear(f); }
  }
}
static double get_s(ap_scalar_t* s)
{
  switch (s->discr) {
  case AP_SCALAR_DOUBLE: return s->val.dbl;
  case AP_SCALAR_MPQ: return mpz_sgn(mpq_denref(s->val.mpq)) == 0 ? (mpz_sgn(mpq_numref(s->val.mpq)) > 0 ? HUGE_VAL : -HUGE_VAL) : mpq_get_d(s->val.mpq);
  default: return mpfr_get_d(s->val.mpfr, MPFR_RNDN);
  }
}
static void put_co(ap_coeff_t* c, const co* o)
{
  if (o->k == 0) { ap_scalar_t* s = ap_scalar_alloc(); put_s(s, o->l); ap_coeff_set_scalar(c, s); ap_scalar_free(s); }
  else { ap_interval_t* i = ap_interval_alloc(); put_s(i->inf, o->l); put_s(i->sup, o->h); ap_coeff_set_interval(c, i); ap_interval_free(i); }
}
static co get_co(ap_coeff_t* c)
{
  co o; o.k = c->discr == AP_COEFF_INTERVAL;
  if (o.k) { o.l = get_s(c->val.interval->inf); o.h = get_s(c->val.interval->sup); } else o.l = o.h = get_s(c->val.scalar);
  return o;
}
/* pint: percentage of interval coefficients; half-infinite bounds when inf_ */
static co rco(int pint, int inf_)
{
  co o; o.k = rint_(1, 100) <= pint;
  o.l = o.h = rint_(0, 3) ? rdy(9) : 0;
  if (o.k) { o.h = o.l + (rint_(0, 3) ? fabs(rdy(5)) : 0); if (inf_) { if (!rint_(0, 5)) o.l = -HUGE_VAL; if (!rint_(0, 5)) o.h = HUGE_VAL; } }
  return o;
}
static int co_eq(const co* a, const co* b) { return a->l == b->l && a->h == b->h; }   /* as sets of values */
static int co_zero(const co* a) { return a->l == 0 && a->h == 0; }
static const char* co_s(const co* a) { static char b[8][64]; static int k; k = (k + 1) & 7; if (a->k) snprintf(b[k], 64, "[%g,%g]", a->l, a->h); else snprintf(b[k], 64, "%g", a->l); return b[k]; }
static const char* lx_s(const lx* o)
{
  static char b[4][4096]; static int k; k = (k + 1) & 3; char* p = b[k]; p += sprintf(p, "%s ", o->discr ? "sparse" : "dense");
  for (size_t i = 0; i < o->nd; i++) if (!co_zero(&o->c[i]) || o->c[i].k) p += sprintf(p, "%s*x%zu + ", co_s(&o->c[i]), i);
  sprintf(p, "%s", co_s(&o->cst)); return b[k];
}
/* a library expression over dimensions below nd, and its oracle; free linear terms and zero coefficients included */
static ap_linexpr0_t* rlin(lx* o, size_t nd, int pint, int inf_)
{
  o->nd = nd; for (int i = 0; i < LD; i++) o->c[i] = CO0;
  o->cst = rco(pint, inf_); o->discr = rint_(0, 1);
  ap_linexpr0_t* e;
  if (o->discr == AP_LINEXPR_DENSE) {
    e = ap_linexpr0_alloc(AP_LINEXPR_DENSE, nd);
    for (size_t i = 0; i < nd; i++) { o->c[i] = rco(pint, inf_); put_co(&e->p.coeff[i], &o->c[i]); }
  } else {
    size_t pos[LD], n = 0, fr = rint_(0, 3) ? 0 : rint_(1, 3); int den = rint_(0, 2);
    for (size_t i = 0; i < nd; i++) if (rint_(0, 3) < (den == 0 ? 1 : den == 1 ? 3 : 4)) pos[n++] = i;
    e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, n + fr);
    for (size_t i = 0; i < n; i++) { e->p.linterm[i].dim = pos[i]; o->c[pos[i]] = rco(pint, inf_); put_co(&e->p.linterm[i].coeff, &o->c[pos[i]]); }
  }
  put_co(&e->cst, &o->cst);
  return e;
}
static void lxchk(const char* w, ap_linexpr0_t* e, const lx* o, int kinds)
{
  co c; size_t n = 0; char seen[LD] = {0};
  n_cases++;
  if ((int)e->discr != o->discr) { fail_(w, "representation changed: %s", lx_s(o)); return; }
  c = get_co(&e->cst); if (!co_eq(&c, &o->cst) || (kinds && c.k != o->cst.k)) fail_(w, "constant %s, expected %s in %s", co_s(&c), co_s(&o->cst), lx_s(o));
  if (e->discr == AP_LINEXPR_DENSE) {
    if (e->size != o->nd) { fail_(w, "size %zu, expected %zu", e->size, o->nd); return; }
    for (size_t i = 0; i < o->nd; i++) { c = get_co(&e->p.coeff[i]); if (!co_eq(&c, &o->c[i]) || (kinds && c.k != o->c[i].k)) fail_(w, "coefficient of x%zu is %s, expected %s in %s", i, co_s(&c), co_s(&o->c[i]), lx_s(o)); }
    return;
  }
  long last = -1; int fr = 0;
  for (n = 0; n < e->size; n++) {
    ap_dim_t d = e->p.linterm[n].dim; c = get_co(&e->p.linterm[n].coeff);
    if (d == AP_DIM_MAX) { fr = 1; continue; }
    if (fr) { fail_(w, "a used linear term follows a free one in %s", lx_s(o)); return; }
    if ((long)d <= last) { fail_(w, "linear terms not increasing (x%ld then x%u), expected %s", last, d, lx_s(o)); return; }
    last = d;
    if (d >= o->nd) { if (!co_zero(&c)) fail_(w, "coefficient of x%u is %s, expected nothing in %s", d, co_s(&c), lx_s(o)); continue; }
    seen[d] = 1;
    if (!co_eq(&c, &o->c[d]) || (kinds && c.k != o->c[d].k)) fail_(w, "coefficient of x%u is %s, expected %s in %s", d, co_s(&c), co_s(&o->c[d]), lx_s(o));
  }
  for (size_t i = 0; i < o->nd; i++) if (!seen[i] && !co_zero(&o->c[i])) fail_(w, "coefficient of x%zu lost, expected %s", i, lx_s(o));
}
#endif
