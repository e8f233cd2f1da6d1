#include "h.h"
#include <math.h>
#include "ap_coeff.h"
/* scalars, intervals and coefficients in the three representations, against extended rationals */
static mpfr_prec_t PREC[] = {2, 24, 53, 120, 300};
static void xr_dbl(xr* a, double d) { if (isinf(d)) xr_inf(a, d > 0 ? 1 : -1); else { a->inf = 0; mpq_set_d(a->q, d); } }
static void q_of_fr(mpq_t q, mpfr_t f) { if (mpfr_zero_p(f)) { mpq_set_si(q, 0, 1); return; } mpz_t z; mpz_init(z); long e = mpfr_get_z_2exp(z, f); mpq_set_z(q, z); if (e > 0) mpq_mul_2exp(q, q, e); else mpq_div_2exp(q, q, -e); mpz_clear(z); }
static void xr_fr(xr* a, mpfr_t f) { if (mpfr_inf_p(f)) xr_inf(a, mpfr_sgn(f)); else { a->inf = 0; q_of_fr(a->q, f); } }
/* value and well-formedness of a scalar */
static int sval(xr* v, ap_scalar_t* a)
{
  switch (a->discr) {
  case AP_SCALAR_DOUBLE: if (isnan(a->val.dbl)) return 0; xr_dbl(v, a->val.dbl); return 1;
  case AP_SCALAR_MPQ: { bound_t* b = (bound_t*)a->val.mpq; if (!b_wf(*b)) return 0; b_to(v, *b); return 1; }
  case AP_SCALAR_MPFR: if (mpfr_nan_p(a->val.mpfr)) return 0; xr_fr(v, a->val.mpfr); return 1;
  }
  return 0;
}
static void rq(mpq_t q)
{
  switch (rint_(0, 6)) {
  case 0: mpq_set_si(q, rint_(-3, 3), 1); break;
  case 1: mpq_set_si(q, rint_(-9, 9), rint_(1, 9)); break;
  case 2: mpq_set_si(q, rint_(-1, 1), 1); mpq_div_2exp(q, q, rint_(0, 1200)); break;
  case 3: mpq_set_si(q, rint_(-3, 3), 1); mpq_mul_2exp(q, q, rint_(0, 1200)); break;
  case 4: { mpq_t e; mpq_init(e); mpq_set_si(e, rint_(-1, 1), 1); mpq_div_2exp(e, e, rint_(40, 90)); mpq_set_si(q, rint_(-3, 3), 1); mpq_add(q, q, e); mpq_clear(e); break; }
  case 5: mpq_set_si(q, (long)rnd(), 1 + (rnd() >> 1)); break;
  default: mpq_set_si(q, 0, 1);
  }
  mpq_canonicalize(q);
}
static double rd_(void) { mpq_t q; mpq_init(q); rq(q); double d = mpq_get_d(q); mpq_clear(q); switch (rint_(0, 9)) { case 0: return HUGE_VAL; case 1: return -HUGE_VAL; case 2: return -0.0; } return d; }
static void put3(ap_scalar_t* s, double v, int k) { if (k == 0) ap_scalar_set_double(s, v); else if (k == 1) { mpq_t q; mpq_init(q); mpq_set_d(q, v); ap_scalar_set_mpq(s, q); mpq_clear(q); } else { mpfr_t f; mpfr_init2(f, 60); mpfr_set_d(f, v, MPFR_RNDN); ap_scalar_set_mpfr(s, f); mpfr_clear(f); } }
static ap_scalar_t* rscal(xr* v)
{
  ap_scalar_t* a = ap_scalar_alloc(); mpq_t q; mpq_init(q);
  switch (rint_(0, 2)) {
  case 0: a->val.dbl = rd_(); break;
  case 1: a->discr = AP_SCALAR_MPQ; a->val.mpq = malloc(sizeof(mpq_t)); mpq_init(a->val.mpq);
    if (!rint_(0, 5)) { mpz_set_si(mpq_numref(a->val.mpq), rint_(0, 1) ? 1 : -1); mpz_set_si(mpq_denref(a->val.mpq), 0); } else { rq(q); mpq_set(a->val.mpq, q); } break;
  default: a->discr = AP_SCALAR_MPFR; a->val.mpfr = malloc(sizeof(mpfr_t)); mpfr_init2(a->val.mpfr, PREC[rint_(0, 4)]);
    if (!rint_(0, 5)) mpfr_set_inf(a->val.mpfr, rint_(0, 1) ? 1 : -1); else { rq(q); mpfr_set_q(a->val.mpfr, q, MPFR_RNDN); } }
  mpq_clear(q);
  if (v) { if (!sval(v, a)) abort(); }
  return a;
}
static void sfree(ap_scalar_t* a) { if (a->discr == AP_SCALAR_MPQ) { mpq_clear(a->val.mpq); free(a->val.mpq); } if (a->discr == AP_SCALAR_MPFR) { mpfr_clear(a->val.mpfr); free(a->val.mpfr); } free(a); }
static void eqs(const char* w, ap_scalar_t* a, const xr* v, int d)
{ xr x; xr_init(&x); if (d >= 0 && (int)a->discr != d) fail_(w, "representation %d instead of %d", a->discr, d); else if (!sval(&x, a)) fail_(w, "ill-formed result"); else if (xr_cmp(&x, v)) fail_(w, "%s instead of %s", xr_s(&x), xr_s(v)); xr_clear(&x); n_cases++; }
static void sg(const char* w, int r, int e, int strict) { n_cases++; if (strict ? r != e : (r > 0) - (r < 0) != e) fail_(w, "returned %d, expected %d", r, e); }
typedef struct { xr l, h; } xi;
static ap_interval_t* ritv(xi* v) { ap_interval_t* i = malloc(sizeof *i); i->inf = rscal(&v->l); i->sup = rscal(&v->h);
  if (xr_cmp(&v->l, &v->h) > 0 && rint_(0, 3)) { ap_scalar_t* t = i->inf; i->inf = i->sup; i->sup = t; xr x = v->l; v->l = v->h; v->h = x; }
  if (!rint_(0, 4)) { sfree(i->sup); i->sup = ap_scalar_alloc(); switch (i->inf->discr) { case 0: i->sup->val.dbl = i->inf->val.dbl; break; case 1: i->sup->discr = 1; i->sup->val.mpq = malloc(sizeof(mpq_t)); mpq_init(i->sup->val.mpq); mpz_set(mpq_numref(i->sup->val.mpq), mpq_numref(i->inf->val.mpq)); mpz_set(mpq_denref(i->sup->val.mpq), mpq_denref(i->inf->val.mpq)); break; default: i->sup->discr = 2; i->sup->val.mpfr = malloc(sizeof(mpfr_t)); mpfr_init2(i->sup->val.mpfr, 300); mpfr_set(i->sup->val.mpfr, i->inf->val.mpfr, MPFR_RNDN); } sval(&v->h, i->sup); }
  return i; }
static void ifree(ap_interval_t* i) { sfree(i->inf); sfree(i->sup); free(i); }
static int bot(const xi* a) { return xr_cmp(&a->l, &a->h) > 0; }
static int leq(const xi* a, const xi* b) { return bot(a) || (xr_cmp(&a->l, &b->l) >= 0 && xr_cmp(&a->h, &b->h) <= 0); }
static void eqi(const char* w, ap_interval_t* i, const xi* v, int d) { eqs(w, i->inf, &v->l, d); eqs(w, i->sup, &v->h, d); if (i->inf == i->sup) fail_(w, "shared bounds"); }
static int icmp(const xi* a, const xi* b)   /* documented result, 9 when both bounds-equal-or-empty choices are open */
{ int l = leq(a, b), r = leq(b, a); if (bot(a) && bot(b)) return 9; if (l && r) return 0; if (l) return -1; if (r) return 1; return xr_cmp(&a->l, &b->l) > 0 ? 2 : -2; }
static void icheck(const char* w, int r, const xi* a, const xi* b) { int e = icmp(a, b); n_cases++; if (e == 9 ? (r < -1 || r > 1) : r != e) fail_(w, "returned %d, expected %d for [%s,%s] [%s,%s]", r, e, xr_s(&a->l), xr_s(&a->h), xr_s(&b->l), xr_s(&b->h)); }
typedef struct { int k; xr v; xi i; } xc;
static void xc_init(xc* c) { xr_init(&c->v); xr_init(&c->i.l); xr_init(&c->i.h); }
static void xc_clear(xc* c) { xr_clear(&c->v); xr_clear(&c->i.l); xr_clear(&c->i.h); }
static ap_coeff_t* rco(xc* v) { ap_coeff_t* c = malloc(sizeof *c); if ((v->k = rint_(0, 1))) { c->discr = AP_COEFF_INTERVAL; c->val.interval = ritv(&v->i); } else { c->discr = AP_COEFF_SCALAR; c->val.scalar = rscal(&v->v); } return c; }
static void cfree(ap_coeff_t* c) { if (c->discr == AP_COEFF_SCALAR) sfree(c->val.scalar); else ifree(c->val.interval); free(c); }
static void eqc(const char* w, ap_coeff_t* c, const xc* v, int d) { if ((int)c->discr != v->k) { fail_(w, "kind %d instead of %d", c->discr, v->k); return; } if (v->k) eqi(w, c->val.interval, &v->i, d); else eqs(w, c->val.scalar, &v->v, d); }

int main(int argc, char** argv)
{
  h_init(argc, argv);
  xr x, y, z, w; xi I, J, K; xc A, B, C; mpq_t q, q2; mpfr_t f, f2;
  xr_init(&x); xr_init(&y); xr_init(&z); xr_init(&w); xr_init(&I.l); xr_init(&I.h); xr_init(&J.l); xr_init(&J.h); xr_init(&K.l); xr_init(&K.h); xc_init(&A); xc_init(&B); xc_init(&C); mpq_init(q); mpq_init(q2);
  for (int n = 0; n < 40000; n++) {
    ap_scalar_t *a = rscal(&x), *b = rscal(&y), *c; int k = rint_(-3, 3), d = a->discr, e = b->discr, same = rint_(0, 3) == 0;
    if (same) { ap_scalar_t* t = b; b = ap_scalar_alloc_set(a); sfree(t); xr_set(&y, &x); e = d; eqs("alloc_set", b, &x, d); if (d == AP_SCALAR_MPFR) { mpfr_set_prec(b->val.mpfr, 300); mpfr_set(b->val.mpfr, a->val.mpfr, MPFR_RNDN); } }
    doing("comparisons of %s and %s, representations %d %d", xr_s(&x), xr_s(&y), d, e);
    sg("scalar_infty", ap_scalar_infty(a), x.inf, 1);
    sg("scalar_cmp", ap_scalar_cmp(a, b), xr_cmp(&x, &y), 1);
    xr_q(&z, k, 1);
    sg("scalar_cmp_int", ap_scalar_cmp_int(a, k), xr_cmp(&x, &z), 1);
    sg("scalar_equal", ap_scalar_equal(a, b), xr_cmp(&x, &y) == 0, 1);
    sg("scalar_equal_int", ap_scalar_equal_int(a, k), xr_cmp(&x, &z) == 0, 1);
    sg("scalar_sgn", ap_scalar_sgn(a), xr_sgn(&x), 1);
    sg("scalar_cmp with itself", ap_scalar_cmp(a, a), 0, 1);
    { double v = rint_(0, 3) ? rint_(-4000, 4000) / 8. : ldexp(rint_(-9, 9), rint_(20, 70)); ap_scalar_t *t = ap_scalar_alloc(), *u = ap_scalar_alloc(); put3(t, v, rint_(0, 2)); put3(u, v, rint_(0, 2)); n_cases++; if (!ap_scalar_equal(t, u) || ap_scalar_hash(t) != ap_scalar_hash(u)) fail_("scalar_hash", "%g in representations %d and %d: equal %d, hashes %ld and %ld", v, t->discr, u->discr, ap_scalar_equal(t, u), ap_scalar_hash(t), ap_scalar_hash(u)); ap_scalar_free(t); ap_scalar_free(u); }
    { ap_scalar_t* t = ap_scalar_alloc_set(a); if (ap_scalar_hash(t) != ap_scalar_hash(a)) fail_("scalar_hash", "equal scalars, different hash"); sfree(t); }
    doing("conversions of %s (representation %d)", xr_s(&x), d);
    { int r = ap_mpq_set_scalar(q, a, GMP_RNDU); if (mpz_sgn(mpq_denref(q)) == 0) xr_inf(&w, mpz_sgn(mpq_numref(q))); else { w.inf = 0; mpq_set(w.q, q); } n_cases++; if (r || xr_cmp(&w, &x)) fail_("mpq_set_scalar", "%s from %s, returned %d", xr_s(&w), xr_s(&x), r);
      double t; for (int m = 0; m < 4; m++) { mp_rnd_t R[] = {GMP_RNDU, GMP_RNDD, GMP_RNDN, GMP_RNDZ}; r = ap_double_set_scalar(&t, a, R[m]); xr_dbl(&w, t); int s = xr_cmp(&w, &x);
        n_cases++; if ((m == 0 && s < 0) || (m == 1 && s > 0) || (m == 3 && s * xr_sgn(&x) > 0)) fail_("double_set_scalar", "rounding mode %d: %.17g from %s (representation %d)", m, t, xr_s(&x), d);
        if ((r > 0) - (r < 0) != s) fail_("double_set_scalar", "rounding mode %d: %.17g from %s (representation %d): returned %d", m, t, xr_s(&x), d, r);
        mpfr_init2(f, PREC[rint_(0, 4)]); r = ap_mpfr_set_scalar(f, a, R[m]); xr_fr(&w, f); s = xr_cmp(&w, &x); mpfr_clear(f);
        if ((m == 0 && s < 0) || (m == 1 && s > 0) || (m == 3 && s * xr_sgn(&x) > 0) || (r > 0) - (r < 0) != s) fail_("mpfr_set_scalar", "rounding mode %d: %s from %s (representation %d): returned %d", m, xr_s(&w), xr_s(&x), d, r); } }
    doing("assignments from %s (representation %d) to representation %d", xr_s(&y), e, d);
    c = ap_scalar_alloc_set(a); ap_scalar_set(c, b); eqs("scalar_set", c, &y, e); eqs("scalar_set source", b, &y, e); ap_scalar_set(c, c); eqs("scalar_set on itself", c, &y, e);
    xr_neg(&z, &y); sfree(c); c = ap_scalar_alloc_set(a); ap_scalar_neg(c, b); eqs("scalar_neg", c, &z, e); eqs("scalar_neg source", b, &y, e); ap_scalar_neg(c, c); eqs("scalar_neg in place", c, &y, e);
    if (xr_sgn(&y) && e == AP_SCALAR_MPQ) { xr_q(&w, 1, 1); xr_div(&z, &w, &y); if (y.inf) xr_q(&z, 0, 1); ap_scalar_set(c, a); ap_scalar_inv(c, b); eqs("scalar_inv", c, &z, e); }
    ap_scalar_set(c, a); { int t = rint_(0, 2); ap_scalar_reinit(c, t); if ((int)c->discr != t) fail_("scalar_reinit", "representation %d", c->discr); if (t == d) eqs("scalar_reinit", c, &x, d); }
    sfree(c); c = ap_scalar_alloc_set(a);
    switch (rint_(0, 5)) {
    case 0: { long v = rint_(0, 2) ? (long)rnd() : rint_(-3, 3); mpq_set_si(w.q, v, 1); w.inf = 0; ap_scalar_set_int(c, v); eqs("scalar_set_int", c, &w, 1); break; }
    case 1: { long v = rint_(0, 1) ? (long)rnd() : rint_(-9, 9); unsigned long t = rint_(0, 1) ? rnd() | 1 : (unsigned long)rint_(1, 9); mpq_set_si(w.q, v, t); mpq_canonicalize(w.q); w.inf = 0; ap_scalar_set_frac(c, v, t); eqs("scalar_set_frac", c, &w, 1); break; }
    case 2: { double v = rd_(); xr_dbl(&w, v); ap_scalar_set_double(c, v); eqs("scalar_set_double", c, &w, 0); ap_scalar_t* t = ap_scalar_alloc_set_double(v); eqs("alloc_set_double", t, &w, 0); sfree(t); break; }
    case 3: { rq(q); w.inf = 0; mpq_set(w.q, q); ap_scalar_set_mpq(c, q); eqs("scalar_set_mpq", c, &w, 1); ap_scalar_t* t = ap_scalar_alloc_set_mpq(q); eqs("alloc_set_mpq", t, &w, 1); sfree(t); break; }
    case 4: { rq(q); mpfr_init2(f, PREC[rint_(0, 4)]); mpfr_set_q(f, q, MPFR_RNDN); xr_fr(&w, f); ap_scalar_set_mpfr(c, f); eqs("scalar_set_mpfr", c, &w, 2); ap_scalar_t* t = ap_scalar_alloc_set_mpfr(f); eqs("alloc_set_mpfr", t, &w, 2); sfree(t); mpfr_clear(f); break; }
    default: if (k) xr_inf(&w, k > 0 ? 1 : -1); else xr_q(&w, 0, 1); ap_scalar_set_infty(c, k); eqs("scalar_set_infty", c, &w, d); }
    ap_scalar_swap(c, b); eqs("scalar_swap", c, &y, e); ap_scalar_swap(c, b); sfree(c);
    sfree(a); sfree(b);
  }
  for (int n = 0; n < 20000; n++) {
    ap_interval_t *i = ritv(&I), *j = ritv(&J), *c; int k = rint_(-2, 2); if (!rint_(0, 3)) { ifree(j); j = ap_interval_alloc_set(i); xr_set(&J.l, &I.l); xr_set(&J.h, &I.h); }
    doing("intervals [%s,%s] [%s,%s]", xr_s(&I.l), xr_s(&I.h), xr_s(&J.l), xr_s(&J.h));
    sg("interval_is_top", ap_interval_is_top(i), I.l.inf < 0 && I.h.inf > 0, 1);
    sg("interval_is_bottom", ap_interval_is_bottom(i), bot(&I), 1);
    sg("interval_is_leq", ap_interval_is_leq(i, j), leq(&I, &J), 1);
    sg("interval_is_leq itself", ap_interval_is_leq(i, i), 1, 1);
    icheck("interval_cmp", ap_interval_cmp(i, j), &I, &J);
    sg("interval_equal", ap_interval_equal(i, j), leq(&I, &J) && leq(&J, &I), 1);
    xr_q(&x, k, 1); sg("interval_equal_int", ap_interval_equal_int(i, k), !xr_cmp(&I.l, &x) && !xr_cmp(&I.h, &x), 1);
    c = ap_interval_alloc_set(i); eqi("interval_alloc_set", c, &I, -1); ap_interval_set(c, j); eqi("interval_set", c, &J, -1); ap_interval_set(c, c); eqi("interval_set itself", c, &J, -1);
    xr_neg(&K.l, &J.h); xr_neg(&K.h, &J.l); ap_interval_set(c, i); ap_interval_neg(c, j); eqi("interval_neg", c, &K, -1); eqi("interval_neg source", j, &J, -1); ap_interval_neg(c, c); eqi("interval_neg in place", c, &J, -1);
    ap_interval_set(c, i); ap_interval_set_scalar(c, j->sup, j->inf); xr_set(&K.l, &J.h); xr_set(&K.h, &J.l); eqi("interval_set_scalar", c, &K, -1);
    ifree(c); c = ap_interval_alloc_set(i);
    switch (rint_(0, 6)) {
    case 0: ap_interval_set_int(c, k, 7); xr_q(&K.l, k, 1); xr_q(&K.h, 7, 1); eqi("interval_set_int", c, &K, 1); break;
    case 1: ap_interval_set_frac(c, k, 4, 6, 8); xr_q(&K.l, k, 4); xr_q(&K.h, 6, 8); eqi("interval_set_frac", c, &K, 1); break;
    case 2: { double s = rd_(), t = rd_(); ap_interval_set_double(c, s, t); xr_dbl(&K.l, s); xr_dbl(&K.h, t); eqi("interval_set_double", c, &K, 0); break; }
    case 3: rq(q); rq(q2); ap_interval_set_mpq(c, q, q2); K.l.inf = K.h.inf = 0; mpq_set(K.l.q, q); mpq_set(K.h.q, q2); eqi("interval_set_mpq", c, &K, 1); break;
    case 4: rq(q); mpfr_init2(f, PREC[rint_(0, 4)]); mpfr_init2(f2, PREC[rint_(0, 4)]); mpfr_set_q(f, q, MPFR_RNDN); rq(q); mpfr_set_q(f2, q, MPFR_RNDN); ap_interval_set_mpfr(c, f, f2); xr_fr(&K.l, f); xr_fr(&K.h, f2); eqi("interval_set_mpfr", c, &K, 2); mpfr_clear(f); mpfr_clear(f2); break;
    case 5: ap_interval_set_top(c); xr_inf(&K.l, -1); xr_inf(&K.h, 1); eqi("interval_set_top", c, &K, -1); break;
    default: ap_interval_set_bottom(c); if (!sval(&K.l, c->inf) || !sval(&K.h, c->sup) || !bot(&K)) fail_("interval_set_bottom", "not empty"); n_cases++;
    }
    ap_interval_reinit(c, AP_SCALAR_MPQ); if (c->inf->discr != AP_SCALAR_MPQ || c->sup->discr != AP_SCALAR_MPQ) fail_("interval_reinit", "representation");
    ifree(c); ifree(i); ifree(j);
    { ap_interval_t** t = ap_interval_array_alloc(k + 3); xr_q(&K.l, 0, 1); xr_q(&K.h, 0, 1); for (int s = 0; s < k + 3; s++) { eqi("interval_array_alloc", t[s], &K, 0); for (int r = 0; r < s; r++) if (t[r] == t[s] || t[r]->inf == t[s]->inf) fail_("interval_array_alloc", "shared"); } ap_interval_array_free(t, k + 3); }
  }
  for (int n = 0; n < 30000; n++) {
    ap_coeff_t *a = rco(&A), *b = rco(&B), *c, *t; xc* P; int k = rint_(-2, 2); if (!rint_(0, 3)) { cfree(b); b = ap_coeff_alloc_set(a); B.k = A.k; xr_set(&B.v, &A.v); xr_set(&B.i.l, &A.i.l); xr_set(&B.i.h, &A.i.h); eqc("coeff_alloc_set", b, &A, -1); }
    doing("coefficients of kinds %d %d", A.k, B.k);
    int r = ap_coeff_cmp(a, b);
    if (A.k != B.k) sg("coeff_cmp", r, A.k ? 3 : -3, 1); else if (A.k) icheck("coeff_cmp", r, &A.i, &B.i); else sg("coeff_cmp", r, xr_cmp(&A.v, &B.v), 1);
    sg("coeff_equal", ap_coeff_equal(a, b), A.k == B.k && (A.k ? leq(&A.i, &B.i) && leq(&B.i, &A.i) : !xr_cmp(&A.v, &B.v)), 1);
    for (int m = -3; m <= 3; m++) { xr_q(&x, m, 1); int e = A.k ? !xr_cmp(&A.i.l, &x) && !xr_cmp(&A.i.h, &x) : !xr_cmp(&A.v, &x); sg("coeff_equal_int", ap_coeff_equal_int(a, m), e, 1); if (!m) sg("coeff_zero", ap_coeff_zero(a), e, 1); }
    c = ap_coeff_alloc_set(a); eqc("coeff_alloc_set", c, &A, -1); ap_coeff_set(c, b); eqc("coeff_set", c, &B, -1); eqc("coeff_set source", b, &B, -1); ap_coeff_set(c, c); eqc("coeff_set itself", c, &B, -1); cfree(c);
    C.k = B.k; xr_neg(&C.v, &B.v); xr_neg(&C.i.l, &B.i.h); xr_neg(&C.i.h, &B.i.l);
    c = ap_coeff_alloc_set(a); ap_coeff_neg(c, b); eqc("coeff_neg", c, &C, -1); eqc("coeff_neg source", b, &B, -1); ap_coeff_neg(c, c); eqc("coeff_neg in place", c, &B, -1); cfree(c);
    c = ap_coeff_alloc_set(a); ap_coeff_reduce(c); if (A.k && !xr_cmp(&A.i.l, &A.i.h)) { C.k = 0; xr_set(&C.v, &A.i.l); P = &C; } else P = &A; eqc("coeff_reduce", c, P, -1); cfree(c);
    c = ap_coeff_alloc_set(a); r = rint_(0, 2); ap_coeff_reinit(c, B.k, r); if ((int)c->discr != B.k || (B.k ? c->val.interval->inf->discr != r || c->val.interval->sup->discr != r : c->val.scalar->discr != r)) fail_("coeff_reinit", "kind or representation"); cfree(c);
    c = ap_coeff_alloc_set(a); ap_coeff_t u; ap_coeff_init_set(&u, b); eqc("coeff_init_set", &u, &B, -1); ap_coeff_swap(c, &u); eqc("coeff_swap", c, &B, -1); eqc("coeff_swap", &u, &A, -1); ap_coeff_clear(&u);
    cfree(c); c = ap_coeff_alloc_set(a); xc_clear(&C); xc_init(&C);
    if (B.k) { ap_coeff_set_interval(c, b->val.interval); eqc("coeff_set_interval", c, &B, -1); ap_coeff_set_interval_scalar(c, b->val.interval->sup, b->val.interval->inf); C.k = 1; xr_set(&C.i.l, &B.i.h); xr_set(&C.i.h, &B.i.l); eqc("coeff_set_interval_scalar", c, &C, -1); t = ap_coeff_alloc_set_interval(b->val.interval); eqc("coeff_alloc_set_interval", t, &B, -1); cfree(t); }
    else { ap_coeff_set_scalar(c, b->val.scalar); eqc("coeff_set_scalar", c, &B, -1); t = ap_coeff_alloc_set_scalar(b->val.scalar); eqc("coeff_alloc_set_scalar", t, &B, -1); cfree(t); }
    cfree(c); c = ap_coeff_alloc_set(a);
    switch (rint_(0, 10)) {
    case 0: ap_coeff_set_scalar_int(c, k); C.k = 0; xr_q(&C.v, k, 1); eqc("coeff_set_scalar_int", c, &C, 1); break;
    case 1: ap_coeff_set_scalar_frac(c, k, 4); C.k = 0; xr_q(&C.v, k, 4); eqc("coeff_set_scalar_frac", c, &C, 1); break;
    case 2: { double v = rd_(); ap_coeff_set_scalar_double(c, v); C.k = 0; xr_dbl(&C.v, v); eqc("coeff_set_scalar_double", c, &C, 0); break; }
    case 3: rq(q); ap_coeff_set_scalar_mpq(c, q); C.k = 0; C.v.inf = 0; mpq_set(C.v.q, q); eqc("coeff_set_scalar_mpq", c, &C, 1); break;
    case 4: rq(q); mpfr_init2(f, PREC[rint_(0, 4)]); mpfr_set_q(f, q, MPFR_RNDN); ap_coeff_set_scalar_mpfr(c, f); C.k = 0; xr_fr(&C.v, f); eqc("coeff_set_scalar_mpfr", c, &C, 2); mpfr_clear(f); break;
    case 5: ap_coeff_set_interval_int(c, k, 5); C.k = 1; xr_q(&C.i.l, k, 1); xr_q(&C.i.h, 5, 1); eqc("coeff_set_interval_int", c, &C, 1); break;
    case 6: ap_coeff_set_interval_frac(c, k, 4, 5, 10); C.k = 1; xr_q(&C.i.l, k, 4); xr_q(&C.i.h, 5, 10); eqc("coeff_set_interval_frac", c, &C, 1); break;
    case 7: { double s = rd_(), v = rd_(); ap_coeff_set_interval_double(c, s, v); C.k = 1; xr_dbl(&C.i.l, s); xr_dbl(&C.i.h, v); eqc("coeff_set_interval_double", c, &C, 0); break; }
    case 8: rq(q); rq(q2); ap_coeff_set_interval_mpq(c, q, q2); C.k = 1; C.i.l.inf = C.i.h.inf = 0; mpq_set(C.i.l.q, q); mpq_set(C.i.h.q, q2); eqc("coeff_set_interval_mpq", c, &C, 1); break;
    case 9: rq(q); mpfr_init2(f, PREC[rint_(0, 4)]); mpfr_init2(f2, PREC[rint_(0, 4)]); mpfr_set_q(f, q, MPFR_RNDN); rq(q); mpfr_set_q(f2, q, MPFR_RNDN); ap_coeff_set_interval_mpfr(c, f, f2); C.k = 1; xr_fr(&C.i.l, f); xr_fr(&C.i.h, f2); eqc("coeff_set_interval_mpfr", c, &C, 2); mpfr_clear(f); mpfr_clear(f2); break;
    default: ap_coeff_set_interval_top(c); C.k = 1; xr_inf(&C.i.l, -1); xr_inf(&C.i.h, 1); eqc("coeff_set_interval_top", c, &C, -1); }
    cfree(c); cfree(a); cfree(b);
    c = ap_coeff_alloc(k > 0); C.k = k > 0; xr_q(&C.v, 0, 1); xr_q(&C.i.l, 0, 1); xr_q(&C.i.h, 0, 1); eqc("coeff_alloc", c, &C, 0); cfree(c);
  }
  return h_done();
}
