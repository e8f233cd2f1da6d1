/* Domain-generic oracle: an abstract value is judged by the points it holds.  Points are exact rationals, integer on the
   integer dimensions; expressions, constraints and expression trees are evaluated here on points, exactly. */
#ifndef HDOM_H
#define HDOM_H
#include "hlin.h"
#include "ap_global0.h"
#include "ap_abstract0.h"
#include "ap_texpr0.h"
#include "ap_tcons0.h"
#pragma GCC diagnostic ignored "-Wunused-function"
#define DD 5                       /* dimensions of the generated values: 0..DD-1 */
#define DM 9
#define NP 26
typedef struct { mpq_t v[DM]; } pt;
static ap_manager_t* M;
static int nd, id_;                /* dimensions, integer ones */
static pt P0, PT[NP]; static int nP, IN[NP];
static char args[12000];
static int thor;
/* checks of one domain only */
static int dom_nocanon;
static void (*dom_projchk)(ap_abstract0_t* r);
static void (*dom_satchk)(ap_abstract0_t* a, ap_lincons0_t* c, int r);
static void (*dom_boundchk)(ap_abstract0_t* a, ap_linexpr0_t* e, ap_interval_t* b);
static void (*dom_assignchk)(const char* what, ap_abstract0_t* a, ap_dim_t* t, ap_linexpr0_t** e, int k, ap_abstract0_t* r, int subst, int ex);
static void (*dom_genschk)(ap_abstract0_t* a, ap_generator0_array_t* g);
static void (*dom_raychk)(ap_abstract0_t* a, ap_generator0_array_t* g, ap_abstract0_t* r);
static void pt_set(pt* a, const pt* b) { for (int i = 0; i < DM; i++) mpq_set(a->v[i], b->v[i]); }
static const char* pt_s(const pt* a) { static char b[6][512]; static int k; k = (k + 1) % 6; char* p = b[k]; p += sprintf(p, "("); for (int i = 0; i < nd; i++) p += gmp_snprintf(p, 60, "%s%Qd", i ? "," : "", a->v[i]); sprintf(p, ")"); return b[k]; }
static int isint(mpq_t q) { return mpz_cmp_ui(mpq_denref(q), 1) == 0; }
static int pt_int(const pt* a, int n) { for (int i = 0; i < n; i++) if (!isint(((pt*)a)->v[i])) return 0; return 1; }

/* ---- exact reading of library numbers ---- */
static void rd_s(xr* a, ap_scalar_t* s)
{
  switch (s->discr) {
  case AP_SCALAR_DOUBLE: if (isinf(s->val.dbl)) xr_inf(a, s->val.dbl > 0 ? 1 : -1); else { a->inf = 0; mpq_set_d(a->q, s->val.dbl); } break;
  case AP_SCALAR_MPQ: if (mpz_sgn(mpq_denref(s->val.mpq)) == 0) xr_inf(a, mpz_sgn(mpq_numref(s->val.mpq))); else { a->inf = 0; mpq_set(a->q, s->val.mpq); } break;
  default: if (mpfr_inf_p(s->val.mpfr)) xr_inf(a, mpfr_sgn(s->val.mpfr)); else { mpf_t f; a->inf = 0; mpz_t z; mpz_init(z); if (mpfr_zero_p(s->val.mpfr)) mpq_set_ui(a->q, 0, 1); else { mpfr_exp_t x = mpfr_get_z_2exp(z, s->val.mpfr); mpq_set_z(a->q, z); if (x >= 0) mpq_mul_2exp(a->q, a->q, x); else mpq_div_2exp(a->q, a->q, -x); } mpz_clear(z); (void)f; }
  }
}
static void rd_c(xr* l, xr* h, ap_coeff_t* c)
{ if (c->discr == AP_COEFF_SCALAR) { rd_s(l, c->val.scalar); xr_set(h, l); } else { rd_s(l, c->val.interval->inf); rd_s(h, c->val.interval->sup); } }
static void acc(xr* L, xr* H, ap_coeff_t* c, mpq_t x)
{
  xr l, h, t; xr_init(&l); xr_init(&h); xr_init(&t);
  rd_c(&l, &h, c); t.inf = 0; mpq_set(t.q, x);
  int s = mpq_sgn(x);
  if (s) { xr_mul(&l, &l, &t); xr_mul(&h, &h, &t); if (s > 0) { xr_add(L, L, &l); xr_add(H, H, &h); } else { xr_add(L, L, &h); xr_add(H, H, &l); } }
  xr_clear(&l); xr_clear(&h); xr_clear(&t);
}
static mpq_t one_;
/* values of a (quasi-)linear expression at a point */
static void evl(xr* L, xr* H, ap_linexpr0_t* e, const pt* x)
{
  size_t i; ap_dim_t d; ap_coeff_t* c;
  xr_q(L, 0, 1); xr_q(H, 0, 1); acc(L, H, &e->cst, one_);
  ap_linexpr0_ForeachLinterm(e, i, d, c) acc(L, H, c, ((pt*)x)->v[d]);
}
static int ctyp(ap_constyp_t t, ap_scalar_t* mod, xr* L, xr* H)
{
  if (L->inf > 0 || H->inf < 0 || xr_cmp(L, H) > 0) return 0;
  int sl = xr_sgn(L), sh = xr_sgn(H);
  switch (t) {
  case AP_CONS_EQ: return sl <= 0 && sh >= 0;
  case AP_CONS_SUPEQ: return sh >= 0;
  case AP_CONS_SUP: return sh > 0;
  case AP_CONS_DISEQ: return sl != 0 || sh != 0;
  default: {
    xr m; xr_init(&m); rd_s(&m, mod); int r;
    if (xr_sgn(&m) == 0) r = sl <= 0 && sh >= 0;
    else if (L->inf || H->inf) r = 1;
    else { mpq_abs(m.q, m.q); mpq_t k; mpq_init(k); mpq_div(k, L->q, m.q); mpz_t z; mpz_init(z); mpz_cdiv_q(z, mpq_numref(k), mpq_denref(k)); mpq_set_z(k, z); mpq_mul(k, k, m.q); r = mpq_cmp(k, H->q) <= 0; mpq_clear(k); mpz_clear(z); }
    xr_clear(&m); return r; }
  }
}
static int sat1(ap_lincons0_t* c, const pt* x) { xr L, H; xr_init(&L); xr_init(&H); evl(&L, &H, c->linexpr0, x); int r = ctyp(c->constyp, c->scalar, &L, &H); xr_clear(&L); xr_clear(&H); return r; }
static int sata(ap_lincons0_array_t* a, const pt* x) { for (size_t i = 0; i < a->size; i++) if (!sat1(&a->p[i], x)) return 0; return 1; }
/* the points an abstract value holds, as its own list of constraints says */
static ap_lincons0_array_t listof(ap_abstract0_t* a) { ap_abstract0_t* b = ap_abstract0_copy(M, a); ap_lincons0_array_t r = ap_abstract0_to_lincons_array(M, b); ap_abstract0_free(M, b); return r; }
static char* ls(ap_lincons0_array_t* a) { static char* b[3]; static size_t n[3]; static int k; k = (k + 1) % 3; if (b[k]) free(b[k]); FILE* f = open_memstream(&b[k], &n[k]); for (size_t i = 0; i < a->size; i++) { if (i) fprintf(f, ", "); ap_lincons0_fprint(f, &a->p[i], 0); if (ftell(f) > 1200) break; } fclose(f); return b[k]; }
static char* as(ap_abstract0_t* a) { ap_lincons0_array_t l = listof(a); char* s = ls(&l); ap_lincons0_array_clear(&l); return s; }
static char* es(ap_linexpr0_t* e) { static char* b[4]; static size_t n[4]; static int k; k = (k + 1) % 4; if (b[k]) free(b[k]); FILE* f = open_memstream(&b[k], &n[k]); ap_linexpr0_fprint(f, e, 0); fclose(f); return b[k]; }
static char* ts(ap_texpr0_t* e) { static char* b[4]; static size_t n[4]; static int k; k = (k + 1) % 4; if (b[k]) free(b[k]); FILE* f = open_memstream(&b[k], &n[k]); ap_texpr0_fprint(f, e, 0); fclose(f); return b[k]; }

/* ---- random objects ---- */
static void rnum(mpq_t q, int integer) { int d = integer || rint_(0, 2) ? 1 : 1 << rint_(1, 2); mpq_set_si(q, rint_(-7, 7), d); mpq_canonicalize(q); }
static co rcoef(int unit, int pint)
{
  co o; o.k = rint_(1, 100) <= pint; int k = rint_(0, 9);
  o.l = unit ? (rint_(0, 1) ? 1 : -1) : k < 5 ? (rint_(0, 1) ? 1 : -1) : k < 8 ? rint_(-3, 3) : rint_(-7, 7) / 4.;
  o.h = o.l; if (o.k) { o.h = o.l + rint_(0, 8) / 4.; if (!rint_(0, 7)) o.h = HUGE_VAL; else if (!rint_(0, 9)) o.l = -HUGE_VAL; }
  return o;
}
/* pint: percentage of interval coefficients */
static ap_linexpr0_t* rle(int n, int pint)
{
  int dense = rint_(0, 2) == 0, shape = rint_(0, 9), k;
  char use[DM] = {0};
  k = shape < 1 ? 0 : shape < 4 ? 1 : shape < 8 ? 2 : n; if (k > n) k = n;
  while (k) { int d = rint_(0, n - 1); if (!use[d]) { use[d] = 1; k--; } }
  int unit = rint_(0, 2) > 0;
  ap_linexpr0_t* e = ap_linexpr0_alloc(dense ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, dense ? n : 0);
  for (int d = 0; d < n; d++) if (use[d]) { co c = rcoef(unit, pint); ap_coeff_t* r = ap_linexpr0_coeffref(e, d); put_co(r, &c); }
  co c; c.k = rint_(1, 100) <= pint; c.l = c.h = rint_(0, 3) ? rint_(-8, 8) : rint_(-20, 20) / 4.; if (c.k) { c.h = c.l + rint_(0, 8) / 4.; if (!rint_(0, 9)) c.h = HUGE_VAL; if (!rint_(0, 9)) c.l = -HUGE_VAL; }
  put_co(&e->cst, &c);
  return e;
}
/* shift the constant so that the value at P0 is s above 0 (scalar expressions) */
static void through(ap_linexpr0_t* e, const pt* x, double s)
{
  xr L, H, c, d, t; xr_init(&L); xr_init(&H); xr_init(&c); xr_init(&d); xr_init(&t);
  evl(&L, &H, e, x);
  if (e->cst.discr == AP_COEFF_INTERVAL) {   /* put an end of the interval at s, or at 0, or on the other side */
    int up = rint_(0, 1); xr* w = up ? &H : &L;
    if (!w->inf) { ap_interval_t* b = e->cst.val.interval; rd_c(&c, &d, &e->cst); mpq_set_d(t.q, rint_(0, 1) ? 0 : s); mpq_sub(t.q, t.q, w->q);
      if (!c.inf) { mpq_add(c.q, c.q, t.q); put_s(b->inf, mpq_get_d(c.q)); } if (!d.inf) { mpq_add(d.q, d.q, t.q); put_s(b->sup, mpq_get_d(d.q)); } }
  }
  else if (!H.inf && !L.inf && e->cst.discr == AP_COEFF_SCALAR) { rd_c(&c, &d, &e->cst); mpq_sub(c.q, c.q, H.q); mpq_set_d(t.q, s); mpq_add(c.q, c.q, t.q); put_s(e->cst.val.scalar, mpq_get_d(c.q)); }
  xr_clear(&L); xr_clear(&H); xr_clear(&c); xr_clear(&d); xr_clear(&t);
}
static ap_lincons0_t rcons(int n, const pt* x, int pint, int kinds)
{
  ap_linexpr0_t* e = rle(n, pint); int k = rint_(0, 19); ap_constyp_t t = AP_CONS_SUPEQ; ap_scalar_t* m = 0;
  if (k < 3) t = AP_CONS_EQ; else if (k < 6) t = AP_CONS_SUP; else if (k == 6 && kinds) t = AP_CONS_DISEQ;
  else if (k == 7 && kinds) { t = AP_CONS_EQMOD; m = ap_scalar_alloc(); put_s(m, rint_(0, 4) ? rint_(2, 5) : rint_(0, 1)); }
  if (rint_(0, 9)) through(e, x, t == AP_CONS_EQ || t == AP_CONS_EQMOD ? 0 : rint_(t == AP_CONS_SUP, 12) / (rint_(0, 2) ? 1. : 4.));
  return ap_lincons0_make(t, e, m);
}
static ap_lincons0_array_t rarr(int n, const pt* x, int size, int pint, int kinds)
{ ap_lincons0_array_t a = ap_lincons0_array_make(size); for (int i = 0; i < size; i++) a.p[i] = rcons(n, x, pint, kinds); return a; }
static ap_interval_t** rbox(int n, const pt* x)
{
  ap_interval_t** t = ap_interval_array_alloc(n ? n : 1);
  for (int i = 0; i < n; i++) {
    double c = mpq_get_d(((pt*)x)->v[i]);
    put_s(t[i]->inf, rint_(0, 4) ? c - rint_(0, 12) / 4. : -HUGE_VAL); put_s(t[i]->sup, rint_(0, 4) ? c + rint_(0, 12) / 4. : HUGE_VAL);
  }
  return t;
}
static void rpt(pt* x) { for (int i = 0; i < nd; i++) rnum(x->v[i], i < id_); }
static void stir_n(ap_abstract0_t* a, int n)
{
  switch (rint_(0, 6)) {
  case 0: if (dom_nocanon) ap_abstract0_is_top(M, a); else ap_abstract0_canonicalize(M, a); break;
  case 1: if (!dom_nocanon) ap_abstract0_minimize(M, a); break;
  case 2: ap_abstract0_is_bottom(M, a); break;
  case 3: { ap_interval_t** t = ap_abstract0_to_box(M, a); ap_interval_array_free(t, n); break; }
  case 4: ap_abstract0_is_leq(M, a, a); break;
  default: break;
  }
}
static void stir(ap_abstract0_t* a) { stir_n(a, nd); }
/* a random value holding P0 (almost always) */
static ap_abstract0_t* rabs(const pt* x)
{
  int k = rint_(0, 19); ap_abstract0_t* a;
  if (k == 0) a = ap_abstract0_top(M, id_, nd - id_);
  else if (k == 1 && !rint_(0, 1)) a = ap_abstract0_bottom(M, id_, nd - id_);
  else if (k < 5) { ap_interval_t** t = rbox(nd, x); a = ap_abstract0_of_box(M, id_, nd - id_, t); ap_interval_array_free(t, nd); }
  else {
    ap_lincons0_array_t c = rarr(nd, x, rint_(1, nd + 2), 0, 0);
    if (k < 9) a = ap_abstract0_of_lincons_array(M, id_, nd - id_, &c);
    else {
      ap_interval_t** t = rbox(nd, x); ap_abstract0_t* b = ap_abstract0_of_box(M, id_, nd - id_, t); ap_interval_array_free(t, nd);
      if (k < 14) a = ap_abstract0_meet_lincons_array(M, true, b, &c);
      else { pt z; for (int i = 0; i < DM; i++) mpq_init(z.v[i]); rpt(&z); ap_lincons0_array_t c2 = rarr(nd, &z, rint_(1, nd + 2), 0, 0); a = ap_abstract0_of_lincons_array(M, id_, nd - id_, &c2); stir(a); stir(b); b = ap_abstract0_meet_lincons_array(M, true, b, &c);
        a = ap_abstract0_join(M, true, a, b); ap_abstract0_free(M, b); ap_lincons0_array_clear(&c2); for (int i = 0; i < DM; i++) mpq_clear(z.v[i]); }
    }
    ap_lincons0_array_clear(&c);
  }
  stir(a);
  return a;
}
/* points around P0: random moves, coordinates put on the bounds of a, combinations */
static void points(ap_abstract0_t* a)
{
  ap_abstract0_t* b = ap_abstract0_copy(M, a); ap_interval_t** t = ap_abstract0_to_box(M, b); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(M, b);
  xr L; xr_init(&L); mpq_t q; mpq_init(q);
  nP = 0;
  for (int k = 0; k < 70 && nP < NP; k++) {
    pt* x = &PT[nP]; int far = k % 5;
    if (nP && rint_(0, 1)) pt_set(x, &PT[rint_(0, nP - 1)]); else pt_set(x, &P0);
    if (k) for (int i = 0; i < nd; i++) {
      int m = rint_(0, 5);
      if (m < 2) { mpq_set_si(q, rint_(-6, 6), i < id_ || !far ? 1 : 4); mpq_canonicalize(q); mpq_add(x->v[i], x->v[i], q); }
      else if (m == 2) { rd_s(&L, rint_(0, 1) ? t[i]->inf : t[i]->sup); if (!L.inf && (i >= id_ || isint(L.q))) mpq_set(x->v[i], L.q); }
      else if (m == 3 && !rint_(0, 3)) { mpq_set_si(q, rint_(-40, 40), 1); mpq_add(x->v[i], x->v[i], q); }
    }
    IN[nP] = sata(&l, x);
    if (IN[nP] || k % 3 == 0) nP++;
  }
  ap_interval_array_free(t, nd); ap_lincons0_array_clear(&l); ap_abstract0_free(M, b); xr_clear(&L); mpq_clear(q);
}
static int same(ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t *c = ap_abstract0_copy(M, a), *d = ap_abstract0_copy(M, b); int r = ap_abstract0_is_eq(M, c, d); ap_abstract0_free(M, c); ap_abstract0_free(M, d); return r; }
/* run OP on a copy or on the value itself; A_ is the operand to pass, after that operand must denote what it did */
#define RUN(what, R, OP) ap_abstract0_t *A_ = ap_abstract0_copy(M, a), *R; int de_ = rint_(0, 1); n_cases++; doing("%s: %s", what, args); M->result.flag_exact = 0; R = OP; int ex_ = M->result.flag_exact; (void)ex_; \
  if (!de_) { if (!same(A_, a)) fail_(what, "%s: the operand changed from %s to %s", args, as(a), as(A_)); ap_abstract0_free(M, A_); }
#define DONE(R) ap_abstract0_free(M, R)
static void needs(const char* what, ap_lincons0_array_t* r, const pt* y, const pt* x, ap_abstract0_t* res)
{ if (!sata(r, y)) fail_(what, "%s: point %s (from %s) is lost, result %s", args, pt_s(y), pt_s(x), as(res)); }
static void dimchk(const char* what, ap_abstract0_t* r, int i, int n)
{ ap_dimension_t d = ap_abstract0_dimension(M, r); if ((int)d.intdim != i || (int)(d.intdim + d.realdim) != n) fail_(what, "%s: dimensions %zu,%zu of the result", args, d.intdim, d.realdim); }
static int scalar_only(ap_linexpr0_t* e) { return ap_linexpr0_is_linear(e); }

/* ---- constraints ---- */
static void op_meet(ap_abstract0_t* a)
{
  int kinds = 1; ap_lincons0_array_t c = rarr(nd, &P0, rint_(0, 3), rint_(0, 2) ? 0 : 30, kinds);
  snprintf(args, sizeof args, "%s with %s (%d integer of %d)", as(a), ls(&c), id_, nd);
  M->result.flag_exact = 0;
  RUN("meet with constraints", r, ap_abstract0_meet_lincons_array(M, de_, A_, &c));
  int ex = ex_;
  dimchk("meet with constraints", r, id_, nd); stir(r);
  ap_lincons0_array_t l = listof(r); int any = 0;
  for (int i = 0; i < nP; i++) {
    int want = IN[i] && sata(&c, &PT[i]), got = sata(&l, &PT[i]);
    if (want && !got) fail_("meet with constraints", "%s: point %s is lost, result %s", args, pt_s(&PT[i]), as(r));
    if (got && !IN[i]) fail_("meet with constraints", "%s: point %s of the result %s is not in the operand", args, pt_s(&PT[i]), as(r));
    if (got && !want && ex) fail_("meet with constraints", "%s: reported exact, but the point %s of the result violates a constraint", args, pt_s(&PT[i]));
    any |= want;
  }
  if (any && ap_abstract0_is_bottom(M, r)) fail_("meet with constraints", "%s: result reported empty", args);
  if (!ap_abstract0_is_leq(M, r, a)) fail_("meet with constraints", "%s: result %s not included in the operand", args, as(r));
  ap_lincons0_array_clear(&l); ap_lincons0_array_clear(&c); DONE(r);
}
static void op_sat(ap_abstract0_t* a)
{
  ap_lincons0_t c = rcons(nd, &P0, rint_(0, 2) ? 0 : 30, 1); ap_lincons0_array_t k = { &c, 1 };
  snprintf(args, sizeof args, "%s and %s (%d integer of %d)", as(a), ls(&k), id_, nd); doing("sat_lincons %s", args); n_cases++;
  M->result.flag_exact = 0;
  int r = ap_abstract0_sat_lincons(M, a, &c), ex = M->result.flag_exact;
  if (r) for (int i = 0; i < nP; i++) if (IN[i] && !sat1(&c, &PT[i])) fail_("sat_lincons", "%s: true, but the point %s violates it", args, pt_s(&PT[i]));
  if (dom_satchk) dom_satchk(a, &c, r);
  ap_lincons0_clear(&c);
}
/* ---- bounds ---- */
static void inside(const char* what, ap_interval_t* b, xr* L, xr* H, const pt* x)
{
  xr l, h; xr_init(&l); xr_init(&h); rd_s(&l, b->inf); rd_s(&h, b->sup);
  if (xr_cmp(&l, L) > 0 || xr_cmp(H, &h) > 0) fail_(what, "%s: [%s,%s] misses the value [%s,%s] at %s", args, xr_s(&l), xr_s(&h), xr_s(L), xr_s(H), pt_s(x));
  xr_clear(&l); xr_clear(&h);
}
static void op_bounds(ap_abstract0_t* a)
{
  xr L, H; xr_init(&L); xr_init(&H);
  ap_linexpr0_t* e = rle(nd, rint_(0, 2) ? 0 : 30); snprintf(args, sizeof args, "%s, expression %s (%d integer of %d)", as(a), es(e), id_, nd); doing("bound_linexpr %s", args); n_cases++;
  ap_interval_t* b = ap_abstract0_bound_linexpr(M, a, e); int bot = ap_abstract0_is_bottom(M, a);
  for (int i = 0; i < nP; i++) if (IN[i]) { evl(&L, &H, e, &PT[i]); inside("bound_linexpr", b, &L, &H, &PT[i]); }
  if (bot && !ap_interval_is_bottom(b)) fail_("bound_linexpr", "%s: not the empty interval for an empty value", args);
  if (!bot && dom_boundchk) dom_boundchk(a, e, b);
  ap_interval_free(b); ap_linexpr0_free(e);
  ap_interval_t** t = ap_abstract0_to_box(M, a);
  for (int d = 0; d < nd; d++) {
    snprintf(args, sizeof args, "%s, dimension %d (%d integer of %d)", as(a), d, id_, nd); doing("bound_dimension %s", args); n_cases++;
    b = ap_abstract0_bound_dimension(M, a, d);
    for (int i = 0; i < nP; i++) if (IN[i]) { L.inf = H.inf = 0; mpq_set(L.q, PT[i].v[d]); mpq_set(H.q, L.q); inside("bound_dimension", b, &L, &H, &PT[i]); inside("to_box", t[d], &L, &H, &PT[i]); }
    if (!ap_interval_equal(b, t[d])) fail_("to_box", "%s: to_box and bound_dimension differ", args);
    if (bot && !ap_interval_is_bottom(b)) fail_("bound_dimension", "%s: not empty for an empty value", args);
    /* the bounds are attained (or approached) when reported exact over real dimensions: shrinking them must exclude points */
    ap_interval_t* s = ap_interval_alloc(); ap_interval_set(s, b);
    int want = 1, how = rint_(0, 7);
    if (!bot) {
      rd_s(&L, b->inf); rd_s(&H, b->sup); xr q; xr_init(&q); xr_q(&q, 1, 4);
      if (how == 1 && !H.inf) { mpq_sub(H.q, H.q, q.q); ap_scalar_set_mpq(s->sup, H.q); want = 0; } else if (how == 2 && !L.inf) { mpq_add(L.q, L.q, q.q); ap_scalar_set_mpq(s->inf, L.q); want = 0; }
      else if (how == 3 && H.inf) { ap_scalar_set_double(s->sup, 100); want = 0; } else if (how == 4 && L.inf) { ap_scalar_set_double(s->inf, -100); want = 0; }
      else if (how == 6 && !L.inf) { ap_scalar_set(s->sup, s->inf); want = xr_cmp(&L, &H) == 0; } else if (how == 7 && !H.inf) { ap_scalar_set(s->inf, s->sup); want = xr_cmp(&L, &H) == 0; }
      else if (how == 5) { if (!H.inf) { mpq_add(H.q, H.q, q.q); ap_scalar_set_mpq(s->sup, H.q); } if (!L.inf) { mpq_sub(L.q, L.q, q.q); ap_scalar_set_mpq(s->inf, L.q); } }
      xr_clear(&q);
    }
    int r = ap_abstract0_sat_interval(M, a, d, s); n_cases++;
    if (r != want && (r || id_ == 0)) fail_("sat_interval", "%s: %d on the interval obtained from the bounds by change %d", args, r, how);
    ap_interval_free(s); ap_interval_free(b);
    int u = ap_abstract0_is_dimension_unconstrained(M, a, d);
    if (u && !bot) { ap_lincons0_array_t l = listof(a); pt y; for (int i = 0; i < DM; i++) mpq_init(y.v[i]);
      for (int i = 0; i < nP; i++) if (IN[i]) { pt_set(&y, &PT[i]); mpq_set_si(y.v[d], rint_(-900, 900), 1); if (!sata(&l, &y)) fail_("is_dimension_unconstrained", "%s: true, but %s is a point and %s is not", args, pt_s(&PT[i]), pt_s(&y)); }
      for (int i = 0; i < DM; i++) mpq_clear(y.v[i]); ap_lincons0_array_clear(&l); }
    if (!u && !bot) { ap_dim_t dd = d; ap_abstract0_t* f = ap_abstract0_forget_array(M, false, a, &dd, 1, false); if (same(f, a)) fail_("is_dimension_unconstrained", "%s: false, but forgetting it changes nothing", args); ap_abstract0_free(M, f); }
  }
  ap_interval_array_free(t, nd); xr_clear(&L); xr_clear(&H);
}
/* values of an expression with scalar coefficients over a box */
static void boxval(xr* L, xr* H, ap_linexpr0_t* e, ap_interval_t** t)
{
  size_t i; ap_dim_t d; ap_coeff_t* c; xr l, h, k, k2; xr_init(&l); xr_init(&h); xr_init(&k); xr_init(&k2);
  rd_c(L, H, &e->cst);
  ap_linexpr0_ForeachLinterm(e, i, d, c) {
    rd_c(&k, &k2, c); if (!xr_sgn(&k)) continue;
    rd_s(&l, t[d]->inf); rd_s(&h, t[d]->sup); xr_mul(&l, &l, &k); xr_mul(&h, &h, &k);
    if (xr_sgn(&k) > 0) { xr_add(L, L, &l); xr_add(H, H, &h); } else { xr_add(L, L, &h); xr_add(H, H, &l); }
  }
  xr_clear(&l); xr_clear(&h); xr_clear(&k); xr_clear(&k2);
}
static int itvin(ap_interval_t* b, xr* L, xr* H) { xr l, h; xr_init(&l); xr_init(&h); rd_s(&l, b->inf); rd_s(&h, b->sup); int r = xr_cmp(&l, &h) > 0 || (xr_cmp(&l, L) >= 0 && xr_cmp(&h, H) <= 0); xr_clear(&l); xr_clear(&h); return r; }
static int itvis(ap_interval_t* b, xr* L, xr* H) { xr l, h; xr_init(&l); xr_init(&h); rd_s(&l, b->inf); rd_s(&h, b->sup); int r = xr_cmp(&l, L) == 0 && xr_cmp(&h, H) == 0; xr_clear(&l); xr_clear(&h); return r; }
/* ---- assignments ---- */
static void vals(xr* v, xr* L, xr* H, int integer, int* ok)   /* some value in [L,H] */
{
  *ok = 1;
  if (L->inf > 0 || H->inf < 0) { *ok = 0; return; }
  int k = rint_(0, 2); v->inf = 0;
  if (k == 0 && !L->inf) mpq_set(v->q, L->q); else if (k == 1 && !H->inf) mpq_set(v->q, H->q);
  else if (!L->inf && !H->inf) { mpq_add(v->q, L->q, H->q); mpq_div_2exp(v->q, v->q, 1); }
  else if (!L->inf) { mpq_set_si(v->q, rint_(0, 9), 1); mpq_add(v->q, v->q, L->q); } else if (!H->inf) { mpq_set_si(v->q, -rint_(0, 9), 1); mpq_add(v->q, v->q, H->q); } else mpq_set_si(v->q, rint_(-9, 9), 1);
  if (integer && !isint(v->q)) { xr_round(v, v, -1); if (xr_cmp(v, L) < 0) xr_round(v, L, 1); if (xr_cmp(v, L) < 0 || xr_cmp(v, H) > 0) *ok = 0; }
}
static int rdims(ap_dim_t* t, int k) { char u[DM] = {0}; int n = 0; if (k > nd) k = nd; while (n < k) { int d = rint_(0, nd - 1); if (!u[d]) { u[d] = 1; t[n++] = d; } } return n; }
static char* asg(ap_dim_t* t, ap_linexpr0_t** e, int k) { static char b[4000]; char* p = b; for (int i = 0; i < k; i++) p += snprintf(p, 900, "%sx%u := %s", i ? ", " : "", t[i], es(e[i])); return b; }
static void op_assign(ap_abstract0_t* a, int subst)
{
  if (!nd) return;
  ap_dim_t t[DM]; ap_linexpr0_t* e[DM]; int k = rdims(t, rint_(0, 4) ? 1 : rint_(1, nd)), pint = rint_(0, 2) ? 0 : 30; const char* what = subst ? "substitution" : "assignment";
  for (int i = 0; i < k; i++) e[i] = rle(nd, pint);
  pt y, z; xr L, H, v; for (int i = 0; i < DM; i++) { mpq_init(y.v[i]); mpq_init(z.v[i]); } xr_init(&L); xr_init(&H); xr_init(&v);
  ap_abstract0_t* dest = 0;
  if (!rint_(0, 4)) dest = rabs(&P0);
  snprintf(args, sizeof args, "%s of %s on %s%s%s (%d integer of %d)", what, asg(t, e, k), as(a), dest ? " into " : "", dest ? as(dest) : "", id_, nd);
  M->result.flag_exact = 0;
  RUN(what, r, k == 1 && rint_(0, 1) ? (subst ? ap_abstract0_substitute_linexpr(M, de_, A_, t[0], e[0], dest) : ap_abstract0_assign_linexpr(M, de_, A_, t[0], e[0], dest))
      : (subst ? ap_abstract0_substitute_linexpr_array(M, de_, A_, t, e, k, dest) : ap_abstract0_assign_linexpr_array(M, de_, A_, t, e, k, dest)));
  int ex = ex_;
  dimchk(what, r, id_, nd); stir(r);
  ap_lincons0_array_t l = listof(r), la = listof(a), ld; if (dest) ld = listof(dest);
  for (int i = 0; i < nP; i++) for (int rep = 0; rep < (pint ? 3 : 1); rep++) {
    pt_set(&y, &PT[i]); int ok = 1;
    for (int j = 0; j < k && ok; j++) { evl(&L, &H, e[j], &PT[i]); vals(&v, &L, &H, (int)t[j] < id_, &ok); if (ok) mpq_set(y.v[t[j]], v.q); }
    if (!ok) continue;
    if (!subst) {
      if (IN[i] && (!dest || sata(&ld, &y))) needs(what, &l, &y, &PT[i], r);
    } else {
      int in = sata(&la, &y) && (!dest || sata(&ld, &PT[i])), got = sata(&l, &PT[i]);
      if (in && !got) fail_(what, "%s: %s is lost, its image %s is in the operand, result %s", args, pt_s(&PT[i]), pt_s(&y), as(r));
      if (!in && got && ex && !pint && !dest) fail_(what, "%s: reported exact, but %s is in the result %s and its image %s is not in the operand", args, pt_s(&PT[i]), as(r), pt_s(&y));
    }
    if (dest && sata(&l, &PT[i]) && !sata(&ld, &PT[i])) fail_(what, "%s: %s of the result %s is not in the destination", args, pt_s(&PT[i]), as(r));
  }
  if (ap_abstract0_is_bottom(M, a) && !ap_abstract0_is_bottom(M, r)) fail_(what, "%s: result %s of an empty value is not empty", args, as(r));
  if (dest && !ap_abstract0_is_leq(M, r, dest)) fail_(what, "%s: result %s exceeds the destination", args, as(r));
  if (!dest && !pint && dom_assignchk) dom_assignchk(what, a, t, e, k, r, subst, ex);
  ap_lincons0_array_clear(&l); ap_lincons0_array_clear(&la); if (dest) { ap_lincons0_array_clear(&ld); ap_abstract0_free(M, dest); }
  for (int i = 0; i < k; i++) ap_linexpr0_free(e[i]);
  for (int i = 0; i < DM; i++) { mpq_clear(y.v[i]); mpq_clear(z.v[i]); } xr_clear(&L); xr_clear(&H); xr_clear(&v); DONE(r);
}
/* ---- conversions ---- */
static void op_conv(ap_abstract0_t* a)
{
  snprintf(args, sizeof args, "%s (%d integer of %d)", as(a), id_, nd); doing("conversions of %s", args); n_cases++;
  ap_abstract0_t* b = ap_abstract0_copy(M, a); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(M, b);
  ap_abstract0_t* c = ap_abstract0_of_lincons_array(M, id_, nd - id_, &l);
  if (id_ == 0 ? !same(c, a) : !ap_abstract0_is_leq(M, c, a)) fail_("to_lincons_array", "%s: gives back %s", args, as(c));
  ap_abstract0_free(M, c); ap_lincons0_array_clear(&l);
  ap_interval_t** t = ap_abstract0_to_box(M, b); c = ap_abstract0_of_box(M, id_, nd - id_, t);
  if (nd && id_ == 0 && !ap_abstract0_is_leq(M, a, c)) fail_("of_box", "%s: not included in its bounding box %s", args, as(c));
  ap_interval_t** t2 = ap_abstract0_to_box(M, c);
  for (int d = 0; d < nd && id_ == 0; d++) if (!ap_interval_equal(t[d], t2[d])) fail_("of_box", "%s: bounds of dimension %d change on conversion", args, d);
  ap_interval_array_free(t2, nd); ap_interval_array_free(t, nd); ap_abstract0_free(M, c);
  ap_tcons0_array_t tc = ap_abstract0_to_tcons_array(M, b); c = ap_abstract0_of_tcons_array(M, id_, nd - id_, &tc);
  if (id_ == 0 && !ap_abstract0_is_leq(M, a, c)) fail_("to_tcons_array", "%s: gives back %s", args, as(c));
  ap_lincons0_array_t lc = listof(c);
  for (int i = 0; i < nP; i++) if (IN[i] && !sata(&lc, &PT[i])) fail_("to_tcons_array", "%s: gives back %s, which misses %s", args, as(c), pt_s(&PT[i]));
  ap_lincons0_array_clear(&lc);
  ap_tcons0_array_clear(&tc); ap_abstract0_free(M, c);
  for (int i = 0; i < nP; i++) if (IN[i]) { if (ap_abstract0_is_bottom(M, b)) fail_("is_bottom", "%s: reported empty, holds %s", args, pt_s(&PT[i])); break; }
  ap_abstract0_free(M, b);
}
static void op_gens(ap_abstract0_t* a)
{
  snprintf(args, sizeof args, "%s (%d integer of %d)", as(a), id_, nd); doing("generators of %s", args); n_cases++;
  ap_abstract0_t* b = ap_abstract0_copy(M, a); int bot = ap_abstract0_is_bottom(M, b);
  ap_generator0_array_t g = ap_abstract0_to_generator_array(M, b); ap_lincons0_array_t l = listof(a);
  pt y; for (int i = 0; i < DM; i++) mpq_init(y.v[i]); xr L, H; xr_init(&L); xr_init(&H); mpq_t q; mpq_init(q);
  if (bot && g.size) fail_("to_generator_array", "%s: an empty value has %zu generators", args, g.size);
  if (!bot && !g.size && nd) fail_("to_generator_array", "%s: no generator for a nonempty value", args);
  for (size_t i = 0; i < g.size && !bot; i++) for (int s = 0; s < 3; s++) {
    int k = g.p[i].gentyp; const pt* base = &P0; int ok = 0;
    if (k == AP_GEN_LINEMOD || k == AP_GEN_RAYMOD) continue;
    if (k == AP_GEN_VERTEX) { for (int d = 0; d < nd; d++) mpq_set_ui(y.v[d], 0, 1); ok = 1; }
    else { for (int j = 0; j < nP && !ok; j++) if (IN[j]) { base = &PT[j]; ok = 1; } pt_set(&y, base); }
    if (!ok) continue;
    mpq_set_si(q, k == AP_GEN_VERTEX ? 1 : k == AP_GEN_LINE ? rint_(-5, 5) : s * 3, 1);
    size_t ii; ap_dim_t d; ap_coeff_t* c;
    ap_linexpr0_ForeachLinterm(g.p[i].linexpr0, ii, d, c) { rd_c(&L, &H, c); if (L.inf || H.inf || xr_cmp(&L, &H)) { fail_("to_generator_array", "%s: interval coefficient", args); continue; } mpq_mul(L.q, L.q, q); mpq_add(y.v[d], y.v[d], L.q); }
    int in = 1; for (size_t j = 0; j < l.size; j++) { if (l.p[j].constyp == AP_CONS_SUP || l.p[j].constyp == AP_CONS_EQMOD) continue; if (!sat1(&l.p[j], &y)) in = 0; }
    if (!in) { char* s_; size_t n_; FILE* f = open_memstream(&s_, &n_); ap_generator0_fprint(f, &g.p[i], 0); fclose(f); fail_("to_generator_array", "%s: generator %s leads out of the value, to %s", args, s_, pt_s(&y)); free(s_); }
  }
  if (!bot && dom_genschk) dom_genschk(a, &g);
  ap_generator0_array_clear(&g); ap_lincons0_array_clear(&l); for (int i = 0; i < DM; i++) mpq_clear(y.v[i]); xr_clear(&L); xr_clear(&H); mpq_clear(q); ap_abstract0_free(M, b);
}
static void op_rays(ap_abstract0_t* a)
{
  if (!nd) return;
  int k = rint_(1, 3); ap_generator0_array_t g = ap_generator0_array_make(k); pt y; for (int i = 0; i < DM; i++) mpq_init(y.v[i]);
  mpq_t q, u; mpq_init(q); mpq_init(u); double c[3][DM];
  for (int i = 0; i < k; i++) {
    ap_linexpr0_t* e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0); int line = !rint_(0, 2);
    for (int d = 0; d < nd; d++) { c[i][d] = rint_(0, 1) ? rint_(-2, 2) : 0; if (c[i][d]) { co o = {0, c[i][d], c[i][d]}; put_co(ap_linexpr0_coeffref(e, d), &o); } }
    g.p[i] = ap_generator0_make(line ? AP_GEN_LINE : AP_GEN_RAY, e);
  }
  { char* s; size_t n; FILE* f = open_memstream(&s, &n); for (int i = 0; i < k; i++) { ap_generator0_fprint(f, &g.p[i], 0); fputc(' ', f); } fclose(f); snprintf(args, sizeof args, "%s and %s (%d integer of %d)", as(a), s, id_, nd); free(s); }
  RUN("add_ray_array", r, ap_abstract0_add_ray_array(M, de_, A_, &g));
  ap_lincons0_array_t l = listof(r);
  for (int i = 0; i < nP; i++) if (IN[i]) for (int s = 0; s < 3; s++) {
    pt_set(&y, &PT[i]);
    for (int j = 0; j < k; j++) { int m = rint_(0, 4); if (g.p[j].gentyp == AP_GEN_LINE) m -= 2; for (int d = 0; d < nd; d++) { mpq_set_d(q, c[j][d] * m); mpq_add(y.v[d], y.v[d], q); } }
    needs("add_ray_array", &l, &y, &PT[i], r);
  }
  if (dom_raychk) dom_raychk(a, &g, r);
  if (!ap_abstract0_is_leq(M, a, r)) fail_("add_ray_array", "%s: the operand is not included in %s", args, as(r));
  if (ap_abstract0_is_bottom(M, a) && !ap_abstract0_is_bottom(M, r)) fail_("add_ray_array", "%s: result %s of an empty value", args, as(r));
  ap_lincons0_array_clear(&l); ap_generator0_array_clear(&g); for (int i = 0; i < DM; i++) mpq_clear(y.v[i]); mpq_clear(q); mpq_clear(u); DONE(r);
}
/* ---- lattice ---- */
static void op_lattice(ap_abstract0_t* a)
{
  ap_abstract0_t* b = rint_(0, 5) ? rabs(&P0) : ap_abstract0_copy(M, a); ap_lincons0_array_t lb = listof(b), l;
  if (!rint_(0, 4)) { ap_lincons0_array_t c = rarr(nd, &P0, 1, 0, 0); ap_abstract0_free(M, b); b = ap_abstract0_meet_lincons_array(M, false, a, &c); ap_lincons0_array_clear(&c); ap_lincons0_array_clear(&lb); lb = listof(b); }
  stir(b);
  snprintf(args, sizeof args, "%s and %s (%d integer of %d)", as(a), as(b), id_, nd);
  int alias = rint_(0, 4) == 0;
  { RUN("meet", r, alias ? ap_abstract0_meet(M, false, A_, b) : ap_abstract0_meet(M, de_, A_, b)); if (alias && de_) ap_abstract0_free(M, A_);
    stir(r); l = listof(r);
    for (int i = 0; i < nP; i++) if (sata(&l, &PT[i]) != (IN[i] && sata(&lb, &PT[i]))) fail_("meet", "%s: %s is %sin the result %s", args, pt_s(&PT[i]), sata(&l, &PT[i]) ? "" : "not ", as(r));
    if (!ap_abstract0_is_leq(M, r, a) || !ap_abstract0_is_leq(M, r, b)) fail_("meet", "%s: result %s not included in the operands", args, as(r));
    ap_lincons0_array_clear(&l); DONE(r); }
  { RUN("join", r, ap_abstract0_join(M, de_, A_, b));
    stir(r); l = listof(r);
    for (int i = 0; i < nP; i++) if ((IN[i] || sata(&lb, &PT[i])) && !sata(&l, &PT[i])) fail_("join", "%s: %s is not in the result %s", args, pt_s(&PT[i]), as(r));
    if (!ap_abstract0_is_leq(M, a, r) || !ap_abstract0_is_leq(M, b, r)) fail_("join", "%s: the operands are not included in the result %s", args, as(r));
    ap_abstract0_t* w = ap_abstract0_widening(M, a, r); n_cases++;
    if (!ap_abstract0_is_leq(M, r, w)) fail_("widening", "%s: the join %s is not included in the widening %s", args, as(r), as(w));
    ap_lincons0_array_t lw = listof(w); for (int i = 0; i < nP; i++) if (sata(&l, &PT[i]) && !sata(&lw, &PT[i])) fail_("widening", "%s: %s of the join is not in %s", args, pt_s(&PT[i]), as(w));
    ap_lincons0_array_clear(&lw); ap_lincons0_array_t th = rarr(nd, &P0, rint_(0, 3), 0, 0); ap_abstract0_t* w2 = ap_abstract0_widening_threshold(M, a, r, &th);
    if (!ap_abstract0_is_leq(M, r, w2)) fail_("widening with thresholds", "%s: the join %s is not included in the widening %s with %s", args, as(r), as(w2), ls(&th));
    ap_lincons0_array_clear(&th); ap_abstract0_free(M, w2); ap_abstract0_free(M, w);
    ap_lincons0_array_clear(&l);
    ap_abstract0_t* t[3] = { a, b, a }; ap_abstract0_t* j = ap_abstract0_join_array(M, t, 3); if (!same(j, r)) fail_("join of an array", "%s: %s, not %s", args, as(j), as(r)); ap_abstract0_free(M, j);
    DONE(r); }
  { ap_abstract0_t* t[3] = { a, b, b }, *m = ap_abstract0_meet_array(M, t, 3), *m2 = ap_abstract0_meet(M, false, a, b); if (!same(m, m2)) fail_("meet of an array", "%s: %s, not %s", args, as(m), as(m2));
    int le = ap_abstract0_is_leq(M, a, b), e1 = ap_abstract0_is_eq(M, a, b); n_cases += 2;
    for (int i = 0; i < nP; i++) if (IN[i] && !sata(&lb, &PT[i]) && le) fail_("is_leq", "%s: true, but %s is only in the first", args, pt_s(&PT[i]));
    for (int i = 0; i < nP; i++) if (IN[i] != sata(&lb, &PT[i]) && e1) fail_("is_eq", "%s: true, but %s is only in one", args, pt_s(&PT[i]));
    if (id_ == 0 && le != same(m, a)) fail_("is_leq", "%s: %d, but the meet is %s", args, le, as(m));
    if (e1 != (le && ap_abstract0_is_leq(M, b, a))) fail_("is_eq", "%s: %d, not the two inclusions", args, e1);
    ap_abstract0_free(M, m); ap_abstract0_free(M, m2); }
  int bot = ap_abstract0_is_bottom(M, a), top = ap_abstract0_is_top(M, a); ap_abstract0_t *B = ap_abstract0_bottom(M, id_, nd - id_), *T = ap_abstract0_top(M, id_, nd - id_);
  if (bot != same(a, B)) fail_("is_bottom", "%s: %d", args, bot);
  if (top != same(a, T)) fail_("is_top", "%s: %d", args, top);
  if (top) for (int i = 0; i < nP; i++) if (!IN[i]) fail_("is_top", "%s: true, but %s is not in it", args, pt_s(&PT[i]));
  for (int i = 0; i < nP; i++) if (IN[i] && bot) fail_("is_bottom", "%s: true, but %s is in it", args, pt_s(&PT[i]));
  ap_abstract0_free(M, B); ap_abstract0_free(M, T); ap_abstract0_free(M, b); ap_lincons0_array_clear(&lb);
}
/* ---- change of dimensions; exact: whether points of the result must come from points of the operand ---- */
static void op_dims(ap_abstract0_t* a, int exact)
{
  pt y; for (int i = 0; i < DM; i++) mpq_init(y.v[i]); ap_lincons0_array_t la = listof(a), l; int nd0 = nd, id0 = id_;
  if (id_) exact = 0;
  snprintf(args, sizeof args, "%s (%d integer of %d)", as(a), id_, nd); char base[6000]; snprintf(base, sizeof base, "%s", args);
  { /* add */
    ap_dimchange_t c; int ai = rint_(0, 1), ar = rint_(0, 2), pr = rint_(0, 1), k = 0; ap_dimchange_init(&c, ai, ar);
    for (int i = 0; i < ai; i++) c.dim[k++] = rint_(0, id_);
    for (int i = 0; i < ar; i++) { int lo = i ? c.dim[k - 1] : id_; c.dim[k++] = rint_(lo, nd); }
    { char* p = args + strlen(args); for (int i = 0; i < k; i++) p += sprintf(p, " %c%u", i < ai ? 'i' : 'r', c.dim[i]); if (pr) sprintf(p, " projected"); }
    RUN("add_dimensions", r, ap_abstract0_add_dimensions(M, de_, A_, &c, pr)); dimchk("add_dimensions", r, id_ + ai, nd + k); stir_n(r, nd + k); nd = nd0 + k; id_ = id0 + ai; l = listof(r);
    for (int i = 0; i < nP; i++) for (int s = 0; s < 2; s++) {
      int o = 0, q = 0, z = 1; nd = nd0; for (int d = 0; d <= nd0; d++) { while (q < k && (int)c.dim[q] == d && !(d == id0 && q >= ai && 0)) { int v = pr && !s ? 0 : rint_(-5, 5); if (v) z = 0; mpq_set_si(y.v[o++], v, 1); q++; } if (d < nd0) mpq_set(y.v[o++], PT[i].v[d]); }
      nd = nd0 + k; int want = IN[i] && (!pr || z), got = sata(&l, &y);
      if (want != got) fail_("add_dimensions", "%s: %s is %sin the result %s", args, pt_s(&y), got ? "" : "not ", as(r)); }
    ap_lincons0_array_clear(&l);
    nd = nd0; id_ = id0; ap_dimchange_t c2; ap_dimchange_init(&c2, ai, ar); for (int i = 0; i < k; i++) c2.dim[i] = c.dim[i] + i;
    ap_abstract0_t* back = ap_abstract0_remove_dimensions(M, false, r, &c2); n_cases++; if (!same(back, a)) fail_("remove_dimensions", "%s: removing the added dimensions gives %s", args, as(back));
    ap_abstract0_free(M, back); ap_dimchange_clear(&c); ap_dimchange_clear(&c2); DONE(r); }
  if (nd) { /* remove */
    ap_dimchange_t c; char u[DM]; int k = 0, ki = 0, kr = 0; for (int d = 0; d < nd; d++) { u[d] = !rint_(0, 2); if (u[d]) { if (d < id_) ki++; else kr++; } }
    ap_dimchange_init(&c, ki, kr); snprintf(args, sizeof args, "%s removing", base); for (int d = 0; d < nd; d++) if (u[d]) { c.dim[k++] = d; sprintf(args + strlen(args), " x%d", d); }
    RUN("remove_dimensions", r, ap_abstract0_remove_dimensions(M, de_, A_, &c)); dimchk("remove_dimensions", r, id_ - ki, nd - k); l = listof(r);
    for (int i = 0; i < nP; i++) if (IN[i]) { int o = 0; for (int d = 0; d < nd; d++) if (!u[d]) mpq_set(y.v[o++], PT[i].v[d]); if (!sata(&l, &y)) fail_("remove_dimensions", "%s: the image of %s is lost", args, pt_s(&PT[i])); }
    ap_lincons0_array_clear(&l);
    ap_dim_t f[DM]; int m = 0; for (int d = 0; d < nd; d++) if (u[d]) f[m++] = d;
    ap_abstract0_t *fo = ap_abstract0_forget_array(M, false, a, f, m, false), *fp = ap_abstract0_forget_array(M, false, a, f, m, true); if (dom_projchk) dom_projchk(fp);
    ap_dimchange_t c2; ap_dimchange_init(&c2, ki, kr); for (int i = 0; i < k; i++) c2.dim[i] = c.dim[i] - i;
    ap_abstract0_t *ad = ap_abstract0_add_dimensions(M, false, r, &c2, false), *ap = ap_abstract0_add_dimensions(M, false, r, &c2, true);
    n_cases += 2;
    if (!same(fo, ad)) fail_("forget_array", "%s: forgetting gives %s and removing then adding gives %s", args, as(fo), as(ad));
    if (!same(fp, ap)) fail_("forget_array", "%s: projecting gives %s and removing then adding zeros gives %s", args, as(fp), as(ap));
    l = listof(fo);
    for (int i = 0; i < nP; i++) if (IN[i]) { pt_set(&y, &PT[i]); for (int d = 0; d < nd; d++) if (u[d]) mpq_set_si(y.v[d], rint_(-30, 30), 1); if (!sata(&l, &y)) fail_("forget_array", "%s: %s is not in the result", args, pt_s(&y)); }
    ap_lincons0_array_clear(&l); ap_abstract0_free(M, fo); ap_abstract0_free(M, fp); ap_abstract0_free(M, ad); ap_abstract0_free(M, ap); ap_dimchange_clear(&c2); ap_dimchange_clear(&c); DONE(r); }
  { /* permute */
    ap_dimperm_t p; ap_dimperm_init(&p, nd); ap_dimperm_set_id(&p); for (int i = 0; i < nd; i++) { int lo = i < id_ ? 0 : id_, hi = i < id_ ? id_ - 1 : nd - 1, j = rint_(lo, hi); ap_dim_t t = p.dim[i]; p.dim[i] = p.dim[j]; p.dim[j] = t; }
    snprintf(args, sizeof args, "%s permuted", base); for (int i = 0; i < nd; i++) sprintf(args + strlen(args), " %d>%u", i, p.dim[i]);
    RUN("permute_dimensions", r, ap_abstract0_permute_dimensions(M, de_, A_, &p)); dimchk("permute_dimensions", r, id_, nd); l = listof(r);
    for (int i = 0; i < nP; i++) { for (int d = 0; d < nd; d++) mpq_set(y.v[p.dim[d]], PT[i].v[d]); if (sata(&l, &y) != IN[i]) fail_("permute_dimensions", "%s: %s is %sin the result %s", args, pt_s(&y), IN[i] ? "not " : "", as(r)); }
    ap_lincons0_array_clear(&l); ap_dimperm_clear(&p); DONE(r); }
  if (nd) { /* expand */
    int d = rint_(0, nd - 1), n = rint_(0, 2), at = d < id_ ? id_ : nd; snprintf(args, sizeof args, "%s expanding x%d into %d more", base, d, n);
    RUN("expand", r, ap_abstract0_expand(M, de_, A_, d, n)); dimchk("expand", r, id_ + (d < id_ ? n : 0), nd + n); nd = nd0 + n; l = listof(r); nd = nd0; pt z; for (int i = 0; i < DM; i++) mpq_init(z.v[i]);
    for (int i = 0; i < nP; i++) {
      int in = IN[i], o = 0;
      for (int q = 0; q <= nd; q++) { if (q == at) for (int k = 0; k < n; k++) { pt_set(&z, &PT[i]); if (rint_(0, 1)) mpq_set(z.v[d], PT[rint_(0, nP - 1)].v[d]); in = in && sata(&la, &z); mpq_set(y.v[o++], z.v[d]); } if (q < nd) mpq_set(y.v[o++], PT[i].v[q]); }
      nd = nd0 + n; int got = sata(&l, &y); if (in && !got) fail_("expand", "%s: %s is lost, result %s", args, pt_s(&y), as(r)); if (got && !in && (exact || n == 0)) fail_("expand", "%s: %s should not be in the result %s", args, pt_s(&y), as(r)); nd = nd0; }
    for (int i = 0; i < DM; i++) mpq_clear(z.v[i]); ap_lincons0_array_clear(&l);
    /* folding back gives the value again (over the reals) */
    if (n && exact) { ap_dim_t t[4]; t[0] = d; for (int k = 0; k < n; k++) t[k + 1] = at + k; ap_abstract0_t* f = ap_abstract0_fold(M, false, r, t, n + 1); n_cases++; if (!same(f, a)) fail_("fold", "%s: folding back gives %s", args, as(f)); ap_abstract0_free(M, f); }
    DONE(r); }
  if (nd) { /* fold */
    ap_dim_t t[DM]; int k = 0, it = id_ && (id_ == nd || rint_(0, 1)), lo = it ? 0 : id_, hi = it ? id_ : nd; char u[DM] = {0};
    for (int d = lo; d < hi; d++) if (rint_(0, 1)) { t[k++] = d; u[d] = 1; } if (!k) { t[k++] = lo; u[lo] = 1; }
    snprintf(args, sizeof args, "%s folding", base); for (int i = 0; i < k; i++) sprintf(args + strlen(args), " x%u", t[i]);
    RUN("fold", r, ap_abstract0_fold(M, de_, A_, t, k)); dimchk("fold", r, id_ - (it ? k - 1 : 0), nd - k + 1); l = listof(r);
    for (int i = 0; i < nP; i++) if (IN[i]) for (int j = 0; j < k; j++) { int o = 0; for (int d = 0; d < nd; d++) if (d == (int)t[0]) mpq_set(y.v[o++], PT[i].v[t[j]]); else if (!u[d]) mpq_set(y.v[o++], PT[i].v[d]); nd = nd0 - k + 1; if (!sata(&l, &y)) fail_("fold", "%s: %s is lost, result %s", args, pt_s(&y), as(r)); nd = nd0; }
    ap_lincons0_array_clear(&l); DONE(r); }
  ap_lincons0_array_clear(&la); for (int i = 0; i < DM; i++) mpq_clear(y.v[i]);
}
static void d_init(int argc, char** argv, ap_manager_t* m)
{
  h_init(argc, argv); thor = getenv("REPLAY_TIER") && !strcmp(getenv("REPLAY_TIER"), "thorough"); M = m; mpq_init(one_); mpq_set_ui(one_, 1, 1);
  for (int d = 0; d < DM; d++) { mpq_init(P0.v[d]); for (int i = 0; i < NP; i++) mpq_init(PT[i].v[d]); }
  for (int k = 0; k < (int)AP_FUNID_SIZE; k++) { ap_funopt_t o = ap_manager_get_funopt(M, k); o.flag_exact_wanted = o.flag_best_wanted = false; ap_manager_set_funopt(M, k, &o); }
  for (int k = 0; k < (int)AP_EXC_SIZE; k++) ap_manager_set_abort_if_exception(M, k, true);
}
static void d_new(void) { nd = rint_(0, 9) ? rint_(1, DD) : rint_(0, 1) * DD; if (nd > 3 && rint_(0, 1)) nd -= 2; id_ = rint_(0, 2) ? 0 : rint_(0, nd); rpt(&P0); }
#endif
