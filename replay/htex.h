/* Tree expressions: random typed trees and their values, computed here on points with exact rationals (floating-point types
   through correctly rounded conversions at their precision). */
#ifndef HTEX_H
#define HTEX_H
#include "hdom.h"
#include "ap_linearize.h"
static int prec_[AP_RTYPE_SIZE] = {0, 0, 24, 53, 64, 113};
/* one of the values allowed by the rounding type and direction */
static void tround(mpq_t q, ap_texpr_rtype_t ty, ap_texpr_rdir_t dir)
{
  if (ty == AP_RTYPE_REAL) return;
  int up = 0, any = dir == AP_RDIR_RND ? rint_(0, 3) : (int)dir;
  if (ty == AP_RTYPE_INT) {
    if (isint(q)) return;
    mpz_t z; mpz_init(z); mpq_t h; mpq_init(h);
    if (any == AP_RDIR_UP) up = 1; else if (any == AP_RDIR_DOWN) up = 0; else if (any == AP_RDIR_ZERO) up = mpq_sgn(q) < 0;
    else { mpz_fdiv_q(z, mpq_numref(q), mpq_denref(q)); mpq_set_z(h, z); mpq_sub(h, q, h); mpq_mul_2exp(h, h, 1); int c = mpq_cmp_ui(h, 1, 1); up = c > 0 || (c == 0 && rint_(0, 1)); }
    if (up) mpz_cdiv_q(z, mpq_numref(q), mpq_denref(q)); else mpz_fdiv_q(z, mpq_numref(q), mpq_denref(q));
    mpq_set_z(q, z); mpz_clear(z); mpq_clear(h); return;
  }
  mpfr_t f; mpfr_init2(f, prec_[ty]); mpfr_set_q(f, q, (mpfr_rnd_t)any);
  if (mpfr_zero_p(f)) mpq_set_ui(q, 0, 1); else { mpz_t z; mpz_init(z); mpfr_exp_t x = mpfr_get_z_2exp(z, f); mpq_set_z(q, z); if (x >= 0) mpq_mul_2exp(q, q, x); else mpq_div_2exp(q, q, -x); mpz_clear(z); }
  mpfr_clear(f);
}
/* one of the values of the tree at a point; 0 when there is none (or none computed here) */
static int tev(ap_texpr0_t* e, const pt* x, mpq_t q)
{
  switch (e->discr) {
  case AP_TEXPR_DIM: mpq_set(q, ((pt*)x)->v[e->val.dim]); return 1;
  case AP_TEXPR_CST: {
    xr l, h; xr_init(&l); xr_init(&h); rd_c(&l, &h, &e->val.cst); int ok = 1, k = rint_(0, 2);
    if (xr_cmp(&l, &h) > 0) ok = 0;
    else if (l.inf && h.inf) mpq_set_si(q, rint_(-9, 9), 1);
    else if (l.inf) { mpq_set_si(q, -rint_(0, 9), 1); mpq_add(q, q, h.q); }
    else if (h.inf) { mpq_set_si(q, rint_(0, 9), 1); mpq_add(q, q, l.q); }
    else if (k == 0 || isint(l.q)) { mpq_set(q, l.q); if (isint(h.q) && rint_(0, 2)) { mpq_sub(q, h.q, l.q); if (mpq_cmp_ui(q, 9, 1) < 0) { int w = (int)mpq_get_d(q); mpq_set_si(q, rint_(0, w), 1); } mpq_add(q, q, l.q); } }
    else if (k == 1) mpq_set(q, h.q); else { mpq_add(q, l.q, h.q); mpq_div_2exp(q, q, 1); }
    xr_clear(&l); xr_clear(&h); return ok; }
  default: break;
  }
  ap_texpr0_node_t* n = e->val.node; mpq_t a, b; mpq_init(a); mpq_init(b); int ok = tev(n->exprA, x, a), rnd = 1;
  if (ok && n->exprB) ok = tev(n->exprB, x, b);
  if (ok) switch (n->op) {
  case AP_TEXPR_ADD: mpq_add(q, a, b); break;
  case AP_TEXPR_SUB: mpq_sub(q, a, b); break;
  case AP_TEXPR_MUL: mpq_mul(q, a, b); break;
  case AP_TEXPR_DIV: if (!mpq_sgn(b)) ok = 0; else mpq_div(q, a, b); break;
  case AP_TEXPR_MOD: if (!mpq_sgn(b)) { ok = 0; break; } { mpq_t k; mpq_init(k); mpz_t z; mpz_init(z); mpq_div(k, a, b); mpz_tdiv_q(z, mpq_numref(k), mpq_denref(k)); mpq_set_z(k, z); mpq_mul(k, k, b); mpq_sub(q, a, k); mpq_clear(k); mpz_clear(z); } rnd = 0; break;
  case AP_TEXPR_POW: if (!isint(b) || mpq_sgn(b) < 0 || mpq_cmp_ui(b, 6, 1) > 0) { ok = 0; break; } { int k = (int)mpz_get_si(mpq_numref(b)); mpq_set_ui(q, 1, 1); while (k--) mpq_mul(q, q, a); } break;
  case AP_TEXPR_NEG: mpq_neg(q, a); rnd = 0; break;
  case AP_TEXPR_CAST: mpq_set(q, a); break;
  case AP_TEXPR_SQRT: if (mpq_sgn(a) < 0 || !mpz_perfect_square_p(mpq_numref(a)) || !mpz_perfect_square_p(mpq_denref(a))) { ok = 0; break; } { mpz_t z; mpz_init(z); mpz_sqrt(z, mpq_numref(a)); mpz_sqrt(mpq_denref(q), mpq_denref(a)); mpz_set(mpq_numref(q), z); mpq_canonicalize(q); mpz_clear(z); } break;
  default: ok = 0;
  }
  if (ok && rnd) tround(q, n->type, n->dir);
  if (ok && mpz_sizeinbase(mpq_numref(q), 2) + mpz_sizeinbase(mpq_denref(q), 2) > 900) ok = 0;
  mpq_clear(a); mpq_clear(b); return ok;
}
/* has one value at each point */
static int tdet(ap_texpr0_t* e)
{
  if (e->discr == AP_TEXPR_DIM) return 1;
  if (e->discr == AP_TEXPR_CST) return e->val.cst.discr == AP_COEFF_SCALAR;
  return (e->val.node->type == AP_RTYPE_REAL) && tdet(e->val.node->exprA) && (!e->val.node->exprB || tdet(e->val.node->exprB));
}
static ap_texpr_rdir_t rdir(void) { return (ap_texpr_rdir_t)rint_(0, AP_RDIR_SIZE - 1); }
static ap_texpr0_t* tcst(double l, double h) { ap_texpr0_t* e = ap_texpr0_cst_scalar_int(0); co c = {l != h, l, h}; if (l == h && !rint_(0, 9)) c.k = 1; put_co(&e->val.cst, &c); return e; }
static int t_flo;                  /* floating-point nodes allowed */
static ap_texpr0_t* rtx(int n, int ni, int depth, int integer, int pint)
{
  if (depth <= 0 || !rint_(0, 7)) {
    int lim = integer ? ni : n;
    if (lim && rint_(0, 9) < 7) return ap_texpr0_dim(rint_(0, lim - 1));
    double l = rint_(0, 3) ? rint_(-5, 5) : rint_(-12, 12), h; if (!integer && !rint_(0, 3)) l /= 4; h = l;
    if (rint_(1, 100) <= pint) { h = l + rint_(0, 6) / (integer ? 1. : rint_(0, 1) ? 2. : 1.); if (!integer && !rint_(0, 6)) h = HUGE_VAL; if (!integer && !rint_(0, 6)) l = -HUGE_VAL; }
    return tcst(l, h);
  }
  int k = rint_(0, 19); ap_texpr_rtype_t ty = integer ? AP_RTYPE_INT : !t_flo || rint_(0, 2) ? AP_RTYPE_REAL : (ap_texpr_rtype_t)rint_(AP_RTYPE_SINGLE, AP_RTYPE_QUAD);
  if (!integer && ni && !rint_(0, 11)) return rtx(n, ni, depth, 1, pint);
  if (integer && t_flo && k == 19) return ap_texpr0_unop(AP_TEXPR_CAST, rtx(n, ni, depth - 1, 0, pint), AP_RTYPE_INT, rdir());
  if (integer && !t_flo && (k == 11 || k == 12)) k = 0;    /* division rounds */
  switch (k) {
  case 0: case 1: case 2: case 3: return ap_texpr0_binop(AP_TEXPR_ADD, rtx(n, ni, depth - 1, integer, pint), rtx(n, ni, depth - 1, integer, pint), ty, rdir());
  case 4: case 5: case 6: return ap_texpr0_binop(AP_TEXPR_SUB, rtx(n, ni, depth - 1, integer, pint), rtx(n, ni, depth - 1, integer, pint), ty, rdir());
  case 7: return ap_texpr0_binop(AP_TEXPR_MUL, rtx(n, ni, depth - 1, integer, pint), rtx(n, ni, depth - 1, integer, pint), ty, rdir());
  case 8: case 9: case 10: { ap_texpr0_t *a = rtx(n, ni, depth - 1, integer, pint), *c = tcst(rint_(-3, 3), 0); co z = {0, rint_(-3, 3), 0}; z.h = z.l; put_co(&c->val.cst, &z); return rint_(0, 1) ? ap_texpr0_binop(AP_TEXPR_MUL, a, c, ty, rdir()) : ap_texpr0_binop(AP_TEXPR_MUL, c, a, ty, rdir()); }
  case 11: return ap_texpr0_binop(AP_TEXPR_DIV, rtx(n, ni, depth - 1, integer, pint), rtx(n, ni, depth - 2, integer, pint), ty, rdir());
  case 12: { ap_texpr0_t* c = tcst(0, 0); co z = {0, rint_(1, 5) * (rint_(0, 2) ? 1 : -1), 0}; z.h = z.l; put_co(&c->val.cst, &z); return ap_texpr0_binop(AP_TEXPR_DIV, rtx(n, ni, depth - 1, integer, pint), c, ty, rdir()); }
  case 13: case 14: return ap_texpr0_unop(AP_TEXPR_NEG, rtx(n, ni, depth - 1, integer, pint), ty, rdir());
  case 15: return ap_texpr0_binop(AP_TEXPR_MOD, rtx(n, ni, depth - 1, integer, pint), rint_(0, 1) ? rtx(n, ni, 0, integer, pint) : ap_texpr0_cst_scalar_int(rint_(1, 7) * (rint_(0, 3) ? 1 : -1)), ty, rdir());
  case 16: return ap_texpr0_binop(AP_TEXPR_POW, rtx(n, ni, depth - 1, integer, pint), ap_texpr0_cst_scalar_int(rint_(0, 4)), ty, rdir());
  case 17: { ap_texpr0_t* a = rtx(n, ni, depth - 2, integer, 0); return ap_texpr0_unop(AP_TEXPR_SQRT, ap_texpr0_binop(AP_TEXPR_MUL, a, ap_texpr0_copy(a), integer ? AP_RTYPE_INT : AP_RTYPE_REAL, rdir()), ty, rdir()); }
  default: return ap_texpr0_unop(AP_TEXPR_CAST, rtx(n, ni, depth - 1, integer, pint), ty, rdir());
  }
}
static ap_texpr0_t* rtree(int integer) { t_flo = !rint_(0, 2); return rtx(nd, id_, rint_(0, 3), integer, rint_(0, 1) ? 0 : 25); }
/* constraints; mostly satisfied at x */
static ap_tcons0_t rtcons(const pt* x)
{
  ap_texpr0_t* e = rtree(0); int k = rint_(0, 19); ap_constyp_t t = AP_CONS_SUPEQ; ap_scalar_t* m = 0; mpq_t q; mpq_init(q);
  if (k < 4) t = AP_CONS_EQ; else if (k < 7) t = AP_CONS_SUP; else if (k == 7) t = AP_CONS_DISEQ;
  else if (k == 8) { t = AP_CONS_EQMOD; m = ap_scalar_alloc(); put_s(m, rint_(0, 4) ? rint_(2, 5) : rint_(0, 1)); }
  if (rint_(0, 9) && tev(e, x, q)) {
    double v = mpq_get_d(q), s = t == AP_CONS_EQ || t == AP_CONS_EQMOD ? 0 : rint_(t == AP_CONS_SUP, 12) / (rint_(0, 2) ? 1. : 4.);
    mpq_t w; mpq_init(w); mpq_set_d(w, v);
    if (mpq_equal(w, q) && fabs(v) < 1e6) { if (v - s != 0 || rint_(0, 1)) e = ap_texpr0_binop(AP_TEXPR_SUB, e, ap_texpr0_cst_scalar_double(v - s), AP_RTYPE_REAL, AP_RDIR_RND); }
    mpq_clear(w);
  }
  mpq_clear(q); return ap_tcons0_make(t, e, m);
}
static char* tls(ap_tcons0_array_t* a) { static char* b[3]; static size_t n[3]; static int k; k = (k + 1) % 3; if (b[k]) free(b[k]); FILE* f = open_memstream(&b[k], &n[k]); for (size_t i = 0; i < a->size; i++) { if (i) fprintf(f, ", "); ap_tcons0_fprint(f, &a->p[i], 0); if (ftell(f) > 2400) break; } fclose(f); return b[k]; }
/* 1 satisfied for some value found, 0 violated for the values found, -1 no value */
static int tsat1(ap_tcons0_t* c, const pt* x, int tries)
{
  int r = -1; mpq_t q; mpq_init(q); xr v; xr_init(&v); int det = tdet(c->texpr0);
  for (int i = 0; i < (det ? 1 : tries) && r != 1; i++) if (tev(c->texpr0, x, v.q)) r = ctyp(c->constyp, c->scalar, &v, &v) ? 1 : 0;
  mpq_clear(q); xr_clear(&v); return r;
}
#endif
