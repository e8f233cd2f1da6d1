#include "h.h"
#include "itv_linexpr.h"
/* every interval operation on a pool of intervals (all pairs, all aliasings of the result) */
typedef struct { xr l, u; } xi;                 /* [l,u] */
static void xi_init(xi* a) { xr_init(&a->l); xr_init(&a->u); }
static void xi_set(xi* a, const xi* b) { xr_set(&a->l, &b->l); xr_set(&a->u, &b->u); }
static int xi_empty(const xi* a) { return xr_cmp(&a->l, &a->u) > 0; }
static int xi_eq(const xi* a, const xi* b) { return !xr_cmp(&a->l, &b->l) && !xr_cmp(&a->u, &b->u); }
static const char* xi_s(const xi* a) { static char b[8][600]; static int k; k = (k + 1) & 7; snprintf(b[k], 600, "[%s,%s]", xr_s(&a->l), xr_s(&a->u)); return b[k]; }
static void i_of(itv_t a, const xi* x) { xr t; xr_init(&t); xr_neg(&t, &x->l); b_of(a->inf, &t); b_of(a->sup, &x->u); xr_clear(&t); }
static void i_to(xi* x, itv_t a) { xr t; xr_init(&t); b_to(&t, a->inf); xr_neg(&x->l, &t); b_to(&x->u, a->sup); xr_clear(&t); }
static int xi_mem(const xr* p, const xi* a) { return xr_cmp(&a->l, p) <= 0 && xr_cmp(p, &a->u) <= 0; }
static void upd(xi* h, int* first, const xr* v) { if (*first || xr_cmp(v, &h->l) < 0) xr_set(&h->l, v); if (*first || xr_cmp(v, &h->u) > 0) xr_set(&h->u, v); *first = 0; }
static xi P[400]; static int np;
static void mk(long a, long b, long c, long d) { xi_init(&P[np]); if (b) xr_q(&P[np].l, a, b); else xr_inf(&P[np].l, -1); if (d) xr_q(&P[np].u, c, d); else xr_inf(&P[np].u, 1); np++; }
static void pool(void)
{
  long v[][2] = {{-5,1},{-3,2},{-1,1},{-1,3},{0,1},{1,3},{1,1},{3,2},{4,1}};
  int n = 9;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) mk(v[i][0], v[i][1], v[j][0], v[j][1]);
  for (int i = 0; i < n; i++) { mk(v[i][0], v[i][1], 0, 0); mk(0, 0, v[i][0], v[i][1]); }
  mk(0, 0, 0, 0);
  for (int i = 0; i < 15; i++) { int a = rint_(-60, 60), d = rint_(1, 7); mk(a, d, a + rint_(0, 40), d); }
}
static void eqi(const char* what, itv_t r, const xi* e, const xi* a, const xi* b)
{
  n_cases++; xi g; xi_init(&g);
  if (!b_wf(r->inf) || !b_wf(r->sup)) { fail_(what, "%s %s: bound not in lowest terms", xi_s(a), b ? xi_s(b) : ""); return; }
  i_to(&g, r);
  if (!xi_eq(&g, e)) fail_(what, "operands %s %s: got %s expected %s", xi_s(a), b ? xi_s(b) : "", xi_s(&g), xi_s(e));
}
static xr PT[64]; static int npt;
int main(int argc, char** argv)
{
  h_init(argc, argv); pool();
  itv_internal_t* in = itv_internal_alloc();
  itv_t a, b, r; itv_init(a); itv_init(b); itv_init(r);
  num_t c; num_init(c); bound_t bc; bound_init(bc);
  xi e, g, em; xi_init(&e); xi_init(&g); xi_init(&em); xr t, s; xr_init(&t); xr_init(&s);
  xr_q(&em.l, 1, 1); xr_q(&em.u, -1, 1);
  long pv[][2] = {{-6,1},{-5,1},{-9,2},{-2,1},{-3,2},{-1,1},{-1,2},{-1,3},{0,1},{1,3},{1,2},{1,1},{3,2},{2,1},{5,2},{7,2},{4,1},{9,2},{5,1},{11,2}};
  for (int i = 0; i < 20; i++) { xr_init(&PT[npt]); xr_q(&PT[npt++], pv[i][0], pv[i][1]); }
  xr inv_l, inv_u; xr_init(&inv_l); xr_init(&inv_u);
  for (int i = 0; i < np; i++) {
    const xi* x = &P[i];
    doing("unary interval operations on %s", xi_s(x));
#define UN(op, EXP) do { i_of(a, x); itv_##op(r, a); EXP; eqi(#op, r, &e, x, 0); i_of(a, x); itv_##op(a, a); eqi(#op " (in place)", a, &e, x, 0); } while (0)
    UN(set, xi_set(&e, x));
    UN(neg, (xr_neg(&e.l, &x->u), xr_neg(&e.u, &x->l)));
    UN(abs, (xi_set(&e, x), xr_sgn(&x->l) >= 0 ? (void)0 : xr_sgn(&x->u) <= 0 ? (xr_neg(&e.l, &x->u), xr_neg(&e.u, &x->l)) :
         (xr_neg(&t, &x->l), xr_q(&e.l, 0, 1), xr_cmp(&t, &x->u) > 0 ? xr_set(&e.u, &t) : (void)0)));
    UN(ceil, (xr_round(&e.l, &x->l, 1), xr_round(&e.u, &x->u, 1)));
    UN(floor, (xr_round(&e.l, &x->l, -1), xr_round(&e.u, &x->u, -1)));
    UN(trunc, (xr_round(&e.l, &x->l, 0), xr_round(&e.u, &x->u, 0)));
    UN(to_int, (xr_round(&e.l, &x->l, -1), xr_round(&e.u, &x->u, 1)));
    for (int k = -2; k <= 2; k++) { i_of(a, x); itv_mul_2exp(r, a, k); xi_set(&e, x);
      if (!e.l.inf) { if (k >= 0) mpq_mul_2exp(e.l.q, e.l.q, k); else mpq_div_2exp(e.l.q, e.l.q, -k); }
      if (!e.u.inf) { if (k >= 0) mpq_mul_2exp(e.u.q, e.u.q, k); else mpq_div_2exp(e.u.q, e.u.q, -k); }
      eqi("mul_2exp", r, &e, x, 0); }
    /* inverse roundings */
    for (int k = 0; k < npt; k++) for (int m = -1; m <= 1; m++) {
      xr_round(&s, &PT[k], m);
      if (!xi_mem(&s, x)) continue;
      i_of(a, x);
      if (m == 1) itv_unceil(r, a); else if (m == -1) itv_unfloor(r, a); else itv_untrunc(r, a);
      i_to(&g, r); n_cases++;
      if (!xi_mem(&PT[k], &g)) fail_(m == 1 ? "unceil" : m == -1 ? "unfloor" : "untrunc", "%s: %s rounds to %s in the operand, but the result is %s", xi_s(x), xr_s(&PT[k]), xr_s(&s), xi_s(&g));
      i_of(a, x); itv_from_int(r, a); i_to(&g, r);
      if (m && !xi_mem(&PT[k], &g)) fail_("from_int", "%s: %s rounds to %s in the operand, but the result is %s", xi_s(x), xr_s(&PT[k]), xr_s(&s), xi_s(&g));
    }
    i_of(a, x); int pt = xr_cmp(&x->l, &x->u) == 0 && !x->l.inf;
    if (!!itv_is_point(in, a) != pt) fail_("is_point", "%s", xi_s(x));
    if (!!itv_is_top(a) != (x->l.inf && x->u.inf)) fail_("is_top", "%s", xi_s(x));
    if (!!itv_is_bottom(in, a)) fail_("is_bottom", "%s", xi_s(x));
    if (!!itv_is_zero(a) != (!x->l.inf && !x->u.inf && !xr_sgn(&x->l) && !xr_sgn(&x->u))) fail_("is_zero", "%s", xi_s(x));
    if (!!itv_is_pos(a) != (xr_sgn(&x->l) >= 0)) fail_("is_pos", "%s", xi_s(x));
    if (!!itv_is_neg(a) != (xr_sgn(&x->u) <= 0)) fail_("is_neg", "%s", xi_s(x));
    if (!!itv_is_int(in, a) != ((x->l.inf || xr_int(&x->l)) && (x->u.inf || xr_int(&x->u)))) fail_("is_int", "%s", xi_s(x));
    itv_range_abs(bc, a); xr_neg(&t, &x->l); xr_add(&t, &x->u, &t); b_to(&s, bc); if (xr_cmp(&s, &t)) fail_("range", "%s: %s", xi_s(x), xr_s(&s));
    itv_magnitude(bc, a); xr_neg(&t, &x->l); if (xr_cmp(&t, &x->u) < 0) xr_set(&t, &x->u); b_to(&s, bc); if (xr_cmp(&s, &t)) fail_("magnitude", "%s: %s", xi_s(x), xr_s(&s));
    for (int k = 0; k < 2; k++) {
      i_of(a, x); int bot = itv_canonicalize(in, a, k); xi_set(&e, x);
      if (k) { xr_round(&e.l, &x->l, 1); xr_round(&e.u, &x->u, -1); }
      if (!!bot != xi_empty(&e)) fail_("canonicalize", "%s integer=%d: returned %d", xi_s(x), k, bot);
      if (!bot) eqi("canonicalize", a, &e, x, 0);
    }
    for (int k = 0; k < npt; k++) {
      doing("interval %s with scalar %s", xi_s(x), xr_s(&PT[k]));
      mpq_set(*(mpq_t*)c, PT[k].q); xr_neg(&t, &PT[k]);
#define SC(op, EXP) do { EXP; i_of(a, x); itv_##op##_num(r, a, c); eqi(#op "_num", r, &e, x, 0); i_of(a, x); itv_##op##_num(a, a, c); eqi(#op "_num in place", a, &e, x, 0); \
   bound_set_num(bc, c); i_of(a, x); itv_##op##_bound(r, a, bc); eqi(#op "_bound", r, &e, x, 0); b_to(&s, bc); if (xr_cmp(&s, &PT[k])) fail_(#op "_bound changes its scalar", "%s", xr_s(&PT[k])); } while (0)
      SC(add, (xr_add(&e.l, &x->l, &PT[k]), xr_add(&e.u, &x->u, &PT[k])));
      SC(sub, (xr_add(&e.l, &x->l, &t), xr_add(&e.u, &x->u, &t)));
      SC(mul, (xr_mul(&e.l, xr_sgn(&PT[k]) >= 0 ? &x->l : &x->u, &PT[k]), xr_mul(&e.u, xr_sgn(&PT[k]) >= 0 ? &x->u : &x->l, &PT[k])));
      if (xr_sgn(&PT[k])) SC(div, (xr_div(&e.l, xr_sgn(&PT[k]) >= 0 ? &x->l : &x->u, &PT[k]), xr_div(&e.u, xr_sgn(&PT[k]) >= 0 ? &x->u : &x->l, &PT[k])));
    }
    for (int j = 0; j < np; j++) {
      const xi* y = &P[j];
      doing("binary interval operations on %s and %s", xi_s(x), xi_s(y));
#define BINX(op, call, calla, callb, ACC) do { int first = 1; const xr* ex[2] = {&x->l, &x->u}; const xr* ey[2] = {&y->l, &y->u}; \
    for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) { ACC; upd(&e, &first, &t); } \
    i_of(a, x); i_of(b, y); call; eqi(op, r, &e, x, y); i_of(a, x); i_of(b, y); calla; eqi(op " (first operand overwritten)", a, &e, x, y); \
    callb } while (0)
      BINX("add", itv_add(r, a, b), itv_add(a, a, b), i_of(a, x); i_of(b, y); itv_add(b, a, b); eqi("add (second operand overwritten)", b, &e, x, y);, (p == q ? xr_add(&t, ex[p], ey[q]) : xr_add(&t, ex[p], ey[p])));
      BINX("mul", itv_mul(in, r, a, b), itv_mul(in, a, a, b), i_of(a, x); i_of(b, y); itv_mul(in, b, a, b); eqi("mul (second operand overwritten)", b, &e, x, y);, xr_mul(&t, ex[p], ey[q]));
      xr_neg(&t, &y->u); xr_add(&e.l, &x->l, &t); xr_neg(&t, &y->l); xr_add(&e.u, &x->u, &t);
      i_of(a, x); i_of(b, y); itv_sub(r, a, b); eqi("sub", r, &e, x, y);
      i_of(a, x); i_of(b, y); itv_sub(b, a, b); eqi("sub (second operand overwritten)", b, &e, x, y);
      i_of(a, x); i_of(b, y); itv_sub(a, a, b); eqi("sub (first operand overwritten)", a, &e, x, y);
      if (xr_sgn(&y->l) > 0 || xr_sgn(&y->u) < 0) BINX("div", itv_div(in, r, a, b), itv_div(in, a, a, b), (void)0;, xr_div(&t, ex[p], ey[q]));
      else { i_of(a, x); i_of(b, y); itv_div(in, r, a, b); i_to(&g, r);
        for (int p = 0; p < npt; p++) for (int q = 0; q < npt; q++) if (xr_sgn(&PT[q]) && xi_mem(&PT[p], x) && xi_mem(&PT[q], y)) {
          xr_div(&t, &PT[p], &PT[q]); n_cases++; if (!xi_mem(&t, &g)) { fail_("div", "%s / %s: %s/%s is not in %s", xi_s(x), xi_s(y), xr_s(&PT[p]), xr_s(&PT[q]), xi_s(&g)); p = q = npt; } } }
      /* lattice */
      xr_set(&e.l, xr_cmp(&x->l, &y->l) >= 0 ? &x->l : &y->l); xr_set(&e.u, xr_cmp(&x->u, &y->u) <= 0 ? &x->u : &y->u);
      i_of(a, x); i_of(b, y); int bot = itv_meet(in, r, a, b);
      if (!!bot != xi_empty(&e)) fail_("meet", "%s %s returned %d", xi_s(x), xi_s(y), bot);
      if (!bot) eqi("meet", r, &e, x, y);
      i_of(a, x); i_of(b, y); itv_meet(in, a, a, b); if (!bot) eqi("meet in place", a, &e, x, y);
      xr_set(&e.l, xr_cmp(&x->l, &y->l) <= 0 ? &x->l : &y->l); xr_set(&e.u, xr_cmp(&x->u, &y->u) >= 0 ? &x->u : &y->u);
      i_of(a, x); i_of(b, y); itv_join(r, a, b); eqi("join", r, &e, x, y); itv_join(a, a, b); eqi("join in place", a, &e, x, y);
      xr_set(&e.l, &x->l); if (xr_cmp(&y->l, &x->l) < 0) xr_inf(&e.l, -1); xr_set(&e.u, &x->u); if (xr_cmp(&y->u, &x->u) > 0) xr_inf(&e.u, 1);
      i_of(a, x); i_of(b, y); itv_widening(r, a, b); eqi("widening", r, &e, x, y);
      i_of(a, x); i_of(b, y);
      int le = xr_cmp(&y->l, &x->l) <= 0 && xr_cmp(&x->u, &y->u) <= 0;
      if (!!itv_is_leq(a, b) != le) fail_("is_leq", "%s %s", xi_s(x), xi_s(y));
      if (!!itv_is_eq(a, b) != xi_eq(x, y)) fail_("is_eq", "%s %s", xi_s(x), xi_s(y));
    }
    i_of(a, x); itv_set_bottom(b); itv_join(r, a, b); eqi("join with empty", r, x, x, 0); itv_join(r, b, a); eqi("join with empty", r, x, x, 0);
    itv_widening(r, b, a); eqi("widening from empty", r, x, x, 0);
    if (!itv_is_leq(b, a)) fail_("is_leq", "empty in %s", xi_s(x));
    if (!itv_is_bottom(in, b)) fail_("is_bottom", "canonical empty interval");
  }
  return h_done();
}
