/* Oracle boxes: arrays of extended-rational intervals, and conversion to and from the library's boxes. */
#ifndef HBOX_H
#define HBOX_H
#include "h.h"
#include "box_internal.h"
#include "box_representation.h"
#include "box_constructor.h"
#include "box_meetjoin.h"
#include "box_assign.h"
#include "box_resize.h"
#include "box_otherops.h"
#include "box.h"
#define MAXD 12
typedef struct { xr l, u; } xi;
typedef struct { int i, r, bot; xi v[MAXD]; } ob;
static void xi_init(xi* a) { xr_init(&a->l); xr_init(&a->u); }
static void xi_set(xi* a, const xi* b) { xr_set(&a->l, &b->l); xr_set(&a->u, &b->u); }
static void xi_top(xi* a) { xr_inf(&a->l, -1); xr_inf(&a->u, 1); }
static void xi_zero(xi* a) { xr_q(&a->l, 0, 1); xr_q(&a->u, 0, 1); }
static int xi_empty(const xi* a) { return xr_cmp(&a->l, &a->u) > 0; }
static int xi_eq(const xi* a, const xi* b) { return !xr_cmp(&a->l, &b->l) && !xr_cmp(&a->u, &b->u); }
static int xi_mem(const xr* p, const xi* a) { return xr_cmp(&a->l, p) <= 0 && xr_cmp(p, &a->u) <= 0; }
static ob* ob_new(void) { ob* a = calloc(1, sizeof *a); for (int k = 0; k < MAXD; k++) xi_init(&a->v[k]); return a; }
static void ob_set(ob* a, const ob* b) { a->i = b->i; a->r = b->r; a->bot = b->bot; for (int k = 0; k < MAXD; k++) xi_set(&a->v[k], &b->v[k]); }
static const char* ob_s(const ob* a)
{ static char B[8][4000]; static int q; q = (q + 1) & 7; char* p = B[q]; p += sprintf(p, "(%d+%d)", a->i, a->r); if (a->bot) { sprintf(p, "empty"); return B[q]; }
  for (int k = 0; k < a->i + a->r; k++) p += snprintf(p, 300, "[%s,%s]", xr_s(&a->v[k].l), xr_s(&a->v[k].u)); return B[q]; }
static box_t* ob_to(const ob* a)
{
  box_t* b = box_alloc(a->i, a->r); if (a->bot) return b;
  box_init(b); xr t; xr_init(&t);
  for (int k = 0; k < a->i + a->r; k++) { xr_neg(&t, &a->v[k].l); b_of(b->p[k]->inf, &t); b_of(b->p[k]->sup, &a->v[k].u); }
  xr_clear(&t); return b;
}
/* 0 if the representation is not well formed */
static int ob_of(ob* a, box_t* b)
{
  a->i = b->intdim; a->r = b->realdim; a->bot = b->p == NULL; if (a->bot) return 1;
  if (a->i + a->r > MAXD) return 0;
  xr t; xr_init(&t); int ok = 1;
  for (int k = 0; k < a->i + a->r; k++) {
    if (!b_wf(b->p[k]->inf) || !b_wf(b->p[k]->sup)) ok = 0;
    b_to(&t, b->p[k]->inf); xr_neg(&a->v[k].l, &t); b_to(&a->v[k].u, b->p[k]->sup);
    if (xi_empty(&a->v[k])) ok = 0;
  }
  xr_clear(&t); return ok;
}
static int ob_eq(const ob* a, const ob* b)
{
  if (a->i != b->i || a->r != b->r || a->bot != b->bot) return 0;
  if (!a->bot) for (int k = 0; k < a->i + a->r; k++) if (!xi_eq(&a->v[k], &b->v[k])) return 0;
  return 1;
}
static void pick(xr* a) { long n[] = {-7,-5,-3,-2,-1,0,1,2,3,5,7}; xr_q(a, n[rint_(0, 10)], rint_(0, 3) ? 1 : rint_(2, 3)); }
static void ri(xi* a)
{
  pick(&a->l); pick(&a->u); if (xr_cmp(&a->l, &a->u) > 0) { xr t; xr_init(&t); xr_set(&t, &a->l); xr_set(&a->l, &a->u); xr_set(&a->u, &t); xr_clear(&t); }
  if (!rint_(0, 5)) xr_inf(&a->l, -1); if (!rint_(0, 5)) xr_inf(&a->u, 1); if (!rint_(0, 9)) xr_set(&a->u, &a->l); if (a->u.inf < 0) xi_top(a);
  if (a->l.inf > 0) xi_top(a);
}
static void rob(ob* a, int i, int r) { a->i = i; a->r = r; a->bot = !rint_(0, 9); for (int k = 0; k < i + r; k++) ri(&a->v[k]); }
static ap_manager_t* M;
#define IN ((box_internal_t*)M->internal)
/* the result of an operation against the expected box; the operands of a non-destructive call must be unchanged */
static void chk(const char* what, box_t* r, const ob* e, const char* args)
{
  static ob* g; if (!g) g = ob_new(); n_cases++;
  if (!ob_of(g, r)) { fail_(what, "%s: ill-formed result %s (expected %s)", args, ob_s(g), ob_s(e)); return; }
  if (!ob_eq(g, e)) fail_(what, "%s: got %s expected %s", args, ob_s(g), ob_s(e));
}
static void same(const char* what, box_t* a, const ob* e) { chk(what, a, e, "operand of a non-destructive call changed"); }
static void meet_(xi* z, const xi* x, const xi* y) { xr_set(&z->l, xr_cmp(&x->l, &y->l) >= 0 ? &x->l : &y->l); xr_set(&z->u, xr_cmp(&x->u, &y->u) <= 0 ? &x->u : &y->u); }
static void join_(xi* z, const xi* x, const xi* y) { xr_set(&z->l, xr_cmp(&x->l, &y->l) <= 0 ? &x->l : &y->l); xr_set(&z->u, xr_cmp(&x->u, &y->u) >= 0 ? &x->u : &y->u); }
static int xleq(const xi* x, const xi* y) { return xr_cmp(&y->l, &x->l) <= 0 && xr_cmp(&x->u, &y->u) <= 0; }
static void ob_join(ob* e, const ob* x, const ob* y)
{ ob t; if (x->bot) { ob_set(e, y); return; } if (y->bot) { ob_set(e, x); return; } e->i = x->i; e->r = x->r; e->bot = 0; for (int k = 0; k < x->i + x->r; k++) join_(&e->v[k], &x->v[k], &y->v[k]); }
static void ob_meet(ob* e, const ob* x, const ob* y)
{ e->i = x->i; e->r = x->r; e->bot = x->bot || y->bot; if (!e->bot) for (int k = 0; k < x->i + x->r; k++) { meet_(&e->v[k], &x->v[k], &y->v[k]); if (xi_empty(&e->v[k])) e->bot = 1; } }
static int ob_leq(const ob* x, const ob* y) { if (x->bot) return 1; if (y->bot) return 0; for (int k = 0; k < x->i + x->r; k++) if (!xleq(&x->v[k], &y->v[k])) return 0; return 1; }
static void bools(const char* what, int got, int exp, const ob* x, const ob* y) { n_cases++; if (!!got != !!exp) fail_(what, "%s %s: got %d", ob_s(x), y ? ob_s(y) : "", got); }
#endif
