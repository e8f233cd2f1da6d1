/* Oracle octagons: full 2n x 2n difference-bound matrices, strongly closed by a naive cubic algorithm. */
#ifndef HOCT_H
#define HOCT_H
#include "h.h"
#include "oct.h"
#include "oct_internal.h"
#define MAXN 24
typedef struct { int n, id, bot; xr m[2 * MAXN][2 * MAXN]; } oo;   /* m[i][j] bounds W(j)-W(i) */
static ap_manager_t* M;
static oct_internal_t* PR;
static oo* oo_new(void) { oo* a = calloc(1, sizeof *a); for (int i = 0; i < 2 * MAXN; i++) for (int j = 0; j < 2 * MAXN; j++) xr_init(&a->m[i][j]); return a; }
static void oo_set(oo* a, const oo* b) { a->n = b->n; a->id = b->id; a->bot = b->bot; for (int i = 0; i < 2 * b->n; i++) for (int j = 0; j < 2 * b->n; j++) xr_set(&a->m[i][j], &b->m[i][j]); }
static void oo_top(oo* a, int n, int id) { a->n = n; a->id = id; a->bot = 0; for (int i = 0; i < 2 * n; i++) for (int j = 0; j < 2 * n; j++) if (i == j) xr_q(&a->m[i][j], 0, 1); else xr_inf(&a->m[i][j], 1); }
static void xmin_(xr* a, const xr* b) { if (xr_cmp(b, a) < 0) xr_set(a, b); }
static void xmax_(xr* a, const xr* b) { if (xr_cmp(b, a) > 0) xr_set(a, b); }
/* W(j)-W(i) <= v, together with its mirror */
static void oo_add(oo* a, int i, int j, const xr* v) { xmin_(&a->m[i][j], v); xmin_(&a->m[j ^ 1][i ^ 1], v); }
/* strong closure, to a fixpoint (no cleverness); sets bot when a diagonal entry becomes negative */
static void oo_close(oo* a)
{
  if (a->bot) return;
  int N = 2 * a->n; static xr t, h; static int in; if (!in) { xr_init(&t); xr_init(&h); in = 1; }
  for (int pass = 0; pass < 2; pass++) {
    for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) { if (a->m[i][k].inf > 0) continue; for (int j = 0; j < N; j++) { if (a->m[k][j].inf > 0) continue; xr_add(&t, &a->m[i][k], &a->m[k][j]); xmin_(&a->m[i][j], &t); } }
    xr_q(&h, 1, 2);
    for (int i = 0; i < N; i++) { if (a->m[i][i ^ 1].inf > 0) continue; for (int j = 0; j < N; j++) { if (a->m[j ^ 1][j].inf > 0) continue; xr_add(&t, &a->m[i][i ^ 1], &a->m[j ^ 1][j]); xr_mul(&t, &t, &h); xmin_(&a->m[i][j], &t); } }
    for (int i = 0; i < N; i++) if (xr_sgn(&a->m[i][i]) < 0) { a->bot = 1; return; }
  }
}
static int oo_eq(const oo* a, const oo* b)
{ if (a->n != b->n || a->id != b->id || a->bot != b->bot) return 0; if (a->bot) return 1; for (int i = 0; i < 2 * a->n; i++) for (int j = 0; j < 2 * a->n; j++) if (xr_cmp(&a->m[i][j], &b->m[i][j])) return 0; return 1; }
static int oo_leq(const oo* a, const oo* b)
{ if (a->bot) return 1; if (b->bot) return 0; for (int i = 0; i < 2 * a->n; i++) for (int j = 0; j < 2 * a->n; j++) if (xr_cmp(&a->m[i][j], &b->m[i][j]) > 0) return 0; return 1; }
static const char* oo_s(const oo* a)
{ static char B[8][9000]; static int q; q = (q + 1) & 7; char* p = B[q]; p += sprintf(p, "(%d+%d)", a->id, a->n - a->id); if (a->bot) { sprintf(p, "empty"); return B[q]; }
  for (int i = 0; i < 2 * a->n; i++) for (int j = 0; j <= (i | 1); j++) if (i != j && !a->m[i][j].inf && p - B[q] < 8500) p += snprintf(p, 200, " %sx%d%sx%d<=%s", j & 1 ? "-" : "", j / 2, i & 1 ? "+" : "-", i / 2, xr_s(&a->m[i][j])); return B[q]; }
/* one half matrix -> oracle (not closed); 0 when ill formed */
static int mat_of(oo* a, bound_t* m, int n)
{
  int ok = 1; oo_top(a, n, a->id); static xr t; static int in; if (!in) { xr_init(&t); in = 1; }
  for (int i = 0; i < 2 * n; i++) for (int j = 0; j <= (i | 1); j++) { bound_t* b = m + (j + (i + 1) * (i + 1) / 2); if (!b_wf(*b)) ok = 0; b_to(&t, *b); if (t.inf < 0) { ok = 0; continue; } if (i == j && xr_sgn(&t) >= 0) continue; oo_add(a, i, j, &t); }
  return ok;
}
/* oracle -> half matrix */
static void mat_to(bound_t* m, const oo* a) { for (int i = 0; i < 2 * a->n; i++) for (int j = 0; j <= (i | 1); j++) b_of(m[j + (i + 1) * (i + 1) / 2], &a->m[i][j]); }
/* library octagon -> closed oracle; 0 when ill formed (the two matrices disagree, "closed" is not closed, ...) */
static int oo_of(oo* a, oct_t* o)
{
  static oo *c, *d; if (!c) { c = oo_new(); d = oo_new(); }
  a->n = o->dim; a->id = o->intdim; a->bot = 0;
  if (!o->m && !o->closed) { a->bot = 1; return 1; }
  if (o->dim > MAXN) return 0;
  int ok = 1;
  if (o->closed) {
    c->id = a->id; ok &= mat_of(c, o->closed, a->n); oo_set(d, c); oo_close(d); if (!oo_eq(c, d)) ok = 0;
    for (int i = 0; i < 2 * a->n; i++) { static xr t; static int in; if (!in) { xr_init(&t); in = 1; } b_to(&t, o->closed[i + (i + 1) * (i + 1) / 2]); if (t.inf || xr_sgn(&t)) ok = 0; }
    oo_set(a, d);
  }
  if (o->m) { d->id = a->id; ok &= mat_of(d, o->m, a->n); oo_close(d); if (o->closed && !oo_eq(a, d)) ok = 0; oo_set(a, d); }
  return ok;
}
static void pickx(xr* a) { xr_q(a, rint_(-6, 9), rint_(0, 3) ? 1 : rint_(2, 3)); }
/* random octagon (not closed) */
static void roo(oo* a, int n, int id)
{
  oo_top(a, n, id); static xr t; static int in; if (!in) { xr_init(&t); in = 1; }
  if (!n) { a->bot = !rint_(0, 5); return; }
  int k = rint_(0, 5) ? rint_(0, 3 * n + 1) : rint_(0, 2 * n * n);
  static int px[MAXN]; for (int i = 0; i < n; i++) px[i] = rint_(-4, 4);   /* usually keep a witness point, so that most octagons are non-empty */
  int wit = rint_(0, 9);
  while (k--) { int i = rint_(0, 2 * n - 1), j = rint_(0, 2 * n - 1); if (i == j) continue; pickx(&t);
    if (wit) { int wi = i & 1 ? -px[i / 2] : px[i / 2], wj = j & 1 ? -px[j / 2] : px[j / 2]; xr_q(&t, 6 * (wj - wi) + rint_(0, 30) / (rint_(0, 2) ? 6 : 1) , 6); }
    if (xr_sgn(&t) < 0 && !wit && rint_(0, 1)) xr_neg(&t, &t);
    oo_add(a, i, j, &t); }
  if (!rint_(0, 15)) a->bot = 1;
}
/* representation: 0 = unclosed matrix only, 1 = closed only, 2 = both; a is replaced by its closure */
static oct_t* oo_to(oo* a, int rep)
{
  oct_t* o = oct_alloc_internal(PR, a->n, a->id);
  if (a->bot) return o;
  static oo* raw; if (!raw) raw = oo_new(); oo_set(raw, a); oo_close(a);
  if (a->bot && rep) return o;
  if (rep != 1) { o->m = hmat_alloc(PR, a->n); mat_to(o->m, raw); }
  if (rep) { o->closed = hmat_alloc(PR, a->n); mat_to(o->closed, a); }
  return o;
}
static oct_t* oo_mk(oo* a) { return oo_to(a, rint_(0, 2)); }
static void chk(const char* what, oct_t* r, const oo* e, const char* args)
{
  static oo* g; if (!g) g = oo_new(); n_cases++;
  if (!r) { fail_(what, "%s: null result", args); return; }
  if (!oo_of(g, r)) { fail_(what, "%s: ill-formed result %s (expected %s)", args, oo_s(g), oo_s(e)); return; }
  if (!oo_eq(g, e)) fail_(what, "%s: got %s expected %s", args, oo_s(g), oo_s(e));
}
static void same(const char* what, oct_t* a, const oo* e) { chk(what, a, e, "operand of a non-destructive call changed"); }
static void bools(const char* what, int got, int exp, const oo* x, const oo* y) { n_cases++; if (!!got != !!exp) fail_(what, "%s ; %s: got %d", oo_s(x), y ? oo_s(y) : "", got); }
static void oo_join(oo* e, const oo* x, const oo* y) { if (x->bot) { oo_set(e, y); return; } oo_set(e, x); if (y->bot) return; for (int i = 0; i < 2 * x->n; i++) for (int j = 0; j < 2 * x->n; j++) xmax_(&e->m[i][j], &y->m[i][j]); }
static void oo_meet(oo* e, const oo* x, const oo* y) { oo_set(e, x); if (y->bot) e->bot = 1; if (e->bot) return; for (int i = 0; i < 2 * x->n; i++) for (int j = 0; j < 2 * x->n; j++) xmin_(&e->m[i][j], &y->m[i][j]); oo_close(e); }
static void o_init(int argc, char** argv) { h_init(argc, argv); M = oct_manager_alloc(); PR = (oct_internal_t*)M->internal; }
static int thorough(void) { return getenv("REPLAY_TIER") && !strcmp(getenv("REPLAY_TIER"), "thorough"); }
#endif
