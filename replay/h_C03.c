#include "hoct.h"
/* closure algorithms on half matrices of up to 5 variables, against a naive strong closure */
static char args[9000];
int main(int argc, char** argv)
{
  o_init(argc, argv);
  oo *x = oo_new(), *c = oo_new(), *g = oo_new(), *y = oo_new();
  int rounds = thorough() ? 60000 : 12000;
  for (int r = 0; r < rounds; r++) {
    int n = r % 400 ? rint_(0, 5) : rint_(6, 20); roo(x, n, rint_(0, n)); x->bot = 0;
    oo_set(c, x); oo_close(c);
    snprintf(args, sizeof args, "%s", oo_s(x)); doing("closure of %s", args);
    bound_t* m = hmat_alloc(PR, n); mat_to(m, x);
    int e = hmat_close(m, n); n_cases++;
    if (e != c->bot) fail_("hmat_close", "%s: reports %s", args, e ? "empty" : "non-empty");
    else if (!e) { g->id = x->id; if (!mat_of(g, m, n) || !oo_eq(g, c)) fail_("hmat_close", "%s: got %s expected %s", args, oo_s(g), oo_s(c)); }
    /* the S step alone is enough when only unary constraints are present */
    oo_top(y, n, x->id); for (int k = 0; k < 2 * n; k++) xr_set(&y->m[k][k ^ 1], &x->m[k][k ^ 1]);
    mat_to(m, y); oo_set(g, y); oo_close(g); e = hmat_s_step(m, n); n_cases++;
    int dis = 0; for (int k = 0; k < n; k++) if (!y->m[2*k][2*k+1].inf && !y->m[2*k+1][2*k].inf) { xr s; xr_init(&s); xr_add(&s, &y->m[2*k][2*k+1], &y->m[2*k+1][2*k]); if (xr_sgn(&s) < 0) dis = 1; xr_clear(&s); }
    if (e != dis || g->bot != dis) fail_("hmat_s_step", "%s: reports %d", oo_s(y), e);
    else if (!e) { oo* h = y; oo_set(c, g); if (!mat_of(h, m, n) || !oo_eq(h, c)) fail_("hmat_s_step", "got %s expected %s", oo_s(h), oo_s(c)); }
    /* incremental: a closed matrix in which the constraints on one variable are strengthened */
    if (n) {
      oo_set(y, x); oo_close(y);
      if (!y->bot) {
        int v = rint_(0, n - 1), k = rint_(0, 4); xr t; xr_init(&t);
        while (k--) { int i = 2 * v + rint_(0, 1), j = rint_(0, 2 * n - 1); if (i == j) continue; pickx(&t); if (rint_(0, 3) && xr_sgn(&t) < 0) xr_neg(&t, &t); if (rint_(0, 1)) oo_add(y, i, j, &t); else oo_add(y, j, i, &t); }
        xr_clear(&t);
        snprintf(args, sizeof args, "variable %d of %s", v, oo_s(y)); doing("incremental closure, %s", args);
        mat_to(m, y); oo_set(c, y); oo_close(c); e = hmat_close_incremental(m, n, v); n_cases++;
        if (e != c->bot) fail_("hmat_close_incremental", "%s: reports %s", args, e ? "empty" : "non-empty");
        else if (!e) { g->id = x->id; if (!mat_of(g, m, n) || !oo_eq(g, c)) fail_("hmat_close_incremental", "%s: got %s expected %s", args, oo_s(g), oo_s(c)); }
      }
    }
    hmat_free(PR, m, n);
  }
  return h_done();
}
