#include "hoct.h"
/* lattice operations of the octagon domain, in every representation (unclosed / closed / both), against closed oracles */
static char args[9000];
static oo *e, *g, *f;
/* result between lo (must contain) and up (must be contained); up may be null */
static void range(const char* what, oct_t* r, const oo* lo1, const oo* lo2, const oo* up)
{
  n_cases++;
  if (!r || !oo_of(g, r)) { fail_(what, "%s: ill-formed result", args); return; }
  if (lo1 && !oo_leq(lo1, g)) fail_(what, "%s: result %s loses points of %s", args, oo_s(g), oo_s(lo1));
  if (lo2 && !oo_leq(lo2, g)) fail_(what, "%s: result %s loses points of %s", args, oo_s(g), oo_s(lo2));
  if (up && !oo_leq(g, up)) fail_(what, "%s: result %s is larger than %s", args, oo_s(g), oo_s(up));
}
/* the (possibly unclosed) matrix the widening works on */
static int raw(oo* a, oct_t* o) { a->n = o->dim; a->id = o->intdim; a->bot = 0; bound_t* m = o->m ? o->m : o->closed; if (!m) { a->bot = 1; return 1; } return mat_of(a, m, o->dim); }
static int isect_flag(void) { return M->result.flag_exact; }
static int istop(const oo* a) { if (a->bot) return 0; for (int i = 0; i < 2 * a->n; i++) for (int j = 0; j < 2 * a->n; j++) if (i != j && !a->m[i][j].inf) return 0; return 1; }
int main(int argc, char** argv)
{
  o_init(argc, argv);
  oo *x = oo_new(), *y = oo_new(), *z = oo_new(), *x0 = oo_new(), *y0 = oo_new(), *z0 = oo_new(), *w = oo_new(); e = oo_new(); g = oo_new(); f = oo_new();
  int rounds = thorough() ? 20000 : 2000;
  for (int r = 0; r < rounds; r++) {
    int n = r % 100 == 7 ? rint_(6, 14) : rint_(0, 4), id = rint_(0, n); roo(x0, n, id); roo(y0, n, id); roo(z0, n, id);
    if (!rint_(0, 3)) { oo_set(y0, x0); if (n && rint_(0, 2)) { xr t; xr_init(&t); pickx(&t); int i = rint_(0, 2 * n - 1), j = rint_(0, 2 * n - 1); if (i != j) { if (rint_(0, 1)) oo_add(y0, i, j, &t); else { xr_inf(&y0->m[i][j], 1); xr_inf(&y0->m[j ^ 1][i ^ 1], 1); } } xr_clear(&t); } }
    if (!rint_(0, 3)) { oo_set(f, x0); oo_close(f); oo_set(g, y0); oo_close(g); oo_join(y0, f, g); }
    for (int rep = 0; rep < 9; rep++) {
      if (rep && rint_(0, 2)) continue;
      int ra = rep % 3, rb = rep / 3;
#define A_ (oo_set(x, x0), oo_to(x, ra))
#define B_ (oo_set(y, y0), oo_to(y, rb))
      oct_t *a = A_, *b = B_, *c, *q; oo_close(x); oo_close(y);
      snprintf(args, sizeof args, "%s (rep %d) , %s (rep %d)", oo_s(x0), ra, oo_s(y0), rb); doing("%s", args);
      M->result.flag_exact = M->result.flag_best = 0;
      oo_meet(e, x, y); c = oct_meet(M, false, a, b); chk("meet", c, e, args); same("meet", a, x); same("meet", b, y);
      if (!isect_flag()) fail_("meet", "%s: not reported exact", args);
      oct_free(M, c); c = oct_meet(M, true, A_, b); chk("meet in place", c, e, args); same("meet in place", b, y);
      bools("is_bottom of a meet", oct_is_bottom(M, c), e->bot, e, 0); oct_free(M, c);
      c = A_; q = oct_meet(M, false, c, c); chk("meet with itself", q, x, args); oct_free(M, q); q = oct_join(M, false, c, c); chk("join with itself", q, x, args); oct_free(M, q);
      q = oct_meet(M, true, c, c); oo_close(x); chk("in-place meet with itself", q, x, args); oct_free(M, q);
      c = A_; q = oct_join(M, true, c, c); oo_close(x); chk("in-place join with itself", q, x, args); oct_free(M, q);
      oct_free(M, a); oct_free(M, b); a = A_; b = B_; oo_close(x); oo_close(y);
      oo_join(e, x, y); c = oct_join(M, false, a, b); chk("join", c, e, args); same("join", a, x); same("join", b, y);
      if (isect_flag() && !(x->bot || y->bot || oo_leq(x, y) || oo_leq(y, x))) fail_("join", "%s: claims to be exact", args);
      oct_free(M, c); c = oct_join(M, true, A_, b); oo_close(x); chk("join in place", c, e, args); same("join in place", b, y); oct_free(M, c);
      oct_free(M, a); oct_free(M, b); a = A_; b = B_; oo_close(x); oo_close(y);
      bools("is_top", oct_is_top(M, a), istop(x), x, 0);
      if (!x->bot) for (int k = 0; k < n; k++) { int un = 1; for (int i = 0; i < 2 * n && un; i++) for (int j = 0; j < 2; j++) if (i != 2 * k + j && !(x->m[i][2 * k + j].inf && x->m[2 * k + j][i].inf)) un = 0;
        oct_t* d = A_; bools("is_dimension_unconstrained", oct_is_dimension_unconstrained(M, d, k), un, x, 0); same("is_dimension_unconstrained", d, x); oct_free(M, d); }
      oo_close(x); oo_close(y);
      bools("is_leq", oct_is_leq(M, a, b), oo_leq(x, y), x, y); bools("is_leq", oct_is_leq(M, b, a), oo_leq(y, x), y, x); same("is_leq", a, x); same("is_leq", b, y);
      oct_free(M, a); oct_free(M, b); a = A_; b = B_; oo_close(x); oo_close(y);
      bools("is_eq", oct_is_eq(M, a, b), x->bot && y->bot || oo_eq(x, y), x, y); same("is_eq", a, x); same("is_eq", b, y);
      oct_free(M, a); a = A_; oo_close(x); bools("is_bottom", oct_is_bottom(M, a), x->bot, x, 0); same("is_bottom", a, x);
      ap_dimension_t d = oct_dimension(M, a); if (d.intdim != id || d.realdim != n - id) fail_("dimension", "%s", args);
      c = oct_copy(M, a); chk("copy", c, x, args); same("copy", a, x); oct_free(M, c);
      c = oct_closure(M, false, a); chk("closure", c, x, args); same("closure", a, x); oct_free(M, c); c = oct_closure(M, true, A_); oo_close(x); chk("closure in place", c, x, args); oct_free(M, c);
      c = A_; oo_close(x); oct_canonicalize(M, c); same("canonicalize", c, x); oct_minimize(M, c); same("minimize", c, x); oct_free(M, c);
      c = A_; oo_close(x); oct_approximate(M, c, 0); same("approximate", c, x); oct_free(M, c);
      /* two equal octagons hash alike */
      c = oct_copy(M, a); if (oct_hash(M, a) != oct_hash(M, c)) fail_("hash", "%s: differs from its copy", args); oct_free(M, c);
      /* widening: of x and an upper bound of x, on the raw matrix of x */
      oct_free(M, a); oct_free(M, b); a = A_; oo_close(x); oo_join(z, x, y); b = oo_to(z, rb); oo_close(z);
      raw(w, a); int abot = w->bot; c = oct_widening(M, a, b);
      if (abot) oo_set(e, z); else if (z->bot) { oo_set(e, x); } else { oo_set(e, w); for (int i = 0; i < 2 * n; i++) for (int j = 0; j < 2 * n; j++) if (i != j && xr_cmp(&z->m[i][j], &w->m[i][j]) > 0) xr_inf(&e->m[i][j], 1); oo_close(e); }
      chk("widening", c, e, args); range("widening", c, x, y, 0); same("widening", a, x); same("widening", b, z); oct_free(M, c);
      { static xr th; static int in; if (!in) { xr_init(&th); in = 1; }
        int nb = rint_(0, 3); ap_scalar_t* tab[3]; long v = rint_(-9, 0); for (int k = 0; k < nb; k++) { tab[k] = ap_scalar_alloc(); ap_scalar_set_frac(tab[k], v, 1); v += rint_(1, 9); }
        c = oct_widening_thresholds(M, a, b, tab, nb);
        if (!abot && !z->bot) { oo_set(e, w); for (int i = 0; i < 2 * n; i++) for (int j = 0; j < 2 * n; j++) if (i != j && xr_cmp(&z->m[i][j], &w->m[i][j]) > 0) { xr_inf(&e->m[i][j], 1);
              for (int k = nb - 1; k >= 0; k--) { xr_inf(&th, 0); mpq_set(th.q, tab[k]->val.mpq); if (xr_cmp(&th, &z->m[i][j]) >= 0) xr_set(&e->m[i][j], &th); } } oo_close(e); }
        chk("widening_thresholds", c, e, args); range("widening_thresholds", c, x, y, 0); same("widening_thresholds", a, x); same("widening_thresholds", b, z); oct_free(M, c);
        for (int k = 0; k < nb; k++) ap_scalar_free(tab[k]); }
      /* perturbation only enlarges */
      { ap_scalar_t* s = ap_scalar_alloc(); ap_scalar_set_frac(s, rint_(0, 4), 4); c = oct_add_epsilon(M, a, s); range("add_epsilon", c, x, 0, 0); same("add_epsilon", a, x); oct_free(M, c);
        c = oct_add_epsilon_bin(M, a, b, s); range("add_epsilon_bin", c, x, z, 0); same("add_epsilon_bin", b, z); oct_free(M, c); ap_scalar_free(s); }
      oct_free(M, a); oct_free(M, b);
      /* narrowing: between the two when the second is smaller */
      a = oo_to(z, ra); oo_close(z); b = B_; oo_close(y); c = oct_narrowing(M, a, b); range("narrowing", c, y, 0, z); same("narrowing", a, z); same("narrowing", b, y); oct_free(M, c); oct_free(M, a); oct_free(M, b);
      /* arrays */
      a = A_; b = B_; oo_close(x); oo_close(y); oo_set(z, z0); q = oo_to(z, rint_(0, 2)); oo_close(z); oct_t* tab[3] = {a, b, q};
      for (int k = 1; k <= 3; k++) {
        oo_set(e, x); if (k > 1) { oo_meet(f, e, y); oo_set(e, f); } if (k > 2) { oo_meet(f, e, z); oo_set(e, f); }
        c = oct_meet_array(M, tab, k); chk("meet_array", c, e, args); oct_free(M, c); same("meet_array", a, x); same("meet_array", b, y); same("meet_array", q, z);
      }
      for (int k = 1; k <= 3; k++) {
        oo_set(e, x); if (k > 1) { oo_join(f, e, y); oo_set(e, f); } if (k > 2) { oo_join(f, e, z); oo_set(e, f); }
        c = oct_join_array(M, tab, k); chk("join_array", c, e, args);
        if (isect_flag() && k == 2 && !(x->bot || y->bot || oo_leq(x, y) || oo_leq(y, x))) fail_("join_array", "%s: claims to be exact", args);
        oct_free(M, c); same("join_array", a, x); same("join_array", b, y); same("join_array", q, z);
      }
      oct_free(M, a); oct_free(M, b); oct_free(M, q);
    }
    oct_t* c = oct_top(M, id, n - id); oo_top(e, n, id); chk("top", c, e, ""); bools("is_top of top", oct_is_top(M, c), 1, e, 0); oct_free(M, c);
    c = oct_bottom(M, id, n - id); e->bot = 1; chk("bottom", c, e, ""); bools("is_bottom of bottom", oct_is_bottom(M, c), 1, e, 0); oct_free(M, c);
    /* an increasing sequence stabilises: each of the 4n^2 bounds changes at most once */
    if (r % 8 == 0) { oo_set(x, x0); oct_t* cur = oo_to(x, 0); int ch = 0;
      for (int s = 0; s < 4 * n * n + 12; s++) { roo(z, n, id); oct_t *t = oo_to(z, rint_(0, 2)), *j = oct_join(M, false, cur, t), *nx = oct_widening(M, cur, j);
        if (!oct_is_leq(M, t, nx)) fail_("widening", "not an upper bound: %s", args);
        oct_t* k1 = oct_copy(M, cur); oct_t* k2 = oct_copy(M, nx); if (!oct_is_eq(M, k1, k2)) ch++; oct_free(M, k1); oct_free(M, k2);
        oct_free(M, t); oct_free(M, j); oct_free(M, cur); cur = nx; }
      if (ch > 2 * n * n + n + 2) fail_("widening", "an increasing sequence changed %d times in %d dimensions", ch, n);
      oct_free(M, cur); }
  }
  return h_done();
}
