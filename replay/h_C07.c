#include "hbox.h"
/* lattice operations of the box domain on random boxes of up to 4 dimensions, against componentwise oracles */
static char args[9000];
int main(int argc, char** argv)
{
  h_init(argc, argv); M = box_manager_alloc();
  ob *x = ob_new(), *y = ob_new(), *z = ob_new(), *e = ob_new();
  int rounds = getenv("REPLAY_TIER") && !strcmp(getenv("REPLAY_TIER"), "thorough") ? 60000 : 12000;
  for (int n = 0; n < rounds; n++) {
    int i = rint_(0, 2), r = rint_(0, 2);
    rob(x, i, r); rob(y, i, r);
    if (!rint_(0, 4)) { ob_set(y, x); if (i + r && rint_(0, 1)) ri(&y->v[rint_(0, i + r - 1)]); }
    if (!rint_(0, 3) && !x->bot && !y->bot) for (int k = 0; k < i + r; k++) join_(&y->v[k], &x->v[k], &y->v[k]);
    snprintf(args, sizeof args, "%s %s", ob_s(x), ob_s(y)); doing("%s", args);
    box_t *a = ob_to(x), *b = ob_to(y), *c;
    M->result.flag_best = M->result.flag_exact = 0;
    ob_meet(e, x, y); c = box_meet(M, false, a, b); chk("meet", c, e, args); same("meet", a, x); same("meet", b, y); box_free(M, c);
    a = a; c = ob_to(x); c = box_meet(M, true, c, b); chk("meet in place", c, e, args); box_free(M, c);
    ob_join(e, x, y); c = box_join(M, false, a, b); chk("join", c, e, args); same("join", a, x); same("join", b, y);
    if (M->result.flag_exact && !(x->bot || y->bot || ob_leq(x, y) || ob_leq(y, x))) fail_("join", "%s: claims to be exact", args);
    box_free(M, c); c = ob_to(x); c = box_join(M, true, c, b); chk("join in place", c, e, args); box_free(M, c);
    bools("is_leq", box_is_leq(M, a, b), ob_leq(x, y), x, y); bools("is_leq", box_is_leq(M, b, a), ob_leq(y, x), y, x);
    bools("is_eq", box_is_eq(M, a, b), x->bot && y->bot || !x->bot && !y->bot && ob_eq(x, y), x, y);
    bools("is_bottom", box_is_bottom(M, a), x->bot, x, 0);
    int top = !x->bot; for (int k = 0; k < i + r; k++) if (!(x->v[k].l.inf && x->v[k].u.inf)) top = 0;
    bools("is_top", box_is_top(M, a), top, x, 0);
    for (int k = 0; k < i + r; k++) bools("is_dimension_unconstrained", box_is_dimension_unconstrained(M, a, k), !x->bot && x->v[k].l.inf && x->v[k].u.inf, x, 0);
    ap_dimension_t d = box_dimension(M, a); if (d.intdim != i || d.realdim != r) fail_("dimension", "%s", args);
    c = box_copy(M, a); chk("copy", c, x, args); box_free(M, c);
    c = box_top(M, i, r); e->i = i; e->r = r; e->bot = 0; for (int k = 0; k < i + r; k++) xi_top(&e->v[k]); chk("top", c, e, args); box_free(M, c);
    c = box_bottom(M, i, r); e->bot = 1; chk("bottom", c, e, args); box_free(M, c);
    c = box_closure(M, false, a); chk("closure", c, x, args); box_free(M, c);
    box_canonicalize(M, a); same("canonicalize", a, x); box_minimize(M, a); same("minimize", a, x);
    /* widening: of x and an upper bound of x; the sequence becomes stable */
    ob_join(z, x, y); box_t* w = ob_to(z); c = box_widening(M, a, w); ob_set(e, z);
    if (!x->bot && !z->bot) for (int k = 0; k < i + r; k++) { xi_set(&e->v[k], &x->v[k]); if (xr_cmp(&z->v[k].l, &x->v[k].l) < 0) xr_inf(&e->v[k].l, -1); if (xr_cmp(&z->v[k].u, &x->v[k].u) > 0) xr_inf(&e->v[k].u, 1); }
    chk("widening", c, e, args); same("widening", a, x); same("widening", w, z); box_free(M, w);
    { int ch = 0, s = 0; box_t* cur = box_copy(M, c);
      for (s = 0; s < 4 * (i + r) + 4; s++) { rob(z, i, r); box_t *t = ob_to(z), *j = box_join(M, false, cur, t), *nx = box_widening(M, cur, j);
        if (!box_is_leq(M, j, nx)) fail_("widening", "not an upper bound: %s", args);
        if (!box_is_eq(M, cur, nx)) ch++;
        box_free(M, t); box_free(M, j); box_free(M, cur); cur = nx; }
      if (ch > 2 * (i + r) + 1) fail_("widening", "an increasing sequence changed %d times in %d dimensions", ch, i + r);
      box_free(M, cur); }
    box_free(M, c);
    /* arrays */
    rob(z, i, r); box_t *q = ob_to(z), *tab[3] = {a, b, q};
    ob* f = ob_new();
    for (int k = 1; k <= 3; k++) {
      ob_set(e, x); if (k > 1) { ob_meet(f, e, y); ob_set(e, f); } if (k > 2) { ob_meet(f, e, z); ob_set(e, f); }
      c = box_meet_array(M, tab, k); chk("meet_array", c, e, args); box_free(M, c);
      ob_set(e, x); if (k > 1) { ob_join(f, e, y); ob_set(e, f); } if (k > 2) { ob_join(f, e, z); ob_set(e, f); }
      c = box_join_array(M, tab, k); chk("join_array", c, e, args); box_free(M, c);
      same("array", a, x); same("array", b, y); same("array", q, z);
    }
    for (int k = 0; k < MAXD; k++) { xr_clear(&f->v[k].l); xr_clear(&f->v[k].u); } free(f);
    /* box_set */
    if (!y->bot) { c = ob_to(x); box_set(c, b); chk("set", c, y, args); box_set_top(c); e->i = i; e->r = r; e->bot = 0; for (int k = 0; k < i + r; k++) xi_top(&e->v[k]); chk("set_top", c, e, args); box_set_bottom(c); e->bot = 1; chk("set_bottom", c, e, args); box_free(M, c); }
    box_free(M, q); box_free(M, a); box_free(M, b);
  }
  return h_done();
}
