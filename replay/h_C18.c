#include "hdom.h"
#include "box.h"
/* over real dimensions, the bounds of an expression and the assigned dimension are exactly the values over the box */
static void bndchk(ap_abstract0_t* a, ap_linexpr0_t* e, ap_interval_t* b)
{
  if (!ap_linexpr0_is_linear(e)) return;
  ap_interval_t** box = ap_abstract0_to_box(M, a); xr L, H; xr_init(&L); xr_init(&H); boxval(&L, &H, e, box);
  if (!itvis(b, &L, &H)) fail_("bound_linexpr", "%s: not [%s,%s]", args, xr_s(&L), xr_s(&H));
  xr_clear(&L); xr_clear(&H); ap_interval_array_free(box, nd);
}
static void asgchk(const char* what, ap_abstract0_t* a, ap_dim_t* t, ap_linexpr0_t** e, int k, ap_abstract0_t* r, int subst, int ex)
{
  if (ap_abstract0_is_bottom(M, a) || subst) return;
  ap_interval_t **box = ap_abstract0_to_box(M, a), **rb = ap_abstract0_to_box(M, r); xr L, H; xr_init(&L); xr_init(&H);
  for (int d = 0; d < nd; d++) {
    int i; for (i = 0; i < k && (int)t[i] != d; i++) ;
    if (i == k) { if (!ap_interval_equal(box[d], rb[d])) fail_(what, "%s: bounds of x%d changed, result %s", args, d, as(r)); }
    else { boxval(&L, &H, e[i], box); n_cases++; if (!itvis(rb[d], &L, &H)) fail_(what, "%s: bounds of x%d in the result %s are not [%s,%s]", args, d, as(r), xr_s(&L), xr_s(&H)); }
  }
  xr_clear(&L); xr_clear(&H); ap_interval_array_free(box, nd); ap_interval_array_free(rb, nd);
}
/* the generators span the box */
static void genchk(ap_abstract0_t* a, ap_generator0_array_t* g)
{
  ap_interval_t** box = ap_abstract0_to_box(M, a); xr L, H, v, w; xr_init(&L); xr_init(&H); xr_init(&v); xr_init(&w);
  for (int d = 0; d < nd; d++) {
    int nv = 0, up = 0, dn = 0;
    for (size_t i = 0; i < g->size; i++) {
      ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); ap_linexpr0_get_coeff(&c, g->p[i].linexpr0, d); rd_c(&v, &w, &c); ap_coeff_clear(&c);
      if (g->p[i].gentyp == AP_GEN_VERTEX) { if (!nv || xr_cmp(&v, &L) < 0) xr_set(&L, &v); if (!nv || xr_cmp(&v, &H) > 0) xr_set(&H, &v); nv = 1; }
      else { int s = xr_sgn(&v); if (s > 0 || (s && g->p[i].gentyp == AP_GEN_LINE)) up = 1; if (s < 0 || (s && g->p[i].gentyp == AP_GEN_LINE)) dn = 1; }
    }
    if (up) xr_inf(&H, 1); if (dn) xr_inf(&L, -1);
    if (!nv || !itvis(box[d], &L, &H)) fail_("to_generator_array", "%s: the generators span [%s,%s] on dimension %d", args, xr_s(&L), xr_s(&H), d);
  }
  xr_clear(&L); xr_clear(&H); xr_clear(&v); xr_clear(&w); ap_interval_array_free(box, nd);
}
int main(int argc, char** argv)
{
  d_init(argc, argv, box_manager_alloc()); dom_boundchk = bndchk; dom_assignchk = asgchk; dom_genschk = genchk;
  int rounds = thor ? 6000 : 800;
  for (int r = 0; r < rounds; r++) {
    d_new(); ap_abstract0_t* a = rabs(&P0); points(a);
    op_meet(a); op_meet(a); op_sat(a); op_sat(a); op_bounds(a); op_assign(a, 0); op_assign(a, 0); op_assign(a, 1); op_assign(a, 1); op_conv(a); op_gens(a); op_rays(a);
    ap_abstract0_free(M, a);
  }
  return h_done();
}
