#include "hdom.h"
#include "oct.h"
/* an assigned dimension, and its sum or difference with one that cancels, are bounded at least as well as over the bounding box */
static void asgchk(const char* what, ap_abstract0_t* a, ap_dim_t* t, ap_linexpr0_t** e_, int k, ap_abstract0_t* r, int subst, int ex)
{
  ap_dim_t d = t[0]; ap_linexpr0_t* e = e_[0];
  if (subst || k != 1 || id_ || ap_abstract0_is_bottom(M, a)) return;
  ap_interval_t** box = ap_abstract0_to_box(M, a); xr L, H; xr_init(&L); xr_init(&H);
  for (int j = 0; j < nd; j++) for (int s = -1; s <= 1; s++) {
    if ((j == (int)d) != (s == 0)) continue;
    ap_linexpr0_t* f = ap_linexpr0_copy(e), *g = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0);
    if (s) { ap_coeff_t* c = ap_linexpr0_coeffref(f, j); rd_c(&L, &H, c); if (mpq_cmp_si(L.q, -s, 1)) { ap_linexpr0_free(f); ap_linexpr0_free(g); continue; } ap_coeff_set_scalar_double(c, mpq_get_d(L.q) + s); ap_coeff_set_scalar_int(ap_linexpr0_coeffref(g, j), s); }
    ap_coeff_set_scalar_int(ap_linexpr0_coeffref(g, d), 1);
    boxval(&L, &H, f, box); ap_interval_t* c = ap_abstract0_bound_linexpr(M, r, g); n_cases++;
    if (!itvin(c, &L, &H)) { char* s_; size_t n_; FILE* o = open_memstream(&s_, &n_); ap_interval_fprint(o, c); fprintf(o, " for "); ap_linexpr0_fprint(o, g, 0); fclose(o);
      fail_(what, "%s: the result %s gives %s, expected within [%s,%s]", args, as(r), s_, xr_s(&L), xr_s(&H)); free(s_); }
    ap_interval_free(c); ap_linexpr0_free(f); ap_linexpr0_free(g);
  }
  xr_clear(&L); xr_clear(&H); ap_interval_array_free(box, nd);
}
/* the bounds of an expression are at least as good as those over the bounding box */
static void bndchk(ap_abstract0_t* a, ap_linexpr0_t* e, ap_interval_t* b)
{
  if (id_ || !ap_linexpr0_is_linear(e)) return;
  ap_interval_t** box = ap_abstract0_to_box(M, a); xr L, H; xr_init(&L); xr_init(&H); boxval(&L, &H, e, box);
  if (!itvin(b, &L, &H)) fail_("bound_linexpr", "%s: not within [%s,%s]", args, xr_s(&L), xr_s(&H));
  xr_clear(&L); xr_clear(&H); ap_interval_array_free(box, nd);
}
int main(int argc, char** argv)
{
  d_init(argc, argv, oct_manager_alloc()); dom_nocanon = 1; dom_assignchk = asgchk; dom_boundchk = bndchk;
  int rounds = thor ? 4000 : 500;
  for (int r = 0; r < rounds; r++) {
    d_new(); ap_abstract0_t* a = rabs(&P0); points(a);
    op_meet(a); op_meet(a); op_sat(a); op_sat(a); op_bounds(a); op_assign(a, 0); op_assign(a, 0); op_assign(a, 1); op_assign(a, 1); op_conv(a); op_rays(a);
    ap_abstract0_free(M, a);
  }
  return h_done();
}
