#include "hdom.h"
#include "pk.h"
#include "pk_config.h"
#include "pk_vector.h"
#include "pk_bit.h"
#include "pk_satmat.h"
#include "pk_matrix.h"
#include "pk_representation.h"
#include "pk_internal.h"
/* the polyhedron generated by vertices, rays and lines, put together from points by joins */
static ap_abstract0_t* hull(ap_generator0_array_t* g, ap_generator0_array_t* g2)
{
  ap_abstract0_t* r = ap_abstract0_bottom(M, id_, nd - id_); int nr = 0; xr v, w; xr_init(&v); xr_init(&w);
  ap_generator0_array_t ry = ap_generator0_array_make(g->size + (g2 ? g2->size : 0));
  for (int k = 0; k < 2; k++) { ap_generator0_array_t* G = k ? g2 : g; if (!G) continue;
    for (size_t i = 0; i < G->size; i++) {
      if (G->p[i].gentyp != AP_GEN_VERTEX) { ry.p[nr++] = ap_generator0_copy(&G->p[i]); continue; }
      ap_interval_t** t = ap_interval_array_alloc(nd ? nd : 1);
      for (int d = 0; d < nd; d++) { ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); ap_linexpr0_get_coeff(&c, G->p[i].linexpr0, d); ap_scalar_set(t[d]->inf, c.val.scalar); ap_scalar_set(t[d]->sup, c.val.scalar); ap_coeff_clear(&c); }
      ap_abstract0_t* p = ap_abstract0_of_box(M, id_, nd - id_, t); r = ap_abstract0_join(M, true, r, p); ap_abstract0_free(M, p); ap_interval_array_free(t, nd ? nd : 1); } }
  ap_generator0_array_t q = ry; q.size = nr; if (nr) r = ap_abstract0_add_ray_array(M, true, r, &q);
  ap_generator0_array_clear(&ry); xr_clear(&v); xr_clear(&w); return r;
}
static ap_generator0_array_t gens(ap_abstract0_t* a) { ap_abstract0_t* b = ap_abstract0_copy(M, a); ap_generator0_array_t g = ap_abstract0_to_generator_array(M, b); ap_abstract0_free(M, b); return g; }
static void genschk(ap_abstract0_t* a, ap_generator0_array_t* g)
{ if (id_) return; ap_abstract0_t* h = hull(g, 0); n_cases++; if (!same(h, a)) fail_("to_generator_array", "%s: the generators span %s", args, as(h)); ap_abstract0_free(M, h); }
/* value of the linear part (cst: plus constant) at a generator */
static void lin(xr* V, ap_linexpr0_t* e, ap_linexpr0_t* g, int cst)
{
  pt y; for (int d = 0; d < DM; d++) mpq_init(y.v[d]); size_t i; ap_dim_t d; ap_coeff_t* c; xr L, H, k; xr_init(&L); xr_init(&H); xr_init(&k);
  ap_linexpr0_ForeachLinterm(g, i, d, c) { rd_c(&L, &H, c); mpq_set(y.v[d], L.q); }
  evl(&L, &H, e, &y); xr_set(V, &L); if (!cst) { rd_c(&k, &H, &e->cst); mpq_sub(V->q, V->q, k.q); }
  for (int j = 0; j < DM; j++) mpq_clear(y.v[j]); xr_clear(&L); xr_clear(&H); xr_clear(&k);
}
/* extrema of a linear expression over the generators */
static void extrema(xr* L, xr* H, ap_abstract0_t* a, ap_linexpr0_t* e)
{
  ap_generator0_array_t g = gens(a); int n = 0, up = 0, dn = 0; xr v; xr_init(&v);
  for (size_t i = 0; i < g.size; i++) {
    int vx = g.p[i].gentyp == AP_GEN_VERTEX; lin(&v, e, g.p[i].linexpr0, vx); int s = xr_sgn(&v);
    if (vx) { if (!n || xr_cmp(&v, L) < 0) xr_set(L, &v); if (!n || xr_cmp(&v, H) > 0) xr_set(H, &v); n = 1; }
    else { if (s > 0 || (s && g.p[i].gentyp == AP_GEN_LINE)) up = 1; if (s < 0 || (s && g.p[i].gentyp == AP_GEN_LINE)) dn = 1; }
  }
  if (up) xr_inf(H, 1); if (dn) xr_inf(L, -1); ap_generator0_array_clear(&g); xr_clear(&v);
}
static void bndchk(ap_abstract0_t* a, ap_linexpr0_t* e, ap_interval_t* b)
{
  if (id_ || !nd || !ap_linexpr0_is_linear(e)) return;
  xr L, H; xr_init(&L); xr_init(&H); extrema(&L, &H, a, e); if (!itvis(b, &L, &H)) fail_("bound_linexpr", "%s: the extrema are %s and %s", args, xr_s(&L), xr_s(&H)); xr_clear(&L); xr_clear(&H);
}
static void satchk(ap_abstract0_t* a, ap_lincons0_t* c, int r)
{
  if (id_ || !nd || !ap_linexpr0_is_linear(c->linexpr0) || (c->constyp != AP_CONS_EQ && c->constyp != AP_CONS_SUPEQ) || ap_abstract0_is_bottom(M, a)) return;
  xr L, H; xr_init(&L); xr_init(&H); extrema(&L, &H, a, c->linexpr0);
  int want = c->constyp == AP_CONS_EQ ? xr_sgn(&L) == 0 && xr_sgn(&H) == 0 : xr_sgn(&L) >= 0;
  if (r != want) fail_("sat_lincons", "%s: %d, the extrema are %s and %s", args, r, xr_s(&L), xr_s(&H)); xr_clear(&L); xr_clear(&H);
}
/* an assignment by linear expressions gives exactly the span of the images of the generators */
static void asgchk(const char* what, ap_abstract0_t* a, ap_dim_t* t, ap_linexpr0_t** e, int k, ap_abstract0_t* r, int subst, int ex)
{
  if (id_ || ap_abstract0_is_bottom(M, a)) return;
  if (subst) { ap_abstract0_t* b = ap_abstract0_assign_linexpr_array(M, false, r, t, e, k, 0); if (!ap_abstract0_is_leq(M, b, a)) fail_(what, "%s: assigning back gives %s, outside of the operand", args, as(b)); ap_abstract0_free(M, b); return; }
  ap_generator0_array_t g = gens(a), h = gens(a); xr v; xr_init(&v);
  for (size_t i = 0; i < g.size; i++) for (int j = 0; j < k; j++) { lin(&v, e[j], g.p[i].linexpr0, g.p[i].gentyp == AP_GEN_VERTEX); ap_coeff_t* c = ap_linexpr0_coeffref(h.p[i].linexpr0, t[j]); ap_coeff_set_scalar_mpq(c, v.q); }
  ap_abstract0_t* b = hull(&h, 0); n_cases++; if (!same(b, r)) fail_(what, "%s: the result is %s, the images of the generators span %s", args, as(r), as(b));
  ap_abstract0_free(M, b); ap_generator0_array_clear(&g); ap_generator0_array_clear(&h); xr_clear(&v);
}
static void raychk(ap_abstract0_t* a, ap_generator0_array_t* g, ap_abstract0_t* r)
{
  if (id_ || ap_abstract0_is_bottom(M, a)) return;
  ap_generator0_array_t h = gens(a); ap_abstract0_t* b = hull(&h, g); if (!same(b, r)) fail_("add_ray_array", "%s: the result is %s, expected %s", args, as(r), as(b)); ap_abstract0_free(M, b); ap_generator0_array_clear(&h);
}
/* projected generators flagged as sorted without being so (the self-checks of the debug build stop on them): the flag
   is put right, to go on with the value that a build without self-checks has */
static void projchk(ap_abstract0_t* r)
{
  pk_t* po = r->value; pk_internal_t* pk = M->internal; int bad = 0;
  if (po->F && pk_matrix_is_sorted(po->F)) for (size_t i = 0; i + 1 < po->F->nbrows; i++) if (pk_matrix_compare_rows(pk, po->F, i, i + 1) > 0) bad = 1;
  if (bad) { fail_("projected generators", "flagged as sorted without being sorted (%s)", args); po->F->_sorted = false; }
  if (!poly_check(pk, po)) fail_("forget_array", "%s: the projected value is not well formed", args);
}
static void joinchk(ap_abstract0_t* a)
{
  if (id_) return;
  ap_abstract0_t* b = rabs(&P0), *j = ap_abstract0_join(M, false, a, b); ap_generator0_array_t g = gens(a), h = gens(b); ap_abstract0_t* u = hull(&g, &h); n_cases++;
  snprintf(args, sizeof args, "%s and %s", as(a), as(b));
  if (!same(u, j)) fail_("join", "%s: the result is %s, the generators span %s", args, as(j), as(u));
  ap_abstract0_free(M, u); ap_abstract0_free(M, j); ap_abstract0_free(M, b); ap_generator0_array_clear(&g); ap_generator0_array_clear(&h);
}
int main(int argc, char** argv)
{
  ap_manager_t* m[2] = { pk_manager_alloc(false), pk_manager_alloc(true) };
  d_init(argc, argv, m[1]); d_init(argc, argv, m[0]);
  dom_projchk = projchk;
  int rounds = thor ? 2500 : 250;
  for (int r = 0; r < rounds; r++) {
    int strict = r % 4 == 3; M = m[strict];
    dom_boundchk = strict ? 0 : bndchk; dom_satchk = strict ? 0 : satchk; dom_assignchk = strict ? 0 : asgchk; dom_genschk = strict ? 0 : genschk; dom_raychk = strict ? 0 : raychk;
    d_new(); ap_abstract0_t* a = rabs(&P0); points(a);
    op_meet(a); op_sat(a); op_sat(a); op_bounds(a); op_assign(a, 0); op_assign(a, 0); op_assign(a, 1); op_conv(a); op_gens(a); op_rays(a); op_lattice(a); op_dims(a, 1); if (!strict) joinchk(a);
    ap_abstract0_free(M, a);
  }
  return h_done();
}
