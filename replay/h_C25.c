#include "htex.h"
#include "box.h"
#include "oct.h"
#include "pk.h"
#include <fenv.h>
static void op_tbound(ap_abstract0_t* a)
{
  ap_texpr0_t* e = rtree(0); xr v; xr_init(&v);
  snprintf(args, sizeof args, "%s over %s (%d integer of %d)", ts(e), as(a), id_, nd); doing("bound_texpr %s", args); n_cases++;
  ap_interval_t* b = ap_abstract0_bound_texpr(M, a, e);
  bool ex; ap_scalar_discr_t dc = (ap_scalar_discr_t)rint_(0, 2); ap_interval_t* b2 = ap_abstract0_is_bottom(M, a) ? 0 : ap_eval_texpr0(M, a, e, dc, &ex);
  for (int i = 0; i < nP; i++) if (IN[i]) for (int k = 0; k < 4; k++) if (tev(e, &PT[i], v.q)) { v.inf = 0; inside("bound_texpr", b, &v, &v, &PT[i]); if (b2) inside("eval_texpr0", b2, &v, &v, &PT[i]); }
  if (ap_abstract0_is_bottom(M, a) && !ap_interval_is_bottom(b)) fail_("bound_texpr", "%s: not the empty interval for an empty value", args);
  ap_interval_free(b); if (b2) ap_interval_free(b2);
  /* linearisation: at each point of the value the linear form takes every value of the tree */
  if (!ap_abstract0_is_bottom(M, a)) {
    int q = rint_(0, 1); xr L, H; xr_init(&L); xr_init(&H); ap_scalar_discr_t dc = (ap_scalar_discr_t)rint_(0, 2);
    doing("linearization (%d,%d) of %s", dc, q, args); n_cases++;
    ap_linexpr0_t* l = ap_intlinearize_texpr0(M, a, e, &ex, dc, q);
    if (l) {
      if (q && !ap_linexpr0_is_quasilinear(l)) fail_("linearization", "%s: %s is not quasilinear", args, es(l));
      for (int i = 0; i < nP; i++) if (IN[i]) for (int k = 0; k < 4; k++) if (tev(e, &PT[i], v.q)) {
        evl(&L, &H, l, &PT[i]); v.inf = 0; if (xr_cmp(&v, &L) < 0 || xr_cmp(&v, &H) > 0) fail_("linearization", "%s: gives %s, which at %s lies in [%s,%s] and misses the value %s", args, es(l), pt_s(&PT[i]), xr_s(&L), xr_s(&H), xr_s(&v)); }
      ap_linexpr0_free(l);
    }
    if ((l = ap_intlinearize_texpr0_intlinear(M, e, dc))) {
      if (ap_texpr0_is_interval_linear(e)) for (int i = 0; i < nP; i++) for (int k = 0; k < 3; k++) if (tev(e, &PT[i], v.q)) {
        evl(&L, &H, l, &PT[i]); v.inf = 0; if (xr_cmp(&v, &L) < 0 || xr_cmp(&v, &H) > 0) fail_("linearization of interval linear trees", "%s: gives %s, which at %s lies in [%s,%s] and misses the value %s", args, es(l), pt_s(&PT[i]), xr_s(&L), xr_s(&H), xr_s(&v)); }
      ap_linexpr0_free(l);
    }
    xr_clear(&L); xr_clear(&H);
  }
  ap_texpr0_free(e); xr_clear(&v);
}
static void op_tmeet(ap_abstract0_t* a)
{
  int n = rint_(0, 3), of = !rint_(0, 5); ap_tcons0_array_t c = ap_tcons0_array_make(n); for (int i = 0; i < n; i++) c.p[i] = rtcons(&P0);
  const char* what = of ? "of_tcons_array" : "meet with tree constraints";
  snprintf(args, sizeof args, "%s with %s (%d integer of %d, algorithm %d)", as(a), tls(&c), id_, nd, ap_manager_get_funopt(M, AP_FUNID_MEET_TCONS_ARRAY).algorithm);
  RUN(what, r, (de_ && of) ? (ap_abstract0_free(M, A_), ap_abstract0_of_tcons_array(M, id_, nd - id_, &c)) : of ? ap_abstract0_of_tcons_array(M, id_, nd - id_, &c) : ap_abstract0_meet_tcons_array(M, de_, A_, &c));
  int ex = ex_; dimchk(what, r, id_, nd); stir(r); ap_lincons0_array_t l = listof(r); int any = 0;
  for (int i = 0; i < nP; i++) {
    int want = of || IN[i], sure = 1, got = sata(&l, &PT[i]);
    for (int j = 0; j < n; j++) { int s = tsat1(&c.p[j], &PT[i], 6); if (s != 1) want = 0; if (!tdet(c.p[j].texpr0) || s < 0) sure = 0; }
    if (want && !got) fail_(what, "%s: point %s is lost, result %s", args, pt_s(&PT[i]), as(r));
    if (got && !of && !IN[i]) fail_(what, "%s: point %s of the result %s is not in the operand", args, pt_s(&PT[i]), as(r));
    if (got && !want && sure && ex) fail_(what, "%s: reported exact, but the point %s of the result %s violates a constraint", args, pt_s(&PT[i]), as(r));
    any |= want;
  }
  if (any && ap_abstract0_is_bottom(M, r)) fail_(what, "%s: result reported empty", args);
  if (!of && !ap_abstract0_is_leq(M, r, a)) fail_(what, "%s: result %s not included in the operand", args, as(r));
  ap_lincons0_array_clear(&l); ap_tcons0_array_clear(&c); DONE(r);
}
static void op_tsat(ap_abstract0_t* a)
{
  ap_tcons0_t c = rtcons(&P0); ap_tcons0_array_t k = { &c, 1 };
  snprintf(args, sizeof args, "%s and %s (%d integer of %d)", as(a), tls(&k), id_, nd); doing("sat_tcons %s", args); n_cases++;
  if (ap_abstract0_sat_tcons(M, a, &c)) {
    xr v; xr_init(&v);
    for (int i = 0; i < nP; i++) if (IN[i]) for (int s = 0; s < 3; s++) if (tev(c.texpr0, &PT[i], v.q) && !ctyp(c.constyp, c.scalar, &v, &v)) fail_("sat_tcons", "%s: true, but at the point %s the expression is %s", args, pt_s(&PT[i]), xr_s(&v));
    xr_clear(&v);
  }
  ap_tcons0_clear(&c);
}
static char* tasg(ap_dim_t* t, ap_texpr0_t** e, int k) { static char b[4000]; char* p = b; for (int i = 0; i < k; i++) p += snprintf(p, 1100, "%sx%u := %s", i ? ", " : "", t[i], ts(e[i])), p = strlen(b) > 3000 ? b : b + strlen(b); return b; }
static void op_tassign(ap_abstract0_t* a, int subst)
{
  if (!nd) return;
  ap_dim_t t[DM]; ap_texpr0_t* e[DM]; int k = rdims(t, rint_(0, 3) ? 1 : rint_(1, nd)); const char* what = subst ? "substitution of trees" : "assignment of trees";
  for (int i = 0; i < k; i++) e[i] = rtree((int)t[i] < id_);
  pt y; mpq_t v; mpq_init(v); for (int i = 0; i < DM; i++) mpq_init(y.v[i]);
  ap_abstract0_t* dest = rint_(0, 4) ? 0 : rabs(&P0);
  snprintf(args, sizeof args, "%s of %s on %s%s%s (%d integer of %d)", what, tasg(t, e, k), as(a), dest ? " into " : "", dest ? as(dest) : "", id_, nd);
  RUN(what, r, k == 1 && rint_(0, 1) ? (subst ? ap_abstract0_substitute_texpr(M, de_, A_, t[0], e[0], dest) : ap_abstract0_assign_texpr(M, de_, A_, t[0], e[0], dest))
      : (subst ? ap_abstract0_substitute_texpr_array(M, de_, A_, t, e, k, dest) : ap_abstract0_assign_texpr_array(M, de_, A_, t, e, k, dest)));
  dimchk(what, r, id_, nd); stir(r);
  ap_lincons0_array_t l = listof(r), la = listof(a), ld; if (dest) ld = listof(dest);
  for (int i = 0; i < nP; i++) for (int rep = 0; rep < 3; rep++) {
    pt_set(&y, &PT[i]); int ok = 1;
    for (int j = 0; j < k && ok; j++) { ok = tev(e[j], &PT[i], v); if (ok) mpq_set(y.v[t[j]], v); }
    if (!ok) continue;
    if (!subst) { if (IN[i] && (!dest || sata(&ld, &y))) needs(what, &l, &y, &PT[i], r); }
    else if (sata(&la, &y) && (!dest || sata(&ld, &PT[i])) && !sata(&l, &PT[i])) fail_(what, "%s: %s is lost, its image %s is in the operand, result %s", args, pt_s(&PT[i]), pt_s(&y), as(r));
    if (dest && sata(&l, &PT[i]) && !sata(&ld, &PT[i])) fail_(what, "%s: %s of the result %s is not in the destination", args, pt_s(&PT[i]), as(r));
  }
  if (ap_abstract0_is_bottom(M, a) && !ap_abstract0_is_bottom(M, r)) fail_(what, "%s: result %s of an empty value is not empty", args, as(r));
  if (dest && !ap_abstract0_is_leq(M, r, dest)) fail_(what, "%s: result %s exceeds the destination", args, as(r));
  /* a tree that is linear over the reals gives what the linear expression gives */
  if (!dest && k == 1 && !id_) {
    ap_linexpr0_t* le = rle(nd, 0); ap_texpr0_t* te = ap_texpr0_from_linexpr0(le);
    snprintf(args, sizeof args, "%s of x%u := %s on %s", what, t[0], es(le), as(a)); doing("%s", args); n_cases++;
    ap_abstract0_t *u = subst ? ap_abstract0_substitute_linexpr(M, false, a, t[0], le, 0) : ap_abstract0_assign_linexpr(M, false, a, t[0], le, 0), *w = subst ? ap_abstract0_substitute_texpr(M, false, a, t[0], te, 0) : ap_abstract0_assign_texpr(M, false, a, t[0], te, 0);
    if (!dom_nocanon && !same(u, w)) fail_(what, "%s: as a tree %s, as a linear expression %s", args, as(w), as(u));
    ap_abstract0_free(M, u); ap_abstract0_free(M, w); ap_linexpr0_free(le); ap_texpr0_free(te);
  }
  ap_lincons0_array_clear(&l); ap_lincons0_array_clear(&la); if (dest) { ap_lincons0_array_clear(&ld); ap_abstract0_free(M, dest); }
  for (int i = 0; i < k; i++) ap_texpr0_free(e[i]);
  for (int i = 0; i < DM; i++) mpq_clear(y.v[i]); mpq_clear(v); DONE(r);
}
/* ---- the trees themselves ---- */
static int t_size(ap_texpr0_t* e) { return e->discr != AP_TEXPR_NODE ? 0 : 1 + t_size(e->val.node->exprA) + (e->val.node->exprB ? t_size(e->val.node->exprB) : 0); }
static int t_depth(ap_texpr0_t* e) { if (e->discr != AP_TEXPR_NODE) return 0; int a = t_depth(e->val.node->exprA), b = e->val.node->exprB ? t_depth(e->val.node->exprB) : 0; return 1 + (a > b ? a : b); }
static void t_dims(ap_texpr0_t* e, char* u) { if (e->discr == AP_TEXPR_DIM) u[e->val.dim] = 1; else if (e->discr == AP_TEXPR_NODE) { t_dims(e->val.node->exprA, u); if (e->val.node->exprB) t_dims(e->val.node->exprB, u); } }
static int t_scal(ap_texpr0_t* e) { return e->discr == AP_TEXPR_DIM ? 1 : e->discr == AP_TEXPR_CST ? (e->val.cst.discr == AP_COEFF_SCALAR || ap_scalar_equal(e->val.cst.val.interval->inf, e->val.cst.val.interval->sup)) : t_scal(e->val.node->exprA) && (!e->val.node->exprB || t_scal(e->val.node->exprB)); }
static int t_exact(ap_texpr0_t* e) { return e->discr != AP_TEXPR_NODE || ap_texpr0_is_interval_cst(e) || ((e->val.node->type == AP_RTYPE_REAL || e->val.node->op == AP_TEXPR_NEG || e->val.node->op == AP_TEXPR_MOD) && t_exact(e->val.node->exprA) && (!e->val.node->exprB || t_exact(e->val.node->exprB))); }
static void op_tree(void)
{
  if (!nd) return;
  t_flo = rint_(0, 1); ap_texpr0_t *e = rtx(nd, id_, rint_(0, 4), 0, rint_(0, 1) ? 0 : 25), *f = rtx(nd, id_, rint_(0, 2), 0, 0), *g; char u[DM] = {0}; mpq_t q, w; mpq_init(q); mpq_init(w); pt y; for (int i = 0; i < DM; i++) mpq_init(y.v[i]);
  snprintf(args, sizeof args, "%s and %s (%d dimensions)", ts(e), ts(f), nd); doing("tree functions on %s", args); n_cases++;
  t_dims(e, u); int mx = 0, any = 0; for (int d = 0; d < DM; d++) if (u[d]) { mx = d + 1; any = 1; }
  if ((int)ap_texpr0_size(e) != t_size(e)) fail_("size", "%s: %zu", args, ap_texpr0_size(e));
  if ((int)ap_texpr0_depth(e) != t_depth(e)) fail_("depth", "%s: %zu", args, ap_texpr0_depth(e));
  if ((int)ap_texpr0_max_dim(e) != mx) fail_("max_dim", "%s: %u", args, ap_texpr0_max_dim(e));
  for (int d = 0; d < nd; d++) if (ap_texpr0_has_dim(e, d) != u[d]) fail_("has_dim", "%s: %d for x%d", args, ap_texpr0_has_dim(e, d), d);
  ap_dim_t* dl = ap_texpr0_dimlist(e); int o = 0; for (int d = 0; d < DM; d++) if (u[d]) { if (dl[o] != (ap_dim_t)d) { fail_("dimlist", "%s: entry %d is %u", args, o, dl[o]); break; } o++; } if (!n_fail && dl[o] != AP_DIM_MAX) fail_("dimlist", "%s: not ended", args); free(dl);
  if (ap_texpr0_is_interval_cst(e) != !any) fail_("is_interval_cst", "%s", args);
  if (ap_texpr0_is_scalar(e) != t_scal(e)) fail_("is_scalar", "%s", args);
  g = ap_texpr0_copy(e); if (!ap_texpr0_equal(e, g) || !ap_texpr0_equal(g, e)) fail_("copy", "%s: the copy is not equal", args); if (ap_texpr0_hash(e) != ap_texpr0_hash(g)) fail_("hash", "%s: the hash of the copy differs", args); ap_texpr0_free(g);
  if (ap_texpr0_equal(e, f) != ap_texpr0_equal(f, e)) fail_("equal", "%s: not symmetric", args);
  if (ap_texpr0_equal(e, f)) { if (ap_texpr0_hash(e) != ap_texpr0_hash(f)) fail_("hash", "%s: equal trees, different hashes", args); if (tdet(e)) for (int i = 0; i < nP; i++) if (tev(e, &PT[i], q) && (!tev(f, &PT[i], w) || !mpq_equal(q, w))) fail_("equal", "%s: equal, but the values at %s differ", args, pt_s(&PT[i])); }
  /* linear: doubling the distance from a point doubles the increments */
  int lin = ap_texpr0_is_interval_linear(e); if (lin && !t_exact(e)) fail_("is_interval_linear", "%s: true, but a node rounds", args);
  if (lin && tdet(e) && nP > 1) { pt *A = &PT[0], *B = &PT[nP - 1]; mpq_t r; mpq_init(r); for (int d = 0; d < DM; d++) { mpq_add(y.v[d], B->v[d], B->v[d]); mpq_sub(y.v[d], y.v[d], A->v[d]); }
    if (tev(e, A, q) && tev(e, B, w) && tev(e, &y, r)) { mpq_add(r, r, q); mpq_add(w, w, w); if (!mpq_equal(r, w)) fail_("is_interval_linear", "%s: true, but not affine between %s and %s", args, pt_s(A), pt_s(B)); } mpq_clear(r); }
  /* substitution of a dimension */
  { int d = rint_(0, nd - 1); g = ap_texpr0_substitute(e, d, f); ap_texpr0_t* h = ap_texpr0_copy(e); ap_texpr0_substitute_with(h, d, f); n_cases++;
    if (!ap_texpr0_equal(g, h)) fail_("substitute", "%s: in place %s, in a copy %s", args, ts(h), ts(g));
    if (tdet(e) && tdet(f)) for (int i = 0; i < nP; i++) { pt_set(&y, &PT[i]); if (!tev(f, &PT[i], q)) continue; mpq_set(y.v[d], q); int s = tev(e, &y, w), s2 = tev(g, &PT[i], q); if (s && (!s2 || !mpq_equal(q, w))) fail_("substitute", "%s: x%d: gives %s, of another value at %s", args, d, ts(g), pt_s(&PT[i])); }
    ap_texpr0_free(g); ap_texpr0_free(h); }
  /* dimensions */
  { int k = rint_(0, 3); ap_dimchange_t c; ap_dimchange_init(&c, 0, k); for (int i = 0; i < k; i++) c.dim[i] = rint_(0, nd); for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (c.dim[j] < c.dim[i]) { ap_dim_t t = c.dim[i]; c.dim[i] = c.dim[j]; c.dim[j] = t; }
    g = ap_texpr0_add_dimensions(e, &c); n_cases++;
    ap_texpr0_t* h = ap_texpr0_copy(e); ap_texpr0_add_dimensions_with(h, &c); if (!ap_texpr0_equal(g, h)) fail_("add_dimensions", "%s: in place differs", args); ap_texpr0_free(h);
    if (tdet(e) && nd + k <= DM) for (int i = 0; i < nP; i++) { int p = 0, o = 0; for (int d = 0; d <= nd; d++) { while (p < k && (int)c.dim[p] == d) { mpq_set_si(y.v[o++], rint_(-9, 9), 1); p++; } if (d < nd) mpq_set(y.v[o++], PT[i].v[d]); } int s = tev(e, &PT[i], q), s2 = tev(g, &y, w); if (s != s2 || (s && !mpq_equal(q, w))) fail_("add_dimensions", "%s: %d added: gives %s", args, k, ts(g)); }
    ap_dimchange_t r; ap_dimchange_init(&r, 0, k); for (int i = 0; i < k; i++) r.dim[i] = c.dim[i] + i;
    h = ap_texpr0_remove_dimensions(g, &r); if (!ap_texpr0_equal(h, e)) fail_("remove_dimensions", "%s: adding and removing %d dimensions gives %s", args, k, ts(h)); ap_texpr0_free(h); ap_texpr0_free(g); ap_dimchange_clear(&c); ap_dimchange_clear(&r); }
  { int d = rint_(0, nd - 1); ap_dimchange_t r; ap_dimchange_init(&r, 0, 1); r.dim[0] = d; g = ap_texpr0_remove_dimensions(e, &r); ap_texpr0_t* h = ap_texpr0_copy(e); ap_texpr0_remove_dimensions_with(h, &r); n_cases++;
    if (!ap_texpr0_equal(g, h)) fail_("remove_dimensions", "%s: in place differs", args);
    if (!u[d] && tdet(e)) for (int i = 0; i < nP; i++) { int o = 0; for (int j = 0; j < nd; j++) if (j != d) mpq_set(y.v[o++], PT[i].v[j]); int s = tev(e, &PT[i], q), s2 = tev(g, &y, w); if (s != s2 || (s && !mpq_equal(q, w))) fail_("remove_dimensions", "%s: x%d removed: gives %s", args, d, ts(g)); }
    if (u[d]) { ap_texpr0_t* t = ap_texpr0_cst_interval_top(); ap_texpr0_t* e2 = ap_texpr0_substitute(e, d, t), *e3 = ap_texpr0_remove_dimensions(e2, &r); if (!ap_texpr0_equal(e3, g)) fail_("remove_dimensions", "%s: x%d removed: gives %s", args, d, ts(g)); ap_texpr0_free(t); ap_texpr0_free(e2); ap_texpr0_free(e3); }
    ap_texpr0_free(g); ap_texpr0_free(h); ap_dimchange_clear(&r); }
  { ap_dimperm_t p; ap_dimperm_init(&p, nd); ap_dimperm_set_id(&p); for (int i = 0; i < nd; i++) { int j = rint_(0, nd - 1); ap_dim_t t = p.dim[i]; p.dim[i] = p.dim[j]; p.dim[j] = t; }
    g = ap_texpr0_permute_dimensions(e, &p); ap_texpr0_t* h = ap_texpr0_copy(e); ap_texpr0_permute_dimensions_with(h, &p); n_cases++; if (!ap_texpr0_equal(g, h)) fail_("permute_dimensions", "%s: in place differs", args);
    if (tdet(e)) for (int i = 0; i < nP; i++) { for (int j = 0; j < nd; j++) mpq_set(y.v[p.dim[j]], PT[i].v[j]); int s = tev(e, &PT[i], q), s2 = tev(g, &y, w); if (s != s2 || (s && !mpq_equal(q, w))) fail_("permute_dimensions", "%s: gives %s", args, ts(g)); }
    ap_texpr0_free(g); ap_texpr0_free(h); ap_dimperm_clear(&p); }
  /* from linear expressions */
  { ap_linexpr0_t* l = rle(nd, rint_(0, 1) ? 0 : 30); g = ap_texpr0_from_linexpr0(l); xr L, H; xr_init(&L); xr_init(&H); n_cases++; snprintf(args, sizeof args, "%s", es(l));
    if (!ap_texpr0_is_interval_linear(g)) fail_("from_linexpr0", "%s: %s is not linear", args, ts(g));
    for (int i = 0; i < nP; i++) for (int s = 0; s < 2; s++) if (tev(g, &PT[i], q)) { evl(&L, &H, l, &PT[i]); xr v; xr_init(&v); mpq_set(v.q, q); if (xr_cmp(&v, &L) < 0 || xr_cmp(&v, &H) > 0) fail_("from_linexpr0", "%s: gives %s, which at %s is %s", args, ts(g), pt_s(&PT[i]), xr_s(&v)); xr_clear(&v); }
    xr_clear(&L); xr_clear(&H); ap_texpr0_free(g); ap_linexpr0_free(l); }
  ap_texpr0_free(e); ap_texpr0_free(f); mpq_clear(q); mpq_clear(w); for (int i = 0; i < DM; i++) mpq_clear(y.v[i]);
}
int main(int argc, char** argv)
{
  ap_manager_t* m[4] = { box_manager_alloc(), oct_manager_alloc(), pk_manager_alloc(false), pk_manager_alloc(true) };
  for (int k = 3; k >= 0; k--) d_init(argc, argv, m[k]);
  int rounds = thor ? 3000 : 320; static const int algo[4] = {0, 100, 105, 2};
  for (int r = 0; r < rounds; r++) {
    static const int which[8] = {0, 1, 2, 0, 1, 0, 1, 3}; M = m[which[r % 8]]; dom_nocanon = which[r % 8] == 1;
    ap_funopt_t o = ap_manager_get_funopt(M, AP_FUNID_MEET_TCONS_ARRAY); o.algorithm = algo[rint_(0, 3)]; ap_manager_set_funopt(M, AP_FUNID_MEET_TCONS_ARRAY, &o);
    d_new(); ap_abstract0_t* a = rabs(&P0); points(a);
    op_tbound(a); op_tbound(a); op_tmeet(a); op_tmeet(a); op_tmeet(a); op_tsat(a); op_tsat(a); op_tassign(a, 0); op_tassign(a, 0); op_tassign(a, 1); op_tree(); op_tree();
    ap_abstract0_free(M, a);
  }
  return h_done();
}
