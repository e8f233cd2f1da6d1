#include "hlin.h"
/* linear expressions, constraints and generators against arrays of coefficients */
static int typ(const lx* o, ap_linexpr0_t* e)   /* 0 linear 1 quasi 2 interval; on the kinds stored */
{ (void)e; int q = 0; for (size_t i = 0; i < o->nd; i++) if (o->c[i].k) q = 1; return q ? 2 : o->cst.k ? 1 : 0; }
static int TY(ap_linexpr_type_t t) { return t == AP_LINEXPR_LINEAR ? 0 : t == AP_LINEXPR_QUASILINEAR ? 1 : 2; }
static void bl(const char* w, int r, int e, const lx* o) { n_cases++; if (!!r != !!e) fail_(w, "returned %d, expected %d for %s", r, e, lx_s(o)); }
static int free_nonzero(ap_linexpr0_t* e) { if (e->discr) for (size_t i = 0; i < e->size; i++) if (e->p.linterm[i].dim == AP_DIM_MAX) { co c = get_co(&e->p.linterm[i].coeff); if (!co_zero(&c)) return 1; } return 0; }
static ap_linexpr0_t* cpy(ap_linexpr0_t* e) { return ap_linexpr0_copy(e); }
static void rdimchange(ap_dimchange_t* d, int* map, size_t nd, size_t room)   /* map[old] = new */
{
  size_t k = rint_(0, room > 5 ? 5 : (int)room); d->intdim = rint_(0, k); d->realdim = k - d->intdim; d->dim = malloc(k * sizeof(ap_dim_t) + 1);
  for (size_t i = 0; i < k; i++) d->dim[i] = rint_(0, nd);
  for (size_t i = 0; i < k; i++) for (size_t j = 0; j + 1 < k; j++) if (d->dim[j] > d->dim[j + 1]) { ap_dim_t t = d->dim[j]; d->dim[j] = d->dim[j + 1]; d->dim[j + 1] = t; }
  for (size_t i = 0; i < nd; i++) { size_t n = 0; for (size_t j = 0; j < k; j++) if (d->dim[j] <= i) n++; map[i] = i + n; }
}
static void xmap(lx* r, const lx* o, const int* map, size_t nd) { *r = *o; r->nd = nd; for (int i = 0; i < LD; i++) r->c[i] = CO0; for (size_t i = 0; i < o->nd; i++) r->c[map[i]] = o->c[i]; }
static void rperm(ap_dimperm_t* p, int* map, size_t n) { p->size = n; p->dim = malloc(n * sizeof(ap_dim_t) + 1); for (size_t i = 0; i < n; i++) p->dim[i] = i; for (size_t i = n; i > 1; i--) { int j = rint_(0, i - 1); ap_dim_t t = p->dim[i - 1]; p->dim[i - 1] = p->dim[j]; p->dim[j] = t; } for (size_t i = 0; i < n; i++) map[i] = p->dim[i]; }
static ap_coeff_t* red(const co* o) { ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); co t = *o; if (t.l == t.h) t.k = 0; put_co(c, &t); return c; }
static int holds(double v, int ty, double m)
{
  switch (ty) { case AP_CONS_EQ: return v == 0; case AP_CONS_DISEQ: return v != 0; case AP_CONS_SUPEQ: return v >= 0; case AP_CONS_SUP: return v > 0;
  default: return m == 0 ? v == 0 : fmod(v, m) == 0; }
}
static int hall(const co* c, int ty, double m)
{
  if (c->l == c->h) return holds(c->l, ty, m);
  switch (ty) { case AP_CONS_EQ: case AP_CONS_EQMOD: return 0; case AP_CONS_DISEQ: return c->l > 0 || c->h < 0; case AP_CONS_SUPEQ: return c->l >= 0; default: return c->l > 0; }
}
static int hsome(const co* c, int ty, double m)
{
  if (c->l == c->h) return holds(c->l, ty, m);
  switch (ty) { case AP_CONS_EQ: return c->l <= 0 && c->h >= 0; case AP_CONS_DISEQ: return 1; case AP_CONS_SUPEQ: return c->h >= 0; case AP_CONS_SUP: return c->h > 0;
  default: if (c->l <= 0 && c->h >= 0) return 1; if (m == 0) return 0; if (isinf(c->l) || isinf(c->h)) return 1; m = fabs(m); return floor(c->h / m) * m >= c->l; }
}

int main(int argc, char** argv)
{
  h_init(argc, argv);
  for (int n = 0; n < 14000; n++) {
    size_t nd = rint_(0, 3) ? rint_(0, 6) : rint_(10, 36); int pint = rint_(0, 2) * 20; lx A, B, R; int map[LD];
    ap_linexpr0_t *e = rlin(&A, nd, pint, 1), *f; co c; ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR);
    doing("expression %s over %zu dimensions", lx_s(&A), nd);
    lxchk("construction", e, &A, 1);
    { ap_linexpr0_t* t = ap_linexpr0_alloc(n & 1, nd); R.nd = nd; R.discr = n & 1; for (int i = 0; i < LD; i++) R.c[i] = CO0; R.cst = CO0; lxchk("alloc", t, &R, 1); if (t->size != nd) fail_("alloc", "size %zu", t->size); ap_linexpr0_free(t); }
    /* tests */
    size_t id = rint_(0, nd), i; int nint = 0, nreal = 0;
    for (i = 0; i < nd; i++) if (!co_zero(&A.c[i])) { if (i < id) nint = 1; else nreal = 1; }
    bl("is_integer", ap_linexpr0_is_integer(e, id), !nreal, &A); bl("is_real", ap_linexpr0_is_real(e, id), !nint, &A);
    bl("is_linear", ap_linexpr0_is_linear(e), typ(&A, e) == 0, &A); bl("is_quasilinear", ap_linexpr0_is_quasilinear(e), typ(&A, e) != 2, &A);
    n_cases++; if (TY(ap_linexpr0_type(e)) != typ(&A, e)) fail_("type", "class %d, expected %d for %s", TY(ap_linexpr0_type(e)), typ(&A, e), lx_s(&A));
    lxchk("tests", e, &A, 1);
    /* copy, realloc, minimize */
    f = cpy(e); lxchk("copy", f, &A, 1); if (f->size != e->size) fail_("copy", "size %zu instead of %zu", f->size, e->size);
    for (i = 0; i < f->size; i++) if (f->discr) { if (f->p.linterm[i].dim != e->p.linterm[i].dim) fail_("copy", "dimensions"); }
    ap_linexpr0_minimize(f); R = A; lxchk("minimize", f, &R, 0);
    for (i = 0; i < f->size; i++) { c = get_co(f->discr ? &f->p.linterm[i].coeff : &f->p.coeff[i]); if (c.k && c.l == c.h) fail_("minimize", "point interval left in %s", lx_s(&A)); if (f->discr && (co_zero(&c) || f->p.linterm[i].dim == AP_DIM_MAX)) fail_("minimize", "useless term left in %s", lx_s(&A)); }
    lxchk("minimize of a copy", e, &A, 1); ap_linexpr0_free(f);
    f = cpy(e); { size_t ns = rint_(0, nd + 3), os = f->size; R = A; ap_linexpr0_realloc(f, ns); if (f->size != ns) fail_("realloc", "size %zu, asked %zu", f->size, ns);
      if (!f->discr) { for (i = ns; i < LD; i++) R.c[i] = CO0; R.nd = ns; } else for (i = ns; i < os; i++) if (e->p.linterm[i].dim != AP_DIM_MAX) R.c[e->p.linterm[i].dim] = CO0;
      lxchk("realloc", f, &R, 1); if (free_nonzero(f)) fail_("realloc", "free term with a coefficient"); } ap_linexpr0_free(f);
    /* access */
    f = cpy(e); R = A;
    for (int m = rint_(1, 6); m > 0; m--) {
      ap_dim_t d = rint_(0, nd + 2); int out = !R.discr && d >= R.nd; c = rint_(0, 1) && d < LD ? R.c[d] : rco(pint, 1); 
      doing("access to x%u in %s", d, lx_s(&R));
      if (!rint_(0, 9)) { if (R.discr && (ap_linexpr0_coeffref(f, AP_DIM_MAX) || !ap_linexpr0_get_coeff(k, f, AP_DIM_MAX))) fail_("coeffref", "of the reserved dimension"); }
      int r = ap_linexpr0_get_coeff(k, f, d); n_cases++;
      if (r != out) fail_("get_coeff", "x%u: returned %d in %s", d, r, lx_s(&R)); else if (!r) { co t = get_co(k); if (!co_eq(&t, &R.c[d])) fail_("get_coeff", "x%u: %s in %s", d, co_s(&t), lx_s(&R)); }
      lxchk("get_coeff", f, &R, 1);
      ap_coeff_t* p = NULL; int h = rint_(0, 5);
      switch (h) {
      case 0: p = ap_linexpr0_coeffref(f, d); r = p == NULL; if (p) { co t = get_co(p); if (!co_eq(&t, &R.c[d])) fail_("coeffref", "x%u: %s in %s", d, co_s(&t), lx_s(&R)); } if (!out && d >= R.nd) R.nd = d + 1; break;
      case 1: put_co(k, &c); r = ap_linexpr0_set_coeff(f, d, k); break;
      case 2: c.k = 0; c.l = c.h = rint_(-5, 5); r = ap_linexpr0_set_coeff_scalar_int(f, d, (int)c.l); break;
      case 3: c.k = 1; c.l = -3; c.h = rint_(0, 3); r = rint_(0, 1) ? ap_linexpr0_set_coeff_interval_int(f, d, -3, (int)c.h) : ap_linexpr0_set_coeff_interval_double(f, d, -3, c.h); break;
      case 4: c.k = 0; c.l = c.h = rint_(-9, 9) / 4.; r = rint_(0, 1) ? ap_linexpr0_set_coeff_scalar_frac(f, d, (int)(c.l * 4), 4) : ap_linexpr0_set_coeff_scalar_double(f, d, c.l); break;
      default: { co s = {0, rint_(-9, 9) / 4., 0}, z = {1, -1.5, rint_(0, 9) / 4.}; s.h = s.l; ap_dim_t d2 = rint_(0, nd + 2); int o2 = !R.discr && d2 >= R.nd;
        r = ap_linexpr0_set_list(f, AP_COEFF_S_FRAC, (int)(s.l * 4), 4, d, AP_CST_I_DOUBLE, z.l, z.h, AP_COEFF_I_FRAC, -6, 4, (int)(z.h * 4), 4, d2, AP_CST_S_INT, 7, AP_END);
        if (!!r != (out || o2)) fail_("set_list", "returned %d for x%u x%u in %s", r, d, d2, lx_s(&R));
        if (!out) { if (d >= R.nd) R.nd = d + 1; R.c[d] = s; R.cst = z; if (!o2) { if (d2 >= R.nd) R.nd = d2 + 1; R.c[d2] = z; R.cst.k = 0; R.cst.l = R.cst.h = 7; } } lxchk("set_list", f, &R, 1); continue; }
      }
      if (!!r != out) fail_("coeffref", "x%u: success %d in %s", d, !r, lx_s(&R));
      if (!out && h) { if (d >= R.nd) R.nd = d + 1; R.c[d] = c; }
      lxchk("coefficient update", f, &R, 1); if (free_nonzero(f)) fail_("coefficient update", "free term with a coefficient");
    }
    c = rco(pint, 1); put_co(k, &c); ap_linexpr0_set_cst(f, k); R.cst = c; lxchk("set_cst", f, &R, 1); ap_linexpr0_get_cst(k, f); { co t = get_co(k); if (!co_eq(&t, &c)) fail_("get_cst", "%s", co_s(&t)); }
    ap_linexpr0_free(f);
    /* dimensions */
    { ap_dimchange_t dc; rdimchange(&dc, map, nd, LD - nd - 1); size_t m = dc.intdim + dc.realdim; xmap(&R, &A, map, nd + m); doing("adding %zu dimensions to %s", m, lx_s(&A));
      f = ap_linexpr0_add_dimensions(e, &dc); lxchk("add_dimensions", f, &R, 0); ap_linexpr0_free(f); lxchk("add_dimensions source", e, &A, 1); f = cpy(e); ap_linexpr0_add_dimensions_with(f, &dc); lxchk("add_dimensions_with", f, &R, 0); ap_linexpr0_free(f); free(dc.dim); }
    { ap_dimperm_t p; rperm(&p, map, nd); xmap(&R, &A, map, nd); doing("permuting %s", lx_s(&A));
      f = ap_linexpr0_permute_dimensions(e, &p); lxchk("permute_dimensions", f, &R, 1); ap_linexpr0_free(f); lxchk("permute_dimensions source", e, &A, 1); f = cpy(e); ap_linexpr0_permute_dimensions_with(f, &p); lxchk("permute_dimensions_with", f, &R, 1); ap_linexpr0_free(f); free(p.dim); }
    if (ap_linexpr0_add_dimensions(NULL, NULL) || ap_linexpr0_permute_dimensions(NULL, NULL)) fail_("add_dimensions", "of nothing");
    /* comparison: against itself in another representation with one change */
    { size_t n2 = rint_(0, 2) ? nd : (size_t)rint_(0, 8); f = rlin(&B, n2, pint, 1); int df = rint_(0, 2);
      if (df) { ap_linexpr0_free(f); B = A; B.discr = rint_(0, 1); if (df == 2) { int w = rint_(-1, (int)nd - 1); if (w < 0) B.cst = rco(pint, 1); else B.c[w] = rco(pint, 1); }
        if (B.discr == AP_LINEXPR_DENSE) { f = ap_linexpr0_alloc(AP_LINEXPR_DENSE, nd); for (i = 0; i < nd; i++) put_co(&f->p.coeff[i], &B.c[i]); }
        else { f = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, rint_(0, 3)); for (i = nd; i > 0; i--) if (!co_zero(&B.c[i - 1]) || rint_(0, 1)) put_co(ap_linexpr0_coeffref(f, i - 1), &B.c[i - 1]); else B.c[i - 1] = CO0; }
        put_co(&f->cst, &B.cst); lxchk("construction by insertion", f, &B, 1); }
      doing("comparison of %s and %s", lx_s(&A), lx_s(&B));
      int eq = co_eq(&A.cst, &B.cst), cmp = 0; for (i = 0; i < LD; i++) { if (!co_eq(&A.c[i], &B.c[i])) eq = 0; if (!cmp) { ap_coeff_t *x = red(&A.c[i]), *y = red(&B.c[i]); cmp = ap_coeff_cmp(x, y); ap_coeff_free(x); ap_coeff_free(y); } }
      if (!cmp) { ap_coeff_t *x = red(&A.cst), *y = red(&B.cst); cmp = ap_coeff_cmp(x, y); ap_coeff_free(x); ap_coeff_free(y); }
      ap_linexpr0_t *e1 = cpy(e), *f1 = cpy(f); n_cases += 2;
      int r = ap_linexpr0_equal(e1, f1); if (!!r != eq) fail_("equal", "returned %d for %s and %s", r, lx_s(&A), lx_s(&B)); lxchk("equal", e1, &A, 0); lxchk("equal", f1, &B, 0);
      r = ap_linexpr0_compare(e1, f1); if (r != cmp) fail_("compare", "returned %d, expected %d, for %s and %s", r, cmp, lx_s(&A), lx_s(&B)); lxchk("compare", e1, &A, 0); lxchk("compare", f1, &B, 0);
      ap_linexpr0_free(f1); f1 = cpy(e1); if (ap_linexpr0_hash(f1) != ap_linexpr0_hash(e1)) fail_("hash", "copies differ"); lxchk("hash", f1, &A, 0); ap_linexpr0_free(e1); ap_linexpr0_free(f1);
      { ap_linexpr0_t* T[3] = {e, f, e}; lx* O[2] = {&A, &B}; int sz = rint_(0, 2), lin = 1, q = 1, ty = 0; for (int j = 0; j < sz; j++) { int t = typ(O[j], T[j]); if (t) lin = 0; if (t == 2) q = 0; if (t > ty) ty = t; }
        bl("array_is_linear", ap_linexpr0_array_is_linear(T, sz), lin, &A); bl("array_is_quasilinear", ap_linexpr0_array_is_quasilinear(T, sz), q, &A); if (TY(ap_linexpr0_array_type(T, sz)) != ty) fail_("array_type", "class %d, expected %d", TY(ap_linexpr0_array_type(T, sz)), ty);
        ap_lincons0_array_t L = ap_lincons0_array_make(sz + 1); for (int j = 0; j <= sz; j++) if (L.p[j].linexpr0 || L.p[j].scalar) fail_("lincons_array_make", "not empty");
        ap_generator0_array_t G = ap_generator0_array_make(sz + 1); for (int j = 0; j <= sz; j++) if (G.p[j].linexpr0) fail_("generator_array_make", "not empty");
        if ((int)L.size != sz + 1 || (int)G.size != sz + 1) fail_("array_make", "size");
        for (int j = 0; j < sz; j++) { L.p[j] = ap_lincons0_make(AP_CONS_SUPEQ, cpy(T[j]), NULL); G.p[j] = ap_generator0_make(AP_GEN_RAY, cpy(T[j])); }
        ap_lincons0_array_resize(&L, sz + 3); for (int j = sz; j < sz + 3; j++) if (L.p[j].linexpr0 || L.p[j].scalar) fail_("lincons_array_resize", "not empty"); 
        ap_generator0_array_resize(&G, sz + 3); for (int j = sz; j < sz + 3; j++) if (G.p[j].linexpr0) fail_("generator_array_resize", "not empty");
        for (int j = 0; j < sz; j++) { lxchk("lincons_array_resize", L.p[j].linexpr0, O[j], 1); lxchk("generator_array_resize", G.p[j].linexpr0, O[j], 1); }
        if (sz) { ap_lincons0_array_resize(&L, sz); ap_generator0_array_resize(&G, sz); bl("lincons_array_is_linear", ap_lincons0_array_is_linear(&L), lin, &A); bl("lincons_array_is_quasilinear", ap_lincons0_array_is_quasilinear(&L), q, &A); if (TY(ap_lincons0_array_type(&L)) != ty) fail_("lincons_array_type", "class %d, expected %d", TY(ap_lincons0_array_type(&L)), ty);
          size_t mx = A.nd > B.nd ? A.nd : B.nd; ap_dimchange_t dc; rdimchange(&dc, map, mx, LD - mx - 1);
          ap_lincons0_array_t L2 = ap_lincons0_array_add_dimensions(&L, &dc); ap_generator0_array_t G2 = ap_generator0_array_add_dimensions(&G, &dc);
          if (A.nd == B.nd) { for (int j = 0; j < sz; j++) { xmap(&R, O[j], map, mx + dc.intdim + dc.realdim); lxchk("lincons_array_add_dimensions", L2.p[j].linexpr0, &R, 0); lxchk("generator_array_add_dimensions", G2.p[j].linexpr0, &R, 0); lxchk("lincons_array_add_dimensions source", L.p[j].linexpr0, O[j], 1); if (L2.p[j].constyp != AP_CONS_SUPEQ || G2.p[j].gentyp != AP_GEN_RAY) fail_("array_add_dimensions", "kind"); }
            ap_lincons0_array_clear(&L2); ap_generator0_array_clear(&G2); ap_dimperm_t p; rperm(&p, map, mx); L2 = ap_lincons0_array_permute_dimensions(&L, &p); G2 = ap_generator0_array_permute_dimensions(&G, &p);
            ap_lincons0_array_permute_dimensions_with(&L, &p); ap_generator0_array_permute_dimensions_with(&G, &p);
            for (int j = 0; j < sz; j++) { xmap(&R, O[j], map, mx); lxchk("lincons_array_permute_dimensions", L2.p[j].linexpr0, &R, 1); lxchk("generator_array_permute_dimensions", G2.p[j].linexpr0, &R, 1); lxchk("lincons_array_permute_dimensions_with", L.p[j].linexpr0, &R, 1); lxchk("generator_array_permute_dimensions_with", G.p[j].linexpr0, &R, 1); if (L2.p[j].constyp != AP_CONS_SUPEQ || G2.p[j].gentyp != AP_GEN_RAY) fail_("array_permute_dimensions", "kind"); }
            free(p.dim); }
          ap_lincons0_array_clear(&L2); ap_generator0_array_clear(&G2); free(dc.dim); }
        ap_lincons0_array_clear(&L); ap_generator0_array_clear(&G); if (L.p || G.p) fail_("array_clear", "still there"); }
      ap_linexpr0_free(f); }
    ap_coeff_free(k); ap_linexpr0_free(e);
  }
  /* constraints on constants */
  { ap_lincons0_t u = ap_lincons0_make_unsat(); if (!ap_lincons0_is_unsat(&u) || ap_lincons0_is_sat(&u)) fail_("make_unsat", "not unsatisfiable"); ap_lincons0_clear(&u); }
  for (int n = 0; n < 30000; n++) {
    lx A; size_t nd = rint_(0, 4); ap_linexpr0_t* e = rlin(&A, nd, 40, 1); int zero = rint_(0, 3), ty = (int[]){AP_CONS_EQ, AP_CONS_DISEQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD}[rint_(0, 4)]; double m = rint_(0, 8) / 4.; size_t i;
    if (zero) for (i = 0; i < nd; i++) { A.c[i].l = A.c[i].h = 0; if (e->discr == AP_LINEXPR_SPARSE) A.c[i].k = 0; if (e->discr == AP_LINEXPR_DENSE) put_co(&e->p.coeff[i], &A.c[i]); } 
    if (zero && e->discr == AP_LINEXPR_SPARSE) for (i = 0; i < e->size; i++) put_co(&e->p.linterm[i].coeff, &CO0);
    ap_scalar_t* s = NULL; if (ty == AP_CONS_EQMOD) { s = ap_scalar_alloc(); put_s(s, m); }
    ap_lincons0_t L = ap_lincons0_make(ty, e, s); zero = 1; for (i = 0; i < nd; i++) if (!co_zero(&A.c[i])) zero = 0;
    doing("constraint of type %d on %s modulo %g", ty, lx_s(&A), m); n_cases++;
    int u = ap_lincons0_is_unsat(&L), t = ap_lincons0_is_sat(&L), all = zero && hall(&A.cst, ty, m), some = !zero || hsome(&A.cst, ty, m);
    if (u && some) fail_("is_unsat", "answers true for %s of type %d modulo %g", lx_s(&A), ty, m);
    if (t && !all) fail_("is_sat", "answers true for %s of type %d modulo %g", lx_s(&A), ty, m);
    if (ty != AP_CONS_EQMOD && u != !some) fail_("is_unsat", "answers false for %s of type %d", lx_s(&A), ty);
    if (ty != AP_CONS_EQMOD && t != all) fail_("is_sat", "answers false for %s of type %d", lx_s(&A), ty);
    if (ty == AP_CONS_EQMOD && zero && !t && co_zero(&A.cst)) fail_("is_sat", "answers false for 0 modulo %g", m);
    ap_lincons0_t M = ap_lincons0_copy(&L); if ((int)M.constyp != ty || (s ? !M.scalar || M.scalar == s || get_s(M.scalar) != m : M.scalar != NULL)) fail_("lincons_copy", "type or modulus"); lxchk("lincons_copy", M.linexpr0, &A, 1); lxchk("lincons tests", L.linexpr0, &A, 1);
    ap_lincons0_clear(&M); if (M.linexpr0 || M.scalar) fail_("lincons_clear", "still there"); ap_lincons0_clear(&L);
  }
  return h_done();
}
