#include "h.h"
#include "ap_dimension.h"
/* dimension changes and permutations, on all small cases */
int main(int argc, char** argv)
{
  h_init(argc, argv);
  for (int n = 0; n < 60000; n++) {
    int sz = rint_(0, 7);
    ap_dimperm_t *p = ap_dimperm_alloc(sz), *q = ap_dimperm_alloc(sz), *r = ap_dimperm_alloc(sz);
    ap_dimperm_set_id(p); ap_dimperm_set_id(q);
    for (int k = 0; k < sz; k++) if (p->dim[k] != k) fail_("set_id", "size %d: entry %d is %u", sz, k, p->dim[k]);
    for (int k = 0; k < sz; k++) { int a = rint_(k, sz - 1), t = p->dim[k]; p->dim[k] = p->dim[a]; p->dim[a] = t; a = rint_(k, sz - 1); t = q->dim[k]; q->dim[k] = q->dim[a]; q->dim[a] = t; }
    unsigned P[8], Q[8]; for (int k = 0; k < sz; k++) P[k] = p->dim[k], Q[k] = q->dim[k];
    ap_dimperm_compose(r, p, q); n_cases++;
    for (int k = 0; k < sz; k++) if (r->dim[k] != Q[P[k]]) fail_("compose", "size %d: entry %d is %u, not %u", sz, k, r->dim[k], Q[P[k]]);
    ap_dimperm_invert(r, p);
    for (int k = 0; k < sz; k++) if (r->dim[P[k]] != k) fail_("invert", "size %d: the image of %d is not sent back", sz, k);
    for (int k = 0; k < sz; k++) if (p->dim[k] != P[k] || q->dim[k] != Q[k]) fail_("compose/invert", "operand changed");
    ap_dimperm_compose(p, p, q); for (int k = 0; k < sz; k++) if (p->dim[k] != Q[P[k]]) fail_("compose in place", "size %d entry %d", sz, k);
    if (r->size != sz) fail_("size", "%d", sz);
    ap_dimperm_free(p); ap_dimperm_free(q); ap_dimperm_free(r);
    int i = rint_(0, 3), m = rint_(0, 3), sp = rint_(0, 5); ap_dimchange_t* c = ap_dimchange_alloc(i, m); unsigned D[8];
    if (c->intdim != i || c->realdim != m) fail_("dimchange_alloc", "%d %d", i, m);
    for (int k = 0; k < i + m; k++) c->dim[k] = rint_(0, sp);
    for (int a = 0; a < i + m; a++) for (int b = 0; b + 1 < i + m; b++) if (c->dim[b] > c->dim[b + 1]) { int t = c->dim[b]; c->dim[b] = c->dim[b + 1]; c->dim[b + 1] = t; }
    for (int k = 0; k < i + m; k++) D[k] = c->dim[k];
    ap_dimchange_add_invert(c); n_cases++;
    for (int k = 0; k < i + m; k++) if (c->dim[k] != D[k] + k) fail_("add_invert", "%d+%d: entry %d is %u, not %u", i, m, k, c->dim[k], D[k] + k);
    if (c->intdim != i || c->realdim != m) fail_("add_invert", "sizes changed");
    ap_dimchange_clear(c); if (c->intdim || c->realdim || c->dim) fail_("clear", "%d %d", i, m);
    free(c);
  }
  return h_done();
}
