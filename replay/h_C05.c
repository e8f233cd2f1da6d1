#include "hoct.h"
/* dimension operations of the octagon domain, in every representation, against closed oracles */
static char args[9000];
static void map_(oo* e, const oo* x, const int* to)   /* to[v] = place of variable v in e, or -1 */
{ for (int i = 0; i < 2 * x->n; i++) for (int j = 0; j < 2 * x->n; j++) if (to[i / 2] >= 0 && to[j / 2] >= 0) xr_set(&e->m[2 * to[i / 2] + (i & 1)][2 * to[j / 2] + (j & 1)], &x->m[i][j]); }
static void forget(oo* e, int v) { for (int i = 0; i < 2 * e->n; i++) for (int j = 0; j < 2 * e->n; j++) if (i != j && (i / 2 == v || j / 2 == v)) xr_inf(&e->m[i][j], 1); }
static void zero(oo* e, int v) { xr z; xr_init(&z); oo_add(e, 2 * v, 2 * v + 1, &z); oo_add(e, 2 * v + 1, 2 * v, &z); xr_clear(&z); }
int main(int argc, char** argv)
{
  o_init(argc, argv);
  oo *x = oo_new(), *x0 = oo_new(), *e = oo_new(), *f = oo_new(), *g = oo_new();
  int rounds = thorough() ? 40000 : 4000;
  for (int rd = 0; rd < rounds; rd++) {
    int big = rd % 60 == 11, nb = big ? rint_(5, 10) : rint_(0, 4), id = rint_(0, nb), d, rep = rint_(0, 2); roo(x0, nb, id);
    oo_set(x, x0); oct_t *a = oo_to(x, rep), *c; oo_close(x);
    char base[8000]; snprintf(base, sizeof base, "%s (rep %d)", oo_s(x0), rep);
#define CALL(what, call) do { for (d = 0; d < 2; d++) { oct_t* in_; if (d) { oo_set(g, x0); in_ = oo_to(g, rep); } else in_ = a; c = call; chk(what, c, e, args); if (!d) { same(what, a, x); oct_free(M, a); oo_set(g, x0); a = oo_to(g, rep); } \
      if (!e->bot) { oct_t* k_ = oct_copy(M, c); if (oct_is_bottom(M, k_)) fail_(what, "%s: found empty", args); oct_free(M, k_); } oct_free(M, c); } } while (0)
    /* addition */
    { int ai = rint_(0, 3), ar = rint_(0, 2), pr = rint_(0, 1), to[MAXN], nw[MAXN], k = 0, o = 0; if (!(ai + ar)) ai = 1; ap_dimchange_t* ch = ap_dimchange_alloc(ai, ar);
      for (int k = 0; k < ai; k++) ch->dim[k] = rint_(0, id); for (int k = 0; k < ar; k++) ch->dim[ai + k] = rint_(id, nb);
      for (int p = 0; p < ai + ar; p++) for (int q = 0; q + 1 < ai + ar; q++) if ((q + 1 < ai || q >= ai) && ch->dim[q] > ch->dim[q + 1]) { int t = ch->dim[q]; ch->dim[q] = ch->dim[q + 1]; ch->dim[q + 1] = t; }
      oo_top(e, nb + ai + ar, id + ai); e->bot = x->bot;
      for (int p = 0; p <= nb; p++) { while (k < ai + ar && ch->dim[k] == p) nw[k++] = o++; if (p < nb) to[p] = o++; }
      map_(e, x, to); if (pr) { for (k = 0; k < ai + ar; k++) zero(e, nw[k]); oo_close(e); }
      char* s = args + snprintf(args, 8500, "%s add(%d+%d,project=%d)", base, ai, ar, pr); for (int p = 0; p < ai + ar; p++) s += sprintf(s, " %d", ch->dim[p]); doing("%s", args);
      CALL("add_dimensions", oct_add_dimensions(M, d, in_, ch, pr)); ap_dimchange_free(ch); }
    /* removal */
    { int to[MAXN], ri_ = 0, rr = 0; for (int p = 0; p < nb; p++) { to[p] = rint_(0, 2) ? 0 : -1; if (to[p]) p < id ? ri_++ : rr++; }
      if (ri_ + rr) { ap_dimchange_t* ch = ap_dimchange_alloc(ri_, rr); int k = 0, o = 0; oo_top(e, nb - ri_ - rr, id - ri_); e->bot = x->bot;
        char* s = args + snprintf(args, 8500, "%s remove", base);
        for (int p = 0; p < nb; p++) if (to[p]) { ch->dim[k++] = p; s += sprintf(s, " %d", p); } else to[p] = o++;
        map_(e, x, to); doing("%s", args); CALL("remove_dimensions", oct_remove_dimensions(M, d, in_, ch)); ap_dimchange_free(ch); } }
    /* permutation */
    { int to[MAXN]; ap_dimperm_t* pm = ap_dimperm_alloc(nb); for (int p = 0; p < nb; p++) pm->dim[p] = p;
      for (int p = 0; p < nb; p++) { int q = rint_(p, nb - 1), t = pm->dim[p]; pm->dim[p] = pm->dim[q]; pm->dim[q] = t; }
      oo_top(e, nb, id); e->bot = x->bot; char* s = args + snprintf(args, 8500, "%s permute", base);
      for (int p = 0; p < nb; p++) { to[p] = pm->dim[p]; s += sprintf(s, " %d", pm->dim[p]); }
      map_(e, x, to); doing("%s", args); CALL("permute_dimensions", oct_permute_dimensions(M, d, in_, pm)); ap_dimperm_free(pm); }
    /* forget */
    { ap_dim_t t[8]; int m = nb ? rint_(0, 4) : 0, pr = rint_(0, 1); oo_set(e, x); char* s = args + snprintf(args, 8500, "%s forget(project=%d)", base, pr);
      for (int k = 0; k < m; k++) { t[k] = rint_(0, nb - 1); s += sprintf(s, " %d", t[k]); forget(e, t[k]); } if (pr) { for (int k = 0; k < m; k++) zero(e, t[k]); oo_close(e); }
      doing("%s", args); CALL("forget_array", oct_forget_array(M, d, in_, t, m, pr)); }
    /* expand, fold */
    if (nb) { int to[MAXN], v = rint_(0, nb - 1), m = rint_(0, 3), off = v < id ? id : nb; oo_top(e, nb + m, id + (v < id ? m : 0)); e->bot = x->bot;
      for (int k = 0; k < nb; k++) to[k] = k < off ? k : k + m; map_(e, x, to);
      for (int q = 0; q < m; q++) { int s = to[v]; to[v] = off + q; map_(e, x, to); to[v] = s; }
      oo_close(e); snprintf(args, 8900, "%s expand %d by %d", base, v, m); doing("%s", args); CALL("expand", oct_expand(M, d, in_, v, m));
      int lo = v < id ? 0 : id, hi = v < id ? id : nb, k = 0, o = 0; static ap_dim_t tb[64]; ap_dim_t* t = tb + 16; for (int p = 0; p < 64; p++) tb[p] = 1000000;
      for (int p = lo; p < hi; p++) if (p == v || rint_(0, 1)) t[k++] = p;
      char* s = args + snprintf(args, 8500, "%s fold", base); int kp[MAXN]; for (int p = 0; p < nb; p++) kp[p] = 1; for (int p = 0; p < k; p++) { s += sprintf(s, " %d", t[p]); if (p) kp[t[p]] = 0; }
      for (int p = 0; p < nb; p++) to[p] = kp[p] ? o++ : -1;
      oo_top(f, o, id - (v < id ? k - 1 : 0)); f->bot = x->bot; int t0 = to[t[0]];
      for (int p = 0; p < k; p++) { to[t[0]] = -1; to[t[p]] = t0; oo_top(e, o, f->id); e->bot = x->bot; map_(e, x, to); to[t[p]] = -1; if (p) { oo_join(g, f, e); oo_set(f, g); } else oo_set(f, e); }
      oo_set(e, f); doing("%s", args); CALL("fold", oct_fold(M, d, in_, t, k)); }
    oct_free(M, a);
  }
  return h_done();
}
