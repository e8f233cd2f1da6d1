#include "hbox.h"
/* dimension operations of the box domain against an oracle on arrays of intervals */
static char args[9000];
int main(int argc, char** argv)
{
  h_init(argc, argv); M = box_manager_alloc();
  ob *x = ob_new(), *e = ob_new();
  int rounds = getenv("REPLAY_TIER") && !strcmp(getenv("REPLAY_TIER"), "thorough") ? 200000 : 40000;
  for (int n = 0; n < rounds; n++) {
    int i = rint_(0, 3), r = rint_(0, 3), nb = i + r, d = n & 1;
    rob(x, i, r); box_t *a = ob_to(x), *c;
#define CALL(what, call) do { box_t* in_ = d ? ob_to(x) : a; c = call; chk(what, c, e, args); if (!d) same(what, a, x); box_free(M, c); } while (0)
    /* addition */
    { int ai = rint_(0, 3), ar = rint_(0, 2), pr = rint_(0, 1); ap_dimchange_t* ch = ap_dimchange_alloc(ai, ar);
      for (int k = 0; k < ai; k++) ch->dim[k] = rint_(0, i); for (int k = 0; k < ar; k++) ch->dim[ai + k] = rint_(i, nb);
      for (int p = 0; p < ai + ar; p++) for (int q = 0; q + 1 < ai + ar; q++) if ((q + 1 < ai || q >= ai) && ch->dim[q] > ch->dim[q + 1]) { int t = ch->dim[q]; ch->dim[q] = ch->dim[q + 1]; ch->dim[q + 1] = t; }
      e->i = i + ai; e->r = r + ar; e->bot = x->bot; int o = 0, k = 0;
      for (int p = 0; p <= nb; p++) { while (k < ai + ar && ch->dim[k] == p) { pr ? xi_zero(&e->v[o]) : xi_top(&e->v[o]); o++; k++; } if (p < nb) xi_set(&e->v[o++], &x->v[p]); }
      char* s = args + sprintf(args, "%s add(%d+%d,project=%d)", ob_s(x), ai, ar, pr); for (int p = 0; p < ai + ar; p++) s += sprintf(s, " %d", ch->dim[p]); doing("%s", args);
      CALL("add_dimensions", box_add_dimensions(M, d, in_, ch, pr)); ap_dimchange_free(ch); }
    /* removal */
    { char rm[8]; int ri_ = 0, rr = 0; for (int p = 0; p < nb; p++) { rm[p] = rint_(0, 2) == 0; if (rm[p]) p < i ? ri_++ : rr++; }
      ap_dimchange_t* ch = ap_dimchange_alloc(ri_, rr); int k = 0, o = 0; e->i = i - ri_; e->r = r - rr; e->bot = x->bot;
      char* s = args + sprintf(args, "%s remove", ob_s(x));
      for (int p = 0; p < nb; p++) if (rm[p]) { ch->dim[k++] = p; s += sprintf(s, " %d", p); } else xi_set(&e->v[o++], &x->v[p]);
      doing("%s", args); CALL("remove_dimensions", box_remove_dimensions(M, d, in_, ch)); ap_dimchange_free(ch); }
    /* permutation */
    { ap_dimperm_t* pm = ap_dimperm_alloc(nb); for (int p = 0; p < nb; p++) pm->dim[p] = p;
      for (int p = 0; p < nb; p++) { int q = rint_(p, nb - 1), t = pm->dim[p]; pm->dim[p] = pm->dim[q]; pm->dim[q] = t; }
      e->i = i; e->r = r; e->bot = x->bot; char* s = args + sprintf(args, "%s permute", ob_s(x));
      for (int p = 0; p < nb; p++) { xi_set(&e->v[pm->dim[p]], &x->v[p]); s += sprintf(s, " %d", pm->dim[p]); }
      doing("%s", args); CALL("permute_dimensions", box_permute_dimensions(M, d, in_, pm)); ap_dimperm_free(pm); }
    /* forget */
    { ap_dim_t t[4]; int m = nb ? rint_(0, 3) : 0, pr = rint_(0, 1); ob_set(e, x); char* s = args + sprintf(args, "%s forget(project=%d)", ob_s(x), pr);
      for (int k = 0; k < m; k++) { t[k] = rint_(0, nb - 1); s += sprintf(s, " %d", t[k]); pr ? xi_zero(&e->v[t[k]]) : xi_top(&e->v[t[k]]); }
      doing("%s", args); CALL("forget_array", box_forget_array(M, d, in_, t, m, pr)); }
    /* expand, fold */
    if (nb) { int v = rint_(0, nb - 1), m = rint_(0, 3), off = v < i ? i : nb; e->i = i + (v < i ? m : 0); e->r = r + (v < i ? 0 : m); e->bot = x->bot;
      for (int k = 0; k < nb + m; k++) xi_set(&e->v[k], k < off ? &x->v[k] : k < off + m ? &x->v[v] : &x->v[k - m]);
      sprintf(args, "%s expand %d by %d", ob_s(x), v, m); doing("%s", args); CALL("expand", box_expand(M, d, in_, v, m));
      int lo = v < i ? 0 : i, hi = v < i ? i : nb; ap_dim_t t[4]; int k = 0; for (int p = lo; p < hi; p++) if (p == v || rint_(0, 1)) t[k++] = p;
      char rm[8] = {0}; ob_set(e, x); char* s = args + sprintf(args, "%s fold", ob_s(x)); int o = 0;
      for (int p = 0; p < k; p++) { s += sprintf(s, " %d", t[p]); if (p) { rm[t[p]] = 1; join_(&e->v[t[0]], &e->v[t[0]], &x->v[t[p]]); } }
      for (int p = 0; p < nb; p++) if (!rm[p]) { xi_set(&e->v[o], &e->v[p]); o++; }
      if (v < i) e->i -= k - 1; else e->r -= k - 1;
      doing("%s", args); CALL("fold", box_fold(M, d, in_, t, k)); }
    box_free(M, a);
  }
  return h_done();
}
