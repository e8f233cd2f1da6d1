#include "h.h"
/* every bound operation on a fixed pool of extended rationals (all pairs, all aliasings) plus random ones */
#define NP 26
static xr P[64]; static int np;
static void pool(void)
{
  long v[][2] = {{0,1},{1,1},{-1,1},{2,1},{-2,1},{1,2},{-1,2},{3,2},{-3,2},{5,3},{-5,3},{7,1},{-7,1},{100,7},{-100,7},{1,1000003},{-1,1000003},{9223372036854775807L,1},{-9223372036854775807L,1},{4611686018427387905L,3}};
  for (int i = 0; i < 20; i++) { xr_init(&P[np]); xr_q(&P[np++], v[i][0], v[i][1]); }
  xr_init(&P[np]); xr_inf(&P[np++], 1); xr_init(&P[np]); xr_inf(&P[np++], -1);
  xr_init(&P[np]); mpq_set_str(P[np++].q, "170141183460469231731687303715884105728/3", 10);
  xr_init(&P[np]); mpq_set_str(P[np++].q, "-170141183460469231731687303715884105729", 10);
  for (int i = 0; i < 12; i++) { xr_init(&P[np]); xr_q(&P[np++], rint_(-50, 50), rint_(1, 12)); }
}
static void eq(const char* what, bound_t r, const xr* e, const xr* a, const xr* b, const xr* x)
{
  n_cases++; xr g; xr_init(&g);
  if (!b_wf(r)) { fail_(what, "operands %s %s: result is not in lowest terms", xr_s(a), b ? xr_s(b) : ""); return; }
  b_to(&g, r);
  if (xr_cmp(&g, e)) fail_(what, "operands %s %s: got %s expected %s", xr_s(a), b ? xr_s(b) : "", xr_s(&g), xr_s(e));
  xr_clear(&g); (void)x;
}
static int S(int x) { return (x > 0) - (x < 0); }
int main(int argc, char** argv)
{
  h_init(argc, argv); pool();
  bound_t a, b, r; bound_init(a); bound_init(b); bound_init(r);
  xr e, t; xr_init(&e); xr_init(&t);
  for (int i = 0; i < np; i++) {
    const xr* x = &P[i];
    doing("unary bound operations on %s", xr_s(x));
#define UN(op, EXP) do { b_of(a, x); bound_##op(r, a); EXP; eq(#op, r, &e, x, 0, 0); b_of(a, x); bound_##op(a, a); eq(#op " (in place)", a, &e, x, 0, 0); } while (0)
    UN(neg, xr_neg(&e, x));
    UN(abs, (xr_set(&e, x), xr_sgn(x) < 0 ? xr_neg(&e, x) : (void)0));
    UN(set, xr_set(&e, x));
    UN(mul_2, (xr_set(&e, x), x->inf ? (void)0 : mpq_mul_2exp(e.q, e.q, 1)));
    UN(div_2, (xr_set(&e, x), x->inf ? (void)0 : mpq_div_2exp(e.q, e.q, 1)));
    UN(floor, xr_round(&e, x, -1)); UN(ceil, xr_round(&e, x, 1)); UN(trunc, xr_round(&e, x, 0));
    for (int k = -3; k <= 3; k++) {
      b_of(a, x); bound_mul_2exp(r, a, k); xr_set(&e, x);
      if (!x->inf) { if (k >= 0) mpq_mul_2exp(e.q, e.q, k); else mpq_div_2exp(e.q, e.q, -k); }
      eq("mul_2exp", r, &e, x, 0, 0);
    }
    b_of(a, x);
    if (S(bound_sgn(a)) != xr_sgn(x)) fail_("sgn", "%s: %d", xr_s(x), bound_sgn(a));
    if (!!bound_infty(a) != !!x->inf) fail_("infty", "%s", xr_s(x));
    if (!!bound_integer(a) != xr_int(x)) fail_("integer", "%s", xr_s(x));
    for (long k = -3; k <= 3; k++) {
      xr_q(&t, k, 1);
      if (S(bound_cmp_int(a, k)) != xr_cmp(x, &t)) fail_("cmp_int", "%s %ld", xr_s(x), k);
    }
    for (unsigned long k = 0; k <= 3; k++) {
      xr_q(&t, k, 1); xr_add(&e, x, &t); b_of(a, x); bound_add_uint(r, a, k); eq("add_uint", r, &e, x, &t, 0);
      xr_q(&t, -(long)k, 1); xr_add(&e, x, &t); b_of(a, x); bound_sub_uint(r, a, k); eq("sub_uint", r, &e, x, &t, 0);
    }
    { b_of(a, x); ap_scalar_t* s = ap_scalar_alloc(); ap_scalar_set_bound(s, a); bound_set_ap_scalar(r, s); eq("scalar round trip", r, x, x, 0, 0); ap_scalar_free(s); }
    {
      static char buf[1 << 16]; b_of(a, x); memset(buf, 0x5a, sizeof buf);
      size_t n = bound_serialize(buf, a), m = bound_deserialize(r, buf);
      if (n != m || n != bound_serialized_size(a)) { if (n != m || n > bound_serialized_size(a)) fail_("serialize sizes", "%s %zu %zu %zu", xr_s(x), n, m, (size_t)bound_serialized_size(a)); }
      eq("serialize", r, x, x, 0, 0);
    }
    for (int j = 0; j < np; j++) {
      const xr* y = &P[j];
      doing("binary bound operations on %s and %s", xr_s(x), xr_s(y));
#define BIN(op, EXP) do { EXP; b_of(a, x); b_of(b, y); bound_##op(r, a, b); eq(#op, r, &e, x, y, 0); \
    b_of(a, x); b_of(b, y); bound_##op(a, a, b); eq(#op " (first operand overwritten)", a, &e, x, y, 0); \
    b_of(a, x); b_of(b, y); bound_##op(b, a, b); eq(#op " (second operand overwritten)", b, &e, x, y, 0); \
    if (i == j) { b_of(a, x); bound_##op(a, a, a); eq(#op " (all aliased)", a, &e, x, y, 0); } } while (0)
      BIN(add, xr_add(&e, x, y));
      BIN(sub, (xr_neg(&t, y), xr_add(&e, x, &t)));
      BIN(mul, xr_mul(&e, x, y));
      BIN(div, xr_div(&e, x, y));
      BIN(min, xr_set(&e, xr_cmp(x, y) <= 0 ? x : y));
      BIN(max, xr_set(&e, xr_cmp(x, y) >= 0 ? x : y));
      if (!y->inf) {
        b_of(b, y);
        b_of(a, x); bound_add_num(r, a, bound_numref(b)); xr_add(&e, x, y); eq("add_num", r, &e, x, y, 0);
        b_of(a, x); bound_sub_num(r, a, bound_numref(b)); xr_neg(&t, y); xr_add(&e, x, &t); eq("sub_num", r, &e, x, y, 0);
        b_of(a, x); bound_mul_num(r, a, bound_numref(b)); xr_mul(&e, x, y); eq("mul_num", r, &e, x, y, 0);
        b_of(a, x); bound_div_num(r, a, bound_numref(b)); xr_div(&e, x, y); eq("div_num", r, &e, x, y, 0);
        b_of(a, x); if (S(bound_cmp_num(a, bound_numref(b))) != xr_cmp(x, y)) fail_("cmp_num", "%s %s", xr_s(x), xr_s(y));
        b_of(a, x); bound_set_num(a, bound_numref(b)); eq("set_num", a, y, x, y, 0);
      }
      b_of(a, x); b_of(b, y);
      if (S(bound_cmp(a, b)) != xr_cmp(x, y)) fail_("cmp", "%s %s: %d", xr_s(x), xr_s(y), bound_cmp(a, b));
      if (!!bound_equal(a, b) != (xr_cmp(x, y) == 0)) fail_("equal", "%s %s", xr_s(x), xr_s(y));
      if (xr_cmp(x, y) == 0 && bound_hash(a) != bound_hash(b)) fail_("hash", "%s", xr_s(x));
      bound_swap(a, b); eq("swap", a, y, x, y, 0); eq("swap", b, x, x, y, 0);
    }
  }
  return h_done();
}
