From c2cb581f38bd52d73543f9475f0c8c369082e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 01/28] fix: itv_untrunc must enlarge a zero bound (trunc maps
 ]-1,1[ to 0)

---
 itv/itv.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index a51d157..89e3591 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -616,8 +616,8 @@ static inline void itv_untrunc(itv_t a, itv_t b)
   /* trunc(x) = ceil(x) if x < 0, floor(x) if x > 0 */
   bound_floor(a->inf,b->inf);
   bound_floor(a->sup,b->sup);
-  if (bound_sgn(a->inf) > 0) bound_add_uint(a->inf,a->inf,1);
-  if (bound_sgn(a->sup) > 0) bound_add_uint(a->sup,a->sup,1);
+  if (bound_sgn(a->inf) >= 0) bound_add_uint(a->inf,a->inf,1);
+  if (bound_sgn(a->sup) >= 0) bound_add_uint(a->sup,a->sup,1);
 }
 
 static inline void itv_from_int(itv_t a, itv_t b)
-- 
2.43.0


From 2b78689c5d7ba87ca37417864c584026f7b85c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 02/28] fix: itv_from_int must enlarge both bounds by one
 rounding step

---
 itv/itv.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index 89e3591..c222826 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -622,9 +622,11 @@ static inline void itv_untrunc(itv_t a, itv_t b)
 
 static inline void itv_from_int(itv_t a, itv_t b)
 {
-  /* [a,b] -> [floor(a),ceil(b)] */
-  bound_ceil(a->sup,b->sup);
-  bound_ceil(a->inf,b->inf);
+  /* unknown rounding direction: [a,b] -> [ceil(a)-1,floor(b)+1] */
+  bound_floor(a->sup,b->sup);
+  bound_floor(a->inf,b->inf);
+  bound_add_uint(a->sup,a->sup,1);
+  bound_add_uint(a->inf,a->inf,1);
 }
 
 static inline void itv_from_float(itv_t a, itv_t b)
-- 
2.43.0


From ae4c2d4a5d2fe03489cc237ce0a225418eac09db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 03/28] fix: backward power must refine from the unrounded
 result

---
 itv/itv_linearize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..6b1f8e3 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1922,7 +1922,7 @@ itv_refine_ap_texpr0_node(itv_internal_t* intern,
     /* keep right argument */
     itv_set(arg2r, arg2);
     /* refine left argument */
-    itv_inv_pow(intern, arg1r, arg1, res, arg2);
+    itv_inv_pow(intern, arg1r, arg1, intern->eval_itv3, arg2);
     itv_meet(intern, arg1r, arg1r, arg1);
     break;
 
-- 
2.43.0


From 60dc9fc7e4e9946d31d8abc332f305b2b5218247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 04/28] fix: folding a single octagon dimension read past the
 dimension array

---
 octagons/oct_resize.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/octagons/oct_resize.c b/octagons/oct_resize.c
index e4fbd79..a85d74c 100644
--- a/octagons/oct_resize.c
+++ b/octagons/oct_resize.c
@@ -86,6 +86,11 @@ void hmat_addrem_dimensions(bound_t* dst, bound_t* src,
 			    size_t mult, size_t dim, bool add)
 {
   size_t i,j,new_j,org_j;
+  if (nb_pos==0) {
+    /* nothing to add nor remove (and pos may be empty) */
+    bound_set_array(dst,src,matsize(dim));
+    return;
+  }
   new_j = org_j = pos[0]*2;
   bound_set_array(dst,src,matsize(pos[0]));
   
-- 
2.43.0


From 26f7c8226a7e9c9dc60050923ba574ac86f50e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 05/28] fix: ap_coeff_equal_int returned the negated answer

---
 apron/ap_coeff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_coeff.c b/apron/ap_coeff.c
index 001c055..bcc2d8e 100644
--- a/apron/ap_coeff.c
+++ b/apron/ap_coeff.c
@@ -312,9 +312,9 @@ bool ap_coeff_equal_int(ap_coeff_t* coeff, int i)
 {
   switch (coeff->discr){
   case AP_COEFF_SCALAR:
-    return ap_scalar_equal_int(coeff->val.scalar,i)==0;
+    return ap_scalar_equal_int(coeff->val.scalar,i);
   case AP_COEFF_INTERVAL:
-    return (ap_scalar_equal_int(coeff->val.interval->inf,i)==0) && (ap_scalar_equal_int(coeff->val.interval->sup,i)==0);
+    return ap_scalar_equal_int(coeff->val.interval->inf,i) && ap_scalar_equal_int(coeff->val.interval->sup,i);
   default:
     abort();
   }
-- 
2.43.0


From 634aaa12456a6cfd44a0ee02bd2c2812c8cf04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 06/28] fix: ap_scalar_set_infty must give zero for a null
 sign, and a canonical infinity

---
 apron/ap_scalar.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 5f1ed9d..4f27bf1 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -169,14 +169,15 @@ void ap_scalar_set_infty(ap_scalar_t* scalar, int sgn)
 {
   switch(scalar->discr){
   case AP_SCALAR_MPQ:
-    mpz_set_si(mpq_numref(scalar->val.mpq),sgn);
+    mpz_set_si(mpq_numref(scalar->val.mpq),sgn>0 ? 1 : (sgn<0 ? -1 : 0));
     mpz_set_ui(mpq_denref(scalar->val.mpq),sgn ? 0 : 1);
     break;
   case AP_SCALAR_DOUBLE:
     scalar->val.dbl = sgn>0 ? (double)1.0/(double)0.0 : (sgn < 0 ? -(double)1.0/(double)0.0 : 0.0);
     break;
   case AP_SCALAR_MPFR:
-    mpfr_set_inf(scalar->val.mpfr,sgn);
+    if (sgn) mpfr_set_inf(scalar->val.mpfr,sgn);
+    else mpfr_set_si(scalar->val.mpfr,0,GMP_RNDU);
     break;
   default:
     abort();
-- 
2.43.0


From b3d4a77f663c8f70eb7fbfe46bd4679817f51185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 07/28] fix: ap_scalar_cmp and ap_scalar_cmp_int must return
 -1, 0 or 1

---
 apron/ap_scalar.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 4f27bf1..c2486d4 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -284,7 +284,7 @@ int ap_scalar_infty(ap_scalar_t* scalar)
   }
 }
 
-int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
+static int ap_scalar_cmp_any(ap_scalar_t* a, ap_scalar_t* b)
 {
   int s1 = ap_scalar_infty(a);
   int s2 = ap_scalar_infty(b);
@@ -343,6 +343,12 @@ int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
     return res;
   }
 }
+int ap_scalar_cmp(ap_scalar_t* a, ap_scalar_t* b)
+{
+  /* GMP and MPFR only specify the sign of the result */
+  int res = ap_scalar_cmp_any(a,b);
+  return res>0 ? 1 : (res<0 ? -1 : 0);
+}
 int ap_scalar_cmp_int(ap_scalar_t* a, int b)
 {
   int s1 = ap_scalar_infty(a);
@@ -356,9 +362,11 @@ int ap_scalar_cmp_int(ap_scalar_t* a, int b)
     case AP_SCALAR_DOUBLE:
       return a->val.dbl > b ? 1 : (a->val.dbl < b ? (-1) : 0);
     case AP_SCALAR_MPQ:
-      return mpq_cmp_si(a->val.mpq,b,1);  
+      s1 = mpq_cmp_si(a->val.mpq,b,1);
+      return s1>0 ? 1 : (s1<0 ? -1 : 0);
     case AP_SCALAR_MPFR:
-      return mpfr_cmp_si(a->val.mpfr,b);
+      s1 = mpfr_cmp_si(a->val.mpfr,b);
+      return s1>0 ? 1 : (s1<0 ? -1 : 0);
     default:
       abort();
     }
-- 
2.43.0


From 4f552266a5331e7e99ff84781b3384acd1976086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 08/28] fix: ap_double_set_scalar returned the wrong sign, or 0
 on overflow and underflow

---
 apron/ap_scalar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index c2486d4..c67dec9 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -229,6 +229,7 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
       mpfr_init2(mpfr,53);
       int res = mpfr_set_q(mpfr,scalar->val.mpq,round);
       *k = mpfr_get_d(mpfr,round); /* normally, exact */
+      if (mpfr_cmp_d(mpfr,*k)) res = -mpfr_cmp_d(mpfr,*k); /* out of the range of doubles */
       mpfr_clear(mpfr);
       return res;
     }
@@ -237,7 +238,7 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
     return 0;
   case AP_SCALAR_MPFR:
     *k = mpfr_get_d(scalar->val.mpfr,round);
-    return mpfr_cmp_d(scalar->val.mpfr,*k);
+    return -mpfr_cmp_d(scalar->val.mpfr,*k);
   default:
     abort();
   }
-- 
2.43.0


From 0282f5cc7d5157600ea39d5959aaf48827a2c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:28 +0000
Subject: [PATCH 09/28] fix: ap_scalar_hash divided by zero for a denominator
 multiple of 2^64

---
 apron/ap_scalar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index c67dec9..c185fbd 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -472,7 +472,11 @@ long ap_scalar_hash(ap_scalar_t* a)
   else {
     switch (a->discr){
     case AP_SCALAR_MPQ:
-      return mpz_get_si(mpq_numref(a->val.mpq))/mpz_get_ui(mpq_denref(a->val.mpq));
+      {
+        unsigned long den = mpz_get_ui(mpq_denref(a->val.mpq));
+        if (den==0) den = 1; /* multiple of 2^64 */
+        return mpz_get_si(mpq_numref(a->val.mpq))/den;
+      }
     case AP_SCALAR_DOUBLE:
       return (int)(a->val.dbl);
     case AP_SCALAR_MPFR:
-- 
2.43.0


From 78125d5fe5e22517cd6f51934b4880f722a9e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 10/28] fix: ap_linexpr0_compare lost the sign of its result

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 11d8e35..d44fb9b 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -824,7 +824,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 int ap_linexpr0_compare(ap_linexpr0_t* expr1,
 			ap_linexpr0_t* expr2)
 {
-  bool res;
+  int res;
   size_t i1,i2;
   ap_dim_t dim1,dim2;
   ap_coeff_t* coeff1;
-- 
2.43.0


From 8f9b0941ebe458f70c2409323981484b9c5992db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 11/28] fix: comparing sparse linear expressions crashed on
 free linear terms

---
 apron/ap_linexpr0.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index d44fb9b..5ac8c4d 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -805,6 +805,8 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX)
+      break; /* only free linterms remain */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_equal(coeff1,coeff2);
@@ -860,6 +862,8 @@ int ap_linexpr0_compare(ap_linexpr0_t* expr1,
       dim2 = AP_DIM_MAX;
       coeff2 = NULL;
     }
+    if (dim1==AP_DIM_MAX && dim2==AP_DIM_MAX)
+      break; /* only free linterms remain */
     if (dim1==dim2){
       i1++; i2++;
       res = ap_coeff_cmp(coeff1,coeff2);
-- 
2.43.0


From ae06fc307a61f0f881042fec1a4d1efc55448432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 12/28] fix: ap_lincons0_array_type always answered linear

---
 apron/ap_lincons0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dfd70f..5dd01da 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -236,7 +236,7 @@ ap_linexpr_type_t ap_lincons0_array_type(ap_lincons0_array_t* array)
   for (i=0; i<array->size; i++){
     ap_linexpr_type_t type = ap_linexpr0_type(array->p[i].linexpr0);
     if (type < res)
-      type = res;
+      res = type;
     if (res==AP_LINEXPR_INTLINEAR)
       break;
   }
-- 
2.43.0


From f2dc8031566d4ca25963f5ade7a689957111ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 13/28] fix: disequalities on a constant interval were decided
 the wrong way round

---
 apron/ap_lincons0.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dd01da..db76f41 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -88,8 +88,8 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
 	  ap_scalar_sgn(expr->cst.val.interval->inf)>0;
       case AP_CONS_DISEQ:
 	return
-	  sgn>=0 &&
-	  ap_scalar_sgn(expr->cst.val.interval->inf)<=0;
+	  sgn==0 &&
+	  ap_scalar_sgn(expr->cst.val.interval->inf)==0;
       case AP_CONS_SUPEQ:
 	return sgn<0;
       case AP_CONS_SUP:
@@ -146,8 +146,8 @@ bool ap_lincons0_is_sat(ap_lincons0_t* cons)
           ap_scalar_sgn(expr->cst.val.interval->sup)==0;
       case AP_CONS_DISEQ:
         return
-          ap_scalar_sgn(expr->cst.val.interval->inf)<0 ||
-          ap_scalar_sgn(expr->cst.val.interval->sup)>0;
+          ap_scalar_sgn(expr->cst.val.interval->inf)>0 ||
+          ap_scalar_sgn(expr->cst.val.interval->sup)<0;
       case AP_CONS_SUPEQ:
 	return 
           ap_scalar_sgn(expr->cst.val.interval->inf)>=0;
-- 
2.43.0


From 298142f36e51df2ea842c28ebaf71ae5270837b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 14/28] fix: congruences satisfied by a nonzero constant were
 reported unsatisfiable

---
 apron/ap_lincons0.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index db76f41..0ea1b86 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -66,8 +66,11 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_SCALAR:
       sgn = ap_scalar_sgn(expr->cst.val.scalar);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	/* a nonzero constant may be a multiple of a nonzero modulus */
+	if (cons->scalar && ap_scalar_sgn(cons->scalar)!=0) return false;
+	/* fallthrough */
+      case AP_CONS_EQ:
 	return (sgn!=0);
       case AP_CONS_DISEQ:
 	return (sgn==0);
@@ -81,8 +84,10 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_INTERVAL:
       sgn = ap_scalar_sgn(expr->cst.val.interval->sup);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	if (cons->scalar && ap_scalar_sgn(cons->scalar)!=0) return false;
+	/* fallthrough */
+      case AP_CONS_EQ:
 	return
 	  sgn < 0 ||
 	  ap_scalar_sgn(expr->cst.val.interval->inf)>0;
-- 
2.43.0


From d733e714005b710cf23ec5c67eb4fe10ca6a70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 15/28] fix: evaluating a constant congruence divided by zero
 for modulus 0

---
 itv/itv_linexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 1231e22..9eb2e98 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -562,7 +562,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
       if (bound_sgn(cst->sup)==0){
 	res = tbool_true;
       }
-      else if (num_cmp_int(lincons->num,0)){
+      else if (num_cmp_int(lincons->num,0)==0){
 	res = (bound_sgn(cst->sup)==0) ? tbool_true : tbool_top;
       }
       else {
-- 
2.43.0


From cdf4601dbfaa86945e46472df58fb859f407629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 16/28] fix: box_to_generator_array: put the bound of a
 half-bounded dimension in the vertices, not in its ray

---
 box/box_constructor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box/box_constructor.c b/box/box_constructor.c
index 36e5be7..4779759 100644
--- a/box/box_constructor.c
+++ b/box/box_constructor.c
@@ -473,7 +473,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->inf);
 	  ap_scalar_neg(&scalar,&scalar);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
       else if (iinf){
@@ -482,7 +482,7 @@ ap_generator0_array_t box_to_generator_array(ap_manager_t* man, box_t* a)
 	r++;
 	for (j=nblines+nbrays; j<nblines+nbrays+v; j++){
 	  ap_scalar_set_bound(&scalar,itv->sup);
-	  ap_linexpr0_set_coeff_scalar(expr,i,&scalar);
+	  ap_linexpr0_set_coeff_scalar(array.p[j].linexpr0,i,&scalar);
 	}	   
       }
     }
-- 
2.43.0


From b175e36003f1266e46246d24cfc0a51d3765f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 17/28] fix: box assignments: the result is empty when the
 destination is

---
 box/box_assign.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/box/box_assign.c b/box/box_assign.c
index e7f30b3..22d0108 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -6,6 +6,7 @@
 #include <stdio.h>
 
 #include "box_internal.h"
+#include "box_representation.h"
 #include "box_constructor.h"
 #include "box_assign.h"
 
@@ -30,7 +31,9 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   if (a->p==NULL || (dest && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
+    return res;
   }
   if (size==1){
       res = destructive ? a : box_copy(man,a);
@@ -79,6 +82,7 @@ box_t* box_assign_texpr(ap_manager_t* man,
   if (a->p==NULL || (dest!=NULL && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
+    box_set_bottom(res);
     return res;
   }
   itv_eval_ap_texpr0(intern->itv,res->p[dim],texpr,a->p);
@@ -104,7 +108,9 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
   if (a->p==NULL || (dest && dest->p==NULL)){
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
+    return res;
   }
   if (size==1){
     res = destructive ? a : box_copy(man,a);
-- 
2.43.0


From 73a766daa1a53b6918d703c3e7db05d60678a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 18/28] fix: octagon assignment: test the coefficient of the
 unbounded variable, not a scratch cell

---
 avoct/avo_transfer.c    | 16 ++++++++--------
 octagons/oct_transfer.c | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/avoct/avo_transfer.c b/avoct/avo_transfer.c
index e3d5ada..b7b0fd0 100755
--- a/avoct/avo_transfer.c
+++ b/avoct/avo_transfer.c
@@ -783,11 +783,11 @@ static void avo_hmat_assign(avo_internal_t* pr, uexpr u, bound_t* m, bound_t * n
     else if (Cinf==1) {
       /* exactly one bound is infinite, X_d+/-X_Cinf may still be finite */
       if (Ci!=d) {
-		if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-			!bound_cmp_int(pr->tmp[2*i+2],-1))
+		if (!bound_cmp_int(pr->tmp[2*Ci+3],1) &&
+			!bound_cmp_int(pr->tmp[2*Ci+2],-1))
 		  bound_div_2(m[avo_matpos2(2*Ci,2*d)],Cb);
-		else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-			 !bound_cmp_int(pr->tmp[2*i+2],1))
+		else if (!bound_cmp_int(pr->tmp[2*Ci+3],-1) &&
+			 !bound_cmp_int(pr->tmp[2*Ci+2],1))
 		  bound_div_2(m[avo_matpos2(2*Ci+1,2*d)],Cb);
       }
     }
@@ -815,11 +815,11 @@ static void avo_hmat_assign(avo_internal_t* pr, uexpr u, bound_t* m, bound_t * n
     else if (cinf==1) {
       /* exactly one bound is infinite, -X_d+/-X_Cinf may still be finite */
       if (ci!=d) {
-		if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-			!bound_cmp_int(pr->tmp[2*i+2],-1))
+		if (!bound_cmp_int(pr->tmp[2*ci+3],1) &&
+			!bound_cmp_int(pr->tmp[2*ci+2],-1))
 		  bound_div_2(m[avo_matpos2(2*d,2*ci)],cb);
-		else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-			 !bound_cmp_int(pr->tmp[2*i+2],1))
+		else if (!bound_cmp_int(pr->tmp[2*ci+3],-1) &&
+			 !bound_cmp_int(pr->tmp[2*ci+2],1))
 		  bound_div_2(m[avo_matpos2(2*d,2*ci+1)],cb);
       }
     }
diff --git a/octagons/oct_transfer.c b/octagons/oct_transfer.c
index 84dab6c..e0c544c 100644
--- a/octagons/oct_transfer.c
+++ b/octagons/oct_transfer.c
@@ -700,11 +700,11 @@ static void hmat_assign(oct_internal_t* pr, uexpr u, bound_t* m, size_t dim,
     else if (Cinf==1) {
       /* exactly one bound is infinite, X_d+/-X_Cinf may still be finite */
       if (Ci!=d) {
-	if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-	    !bound_cmp_int(pr->tmp[2*i+2],-1))
+	if (!bound_cmp_int(pr->tmp[2*Ci+3],1) &&
+	    !bound_cmp_int(pr->tmp[2*Ci+2],-1))
 	  bound_div_2(m[matpos2(2*Ci,2*d)],Cb);
-	else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-		 !bound_cmp_int(pr->tmp[2*i+2],1))
+	else if (!bound_cmp_int(pr->tmp[2*Ci+3],-1) &&
+		 !bound_cmp_int(pr->tmp[2*Ci+2],1))
 	  bound_div_2(m[matpos2(2*Ci+1,2*d)],Cb);
       }
     }
@@ -732,11 +732,11 @@ static void hmat_assign(oct_internal_t* pr, uexpr u, bound_t* m, size_t dim,
     else if (cinf==1) {
       /* exactly one bound is infinite, -X_d+/-X_Cinf may still be finite */
       if (ci!=d) {
-	if (!bound_cmp_int(pr->tmp[2*i+3],1) &&
-	    !bound_cmp_int(pr->tmp[2*i+2],-1))
+	if (!bound_cmp_int(pr->tmp[2*ci+3],1) &&
+	    !bound_cmp_int(pr->tmp[2*ci+2],-1))
 	  bound_div_2(m[matpos2(2*d,2*ci)],cb);
-	else if (!bound_cmp_int(pr->tmp[2*i+3],-1) &&
-		 !bound_cmp_int(pr->tmp[2*i+2],1))
+	else if (!bound_cmp_int(pr->tmp[2*ci+3],-1) &&
+		 !bound_cmp_int(pr->tmp[2*ci+2],1))
 	  bound_div_2(m[matpos2(2*d,2*ci+1)],cb);
       }
     }
-- 
2.43.0


From fd020493e06374cd625cb06863bdef7ce9271c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 19/28] fix: pk_forget_array: projected generators are no
 longer sorted

---
 newpolka/pk_project.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newpolka/pk_project.c b/newpolka/pk_project.c
index 9da508a..ef4c352 100644
--- a/newpolka/pk_project.c
+++ b/newpolka/pk_project.c
@@ -79,6 +79,7 @@ void poly_projectforget_array(bool project,
       }
       pk_matrix_normalize_row(pk,mat,(size_t)i);
     }
+    mat->_sorted = false;
     po->status = 0;
     if (!lazy){
       poly_chernikova(man,po,"of the result");
-- 
2.43.0


From b0963d4566887cf0a7ee85fe162097dc8dc6d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 20/28] fix: pk_meet_lincons_array: do not abort on interval
 congruences nor call approximated meets exact

---
 newpolka/pk_meetjoin.c | 14 ++++++++++++--
 newpolka/pk_user.c     |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 745badb..19efc38 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -525,10 +525,20 @@ void poly_meet_itv_lincons_array(bool lazy,
 				 itv_lincons_array_t* array)
 {
   pk_matrix_t* mat;
-  bool quasilinear;
+  bool quasilinear, exact;
+  size_t i;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
 
   quasilinear = itv_lincons_array_is_quasilinear(array);
+  /* the constraints that are approximated below make the result inexact */
+  exact = true;
+  for (i=0; i<array->size; i++){
+    ap_constyp_t typ = array->p[i].constyp;
+    if (typ==AP_CONS_EQMOD || typ==AP_CONS_DISEQ || 
+	(typ==AP_CONS_SUP && !pk->strict) ||
+	!itv_linexpr_is_scalar(&array->p[i].linexpr))
+      exact = false;
+  }
 
   /* Get the constraint systems */
   if (lazy && quasilinear){
@@ -559,7 +569,7 @@ void poly_meet_itv_lincons_array(bool lazy,
   }
   itv_linearize_lincons_array(pk->itv,array,true);
   itv_lincons_array_reduce_integer(pk->itv,array,po->intdim);
-  bool exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true);
+  exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true) && exact;
   pk_matrix_sort_rows(pk,mat);
   if (!lazy) poly_obtain_satC(pa);
   poly_meet_matrix(true,lazy,man,po,pa,mat);
diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..5f61231 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -491,11 +491,11 @@ bool pk_matrix_append_itv_lincons_array(pk_internal_t* pk,
   j = nbrows;
   for (i=0; i<array->size; i++){
     if (bound_infty(array->p[i].linexpr.cst->sup)) continue;
-    assert(itv_linexpr_is_scalar(&array->p[i].linexpr));
     switch (array->p[i].constyp){
     case AP_CONS_EQ:
     case AP_CONS_SUPEQ:
     case AP_CONS_SUP:
+      assert(itv_linexpr_is_scalar(&array->p[i].linexpr));
       vector_set_itv_lincons(pk,
 			     mat->p[j], &array->p[i],
 			     intdim,realdim,integer);
-- 
2.43.0


From 0aa48333b9bc8522460ec6e9222c8145164d6f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 21/28] Revert "fix: pk_forget_array: projected generators are
 no longer sorted"

This reverts commit fd020493e06374cd625cb06863bdef7ce9271c7d.
---
 newpolka/pk_project.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/newpolka/pk_project.c b/newpolka/pk_project.c
index ef4c352..9da508a 100644
--- a/newpolka/pk_project.c
+++ b/newpolka/pk_project.c
@@ -79,7 +79,6 @@ void poly_projectforget_array(bool project,
       }
       pk_matrix_normalize_row(pk,mat,(size_t)i);
     }
-    mat->_sorted = false;
     po->status = 0;
     if (!lazy){
       poly_chernikova(man,po,"of the result");
-- 
2.43.0


From a0221aa067f9aa9acbbd1b9f4b666dbb2aa893ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 22/28] fix: ap_intlinearize_texpr0_intlinear: workspace used
 after being freed, result pointer read uninitialised

---
 apron/ap_linearize_aux.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 0e7e2e7..686d650 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -300,13 +300,11 @@ ITVFUN(ap_intlinearize_texpr0_intlinear)(ap_manager_t* man,
   intern = itv_internal_alloc();
   itv_linexpr_init(&linexpr,0);
   exc = itv_intlinearize_ap_texpr0_intlinear(intern,&linexpr,expr);
-  itv_internal_free(intern);
-  if (exc){
-    itv_linexpr_clear(&linexpr);
-    return NULL;
-  }
-  ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
+  res = NULL;
+  if (!exc)
+    ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_linexpr_clear(&linexpr);
+  itv_internal_free(intern);
   return res;
 }
 
-- 
2.43.0


From d7feec9faa9a012527e3b543f1f6ce5a7b9398df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 23/28] fix: ap_scalar_hash: equal scalars of different
 representations must hash alike

---
 apron/ap_scalar.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index c185fbd..f769ce1 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -470,17 +470,23 @@ long ap_scalar_hash(ap_scalar_t* a)
   if (infty<0) return LONG_MIN;
   else if (infty>0) return LONG_MAX;
   else {
+    /* the truncated value when it fits an int and 0 otherwise, whatever the
+       representation, as equal scalars must have equal hashes */
     switch (a->discr){
     case AP_SCALAR_MPQ:
       {
-        unsigned long den = mpz_get_ui(mpq_denref(a->val.mpq));
-        if (den==0) den = 1; /* multiple of 2^64 */
-        return mpz_get_si(mpq_numref(a->val.mpq))/den;
+        mpz_t z;
+        long r;
+        mpz_init(z);
+        mpz_tdiv_q(z,mpq_numref(a->val.mpq),mpq_denref(a->val.mpq));
+        r = mpz_fits_sint_p(z) ? mpz_get_si(z) : 0;
+        mpz_clear(z);
+        return r;
       }
     case AP_SCALAR_DOUBLE:
-      return (int)(a->val.dbl);
+      return (a->val.dbl>INT_MIN-1. && a->val.dbl<INT_MAX+1.) ? (int)(a->val.dbl) : 0;
     case AP_SCALAR_MPFR:
-      return mpfr_get_si(a->val.mpfr,GMP_RNDU); /* XXX improve this */
+      return mpfr_fits_sint_p(a->val.mpfr,GMP_RNDZ) ? mpfr_get_si(a->val.mpfr,GMP_RNDZ) : 0;
     default:
       abort();
     }
-- 
2.43.0


From 566007f75cda5e014cdab619252a5c6cfc61920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 24/28] fix: linearisation of a power must apply the rounding
 of the node

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 6b1f8e3..1a37605 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1440,6 +1440,7 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     }
     else {
       itv_pow(intern,ires,ires,i1);
+      itv_round(ires,ires,n->type,n->dir);
       itv_linexpr_reinit(lres,0);
       itv_set(lres->cst,ires);
       lres->equality = itv_is_point(intern,lres->cst);
-- 
2.43.0


From fb4da2236e55617e175b20ad0c5b48833dd3e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 25/28] fix: poly_chernikova3: back-substitution may unscale
 strict constraints

---
 newpolka/pk_representation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index ec6a870..3241170 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -269,6 +269,8 @@ void poly_chernikova3(ap_manager_t* man,
       assert(rank==po->nbeq);
       cherni_backsubstitute(pk,po->C,rank);
       po->C->_sorted = false;
+      /* combinations with equalities may have scaled strict constraints */
+      if (pk->strict) po->status &= ~pk_status_conseps;
     }
     if (! (po->status & pk_status_gengauss)){
       rank = cherni_gauss(pk,po->F,po->nbline);
-- 
2.43.0


From 65f901af0e627a1ca4a9c9e8a00dee04cb7dbc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 26/28] fix: powers and roots of infinite bounds ignored sign
 and exponent 0

---
 num/bound_def.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0769e56..e7ef5b5 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -364,8 +364,15 @@ static inline void bound_sqrt(bound_t up, bound_t down, bound_t b)
 static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    if (n == 0) {
+      bound_set_int(up, 1);
+      bound_set_int(down, 1);
+    }
+    else {
+      int sgn = (n & 1) ? bound_sgn(b) : 1;
+      bound_set_infty(up, sgn);
+      bound_set_infty(down, sgn);
+    }
   }
   else if (num_pow(bound_numref(up), bound_numref(down), bound_numref(b), n)) {
     bound_set_infty(up,1);
@@ -380,8 +387,9 @@ static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long
 static inline void bound_root(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    int sgn = bound_sgn(b);
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else {
     num_root(bound_numref(up), bound_numref(down), bound_numref(b), n);
-- 
2.43.0


From 2ea94166ab5392883b0bdf81132d2d6eaed146f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 27/28] fix: lower bound of a floating-point power was rounded
 upwards

---
 num/numflt_native.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index dbc1d05..ee1db26 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -160,14 +160,16 @@ static inline int  numflt_pow(numflt_t up, numflt_t down, numflt_t b, unsigned l
 {
   /* we cannot rely on pow, we implement a simple fast power */
   numflt_native u, d, fu, fd;
+  /* volatile, as compilers simplify -((-d)*fd) into d*fd, rounded upwards */
+  volatile numflt_native neg;
   int sign;
   if (*b < 0) { fu = fd = -*b; sign = n&1;}
   else { fu = fd = *b; sign = 0; }
   u = d = 1;
   while (n) {
-    if (n & 1) { u *= fu; d = - ((-d) * fd); }
+    if (n & 1) { u *= fu; neg = -d; neg = neg * fd; d = -neg; }
     fu = fu * fu;
-    fd = - ((-fd) * fd);
+    neg = -fd; neg = neg * fd; fd = -neg;
     n >>= 1;
   }
   if (sign) {
-- 
2.43.0


From 965a448986aa9899d049f7efa55a9966a45f88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 28/28] fix: root of a negative fraction rounded the
 denominator the wrong way

---
 num/numrat_mpq.h    | 6 +++++-
 num/numrat_native.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 6c2be77..e0cf217 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -187,7 +187,11 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(numrat_numref(up), numrat_numref(down), numrat_numref(b), n);
-  numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  if (mpz_sgn(numrat_numref(b)) < 0)
+    /* a larger denominator increases a negative fraction */
+    numint_root(numrat_denref(up), numrat_denref(down), numrat_denref(b), n);
+  else
+    numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
diff --git a/num/numrat_native.h b/num/numrat_native.h
index 7e564c0..67e1020 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -240,7 +240,11 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
   numint_root(up->n, down->n, b->n, n);
-  numint_root(down->d, up->d, b->d, n);
+  if (numint_sgn(b->n) < 0)
+    /* a larger denominator increases a negative fraction */
+    numint_root(up->d, down->d, b->d, n);
+  else
+    numint_root(down->d, up->d, b->d, n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
-- 
2.43.0

