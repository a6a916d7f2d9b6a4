From b014195b9df5f33d732e9e37888311897aeff1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 01/25] fix: gf2e_t16_init read past the multiplication table
 when the degree is below the element width

---
 src/gf2e.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..798a06d 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,8 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  /* only patterns of field elements are looked up, degree may be smaller than w */
+  const word mask_w = (1<<ff->degree)-1;
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From 5e5e390505575aaccfd769f07ae7586d12c5c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 02/25] fix: mzd_slice_rescale_row addressed row r of its
 one-row temporary

---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From 77c208855fc66562e7e5015775eaa61c5f9ce621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 03/25] fix: mzed_first_zero_row returned the start of the
 trailing zero rows, not the first zero row

---
 src/mzed.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mzed.h b/src/mzed.h
index 282297b..5adf28d 100644
--- a/src/mzed.h
+++ b/src/mzed.h
@@ -988,7 +988,14 @@ static inline void mzed_row_add(mzed_t *M, const rci_t sourcerow, const rci_t de
  */
 
 static inline rci_t mzed_first_zero_row(mzed_t *A) {
-  return mzd_first_zero_row(A->x);
+  for(rci_t i=0; i<A->nrows; i++) {
+    rci_t j = 0;
+    while(j < A->ncols && !mzed_read_elem(A, i, j))
+      j++;
+    if(j == A->ncols)
+      return i;
+  }
+  return A->nrows;
 }
 
 
-- 
2.43.0


From c7343ba15beadedd316911ee2db68ec5b03bf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 04/25] fix: blm_free dereferenced NULL for maps that were not
 DJB-compiled

---
 src/blm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..ec7e3b4 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -612,10 +612,12 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
+  if (f->g != NULL && f->g != f->f)
     djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f != NULL)
+    djb_free(f->f);
+  if (f->h != NULL)
+    djb_free(f->h);
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From a288dd7ac64111a029b95be8dc7dda177885c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 05/25] fix: mzed_mul_strassen and mzed_addmul_strassen crashed
 for the documented cutoff 0 (heuristic choice)

---
 src/strassen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..31815ab 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -32,11 +32,15 @@
 
 mzed_t *mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, TRUE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
 }
 
 mzed_t *mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, FALSE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_addmul_strassen(C, A, B, cutoff);
 }
 
-- 
2.43.0


From 4c07c46a0f92984f524be7d04f4d7b71f4354100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 06/25] fix: _blm_finish_polymult looped forever when the
 products x^v * x^w do not span, and missed pairs when the operand lengths
 differ

---
 src/blm.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index ec7e3b4..678f878 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -403,7 +403,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   mzp_t *P = mzp_init(m);
   mzp_t *Q = mzp_init(m);
 
-  while(rank < m) {
+  while(rank < m && v < (word)f->F->ncols) {
     /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
     for(wi_t j=0; j< C->width; j++)
       C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
@@ -414,12 +414,12 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
     w++;
     if (w == (word)f->G->ncols) {
       v++;
-      if (v == (word)f->F->ncols)
-        v = 0;
-      w = v;
+      w = 0;
     }
     r++;
-    if (r == C->nrows) {
+    if (r == C->nrows || v == (word)f->F->ncols) {
+      for(rci_t i=r; i<C->nrows; i++)
+        mzd_row_clear_offset(C, i, 0);
       mzd_t *D = mzd_copy(NULL, C);
       rank = mzd_ple(D, P, Q, 0);
       mzd_apply_p_left(pivots, P);
@@ -433,10 +433,32 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   mzp_free(P);
   mzp_free(Q);
 
+  /* if all products together do not span the space, we complete them by unit vectors which H maps to
+     zero; these are marked by v >= f->F->ncols. */
+  for(rci_t i=rank; i<m; i++)
+    mzd_row_clear_offset(C, i, 0);
+  for(rci_t i=0; rank<m; i++) {
+    mzd_write_bit(C, rank, i, 1);
+    mzd_t *D = mzd_copy(NULL, C);
+    if (mzd_echelonize(D, 0) > rank) {
+      pivots->rows[rank][0] = f->F->ncols + i;
+      pivots->rows[rank][1] = f->G->ncols;
+      rank++;
+    } else {
+      mzd_row_clear_offset(C, rank, 0);
+    }
+    mzd_free(D);
+  }
+
   for(r=0; r<m; r++) {
     /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
     v = pivots->rows[r][0];
     w = pivots->rows[r][1];
+    if (v >= (word)f->F->ncols) {
+      mzd_row_clear_offset(C, r, 0);
+      mzd_write_bit(C, r, v - f->F->ncols, 1);
+      continue;
+    }
     for(wi_t j=0; j< C->width; j++)
       C->rows[r][j] = F_T->rows[v][j] & G_T->rows[w][j];
   }
-- 
2.43.0


From 9bd5e27b7b963cb04c80b76b915969d28fb240af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 07/25] fix: blm_init_crt used a power of a polynomial of
 degree d/2, d/4 or d/8 as modulus of degree d although these do not divide d

---
 src/blm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 678f878..304f214 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -571,18 +571,18 @@ blm_t *blm_init_crt(const gf2e *ff, const deg_t f_ncols, const deg_t g_ncols, co
       if (p_it[d] < irreducible_polynomials[d][0]) {
         poly = irreducible_polynomials[d][ 1 + p_it[d] ];
         p_it[d]++;
-      } else if (d/2 && p_it[d/2] < irreducible_polynomials[d/2][0]) {
+      } else if (d%2 == 0 && p_it[d/2] < irreducible_polynomials[d/2][0]) {
         /** the minimal polynomial is a square */
         poly = irreducible_polynomials[d/2][ 1 + p_it[d/2]];
         p_it[d/2]++;
         poly = gf2x_mul(poly, poly, d/2+1);
-      } else if (d/4 && p_it[d/4] < irreducible_polynomials[d/4][0]) {
+      } else if (d%4 == 0 && p_it[d/4] < irreducible_polynomials[d/4][0]) {
         /** the minimal polynomial is a fourth power */
         poly = irreducible_polynomials[d/4][1 + p_it[d/4]];
         p_it[d/4]++;
         poly = gf2x_mul(poly, poly, d/4+1);
         poly = gf2x_mul(poly, poly, d/2+1);
-      } else if (d/8 && p_it[d/8] < irreducible_polynomials[d/8][0]) {
+      } else if (d%8 == 0 && p_it[d/8] < irreducible_polynomials[d/8][0]) {
         /** the minimal polynomial is an eigth power */
         poly = irreducible_polynomials[d/8][p_it[d/8]+ 1];
         p_it[d/8]++;
-- 
2.43.0


From 04a9f5867e04c26abdcab3d3cf51cef74f37a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 08/25] fix: crt_init returned the empty scheme when no scheme
 is cheaper than schoolbook multiplication

---
 src/blm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index 304f214..2dcb4b5 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <m4ri/djb.h>
 #include <m4rie/blm.h>
 #include <m4rie/mzd_ptr.h>
@@ -104,7 +105,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = INT_MAX;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
-- 
2.43.0


From 4caa6b0bbc410c724e8f827b218254e02a8102c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 09/25] fix: _crt_modred_mat wrote before the row for
 (x-infinity)^d with d above the length

---
 src/blm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index 2dcb4b5..e2c9790 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -345,7 +345,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<d && i<length; i++)
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
-- 
2.43.0


From 380fb33003b2753c9972527fb14cd0275e41de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 10/25] fix: _crt_modred_mat leaked its two temporaries

---
 src/blm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index e2c9790..f638b74 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -376,6 +376,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
-- 
2.43.0


From aae379e2e87c9f4df2b3610f671fc44e17a2df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 11/25] fix: _mzd_ptr_apply_blm_mzd added to X instead of
 writing to it like the compiled variant

---
 src/blm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index f638b74..22a4320 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -13,6 +13,9 @@ void _mzd_ptr_apply_blm_mzd(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
   mzd_t *t1 = mzd_init(A[0]->nrows, A[0]->ncols);
   mzd_t *t2 = mzd_init(B[0]->nrows, B[0]->ncols);
 
+  for(rci_t i=0; i < f->H->nrows; i++)
+    mzd_set_ui(X[i], 0);
+
   for(rci_t i=0; i < f->F->nrows; i++) {
     mzd_set_ui(t1, 0);
     for(rci_t j=0; j < f->F->ncols; j++) {
-- 
2.43.0


From 94f216cc1a9eb7ecad882dcfdddb67c6cfec3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 12/25] fix: djb_apply_mzd_ptr left old content in the outputs
 of zero rows of the map

---
 src/mzd_ptr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mzd_ptr.c b/src/mzd_ptr.c
index 25d59eb..b0c7cc0 100644
--- a/src/mzd_ptr.c
+++ b/src/mzd_ptr.c
@@ -4,8 +4,10 @@
 
 void djb_apply_mzd_ptr(djb_t *m, mzd_t **W, const mzd_t **V) {
   int *iszero = m4ri_mm_malloc(sizeof(int)*m->nrows);
-  for(int i = 0; i < m->nrows; ++i) 
+  for(int i = 0; i < m->nrows; ++i) {
     iszero[i] = 1;
+    mzd_set_ui(W[i], 0);
+  }
 
   rci_t i = m->length;
   while (i > 0) {
-- 
2.43.0


From dc9053380f670b545aed25a327eaa501fff3afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 13/25] fix: _mzd_poly_addmul_blm and _mzd_poly_addmul_crt
 overwrote C instead of adding to it

---
 src/mzd_poly.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..8c94e40 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -213,7 +213,10 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
   if (C == NULL)
     C = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
 
-  _mzd_ptr_apply_blm(C->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  mzd_poly_t *T = mzd_poly_init(f->H->nrows-1, A->nrows, B->ncols);
+  _mzd_ptr_apply_blm(T->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  _mzd_poly_add(C, T, C, 0);
+  mzd_poly_free(T);
   return C;
 }
 
-- 
2.43.0


From c77eed68bf91113f3f8477a1d81af6e87ebd9702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 14/25] fix: _mzd_poly_adapt_depth wrote past the coefficient
 array when growing

---
 src/mzd_poly.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 8c94e40..80c73a9 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -131,6 +131,11 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       A->x[i] = NULL;
     }
   } else {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++)
+      x[i] = A->x[i];
+    m4ri_mm_free(A->x);
+    A->x = x;
     for(int i=A->depth; i<new_depth; i++) {
       A->x[i] = mzd_init(A->nrows,A->ncols);
     }
-- 
2.43.0


From 35de4fd1b68366075caf493b68923cd562a51dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 15/25] fix: _mzd_poly_addmul_ext1 failed for products of one
 or two coefficients and for C == NULL

---
 src/mzd_poly.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..49071a5 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,7 +11,16 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
-  const int log2d = (int)ceil(log2( (double)d ));
+  if (C == NULL)
+    C = mzd_poly_init(d, A->nrows, B->ncols);
+
+  if (d == 1) {
+    mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
+    return C;
+  }
+
+  /* at least d points and a supported field */
+  const int log2d = MAX((int)ceil(log2( (double)d )), 2);
   assert(log2d <= 16);
 
   gf2e *ff = gf2e_init(irreducible_polynomials[log2d][1]);
-- 
2.43.0


From ba3c4255f511fa62ddaf6eac900161ce9f0a9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 16/25] fix: Newton-John multiplication crashed on misaligned
 SSE2 accesses when the result is a window starting at an odd word

---
 src/newton_john.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..220b347 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -62,6 +62,12 @@ void njt_mzed_free(njt_mzed_t *T) {
 static inline void mzed_combine4(mzed_t *C, rci_t rc, 
                                  mzed_t *T0, rci_t r0, mzed_t *T1, rci_t r1, mzed_t *T2, rci_t r2, mzed_t *T3, rci_t r3) {
   const word *t[4] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3]};
+  /* _mzd_combine_4 expects all rows to have the same alignment, but C may be a window */
+  if (C->x->width > 1 && __M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
+    for(wi_t i=0; i<C->x->width; i++)
+      C->x->rows[rc][i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i];
+    return;
+  }
   _mzd_combine_4(C->x->rows[rc], t, C->x->width);
 }
 
@@ -93,6 +99,12 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
+  /* _mzd_combine_8 expects all rows to have the same alignment, but C may be a window */
+  if (C->x->width > 1 && __M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
+    for(wi_t i=0; i<C->x->width; i++)
+      C->x->rows[rc][i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i] ^ t[4][i] ^ t[5][i] ^ t[6][i] ^ t[7][i];
+    return;
+  }
   _mzd_combine_8(C->x->rows[rc], t, C->x->width);
 }
 
-- 
2.43.0


From da0c212dfc941af7e45a30796d1fe0412a0f0234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 17/25] fix: _mzd_poly_addmul_crt dropped the result it creates
 for C == NULL

---
 src/mzd_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 80c73a9..509deee 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -233,7 +233,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0


From ca466ed06e232118db0b6ff4ae4a8ec2bff65c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 18/25] fix: mzed_process_rows2-6 crashed on misaligned SSE2
 accesses for windows starting at an odd word

---
 src/newton_john.h | 59 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/newton_john.h b/src/newton_john.h
index b1e41e3..7681c25 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -228,6 +228,40 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
   mzd_process_rows(M->x, startrow, endrow, startcol*M->w, M->w, T->T->x, T->L);
 }
 
+/**
+ * \brief Same as mzed_process_rows2, ..., mzed_process_rows6 but without any
+ * assumption about the alignment of M and the tables.
+ *
+ * \param M Matrix to operate on
+ * \param startrow top row which is operated on
+ * \param endrow bottom row which is operated on
+ * \param startcol Starting column for addition
+ * \param n Number of tables
+ * \param T Newton-John tables
+ */
+
+static inline void _mzed_process_rows_unaligned(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
+                                                const int n, const njt_mzed_t *T[6]) {
+  const wi_t block = startcol*M->w/m4ri_radix;
+  for(rci_t r=startrow; r<endrow; r++) {
+    const word *t[6];
+    for(int i=0; i<n; i++)
+      t[i] = T[i]->T->x->rows[T[i]->L[mzed_read_elem(M, r, startcol+i)]];
+    for(wi_t j=block; j<M->x->width; j++)
+      for(int i=0; i<n; i++)
+        M->x->rows[r][j] ^= t[i][j];
+  }
+}
+
+/**
+ * \brief The functions mzd_process_rows2, ..., mzd_process_rows6 expect the rows
+ * of M and of the tables to have the same alignment, but M may be a window.
+ */
+
+static inline int _mzed_process_rows_aligned(const mzed_t *M, const njt_mzed_t *T) {
+  return M->x->width <= 1 || M->nrows == 0 || __M4RI_ALIGNMENT(M->x->rows[0], 16) == __M4RI_ALIGNMENT(T->T->x->rows[0], 16);
+}
+
 /**
  * \brief Same as mzed_process_rows but works with two Newton-John tables
  * in parallel.
@@ -244,6 +278,11 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
 
 static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol, 
                                       const njt_mzed_t *T0, const njt_mzed_t *T1) {
+  if (!_mzed_process_rows_aligned(M, T0)) {
+    const njt_mzed_t *T[6] = {T0, T1};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, 2, T);
+    return;
+  }
   mzd_process_rows2(M->x, startrow, endrow, startcol*M->w, 2*M->w, T0->T->x, T0->L, T1->T->x, T1->L);
 }
 
@@ -264,6 +303,11 @@ static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2) {
+  if (!_mzed_process_rows_aligned(M, T0)) {
+    const njt_mzed_t *T[6] = {T0, T1, T2};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, 3, T);
+    return;
+  }
   mzd_process_rows3(M->x, startrow, endrow, startcol*M->w, 3*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L);
 }
 
@@ -285,6 +329,11 @@ static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3) {
+  if (!_mzed_process_rows_aligned(M, T0)) {
+    const njt_mzed_t *T[6] = {T0, T1, T2, T3};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, 4, T);
+    return;
+  }
   mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
 }
 
@@ -307,6 +356,11 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
+  if (!_mzed_process_rows_aligned(M, T0)) {
+    const njt_mzed_t *T[6] = {T0, T1, T2, T3, T4};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, 5, T);
+    return;
+  }
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
 }
 
@@ -332,6 +386,11 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
+  if (!_mzed_process_rows_aligned(M, T0)) {
+    const njt_mzed_t *T[6] = {T0, T1, T2, T3, T4, T5};
+    _mzed_process_rows_unaligned(M, startrow, endrow, startcol, 6, T);
+    return;
+  }
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
 }
 
-- 
2.43.0


From 01b2dcd3f00dcab5dc2b6539440456e6bfbc6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 19/25] fix: _mzd_slice_compress_l cleared columns right of a
 window that ends inside a word

---
 src/mzd_slice.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mzd_slice.h b/src/mzd_slice.h
index 592dbba..ddd727e 100644
--- a/src/mzd_slice.h
+++ b/src/mzd_slice.h
@@ -372,8 +372,16 @@ void mzd_slice_print(const mzd_slice_t *A);
  */
 
 static inline void _mzd_slice_compress_l(mzd_slice_t *A, const rci_t r1, const rci_t n1, const rci_t r2) {
-  for(int i=0; i<A->depth; i++)
-    _mzd_compress_l(A->x[i], r1, n1, r2);
+  for(int i=0; i<A->depth; i++) {
+    /* _mzd_compress_l clears complete words, but words may be shared beyond the end of a window */
+    if (mzd_is_windowed(A->x[i]) && A->ncols % m4ri_radix) {
+      if (r1 == n1)
+        continue;
+      for(rci_t j=0; j<r2; j++)
+        mzd_col_swap_in_rows(A->x[i], r1+j, n1+j, r1+j, A->nrows);
+    } else
+      _mzd_compress_l(A->x[i], r1, n1, r2);
+  }
 }
 
 /**
-- 
2.43.0


From 77be02ca0a71102005e7aaf5ddf2ac00288c3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 20/25] fix: _blm_finish_polymult leaked its transposed inverse

---
 src/blm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blm.c b/src/blm.c
index 22a4320..b17b5d1 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -496,6 +496,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   }
   mzd_free(a);
   mzd_free(b);
+  mzd_free(DT);
   mzd_free(pivots);
 
   if (ff == NULL) {
-- 
2.43.0


From e3602d0eb3b32727d1d4dbd1446f607e3e4e4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 21/25] fix: check the allocation of the evaluation table in
 _mzd_poly_addmul_ext1

---
 src/mzd_poly.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 49071a5..5a218d8 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -27,7 +27,7 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
 
   mzd_slice_t  *a = mzd_slice_init(ff, A->nrows, A->ncols);
   mzd_slice_t  *b = mzd_slice_init(ff, B->nrows, B->ncols);
-  mzd_slice_t **c = (mzd_slice_t**)calloc(sizeof(mzd_slice_t*),d);
+  mzd_slice_t **c = (mzd_slice_t**)m4ri_mm_calloc(d, sizeof(mzd_slice_t*));
 
   mzed_t *Phi = mzed_init(ff, d, d);
   mzed_t *Rho = mzed_init(ff, d, d);
@@ -79,7 +79,7 @@ mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   for(int i=0; i<d; i++) {
     mzd_slice_free(c[i]);
   }
-  free(c);
+  m4ri_mm_free(c);
 
   mzed_free(Phi);
   mzed_free(Rho);
-- 
2.43.0


From 09ec02afa970b11bce47ff65fbef13e289949ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 22/25] fix: compute the size in mzed_echelonize without
 overflow

nrows*ncols*w does not fit an int from 256 MiB on; the matrix was then
taken for a small one and eliminated by Newton-John tables.
---
 src/echelonform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/echelonform.c b/src/echelonform.c
index e941dc8..248930d 100644
--- a/src/echelonform.c
+++ b/src/echelonform.c
@@ -26,7 +26,7 @@
 rci_t mzed_echelonize(mzed_t *A, int full) {
   if (A->finite_field->degree > A->nrows) {
     return mzed_echelonize_naive(A, full);
-  } else if ((A->nrows * A->ncols * A->w <= 2*__M4RIE_PLE_CUTOFF)) {
+  } else if ((size_t)A->nrows * A->ncols * A->w <= 2*__M4RIE_PLE_CUTOFF) {
     return mzed_echelonize_newton_john(A, full);
   } else {
     return mzed_echelonize_ple(A, full);
-- 
2.43.0


From 81bfe141c953a94a3ac8d30615195c789aa3e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 23/25] fix: compute the size in mzed_mul_scalar without
 overflow

nrows*ncols does not fit an int from 2^31 elements on; the slow path for
small matrices was taken then.
---
 src/mzed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mzed.c b/src/mzed.c
index 093b9ee..399ef2d 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -151,7 +151,7 @@ mzed_t *mzed_mul_scalar(mzed_t *C, const word a, const mzed_t *B) {
    * 0) If a direct approach would need less lookups we use that.
    */
 
-  if(ff->degree > 8 || B->nrows*B->ncols < 1<<17) {
+  if(ff->degree > 8 || (size_t)B->nrows*B->ncols < 1<<17) {
     mzed_copy(C, B);
     for(rci_t i=0; i<B->nrows; i++)
       mzed_rescale_row(C, i, 0, a);
-- 
2.43.0


From efb17c12fc883ea4b7824c73e1c3ea5037ba6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:54 +0000
Subject: [PATCH 24/25] fix: convert degrees 13 to 16 back in linear time

_mzed_cling16 repeated the loop over all rows for the slices 12 and up
inside the loop over the rows, so the work grew with the square of the
number of rows (43 s for 4096 x 2048 over GF(2^16)).
---
 src/conversion_cling16.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion_cling16.c b/src/conversion_cling16.c
index 89a81a5..422c2c4 100644
--- a/src/conversion_cling16.c
+++ b/src/conversion_cling16.c
@@ -326,6 +326,7 @@ mzed_t *_mzed_cling16(mzed_t *T, const mzd_slice_t *F) {
         m4ri_die("impossible");
       }
       t[T->x->width-1] = (t[T->x->width-1] & bitmask_end) | (tmp & ~bitmask_end);
+    }
 
       switch(T->finite_field->degree) {
       case 13: {
@@ -535,7 +536,6 @@ mzed_t *_mzed_cling16(mzed_t *T, const mzd_slice_t *F) {
       }
         break;
       }
-    }
   }
   return T;
 }
-- 
2.43.0


From ede110a95414a4a7ed3f4cc7c0e7b4460f84d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:56 +0000
Subject: [PATCH 25/25] fix: Newton-John multiplication failed an assertion of
 libm4ri for matrices of one word in builds with assertions

---
 src/newton_john.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index 220b347..45b073a 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -62,8 +62,9 @@ void njt_mzed_free(njt_mzed_t *T) {
 static inline void mzed_combine4(mzed_t *C, rci_t rc, 
                                  mzed_t *T0, rci_t r0, mzed_t *T1, rci_t r1, mzed_t *T2, rci_t r2, mzed_t *T3, rci_t r3) {
   const word *t[4] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3]};
-  /* _mzd_combine_4 expects all rows to have the same alignment, but C may be a window */
-  if (C->x->width > 1 && __M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
+  /* _mzd_combine_4 expects all rows to have the same alignment, but C may be a window, and the rows of
+     a matrix of one word do not all have the same */
+  if (C->x->width == 1 || __M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
     for(wi_t i=0; i<C->x->width; i++)
       C->x->rows[rc][i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i];
     return;
@@ -99,8 +100,9 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
-  /* _mzd_combine_8 expects all rows to have the same alignment, but C may be a window */
-  if (C->x->width > 1 && __M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
+  /* _mzd_combine_8 expects all rows to have the same alignment, but C may be a window, and the rows of
+     a matrix of one word do not all have the same */
+  if (C->x->width == 1 || __M4RI_ALIGNMENT(C->x->rows[rc], 16) != __M4RI_ALIGNMENT(t[0], 16)) {
     for(wi_t i=0; i<C->x->width; i++)
       C->x->rows[rc][i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i] ^ t[4][i] ^ t[5][i] ^ t[6][i] ^ t[7][i];
     return;
-- 
2.43.0

