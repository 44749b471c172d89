From 1ddd4efb2901b52f802dc40aa4be709b6aa3a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:54 +0000
Subject: [PATCH 01/33] fix: bisection step must not lose the root or claim
 progress without any

A bisection step evaluated the polynomial at endpoints that were rounded
outwards and produced a ball that could stick out of the given one. Both could
capture another root nearby and then refine to the wrong root. Also, the step
reported success when the precision was too low to bisect, so that refining an
embedding could loop forever.
---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..aee1051 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -54,9 +54,9 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
 
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
+    int sl, sr, progress;
     arb_t b, c, rres;
-    arf_t l, r;
+    arf_t l, r, l0, r0, l1, r1;
 
     arf_init(l);
     arf_init(r);
@@ -65,8 +65,9 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     arb_init(rres);
 
     /* set l, r as the left and right endpoint of the ball */
+    /* (exactly, as there might be other roots nearby)     */
     /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
 
     arb_set_arf(b, l);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
@@ -94,17 +95,41 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     }
     sr = arf_sgn(arb_midref(c));
 
-    _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
+    arf_init(l0);
+    arf_init(r0);
+    arf_init(l1);
+    arf_init(r1);
+    arf_set(l0, l);
+    arf_set(r0, r);
+
+    /* bisect until both endpoints have moved; otherwise, the endpoints of  */
+    /* the resulting ball might be rounded outside of a and so the result   */
+    /* might contain another root of pol                                    */
+    do {
+        arf_set(l1, l);
+        arf_set(r1, r);
+        _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
+        progress = !(arf_equal(l, l1) && arf_equal(r, r1));
+    } while (progress && (arf_equal(l, l0) || arf_equal(r, r0)));
+
+    arf_clear(l0);
+    arf_clear(r0);
+    arf_clear(l1);
+    arf_clear(r1);
+
     arb_set_interval_arf(rres, l, r, prec);
     arb_intersection(res, rres, a, prec);
 
+    /* we might not be able to represent a smaller ball with this precision */
+    progress = progress && arb_contains(a, res);
+
     arb_clear(b);
     arb_clear(c);
     arb_clear(rres);
     arf_clear(l);
     arf_clear(r);
 
-    return 1;
+    return progress;
 }
 
 int fmpz_poly_bisection_step_arb(arb_t res, const fmpz_poly_t pol, arb_t a, slong prec)
-- 
2.43.0


From 74cc472ac7c56d1a8404b0d660f485612954079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:54 +0000
Subject: [PATCH 02/33] fix: generator of a linear field c1*x + c0 is -c0/c1,
 not -c1/c0

---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From d22ab36923c04d1bda1ed84511b6ddbb6643b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:14 +0000
Subject: [PATCH 03/33] fix: renf_elem_fmpq_div computed b*c instead of b/c

---
 libeantic/src/renf_elem/fmpq_div.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..03ce902 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -15,7 +15,6 @@
 
 void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, const renf_t nf)
 {
-    renf_elem_set(a, c, nf);
-    renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_inv(a, c, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From ab03ab795c5b679c4c2bce015ededeb3f5a8a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:14 +0000
Subject: [PATCH 04/33] fix: floor and ceil of zero must not read a stale
 coefficient

In fields of degree 3 and more, zero is represented by a polynomial of length
zero whose constant coefficient is unspecified or not even allocated.
---
 libeantic/src/renf_elem/rounding_template.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..8585a63 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -52,6 +52,8 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
             FMPZ_DIV(a, LNF_ELEM_NUMREF(b->elem), LNF_ELEM_DENREF(b->elem));
         else if (nf->nf->flag & NF_QUADRATIC)
             FMPZ_DIV(a, QNF_ELEM_NUMREF(b->elem), QNF_ELEM_DENREF(b->elem));
+        else if (NF_ELEM(b->elem)->length == 0)
+            fmpz_zero(a);
         else
             FMPZ_DIV(a, NF_ELEM_NUMREF(b->elem), NF_ELEM_DENREF(b->elem));
         return;
-- 
2.43.0


From 2363de21bff7319df25c4c5c920c513a305f1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:14 +0000
Subject: [PATCH 05/33] fix: fmpz_poly_set_str_pretty must not keep
 coefficients of the target

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..cd3c6d0 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,10 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
-    for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
-    {
-        fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-    }
+    fmpq_poly_get_numerator(p, q);
 
     fmpq_poly_clear(q);
     return 0;
-- 
2.43.0


From 77a7ae00b6a89a1fe694b781f5260e4cfa3b9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:15 +0000
Subject: [PATCH 06/33] fix: positive root bound must only use coefficients of
 the leading sign

Otherwise, the bound can be too small, e.g., for x^4 - x^3 - x^2 - 2*x - 2, and
roots are missed when isolating real roots.
---
 .../src/fmpz_poly_extra/positive_root_upper_bound_2exp.c      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..aa217b2 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,10 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only terms whose sign is opposite to the one of p_i can */
+            /* compensate p_i                                          */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From b97b10467a9cc13c5c2cf689c155343341d03fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:32 +0000
Subject: [PATCH 07/33] fix: Sturm root count in [0,1[ must ignore zeros in the
 Sturm sequence

Zeros of the derivative and of the remainders at the endpoints were counted as
sign changes. Also, a root at one was counted which is inconsistent with
fmpz_poly_num_real_roots_0_1_vca.
---
 libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..f0ea540 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -47,10 +47,11 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
         s = fmpz_sgn(p1->coeffs);
         if (s0a == 0)
         {
+            /* zero is a root of pol */
             t++;
             s0a = s;
         }
-        else if (s != s0a)
+        else if (s != 0 && s != s0a)
         {
             t++;
             s0a = s;
@@ -60,8 +61,12 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
         fmpz_poly_evaluate_at_one(c, p1->coeffs, p1->length);
         s = fmpz_sgn(c);
         if (s0b == 0)
+        {
+            /* one is a root of pol but not in [0, 1[ */
+            t--;
             s0b = s;
-        else if (s != s0b)
+        }
+        else if (s != 0 && s != s0b)
         {
             t--;
             s0b = s;
-- 
2.43.0


From d74627396f5683d6fcecd1790f3f8d6ab7334b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:22 +0000
Subject: [PATCH 08/33] fix: converting a rational to a subnormal double must
 not round twice

---
 libeantic/src/renf_elem/get_d.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..61c1fe0 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -53,17 +53,29 @@ double renf_elem_get_d(renf_elem_t a, renf_t nf, arf_rnd_t rnd)
     {
         /* Delegate conversion of rational numbers to arf. */
         fmpq_t b;
-        arf_t c;
+        arf_t lbound, ubound;
+        double d;
 
         fmpq_init(b);
-        arf_init(c);
+        arf_init(lbound);
+        arf_init(ubound);
 
         nf_elem_get_coeff_fmpq(b, a->elem, 0, nf->nf);
-        arf_set_fmpq(c, b, DBL_MANT_DIG, rnd);
 
-        double d = arf_get_d(c, rnd);
+        /* Rounding to DBL_MANT_DIG bits and then to a double would round twice
+         * if the result is a subnormal double. */
+        for (prec = 2 * DBL_MANT_DIG;; prec *= 2)
+        {
+            arf_set_fmpq(lbound, b, prec, ARF_RND_FLOOR);
+            arf_set_fmpq(ubound, b, prec, ARF_RND_CEIL);
+
+            d = arf_get_d(lbound, rnd);
+            if (arf_get_d(ubound, rnd) == d)
+                break;
+        }
 
-        arf_clear(c);
+        arf_clear(lbound);
+        arf_clear(ubound);
         fmpq_clear(b);
 
         return d;
-- 
2.43.0


From a7f65eecca8429a2e7dca7509dc4e342e2d4fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:52 +0000
Subject: [PATCH 09/33] fix: check for a unique real root at the exact
 endpoints of the ball

Rounding the endpoints outwards accepted balls that do not contain any root,
and rejected balls with a unique root next to another root.
---
 .../src/fmpq_poly_extra/check_unique_real_root.c    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..d744ae4 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -60,13 +60,13 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         arb_init(c);
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
         arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
+        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, ARF_PREC_EXACT);
         lsign = arb_sgn2(c);
 
         arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
+        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, ARF_PREC_EXACT);
         rsign = arb_sgn2(c);
 
         arb_clear(c);
@@ -86,7 +86,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
             }
         }
         else
+        {
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
             return 0;
+        }
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -106,6 +111,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         n = fmpz_poly_num_real_roots_0_1(pol2);
 
         fmpz_poly_clear(pol2);
+        arf_clear(l);
+        arf_clear(r);
         fmpq_clear(ql);
         fmpq_clear(qr);
 
-- 
2.43.0


From 1e4b0fd35b892e3d0e081b79b6336e7255a2d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:19 +0000
Subject: [PATCH 10/33] fix: fields are only equal if their balls enclose the
 same root

Overlapping balls can enclose distinct roots of the polynomial that are very
close to each other.
---
 libeantic/src/renf/equal.c | 41 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..5969ad7 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -11,6 +11,7 @@
 
 #include "../../e-antic/config.h"
 
+#include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/renf.h"
 
 static __inline__
@@ -19,7 +20,45 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
     return fmpq_poly_equal(nf1->pol, nf2->pol);
 }
 
+/* Return whether the overlapping balls emb of nf1 and nf2 enclose the same root */
+static int emb_equal(const renf_t nf1, const renf_t nf2)
+{
+    arf_t l[2], r[2];
+    arb_t x, y;
+    int i, sgn[2];
+
+    for (i = 0; i < 2; i++)
+    {
+        arf_init(l[i]);
+        arf_init(r[i]);
+        arb_get_interval_arf(l[i], r[i], i ? nf2->emb : nf1->emb, ARF_PREC_EXACT);
+    }
+
+    /* The intersection contains a root iff there is a change of sign */
+    arb_init(x);
+    arb_init(y);
+    for (i = 0; i < 2; i++)
+    {
+        if (i == 0)
+            arb_set_arf(x, arf_cmp(l[0], l[1]) > 0 ? l[0] : l[1]);
+        else
+            arb_set_arf(x, arf_cmp(r[0], r[1]) < 0 ? r[0] : r[1]);
+        _fmpz_poly_evaluate_arb(y, fmpq_poly_numref(nf1->nf->pol), fmpq_poly_length(nf1->nf->pol), x, ARF_PREC_EXACT);
+        sgn[i] = arf_sgn(arb_midref(y));
+    }
+    arb_clear(x);
+    arb_clear(y);
+
+    for (i = 0; i < 2; i++)
+    {
+        arf_clear(l[i]);
+        arf_clear(r[i]);
+    }
+
+    return sgn[0] * sgn[1] <= 0;
+}
+
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb) && emb_equal(nf1, nf2);
 }
-- 
2.43.0


From 8a3911ccd969a98efc1b7209ed69208d546d7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:01 +0000
Subject: [PATCH 11/33] fix: decide about releasing a field while holding the
 registry lock

Another thread could look up a field in the registry between the last reference
being dropped and the field being removed from the registry. The field was then
deleted while in use and deleted again when that reference was dropped.
---
 libeantic/srcxx/renf_class.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..7a71a02 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -286,7 +286,19 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // Unless this could be the last reference (not counting the three ones
+    // internal to the renf_class itself) there is nothing else to do.
+    size_t references = nf->refcount.load(std::memory_order_relaxed);
+    while (references != 4)
+        if (nf->refcount.compare_exchange_weak(references, references - 1, std::memory_order_release, std::memory_order_relaxed))
+            return;
+
+    // We must hold the lock while dropping the last reference. Otherwise,
+    // renf_class::make() could hand out this field again before we removed it
+    // from the registry.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
@@ -294,8 +306,6 @@ void intrusive_ptr_release(const renf_class* nf) {
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
 
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From 6cb741195357d16f61c694e08a2c57f2f9f2cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 12/33] fix: do not leak memory when creating an element or
 field fails

---
 libeantic/srcxx/renf_class.cpp      | 13 ++++++++++++-
 libeantic/srcxx/renf_elem_class.cpp |  4 ++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 7a71a02..9e8afd3 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -134,8 +134,19 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read polynomial from string");
         }
 
+        std::string embedding;
+        try
+        {
+            embedding = emb(prec);
+        }
+        catch (...)
+        {
+            fmpq_poly_clear(p);
+            throw;
+        }
+
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, embedding.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..2b17235 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
@@ -445,7 +446,10 @@ renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & va
     else if (value.is_rational())
         renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
+    {
+        renf_elem_clear(a, nf->renf_t());
         throw std::logic_error("not implemented: coercion between these number fields");
+    }
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From 7d11ffdf2e51bd2bbc11ac3794e669866b9788f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 13/33] fix: avoid signed overflow when raising to the power
 INT_MIN

---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 2b17235..1e95ed3 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -974,7 +974,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-static_cast<slong>(exp)), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From 984c1bd9a527079ce80ff9fe03d7a8b399eda161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:53 +0000
Subject: [PATCH 14/33] fix: the data to reconstruct a field must determine its
 embedding

Reading the embedding back with the precision of the field could produce a ball
that contains another root close by.
---
 libeantic/srcxx/renf_class.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 9e8afd3..4ce79f3 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -200,10 +200,25 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
+  slong prec = renf_t()->prec;
   char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+
+  // Make sure that this field can be recovered from the returned data when
+  // there are other roots close to this embedding.
+  arb_t e;
+  arb_init(e);
+  while (arb_set_str(e, emb, prec) || !fmpq_poly_check_unique_real_root(renf_t()->nf->pol, e, prec))
+  {
+      prec *= 2;
+      renf_refine_embedding(renf_t(), prec);
+      flint_free(emb);
+      emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+  }
+  arb_clear(e);
+
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
-  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
+  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), prec);
 
   flint_free(pol);
   flint_free(emb);
-- 
2.43.0


From ee7a8fd8e69215179864c3bb7b7c2392a3983bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:22 +0000
Subject: [PATCH 15/33] fix: floordiv of non-rational elements of different
 fields must throw

It divided the elements as if they lived in the same field which gave a
meaningless result and invalid memory accesses.
---
 libeantic/srcxx/renf_elem_class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 1e95ed3..b0a908e 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -952,6 +952,8 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+
+        throw std::logic_error("not implemented: floor division of non-rational elements in different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From 782fcedd566ac07484a90e9a6aba0e6a81bd6af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:22 +0000
Subject: [PATCH 16/33] fix: fractions in texts must be reduced, as in 4/2, and
 not be divided by zero

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..b9ef1e3 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,9 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+        if (fmpz_is_zero(fmpq_denref(coeff)))
+            return -1;
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From 5efc6fb8822539551834e9700feed6f0fad4408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:46 +0000
Subject: [PATCH 17/33] fix: renf_elem_fmpq_sub with a rational element of a
 quadratic field

---
 libeantic/src/renf_elem/fmpq_sub.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_sub.c b/libeantic/src/renf_elem/fmpq_sub.c
index 6e5a164..32738a9 100644
--- a/libeantic/src/renf_elem/fmpq_sub.c
+++ b/libeantic/src/renf_elem/fmpq_sub.c
@@ -24,6 +24,9 @@ static void arb_fmpq_sub(arb_t a, const fmpq_t c, const arb_t b, slong prec)
 
 void renf_elem_fmpq_sub(renf_elem_t a, const fmpq_t c, const renf_elem_t b, const renf_t nf)
 {
-    nf_elem_fmpq_sub(a->elem, c, b->elem, nf->nf);
+    /* nf_elem_fmpq_sub() leaves a stale coefficient in a when b is a rational
+     * element of a quadratic field. */
+    nf_elem_sub_fmpq(a->elem, b->elem, c, nf->nf);
+    nf_elem_neg(a->elem, a->elem, nf->nf);
     arb_fmpq_sub(a->emb, c, b->emb, nf->prec);
 }
-- 
2.43.0


From 1ae96ba04338f4a5b38f226655cb98608c2d739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:02 +0000
Subject: [PATCH 18/33] fix: comparing a small element to a rational must not
 abort

---
 libeantic/src/renf_elem/cmp_fmpq.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libeantic/src/renf_elem/cmp_fmpq.c b/libeantic/src/renf_elem/cmp_fmpq.c
index 4c8fee5..454ca47 100644
--- a/libeantic/src/renf_elem/cmp_fmpq.c
+++ b/libeantic/src/renf_elem/cmp_fmpq.c
@@ -62,9 +62,8 @@ int renf_elem_cmp_fmpq(renf_elem_t a, const fmpq_t b, renf_t nf)
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
     prec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
 
-    assert(prec != -cond && "prec + cond == 0 which does not make sense. In mid 2020 we found this to be the case sometimes. Unfortunately, we never managed to debug this issue. The only reproducer needed several days of computation to get here. So if this happens to you, please let us know.");
-
-    renf_elem_set_evaluation(a, nf, prec + cond);
+    /* cond is negative for small a; prec + cond might then be zero or negative */
+    renf_elem_set_evaluation(a, nf, FLINT_MAX(prec, prec + cond));
 
     arb_set_fmpq(diffball, b, prec);
     arb_sub(diffball, a->emb, diffball, prec);
-- 
2.43.0


From 720dfdbdc55f0c0bbc1f2dcd5abc8aecefa361bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 19/33] fix: isolating balls of all embeddings must not be
 rounded

---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From 5d1914338b0a07aadf20f05d810dba84592dc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 20/33] fix: a bisection step that returns its input is no
 progress

---
 libeantic/src/fmpz_poly_extra/bisection_step_arb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index aee1051..4a5f464 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -121,7 +121,7 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     arb_intersection(res, rres, a, prec);
 
     /* we might not be able to represent a smaller ball with this precision */
-    progress = progress && arb_contains(a, res);
+    progress = progress && arb_contains(a, res) && !arb_equal(a, res);
 
     arb_clear(b);
     arb_clear(c);
-- 
2.43.0


From 0601497001f5f082fd637a141eb4a5a22409d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 21/33] fix: refine the embedding of linear fields, even if the
 generator is zero

---
 libeantic/src/renf/refine_embedding.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..bbe9c0e 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -25,11 +25,24 @@ void renf_refine_embedding(renf_t nf, slong prec)
 
     assert(!renf_set_immutable(nf, 1) && "An embedding cannot be safely refined in a multi-threaded environment; you should have refined as needed and called renf_set_immutable() before entering multi-threaded code. Alternatively, you might also be able to use a distinct copy of the renf_t in each thread.");
 
+    arb_init(tmp);
+
+    if (nf->nf->flag & NF_LINEAR)
+    {
+        /* the generator is rational; in particular, it might be zero */
+        for (comp_prec = FLINT_MAX(prec, 64) + 2; arb_rel_accuracy_bits(nf->emb) < prec; comp_prec *= 2)
+        {
+            arb_fmpz_div_fmpz(tmp, fmpq_poly_numref(nf->nf->pol), fmpq_poly_numref(nf->nf->pol) + 1, comp_prec);
+            arb_neg(tmp, tmp);
+            if (arb_contains(nf->emb, tmp))
+                arb_swap(tmp, nf->emb);
+        }
+    }
+
     _fmpz_poly_relative_condition_number_2exp(&cond,
             nf->nf->pol->coeffs, nf->nf->pol->length,
             nf->emb, FLINT_MAX(nf->prec, 64));
     cond *= nf->nf->pol->length;
-    arb_init(tmp);
 
     comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond;
     while (arb_rel_accuracy_bits(nf->emb) < prec)
-- 
2.43.0


From 387333c0864fc654393e2eb74648b26a608022d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:32 +0000
Subject: [PATCH 22/33] fix: approximating an element must not work at infinite
 precision when the embedding is exact

---
 libeantic/src/renf_elem/get_arb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..a26dc21 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -31,7 +31,10 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
     }
 
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
-    slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+    /* the accuracy of an exact embedding, i.e., of a linear field, is not a precision one can work at */
+    slong pprec = nf->prec;
+    if (!arb_is_exact(nf->emb))
+        pprec = FLINT_MAX(pprec, arb_rel_accuracy_bits(nf->emb));
     do
     {
         renf_elem_set_evaluation(a, nf, pprec + cond);
-- 
2.43.0


From 11c4a27019a1d44187d1ac073c1df554d2c9196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:39 +0000
Subject: [PATCH 23/33] fix: keep saved fields alive until the archive is
 complete

---
 libeantic/e-antic/cereal.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cereal.hpp b/libeantic/e-antic/cereal.hpp
index 4fb9e75..a179ca5 100644
--- a/libeantic/e-antic/cereal.hpp
+++ b/libeantic/e-antic/cereal.hpp
@@ -30,7 +30,9 @@ template <class Archive>
 void save(Archive & archive, const boost::intrusive_ptr<const renf_class> & self)
 {
 #if CEREAL_VERSION >= 10301
-    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [](auto) {}));
+    // The shared pointer keeps the field alive until the archive is complete.
+    // Otherwise, another field could show up at the same address.
+    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [self](auto) {}));
 #else
     uint32_t id = archive.registerSharedPointer(self.get());
 #endif
-- 
2.43.0


From e2effbccdd7f4e39b1e3950e2f56288dbb1ef5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:59 +0000
Subject: [PATCH 24/33] fix: evaluate small elements at a positive precision

---
 libeantic/src/renf_elem/set_evaluation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/src/renf_elem/set_evaluation.c b/libeantic/src/renf_elem/set_evaluation.c
index 64f36a6..c2762cd 100644
--- a/libeantic/src/renf_elem/set_evaluation.c
+++ b/libeantic/src/renf_elem/set_evaluation.c
@@ -16,6 +16,10 @@
 
 void renf_elem_set_evaluation(renf_elem_t a, const renf_t nf, slong prec)
 {
+    /* The logarithm of a condition number is negative for small elements. So, */
+    /* the precision asked for might be too small for arb or even negative.    */
+    prec = FLINT_MAX(prec, 2);
+
     if (nf->nf->flag & NF_LINEAR)
     {
         arb_fmpz_div_fmpz(a->emb, LNF_ELEM_NUMREF(a->elem), LNF_ELEM_DENREF(a->elem), prec);
-- 
2.43.0


From f8b320ab591de044d8c5efd773698e5deba94ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:57 +0000
Subject: [PATCH 25/33] fix: approximating rational elements must not write to
 the shared rational field

Elements created without a field live in a rational field that is shared by
all threads. Approximating such an element refined the embedding of that
field, a data race with any other thread that uses rational elements.
---
 libeantic/src/renf_elem/get_arb.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index a26dc21..926838c 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -44,6 +44,10 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
             return;
         }
         pprec *= 2;
-        renf_refine_embedding(nf, pprec);
+
+        /* elements of linear fields do not depend on the embedding; there is no */
+        /* reason to change the field, e.g., the rationals shared by all threads */
+        if (!(nf->nf->flag & NF_LINEAR))
+            renf_refine_embedding(nf, pprec);
     } while(1);
 }
-- 
2.43.0


From eb194123915fc079c541708695ddf28874e86048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 26/33] fix: Python must keep a field alive after calling
 parent() on its generator

---
 pyeantic/src/pyeantic/cppyy_eantic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c60459d..9716b70 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -131,7 +131,10 @@ def unwrap_intrusive_ptr(K):
         raise TypeError("argument must be an intrusive_ptr to a renf_class")
 
     wrapped = K.get()
-    wrapped.__lifeline = K
+    # We must not call this attribute __lifeline. cppyy stores its own
+    # references in an attribute of that name, i.e., gen().parent() would drop
+    # the intrusive pointer.
+    wrapped.__renf_lifeline = K
 
     return wrapped
 
-- 
2.43.0


From abfb18f160f38756b0e88cd8fdae3e5c1fe1fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 27/33] fix: convert Python integers beyond machine size
 exactly

---
 pyeantic/src/pyeantic/cppyy_eantic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 9716b70..5c3c238 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -168,6 +168,9 @@ def for_eantic(x):
 
     If no such conversion exists, leave the argument unchanged.
     """
+    if isinstance(x, int) and not -2**31 <= x < 2**31:
+        # cppyy truncates or rounds integers that do not fit the type it picks.
+        return cppyy.gbl.mpz_class(cppyy.gbl.std.string(str(x)))
     if isinstance(x, (int, eantic.renf_elem_class, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)):
         return x
     if isinstance(x, (tuple, list)):
-- 
2.43.0


From 8ea1d6746a2c5bd91c34acfba7b271396606d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:33 +0000
Subject: [PATCH 28/33] fix: in-place operators in Python must not modify
 shared elements

---
 pyeantic/src/pyeantic/cppyy_eantic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 5c3c238..749691a 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -87,6 +87,9 @@ def enable_arithmetic(proxy, name):
 
         setattr(proxy, python_op, binary)
         setattr(proxy, python_rop, rbinary)
+        # The in-place operators of C++ would change an element for everybody
+        # who has a reference to it, e.g., the generator of a number field.
+        setattr(proxy, "__i%s__" % (op,), binary)
 
     setattr(proxy, "__neg__", lambda self: cppyy.gbl.eantic.cppyy.neg(self))
     setattr(proxy, "__pow__", lambda self, n: cppyy.gbl.eantic.pow(self, n))
-- 
2.43.0


From 481e1002d2215f3aa033af21d6b62e5a3b5cdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:18 +0000
Subject: [PATCH 29/33] fix: comparisons in Python must not fall back to
 comparing addresses

---
 libeantic/e-antic/cppyy.hpp           | 13 +++++++++++++
 pyeantic/src/pyeantic/cppyy_eantic.py | 17 +++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 5b747bb..79b5567 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -37,6 +37,19 @@ auto truediv(const S& lhs, const T& rhs) { return lhs / rhs; }
 template <typename T>
 auto neg(const T& value) { return -value; }
 
+template <typename S, typename T>
+bool lt(const S& lhs, const T& rhs) { return lhs < rhs; }
+template <typename S, typename T>
+bool gt(const S& lhs, const T& rhs) { return lhs > rhs; }
+template <typename S, typename T>
+bool le(const S& lhs, const T& rhs) { return lhs <= rhs; }
+template <typename S, typename T>
+bool ge(const S& lhs, const T& rhs) { return lhs >= rhs; }
+template <typename S, typename T>
+bool eq(const S& lhs, const T& rhs) { return lhs == rhs; }
+template <typename S, typename T>
+bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
+
 inline mpq_class rational(const renf_elem_class& x) {
     return static_cast<mpq_class>(x);
 }
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 749691a..dd3a490 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -61,12 +61,25 @@ with warnings.catch_warnings():
 
 from cppyythonizations.printing import enable_pretty_printing
 from cppyythonizations.pickling.cereal import enable_cereal
-from cppyythonizations.operators.order import enable_total_order
 from cppyythonizations.util import filtered
 
 cppyy.py.add_pythonization(enable_pretty_printing, "eantic")
 
-# Make sure that the operators <, >, <=, >=, ==, != are available.
+def enable_total_order(proxy, name):
+    r"""
+    Make sure that the operators <, >, <=, >=, ==, != are available.
+
+    We need to specify the types explicitly. Otherwise, when a comparison
+    throws, cppyy instantiates the operator for pointers and then uses it to
+    compare addresses instead of elements.
+    """
+    for op in ['lt', 'gt', 'le', 'ge', 'eq', 'ne']:
+        def compare(lhs, rhs, implementation=getattr(cppyy.gbl.eantic.cppyy, op)):
+            lhs, rhs = for_eantic(lhs), for_eantic(rhs)
+            return implementation[type(lhs), type(rhs)](lhs, rhs)
+
+        setattr(proxy, "__%s__" % (op,), compare)
+
 cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_total_order), "eantic")
 
 def enable_arithmetic(proxy, name):
-- 
2.43.0


From 99972cfb29e4b3ee1c0b2830380ed54d902e70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:49 +0000
Subject: [PATCH 30/33] fix: creating elements in Python must not fall back to
 other constructors

---
 libeantic/e-antic/cppyy.hpp           |  5 +++++
 pyeantic/src/pyeantic/cppyy_eantic.py | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 79b5567..88c0451 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -50,6 +50,11 @@ bool eq(const S& lhs, const T& rhs) { return lhs == rhs; }
 template <typename S, typename T>
 bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
 
+template <typename T>
+renf_elem_class make_renf_elem(const T& value) { return renf_elem_class(value); }
+template <typename T>
+renf_elem_class make_renf_elem(const renf_class& k, const T& value) { return renf_elem_class(k, value); }
+
 inline mpq_class rational(const renf_elem_class& x) {
     return static_cast<mpq_class>(x);
 }
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index dd3a490..79cc2f3 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -238,10 +238,17 @@ def make_renf_elem_class(*args):
     else:
         v = args[1]
 
+    v = for_eantic(v)
+
+    # We need to specify the type explicitly. Otherwise, when a constructor
+    # throws, cppyy converts the argument for another constructor, e.g., it
+    # turns elements that are not in K into booleans, and floats into integers.
     if K is None:
-        return eantic.renf_elem_class(for_eantic(v))
+        if isinstance(v, str):
+            v = cppyy.gbl.mpq_class(cppyy.gbl.std.string(v))
+        return cppyy.gbl.eantic.cppyy.make_renf_elem[type(v)](v)
     else:
-        return eantic.renf_elem_class(K, for_eantic(v))
+        return cppyy.gbl.eantic.cppyy.make_renf_elem[type(v)](K, v)
 
 
 eantic.renf_elem = make_renf_elem_class
-- 
2.43.0


From d20750fb2c52b6b0a56fbf022a06134f24c556df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:16 +0000
Subject: [PATCH 31/33] fix: convert embeddings of realalg fields exactly

The center of the interval went through a double. For roots of absolute
value above 10, it could be off by more than the radius of the ball so
that the ball did not contain the root anymore and the conversion failed.
---
 pyeantic/src/pyeantic/realalg_conversion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyeantic/src/pyeantic/realalg_conversion.py b/pyeantic/src/pyeantic/realalg_conversion.py
index 4cc3125..e4396d3 100644
--- a/pyeantic/src/pyeantic/realalg_conversion.py
+++ b/pyeantic/src/pyeantic/realalg_conversion.py
@@ -49,9 +49,11 @@ def realalg_interval_to_arb(i):
     from realalg.interval import Interval
     if not isinstance(i, Interval):
         raise ValueError
-    center = float(i.lower + i.upper) / 2.0 / 10.0 ** (i.precision)
-    rad = float(i.upper - i.lower) / 10.0 ** (i.precision - 1)
-    return '[' + str(center) + ' +/- ' + str(rad) + ']'
+    # We write the center and the radius as exact decimals. As floats, the center
+    # of a large interval is off by much more than the radius.
+    center = '%de%d' % (5 * (i.lower + i.upper), -i.precision - 1)
+    rad = '%de%d' % (10 * (i.upper - i.lower), -i.precision)
+    return '[' + center + ' +/- ' + rad + ']'
 
 def realalg_nf_to_eantic(K, name='a'):
     r"""
-- 
2.43.0


From c8fb822dfa2192f1358fd25013696b41b78b00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:55 +0000
Subject: [PATCH 32/33] fix: reading an element in parentheses must not swallow
 the closing parenthesis after a blank

---
 libeantic/srcxx/renf_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 4ce79f3..9a8d9ad 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -280,7 +280,7 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
     {
         // read until ")"
         is.get();
-        while (!is.eof() && is.peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
+        while (!is.eof() && (is >> std::ws).peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
             char c;
             is >> c;
             s += c;
-- 
2.43.0


From d98a86e005d1a4cb803fafa47bbca409f9eec939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 33/33] fix: reduce fractions that are given as strings in
 Python

eantic.renf_elem("4/2") was not an integer and not equal to 2 since GMP does
not reduce fractions when parsing them; eantic.renf_elem("1/0") crashed.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 79cc2f3..daecde8 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -246,6 +246,10 @@ def make_renf_elem_class(*args):
     if K is None:
         if isinstance(v, str):
             v = cppyy.gbl.mpq_class(cppyy.gbl.std.string(v))
+            if str(v.get_den()) == "0":
+                raise ZeroDivisionError("denominator must not be zero")
+            # GMP does not reduce fractions when parsing them.
+            v.canonicalize()
         return cppyy.gbl.eantic.cppyy.make_renf_elem[type(v)](v)
     else:
         return cppyy.gbl.eantic.cppyy.make_renf_elem[type(v)](K, v)
-- 
2.43.0

