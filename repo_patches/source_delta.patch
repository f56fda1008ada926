From e06bf8762f6f79035d3efb4203b35bcd7a37b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 01/74] fix: prime field comparison with a zero right operand
 read stale limbs

---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..20df885 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -420,6 +420,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return 1;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..d62d65b 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -450,6 +450,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return 1;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From 372e71986f5f39ec9a3db1fdbc89998a1b0b0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 02/74] fix: halving an odd prime field element into a zero
 destination gave zero

---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 20df885..ae5da28 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -237,6 +237,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
diff --git a/arith/montfp.c b/arith/montfp.c
index d62d65b..8279ae2 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -287,6 +287,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
-- 
2.43.0


From c7d6ac89f67848bb3688263d481206960627026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 03/74] fix: Montgomery multiplication lost a carry for moduli
 just below a power of 2^64

---
 arith/montfp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index 8279ae2..ee18afc 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -344,9 +344,11 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
+    mp_limb_t w = z[t + i];
     v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
+    w = v < w;  // Handle overflow of both additions.
     z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
-    z[t + i + 1] = z[t + i] < v;
+    z[t + i + 1] = w + (z[t + i] < v);
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From 60509392a8375d04e9235908b1f9b8858b482052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:02 +0000
Subject: [PATCH 04/74] fix: zero results in prime field rings were stored as
 nonzero (multiples of the modulus, zero divisors)

---
 arith/fasterfp.c | 17 +++++++++++++----
 arith/montfp.c   | 13 ++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ae5da28..b06f8f1 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -38,6 +38,12 @@ struct data_s {
 };
 typedef struct data_s *dataptr;
 
+// The flag for a nonnegative n-limb result that may be zero.
+static inline int result_flag(const mp_limb_t *d, size_t n) {
+  while (n > 0) if (d[--n]) return 2;
+  return 0;
+}
+
 static void fp_init(element_ptr e) {
   fp_field_data_ptr p = e->field->data;
   dataptr dp = e->data = pbc_malloc(sizeof(struct data_s));
@@ -70,8 +76,8 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
     from_mpz(e, tmp);
+    dp->flag = mpz_sgn(tmp) ? 2 : 0;
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
@@ -300,7 +306,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    // The modulus may be composite.
+    cd->flag = result_flag(cd->d, t);
 
     pbc_free(buf);
   }
@@ -329,6 +336,7 @@ static void fp_square(element_ptr c, element_ptr a) {
 
     diff = p->limbs - z1->_mp_size;
     if (diff) memset(&z1->_mp_d[z1->_mp_size], 0, diff * sizeof(mp_limb_t));
+    cd->flag = result_flag(cd->d, p->limbs);
 
     //mpn_sqr_n() might make the code below faster than the code above
     //but GMP doesn't expose this function
@@ -361,7 +369,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
-    if (op < 0) {               //TODO: don't need to check c != 0 this time
+    cd->flag = result_flag(cd->d, t);
+    if (op < 0) {
       fp_neg(c, c);
     }
   }
@@ -377,8 +386,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     fp_to_mpz(z, a);
     mpz_powm(z, z, op, a->field->order);
     from_mpz(c, z);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index ee18afc..3d0099d 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -48,6 +48,12 @@ static inline void set_limbs(mp_limb_t *dst, mpz_t z, size_t n) {
          0, (n - count) * sizeof(mp_limb_t));
 }
 
+// The flag for a nonnegative n-limb result that may be zero.
+static inline char result_flag(const mp_limb_t *d, size_t n) {
+  while (n > 0) if (d[--n]) return 2;
+  return 0;
+}
+
 static void fp_init(element_ptr e) {
   fptr p = e->field->data;
   eptr ep = e->data = pbc_malloc(sizeof(*ep));
@@ -375,7 +381,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    // The modulus may be composite.
+    cd->flag = result_flag(cd->d, p->limbs);
   }
 }
 
@@ -394,7 +401,7 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_mod(z, z, a->field->order);
     set_limbs(cd->d, z, p->limbs);
     mpz_clear(z);
-    cd->flag = 2;
+    cd->flag = result_flag(cd->d, p->limbs);
   }
 }
 
@@ -511,10 +518,10 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
   mpz_import(z, n, 1, 1, 1, 0, data);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
-    ad->flag = 2;
     mpz_mul_2exp(z, z, p->bytes * 8);
     mpz_mod(z, z, a->field->order);
     set_limbs(ad->d, z, p->limbs);
+    ad->flag = result_flag(ad->d, p->limbs);
   }
   mpz_clear(z);
   return n;
-- 
2.43.0


From 956ff42fb9f71f7d7558228eb84c9188e4232cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:02 +0000
Subject: [PATCH 05/74] fix: decoding bytes of a value not below the modulus
 left prime field elements unreduced

---
 arith/fasterfp.c | 7 +------
 arith/naivefp.c  | 1 +
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index b06f8f1..8636931 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -490,7 +490,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  dataptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -498,11 +497,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    from_mpz(a, z);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..56fe5b0 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -215,6 +215,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From a117f0bfc333dc287c28bd7451c3955c76cc55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:02 +0000
Subject: [PATCH 06/74] fix: hashing to a small prime field could leave the
 unreduced value p

---
 arith/naivefp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arith/naivefp.c b/arith/naivefp.c
index 56fe5b0..1ad573f 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -177,6 +177,7 @@ static void zp_random(element_ptr n) {
 
 static void zp_from_hash(element_ptr n, const void *data, int len) {
   pbc_mpz_from_hash(n->data, n->field->order, data, len);
+  mpz_mod(n->data, n->data, n->field->order);
 }
 
 static int zp_is1(element_ptr n) {
-- 
2.43.0


From e8c5d95b53bea7b8ad12dc35bead8339208e6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:02 +0000
Subject: [PATCH 07/74] fix: zero to the power zero was 0 instead of 1 in two
 prime field implementations

---
 arith/fasterfp.c | 7 +++++--
 arith/montfp.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 8636931..1e87b30 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -379,8 +379,11 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
-  else {
+  if (!ad->flag) {
+    // 0^0 = 1.
+    if (mpz_sgn(op)) cd->flag = 0;
+    else element_set1(c);
+  } else {
     mpz_t z;
     mpz_init(z);
     fp_to_mpz(z, a);
diff --git a/arith/montfp.c b/arith/montfp.c
index 3d0099d..da5154f 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -391,8 +391,11 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
-  else {
+  if (!ad->flag) {
+    // 0^0 = 1.
+    if (mpz_sgn(op)) cd->flag = 0;
+    else element_set1(c);
+  } else {
     mpz_t z;
     mpz_init(z);
     fp_to_mpz(z, a);
-- 
2.43.0


From 9a389ba7bd47f746a4ca0a2853059bb58252b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:46 +0000
Subject: [PATCH 08/74] fix: polynomial doubling and integer multiples kept
 leading zero coefficients

---
 arith/poly.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..a15ddf1 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -267,6 +267,7 @@ static void poly_double(element_ptr f, element_ptr g) {
   for (i=0; i<n; i++) {
     element_double(pf->coeff->item[i], pg->coeff->item[i]);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
@@ -279,6 +280,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +293,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
-- 
2.43.0


From b7ce2a52e30c25cd13227c4f5800d08e9f6192be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:46 +0000
Subject: [PATCH 09/74] fix: finding the root of a linear polynomial wrote past
 the end of an element

---
 arith/poly.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index a15ddf1..4a28de9 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1651,6 +1651,12 @@ int poly_findroot(element_ptr root, element_ptr poly) {
   element_t p, x, r, fac, g;
   mpz_t q;
 
+  if (poly_degree(poly) == 1) {
+    // Monic and linear: the computation below needs x reduced mod poly.
+    element_neg(root, poly_coeff(poly, 0));
+    return 0;
+  }
+
   mpz_init(q);
   mpz_set(q, poly_base_field(poly)->order);
 
-- 
2.43.0


From f872df61247c417c4b29c32ebedbcbf34ca6ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 10/74] fix: halving an integer element shifted by -1 bits and
 gave zero

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..0799e9a 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
-- 
2.43.0


From 2cdbaeadb3de6d70eebade83a28e1985d957d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 11/74] fix: the square test on integers answered yes for all
 perfect powers

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 0799e9a..733d27f 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From d39be4d018f7439fcf198e3958983b0bce42d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 12/74] fix: byte encoding of integers did not round-trip,
 overran its length and modified its input

---
 arith/z.c | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 733d27f..b4b30eb 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -143,26 +143,20 @@ static void z_field_clear(field_t f) {
 static int z_to_bytes(unsigned char *data, element_t e) {
   mpz_ptr z = e->data;
   size_t msb = mpz_sizeinbase(z, 2);
-  size_t n = 4;
+  // Zero has no digits. Otherwise leave room for the sign bit.
+  size_t n = mpz_sgn(z) ? msb / 8 + 1 : 0;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
-  if (mpz_sgn(z) < 0) {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-    data[4] |= 128;
-  } else {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-  }
-  n += (msb + 7) / 8 - 4;
   for (i=0; i<4; i++) {
     data[i] = (unsigned char)(n >> 8 * (3 - i));
   }
-  n += 4;
+  if (n) {
+    data[4] = 0;
+    mpz_export(data + 4 + n - (msb + 7) / 8, NULL, 1, 1, 1, 0, z);
+    if (mpz_sgn(z) < 0) data[4] |= 128;
+  }
 
-  return (int)n;
+  return (int)(n + 4);
 }
 
 static int z_from_bytes(element_t e, unsigned char *data) {
@@ -178,22 +172,19 @@ static int z_from_bytes(element_t e, unsigned char *data) {
   ptr = data;
   n = 0;
   for (i=0; i<4; i++) {
-    n += ((unsigned int) *ptr) << 8 * (3 - i);
+    n += ((size_t) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  if (n && data[4] & 128) neg = 1;
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, i ? *ptr : *ptr & 127);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)(n + 4);
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -201,7 +192,8 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  mpz_ptr z = a->data;
+  return (int)(mpz_sgn(z) ? mpz_sizeinbase(z, 2) / 8 + 1 + 4 : 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From 520b9d57ff833f6024ee4976b14aef2f8eed85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:04 +0000
Subject: [PATCH 13/74] fix: subtraction mixing an integer and an integer list
 had the wrong signs

---
 arith/multiz.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..fef7f1e 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -255,15 +255,6 @@ static void f_add(element_ptr n, element_ptr a, element_ptr b) {
   multiz_free(delme);
 }
 
-static multiz multiz_new_sub(const multiz a, const multiz b) {
-  return multiz_new_bin(a, b, mpz_sub);
-}
-static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
-  multiz delme = n->data;
-  n->data = multiz_new_sub(a->data, b->data);
-  multiz_free(delme);
-}
-
 static void mpzmul(mpz_t x, const mpz_t y, const mpz_t z) {
   mpz_mul(x, y, z);
 }
@@ -334,6 +325,21 @@ static multiz multiz_new_neg(multiz z) {
   return multiz_new_unary(z, (void(*)(mpz_t, const mpz_t, void *))mpzneg, NULL);
 }
 
+static multiz multiz_new_sub(const multiz a, const multiz b) {
+  // multiz_new_bin() only suits symmetric operations: when one operand is an
+  // integer it leaves the other coefficients of the list as they are.
+  multiz nb = multiz_new_neg(b);
+  multiz x = multiz_new_add(a, nb);
+  multiz_free(nb);
+  return x;
+}
+
+static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
+  multiz delme = n->data;
+  n->data = multiz_new_sub(a->data, b->data);
+  multiz_free(delme);
+}
+
 static void f_set(element_ptr n, element_ptr a) {
   multiz delme = n->data;
   n->data = multiz_clone(a->data);
-- 
2.43.0


From b91dd168813d9dd4d69dc8be7a43a6e36b20ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 14/74] fix: square roots of base field elements in quadratic
 extensions were 0 for non-residues

---
 arith/fieldquadratic.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..0c123ac 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -360,6 +360,20 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_ptr nqr = fq_nqr(n->field);
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // Base field element: either it or its quotient by nqr has a square root
+    // in the base field.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(r->y, p->x, nqr);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   //if (a+b sqrt(nqr))^2 = x+y sqrt(nqr) then
   //2a^2 = x +- sqrt(x^2 - nqr y^2)
   //(take the sign which allows a to exist)
@@ -529,6 +543,20 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   eptr r = n->data;
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // Base field element: either it or its negation has a square root in the
+    // base field.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(r->y, p->x);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   // If (a+bi)^2 = x+yi then 2a^2 = x +- sqrt(x^2 + y^2)
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
-- 
2.43.0


From 3c4e1bdb075cd311e6b2241e727e432bc5cfceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:20 +0000
Subject: [PATCH 15/74] fix: the square test in polynomial extensions answered
 no for zero

---
 arith/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arith/poly.c b/arith/poly.c
index 4a28de9..d6897b2 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -622,6 +622,7 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  if (element_is0(e)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From 2f722bb1101cda2c4a59b8f4b8f58410fa005f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:24 +0000
Subject: [PATCH 16/74] fix: negative multiples of curve points and other
 generic negative powers were arbitrary

---
 arith/field.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..cb525de 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -119,6 +119,16 @@ static void generic_pow_mpz(element_ptr x, element_ptr a, mpz_ptr n) {
     return;
   }
 
+  if (mpz_sgn(n) < 0) {
+    mpz_t m;
+    mpz_init(m);
+    mpz_neg(m, n);
+    element_invert(x, a);
+    element_pow_mpz(x, x, m);
+    mpz_clear(m);
+    return;
+  }
+
   k = optimal_pow_window_size(n);
   a_lookup = build_pow_window(a, k);
   element_pow_wind(x, n, k, a_lookup);
-- 
2.43.0


From db8a1d5e03f2c44889c506ebff0cbef95543f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:24 +0000
Subject: [PATCH 17/74] fix: multiplying a curve point by a small integer
 returned the point itself

---
 ecc/curve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..657c025 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -446,6 +446,13 @@ void curve_set_gen_no_cofac(element_ptr a) {
   element_set(a, cdp->gen_no_cofac);
 }
 
+static void curve_mul_si(element_ptr c, element_ptr a, signed long int n) {
+  mpz_t z;
+  mpz_init_set_si(z, n);
+  element_mul_mpz(c, a, z);
+  mpz_clear(z);
+}
+
 static int curve_sign(element_ptr e) {
   point_ptr p = e->data;
   if (p->inf_flag) return 0;
@@ -711,6 +718,7 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
   f->add = f->mul = curve_mul;
   f->multi_add = multi_add;
   f->mul_mpz = element_pow_mpz;
+  f->mul_si = curve_mul_si;
   f->cmp = curve_cmp;
   f->set0 = f->set1 = curve_set1;
   f->is0 = f->is1 = curve_is1;
-- 
2.43.0


From 8e4ec78042fa4f906cf9c1434a598c37342e3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:24 +0000
Subject: [PATCH 18/74] fix: batch doubling of points ignored results for
 identity destinations and mixed up entries

---
 ecc/curve.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 657c025..59fdc03 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -219,29 +219,20 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   element_init(e1,q->y->field);
   element_init(e2,q->y->field);
 
-  for(i=0; i<n; i++){
-    q=a[i]->data; r=c[i]->data;
-    element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
-  }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
+  //Entries whose double is O have no 1/2y: they contribute a factor of 1.
   for(i=0; i<n; i++){
     q=a[i]->data;
-    element_double(table[i],q->y);
+    element_init(table[i],q->y->field);
+    if (q->inf_flag || element_is0(q->y)) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
     q=a[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if (q->inf_flag || element_is0(q->y)) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -250,7 +241,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   for(i=0; i<n; i++){
     q=a[i]->data;
     r=c[i]->data;
-    if(r->inf_flag) continue;
+    if (q->inf_flag || element_is0(q->y)) {
+      r->inf_flag = 1;
+      continue;
+    }
 
     //e2=lambda = (3x^2 + a) / 2y
     element_square(e2, q->x);
-- 
2.43.0


From b99135c12d74de0cb3ff15889a49cb2ffcae7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:24 +0000
Subject: [PATCH 19/74] fix: batch addition of points gave wrong sums when one
 pair needed no chord

---
 ecc/curve.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 59fdc03..ba67532 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -274,6 +274,12 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   pbc_free(table);
 }
 
+// Sets e to x2 - x1, or to 1 when adding the points needs no such quotient.
+static void add_denominator(element_ptr e, point_ptr p, point_ptr q) {
+  if (p->inf_flag || q->inf_flag || !element_cmp(p->x, q->x)) element_set1(e);
+  else element_sub(e, q->x, p->x);
+}
+
 //compute c_i=a_i+b_i at one time.
 static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   int i;
@@ -289,12 +295,12 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e2, p->x->field);
 
   element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
+  add_denominator(table[0], p, q);
   for(i=1; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
+    add_denominator(table[i], p, q);
     element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
@@ -302,7 +308,7 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
-    element_sub(e1, q->x, p->x);
+    add_denominator(e1, p, q);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
   element_set(table[0],e2); //e2 no longer used.
-- 
2.43.0


From 08f03024d41e9369fb564c3f0ebfe3957487ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:24 +0000
Subject: [PATCH 20/74] fix: the nodal curve group left most operations unset
 and could pick the singular point

---
 ecc/singular.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/ecc/singular.c b/ecc/singular.c
index f361a50..9a95350 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -55,11 +55,10 @@ static void sn_random(element_t a) {
   p->inf_flag = 0;
   do {
     element_random(p->x);
-    if (element_is0(p->x)) continue;
     element_square(t, p->x);
     element_add(t, t, p->x);
     element_mul(t, t, p->x);
-  } while (!element_is_sqr(t));
+  } while (element_is0(p->x) || !element_is_sqr(t));
   element_sqrt(p->y, t);
 
   element_clear(t);
@@ -197,6 +196,12 @@ static void sn_invert(element_ptr c, element_ptr a) {
   element_neg(r->y, p->y);
 }
 
+static int sn_cmp(element_ptr a, element_ptr b) {
+  point_ptr p = a->data, q = b->data;
+  if (p->inf_flag || q->inf_flag) return !(p->inf_flag && q->inf_flag);
+  return element_cmp(p->x, q->x) || element_cmp(p->y, q->y);
+}
+
 static void sn_field_clear(field_ptr c) {
   UNUSED_VAR(c);
 }
@@ -271,16 +276,10 @@ static size_t sn_out_str(FILE *stream, int base, element_ptr a) {
   return result + status + 1;
 }
 
-static void field_clear_nothing(field_ptr f) {
-  UNUSED_VAR(f);
-}
-
 void field_init_curve_singular_with_node(field_t c, field_t field) {
-  field_t defaultField;
-  field_init(defaultField);
-
-  mpz_init(c->order);
-  mpz_set(c->order, field->order);
+  field_init(c);
+  // The nonsingular points correspond to the nonzero field elements.
+  mpz_sub_ui(c->order, field->order, 1);
   c->data = (void *) field;
   c->init = sn_init;
   c->clear = sn_clear;
@@ -293,12 +292,10 @@ void field_init_curve_singular_with_node(field_t c, field_t field) {
   c->mul = c->add = sn_add;
   c->set1 = c->set0 = sn_set0;
   c->is1 = c->is0 = sn_is0;
-  c->mul_mpz = defaultField->pow_mpz;
+  c->cmp = sn_cmp;
+  c->mul_mpz = element_pow_mpz;
   c->out_str = sn_out_str;
   c->field_clear = sn_field_clear;
-
-  defaultField->field_clear = field_clear_nothing;
-  field_clear(defaultField);
 }
 
 //TODO: the following code is useless as the Tate pairing is degenerate on singular curves
-- 
2.43.0


From eb0bc5652deb4a6a9bf45821fbe89519e020f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:33 +0000
Subject: [PATCH 21/74] fix: powers with precomputed tables reduced the
 exponent by the field order

---
 arith/field.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index cb525de..8081604 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -299,7 +299,7 @@ static void *element_build_base_table(element_ptr a, int bits, int k) {
  * exponentiation using aggressive base lookup table
  * must have k >= 1.
  */
-static void element_pow_base_table(element_ptr x, mpz_ptr power,
+static void element_pow_base_table(element_ptr x, mpz_ptr n,
                                    struct element_base_table *base_table) {
   size_t word;                  /* the word to look up. 0<word<base */
   size_t row;                   /* row in base table */
@@ -307,24 +307,25 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
   size_t num_lookups;
 
   element_t result;
-  mpz_t n;
-  mpz_init_set(n, power);
 
   // Early abort if raising to power 0.
   if (!mpz_sgn(n)) {
-    mpz_clear(n);
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+
+  num_lookups = mpz_sizeinbase(n, 2) / base_table->k + 1;
+
+  // The table only covers exponents about as long as the order. We cannot
+  // reduce others: the order of a field is not that of its units.
+  if (mpz_sgn(n) < 0 || num_lookups > (size_t)base_table->num_lookups) {
+    element_pow_mpz(x, base_table->table[0][1], n);
+    return;
   }
 
   element_init(result, x->field);
   element_set1(result);
 
-  num_lookups = mpz_sizeinbase(n, 2) / base_table->k + 1;
-
   for (row = 0; row < num_lookups; row++) {
     word = 0;
     for (s = 0; s < base_table->k; s++) {
@@ -337,7 +338,6 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
 
   element_set(x, result);
   element_clear(result);
-  mpz_clear(n);
 }
 
 static void default_element_pp_init(element_pp_t p, element_t in) {
-- 
2.43.0


From 5c02e37405d317767167010413ced48ff0fcc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:19 +0000
Subject: [PATCH 22/74] fix: random elements of ternary fields ignored the
 configured random source and left half the bits zero

gf3m_random drew from rand() (31 bits per word). Random points with x = 0
on the type I curve skipped the square root and could leave the curve.
---
 arith/ternary_extension_field.c | 23 +++++++++++++----------
 ecc/eta_T_3.c                   |  2 --
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..96a366f 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -22,6 +22,7 @@
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 #include "pbc_field.h"
+#include "pbc_random.h"
 
 typedef unsigned long gf3;
 
@@ -207,20 +208,22 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
     params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
     unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
+    mpz_t n;
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
+    gf3m_zero(a);
+    mpz_init(n);
+    /* the ternary digits of a uniform $n < 3^m$ are the coefficients */
+    pbc_mpz_random(n, a->field->order);
+    for (i = 0; i < c->m; i++) {
+        unsigned long digit = mpz_fdiv_q_ui(n, n, 3);
+        if (digit == 1)
+            a1[i / W] |= 1ul << (i % W);
+        else if (digit == 2)
+            a2[i / W] |= 1ul << (i % W);
     }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    mpz_clear(n);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..4752f33 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -98,8 +98,6 @@ static void point_random(element_t a) {
     element_init(t2, f);
     do {
         element_random(x);
-        if (element_is0(x))
-            continue;
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
-- 
2.43.0


From 92d0d1776ea95eff598a40256d8affe5a96ed071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:34 +0000
Subject: [PATCH 23/74] fix: method "miller" of types D and G used the
 x-coordinate for y and returned garbage

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..24d09df 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..be2c7d5 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From 8f5a039d0e57cd8a845812f965dbeab9d678ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:45 +0000
Subject: [PATCH 24/74] fix: the final powering divided by zero when its
 intermediate value was 1 or -1

This happens for pairings with value 1, for example of points of coprime
orders in type A1, or of points of small order in type G.
---
 ecc/a_param.c | 5 +++++
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..02378cd 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -232,6 +232,11 @@ static void lucas_odd(element_ptr out, element_ptr in, element_ptr temp, mpz_t c
   element_ptr t1 = element_y(temp);
   size_t j;
 
+  if (element_is0(in1)) {  // in = 1 or -1, and the cofactor is even.
+    element_set1(out);
+    return;
+  }
+
   element_set_si(t0, 2);
   element_double(t1, in0);
 
diff --git a/ecc/d_param.c b/ecc/d_param.c
index 24d09df..ff17689 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -439,7 +439,7 @@ static void d_pairing_option_set(pairing_t pairing, char *key, char *value) {
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
-  if (element_is1(in)) {
+  if (element_is0(element_y(in))) {  // in = 1 or -1, and the cofactor is odd.
     element_set(out, in);
     return;
   }
diff --git a/ecc/g_param.c b/ecc/g_param.c
index be2c7d5..93d03d9 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is0(element_y(in))) {  // in = 1 or -1, and the cofactor is odd.
+    element_set(out, in);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From b3fb89757cf7f11a1a98b5f00f17bf7dc031338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:45 +0000
Subject: [PATCH 25/74] fix: preprocessed pairings of types E, F and I only
 referred to the caller's element

---
 ecc/pairing.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..61922aa 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,11 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  // Keep a copy: the caller may change or clear in1 before applying p.
+  element_ptr copy = pbc_malloc(sizeof(element_t));
+  element_init_same_as(copy, in1);
+  element_set(copy, in1);
+  p->data = copy;
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +72,8 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_clear(p->data);
+  pbc_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From 7ebe2b76afdfca4ee28c2d6f15d35bee3d95b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:07 +0000
Subject: [PATCH 26/74] fix: a product of pairings with one trivial factor
 returned 1 instead of the other factors

---
 include/pbc_pairing.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..0d87a01 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -154,18 +154,24 @@ static inline void element_prod_pairing(
     element_t out, element_t in1[], element_t in2[], int n) {
   pairing_ptr pairing = out->field->pairing;
   int i;
+  int trivial = n <= 0;
   PBC_ASSERT(pairing->GT == out->field, "pairing output mismatch");
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
-      element_set0(out);
-      return;
+    if (element_is0(in1[i]) || element_is0(in2[i])) trivial = 1;
+  }
+  if (trivial) {
+    // Some factors are 1: the routines below cannot handle the identity.
+    element_t t;
+    element_init(t, pairing->GT);
+    element_set0(out);
+    for(i = 0; i < n; i++) {
+      pairing_apply(t, in1[i], in2[i], pairing);
+      element_add(out, out, t);
     }
+    element_clear(t);
+    return;
   }
   pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
 }
-- 
2.43.0


From 2071f538935fdd8b37dda9d83f3ab923fbba1ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:07 +0000
Subject: [PATCH 27/74] fix: the DDH check of types D and G read coordinates of
 the identity

---
 ecc/d_param.c | 24 +++++++++++++++---------
 ecc/g_param.c | 30 ++++++++++++++++++------------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index ff17689..2518571 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -753,18 +753,24 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_init(t0, p->Fqk);
   element_init(t1, p->Fqk);
   element_init(t2, p->Fqk);
+  element_set1(t0);
+  element_set1(t1);
   // Twist: (x, y) --> (v^-1 x, v^-(3/2) y)
   // where v is the quadratic nonresidue used to construct the twist.
-  element_mul(cx, curve_x_coord(c), p->nqrinv);
-  element_mul(dx, curve_x_coord(d), p->nqrinv);
   // v^-3/2 = v^-2 * v^1/2
-  element_mul(cy, curve_y_coord(c), p->nqrinv2);
-  element_mul(dy, curve_y_coord(d), p->nqrinv2);
-
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  cc_tatepower(t0, t0, pairing);
-  cc_tatepower(t1, t1, pairing);
+  // Pairings involving the identity are 1.
+  if (!element_is0(a) && !element_is0(d)) {
+    element_mul(dx, curve_x_coord(d), p->nqrinv);
+    element_mul(dy, curve_y_coord(d), p->nqrinv2);
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    cc_tatepower(t0, t0, pairing);
+  }
+  if (!element_is0(b) && !element_is0(c)) {
+    element_mul(cx, curve_x_coord(c), p->nqrinv);
+    element_mul(cy, curve_y_coord(c), p->nqrinv2);
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    cc_tatepower(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) res = 1;    // We were given g, g^x, h, h^-x.
   else {
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 93d03d9..cb72858 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -578,18 +578,24 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_init(t0, p->Fqk);
   element_init(t1, p->Fqk);
   element_init(t2, p->Fqk);
-  //map from twist: (x, y) --> (v^-1 x, v^-(3/2) y)
-  //where v is the quadratic nonresidue used to construct the twist
-  element_mul(cx, curve_x_coord(c), p->nqrinv);
-  element_mul(dx, curve_x_coord(d), p->nqrinv);
-  //v^-3/2 = v^-2 * v^1/2
-  element_mul(cy, curve_y_coord(c), p->nqrinv2);
-  element_mul(dy, curve_y_coord(d), p->nqrinv2);
-
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  tatepower10(t0, t0, pairing);
-  tatepower10(t1, t1, pairing);
+  element_set1(t0);
+  element_set1(t1);
+  // Map from twist: (x, y) --> (v^-1 x, v^-(3/2) y)
+  // where v is the quadratic nonresidue used to construct the twist.
+  // v^-3/2 = v^-2 * v^1/2
+  // Pairings involving the identity are 1.
+  if (!element_is0(a) && !element_is0(d)) {
+    element_mul(dx, curve_x_coord(d), p->nqrinv);
+    element_mul(dy, curve_y_coord(d), p->nqrinv2);
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    tatepower10(t0, t0, pairing);
+  }
+  if (!element_is0(b) && !element_is0(c)) {
+    element_mul(cx, curve_x_coord(c), p->nqrinv);
+    element_mul(cy, curve_y_coord(c), p->nqrinv2);
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    tatepower10(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) {
     //g, g^x, h, h^-x case
-- 
2.43.0


From 3d0b36cc06b1783c32f5df95f88b0b50e7909fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:55 +0000
Subject: [PATCH 28/74] fix: changing the method of a pairing made its existing
 preprocessed data unusable (crash on apply or clear)

---
 include/pbc_pairing.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 0d87a01..fa48867 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -10,6 +10,9 @@
 struct pairing_pp_s {
   struct pairing_s *pairing;
   void *data;
+  // The routines that match 'data', even if the pairing's options change.
+  void (*apply)(element_t out, element_t in2, struct pairing_pp_s *p);
+  void (*clear)(struct pairing_pp_s *p);
 };
 typedef struct pairing_pp_s pairing_pp_t[1];
 typedef struct pairing_pp_s *pairing_pp_ptr;
@@ -57,6 +60,8 @@ static inline void pairing_pp_init(pairing_pp_t p, element_t in1, pairing_t pair
     return;
   }
   p->pairing = pairing;
+  p->apply = pairing->pp_apply;
+  p->clear = pairing->pp_clear;
   pairing->pp_init(p, in1, pairing);
 }
 
@@ -68,7 +73,7 @@ static inline void pairing_pp_clear(pairing_pp_t p) {
     // happens when p was initialized with identity
     return;
   }
-  p->pairing->pp_clear(p);
+  p->clear(p);
 }
 
 /*@manual pairing_apply
@@ -85,7 +90,7 @@ static inline void pairing_pp_apply(element_t out, element_t in2, pairing_pp_t p
     element_set0(out);
     return;
   }
-  p->pairing->pp_apply((element_ptr) out->data, in2, p);
+  p->apply((element_ptr) out->data, in2, p);
 }
 
 /*@manual pairing_init
-- 
2.43.0


From 0cc4674c5b5512137d2ab6288627caf99d291c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:11 +0000
Subject: [PATCH 29/74] fix: inverting a target group element of type I crashed
 (no inversion in GF(3^2m))

---
 arith/ternary_extension_field.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 96a366f..12fb5c8 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -610,6 +610,25 @@ static void gf32m_neg(element_t c, element_t a) {
     element_neg(c1, a1);
 }
 
+/* $e <- a^{-1}$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t norm, t;
+    element_init(norm, base);
+    element_init(t, base);
+    element_mul(norm, a0, a0);
+    element_mul(t, a1, a1);
+    element_add(norm, norm, t); // norm == a0^2 + a1^2
+    element_invert(norm, norm);
+    element_mul(e0, a0, norm);
+    element_mul(e1, a1, norm);
+    element_neg(e1, e1);
+    element_clear(norm);
+    element_clear(t);
+}
+
 /* $e<- a*b$ */
 static void gf32m_mult(element_t e, element_t a, element_t b) {
     element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, b0 = GF32M(b)->_0, b1 =
@@ -676,6 +695,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->sub = gf32m_sub;
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
+    f->invert = gf32m_invert;
     f->cubic = gf32m_cubic;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
-- 
2.43.0


From 965b957a1d073eae1f5548a01a6c25c88f6a7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 30/74] fix: multiplying target group elements and type I
 points by a small integer did nothing

---
 ecc/eta_T_3.c | 8 ++++++++
 ecc/pairing.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 4752f33..264f1ed 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -183,6 +183,13 @@ static void point_invert(element_ptr e, element_ptr a) {
     }
 }
 
+static void point_mul_si(element_ptr e, element_ptr a, signed long int n) {
+    mpz_t z;
+    mpz_init_set_si(z, n);
+    element_pow_mpz(e, a, z);
+    mpz_clear(z);
+}
+
 static size_t point_out_str(FILE *stream, int base, element_ptr a) {
     point_ptr p = DATA(a);
     size_t size = 0;
@@ -212,6 +219,7 @@ void field_init_eta_T_3(field_t f, field_t base) {
     f->set1 = f->set0 = point_set0;
     f->is1 = f->is0 = point_is0;
     f->mul_mpz = f->pow_mpz;
+    f->mul_si = point_mul_si;
     f->out_str = point_out_str;
     f->field_clear = point_field_clear;
     f->name = "eta_T_3 point group";
diff --git a/ecc/pairing.c b/ecc/pairing.c
index 61922aa..16600e1 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -221,6 +221,13 @@ static void mulg_pow_mpz(element_t x, element_t a, mpz_t n) {
   element_pow_mpz(x->data, a->data, n);
 }
 
+static void mulg_mul_si(element_ptr x, element_ptr a, signed long int n) {
+  mpz_t z;
+  mpz_init_set_si(z, n);
+  element_pow_mpz(x->data, a->data, z);
+  mpz_clear(z);
+}
+
 static void mulg_pp_init(element_pp_t p, element_t in) {
   p->data = pbc_malloc(sizeof(element_pp_t));
   element_pp_init(p->data, in->data);
@@ -269,6 +276,7 @@ void pairing_GT_init(pairing_ptr pairing, field_t f) {
   gt->add = mulg_mul;
   gt->sub = mulg_div;
   gt->mul_mpz = mulg_pow_mpz;
+  gt->mul_si = mulg_mul_si;
   gt->neg = mulg_invert;
   gt->is0 = mulg_is1;
 
-- 
2.43.0


From 2b7c3686317dbd6c00aabf29fb87fa676fb2581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 31/74] fix: a random target group element could be 0, which is
 not in the group

---
 ecc/pairing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 16600e1..d58bd15 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -128,7 +128,9 @@ static void gt_from_hash(element_ptr e, const void *data, int len) {
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0(e->data));
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From 0d07a331818296b42486619b362d5d93c65fa771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:34 +0000
Subject: [PATCH 32/74] fix: hashing zero bytes to the target group gave 0,
 which is not in the group

---
 ecc/pairing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index d58bd15..5b7da59 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -123,6 +123,8 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
+  // Zero is not a unit: map it to the identity.
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From e8f35de1d8ede96d33b9cf4ba3d53b0b28179105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 33/74] fix: the generator of a small curve group could be the
 identity, making every random point the identity

---
 ecc/curve.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index ba67532..d035603 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -692,6 +692,21 @@ static element_ptr curve_get_y(element_ptr e) {
   return P->y;
 }
 
+static void curve_pick_generators(curve_data_ptr cdp) {
+  // In a small group, the cofactor may well map a random point to O, so retry
+  // a few times (but not forever, as the given cofactor may be wrong).
+  int i;
+  for (i = 0; i < 128; i++) {
+    curve_random_no_cofac_solvefory(cdp->gen_no_cofac);
+    if (!cdp->cofac) {
+      element_set(cdp->gen, cdp->gen_no_cofac);
+      return;
+    }
+    element_mul_mpz(cdp->gen, cdp->gen_no_cofac, cdp->cofac);
+    if (!element_is0(cdp->gen)) return;
+  }
+}
+
 void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order, mpz_t cofac) {
   /*
   if (element_is0(a)) {
@@ -753,16 +768,14 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
 
   element_init(cdp->gen_no_cofac, f);
   element_init(cdp->gen, f);
-  curve_random_no_cofac_solvefory(cdp->gen_no_cofac);
   if (cofac) {
     cdp->cofac = pbc_malloc(sizeof(mpz_t));
     mpz_init(cdp->cofac);
     mpz_set(cdp->cofac, cofac);
-    element_mul_mpz(cdp->gen, cdp->gen_no_cofac, cofac);
   } else{
     cdp->cofac = NULL;
-    element_set(cdp->gen, cdp->gen_no_cofac);
   }
+  curve_pick_generators(cdp);
   cdp->quotient_cmp = NULL;
 }
 
@@ -900,12 +913,7 @@ void field_reinit_curve_twist(field_ptr c) {
   element_mul(cdp->b, cdp->b, nqr);
 
   // Recompute generators.
-  curve_random_no_cofac_solvefory(cdp->gen_no_cofac);
-  if (cdp->cofac) {
-    element_mul_mpz(cdp->gen, cdp->gen_no_cofac, cdp->cofac);
-  } else{
-    element_set(cdp->gen, cdp->gen_no_cofac);
-  }
+  curve_pick_generators(cdp);
 }
 
 // I could generalize this for all fields, but is there any point?
-- 
2.43.0


From c6e8737ccc8dd936ff9a9c4e5f925b06cf9d36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:09 +0000
Subject: [PATCH 34/74] fix: the identity of a curve was encoded as leftover
 coordinates, or as (0,0) where that is a point

---
 ecc/curve.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index d035603..0f816a4 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -610,6 +610,17 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // Encode O as a pair that lies on no point of this curve.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From ed7bf269579ab327b83cc951af4ba17a854a8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:09 +0000
Subject: [PATCH 35/74] fix: decoding a compressed or x-only point without a
 solution gave a point off the curve or never ended

---
 ecc/curve.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 0f816a4..8b17757 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -827,14 +827,31 @@ void curve_from_x(element_ptr e, element_t x) {
   point_from_x(e->data, x, cdp->a, cdp->b);
 }
 
+// As above, but sets the point to O when there is no solution.
+static void point_from_any_x(point_ptr p, element_t x, element_t a, element_t b) {
+  element_t t;
+  int solvable;
+
+  element_init(t, x->field);
+  element_square(t, x);
+  element_add(t, t, a);
+  element_mul(t, t, x);
+  element_add(t, t, b);
+  solvable = element_is_sqr(t);
+  element_clear(t);
+  if (solvable) point_from_x(p, x, a, b);
+  else p->inf_flag = 1;
+}
+
 // Requires e to be a point on an elliptic curve.
 int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   curve_data_ptr cdp = e->field->data;
   point_ptr P = e->data;
   int len;
   len = element_from_bytes(P->x, data);
-  point_from_x(P, P->x, cdp->a, cdp->b);
+  point_from_any_x(P, P->x, cdp->a, cdp->b);
 
+  if (P->inf_flag) return len + 1;
   if (data[len]) {
     if (element_sign(P->y) < 0) element_neg(P->y, P->y);
   } else if (element_sign(P->y) > 0) {
@@ -863,7 +880,7 @@ int element_from_bytes_x_only(element_ptr e, const unsigned char *data) {
   point_ptr P = e->data;
   int len;
   len = element_from_bytes(P->x, data);
-  point_from_x(P, P->x, cdp->a, cdp->b);
+  point_from_any_x(P, P->x, cdp->a, cdp->b);
   return len;
 }
 
-- 
2.43.0


From 8b552fe9f55aeb4d426be65c3a34f92b19738293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:09 +0000
Subject: [PATCH 36/74] fix: decoding a polynomial kept leading zero
 coefficients

---
 arith/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arith/poly.c b/arith/poly.c
index d6897b2..e760727 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -586,6 +586,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From d42b8b6be480f4471971cb5c96aa969c0d781e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:35 +0000
Subject: [PATCH 37/74] fix: decoding a ternary field element accepted
 coefficients that are not in the field

---
 arith/ternary_extension_field.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 12fb5c8..998668d 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -464,6 +464,10 @@ int gf3m_from_bytes(element_ptr e, const unsigned char *d) {
             *b += d[j + 1];
             j -= 2;
         }
+        /* keep only valid coefficients: 1 + 2 = 0, and none at degree m or above */
+        unsigned long keep = ~(*a & *b);
+        if (i == PARAM(e)->m / W) keep &= (1ul << (PARAM(e)->m % W)) - 1;
+        *a &= keep, *b &= keep;
     }
     return SIZE(e);
 }
-- 
2.43.0


From 0adfd1d66422afdc2e273e95a651aa9fa0596fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:35 +0000
Subject: [PATCH 38/74] fix: parsing malformed text left a curve point with
 coordinates off the curve

---
 ecc/curve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 8b17757..d9ce135 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -567,7 +567,6 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
   cp += element_set_str(p->x, cp, base);
@@ -577,6 +576,7 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   cp += element_set_str(p->y, cp, base);
   if (*cp != ']') return 0;
 
+  p->inf_flag = 0;
   if (!curve_is_valid_point(e)) {
     element_set0(e);
     return 0;
-- 
2.43.0


From 0de74a347622806f5a5918af6e04677d244f697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:35 +0000
Subject: [PATCH 39/74] fix: printing a quadratic extension element returned
 too small a character count

---
 arith/fieldquadratic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index 0c123ac..a7d699d 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -90,7 +90,7 @@ static int fq_is1(element_ptr e) {
 }
 
 static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
-  size_t result = 4, status;
+  size_t result, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
   result = element_out_str(stream, base, p->x);
@@ -99,7 +99,7 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
   if (EOF == fputc(']', stream)) return 0;
-  return result + status;
+  return result + status + 4;
 }
 
 static int fq_snprint(char *s, size_t n, element_ptr e) {
-- 
2.43.0


From 40cd025c3c4ea87c6aec2f9206686ddcf1073188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:26 +0000
Subject: [PATCH 40/74] fix: elements of two prime field implementations
 printed into a string as '?' and could not be parsed

---
 arith/fasterfp.c | 21 +++++++++++++++++++++
 arith/fastfp.c   | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 1e87b30..628c01d 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -148,6 +148,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -524,6 +543,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..f4d1295 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +371,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
-- 
2.43.0


From f94968c4f21bae71e5387dfaedae34856505ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:26 +0000
Subject: [PATCH 41/74] fix: integers printed into a string as '?' and a minus
 sign was not parsed

---
 arith/z.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index b4b30eb..5e530fb 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -1,6 +1,7 @@
 // The ring Z.
 //
 // Wrappers around GMP mpz functions.
+#include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
@@ -201,10 +202,20 @@ static void z_out_info(FILE *out, field_ptr f) {
   fprintf(out, "Z: wrapped GMP");
 }
 
+static int z_snprint(char *s, size_t n, element_ptr e) {
+  return gmp_snprintf(s, n, "%Zd", e->data);
+}
+
 static int z_set_str(element_ptr e, const char *s, int base) {
   mpz_t z;
   mpz_init(z);
-  int result = pbc_mpz_set_str(z, s, base);
+  const char *cp = s;
+  while (*cp && isspace(*cp)) cp++;
+  int negative = *cp == '-';
+  if (negative) cp++;
+  int result = pbc_mpz_set_str(z, cp, base);
+  if (result) result += (int)(cp - s);
+  if (negative) mpz_neg(z, z);
   z_set_mpz(e, z);
   mpz_clear(z);
   return result;
@@ -218,6 +229,7 @@ void field_init_z(field_ptr f) {
   f->set_mpz = z_set_mpz;
   f->set_str = z_set_str;
   f->out_str = z_out_str;
+  f->snprint = z_snprint;
   f->sign = z_sgn;
   f->add = z_add;
   f->sub = z_sub;
-- 
2.43.0


From adccac21b9c7f4fe2bbdcbf8f18837fd289bed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:26 +0000
Subject: [PATCH 42/74] fix: the default snprint did not terminate a
 one-character buffer

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 8081604..07649f5 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -553,7 +553,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
-- 
2.43.0


From 3c6187c9e78d2f88db001078d0ab072328d9a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:26 +0000
Subject: [PATCH 43/74] fix: '%%' in element formats printed two percent signs

---
 misc/extend_printf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..05fa39a 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,14 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // Print everything up to and including the first '%' of "%%".
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      next = start = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From 03913f5d3890afd37cf9d3b3a9cfc3d1bab2fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:19 +0000
Subject: [PATCH 44/74] fix: points chosen by solving for y came from only one
 half of the curve

---
 ecc/curve.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index d9ce135..a72134e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -403,7 +403,6 @@ static int curve_is1(element_ptr x) {
 }
 
 static void curve_random_no_cofac_solvefory(element_ptr a) {
-  //TODO: with 0.5 probability negate y-coord
   curve_data_ptr cdp = a->field->data;
   point_ptr p = a->data;
   element_t t;
@@ -419,6 +418,13 @@ static void curve_random_no_cofac_solvefory(element_ptr a) {
   } while (!element_is_sqr(t));
   element_sqrt(p->y, t);
   element_clear(t);
+
+  // With probability 0.5 negate the y-coordinate.
+  mpz_t sign;
+  mpz_init(sign);
+  pbc_mpz_randomb(sign, 1);
+  if (mpz_sgn(sign)) element_neg(p->y, p->y);
+  mpz_clear(sign);
 }
 
 static void curve_random_solvefory(element_ptr a) {
-- 
2.43.0


From 8b33d2fcfb5ee32aaf845c72644896888febf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:19 +0000
Subject: [PATCH 45/74] fix: hashing to the target groups of types D, F and G
 gave the same element for all inputs

---
 arith/poly.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arith/poly.c b/arith/poly.c
index e760727..48d1204 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -342,11 +342,16 @@ static void polymod_random(element_ptr e) {
 }
 
 static void polymod_from_hash(element_ptr e, const void *data, int len) {
-  // TODO: Improve this.
+  // Spread the data over the coefficients. (Using the same value for all of
+  // them confines the result to a multiple of a fixed element by the base
+  // field, which the final powering of a pairing maps to a constant.)
   element_t *coeff = e->data;
   int i, n = polymod_field_degree(e->field);
+  int used = 0;
   for (i=0; i<n; i++) {
-    element_from_hash(coeff[i], data, len);
+    int k = (len - used) / (n - i);
+    element_from_hash(coeff[i], (const char *)data + used, k);
+    used += k;
   }
 }
 
-- 
2.43.0


From c554e1f78669db9751d5c4d6a81abf6d85c6f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:49 +0000
Subject: [PATCH 46/74] fix: Pollard rho divided by zero when a collision
 carried no information

---
 arith/dlog.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..4e1efaa 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -68,7 +68,7 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   darray_t hole;
   int interval = 5;
   mpz_t counter;
-  int found = 0;
+  int found = 0, useless = 0;
 
   mpz_init(counter);
   element_init(g0, G);
@@ -150,6 +150,9 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
           mpz_clear(za);
           mpz_clear(zb);
           mpz_clear(zd);
+        } else if (element_is0(bsum)) {
+          // This collision says nothing about x.
+          useless = 1;
         } else {
           element_div(x, asum, bsum);
         }
@@ -184,4 +187,7 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   element_clear(asum);
   element_clear(bsum);
   mpz_clear(counter);
+
+  // Try again with other random multipliers.
+  if (useless) element_dlog_pollard_rho(x, g, h);
 }
-- 
2.43.0


From cb4b2e26c44a5a424dc818c962ae8331b1ec6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:06 +0000
Subject: [PATCH 47/74] fix: repeated keys in parameter text leaked their
 earlier values

---
 ecc/param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..66e564c 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,8 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    // A repeated key replaces the earlier value.
+    if (symtab_has(tab, key)) pbc_free(symtab_at(tab, key));
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
-- 
2.43.0


From f206b5c2789a3bdc6bf6bd082d49f279b74b481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:06 +0000
Subject: [PATCH 48/74] fix: parameter values that are not numbers were
 accepted

---
 ecc/param.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 66e564c..2c85f62 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -147,7 +147,10 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("bad param: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
@@ -160,11 +163,12 @@ int lookup_int(int *n, symtab_t tab, const char *key) {
   }
   mpz_init(z);
 
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  int err = mpz_set_str(z, data, 0);
+  if (err) pbc_error("bad param: `%s'", key);
+  else *n = (int)mpz_get_si(z);
   mpz_clear(z);
 
-  return 0;
+  return err ? 1 : 0;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
-- 
2.43.0


From 5f9bc31608f9b3d2aa9c7950a514eff1c5a154c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:06 +0000
Subject: [PATCH 49/74] fix: rejected parameter text leaked, and a negative
 embedding degree ended the process

---
 ecc/d_param.c | 4 ++++
 ecc/param.c   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 2518571..cf0da2a 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -1220,6 +1220,10 @@ int pbc_param_init_d(pbc_param_ptr par, struct symtab_s *tab) {
   err += lookup_mpz(p->hk, tab, "hk");
   err += lookup_mpz(p->nqr, tab, "nqr");
 
+  if (p->k < 0) {
+    p->k = 0;
+    err++;
+  }
   d = p->k / 2;
   p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * d);
   for (i=0; i<d; i++) {
diff --git a/ecc/param.c b/ecc/param.c
index 2c85f62..81ee21a 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -193,7 +193,10 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
+        if (res) {
+          pbc_error("bad pairing parameters");
+          pbc_param_clear(par);
+        }
         return res;
       }
     }
-- 
2.43.0


From 5a696fc2d330f212e921cbd2224cf8788dccb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:06 +0000
Subject: [PATCH 50/74] fix: writing type D parameters overflowed a buffer for
 large embedding degrees

---
 ecc/d_param.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index cf0da2a..89b1acf 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -74,7 +74,7 @@ static void d_out_str(FILE *stream, void *data) {
   d_param_ptr p = data;
   int d = p->k / 2;
   int i;
-  char s[8];
+  char s[80];
   param_out_type(stream, "d");
   param_out_mpz(stream, "q", p->q);
   param_out_mpz(stream, "n", p->n);
-- 
2.43.0


From 45f354815e8064c6681eaf95c807fde29d6ae15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:01 +0000
Subject: [PATCH 51/74] fix: darray_remove_with_test kept later matches and
 read past the array

---
 misc/darray.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/misc/darray.c b/misc/darray.c
index 50b127f..55fae04 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -99,15 +99,11 @@ void darray_remove(darray_ptr a, void *p)
 
 void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 {
-    int i;
+    int i, n = 0;
     for (i=0; i<a->count; i++) {
-        if (test(a->item[i])) {
-            for (;i<a->count; i++) {
-                a->item[i] = a->item[i+1];
-            }
-            a->count--;
-        }
+        if (!test(a->item[i])) a->item[n++] = a->item[i];
     }
+    a->count = n;
 }
 
 void darray_copy(darray_ptr dst, darray_ptr src)
-- 
2.43.0


From 89f11019e37d9e1338b48c8e3a406c6ddd5267a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:01 +0000
Subject: [PATCH 52/74] fix: copying an empty darray ended the process

---
 misc/darray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/darray.c b/misc/darray.c
index 55fae04..fe3374b 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -108,7 +108,7 @@ void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 
 void darray_copy(darray_ptr dst, darray_ptr src)
 {
-    darray_realloc(dst, src->count);
+    if (dst->max < src->count) darray_realloc(dst, src->count);
     memcpy(dst->item, src->item, src->count * sizeof(void *));
     dst->count = src->count;
 }
-- 
2.43.0


From e9c42730ca42e78d1d9046b8f2447ea8a3f87f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:01 +0000
Subject: [PATCH 53/74] fix: zeroing realloc wrote past the new block when
 shrinking

---
 misc/memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misc/memory.c b/misc/memory.c
index 21d50dd..1998254 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -76,7 +76,9 @@ static void *default_pbc_realloc(void *old, size_t new_size) {
   if(!new) pbc_die("realloc() error");
   if(old) {
     old = pbc_ptr_to_mem(old);
-    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), pbc_mem_get_size(old));
+    size_t size = pbc_mem_get_size(old);
+    if(size > new_size) size = new_size;
+    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), size);
     pbc_mem_free(old);
   }
   return pbc_mem_to_ptr(new);
-- 
2.43.0


From 1cde540ee64cf896c967ca723c93bacfcaa4824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 54/74] fix: zeroing GMP realloc wrote past the new block when
 shrinking

---
 misc/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/memory.c b/misc/memory.c
index 1998254..df297ce 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -23,7 +23,7 @@ static void* gmp_malloc(size_t size) {
 static void* gmp_realloc(void *old_ptr, size_t old_size, size_t new_size) {
   void *new_ptr = malloc(new_size);
   if(new_ptr && old_ptr)
-    memcpy(new_ptr, old_ptr, old_size);
+    memcpy(new_ptr, old_ptr, old_size < new_size ? old_size : new_size);
   gmp_free(old_ptr, old_size);
   return new_ptr;
 }
-- 
2.43.0


From 36bca2827445235e23dc0f6af08fed1711da202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 55/74] fix: generating type E parameters leaked the curve and
 the field

---
 ecc/e_param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..8913f69 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1003,5 +1003,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
+  field_clear(cc);
+  field_clear(Fq);
   mpz_clear(n);
 }
-- 
2.43.0


From 4f2d97f14c9d151a91f38d8384c34a3928f529c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 56/74] fix: generating type F parameters leaked the curve and
 a point

---
 ecc/f_param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..204c699 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -529,6 +529,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     element_clear(P);
     field_clear(c);
   }
+  element_clear(P);
+  field_clear(c);
   element_to_mpz(b, e1);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
-- 
2.43.0


From 093a0040cbfc5c89d1110699c73883c55e761815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 57/74] fix: clearing preprocessed type A1 pairings leaked the
 coefficients

---
 ecc/a_param.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 02378cd..f961237 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1627,9 +1627,27 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
 
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
   while (*pp) {
+    // Same order as in a1_pairing_pp_init(): two lines at once for set bits.
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_ptr c = *pp;
+      element_clear(c->cx2);
+      element_clear(c->cy2);
+      element_clear(c->cxy);
+      element_clear(c->cx);
+      element_clear(c->cy);
+      element_clear(c->c);
+    } else {
+      pp_coeff_ptr c = *pp;
+      element_clear(c->a);
+      element_clear(c->b);
+      element_clear(c->c);
+    }
     pbc_free(*pp);
     pp++;
+    if (m) m--;
   }
   pbc_free(p->data);
 }
-- 
2.43.0


From 60fb4867baee88f1216c0a1bee553595993f46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 58/74] fix: clearing a type E pairing used the curve after it
 was cleared

---
 ecc/e_param.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index 8913f69..4cab5a4 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -815,9 +815,9 @@ static void e_pairing_option_set(pairing_t pairing, char *key, char *value) {
 static void e_pairing_clear(pairing_t pairing) {
   field_clear(pairing->GT);
   e_pairing_data_ptr p = pairing->data;
-  field_clear(p->Fq);
-  field_clear(p->Eq);
   element_clear(p->R);
+  field_clear(p->Eq);
+  field_clear(p->Fq);
   pbc_free(p);
 
   mpz_clear(pairing->phikonr);
-- 
2.43.0


From 2e6701a86e7ec72233cedfcf63cb65205bb37f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:46 +0000
Subject: [PATCH 59/74] fix: Freeman curve search used the wrong sign for half
 of the Pell solutions

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..8566d0d 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // U = -(15x + 5)
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From 8aa560ae4a391092378b08375db061922a0e688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:30 +0000
Subject: [PATCH 60/74] fix: curve searches stopped at the first solution that
 was too big

---
 ecc/mnt.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 8566d0d..652e6ae 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -309,12 +309,16 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
 
   int i, n;
   int res = 0;
+  int more = 1;
   n = ps->count;
-  if (n) for (;;) {
+  while (n && more) {
+    more = 0;
     for (i=0; i<n; i++) {
+      if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
+      more = 1;
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
       res = mnt_step2(callback, data, D, ps->x[i]);
-      if (res) goto toobig;
+      if (res) goto done;
       //compute next solution as follows
       //if p, q is current solution
       //compute new solution p', q' via
@@ -324,7 +328,6 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_mul(t1, ps->miny, ps->y[i]);
       mpz_mul(t1, t1, D3);
       mpz_add(t0, t0, t1);
-      if (2 * mpz_sizeinbase(t0, 2) > bitlimit + 10) goto toobig;
       mpz_mul(t2, ps->minx, ps->y[i]);
       mpz_mul(t1, ps->miny, ps->x[i]);
       mpz_add(t2, t2, t1);
@@ -332,7 +335,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_set(ps->y[i], t2);
     }
   }
-toobig:
+done:
 
   pell_solution_clear(ps);
   mpz_clear(t0);
@@ -465,11 +468,15 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
   general_pell(ps, D15, -20);
 
   int i, n;
+  int more = 1;
   n = ps->count;
-  if (n) for (;;) {
+  while (n && more) {
+    more = 0;
     for (i=0; i<n; i++) {
+      if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
+      more = 1;
       res = freeman_step2(callback, data, D, ps->x[i]);
-      if (res) goto toobig;
+      if (res) goto done;
       // Compute next solution as follows:
       // If p, q is current solution
       // then compute new solution p', q' via
@@ -479,7 +486,6 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_mul(t1, ps->miny, ps->y[i]);
       mpz_mul(t1, t1, D15);
       mpz_add(t0, t0, t1);
-      if (2 * mpz_sizeinbase(t0, 2) > bitlimit + 10) goto toobig;
       mpz_mul(t2, ps->minx, ps->y[i]);
       mpz_mul(t1, ps->miny, ps->x[i]);
       mpz_add(t2, t2, t1);
@@ -487,7 +493,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_set(ps->y[i], t2);
     }
   }
-toobig:
+done:
 
   pell_solution_clear(ps);
   mpz_clear(t0);
-- 
2.43.0


From b26d75f468af5d3b2c226b579d3c89a531e6806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:30 +0000
Subject: [PATCH 61/74] fix: curve searches reported groups above the bit limit

---
 ecc/mnt.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 652e6ae..019ae5c 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -200,7 +200,7 @@ void pbc_cm_clear(pbc_cm_t cm) {
 }
 
 static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, mpz_t U, unsigned int bitlimit) {
   int d;
   mpz_t n, l, q;
   mpz_t p;
@@ -273,7 +273,8 @@ static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = 0;
+  if (mpz_sizeinbase(r, 2) <= bitlimit) res = callback(cm, data);
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -317,7 +318,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
       if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
       more = 1;
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
-      res = mnt_step2(callback, data, D, ps->x[i]);
+      res = mnt_step2(callback, data, D, ps->x[i], bitlimit);
       if (res) goto done;
       //compute next solution as follows
       //if p, q is current solution
@@ -346,7 +347,7 @@ done:
 }
 
 static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, mpz_t U, unsigned int bitlimit) {
   mpz_t n, x, q;
   mpz_t p;
   mpz_t r, cofac;
@@ -434,7 +435,8 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = 0;
+  if (mpz_sizeinbase(r, 2) <= bitlimit) res = callback(cm, data);
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -475,7 +477,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
     for (i=0; i<n; i++) {
       if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
       more = 1;
-      res = freeman_step2(callback, data, D, ps->x[i]);
+      res = freeman_step2(callback, data, D, ps->x[i], bitlimit);
       if (res) goto done;
       // Compute next solution as follows:
       // If p, q is current solution
-- 
2.43.0


From fb7e9270dcbcc1bcfb26180512ef9046d40d5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:23 +0000
Subject: [PATCH 62/74] fix: MNT curve search overflowed for large
 discriminants

---
 ecc/mnt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 019ae5c..1895bad 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -292,7 +292,8 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_t t0, t1, t2;
 
   mpz_init(D3);
-  mpz_set_ui(D3, D * 3);
+  mpz_set_ui(D3, D);
+  mpz_mul_ui(D3, D3, 3);
 
   if (mpz_perfect_square_p(D3)) {
     // The only squares that differ by 8 are 1 and 9,
-- 
2.43.0


From cd0acbf550f3d67127da5a794b65cf00b4975993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:28 +0000
Subject: [PATCH 63/74] fix: type E generator could choose a cofactor divisible
 by the group order

---
 ecc/e_param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index 4cab5a4..e087a3b 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -963,6 +963,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       pbc_mpz_random(h, q);
       mpz_mul(h, h, h);
       mpz_mul_ui(h, h, 3);
+      // The cofactor must not wipe out the subgroup of order r.
+      if (mpz_divisible_p(h, r)) continue;
       //finally q takes the value it should
       mpz_mul(n, r, r);
       mpz_mul(n, n, h);
-- 
2.43.0


From 65b868c0efe7e0277f00ff5f2f543efcda554482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:32 +0000
Subject: [PATCH 64/74] fix: the calculator's extend() takes a field and a
 polynomial

Its arity was declared as 1, so a call with the field and the polynomial was
rejected and a call with the field alone read past the argument array.
---
 pbc/pbc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a9c1385..0c07231 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -707,7 +707,7 @@ static val_ptr run_extend(val_ptr v[]) {
   element_free(poly);
   return val_new_field(f);
 }
-static fun_t fun_extend = {{ "extend", run_extend, 1, sig_field_elem }};
+static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
   pairing_init_set_str(pairing, s);
-- 
2.43.0


From 0eaad0a53f018df9b409158186491db8f0d7b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:32 +0000
Subject: [PATCH 65/74] fix: a calculator assignment used as an operand no
 longer aliases the variable

(a := 3) + 4 changed a to 7, because operations work in place on the value the
assignment returned.
---
 pbc/pbc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 0c07231..9d032f4 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -422,7 +422,8 @@ static val_ptr eval_assign(tree_ptr t) {
     return val_new_error("%s is reserved", tid->id);
   }
   symtab_put(tab, v, tid->id);
-  return v;
+  // The caller may modify the value it gets: hand out a copy.
+  return v ? v->type->eval(v) : v;
 }
 
 static void assign_field(field_ptr f, const char* s) {
-- 
2.43.0


From 569e6448e362146237a970aa9f9d51f7a433435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:32 +0000
Subject: [PATCH 66/74] fix: pbc_getline returns whole lines

Lines longer than the buffer were cut in two, in the middle of a token, and a
last line without a newline was dropped.
---
 pbc/pbc_getline.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pbc/pbc_getline.c b/pbc/pbc_getline.c
index dc44cc4..7224244 100644
--- a/pbc/pbc_getline.c
+++ b/pbc/pbc_getline.c
@@ -1,17 +1,27 @@
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "pbc_memory.h"
 
 char *pbc_getline(const char *prompt) {
   char s[1024];
+  char *line = NULL;
+  size_t len = 0;
   if (prompt) fputs(prompt, stdout);
-  if (!fgets(s, 1024, stdin)) return NULL;
-  if (feof(stdin)) return NULL;
-  /* use strdup rather than pbc_strdup. because
+  /* use malloc rather than pbc_malloc. because
    * 1. readline version of this function uses malloc.
-   * 2. pbc_malloc called by pbc_strdup may differ from malloc.
+   * 2. pbc_malloc may differ from malloc.
    * here we keep consistency.
    */
-  return strdup(s);
+  while (fgets(s, sizeof(s), stdin)) {
+    size_t n = strlen(s);
+    char *p = realloc(line, len + n + 1);
+    if (!p) break;
+    line = p;
+    memcpy(line + len, s, n + 1);
+    len += n;
+    if (len && line[len - 1] == '\n') break;
+  }
+  return line;
 }
-- 
2.43.0


From 06b9bb1c97c78209965a8e75268631105f391660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:56 +0000
Subject: [PATCH 67/74] fix: pbc_getline strips the newline, as readline() does

The calculator adds a newline of its own, so in easy mode, where a newline ends
a statement, each line was followed by a syntax error.
---
 pbc/pbc_getline.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc_getline.c b/pbc/pbc_getline.c
index 7224244..da5c848 100644
--- a/pbc/pbc_getline.c
+++ b/pbc/pbc_getline.c
@@ -21,7 +21,11 @@ char *pbc_getline(const char *prompt) {
     line = p;
     memcpy(line + len, s, n + 1);
     len += n;
-    if (len && line[len - 1] == '\n') break;
+    if (len && line[len - 1] == '\n') {
+      // Like readline(), return the line without its newline.
+      line[len - 1] = '\0';
+      break;
+    }
   }
   return line;
 }
-- 
2.43.0


From a5b815c7c3bc6403b7d46df668ac303180194bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:53 +0000
Subject: [PATCH 68/74] fix: random source file: a short read must not yield
 uninitialised bytes

---
 arith/random.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..6c0ffc1 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,16 +31,19 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
   if (!fp) return;
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
+      fclose(fp);
+      mpz_clear(z);
+      pbc_free(bytes);
       return;
     }
     if (leftover) {
-- 
2.43.0


From ad9ca5f087b64b5ca4fd7e7d16808f9082f47255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:53 +0000
Subject: [PATCH 69/74] fix: pbc_mpz_trickle: no leading zero when the digit
 count is overestimated

---
 arith/field.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 07649f5..a43f286 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -830,7 +830,8 @@ int pbc_mpz_trickle(int (*fun)(char), int base, mpz_t n) {
   int res;
   long len;
   mpz_ui_pow_ui(d, base, len = (long)mpz_sizeinbase(z, base));
-  if (mpz_cmp(d, z) > 0) {
+  // The estimate of the number of digits may be one too big.
+  while (len && mpz_cmp(d, z) > 0) {
     len--;
     mpz_divexact_ui(d, d, base);
   }
-- 
2.43.0


From 6c01184f466bd1b5d864a3716a6a2dbf03552e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 70/74] fix: preprocessing of type D and G pairings overran its
 buffer for group orders with all bits set

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 89b1acf..04b3d3a 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -880,7 +880,7 @@ static void d_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
diff --git a/ecc/g_param.c b/ecc/g_param.c
index cb72858..5f6e699 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -706,7 +706,7 @@ static void g_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
-- 
2.43.0


From 0bf80f233bd940bfa8a0ff96a97a3423c2436f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:52 +0000
Subject: [PATCH 71/74] fix: the elliptic net method of type E pairings failed
 when the second point was plus or minus or twice the first

---
 ecc/e_param.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index e087a3b..c7c8414 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -494,6 +494,20 @@ static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
   element_ptr x2 = curve_x_coord(in2);
   element_ptr y2 = curve_y_coord(in2);
 
+  // The initial terms of the net are undefined when in2 is +-in1 or 2 in1.
+  int degenerate = !element_cmp(x, x2);
+  if (!degenerate) {
+    element_t twice;
+    element_init_same_as(twice, in1);
+    element_double(twice, in1);
+    degenerate = !element_cmp(twice, in2);
+    element_clear(twice);
+  }
+  if (degenerate) {
+    e_pairing(out, in1, in2, pairing);
+    return;
+  }
+
   //notation: cmi means c_{k-i}, ci means c_{k+i}
   element_t cm3, cm2, cm1, c0, c1, c2, c3, c4;
   element_t dm1, d0, d1;
-- 
2.43.0


From c547bb05f9549f78bfa51c9a4a4a2f9c667649f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:27 +0000
Subject: [PATCH 72/74] fix: the square test in curve groups of even order used
 the wrong exponent

---
 ecc/curve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index a72134e..a145c32 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -669,8 +669,7 @@ static int even_curve_is_sqr(element_ptr e) {
 
   mpz_init(z);
   element_init(e1, e->field);
-  mpz_sub_ui(z, e->field->order, 1);
-  mpz_fdiv_q_2exp(z, z, 1);
+  mpz_fdiv_q_2exp(z, e->field->order, 1);
   element_pow_mpz(e1, e, z);
   result = element_is1(e1);
 
-- 
2.43.0


From f4099141dbe6ffc7080a45834069b9b8d3ff1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:47 +0000
Subject: [PATCH 73/74] fix: the calculator assigned errors to variables and
 parameters

---
 pbc/pbc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 9d032f4..a5bb51a 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -102,6 +102,7 @@ struct val_s {
 static val_ptr val_new_element(element_ptr e);
 static val_ptr val_new_field(field_ptr e);
 static val_ptr val_new_error(const char *msg, ...);
+static struct val_type_s v_error[1];
 
 // Evaluates syntax tree node.
 static val_ptr tree_eval(tree_ptr t) {
@@ -164,6 +165,7 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   for(i = 0; i < n; i++) {
     const char *id = ((tree_ptr) darray_at(parm, i))->id;
     val_ptr v1 = tree_eval(darray_at(t->child, i));
+    if (v1 && v_error == v1->type) return v1;
     // TODO: Stack frames for recursion.
     symtab_put(tab, v1, id);
   }
@@ -421,6 +423,7 @@ static val_ptr eval_assign(tree_ptr t) {
   if (symtab_at(reserved, tid->id)) {
     return val_new_error("%s is reserved", tid->id);
   }
+  if (v && v_error == v->type) return v;
   symtab_put(tab, v, tid->id);
   // The caller may modify the value it gets: hand out a copy.
   return v ? v->type->eval(v) : v;
-- 
2.43.0


From 119d056d02cbcfa696565608583e60ef5e81f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:29 +0000
Subject: [PATCH 74/74] fix: simultaneous powers with negative exponents were
 wrong

---
 arith/field.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/arith/field.c b/arith/field.c
index a43f286..e428b07 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -172,6 +172,15 @@ void element_pow2_mpz(element_ptr x, element_ptr a1, mpz_ptr n1,
     return;
   }
 
+  if (mpz_sgn(n1) < 0 || mpz_sgn(n2) < 0) {
+    element_init(result, x->field);
+    element_pow_mpz(result, a1, n1);
+    element_pow_mpz(x, a2, n2);
+    element_mul(x, x, result);
+    element_clear(result);
+    return;
+  }
+
   element_init(result, x->field);
   element_set1(result);
 
@@ -213,6 +222,15 @@ void element_pow3_mpz(element_ptr x, element_ptr a1, mpz_ptr n1,
     return;
   }
 
+  if (mpz_sgn(n1) < 0 || mpz_sgn(n2) < 0 || mpz_sgn(n3) < 0) {
+    element_init(result, x->field);
+    element_pow2_mpz(result, a1, n1, a2, n2);
+    element_pow_mpz(x, a3, n3);
+    element_mul(x, x, result);
+    element_clear(result);
+    return;
+  }
+
   element_init(result, x->field);
   element_set1(result);
 
-- 
2.43.0

