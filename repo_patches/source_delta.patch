From 2b2e8402eec9e79925510650c966742499c9c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 01/54] fix: comparing a nonzero Fp element with zero looked at
 stale limbs

---
 arith/fasterfp.c | 4 ++--
 arith/montfp.c   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..f298609 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -418,8 +418,8 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 
 static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
-  if (!ad->flag) {
-    return bd->flag;
+  if (!ad->flag || !bd->flag) {
+    return ad->flag - bd->flag;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..25c78ad 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -449,7 +449,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
-  if (!ad->flag) return bd->flag;
+  if (!ad->flag || !bd->flag) return ad->flag - bd->flag;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From a90035c7b737b8778761d282c7ad53833a5a6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 02/54] fix: element_from_bytes in Fp must reduce modulo the
 order

An encoding of a value that is not below the order gave an unreduced element
(naive, faster), or a nonzero-flagged zero whose conversion to an integer read
before its buffer (Montgomery).
---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 arith/naivefp.c  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index f298609..20c39ae 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -486,6 +486,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, a->field->order);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
     ad->flag = 2;
diff --git a/arith/montfp.c b/arith/montfp.c
index 25c78ad..64d8d42 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -505,6 +505,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, a->field->order);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
     ad->flag = 2;
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..56fe5b0 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -215,6 +215,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From a01ccbd8a94995d3e551b6db51291096648540b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 03/54] fix: setting a faster Fp element to a multiple of the
 order is zero

---
 arith/fasterfp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 20c39ae..5bbd5e4 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -69,9 +69,12 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_t tmp;
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
-    from_mpz(e, tmp);
+    if (!mpz_sgn(tmp)) dp->flag = 0;
+    else {
+      from_mpz(e, tmp);
+      dp->flag = 2;
+    }
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
-- 
2.43.0


From 6aabae58732006fd45338bb0c918d018dbd549fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 04/54] fix: halving an odd Fp element into a zero element gave
 zero

---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 5bbd5e4..f7969f2 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -244,6 +244,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
 
     mpn_rshift(climb, climb, t, 1);
     if (carry) climb[t - 1] |= ((mp_limb_t) 1) << (sizeof(mp_limb_t) * 8 - 1);
+    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index 64d8d42..05df869 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -291,6 +291,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
 
     mpn_rshift(climb, climb, t, 1);
     if (carry) climb[t - 1] |= ((mp_limb_t) 1) << (sizeof(mp_limb_t) * 8 - 1);
+    cd->flag = 2;
   }
 }
 
-- 
2.43.0


From 2fc92543104b90fc2cebdae8d3b21bc2ba4c779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 05/54] fix: the zeroth power of zero is one in every Fp
 representation

---
 arith/fasterfp.c | 3 ++-
 arith/montfp.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index f7969f2..365a5ea 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -373,7 +373,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
diff --git a/arith/montfp.c b/arith/montfp.c
index 05df869..2202ce2 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -382,7 +382,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
-- 
2.43.0


From da69b346ec46e7d6daee134a061abe25d3d3ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 06/54] fix: recognise zero products modulo a composite order

The exponent ring of an A1 pairing has composite order: a product of two of its
zero divisors was flagged nonzero, and converting it to an integer read before
its buffer.
---
 arith/fasterfp.c | 9 ++++++---
 arith/montfp.c   | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 365a5ea..b915b76 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -303,7 +303,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    // The product can be zero when the modulus is composite.
+    cd->flag = mpn_zero_p(cd->d, t) ? 0 : 2;
 
     pbc_free(buf);
   }
@@ -330,6 +331,7 @@ static void fp_square(element_ptr c, element_ptr a) {
       mpz_powm_ui(z1, z2, 2, c->field->order);
     }
 
+    if (!z1->_mp_size) cd->flag = 0;
     diff = p->limbs - z1->_mp_size;
     if (diff) memset(&z1->_mp_d[z1->_mp_size], 0, diff * sizeof(mp_limb_t));
 
@@ -364,7 +366,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
-    if (op < 0) {               //TODO: don't need to check c != 0 this time
+    if (mpn_zero_p(cd->d, t)) cd->flag = 0;
+    if (op < 0) {
       fp_neg(c, c);
     }
   }
@@ -381,8 +384,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     fp_to_mpz(z, a);
     mpz_powm(z, z, op, a->field->order);
     from_mpz(c, z);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index 2202ce2..1b344a4 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -373,7 +373,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    // The product can be zero when the modulus is composite.
+    cd->flag = mpn_zero_p(cd->d, p->limbs) ? 0 : 2;
   }
 }
 
@@ -392,8 +393,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_mul_2exp(z, z, p->bytes * 8);
     mpz_mod(z, z, a->field->order);
     set_limbs(cd->d, z, p->limbs);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
-- 
2.43.0


From 7744b4ecbe95567680f5b94ba2ad20cc7cebd983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 07/54] fix: hashing to an integer must stay below the limit

A digest equal to the order produced an unreduced element.
---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..36ff6f6 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -662,7 +662,7 @@ void pbc_mpz_from_hash(mpz_t z, mpz_t limit,
   PBC_ASSERT(i == count, "did not read whole buffer");
   mpz_import(z, count, 1, 1, 1, 0, buf);
   pbc_free(buf);
-  while (mpz_cmp(z, limit) > 0) {
+  while (mpz_cmp(z, limit) >= 0) {
     mpz_tdiv_q_2exp(z, z, 1);
   }
 }
-- 
2.43.0


From 09931a1589b9dfd19c56ab7a32e95ea7aa415585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 08/54] fix: square roots of base field nonresidues in
 quadratic extensions

---
 arith/fieldquadratic.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..ac47855 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -360,6 +360,19 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_ptr nqr = fq_nqr(n->field);
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // Square roots of a nonresidue of the base field are purely imaginary.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(r->y, p->x, nqr);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   //if (a+b sqrt(nqr))^2 = x+y sqrt(nqr) then
   //2a^2 = x +- sqrt(x^2 - nqr y^2)
   //(take the sign which allows a to exist)
@@ -529,6 +542,19 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   eptr r = n->data;
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // Square roots of a nonresidue of the base field are purely imaginary.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(r->y, p->x);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   // If (a+bi)^2 = x+yi then 2a^2 = x +- sqrt(x^2 + y^2)
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
-- 
2.43.0


From a8aef015d9a111e15b60c73fd7f60d50531e91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 09/54] fix: count every byte written when printing quadratic
 extension elements

---
 arith/fieldquadratic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index ac47855..b3e8b6d 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -93,8 +93,9 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   size_t result = 4, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
-  result = element_out_str(stream, base, p->x);
-  if (!result) return 0;
+  status = element_out_str(stream, base, p->x);
+  if (!status) return 0;
+  result += status;
   if (EOF == fputs(", ", stream)) return 0;
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
-- 
2.43.0


From 80924a1da507265f57feaa5e91c5debd369fe0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 10/54] fix: strip leading zeroes after scaling or decoding a
 polynomial

Multiplying by a multiple of the characteristic, or decoding zero leading
coefficients, left a polynomial whose degree, zero test and comparison were
wrong.
---
 arith/poly.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..291c683 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -267,6 +267,7 @@ static void poly_double(element_ptr f, element_ptr g) {
   for (i=0; i<n; i++) {
     element_double(pf->coeff->item[i], pg->coeff->item[i]);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
@@ -279,6 +280,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +293,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
@@ -583,6 +586,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From 9160ab337ccf20f20afddbfdd106b53eaa07bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 11/54] fix: zero is a square in polynomial extension fields

---
 arith/poly.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 291c683..7cb1db7 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -623,6 +623,8 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  // 0 is a square.
+  if (element_is0(e)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From 9af4c5b9d5d0279ddd9c0a83d7808e3e757b8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 12/54] fix: batched point addition and doubling with
 exceptional entries

An entry that is O, of order two, or a pair with equal x-coordinates put a zero
into the shared inversion and corrupted every other entry; doubling into O
that was not in place left O.
---
 ecc/curve.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..d8612f7 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -223,25 +223,21 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
     q=a[i]->data; r=c[i]->data;
     element_init(table[i],q->y->field);
 
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
+    r->inf_flag = q->inf_flag || element_is0(q->y);
   }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
+  //Entries whose double is O take no part: they contribute a factor of 1.
   for(i=0; i<n; i++){
-    q=a[i]->data;
-    element_double(table[i],q->y);
+    q=a[i]->data; r=c[i]->data;
+    if (r->inf_flag) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
-    q=a[i]->data;
+    q=a[i]->data; r=c[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if (r->inf_flag) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -294,14 +290,16 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e1, p->x->field);
   element_init(e2, p->x->field);
 
-  element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
-  for(i=1; i<n; i++){
+  //Entries that do not need 1/(x2-x1) contribute a factor of 1.
+  for(i=0; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
     element_sub(table[i], q->x, p->x);
-    element_mul(table[i], table[i], table[i-1]);
+    if (p->inf_flag || q->inf_flag || element_is0(table[i])) {
+      element_set1(table[i]);
+    }
+    if (i > 0) element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
   for(i=n-1; i>0; i--){
@@ -309,6 +307,7 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
     element_sub(e1, q->x, p->x);
+    if (p->inf_flag || q->inf_flag || element_is0(e1)) continue;
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
   element_set(table[0],e2); //e2 no longer used.
-- 
2.43.0


From 054052e72137faf6570d45c38aa1777726a631b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 13/54] fix: squareness test in curve groups of even order

---
 ecc/curve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index d8612f7..80cbd17 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -644,8 +644,7 @@ static int even_curve_is_sqr(element_ptr e) {
 
   mpz_init(z);
   element_init(e1, e->field);
-  mpz_sub_ui(z, e->field->order, 1);
-  mpz_fdiv_q_2exp(z, z, 1);
+  mpz_fdiv_q_2exp(z, e->field->order, 1);
   element_pow_mpz(e1, e, z);
   result = element_is1(e1);
 
-- 
2.43.0


From 96db4a531a2bf812cedf7cb1ed288c97508d1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 14/54] fix: a malformed string must not leave a point off the
 curve

---
 ecc/curve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 80cbd17..57eec72 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -559,7 +559,6 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
   cp += element_set_str(p->x, cp, base);
@@ -568,6 +567,7 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   cp++;
   cp += element_set_str(p->y, cp, base);
   if (*cp != ']') return 0;
+  p->inf_flag = 0;
 
   if (!curve_is_valid_point(e)) {
     element_set0(e);
-- 
2.43.0


From 9de72f1a3bb874182d91d1829d5f0b9c15c545d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 15/54] fix: the encoding of O was that of the last finite
 value of the element

Reading it back gave that point, or (0, 0) on curves through the origin.
---
 ecc/curve.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 57eec72..fef975b 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -602,6 +602,18 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // Write a pair that is not on the curve: reading it back gives O.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    element_set0(t);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From e36a75fbea1843a4f76c5028bc16f7a72e245904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 16/54] fix: darray_remove_with_test removed at most one item
 and read past the end

---
 misc/darray.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/misc/darray.c b/misc/darray.c
index 50b127f..55fae04 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -99,15 +99,11 @@ void darray_remove(darray_ptr a, void *p)
 
 void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 {
-    int i;
+    int i, n = 0;
     for (i=0; i<a->count; i++) {
-        if (test(a->item[i])) {
-            for (;i<a->count; i++) {
-                a->item[i] = a->item[i+1];
-            }
-            a->count--;
-        }
+        if (!test(a->item[i])) a->item[n++] = a->item[i];
     }
+    a->count = n;
 }
 
 void darray_copy(darray_ptr dst, darray_ptr src)
-- 
2.43.0


From 12ec0b9f724954511c8bc8fc3f9b598f636187c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 17/54] fix: copying an empty darray reallocated to size zero
 and aborted

---
 misc/darray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/darray.c b/misc/darray.c
index 55fae04..fe3374b 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -108,7 +108,7 @@ void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 
 void darray_copy(darray_ptr dst, darray_ptr src)
 {
-    darray_realloc(dst, src->count);
+    if (dst->max < src->count) darray_realloc(dst, src->count);
     memcpy(dst->item, src->item, src->count * sizeof(void *));
     dst->count = src->count;
 }
-- 
2.43.0


From 69a682820c2fc55e6b3b1796a9f59f1b4febedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:40 +0000
Subject: [PATCH 18/54] fix: Montgomery multiplication lost a carry when the
 modulus has a full top limb

---
 arith/montfp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index 1b344a4..7ace4de 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -344,9 +344,13 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
-    v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
-    z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
+    // Either addition to z[t + i] can overflow.
+    v = mpn_addmul_1(z + i, b, t, a[i]);
+    z[t + i] += v;
     z[t + i + 1] = z[t + i] < v;
+    v = mpn_addmul_1(z + i, p->primelimbs, t, u);
+    z[t + i] += v;
+    z[t + i + 1] += z[t + i] < v;
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From b113522699d6c8a8a3b3e5d4b0929ab753e1414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:52 +0000
Subject: [PATCH 19/54] fix: exponentiation by table reduced exponents modulo
 the field order

The order of a field is not a multiple of the order of its elements, so
element_pp_pow() returned a wrong power for exponents above the order (and
divided by zero in rings of order zero).
---
 arith/field.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 36ff6f6..14513de 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -297,17 +297,18 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
   size_t num_lookups;
 
   element_t result;
-  mpz_t n;
-  mpz_init_set(n, power);
+  mpz_ptr n = power;
 
   // Early abort if raising to power 0.
   if (!mpz_sgn(n)) {
-    mpz_clear(n);
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+  // The order of a field is not the exponent of its multiplicative group, so
+  // powers that are too large for the table cannot be reduced.
+  if (mpz_sizeinbase(n, 2) > (size_t)base_table->bits) {
+    element_pow_mpz(x, base_table->table[0][1], n);
+    return;
   }
 
   element_init(result, x->field);
@@ -327,7 +328,6 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
 
   element_set(x, result);
   element_clear(result);
-  mpz_clear(n);
 }
 
 static void default_element_pp_init(element_pp_t p, element_t in) {
-- 
2.43.0


From 469b855315d49e27e5fe7fa7d6efb1fa6e3b0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 20/54] fix: the type G search used the wrong root for half of
 the solutions of its Pell equation

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..9536f06 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // -U = 5 mod 15, and -U is a solution too.
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From edebef862401850108f49434af83d1dad0edadf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:44 +0000
Subject: [PATCH 21/54] fix: poly_findroot wrote outside its workspace for
 linear polynomials

---
 arith/poly.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 7cb1db7..fb18a17 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1649,6 +1649,12 @@ void element_field_to_polymod(element_ptr f, element_ptr g) {
 
 // Returns 0 when a root exists and sets root to one of the roots.
 int poly_findroot(element_ptr root, element_ptr poly) {
+  if (poly_degree(poly) == 1) {
+    element_div(root, poly_coeff(poly, 0), poly_coeff(poly, 1));
+    element_neg(root, root);
+    return 0;
+  }
+
   // Compute gcd(x^q - x, poly).
   field_t fpxmod;
   element_t p, x, r, fac, g;
-- 
2.43.0


From 06f6247c3fe8118d42b88f0ed2b311bf58974b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:28 +0000
Subject: [PATCH 22/54] fix: projective Miller loops of types D and G took the
 x-coordinate for y

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..24d09df 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..be2c7d5 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From af3e1076199f67c7cb45a1cdfa84ad84f2f41a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:01 +0000
Subject: [PATCH 23/54] fix: a product of pairings with an identity entry
 ignored the other entries

---
 include/pbc_pairing.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..229bf55 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -153,21 +153,26 @@ the groups G1, G2 respectively, and 'out' must belong to the group GT.
 static inline void element_prod_pairing(
     element_t out, element_t in1[], element_t in2[], int n) {
   pairing_ptr pairing = out->field->pairing;
-  int i;
+  int i, j;
+  element_t t;
   PBC_ASSERT(pairing->GT == out->field, "pairing output mismatch");
-  for(i = 0; i < n; i++) {
-    PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
-    PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
+  element_init(t, pairing->GT);
+  element_set0(out);
+  // A pair containing the identity contributes nothing to the product:
+  // multiply the values of the runs between such pairs.
+  for(i = 0; i < n; i = j + 1) {
+    for(j = i; j < n; j++) {
+      PBC_ASSERT(pairing->G1 == in1[j]->field, "pairing 1st input mismatch");
+      PBC_ASSERT(pairing->G2 == in2[j]->field, "pairing 2nd input mismatch");
+      if (element_is0(in1[j]) || element_is0(in2[j])) break;
     }
-    if (element_is0(in2[i])) {
-      element_set0(out);
-      return;
+    if (j > i) {
+      pairing->prod_pairings((element_ptr) t->data, in1 + i, in2 + i, j - i,
+          pairing);
+      element_mul(out, out, t);
     }
   }
-  pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
+  element_clear(t);
 }
 
 /*@manual pairing_op
-- 
2.43.0


From 5dbc54978e2f1e4ccccb975e92c307378a980158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:17 +0000
Subject: [PATCH 24/54] fix: the default pairing preprocessing kept a pointer
 to the caller's element

---
 ecc/pairing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..9c3e15d 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,10 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  // Keep a copy: the caller may change or clear in1 before the pairing.
+  p->data = pbc_malloc(sizeof(element_t));
+  element_init_same_as(p->data, in1);
+  element_set(p->data, in1);
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +71,8 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_clear(p->data);
+  pbc_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From e1532363fe4ebb8928bcde7c3b2807733a9d778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:17 +0000
Subject: [PATCH 25/54] fix: pairing preprocessing of types D and G overflowed
 when the order is all ones in binary

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 24d09df..b8fef91 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -874,7 +874,7 @@ static void d_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
diff --git a/ecc/g_param.c b/ecc/g_param.c
index be2c7d5..e718b91 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -696,7 +696,7 @@ static void g_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
-- 
2.43.0


From 36eef03388d47e35129f09f66b871c9456f9ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:17 +0000
Subject: [PATCH 26/54] fix: the almost-co-Diffie-Hellman test of types D and G
 mishandled the identity

---
 ecc/d_param.c | 16 ++++++++++++----
 ecc/g_param.c | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index b8fef91..5d5b6e5 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -761,10 +761,18 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  cc_tatepower(t0, t0, pairing);
-  cc_tatepower(t1, t1, pairing);
+  if (element_is0(a) || element_is0(d)) {
+    element_set1(t0);
+  } else {
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    cc_tatepower(t0, t0, pairing);
+  }
+  if (element_is0(b) || element_is0(c)) {
+    element_set1(t1);
+  } else {
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    cc_tatepower(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) res = 1;    // We were given g, g^x, h, h^-x.
   else {
diff --git a/ecc/g_param.c b/ecc/g_param.c
index e718b91..184ebf5 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -582,10 +582,18 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  tatepower10(t0, t0, pairing);
-  tatepower10(t1, t1, pairing);
+  if (element_is0(a) || element_is0(d)) {
+    element_set1(t0);
+  } else {
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    tatepower10(t0, t0, pairing);
+  }
+  if (element_is0(b) || element_is0(c)) {
+    element_set1(t1);
+  } else {
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    tatepower10(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) {
     //g, g^x, h, h^-x case
-- 
2.43.0


From 5c1c879607caf7f5130a743960cb0a45a5b98d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 27/54] fix: a parameter that is not a number was accepted as
 zero

---
 ecc/param.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..2f5499a 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -145,24 +145,27 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("not a number: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
 int lookup_int(int *n, symtab_t tab, const char *key) {
   mpz_t z;
-  const char *data = lookup(tab, key);
-  if (!data) {
-    pbc_error("missing param: `%s'", key);
-    return 1;
-  }
+  int err;
   mpz_init(z);
 
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  err = lookup_mpz(z, tab, key);
+  if (!err && !mpz_fits_sint_p(z)) {
+    pbc_error("out of range: `%s'", key);
+    err = 1;
+  }
+  if (!err) *n = (int)mpz_get_si(z);
   mpz_clear(z);
 
-  return 0;
+  return err;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
-- 
2.43.0


From 855e69e09181acdd3c5b7760a321874b9c309513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 28/54] fix: rejected or repeated parameters leaked

---
 ecc/param.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/param.c b/ecc/param.c
index 2f5499a..bf5896a 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,7 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    if (symtab_has(tab, key)) pbc_free(symtab_at(tab, key));
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
@@ -190,7 +191,10 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
+        if (res) {
+          pbc_error("bad pairing parameters");
+          pbc_param_clear(par);
+        }
         return res;
       }
     }
-- 
2.43.0


From dd37ee42d38b7e6a5a6720b47d7d6b592f8a3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:14 +0000
Subject: [PATCH 29/54] fix: halving in the ring of integers gave zero, and
 cubes passed for squares

---
 arith/z.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..733d27f 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From 5761e504a4b3c362a73f428fb9f73af5d062bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:14 +0000
Subject: [PATCH 30/54] fix: byte encoding of integers overran its announced
 length, changed its input and miscounted

---
 arith/z.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 733d27f..762c722 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -146,10 +146,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
+  data[4] = 0;
+  if (!(msb % 8)) n++;
   if (mpz_sgn(z) < 0) {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
     data[4] |= 128;
@@ -170,7 +168,7 @@ static int z_from_bytes(element_t e, unsigned char *data) {
   size_t i, n;
   mpz_ptr z = e->data;
   mpz_t z1;
-  int neg = 0;
+  int neg;
 
   mpz_init(z1);
   mpz_set_ui(z, 0);
@@ -181,19 +179,16 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  neg = n && (data[4] & 128);
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, i ? *ptr : *ptr & 127);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)(n + 4);
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -201,7 +196,7 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From 30d0346ab241817d05375ccdeea644be014ce106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:14 +0000
Subject: [PATCH 31/54] fix: integers could not be printed to a buffer, and
 negative ones not parsed

---
 arith/z.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 762c722..17c624a 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -1,6 +1,7 @@
 // The ring Z.
 //
 // Wrappers around GMP mpz functions.
+#include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
@@ -43,6 +44,10 @@ static size_t z_out_str(FILE *stream, int base, element_ptr e) {
   return mpz_out_str(stream, base, e->data);
 }
 
+static int z_snprint(char *s, size_t n, element_ptr e) {
+  return gmp_snprintf(s, n, "%Zd", (mpz_ptr) e->data);
+}
+
 static int z_sgn(element_ptr a) {
   mpz_ptr z = a->data;
   return mpz_sgn(z);
@@ -207,7 +212,12 @@ static void z_out_info(FILE *out, field_ptr f) {
 static int z_set_str(element_ptr e, const char *s, int base) {
   mpz_t z;
   mpz_init(z);
-  int result = pbc_mpz_set_str(z, s, base);
+  const char *cp = s;
+  while (isspace((unsigned char) *cp)) cp++;
+  int neg = '-' == *cp;
+  int result = pbc_mpz_set_str(z, cp + neg, base);
+  if (neg) mpz_neg(z, z);
+  result += (int)(cp + neg - s);
   z_set_mpz(e, z);
   mpz_clear(z);
   return result;
@@ -221,6 +231,7 @@ void field_init_z(field_ptr f) {
   f->set_mpz = z_set_mpz;
   f->set_str = z_set_str;
   f->out_str = z_out_str;
+  f->snprint = z_snprint;
   f->sign = z_sgn;
   f->add = z_add;
   f->sub = z_sub;
-- 
2.43.0


From b737059e70bb6da90efdca946d8f9c7b4b8026c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:14 +0000
Subject: [PATCH 32/54] fix: the default bounded printer did not terminate a
 text of size one

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 14513de..b11ece0 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -543,7 +543,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
-- 
2.43.0


From 438183e00876ab83bfa091b48601eaca399efbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:44 +0000
Subject: [PATCH 33/54] fix: two of the Fp implementations printed elements as
 ? and parsed nothing

---
 arith/fasterfp.c | 21 +++++++++++++++++++++
 arith/fastfp.c   | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index b915b76..338e654 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -145,6 +145,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -523,6 +542,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..f4d1295 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +371,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
-- 
2.43.0


From bbb04b2099f53f307195f0d91cb27840572c14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:44 +0000
Subject: [PATCH 34/54] fix: subtracting an integer from a list or a list from
 an integer had the wrong sign

---
 arith/multiz.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..4757a01 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -255,8 +255,21 @@ static void f_add(element_ptr n, element_ptr a, element_ptr b) {
   multiz_free(delme);
 }
 
+static void mpzneg(mpz_t dst, const mpz_t src, void *scope_ptr) {
+  UNUSED_VAR(scope_ptr);
+  mpz_neg(dst, src);
+}
+
+static multiz multiz_new_neg(multiz z) {
+  return multiz_new_unary(z, (void(*)(mpz_t, const mpz_t, void *))mpzneg, NULL);
+}
+
 static multiz multiz_new_sub(const multiz a, const multiz b) {
-  return multiz_new_bin(a, b, mpz_sub);
+  // Addition commutes, so a missing entry may be on either side of it.
+  multiz neg = multiz_new_neg(b);
+  multiz x = multiz_new_add(a, neg);
+  multiz_free(neg);
+  return x;
 }
 static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
   multiz delme = n->data;
@@ -325,15 +338,6 @@ static void f_mul_si(element_ptr n, element_ptr a, signed long int z) {
   multiz_free(delme);
 }
 
-static void mpzneg(mpz_t dst, const mpz_t src, void *scope_ptr) {
-  UNUSED_VAR(scope_ptr);
-  mpz_neg(dst, src);
-}
-
-static multiz multiz_new_neg(multiz z) {
-  return multiz_new_unary(z, (void(*)(mpz_t, const mpz_t, void *))mpzneg, NULL);
-}
-
 static void f_set(element_ptr n, element_ptr a) {
   multiz delme = n->data;
   n->data = multiz_clone(a->data);
-- 
2.43.0


From 9b193f9d70428a63c945139467d888eb40b24e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 35/54] fix: byte encoding of integer multinomials took the
 wrapper for the integer

---
 arith/multiz.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 4757a01..1ebb4f4 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -457,15 +457,15 @@ static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 //   (prepending null byte if necessary)
 // Positive numbers also the same as mpz_out_raw.
 static int z_to_bytes(unsigned char *data, element_t e) {
-  mpz_ptr z = e->data;
+  mpz_t z;
+  mpz_init(z);
+  f_to_mpz(z, e);
   size_t msb = mpz_sizeinbase(z, 2);
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
+  data[4] = 0;
+  if (!(msb % 8)) n++;
   if (mpz_sgn(z) < 0) {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
     data[4] |= 128;
@@ -477,6 +477,7 @@ static int z_to_bytes(unsigned char *data, element_t e) {
     data[i] = (unsigned char)(n >> 8 * (3 - i));
   }
   n += 4;
+  mpz_clear(z);
 
   return (int)n;
 }
@@ -484,12 +485,11 @@ static int z_to_bytes(unsigned char *data, element_t e) {
 static int z_from_bytes(element_t e, unsigned char *data) {
   unsigned char *ptr;
   size_t i, n;
-  mpz_ptr z = e->data;
-  mpz_t z1;
-  int neg = 0;
+  mpz_t z, z1;
+  int neg;
 
+  mpz_init(z);
   mpz_init(z1);
-  mpz_set_ui(z, 0);
 
   ptr = data;
   n = 0;
@@ -497,23 +497,27 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  neg = n && (data[4] & 128);
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, i ? *ptr : *ptr & 127);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  f_set_mpz(e, z);
+  mpz_clear(z);
+  return (int)(n + 4);
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  mpz_t z;
+  mpz_init(z);
+  f_to_mpz(z, a);
+  size_t n = mpz_sizeinbase(z, 2) / 8 + 1 + 4;
+  mpz_clear(z);
+  return (int)n;
 }
 
 static void f_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From 9f25d51cd67c05e864a9d25ffe35b344e3100d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 36/54] fix: integer multinomials could not be printed to a
 buffer, and negative integers not parsed

---
 arith/multiz.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 1ebb4f4..0070a6c 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -5,6 +5,7 @@
 
 // TODO: Canonicalize, e.g. [[1]], 0, 0] --> 1.
 
+#include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
@@ -133,6 +134,31 @@ static size_t f_out_str(FILE *stream, int base, element_ptr e) {
   return multiz_out_str(stream, base, e->data);
 }
 
+static int multiz_snprint(char *s, size_t size, multiz ep) {
+  switch(ep->type) {
+    case T_MPZ:
+      return gmp_snprintf(s, size, "%Zd", ep->z);
+    default:
+      PBC_ASSERT(T_ARR == ep->type, "no such type");
+      size_t result = snprintf(s, size, "[");
+      int n = darray_count(ep->a);
+      int i;
+      for(i = 0; i < n; i++) {
+        if (i) {
+          result += snprintf(s + result, result >= size ? 0 : size - result, ", ");
+        }
+        result += multiz_snprint(s + result, result >= size ? 0 : size - result,
+                                 darray_at(ep->a, i));
+      }
+      result += snprintf(s + result, result >= size ? 0 : size - result, "]");
+      return (int)result;
+  }
+}
+
+static int f_snprint(char *s, size_t n, element_ptr e) {
+  return multiz_snprint(s, n, e->data);
+}
+
 void multiz_to_mpz(mpz_ptr z, multiz ep) {
   while(ep->type == T_ARR) ep = darray_at(ep->a, 0);
   PBC_ASSERT(T_MPZ == ep->type, "no such type");
@@ -529,7 +555,12 @@ static int f_set_str(element_ptr e, const char *s, int base) {
   // TODO: Square brackets.
   mpz_t z;
   mpz_init(z);
-  int result = pbc_mpz_set_str(z, s, base);
+  const char *cp = s;
+  while (isspace((unsigned char) *cp)) cp++;
+  int neg = '-' == *cp;
+  int result = pbc_mpz_set_str(z, cp + neg, base);
+  if (neg) mpz_neg(z, z);
+  result += (int)(cp + neg - s);
   f_set_mpz(e, z);
   mpz_clear(z);
   return result;
@@ -550,6 +581,7 @@ void field_init_multiz(field_ptr f) {
   f->set_multiz = f_set_multiz;
   f->set_str = f_set_str;
   f->out_str = f_out_str;
+  f->snprint = f_snprint;
   f->sign = f_sgn;
   f->add = f_add;
   f->sub = f_sub;
-- 
2.43.0


From c06e7123520ce915a45caccc267eda7d9fa36b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 37/54] fix: integer multinomials with a zero leading
 coefficient compared equal to anything shorter

---
 arith/multiz.c | 51 +++++++++++++++-----------------------------------
 1 file changed, 15 insertions(+), 36 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 0070a6c..72c72f5 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -431,45 +431,24 @@ static element_ptr f_item(element_ptr e, int i) {
 }
 
 // Usual meaning when both are integers.
-// Otherwise, compare coefficients.
+// Otherwise, compare coefficients from the last to the first, where those that
+// are missing are zero.
 static int multiz_cmp(multiz a, multiz b) {
-  if (T_MPZ == a->type) {
-    if (T_MPZ == b->type) {
-      // Simplest case: both are integers.
-      return mpz_cmp(a->z, b->z);
-    }
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
-  PBC_ASSERT(T_ARR == a->type, "no such type");
-  if (T_MPZ == b->type) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
+  if (T_MPZ == a->type && T_MPZ == b->type) {
+    // Simplest case: both are integers.
+    return mpz_cmp(a->z, b->z);
   }
-  PBC_ASSERT(T_ARR == b->type, "no such type");
-  int m = darray_count(a->a);
-  int n = darray_count(b->a);
-  if (m > n) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
+  int m = T_ARR == a->type ? darray_count(a->a) : 1;
+  int n = T_ARR == b->type ? darray_count(b->a) : 1;
+  int i, result = 0;
+  multiz zero = multiz_new();
+  for (i = (m > n ? m : n) - 1; i >= 0 && !result; i--) {
+    multiz x = i >= m ? zero : T_ARR == a->type ? darray_at(a->a, i) : a;
+    multiz y = i >= n ? zero : T_ARR == b->type ? darray_at(b->a, i) : b;
+    result = multiz_cmp(x, y);
   }
-  if (n > m) {
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
-  for(n--; n >= 0; n--) {
-    int i = multiz_cmp(darray_at(a->a, n), darray_at(b->a, n));
-    if (i) return i;
-  }
-  return 0;
+  multiz_free(zero);
+  return result;
 }
 static int f_cmp(element_ptr x, element_ptr y) {
   return multiz_cmp(x->data, y->data);
-- 
2.43.0


From a22a5f4dfee38605920f35eecf6f12f5b1727a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 38/54] fix: zero to the power of a multiple of the word size
 was one in the ring of integers

---
 arith/z.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 17c624a..17c7ade 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -86,7 +86,9 @@ static void z_mul_si(element_ptr n, element_ptr a, signed long int z) {
 }
 
 static void z_pow_mpz(element_ptr n, element_ptr a, mpz_ptr z) {
-  mpz_pow_ui(n->data, a->data, mpz_get_ui(z));
+  // Only 0, 1 and -1 have powers this large, where the parity is enough.
+  if (mpz_sgn(z) && !mpz_sgn((mpz_ptr) a->data)) mpz_set_ui(n->data, 0);
+  else mpz_pow_ui(n->data, a->data, mpz_get_ui(z));
 }
 
 static void z_set(element_ptr n, element_ptr a) {
-- 
2.43.0


From bde473f5557ce431f1a651f79ef2e1a52db33377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:51 +0000
Subject: [PATCH 39/54] fix: %% in a format printed two percent signs, and a
 final % lost the text before it

---
 misc/extend_printf.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..d52b604 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -41,16 +41,22 @@ static int do_print(int(*strcb)(void *, char *s),
   for(;;) {
     for(;;) {
       c = strchr(next, '%');
-      if (!c) {
+      if (!c || !*(c + 1)) {
         status = strcb(data, start);
         if (status < 0) {
           count = -1;
         } else count += status;
         goto done;
       }
-      if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // Print the first percent sign of two.
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      next = start = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From ea420109b7385cdb277b9a5b85cab9ab727e0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:00 +0000
Subject: [PATCH 40/54] fix: type D parameters with an absurd k aborted the
 program

---
 ecc/d_param.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 5d5b6e5..d46dc28 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -1222,13 +1222,16 @@ int pbc_param_init_d(pbc_param_ptr par, struct symtab_s *tab) {
   err += lookup_mpz(p->hk, tab, "hk");
   err += lookup_mpz(p->nqr, tab, "nqr");
 
+  // Trust k only as far as there are coefficients.
   d = p->k / 2;
-  p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * d);
-  for (i=0; i<d; i++) {
+  if (d < 1) err++;
+  for (i=0; i<d && !err; i++) {
+    p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * (i + 1));
     sprintf(s, "coeff%d", i);
     mpz_init(p->coeff[i]);
     err += lookup_mpz(p->coeff[i], tab, s);
   }
+  if (err) p->k = 2 * i;
   return err;
 }
 
-- 
2.43.0


From 8e82bebd78687e02a1f5575159bd82cab61384a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 41/54] fix: a short read of the random source used stale
 bytes, and its failure leaked

---
 arith/random.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..6c0ffc1 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,16 +31,19 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
   if (!fp) return;
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
+      fclose(fp);
+      mpz_clear(z);
+      pbc_free(bytes);
       return;
     }
     if (leftover) {
-- 
2.43.0


From 3134bcf12cba759f502a77e7ae68d65dff63631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:41 +0000
Subject: [PATCH 42/54] fix: Pollard rho divided by zero when a collision
 carried no information

---
 arith/dlog.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..f119555 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -114,6 +114,15 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
     for (i = 0; i < hole->count; i++) {
       snapshot_ptr ss = hole->item[i];
       if (!element_cmp(snark, ss->snark)) {
+        if (!element_cmp(bsum, ss->b)) {
+          // This says nothing about x: start again from somewhere else.
+          element_random(asum);
+          element_random(bsum);
+          element_pow_zn(g0, g, asum);
+          element_pow_zn(snark, h, bsum);
+          element_mul(snark, snark, g0);
+          break;
+        }
         element_sub(bsum, bsum, ss->b);
         element_sub(asum, ss->a, asum);
         //answer is x such that x * bsum = asum
-- 
2.43.0


From cdfca56691161b99ec890180a917ebab4062e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:54 +0000
Subject: [PATCH 43/54] fix: a random or hashed element of GT could be zero

---
 ecc/pairing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 9c3e15d..0c5b43b 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -122,12 +122,15 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0(e->data));
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From c5e7b67f19ebb53ca8cb7a011209ea1cce53e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:00 +0000
Subject: [PATCH 44/54] fix: random elements of ternary fields came from rand()
 and left half of each word zero

---
 arith/ternary_extension_field.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..7cb64b3 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -21,6 +21,7 @@
 #include <gmp.h>
 #include "pbc_utils.h"
 #include "pbc_memory.h"
+#include "pbc_random.h"
 #include "pbc_field.h"
 
 typedef unsigned long gf3;
@@ -207,20 +208,14 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
-    params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
-    unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
-    unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
-    }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    unsigned i, m = PARAM(a)->m;
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_random(z, a->field->order);
+    gf3m_zero(a);
+    for (i = 0; i < m; i++)
+        gf3m_set(a, i, mpz_tdiv_q_ui(z, z, 3));
+    mpz_clear(z);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
-- 
2.43.0


From 94b34302ae4a4db1001a0f6ce3a43959313fef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:00 +0000
Subject: [PATCH 45/54] fix: decoding bytes into a ternary field could give an
 invalid element

---
 arith/ternary_extension_field.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 7cb64b3..5860569 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -456,6 +456,12 @@ int gf3m_from_bytes(element_ptr e, const unsigned char *d) {
             *b += d[j + 1];
             j -= 2;
         }
+        /* drop what is not a coefficient */
+        if ((i + 1) * W > PARAM(e)->m) {
+            unsigned long mask = (1ul << (PARAM(e)->m - i * W)) - 1;
+            *a &= mask, *b &= mask;
+        }
+        *b &= ~*a;
     }
     return SIZE(e);
 }
-- 
2.43.0


From 45adf27774bafe83ac763f9dd93f338d463fa8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:00 +0000
Subject: [PATCH 46/54] fix: a random point of the ternary curve with x = 0 was
 off the curve

---
 ecc/eta_T_3.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..4752f33 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -98,8 +98,6 @@ static void point_random(element_t a) {
     element_init(t2, f);
     do {
         element_random(x);
-        if (element_is0(x))
-            continue;
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
-- 
2.43.0


From 0456460481f57c31ae06f7df8186087c5b12b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:31 +0000
Subject: [PATCH 47/54] fix: inversion in GF(3^2m) and negation in GF(3^3m)
 called an unset function

---
 arith/ternary_extension_field.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 5860569..cefd90b 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -654,6 +654,25 @@ static void gf32m_cubic(element_t e, element_t a) {
     element_clear(c1);
 }
 
+/* $e <- a^{-1}$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t t0, t1;
+    element_init(t0, base);
+    element_init(t1, base);
+    element_mul(t0, a0, a0);
+    element_mul(t1, a1, a1);
+    element_add(t0, t0, t1);
+    element_invert(t0, t0); // t0 == (a0^2 + a1^2)^{-1}
+    element_mul(e0, a0, t0);
+    element_neg(t0, t0);
+    element_mul(e1, a1, t0);
+    element_clear(t0);
+    element_clear(t1);
+}
+
 void field_clear_gf32m(field_t f) {
     UNUSED_VAR(f);
 }
@@ -675,6 +694,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
     f->cubic = gf32m_cubic;
+    f->invert = gf32m_invert;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
@@ -775,6 +795,15 @@ static void gf33m_sub(element_t c, element_t a, element_t b) {
     element_sub(c2, a2, b2);
 }
 
+/* $c <- (-a)$ */
+static void gf33m_neg(element_t c, element_t a) {
+    element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, c0 =
+            GF33M(c)->_0, c1 = GF33M(c)->_1, c2 = GF33M(c)->_2;
+    element_neg(c0, a0);
+    element_neg(c1, a1);
+    element_neg(c2, a2);
+}
+
 /* $c <- a*b$ */
 static void gf33m_mult(element_t e, element_t a, element_t b) {
     element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, b0 =
@@ -939,6 +968,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->cmp = gf33m_cmp;
     f->add = gf33m_add;
     f->sub = gf33m_sub;
+    f->neg = gf33m_neg;
     f->mul = gf33m_mult;
     f->cubic = gf33m_cubic;
     f->invert = gf33m_invert;
-- 
2.43.0


From c21aedc17ec4ac63df3e560cabf669eb49165744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 48/54] fix: hashing to a polynomial extension gave every
 coefficient the same value

Elements hashed to GT were always 1 for type D pairings, and the final
powering died with a division by zero for type G pairings.
---
 arith/poly.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arith/poly.c b/arith/poly.c
index fb18a17..06c22c0 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -342,11 +342,16 @@ static void polymod_random(element_ptr e) {
 }
 
 static void polymod_from_hash(element_ptr e, const void *data, int len) {
-  // TODO: Improve this.
+  // Split the hash between the coefficients. If they all received the same
+  // value then the result would always be the same element times a scalar.
   element_t *coeff = e->data;
   int i, n = polymod_field_degree(e->field);
+  const char *p = data;
   for (i=0; i<n; i++) {
-    element_from_hash(coeff[i], data, len);
+    int k = len / (n - i);
+    element_from_hash(coeff[i], p, k);
+    p += k;
+    len -= k;
   }
 }
 
-- 
2.43.0


From f3e7c4818ad458d577f5133695659dc7eed9abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 49/54] fix: the final powering of type G pairings divided by
 zero for elements of a subfield

---
 ecc/g_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index 184ebf5..5795d4b 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is1(in)) {
+    element_set1(out);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From a866ed614e7d2d3faca6db01112a2cb73ef0af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 50/54] fix: clearing preprocessed type A1 pairings leaked the
 coefficients

---
 ecc/a_param.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..3139bf8 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1622,9 +1622,27 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
 
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
   while (*pp) {
+    // As laid out by a1_pairing_pp_init().
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_ptr ppp = *pp;
+      element_clear(ppp->cx2);
+      element_clear(ppp->cy2);
+      element_clear(ppp->cxy);
+      element_clear(ppp->cx);
+      element_clear(ppp->cy);
+      element_clear(ppp->c);
+    } else {
+      pp_coeff_ptr ppp = *pp;
+      element_clear(ppp->a);
+      element_clear(ppp->b);
+      element_clear(ppp->c);
+    }
     pbc_free(*pp);
     pp++;
+    m--;
   }
   pbc_free(p->data);
 }
-- 
2.43.0


From 384888f7aed51995e0acd2e33c2bb2ac4a123828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 51/54] fix: generating type E parameters leaked the field and
 the curve

---
 ecc/e_param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..8913f69 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1003,5 +1003,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
+  field_clear(cc);
+  field_clear(Fq);
   mpz_clear(n);
 }
-- 
2.43.0


From 7908ff4b68b6f4fd36565a6f8f2ac73f26ae6202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 52/54] fix: generating type F parameters leaked the last curve
 and point

---
 ecc/f_param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..d858f4f 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -530,6 +530,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     field_clear(c);
   }
   element_to_mpz(b, e1);
+  element_clear(P);
+  field_clear(c);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
   element_to_mpz(fp->beta, field_get_nqr(Fq));
-- 
2.43.0


From 7febd37fdadf14147d929e1ca9ad3f1c9359cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:39 +0000
Subject: [PATCH 53/54] fix: element_mul_si returned the operand itself in
 elliptic curve groups and GT

---
 arith/field.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index b11ece0..6842a6e 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -391,12 +391,15 @@ static void generic_mul_mpz(element_ptr r, element_ptr a, mpz_ptr z) {
   element_clear(e0);
 }
 
+// Goes through element_mul_mpz() because groups have no image of an integer.
 static void generic_mul_si(element_ptr r, element_ptr a, signed long int n) {
-  element_t e0;
-  element_init(e0, r->field);
-  element_set_si(e0, n);
-  element_mul(r, a, e0);
-  element_clear(e0);
+  mpz_t z;
+  mpz_init(z);
+  mpz_set_si(z, n);
+  mpz_abs(z, z);
+  element_mul_mpz(r, a, z);
+  if (n < 0) element_neg(r, r);
+  mpz_clear(z);
 }
 
 static void generic_double(element_ptr r, element_ptr a) {
-- 
2.43.0


From fd8d722c5d5097fd61a524802bea0c94f1a403c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:53 +0000
Subject: [PATCH 54/54] fix: D parameters with more than a hundred coefficients
 overflow the key buffer when written

---
 ecc/d_param.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index d46dc28..0e54f85 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -74,7 +74,7 @@ static void d_out_str(FILE *stream, void *data) {
   d_param_ptr p = data;
   int d = p->k / 2;
   int i;
-  char s[8];
+  char s[80];
   param_out_type(stream, "d");
   param_out_mpz(stream, "q", p->q);
   param_out_mpz(stream, "n", p->n);
-- 
2.43.0

