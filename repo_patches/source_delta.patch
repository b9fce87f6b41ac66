From e752c7c4e5dbf9efa4acf7f2acbf6b894f9834f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 01/25] fix: Term + Term kept a zero coefficient when the terms
 cancel or one is zero

---
 src/term.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/term.rs b/src/term.rs
index e39847d..a24a7c3 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -35,13 +35,7 @@ impl One for Term {
 }
 
 impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
-    let mut pol = a.clone().to_pol();
-    if let Some(av) = pol.terms.get_mut(&b.monomial) {
-        *av += b.coef.clone(); 
-    } else {
-        pol.terms.insert(b.monomial, b.coef.clone());
-    }
-    pol
+    a.to_pol() + b.to_pol()
 });
 
 impl_op_ex!(* |a: &Term, b: &Term| -> Term {
-- 
2.43.0


From 7aebc9491b5ba65b84dfdf780aed946b0507c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 02/25] fix: Polynomial += Term stored a zero coefficient for a
 zero term

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..5f4442a 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
-- 
2.43.0


From 04443796e04c9e26dbd31090a77db43b465050f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 03/25] fix: Polynomial * Polynomial kept zero coefficients of
 cancelled terms

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 5f4442a..090caa9 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -117,6 +117,9 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
             } else {
                 pol.terms.insert(l.monomial, l.coef);
             }
-- 
2.43.0


From aab797c42be0bfab68d216a72ba4b7c734cac82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 04/25] fix: Polynomial / monomial kept coefficients whose
 quotient is zero

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 090caa9..2fbbc9b 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -157,7 +157,9 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            if !u.coef.is_zero() {
+                pol.terms.insert(u.monomial, u.coef);
+            }
         }
         pol
     } else {
-- 
2.43.0


From eb718e26f7b2a7cbeb45bc09c98c3991bf90da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 05/25] fix: to_frob, to_y_power, to_q_power lost terms whose
 monomials coincide for n = 0

---
 src/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 2fbbc9b..ca0c8c0 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -507,7 +507,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_frob(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -518,7 +518,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_y_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -529,7 +529,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_q_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
-- 
2.43.0


From ca72c28095ee202a630ff17c66d55ede982b361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 06/25] fix: Polynomial::power_modulo with exponent 0 returned
 the base

---
 src/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ca0c8c0..5249729 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -328,6 +328,10 @@ impl Polynomial {
         assert!(*n >= Zero::zero());
         let mut b = self % p;
         let mut r: Polynomial = One::one();
+        if n.is_zero() {
+            r.modular_assign(p);
+            return r;
+        }
         let mut e = n.clone();
         while &e > &One::one() {
             if e.is_odd() {
-- 
2.43.0


From 39bb3207336a94abc7df72acebf767e683833c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 07/25] fix: BigInt::power_modulo with exponent 0 and modulus 1
 was not reduced

---
 src/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint.rs b/src/bigint.rs
index 04ad186..b499852 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -68,7 +68,7 @@ impl Power<i32> for BigInt {
 impl PowerModulo for BigInt {
     fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         if n == &Zero::zero() {
-            return One::one();
+            return BigInt::from(1).mod_floor(p);
         }
         let mut e = n.clone();
         let mut b = self.clone();
-- 
2.43.0


From 84c8df1ad310c87c25d0a7234047dee7ba5e2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 08/25] fix: polynomial_modular did not end for a constant
 divisor, or one whose leading coefficient is 0 mod p

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 5249729..27a7cbf 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -361,11 +361,13 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        let other = &(other % p);
+        assert!(!other.is_zero(), "!other.is_zero()");
         let oh = other.highest_term_x();
         let mut r = self.clone();
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
-- 
2.43.0


From dbe78ab1c2b4067ccc37d559e13e0c3913673ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 09/25] fix: to_monic returned 0 when the leading coefficient
 is 0 mod p

---
 src/polynomial.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 27a7cbf..3a21ec7 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -469,9 +469,10 @@ impl Polynomial {
         if self.is_zero() {
             return self.clone();
         }
-        let s = self.highest_term_x();
+        let reduced = self % p;
+        let s = reduced.highest_term_x();
         let inv = s.coef.inverse(p);
-        let mut pol = self * term_builder::TermBuilder::new().coef(&inv).build();
+        let mut pol = reduced * term_builder::TermBuilder::new().coef(&inv).build();
         pol.modular_assign(p);
         pol
     }
-- 
2.43.0


From 6da95bf81dfa024173ecbe9860698b4f1bbffdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 10/25] fix: gcd with a polynomial that is 0 mod p did not end

---
 src/polynomial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 3a21ec7..586ec8c 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -453,7 +453,12 @@ impl Polynomial {
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-        let s = self.highest_term_x();
+        let other = &(other % p);
+        if other.is_zero() {
+            return self.to_monic(p);
+        }
+        let reduced = self % p;
+        let s = reduced.highest_term_x();
         let o = other.highest_term_x();
         if s.xpow() < o.xpow() {
             return other.gcd(self, p);
-- 
2.43.0


From 3bf93f7fa0f6e0efcf395c37ed87d4e093514467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 11/25] fix: is_gcd_one was true for every pair of non-zero
 polynomials

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 586ec8c..b2da623 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -449,7 +449,7 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m == One::one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-- 
2.43.0


From e5426701aad22954123f2a1cd9eadcae3bc4ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 12/25] fix: P + O returned the point at infinity

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From 56eafbcc9450563700b0cb8935c05bb82c73198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 13/25] fix: multiply_scalar ignored the sign of a negative
 scalar

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From ae859cc42f1dabc15de886c5c42e26dbce262701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 14/25] fix: solve did not divide the first row by its diagonal

---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From 55f7478741d01f8e5cf8c83845b8133b2bfe3401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 15/25] fix: variable_from_index accepted indices of 2^32 and
 more after truncation

---
 src/subscripted_variable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subscripted_variable.rs b/src/subscripted_variable.rs
index 939e679..0e74d62 100644
--- a/src/subscripted_variable.rs
+++ b/src/subscripted_variable.rs
@@ -133,10 +133,10 @@ impl SubscriptedVariableConverter {
     }
 
     pub fn variable_from_index(&self, index: u64) -> SubscriptedVariable {
-        let mut local_index: i32 = 0;
+        let mut local_index: u64 = 0;
         for i in num_iter::range(0, self.p+1) {
             for j in num_iter::range(i+1, self.p+1) {
-                if local_index == index as i32 {
+                if local_index == index {
                     return SubscriptedVariable {
                         i: i,
                         j: j,
@@ -147,7 +147,7 @@ impl SubscriptedVariableConverter {
             }
         } 
         for i in num_iter::range(0, self.p+1) {
-            if local_index == index as i32 {
+            if local_index == index {
                 return SubscriptedVariable {
                     i: i,
                     j: i,
-- 
2.43.0


From de104a2069a4d6bc298f25edd99024499530e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 16/25] fix: isogeny divided by p where Velu's formula reduces
 modulo p

---
 src/elliptic_curve.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..b2aa72f 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -232,23 +232,19 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
+        // Velu's formula: the sum over all points but O of the kernel
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
+                let vp = BigInt::from(3) * point.x.power(2) + &self.a;
+                let up = BigInt::from(2) * point.y.power(2);
                 v += vp.clone();
                 w += up + point.x * vp;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0


From 1bcf00384d7654bbfda4422e0c8b83889d38c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 17/25] fix: schoof always chose the negative sign of the trace
 (sign of phi in the y coordinate)

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From e1623011a09046cb0314d1addd55c7748090fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 18/25] fix: schoof gave a wrong trace when the Frobenius map
 is a scalar on the l-torsion

---
 src/schoof.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..a4425c8 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -86,6 +86,9 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         let psi_l = &division_polynomial::psi(a, b, l) % q;
         println!("{} psi({}):{}", line!(), l, psi_l);
 
+        // pi^2 = +-ql for the whole l-torsion: the sum formula does not apply
+        let is_same_x = den1.polynomial_modular(&psi_l, &qq).is_zero();
+
         let mut found = false;
         let mut jj: i32 = Zero::zero();
         for j in num_iter::range(1, jmax + 1) {
@@ -105,7 +108,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             p1.modular_assign(&qq);
             println!("{} pol % psi({}):{}", line!(), l, p1);
 
-            if p1.is_zero() {
+            if p1.is_zero() && !is_same_x {
                 // to iii.
                 found = true;
                 jj = j;
@@ -200,7 +203,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
+                let p14 = &division_polynomial::psi(a, b, l) % q;
 
                 let qq = BigInt::from(q);
                 let p15 = p13.polynomial_modular(&p14, &qq);
@@ -210,12 +213,13 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
+                    let mut p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
                     p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
                     let qq = BigInt::from(q);
                     if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
-- 
2.43.0


From cf9c737bbb0d147e2e68a16faea7bc3d29e9b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 19/25] fix: sigma_divisor overflowed for n = i32::MAX

---
 src/divisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divisor.rs b/src/divisor.rs
index cd899e5..8825155 100644
--- a/src/divisor.rs
+++ b/src/divisor.rs
@@ -12,7 +12,7 @@ pub fn sigma_divisor(n: i32, power: i32) -> BigInt {
         return Zero::zero();
     }
     let mut sum: BigInt = Zero::zero();
-    for i in num_iter::range(1, n + 1) {
+    for i in num_iter::range_inclusive(1, n) {
         if n % i == Zero::zero() {
             sum += BigInt::from(i).power(power);
         }
-- 
2.43.0


From 45cacc5fd55ee2e8667fd3c8b8179894941d7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 20/25] fix: omit_high_order_q overflowed for order = i32::MAX

---
 src/polynomial.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b2da623..7ca8015 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -681,13 +681,7 @@ impl Polynomial {
     pub fn omit_high_order_q(&mut self, order: i32) {
         assert!(!self.has_x(), "has_x()");
         assert!(!self.has_y(), "has_y()");
-        let m = term::Monomial {
-            xpow: 0,
-            ypow: 0,
-            qpow: order + 1,
-            variable: subscripted_variable::SubscriptedVariable::new(),
-        };
-        self.terms.split_off(&m);
+        self.terms.retain(|m, _| m.qpow <= order);
     }
 
     pub fn eval_x_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
-- 
2.43.0


From cbc566ebb4c369714c2baf0e6d25489ee80bad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 21/25] fix: Term::power_modulo kept a variable to the first
 power for every exponent

---
 src/term.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/term.rs b/src/term.rs
index a24a7c3..7559d4d 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -199,6 +199,9 @@ impl Term {
 
     /// Term^n (mod p)
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
+        if !self.variable().empty && !n.is_one() {
+            panic!("variable can't power");
+        }
         let nn = n.to_i32().unwrap();
         term_builder::TermBuilder::new()
             .coef(self.coef.power_modulo(n, p))
-- 
2.43.0


From 45b86492f47ce62525b10ce70ff1b0a14a2b3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 22/25] fix: Polynomial::to_scalar read a term with a
 subscripted variable as its coefficient

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 7ca8015..251de03 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -660,6 +660,9 @@ impl Polynomial {
             if !m.qpow.is_zero() {
                 panic!();
             }
+            if !m.variable.empty {
+                panic!();
+            }
             return coef.clone();
         }
         panic!();
-- 
2.43.0


From 0c3c848ed5f40b948fe1cf439251ca2adea0a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 23/25] fix: create_points listed every point twice on a curve
 that already had its points

---
 src/elliptic_curve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index b2aa72f..bc65e6c 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -147,6 +147,7 @@ impl EllipticCurve {
 
     /// create rational points 
     pub fn create_points(&mut self) {
+        self.points.clear();
         for x in num_iter::range(BigInt::from(0), self.p.clone()) {
             let xpol = x.power(3)
                 + self.a.clone() * x.clone()
-- 
2.43.0


From 79c6a07159e408644c3f85e478de91ace3801397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:44 +0000
Subject: [PATCH 24/25] fix: integer powers below zero are refused unless the
 base is 1 or -1

---
 src/bigint.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/bigint.rs b/src/bigint.rs
index b499852..6d9916a 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -19,6 +19,13 @@ pub trait Inverse {
     fn inverse(&self, p: &BigInt) -> Self;
 }
 
+/// n-th power for n < 0, an integer for 1 and -1 only
+fn unit_power(base: &BigInt, is_odd: bool) -> BigInt {
+    let square = base * base;
+    assert!(square.is_one(), "{} has no integer power below zero", base);
+    if is_odd { base.clone() } else { square }
+}
+
 impl Power<BigInt> for BigInt { 
     fn power(&self, n: BigInt) -> Self {
         self.power(&n)
@@ -30,6 +37,9 @@ impl<'a> Power<&'a BigInt> for BigInt {
         if n == &Zero::zero() {
             return One::one();
         }
+        if n < &Zero::zero() {
+            return unit_power(self, n.is_odd());
+        }
         let mut e = n.clone();
         let mut b = self.clone();
         let mut r = BigInt::from(1);
@@ -50,6 +60,9 @@ impl Power<i32> for BigInt {
         if n == 0 {
             return One::one();
         }
+        if n < 0 {
+            return unit_power(self, n.is_odd());
+        }
         let mut e = n;
         let mut b = self.clone();
         let mut r = BigInt::from(1);
@@ -70,6 +83,9 @@ impl PowerModulo for BigInt {
         if n == &Zero::zero() {
             return BigInt::from(1).mod_floor(p);
         }
+        if n < &Zero::zero() {
+            return unit_power(self, n.is_odd()).mod_floor(p);
+        }
         let mut e = n.clone();
         let mut b = self.clone();
         let mut r = BigInt::from(1);
-- 
2.43.0


From d785d97a890b6891157b0f5ec0922198b36950b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:21 +0000
Subject: [PATCH 25/25] fix: Monomial::eval_q refuses a value that does not fit
 into i32 instead of wrapping around

---
 src/term.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/term.rs b/src/term.rs
index 7559d4d..aab3d65 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -137,7 +137,8 @@ impl Monomial {
     }
 
     pub fn eval_q(&self, q: i32) -> i32 {
-        q.pow(self.qpow as u32)
+        assert!(self.qpow >= 0 || q == 1 || q == -1, "{} has no integer power below zero", q);
+        q.checked_pow(self.qpow as u32).expect("the power of q does not fit into i32")
     }
 }
 
-- 
2.43.0

