From a0e30dd4703216e77dad95d635554bfa195d0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:48 +0000
Subject: [PATCH 01/12] fix: subtract the subtrahend's stored carry instead of
 adding it

A lazily normalized operand holds a carry above its top digit, which is
worth carry * C.  Subtraction added both operands' carries, so x - y was
wrong by 2 * C whenever y held one (0 - (4 + (p - 1)) gave 3, not p - 3).
---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..47c47a1 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..9eed087 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..e1d7c60 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..c974685 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..b91433a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..2a1df8c 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..ead33fe 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..3e19760 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..3c20e5d 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From 6bea0070aaac66e100c14d7e8248f3c4ddab1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:48 +0000
Subject: [PATCH 02/12] fix: make negation compute modulus - x

Neg returned x + modulus, which is x itself modulo the prime.
---
 src/field/mod_e221_3.rs   | 4 ++--
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 4 ++--
 src/field/mod_e255_19.rs  | 4 ++--
 src/field/mod_e382_105.rs | 4 ++--
 src/field/mod_e383_187.rs | 4 ++--
 src/field/mod_e414_17.rs  | 4 ++--
 src/field/mod_e511_187.rs | 4 ++--
 src/field/mod_e521_1.rs   | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 47c47a1..b1a25ce 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,9 +155,9 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 9eed087..80a2b35 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,9 +134,9 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index e1d7c60..9ec897e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c974685..c52e6f3 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,9 +166,9 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b91433a..b04ce03 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 2a1df8c..6c3b524 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,9 +195,9 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index ead33fe..a0f42f2 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,9 +145,9 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 3e19760..b4246ba 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,9 +183,9 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 3c20e5d..e6155e5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,9 +152,9 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
-- 
2.43.0


From d6dec151e0dfb99c3c62424bcc1e61d58f65b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 03/12] fix: propagate each word's own carry in Mod_e521_1
 small multiplication

---
 src/field/mod_e521_1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index e6155e5..64743db 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2719,11 +2719,11 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
+        let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
-- 
2.43.0


From d6f21dd0ffa2d04bca65c3e38a43638e340af5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 04/12] fix: fold the carry of a small multiplication instead
 of counting it twice

---
 src/field/mod_e221_3.rs   | 13 +++++++++----
 src/field/mod_e222_117.rs | 13 +++++++++----
 src/field/mod_e251_9.rs   | 11 ++++++++---
 src/field/mod_e255_19.rs  | 13 +++++++++----
 src/field/mod_e382_105.rs | 13 +++++++++----
 src/field/mod_e383_187.rs | 13 +++++++++----
 src/field/mod_e414_17.rs  | 11 ++++++++---
 src/field/mod_e511_187.rs | 11 ++++++++---
 src/field/mod_e521_1.rs   | 13 +++++++++----
 9 files changed, 78 insertions(+), 33 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index b1a25ce..0604533 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1308,7 +1308,7 @@ impl PrimeField for Mod_e221_3 {
         let a4 = self.0[2] & 0x1fffffff;
         let a5 = self.0[2] >> 29;
         let a6 = self.0[3] & 0x1fffffff;
-        let a7 = self.0[3] >> 29;
+        let a7 = (self.0[3] & 0x00007fffffffffff) >> 29;
 
         let b = i64::from(rhs);
 
@@ -1322,18 +1322,23 @@ impl PrimeField for Mod_e221_3 {
         let m7 = a7 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL * b);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) + c2;
+        let kout = (d3 >> 47) + ((m7 >> 29) << 11);
 
         self.0[0] = d0 & 0x03ffffffffffffff;
         self.0[1] = d1 & 0x03ffffffffffffff;
         self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[3] = d3 & 0x00007fffffffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e221_3([ kout * C_VAL, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 80a2b35..7f85c72 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1341,7 +1341,7 @@ impl PrimeField for Mod_e222_117 {
         let a4 = self.0[2] & 0x1fffffff;
         let a5 = self.0[2] >> 29;
         let a6 = self.0[3] & 0x1fffffff;
-        let a7 = self.0[3] >> 29;
+        let a7 = (self.0[3] & 0x0000ffffffffffff) >> 29;
 
         let b = i64::from(rhs);
 
@@ -1355,18 +1355,23 @@ impl PrimeField for Mod_e222_117 {
         let m7 = a7 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL * b);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) + c2;
+        let kout = (d3 >> 48) + ((m7 >> 29) << 10);
 
         self.0[0] = d0 & 0x03ffffffffffffff;
         self.0[1] = d1 & 0x03ffffffffffffff;
         self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[3] = d3 & 0x0000ffffffffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e222_117([ kout * C_VAL, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9ec897e..6c5c253 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1395,7 +1395,7 @@ impl PrimeField for Mod_e251_9 {
         let a5 = self.0[2] >> 28;
         let a6 = self.0[3] & 0x0fffffff;
         let a7 = self.0[3] >> 28;
-        let a8 = self.0[4];
+        let a8 = self.0[4] & 0x0000000007ffffff;
 
         let b = i64::from(rhs);
 
@@ -1410,7 +1410,7 @@ impl PrimeField for Mod_e251_9 {
         let m8 = a8 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL * b);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1419,12 +1419,17 @@ impl PrimeField for Mod_e251_9 {
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
         let d4 = (m7 >> 28) + m8 + c3;
+        let kout = d4 >> 27;
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[4] = d4 & 0x0000000007ffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e251_9([ kout * C_VAL, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c52e6f3..844f59f 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1491,7 +1491,7 @@ impl PrimeField for Mod_e255_19 {
         let a6 = self.0[3] & 0x0fffffff;
         let a7 = self.0[3] >> 28;
         let a8 = self.0[4] & 0x0fffffff;
-        let a9 = self.0[4] >> 28;
+        let a9 = (self.0[4] & 0x000000007fffffff) >> 28;
 
         let b = i64::from(rhs);
 
@@ -1507,7 +1507,7 @@ impl PrimeField for Mod_e255_19 {
         let m9 = a9 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL * b);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1515,13 +1515,18 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
+        let d4 = (m7 >> 28) + m8 + ((m9 & 0x0fffffff) << 28) + c3;
+        let kout = (d4 >> 31) + ((m9 >> 28) << 25);
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[4] = d4 & 0x000000007fffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e255_19([ kout * C_VAL, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b04ce03..3eb3a55 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1920,7 +1920,7 @@ impl PrimeField for Mod_e382_105 {
         let a10 = self.0[5] & 0x0fffffff;
         let a11 = self.0[5] >> 28;
         let a12 = self.0[6] & 0x0fffffff;
-        let a13 = self.0[6] >> 28;
+        let a13 = (self.0[6] & 0x00003fffffffffff) >> 28;
 
         let b = i64::from(rhs);
 
@@ -1940,7 +1940,7 @@ impl PrimeField for Mod_e382_105 {
         let m13 = a13 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL * b);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1952,7 +1952,8 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
+        let kout = (d6 >> 46) + ((m13 >> 28) << 10);
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
@@ -1960,7 +1961,11 @@ impl PrimeField for Mod_e382_105 {
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        self.0[6] = d6 & 0x00003fffffffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e382_105([ kout * C_VAL, 0, 0, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 6c3b524..e8cab1e 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2042,7 +2042,7 @@ impl PrimeField for Mod_e383_187 {
         let a10 = self.0[5] & 0x0fffffff;
         let a11 = self.0[5] >> 28;
         let a12 = self.0[6] & 0x0fffffff;
-        let a13 = self.0[6] >> 28;
+        let a13 = (self.0[6] & 0x00007fffffffffff) >> 28;
 
         let b = i64::from(rhs);
 
@@ -2062,7 +2062,7 @@ impl PrimeField for Mod_e383_187 {
         let m13 = a13 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL * b);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2074,7 +2074,8 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
+        let kout = (d6 >> 47) + ((m13 >> 28) << 9);
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
@@ -2082,7 +2083,11 @@ impl PrimeField for Mod_e383_187 {
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        self.0[6] = d6 & 0x00007fffffffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e383_187([ kout * C_VAL, 0, 0, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a0f42f2..be86df5 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2026,7 +2026,7 @@ impl PrimeField for Mod_e414_17 {
         let a11 = self.0[5] >> 28;
         let a12 = self.0[6] & 0x0fffffff;
         let a13 = self.0[6] >> 28;
-        let a14 = self.0[7];
+        let a14 = self.0[7] & 0x00000000003fffff;
 
         let b = i64::from(rhs);
 
@@ -2047,7 +2047,7 @@ impl PrimeField for Mod_e414_17 {
         let m14 = a14 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL * b);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2062,6 +2062,7 @@ impl PrimeField for Mod_e414_17 {
         let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
         let c6 = d6 >> 56;
         let d7 = (m13 >> 28) + m14 + c6;
+        let kout = d7 >> 22;
 
         self.0[0] = d0 & 0x00ffffffffffffff;
         self.0[1] = d1 & 0x00ffffffffffffff;
@@ -2070,7 +2071,11 @@ impl PrimeField for Mod_e414_17 {
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
         self.0[6] = d6 & 0x00ffffffffffffff;
-        self.0[7] = d7;
+        self.0[7] = d7 & 0x00000000003fffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e414_17([ kout * C_VAL, 0, 0, 0, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b4246ba..c2f9599 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2645,7 +2645,7 @@ impl PrimeField for Mod_e511_187 {
         let a15 = self.0[7] >> 27;
         let a16 = self.0[8] & 0x07ffffff;
         let a17 = self.0[8] >> 27;
-        let a18 = self.0[9];
+        let a18 = self.0[9] & 0x0000000001ffffff;
 
         let b = i64::from(rhs);
 
@@ -2670,7 +2670,7 @@ impl PrimeField for Mod_e511_187 {
         let m18 = a18 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL * b);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2689,6 +2689,7 @@ impl PrimeField for Mod_e511_187 {
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + c8;
+        let kout = d9 >> 25;
 
         self.0[0] = d0 & 0x003fffffffffffff;
         self.0[1] = d1 & 0x003fffffffffffff;
@@ -2699,7 +2700,11 @@ impl PrimeField for Mod_e511_187 {
         self.0[6] = d6 & 0x003fffffffffffff;
         self.0[7] = d7 & 0x003fffffffffffff;
         self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        self.0[9] = d9 & 0x0000000001ffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e511_187([ kout * C_VAL, 0, 0, 0, 0, 0, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 64743db..cb6f2bd 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2680,7 +2680,7 @@ impl PrimeField for Mod_e521_1 {
         let a16 = self.0[8] & 0x07ffffff;
         let a17 = self.0[8] >> 27;
         let a18 = self.0[9] & 0x07ffffff;
-        let a19 = self.0[9] >> 27;
+        let a19 = (self.0[9] & 0x00000007ffffffff) >> 27;
 
         let b = i64::from(rhs);
 
@@ -2706,7 +2706,7 @@ impl PrimeField for Mod_e521_1 {
         let m19 = a19 * b;
 
         let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL * b);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2724,7 +2724,8 @@ impl PrimeField for Mod_e521_1 {
         let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
+        let d9 = (m17 >> 27) + m18 + ((m19 & 0x07ffffff) << 27) + c8;
+        let kout = (d9 >> 35) + ((m19 >> 27) << 19);
 
         self.0[0] = d0 & 0x003fffffffffffff;
         self.0[1] = d1 & 0x003fffffffffffff;
@@ -2735,7 +2736,11 @@ impl PrimeField for Mod_e521_1 {
         self.0[6] = d6 & 0x003fffffffffffff;
         self.0[7] = d7 & 0x003fffffffffffff;
         self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        self.0[9] = d9 & 0x00000007ffffffff;
+
+        // The product can carry out more bits than the top word has to
+        // spare, so fold the carry back in now.
+        *self += &Mod_e521_1([ kout * C_VAL, 0, 0, 0, 0, 0, 0, 0, 0, 0 ]);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From dee73d0a62c329450ba0f97a587d9b9d52a4f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 05/12] fix: fold the stored carry before normalizing

---
 src/field/mod_e221_3.rs   | 4 ++++
 src/field/mod_e222_117.rs | 4 ++++
 src/field/mod_e251_9.rs   | 4 ++++
 src/field/mod_e255_19.rs  | 4 ++++
 src/field/mod_e382_105.rs | 4 ++++
 src/field/mod_e383_187.rs | 4 ++++
 src/field/mod_e414_17.rs  | 4 ++++
 src/field/mod_e511_187.rs | 4 ++++
 src/field/mod_e521_1.rs   | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 0604533..1f7e2e7 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -846,6 +846,10 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 7f85c72..3596169 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -843,6 +843,10 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 6c5c253..15997f4 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -883,6 +883,10 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 844f59f..ab8c8af 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -935,6 +935,10 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 3eb3a55..602d991 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1146,6 +1146,10 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index e8cab1e..0df48b5 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1229,6 +1229,10 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index be86df5..9a2b6d7 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1211,6 +1211,10 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index c2f9599..c347281 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1543,6 +1543,10 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index cb6f2bd..c7616bf 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1573,6 +1573,10 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        // A borrow stored over a value smaller than C needs folding in first,
+        // or folding it below would only leave another one.
+        self.small_add_assign(0);
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From fa3ba68e62634f2a0c125f6363acea45eb7e11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 06/12] fix: keep the sign of the high part when reducing
 products mod 2^251 - 9

---
 src/field/mod_e251_9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 15997f4..d071f5e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -657,7 +657,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From 4e0b6352390567818843d6940ec5b26b6f27e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 07/12] fix: keep the sign of the high part when reducing
 products mod 2^222 - 117

---
 src/field/mod_e222_117.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 3596169..d9b9c46 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -629,7 +629,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
-- 
2.43.0


From 7f29b3abb959cc0c9f67617200bfac2802821388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 08/12] fix: give the neutral Edwards point the extended
 coordinate 0

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..0faa6cd 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -92,7 +92,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
-- 
2.43.0


From e19a20d11920f0f7c17b5594a4e18274db1d31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 09/12] fix: initialize the extended coordinate of an Edwards
 point to x * y

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 0faa6cd..58d681c 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -100,7 +100,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
+        self.t = x * y;
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From 7173f2ebcdca2c6485d4c77f39b942017468547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 10/12] fix: correct the sign in Edwards point tripling

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 58d681c..d93fcb0 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -193,7 +193,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0


From 67f7f529080fae129c157712083305ef69fe45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 11/12] fix: double the right accumulator in the Edwards scalar
 multiplication ladder

---
 src/curve/edwards.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index d93fcb0..f561d3b 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -130,9 +130,9 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             r0 += r1;
             r1 = r0;
 
-            // d0 = bit ? r0 : r1
-            d0.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // d0 = bit ? r1 : r0
+            d0.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             d0.normalized_bitor(&d1);
 
             // d0 *= 2
@@ -141,14 +141,14 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             // d1 = d0
             d1 = d0;
 
-            // r0 = bit ? d0 : r0
-            r0.normalized_bitand(&fmask);
-            d0.normalized_bitand(&tmask);
+            // r0 = bit ? r0 : d0
+            r0.normalized_bitand(&tmask);
+            d0.normalized_bitand(&fmask);
             r0.normalized_bitor(&d0);
 
-            // r1 = bit ? r1 : d1
-            r1.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // r1 = bit ? d1 : r1
+            r1.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             r1.normalized_bitor(&d1);
         }
 
-- 
2.43.0


From ac1dc3b281161444d78d1973d84ec8c17522729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 12/12] Add guarded access to Edwards point coordinates for
 verification (cfg verif_hooks)

---
 src/curve/edwards.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index f561d3b..70b556c 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -215,3 +215,19 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         out
     }
 }
+
+/// Access to the stored coordinates, for verification builds only
+/// (compiled with --cfg verif_hooks).
+#[cfg(verif_hooks)]
+impl<C: EdwardsCurve> EdwardsExtended<C> {
+    /// The stored extended coordinates (X, Y, Z, T).
+    pub fn verif_coords(&self) -> (C::Scalar, C::Scalar, C::Scalar, C::Scalar) {
+        (self.x, self.y, self.z, self.t)
+    }
+
+    /// A point with exactly the given extended coordinates.
+    pub fn verif_from_coords(x: C::Scalar, y: C::Scalar,
+                             z: C::Scalar, t: C::Scalar) -> Self {
+        EdwardsExtended { x: x, y: y, z: z, t: t }
+    }
+}
-- 
2.43.0

