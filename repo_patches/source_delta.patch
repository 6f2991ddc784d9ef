From e9f036eeba6762c83af80560368fcd333781f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 01/90] fix: exponent type of 8-bit and 64-bit holders, and
 overflow for large exponent sizes

Posits held in 8 bits kept exponents in 8 bits, which cannot hold the exponents of a float, and
64-bit holders with totalbits+esbits >= 64 did not compile. Shifts and products of the regime
scale were done in int.
---
 include/posit.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 665384a..4b7e90b 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -51,7 +51,9 @@ struct PositTrait
 	using POSIT_UTYPE = typename std::make_unsigned<T>::type;
 	static constexpr PositSpec positspec = positspec_;
 	static constexpr bool withnan = positspec_ != PositSpec::WithInf;
-	using exponenttype = typename std::conditional<(totalbits+esbits >= sizeof(T)*8),typename  nextinttype<T>::type,T>::type;
+	static_assert(esbits <= 55,"the exponent of the sum or product of two values has to fit 64 bits");
+	// holds the sum of two posit exponents and any exponent of the native floats (8 bits are too few, and 64 are enough)
+	using exponenttype = typename std::conditional<sizeof(T) != 8 && (sizeof(T) == 1 || totalbits+esbits >= sizeof(T)*8),typename  nextinttype<T>::type,T>::type;
 
 	//enum : POSIT_UTYPE {
 		static constexpr POSIT_UTYPE POSIT_MAXREGIME_BITS = totalbits-1;
@@ -69,7 +71,7 @@ struct PositTrait
 		static constexpr POSIT_UTYPE POSIT_SIGNBIT = (POIST_ONEHELPER<<(totalbits-1)); // bit
 		static constexpr POSIT_UTYPE POSIT_INVERTBIT = (POIST_ONEHELPER<<(totalbits-2));
 
-		static constexpr POSIT_STYPE POSIT_REG_SCALE = 1<<esbits;
+		static constexpr POSIT_STYPE POSIT_REG_SCALE = POSIT_STYPE(1)<<esbits;
 
 		// these are portable ways for representing 10000000 and the two adjacents numbers in 
 		// the posit circle
@@ -107,7 +109,7 @@ struct PositTrait
 		//static constexpr exponenttype maxexponent = withnan_ ? POSIT_REG_SCALE * (POSIT_SIZE - 3) : POSIT_REG_SCALE * (POSIT_SIZE - 2);  // sign+1st rs
 		//static constexpr exponenttype minexponent = (-((exponenttype)POSIT_REG_SCALE) * (POSIT_SIZE - 2))  // sign+1st rs
 
-		static constexpr exponenttype maxexponent() { return positspec_ == PositSpec::WithNanInf ? POSIT_REG_SCALE * (totalbits - 3) : POSIT_REG_SCALE * (totalbits - 2); }
+		static constexpr exponenttype maxexponent() { return ((exponenttype)POSIT_REG_SCALE) * (positspec_ == PositSpec::WithNanInf ? totalbits - 3 : totalbits - 2); }
 		static constexpr exponenttype minexponent() { return (-((exponenttype)POSIT_REG_SCALE) * (totalbits - 2)) ; }
 	//enum : exponenttype{
 	//};
@@ -166,7 +168,7 @@ struct PositTrait
     /// compiler note: it generate simply: shl and or
     static constexpr exponenttype join_reg_exp(POSIT_STYPE reg, POSIT_UTYPE exp)
     {
-    	return (((exponenttype)reg) * (1<<POSIT_ESP_SIZE))|exp;
+    	return (((exponenttype)reg) * POSIT_REG_SCALE)|exp;
     }
 };
 
-- 
2.43.0


From 55125729f4af8c1883b8f0ad1d27999163c7a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 02/90] fix: analyze() lost fraction bits when the fraction
 type is wider than the holder

The left-aligned fraction was shifted in the holder type; also avoid extracting 0 exponent bits
with a shift by the full width.
---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 4b7e90b..fef21bc 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -869,10 +869,10 @@ auto Posit<T,totalbits,esbits,FT,positspec>::analyze() -> info
         int reg = q.first;
         int rs = q.second;
         pars <<= rs; // MSB: ES FS
-        POSIT_UTYPE exp = bitset_leftmost_getT(pars,esbits);
+        POSIT_UTYPE exp = bitset_leftmost_get_const<POSIT_UTYPE,esbits>()(pars);
         pars <<= esbits; // output MSB: FS left aligned in T
         //std::cout << std::bitset<PT::POSIT_HOLDER_SIZE>(pars) << std::endl;
-        i.ifraction = sizeof(FT) >= sizeof(T) ? pars << (UT::FT_bits-PT::POSIT_HOLDER_SIZE) : pars >> (PT::POSIT_HOLDER_SIZE-UT::FT_bits); // output: FS left aligned in FT (larger or equal to T)
+        i.ifraction = cast_msb<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,FT,UT::FT_bits>()(pars); // output: FS left aligned in FT
     	i.exponent = PT::join_reg_exp(reg,exp);
     	i.exp = exp;
     	i.rs = rs;
-- 
2.43.0


From 88edad92f48fbc79ddc470cc48aec644e2fa4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:34 +0000
Subject: [PATCH 03/90] fix: Unpacked operator!= returned equality

For anything but NaN a != b was the same as a == b.
---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b794ebd..4c275c5 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -228,7 +228,7 @@ struct Unpacked
   constexpr bool operator!=(const Unpacked &u) const
   {
     // nan != nan ALWAYS
-    return type == NaN || u.type == NaN ? true : (*this == u);
+    return !(*this == u);
   }
 
   constexpr Unpacked operator-() const
-- 
2.43.0


From 2dae4ebcbadce1e4f6b29c132c03c03807cff631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:34 +0000
Subject: [PATCH 04/90] fix: negating an Unpacked zero, infinity or NaN gave a
 regular number

The kind was dropped, so -zero was -1, x-infinity was finite and so on.
---
 include/unpacked.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 4c275c5..7d9c0a1 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -233,7 +233,9 @@ struct Unpacked
 
   constexpr Unpacked operator-() const
   {
-    return Unpacked(exponent, fraction, !negativeSign);
+    return type == Regular
+               ? Unpacked(exponent, fraction, !negativeSign)
+               : Unpacked(type, type == Infinity ? !negativeSign : negativeSign);
   }
 
   CONSTEXPR14 Unpacked inv() const
-- 
2.43.0


From 51ce77dbc83ea6b7216b644744e3fbb488edf470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:34 +0000
Subject: [PATCH 05/90] fix: Unpacked operations lost a NaN second operand

a+NaN, a*NaN and a/NaN returned a.
---
 include/unpacked.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 7d9c0a1..ad2fb4d 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -329,7 +329,7 @@ struct Unpacked
     // UnpackedDualSel(*,NaN)
     // UnpackedDualSel(NaN,*)
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -391,7 +391,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator*(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -434,7 +434,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator/(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
 
     // 9 more cases
     switch (UnpackedDualSel(a.type, b.type))
-- 
2.43.0


From dbca98982f7390455ec8b1001d2fd14bf6a3d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:34 +0000
Subject: [PATCH 06/90] fix: Unpacked addition of numbers far apart shifted by
 more than the fraction width

The shift count wraps on x86, so 2^0 + 2^-64 with a 64-bit fraction was 2.
---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index ad2fb4d..b52344b 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -345,9 +345,9 @@ struct Unpacked
           (a.fraction >> 2); // denormalized and shifted right
       POSIT_LUTYPE bfrac1 = (FT_leftmost_bit >> 1) | (b.fraction >> 2);
       POSIT_LUTYPE afrac = dir < 0
-                               ? (afrac1 >> -dir)
+                               ? (-dir < FT_bits ? afrac1 >> -dir : 0)
                                : afrac1; // denormalized and shifted right
-      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (bfrac1 >> dir);
+      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (dir < FT_bits ? bfrac1 >> dir : 0);
 
       // 1.xxxx => 0.1xxxxx => 0.0k 1 xxxx
       //
-- 
2.43.0


From 4c9ab894ed88a820543e3fd55caa04a258b4feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:34 +0000
Subject: [PATCH 07/90] fix: a finite Unpacked number over infinity is zero

It was infinity.
---
 include/unpacked.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/unpacked.h b/include/unpacked.h
index b52344b..092aaf1 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -459,6 +459,7 @@ struct Unpacked
     case UnpackedDualSel(Infinity, Infinity):
       return nan();
     case UnpackedDualSel(Zero, Infinity):
+    case UnpackedDualSel(Regular, Infinity):
       return zero();
     case UnpackedDualSel(Zero, Regular):
     case UnpackedDualSel(Infinity, Zero):
-- 
2.43.0


From 37d3e622a852d70c205831e0e66752944a1bf9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 08/90] fix: Unpacked division and reciprocal halved the
 divisor and lost its last bit

The quotient could exceed the exact one, and overflow to half of it for adjacent operands
(e.g. (2^32-3)/(2^32-1) with a 32-bit fraction).
---
 include/unpacked.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 092aaf1..c25ad78 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -260,14 +260,15 @@ struct Unpacked
         //   exponent << std::endl;
         auto exp = -exponent;
 
+        auto q = nextintop<FT>::extradiv(((typename nextinttype<FT>::type)afrac) << FT_bits,bfrac);
         if (afrac < bfrac)
         {
+          // 0.1xxx: normalize the quotient, halving the divisor would drop its last bit
           exp--;
-          bfrac >>= 1;
+          q <<= 1;
         }
 
-        return Unpacked(exp, nextintop<FT>::extradiv(((typename nextinttype<FT>::type)afrac) << FT_bits,bfrac),
-            negativeSign);
+        return Unpacked(exp, q, negativeSign);
 
         // return one()/(*this);
       }
@@ -442,17 +443,12 @@ struct Unpacked
     case UnpackedDualSel(Regular, Regular):
     {
       POSIT_LUTYPE afrac = FT_leftmost_bit | (a.fraction >> 1);
-      POSIT_LUTYPE bfrac1 = FT_leftmost_bit | (b.fraction >> 1);
-      auto exp = a.exponent - b.exponent + (afrac < bfrac1 ? -1 : 0);
-      POSIT_LUTYPE bfrac = afrac < bfrac1 ? (bfrac1 >> 1) : bfrac1;
-      /*
-        if (afrac < bfrac) {
-            exp--;
-            bfrac >>= 1;
-        }
-        */
+      POSIT_LUTYPE bfrac = FT_leftmost_bit | (b.fraction >> 1);
+      auto exp = a.exponent - b.exponent + (afrac < bfrac ? -1 : 0);
+      auto q = nextintop<FT>::extradiv(((typename nextinttype<FT>::type)afrac) << FT_bits,bfrac);
 
-      return Unpacked(exp, nextintop<FT>::extradiv(((typename nextinttype<FT>::type)afrac) << FT_bits,bfrac),
+      // 0.1xxx: normalize the quotient, halving the divisor would drop its last bit
+      return Unpacked(exp, afrac < bfrac ? q << 1 : q,
           a.negativeSign ^ b.negativeSign);
     }
     case UnpackedDualSel(Zero, Zero):
-- 
2.43.0


From fa337612650801ce420e937493116de74ac2f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 09/90] fix: unpacking the lowest fixed-point value negated it
 in the signed type

---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index c25ad78..5875102 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -507,7 +507,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfixed(
     using UT = typename int_least_bits<sizeof(typename Trait::value_t)*8>::unsigned_type;
     type = Regular;
     negativeSign = nx < 0;
-    UT x = pcabs(nx);
+    UT x = nx < 0 ? UT(0) - UT(nx) : UT(nx); // the lowest value has no signed opposite
     const int p = Trait::totalbits - findbitleftmostC(x) - 1; // 31->0,0->31
     exponent = (p - Trait::fraction_bits);
     UT ux = p == 0 ? 0 : (x << (Trait::totalbits - p));
-- 
2.43.0


From b86a6fc4cfe18f37672ffe2911a06580e5a47498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 10/90] fix: packing fixed point saturated one power of two too
 late

Numbers in [2^(n-1),2^n) of an n-bit integer wrapped around the sign; and a number of the
smallest grid step was packed with a shift by the full width.
---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 5875102..b8f6637 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -650,7 +650,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     break;
   }
   constexpr int intbits = Trait::totalbits - Trait::fraction_bits;
-  if (exponent >= intbits)
+  if (exponent >= intbits - 1) // one of intbits is the sign
   {
     return negativeSign ? std::numeric_limits<typename Trait::value_t>::lowest()
                         : std::numeric_limits<typename Trait::value_t>::max();
@@ -677,7 +677,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     // - exponent==-Trait::fraction_bits ==> 1 | 0
     // - exponent==intbits-1 ==> 0x8000000 | (F >> 1)
     ST r = (ST(1) << (exponent + Trait::fraction_bits)) |
-           (ST)(f >> (intbits - exponent));
+           (ST)(exponent == -Trait::fraction_bits ? 0 : f >> (intbits - exponent));
     return negativeSign ? -r : r;
   }
 }
-- 
2.43.0


From fcc760b8996f4de83e43d189039a58f5dc6ddba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 11/90] fix: unpacking floats with a narrow fraction type lost
 NaNs and subnormals

NaNs with a small payload became infinity and small subnormals zero (or lost bits), because the
tests looked at the fraction already cut to FT.
---
 include/unpacked.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b8f6637..1e2902c 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -562,11 +562,15 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   //((POSIT_LUTYPE)bitset_getT(value,0,Trait::fraction_bits)) <<
   //(FT_bits-Trait::fraction_bits);
 
+  // the kind depends on all the stored fraction bits, FT could hold only some
+  const typename Trait::holder_t rawfraction =
+      bitset_getT(value, 0, Trait::fraction_bits);
+
   // stored exponent: 0, x, exponent_mask === 0, any, infinity
   // biased: -max, -max+1, ..., max, max+1 === 0, min, ..., max, infinity
   if (rawexp == ((1 << Trait::exponent_bits) - 1)) // AKA 128 for single
   {
-    if (fraction == 0)
+    if (rawfraction == 0)
     {
       type = Infinity;
     }
@@ -578,7 +582,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   else if (rawexp == 0)
   {
     // normalized
-    if (!Trait::with_denorm || fraction == 0)
+    if (!Trait::with_denorm || rawfraction == 0)
     {
       type = Zero;
       negativeSign = false; // don't care signed zero
@@ -586,9 +590,11 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
     // denormalized
     else
     {
-      int k = findbitleftmostC(fraction);
+      int k = findbitleftmostC(rawfraction) -
+              ((int)sizeof(typename Trait::holder_t) * 8 - Trait::fraction_bits);
       exponent -= k;
-      fraction <<= (k + 1);
+      fraction = cast_right_to_left<typename Trait::holder_t, Trait::fraction_bits,
+                                    FT, FT_bits>()(rawfraction << (k + 1));
       //std::cout << typeid(Trait).name() << "unpacking: denormalized (rawexp=0,fraction=" <<  (int)tmp << ") unpacked as  (exp=" << exponent << ",fraction=" << (int)fraction << ")"<< std::endl;
     }
   }
-- 
2.43.0


From 3be34107a01f19c79381851fd3a9744ac661e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 12/90] fix: packing floats never produced subnormals and
 treated negative underflow differently

The with_denorm test was inverted: formats with subnormals flushed to zero and formats without
them produced some. A negative number below the subnormals became the smallest subnormal while a
positive one became zero; both are now zero.
---
 include/unpacked.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 1e2902c..c7e46d1 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -628,7 +628,7 @@ struct fraction_bit_extract<abits, AT, bbits, BT, false, msb>
 {
   static constexpr BT packdenorm(AT fraction)
   {
-    return ((BT)(msb | (fraction >> 1)) << (bbits - abits));
+    return (((BT)1) << (bbits - 1)) | ((((BT)fraction) << (bbits - abits)) >> 1);
   }
 
   static constexpr BT pack(AT fraction)
@@ -722,7 +722,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   }
   else if (fexp < 1)
   {
-    if (Trait::with_denorm)
+    if (!Trait::with_denorm)
       return 0;
     else
     {
@@ -741,7 +741,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
                                        (FT_bits > Trait::fraction_bits),
                                        FT_leftmost_bit>::packdenorm(fraction);
       // use denormalization
-      ffracbits >>= -fexp;
+      ffracbits = -fexp < Trait::fraction_bits ? ffracbits >> -fexp : 0;
       //std::cout << typeid(Trait).name()<< "pack - denormalized (exp=" << exponent << ",fraction=" << (int)fraction << ") means rawexp=" << fexp << " results in fraction=" << (int)ffracbits << "\n";
     }
   }
@@ -757,11 +757,6 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   typename Trait::holder_t value =
       ffracbits | fexpbits | (negativeSign ? Trait::signbit : 0);
 
-  // don't underflow to zero?
-  if (value != 0 && (value << 1) == 0)
-  {
-    value++;
-  }
   return value;
 }
 
-- 
2.43.0


From 50504899dbdd6a8ed672bee544e60aefc4a98a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 13/90] fix: packing a posit outside the regime range or with
 the longest regimes

Regimes out of range (halving the smallest, doubling the largest, inverting the extremes) gave
arbitrary patterns instead of saturating, and 32 and 64-bit posits in a holder of the same size
shifted by the full width.
---
 include/posit.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index fef21bc..2234d50 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -718,6 +718,13 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::pack_low(UnpackedLow x)
 	auto exp = x.exp;
 	auto reg = x.regime;
 
+    // outside the regimes of the format: saturate
+    constexpr int maxreg = positspec == PositSpec::WithNanInf ? totalbits-3 : totalbits-2;
+    if(reg >= maxreg)
+    	return x.negativeSign ? PP::lowest() : PP::max();
+    if(reg <= -(totalbits-2))
+    	return PP(typename PP::DeepInit(),x.negativeSign ? PT::POSIT_BEFORE0 : PT::POSIT_AFTER0);
+
     // for reg>=0: 1 0[reg+1] => size is reg+2 
     // for reg <0: 0[-reg] 0  => size is reg+1
     auto rs = -reg+1 > reg+2 ? -reg+1:reg+2; //std::max(-reg + 1, reg + 2);  MSVC issue
@@ -727,7 +734,8 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::pack_low(UnpackedLow x)
     POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> -reg) : (PT::POSIT_MASK << (PT::POSIT_HOLDER_SIZE-(reg+1))); // reg+1 bits on the left
 	POSIT_UTYPE eexp = msb_exp<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,esbits,(esbits == 00)>()(exp);
 	POSIT_UTYPE fraction =  x.fraction;
-	POSIT_STYPE p = ((fraction >> (rs+es+1)) | (eexp >> (rs+1)) | (regbits>>1)) >> (sizeof(T)*8-totalbits);
+	// two shifts because rs+1 and rs+es+1 could be the whole size of the holder
+	POSIT_STYPE p = (((fraction >> 1) >> (rs+es)) | ((eexp >> 1) >> rs) | (regbits>>1)) >> (sizeof(T)*8-totalbits);
 	//std::cout << "incoming " << x << std::endl;
 	//std::cout << "fraction before " << std::bitset<sizeof(FT)*8>(x.fraction) << " and " << " after " << std::bitset<sizeof(POSIT_UTYPE)*8>(fraction) << " residual exponent " << exp << " from " << eexponent <<  " and regime " << reg << std::endl;
 	//std::cout << "output sign " << std::bitset<sizeof(T)*8>(p) << " then " << std::bitset<sizeof(T)*8>(-p) << std::endl; 
-- 
2.43.0


From 4c924791c60f9a29fa7275ad9f552eaf97914139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 14/90] fix: negation and absolute value of NaN (or the
 unsigned infinity)

Negating 100..0 leaves the format when the holder is wider than the posit and overflows when it is
not; it is its own opposite. std::abs did not compile.
---
 include/posit.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 2234d50..c536013 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -337,10 +337,10 @@ public:
 	/// absolute value
 	/// TODO: use (v ^ mask) - mask   OR (x+mask)^nasj
 	/// where int const mask = v >> sizeof(int) * CHAR_BIT - 1;
-	constexpr Posit abs()  const { return Posit(DeepInit(),pcabs(v));  }  // could be >= infinity because infinity is sign symmetric
+	constexpr Posit abs()  const { return Posit(DeepInit(),v == PT::_POSIT_TOP ? v : pcabs(v));  }  // could be >= infinity because infinity is sign symmetric
 
 	/// negation
-	constexpr Posit neg()  const { return Posit(DeepInit(),-v); }; 
+	constexpr Posit neg()  const { return Posit(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 
 	/// 1/x
 	CONSTEXPR14 Posit inv()  const;
@@ -911,8 +911,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
 	inline CONSTEXPR14 Posit<T,totalbits,esbits,FT,positspec> abs(Posit<T,totalbits,esbits,FT,positspec> z) 
 	{
-		using PP=Posit<T,totalbits,esbits,FT,positspec>;
-		return PP(PP::DeepInit(),pcabs(z.v));
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
-- 
2.43.0


From 015c5dc7cd4d10fb553dd84c49f1ea89ed8fb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 15/90] fix: reciprocal of zero and of the special values

The power-of-two shortcut also took zero, infinity and NaN (all with a null fraction): 1/0 was 0.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index c536013..a5ef3d0 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -600,7 +600,7 @@ template <class T, int totalbits, int esbits, class FT, PositSpec positspec>
 CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::inv() const -> Posit
 {
 	auto u = unpack_low();
-	if(u.fraction == 0)
+	if(u.type == UnpackedT::Regular && u.fraction == 0)
 	{
 		// 2^(R scale + E) with E unsigned
 		// becomes -R scale + (scale-E)
-- 
2.43.0


From 55a5dfb2cf4159e3780b8e4223a1f7a69f6e13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 16/90] fix: next() of the largest and of the lowest posit

next() left the finite range at the largest posit and did not move from the lowest one.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index a5ef3d0..4cf3dc3 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -353,7 +353,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr Posit next() const { return Posit(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr Posit next() const { return Posit(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
-- 
2.43.0


From 7c4ffd9d66e6405c25253c46ed97b1f6e3bd8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 17/90] fix: constant one half when the holder is wider than
 the posit

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 4cf3dc3..2b1d91a 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -92,7 +92,7 @@ struct PositTrait
 
 		// 1/2
 		// 00 1[esbits+1] 0[N-2-esbitis-1]
-		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (totalbits-esbits-1))) << (totalbits-3-esbits);
+		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (POSIT_HOLDER_SIZE-esbits-1))) << (totalbits-3-esbits);
 		
 		// max value below Infinity
 		// 1[holder-total] 1 0[total-1]
-- 
2.43.0


From 0b5cdfe2529cc5c77ed3d169ad65cb3de9edd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 18/90] fix: sigmoid and softplus shortcuts of negative posits

The sign extension in the holder was shifted into the result.
---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 2b1d91a..14541a7 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -478,10 +478,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
-- 
2.43.0


From 250a2e142f0419d54a9928c82e9cf8954b26f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:24 +0000
Subject: [PATCH 19/90] fix: conversions between Unpacked and half or other
 wrapped floats did not compile

---
 include/unpacked.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index c7e46d1..11413b4 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -173,8 +173,7 @@ struct Unpacked
     union {
       typename Trait::holder_t i;
       typename Trait::value_t f;
-    } uu;
-    uu.i = pack_xfloati<Trait>();
+    } uu = {pack_xfloati<Trait>()};
     return uu.f;
   }
 
@@ -300,10 +299,9 @@ struct Unpacked
                                                          // float2bits
   {
     union {
-      typename Trait::holder_t i;
       typename Trait::value_t f;
-    } uu;
-    uu.f = value;
+      typename Trait::holder_t i;
+    } uu = {value};
     return unpack_xfloati<Trait>(uu.i);
   }
 
-- 
2.43.0


From 5e0d85a1059cc5a7c169ef9229d013a01dabcf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:52 +0000
Subject: [PATCH 20/90] fix: softplus shortcut of the largest posit was
 infinity with signed infinities

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 14541a7..53bc119 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -481,7 +481,7 @@ public:
 	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
+	constexpr Posit pseudosoftplus() const { return v == PT::POSIT_MAXPOS ? *this : Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
-- 
2.43.0


From 44f9b5b2742c56a7a0a63b87625d4c1b06373bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:12 +0000
Subject: [PATCH 21/90] fix: Unpacked sums that cancel down to the last bit
 shifted by the whole fraction width

---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 11413b4..7646fda 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -98,7 +98,7 @@ struct Unpacked
     else
     {
       int k = findbitleftmostC(fraction);
-      return Unpacked(exponent - k, fraction << (k + 1), negativeSign);
+      return Unpacked(exponent - k, (fraction << k) << 1, negativeSign); // k+1 can be all the bits of FT
     }
   }
 
-- 
2.43.0


From 33532b3a6fcfb008b261e28f727716654a18d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:11 +0000
Subject: [PATCH 22/90] fix: convertfloats did not compile

---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 7646fda..6be8058 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -762,8 +762,8 @@ template <class SrcTrait, class DstTrait, class FT>
 constexpr typename DstTrait::holder_t convertfloats(
     typename SrcTrait::holder_t src)
 {
-  return Unpacked<typename largest_type<typename SrcTrait::holder_t,
-                                        typename DstTrait::holder_t>::type,
+  return Unpacked<largest_type<typename SrcTrait::holder_t,
+                               typename DstTrait::holder_t>,
                   int>::template make_floati<SrcTrait>(src)
       .template pack_xfloati<DstTrait>();
 }
-- 
2.43.0


From ac9762e2573f4bd3ef4c81b25be2a464c050fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 23/90] fix: construction of emulated floats from Unpacked did
 not compile

---
 include/anyfloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/anyfloat.hpp b/include/anyfloat.hpp
index 1c75a5d..b4808ed 100644
--- a/include/anyfloat.hpp
+++ b/include/anyfloat.hpp
@@ -60,7 +60,7 @@ public:
 	CONSTEXPR14 explicit anyfloat_emu(double d) : v(UnpackedT(d).template pack_xfloati<trait_t>()) {}
 	CONSTEXPR14 explicit anyfloat_emu(int i) : v(UnpackedT(i).template pack_xfloati<trait_t>()) {}
 	CONSTEXPR14 explicit anyfloat_emu(DeepInit, T x) : v(x) {} 
-	CONSTEXPR14 explicit anyfloat_emu(UnpackedT u) : v(u.template pack_floati<trait_t>) {}
+	CONSTEXPR14 explicit anyfloat_emu(UnpackedT u) : v(u.template pack_xfloati<trait_t>()) {}
 	//CONSTEXPR14 explicit anyfloat_emu(UnpackedLow u) : v(pack_low(u).v) {} 
 
 	constexpr UnpackedT unpack() const { return UnpackedT::template make_floati<trait_t>(v); }
-- 
2.43.0


From 78c51d00baeec76a284794cbc41b511a76c381ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 24/90] fix: iszero of the negative zero of emulated floats

---
 include/anyfloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/anyfloat.hpp b/include/anyfloat.hpp
index b4808ed..f3dce49 100644
--- a/include/anyfloat.hpp
+++ b/include/anyfloat.hpp
@@ -74,7 +74,7 @@ public:
 	//constexpr bool isNaN() const { return v ==  && v == trait_t::POSIT_NAN; } 
 	constexpr bool isnegative() const { return (v & trait_t::signbit) != 0; } //(v &POSIT_SIGNBIT) != 0; }
 	//constexpr bool isinfinity() const { return v == trait_t::POSIT_PINF || v == trait_t::POSIT_NINF; }
-	constexpr bool iszero() const { return v == 0; }
+	constexpr bool iszero() const { return (v & ~trait_t::signbit) == 0; } // both signs
 	//constexpr bool isone() const { return v == trait_t::POSIT_ONE; }
 	//constexpr anyfloat_emu prev() const { return anyfloat_emu(DeepInit(),v > trait_t::POSIT_MAXPOS || v <= trait_t::POSIT_MINNEG ? v : v-1); }
 	//constexpr anyfloat_emu next() const { return anyfloat_emu(DeepInit(),v <= trait_t::POSIT_MINNEG || v > trait_t::POSIT_MAXPOS ? v : v+1); }
-- 
2.43.0


From def845f433c7ac3dd7edf3025c6e92b49ac3f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 25/90] fix: half to float without hardware support returned
 the bit pattern as a number

---
 include/float16native32.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/float16native32.hpp b/include/float16native32.hpp
index a237046..72637f0 100644
--- a/include/float16native32.hpp
+++ b/include/float16native32.hpp
@@ -53,7 +53,7 @@ inline float float16nto32(float16n_t x)
 {	
 	// template <class SrcTrait, class DstTrait, class FT>
 	// constexpr DstTrait::holder_t convertfloats(SrcTrait::holder_t src)
-    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloati<single_trait>();
+    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloat<single_trait>();
 }
 
 // TODO: use optimized quicker version
-- 
2.43.0


From d62ef1653b5e078e9ce1a23ac23bfb09cbce4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 26/90] fix: posit8 constants two and one half follow the
 exponent size, NaN is not infinity

---
 include/posit8.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/posit8.hpp b/include/posit8.hpp
index 7881222..63e7389 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -71,14 +71,14 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x80) == 0; }
 	bool is_nan() const { return PT::withnan && v == PT::POSIT_NAN; }
-	bool is_infinity() const { return (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
+	bool is_infinity() const { return POSIT8_MODE != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
 	static posit8 max() { return posit8(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit8 min() { return posit8(DeepInit(),1); } //  ? -126 : -127
 	static posit8 one() { return posit8(DeepInit(),PT::POSIT_ONE); } // 0x40
 	static posit8 afterone() { return posit8(DeepInit(),PT::POSIT_ONE+1); } // 0x40
-	static posit8 two() { return posit8(DeepInit(),72); }
+	static posit8 two() { return posit8(DeepInit(),PT::POSIT_TWO); }
 	static posit8 zero() { return posit8(DeepInit(),0); }
-	static posit8 onehalf() { return posit8(DeepInit(),0x20); }
+	static posit8 onehalf() { return posit8(DeepInit(),PT::POSIT_HALF); }
 	static posit8 pinfinity() { return posit8(DeepInit(),PT::POSIT_PINF); } // ? 127: -128); }
 	static posit8 ninfinity() { return posit8(DeepInit(),PT::POSIT_NINF); } //,PT::withnan ?-127: -128); }
 	static posit8 nan() { return posit8(DeepInit(),PT::POSIT_NAN); } // withnan ?-128: 0); }
-- 
2.43.0


From 210a61e0e78a5a0337e94a7f73cb122f570d270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 27/90] fix: posit10 constants and infinity test follow the
 format

---
 include/posit10.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 42161f1..7468fa6 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -15,7 +15,7 @@
 #include <stdint.h>
 #include <iostream>
 
-#ifndef POSIT0_SPEC
+#ifndef POSIT10_SPEC
 #define POSIT10_SPEC
 #define POSIT10_ES 2
 #define POSIT10_MODE PositSpec::WithNan
@@ -72,17 +72,17 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x100) == 0; }
 	bool is_nan() const { return PT::withnan && v == -512; }
-	bool is_infinity() const { return PT::withnan ? (v == -511 || v == 511) : v == -512;}
-	static posit10 max() { return posit10(DeepInit(),PT::withnan ? 510 : 511); }
+	bool is_infinity() const { return POSIT10_MODE != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
+	static posit10 max() { return posit10(DeepInit(),PT::POSIT_MAXPOS); }
 	static posit10 min() { return posit10(DeepInit(),1); }
 	static posit10 one() { return posit10(DeepInit(),0x100); }
 	static posit10 afterone() { return posit10(DeepInit(),0x101); }
 	static posit10 zero() { return posit10(DeepInit(),0); }
-	static posit10 two() { return posit10(DeepInit(),288); }
-	static posit10 onehalf() { return posit10(DeepInit(),0x80); }
-	static posit10 pinfinity() { return posit10(DeepInit(),PT::withnan ? 511: -512); }
-	static posit10 ninfinity() { return posit10(DeepInit(),PT::withnan ?-511: -512); }
-	static posit10 nan() { return posit10(DeepInit(),PT::withnan ?-512: 0); }
+	static posit10 two() { return posit10(DeepInit(),PT::POSIT_TWO); }
+	static posit10 onehalf() { return posit10(DeepInit(),PT::POSIT_HALF); }
+	static posit10 pinfinity() { return posit10(DeepInit(),PT::POSIT_PINF); }
+	static posit10 ninfinity() { return posit10(DeepInit(),PT::POSIT_NINF); }
+	static posit10 nan() { return posit10(DeepInit(),PT::POSIT_NAN); }
 
 
 	friend bool operator<(const posit10 &a, const posit10 & b) { return a.v < b.v; }
-- 
2.43.0


From c0ed798dc63eafdc91fbee1004a59ed03df4e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 28/90] fix: negation and absolute value of the posit10 NaN
 left the format

---
 include/posit10.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 7468fa6..fb81cf2 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -97,7 +97,7 @@ public:
 	posit10 twice() const;
 	posit10 exp2() const { return posit10(DeepInit(),posit10ns::opexp2[uu()]); }
 	posit10 square() const { return posit10(DeepInit(),posit10ns::opsquare[uu()]); }
-	posit10 operator-() const { return posit10(DeepInit(),-v);  }
+	posit10 operator-() const { return posit10(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  }
 
 #if 0
 //	friend posit10 operator+(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),a.v<0? -posit10ns::opadd[(-a).uu()*1024+(-b).uu()] : posit10ns::opadd[a.uu()*1024+b.uu()]); }
@@ -162,7 +162,7 @@ namespace std
 {
 	inline posit10 abs(posit10 z) 
 	{
-		return posit10(posit10::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return posit10(posit10::DeepInit(),z.v < 0 && z.v != posit10::PT::_POSIT_TOP ? -z.v : z.v);
 	}
 
 	inline posit10 min(const posit10 &a, const posit10 & b)
-- 
2.43.0


From cdb58a3613ccc3560de5b39eecfe33f981dc134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 29/90] fix: posit10 to int overflowed for values out of the
 int range

---
 include/posit10.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index fb81cf2..444e00e 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -125,7 +125,7 @@ public:
 	operator FPT() const { return as_posit(); }
 	operator float() const { return uint32_to_float(posit10ns::op2float[uu()]); }
 	operator double() const { return (float)*this; }
-	operator int() const { return (float)*this; }
+	operator int() const { return (int)as_posit(); }
 
 	int16_t v;
 
-- 
2.43.0


From 96a548a51aa83915338535ef8daf6b831cef3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 30/90] fix: posit12 constants and infinity test follow the
 format

---
 include/posit12.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/posit12.hpp b/include/posit12.hpp
index 9a39672..3627830 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -65,15 +65,15 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x400) == 0; }
 	bool is_nan() const { return PT::withnan && v == -2048; }
-	bool is_infinity() const { return PT::withnan ? (v == -2047 || v == 2047) : v == -2048;}
+	bool is_infinity() const { return POSIT12_MODE != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
 	static posit12 max() { return posit12(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit12 min() { return posit12(DeepInit(),1); } //  ? -126 : -127
 	static posit12 one() { return posit12(DeepInit(),0x400); }
 	static posit12 afterone() { return posit12(DeepInit(),0x401); } // 0x40
-	static posit12 onehalf() { return posit12(DeepInit(),0x200); }
-	static posit12 pinfinity() { return posit12(DeepInit(),PT::withnan ? 2047: -2048); }
-	static posit12 ninfinity() { return posit12(DeepInit(),PT::withnan ?-2047: -2048); }
-	static posit12 nan() { return posit12(DeepInit(),PT::withnan ?-2048: 0); }
+	static posit12 onehalf() { return posit12(DeepInit(),PT::POSIT_HALF); }
+	static posit12 pinfinity() { return posit12(DeepInit(),PT::POSIT_PINF); }
+	static posit12 ninfinity() { return posit12(DeepInit(),PT::POSIT_NINF); }
+	static posit12 nan() { return posit12(DeepInit(),PT::POSIT_NAN); }
 
 	posit12 inv() const { return posit12(DeepInit(),posit12ns::opinv[uu()]); }
 	posit12 half() const;
-- 
2.43.0


From 590a807ce128075a3339da8dce4958e10b6edbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 31/90] fix: negation and absolute value of the posit12 NaN
 left the format

---
 include/posit12.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit12.hpp b/include/posit12.hpp
index 3627830..025c1b4 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -80,7 +80,7 @@ public:
 	posit12 twice() const;
 	posit12 exp2() const { return posit12(DeepInit(),posit12ns::opexp2[uu()]); }
 	posit12 square() const { return posit12(DeepInit(),posit12ns::opsquare[uu()]); }
-	posit12 operator-() const { return posit12(DeepInit(),-v);  }
+	posit12 operator-() const { return posit12(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  }
 
 	friend bool operator<(posit12 a, posit12 b) { return a.v < b.v; }
 	friend bool operator>(posit12 a, posit12 b) { return a.v > b.v; }
@@ -141,7 +141,7 @@ namespace std
 {
 	inline posit12 abs(posit12 z) 
 	{
-		return posit12(posit12::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return posit12(posit12::DeepInit(),z.v < 0 && z.v != posit12::PT::_POSIT_TOP ? -z.v : z.v);
 	}
 
 
-- 
2.43.0


From 6ddb933312dfacdabd13f3d6e59528f5db3d0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 32/90] fix: posit12 to int overflowed for values out of the
 int range

---
 include/posit12.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit12.hpp b/include/posit12.hpp
index 025c1b4..7f19d35 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -108,7 +108,7 @@ public:
 	operator FPT() const { return as_posit(); }
 	operator float() const { return uint32_to_float(posit12ns::op2float[uu()]); }
 	operator double() const  { return (double)(float)*this; }
-	operator int() const  { return (int)(float)*this; }
+	operator int() const  { return (int)as_posit(); }
 
 	int16_t v;
 
-- 
2.43.0


From 110040f56240db8b64b0883a3eab68c7ee76c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:11 +0000
Subject: [PATCH 33/90] fix: exp2 tables of large finite posits overflowed to
 NaN or zero, and rounded up near one

---
 src/posit10_gen.cpp | 4 +++-
 src/posit12_gen.cpp | 4 +++-
 src/posit8_gen.cpp  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/posit10_gen.cpp b/src/posit10_gen.cpp
index fbca1cb..8ba9a9f 100644
--- a/src/posit10_gen.cpp
+++ b/src/posit10_gen.cpp
@@ -3,6 +3,8 @@
  * Templated C++ Posit
  */
 #include <typeinfo>
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include "posit.h"
@@ -35,7 +37,7 @@ int main(int argc, char const *argv[])
         opsquare[i] = X(fx*fx).v;
         op2float[i] = fxq.i; 
         ophalf[i] = X(fx/2).v;
-        opexp2[i] = X(exp2(fx)).v;
+        opexp2[i] = X(std::isinf(fx) ? exp2(fx) : exp2(std::max(std::min((double)fx,1000.0),-1000.0))).v; // finite results saturate
     }
 
 	for(int16_t s1 = -512 ; s1 < 512; s1++)
diff --git a/src/posit12_gen.cpp b/src/posit12_gen.cpp
index c106030..d3e5f4a 100644
--- a/src/posit12_gen.cpp
+++ b/src/posit12_gen.cpp
@@ -3,6 +3,8 @@
  * Templated C++ Posit
  */
 #include <typeinfo>
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include "posit.h"
@@ -33,7 +35,7 @@ int main(int argc, char const *argv[])
         opinv[i] = x.inv().v;
         opsquare[i] = X(fx*fx).v;
         op2float[i] = fxq.i; 
-        opexp2[i] = X(exp2(fx)).v;
+        opexp2[i] = X(std::isinf(fx) ? exp2(fx) : exp2(std::max(std::min((double)fx,1000.0),-1000.0))).v; // finite results saturate
         //std::cout << "twice " << (X)(fx*2) << " half " << (X)(fx/2) << std::endl;
         /*
 		for(int j = 0; j < 4096; j++)
diff --git a/src/posit8_gen.cpp b/src/posit8_gen.cpp
index b7bbc90..b574dbc 100644
--- a/src/posit8_gen.cpp
+++ b/src/posit8_gen.cpp
@@ -3,6 +3,8 @@
  * Templated C++ Posit
  */
 #include <typeinfo>
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include "posit.h"
@@ -34,7 +36,7 @@ int main(int argc, char const *argv[])
         opsquare[i] = X(fx*fx).v;
         op2float[i] = fxq.i; 
         ophalf[i] = X(fx/2).v;
-        opexp2[i] = X(exp2(fx)).v;
+        opexp2[i] = X(std::isinf(fx) ? exp2(fx) : exp2(std::max(std::min((double)fx,1000.0),-1000.0))).v; // finite results saturate
         //std::cout << "twice " << (X)(fx*2) << " half " << (X)(fx/2) << std::endl;
     }
 
-- 
2.43.0


From 377f382ffad75c07f133995024228b91916548a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 34/90] fix: unpack_low, fma and *= of the float-backed posit
 did not compile

---
 include/positf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index e9462ee..d773ec4 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -36,7 +36,7 @@ public:
 	
 	CONSTEXPR14 UnpackedLow unpack_low() const 
 	{ 
-		return PPT(PPT::DeepInit(),v).unpack_low(); 
+		return PPT(typename PPT::DeepInit(),v).unpack_low(); 
 	}
 
 	static CONSTEXPR14 PositF pack_low(UnpackedLow u) 
@@ -113,12 +113,12 @@ public:
 
 	friend constexpr PositF fma(const PositF & a, const PositF & b, const PositF & c)
 	{
-		return PositF::pack_posit((FFT)a*(FFT)b+(FFT)c);
+		return PositF((FFT)a*(FFT)b+(FFT)c);
 	}
 
 	CONSTEXPR14 PositF & operator*= (const PositF & b)
 	{
-		*this = PositF::pack_posit((FFT)*this *(FFT)b);
+		*this = PositF((FFT)*this *(FFT)b);
 		return *this;
 	}
     friend constexpr PositF operator+(const PositF & a, const PositF & b)
-- 
2.43.0


From bfaf8834b5813bfc5ea53d112d269a0df07ae069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 35/90] fix: NaN of the float-backed posit was reported as
 infinity

---
 include/positf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/positf.h b/include/positf.h
index d773ec4..a7d2baa 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -93,7 +93,7 @@ public:
     constexpr bool hasNaN() const { return positspec != PositSpec::WithInf; }
 	constexpr bool isNaN() const { return positspec != PositSpec::WithInf && v == PT::POSIT_NAN; } 
 	constexpr bool isnegative() const { return v < 0; } //(v &POSIT_SIGNBIT) != 0; }
-	constexpr bool isinfinity() const { return v == PT::POSIT_PINF || v == PT::POSIT_NINF; }
+	constexpr bool isinfinity() const { return positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF); }
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-- 
2.43.0


From 55dc3dd2009223e1e2153a152ab313b6c4783510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 36/90] fix: next() of the largest and of the lowest
 float-backed posit

---
 include/positf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/positf.h b/include/positf.h
index a7d2baa..79fa8c5 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -97,7 +97,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr PositF next() const { return PositF(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr PositF next() const { return PositF(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
-- 
2.43.0


From 7df3e38c7ad517a2de274d843e80879b55ba5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 37/90] fix: negation and absolute value of NaN (or the
 unsigned infinity) of the float-backed posit

---
 include/positf.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index 79fa8c5..4b5cfdd 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -85,8 +85,8 @@ public:
 
 	constexpr UnpackedT unpack() const { return PPT(typename PPT::DeepInit(),v).unpack(); }
 
-	constexpr PositF abs()  const { return PositF(DeepInit(),(v < 0 ? -v : v));  }  // could be >= infinity because infinity is sign symmetric
-	constexpr PositF neg()  const { return PositF(DeepInit(),-v); }; 
+	constexpr PositF abs()  const { return PositF(DeepInit(),v == PT::_POSIT_TOP ? v : (v < 0 ? -v : v));  }  // could be >= infinity because infinity is sign symmetric
+	constexpr PositF neg()  const { return PositF(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 	PositF inv()  const { return PositF(1/(FFT)unpack());}
 
 	// SFINAE optionally: template<typename U = T, class = typename std::enable_if<withnan, U>::type>
@@ -228,8 +228,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
 	inline CONSTEXPR14 PositF<T,totalbits,esbits,FFT,positspec> abs(PositF<T,totalbits,esbits,FFT,positspec> z) 
 	{
-		using PP=PositF<T,totalbits,esbits,FFT,positspec>;
-		return PP(PP::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
-- 
2.43.0


From 7dbde9925a5451e38b1c6332cffc5b3dd2fb2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 38/90] fix: sigmoid and softplus shortcuts of negative
 float-backed posits

---
 include/positf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index 4b5cfdd..f611d32 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -158,10 +158,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr PositF pseudosoftplus() const { return v == PT::POSIT_MAXPOS ? *this : PositF(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
-- 
2.43.0


From e035cc901e843b63997a093402676f18d62c8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 39/90] fix: NaN of the float-backed posit compared equal to
 itself and below every number

---
 include/positf.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index f611d32..73236e7 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -66,13 +66,13 @@ public:
 
 	PositF() {}
 
-    friend constexpr bool operator == (const PositF & a, const PositF & u)  { return a.v == u.v; }
-    friend constexpr bool operator != (const PositF & a, const PositF & u)  { return a.v != u.v; }
-    friend constexpr bool operator < (const PositF & a, const PositF & u)  { return a.v < u.v; }
-    friend constexpr bool operator <= (const PositF & a, const PositF & u)  { return a.v <= u.v; }
+    friend constexpr bool operator == (const PositF & a, const PositF & u)  { return a.isNaN() || u.isNaN() ? false : a.v == u.v; }
+    friend constexpr bool operator != (const PositF & a, const PositF & u)  { return !(a == u); }
+    friend constexpr bool operator < (const PositF & a, const PositF & u)  { return a.isNaN() || u.isNaN() ? false : a.v < u.v; }
+    friend constexpr bool operator <= (const PositF & a, const PositF & u)  { return a.isNaN() || u.isNaN() ? false : a.v <= u.v; }
 
-    friend constexpr bool operator > (const PositF & a, const PositF & u)  { return a.v > u.v; }
-    friend constexpr bool operator >= (const PositF & a, const PositF & u)  { return a.v >= u.v; }
+    friend constexpr bool operator > (const PositF & a, const PositF & u)  { return a.isNaN() || u.isNaN() ? false : a.v > u.v; }
+    friend constexpr bool operator >= (const PositF & a, const PositF & u)  { return a.isNaN() || u.isNaN() ? false : a.v >= u.v; }
 
     static constexpr PositF ldexp(const PositF & u, int exp); // exponent product
 
-- 
2.43.0


From a129452ae428bff5abb388a471a35184d9a7e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 40/90] fix: the default float-backed posit was uninitialised

---
 include/positf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/positf.h b/include/positf.h
index 73236e7..a6bf7da 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -64,7 +64,7 @@ public:
 		return unpacked_low2full(x.unpack_low());
 	}
 
-	PositF() {}
+	constexpr PositF() : v(0) {}
 
     friend constexpr bool operator == (const PositF & a, const PositF & u)  { return a.isNaN() || u.isNaN() ? false : a.v == u.v; }
     friend constexpr bool operator != (const PositF & a, const PositF & u)  { return !(a == u); }
-- 
2.43.0


From 142569a3834b326450cd1fe8853f50db27b5a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 41/90] fix: the tabulated 8-bit float ignored the number it is
 constructed from

---
 src/binary8.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/binary8.cpp b/src/binary8.cpp
index c36d481..42c6e00 100644
--- a/src/binary8.cpp
+++ b/src/binary8.cpp
@@ -4,15 +4,18 @@
  * Emanuele Ruffaldi 2017
  */
 #include "binary8.hpp"
+#include "unpacked.h"
 
-binary8tab::binary8tab(int a)
+using UnpackedT=Unpacked<uint32_t,binary8tab::exponenttype>;
+
+binary8tab::binary8tab(int a): v(UnpackedT(a).pack_xfloati<trait_t>())
 {
 }
 
-binary8tab::binary8tab(float a)
+binary8tab::binary8tab(float a): v(UnpackedT(a).pack_xfloati<trait_t>())
 {
 }
 
-binary8tab::binary8tab(double a) 
+binary8tab::binary8tab(double a): v(UnpackedT(a).pack_xfloati<trait_t>())
 {
 }
-- 
2.43.0


From 1d57bd8ce8d61f6044a52ed416619376b3884811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 42/90] fix: negation of the tabulated 8-bit float negated its
 pattern as an integer

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index ac042df..141efdb 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -90,7 +90,7 @@ public:
 	binary8tab twice() const;
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
-	binary8tab operator-() const { return binary8tab(DeepInit(),-v);  }
+	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
 
 	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
 	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-- 
2.43.0


From 136086cbf61a770528a56756a96556db65ba8f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 43/90] fix: comparisons of the tabulated 8-bit float compared
 the patterns, wrong for negative numbers

---
 include/binary8.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index 141efdb..f66384b 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -92,12 +92,12 @@ public:
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
 	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
 
-	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
-	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-	friend bool operator<=(binary8tab a, binary8tab b) { return a.v <= b.v;}
-	friend bool operator>=(binary8tab a, binary8tab b) { return a.v >= b.v; }
-	friend bool operator==(binary8tab a, binary8tab b) { return a.v == b.v; }
-	friend bool operator!=(binary8tab a, binary8tab b) { return a.v !=b.v; }
+	friend bool operator<(binary8tab a, binary8tab b) { return (float)a < (float)b; }
+	friend bool operator>(binary8tab a, binary8tab b) { return (float)a > (float)b; }
+	friend bool operator<=(binary8tab a, binary8tab b) { return (float)a <= (float)b;}
+	friend bool operator>=(binary8tab a, binary8tab b) { return (float)a >= (float)b; }
+	friend bool operator==(binary8tab a, binary8tab b) { return (float)a == (float)b; }
+	friend bool operator!=(binary8tab a, binary8tab b) { return (float)a != (float)b; }
 
 	friend binary8tab operator+(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opadd[a.uu()*256+b.uu()]); }
 	friend binary8tab operator*(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opmul[a.uu()*256+b.uu()]); }
-- 
2.43.0


From 0269f874048a2cb4d3ff4c1a7ba5bf9a8bb6bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:00 +0000
Subject: [PATCH 44/90] fix: twice() of the tabulated 8-bit float was never
 defined

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index f66384b..0c39b52 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -87,7 +87,7 @@ public:
 
 	binary8tab inv() const { return binary8tab(DeepInit(),binary8ns::opinv[uu()]); }
 	binary8tab half() const { return binary8tab(DeepInit(),binary8ns::ophalf[uu()]);}
-	binary8tab twice() const;
+	binary8tab twice() const { return binary8tab(DeepInit(),binary8ns::opadd[uu()*256+uu()]); }
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
 	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
-- 
2.43.0


From 89cf972a9227fb3b3c11ff76ceb258a0e96dd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 45/90] fix: negation of the vector posit gave the absolute
 value

---
 include/simdposit8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index e7f3fb5..8f0bbe4 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -96,7 +96,7 @@ public:
 
 	this_t exp2() const { return this_t(lookup1(v,posit8ns::opexp2)); }
 	this_t square() const { return this_t(lookup1(v,posit8ns::opsquare)); }
-	this_t operator-() const { return this_t(_mm256_sign_epi8 (v,v)); }
+	this_t operator-() const { return this_t(_mm256_sub_epi8(_mm256_setzero_si256(),v)); }
 
 
 	friend this_t operator+(this_t a, this_t b) { return this_t(lookup2(a.uu(),b.uu(),posit8ns::opadd)); }
-- 
2.43.0


From 41571747f13585ca58c018bb84bf5adc34b16b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 46/90] fix: the vector posit was built for another format than
 the tables it uses

---
 include/simdposit8.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index 8f0bbe4..740b678 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -18,8 +18,8 @@
 
 #ifndef POSIT8_SPEC
 #define POSIT8_SPEC
-#define POSIT8_ES 2
-#define POSIT8_NAN PositSpec::WithNan
+#define POSIT8_ES 0
+#define POSIT8_MODE  PositSpec::WithNan
 #endif
 
 #include "posit.h"
@@ -71,7 +71,7 @@ public:
 
 	using this_t=simd_posit8_32;
 	using cmpresult=__m256i;
-	using FPT=Posit<int8_t,8,POSIT8_ES,uint16_t,POSIT8_NAN>;
+	using FPT=Posit<int8_t,8,POSIT8_ES,uint16_t,POSIT8_MODE>;
 	using PT=typename FPT::PT;
 	using FT=uint16_t;
 	using base_t=FPT;
-- 
2.43.0


From f2ad208e7d8da9c59ef8f3f7b0c822ba71101a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:24 +0000
Subject: [PATCH 47/90] fix: NaN and infinity tests of the vector posit follow
 the format

---
 include/simdposit8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index 740b678..ec594e7 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -87,8 +87,8 @@ public:
 
 	cmpresult is_negative() const { return (_mm256_cmpgt_epi8(_mm256_set1_epi8(0),v)); }
 	cmpresult has_neg_exponent() const { return (_mm256_cmpeq_epi8(_mm256_set1_epi8(0),_mm256_and_si256 (_mm256_set1_epi8(0x40),v))); } //   (v & 0x40) == 0; }
-	cmpresult is_nan() const { return (_mm256_cmpeq_epi8(_mm256_set1_epi8(-128),v)); }
-	cmpresult is_infinity() const { return PT::withnan ? (_mm256_or_si256(  _mm256_cmpeq_epi8(_mm256_set1_epi8(-127),v), _mm256_cmpeq_epi8(_mm256_set1_epi8(127),v))) : (_mm256_cmpeq_epi8(_mm256_set1_epi8(-128),v));}
+	cmpresult is_nan() const { return PT::withnan ? _mm256_cmpeq_epi8(_mm256_set1_epi8(PT::POSIT_NAN),v) : _mm256_setzero_si256(); }
+	cmpresult is_infinity() const { return POSIT8_MODE != PositSpec::WithNan ? _mm256_or_si256(_mm256_cmpeq_epi8(_mm256_set1_epi8(PT::POSIT_PINF),v), _mm256_cmpeq_epi8(_mm256_set1_epi8(PT::POSIT_NINF),v)) : _mm256_setzero_si256();}
 
 	this_t inv() const { return this_t(lookup1(v,posit8ns::opinv)); }
 	this_t half() const { return *this / simd_posit8_32(2); }
-- 
2.43.0


From 1cd25d987e6af5bec1d97ba909627a01877cc071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:12 +0000
Subject: [PATCH 48/90] fix: floats of the vector posit were stored through a
 uint32_t pointer and lost when optimised

---
 src/simdposit8.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simdposit8.cpp b/src/simdposit8.cpp
index c072f4f..fd24172 100644
--- a/src/simdposit8.cpp
+++ b/src/simdposit8.cpp
@@ -73,10 +73,9 @@ simd_posit8_32::operator std::array<float,32>() const
 #else
 	alignas(__m256i) uint8_t idata[32]; // uint8 if using table
 	_mm256_store_si256((__m256i*)idata,v);
-	uint32_t * pp = (uint32_t*)&r[0];
 	for(int i = 0; i < 32; i++)
 	{
-		pp[i] = posit8ns::op2float[idata[i]];
+		r[i] = uint32_to_float(posit8ns::op2float[idata[i]]);
 	}
 #endif
 	return r;
-- 
2.43.0


From 84e6d562b572fed8615d345d3d67b23926acfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 49/90] fix: products and quotients could not be constant
 expressions

---
 include/typehelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/typehelpers.hpp b/include/typehelpers.hpp
index 8c2fbc0..f9194d1 100644
--- a/include/typehelpers.hpp
+++ b/include/typehelpers.hpp
@@ -282,12 +282,12 @@ struct nextinttype<int8_t>
 template <class T>
 struct nextintop
 {
-	static inline typename   nextinttype<T>::type extramul(T a, T b)
+	static constexpr typename   nextinttype<T>::type extramul(T a, T b)
 	{
 		return ((typename nextinttype<T>::type)a)*b;
 	}
 
-	static inline typename  nextinttype<T>::type extradiv(typename nextinttype<T>::type a, T b)
+	static constexpr typename  nextinttype<T>::type extradiv(typename nextinttype<T>::type a, T b)
 	{
 		return (a/b);
 	}
-- 
2.43.0


From 5c4a33ee2b3fb971162c299fd405d58db7ec5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 50/90] fix: construction from the bits of a float could not be
 a constant expression

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 53bc119..8506ff5 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -315,7 +315,7 @@ public:
 
 	constexpr Posit() : v(0) {}
 
-	CONSTEXPR14 explicit Posit(single_tag t, uint32_t p) { v = pack_posit<T,totalbits,esbits,FT,positspec>(UnpackedT(t,p)).v; }
+	CONSTEXPR14 explicit Posit(single_tag t, uint32_t p) : v(pack_posit<T,totalbits,esbits,FT,positspec>(UnpackedT(t,p)).v) {}
 
     /// construct passing the holding type x
 	CONSTEXPR14 explicit Posit(DeepInit, T x) : v(x) {} 
-- 
2.43.0


From 263cf100876199a6e983779d04a302ebb3533a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:10 +0000
Subject: [PATCH 51/90] fix: a deferred product (POSITMUL) can be converted
 explicitly to its posit

---
 include/posit.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/posit.h b/include/posit.h
index 8506ff5..c92186b 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -326,6 +326,11 @@ public:
 	/// construct from fully unpacked floating (s,e,F)
 	CONSTEXPR14 explicit Posit(UnpackedT u) : v(pack_posit<T,totalbits,esbits,FT,positspec>(u).v) {} 
 
+#ifdef POSITMUL
+	/// construct from a deferred product
+	CONSTEXPR14 explicit Posit(const PositMul & m) : v(m.asPosit().v) {}
+#endif
+
 #ifndef FPGAHLS
     CONSTEXPR14 explicit Posit(float f): Posit(UnpackedT(f)) {}
 	CONSTEXPR14 explicit Posit(double d): Posit(UnpackedT(d)) {}
-- 
2.43.0


From f484b4ca1e13a10e2b9ab7421aca9f97dc6f803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:10 +0000
Subject: [PATCH 52/90] fix: hexadecimal insertion prints the raw value of an
 8-bit posit as a number

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index c92186b..5616c04 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -582,7 +582,7 @@ std::ostream & operator << (std::ostream & ons, Posit<T,totalbits,esbits,FT,posi
 	ons.setf(std::ios::dec, std::ios::basefield);
 	if(f == std::ios::hex)
 	{
-		ons << o.v;
+		ons << typename printableinttype<const T>::type(o.v);
 	}
 	else if(f == std::ios::dec)
 	{
-- 
2.43.0


From d67c2c687c8b1a72e33d086aa34d582f6193fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:04 +0000
Subject: [PATCH 53/90] fix: casting an Eigen matrix of posits to unpacked
 numbers compiles

---
 include/positeigen.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/positeigen.h b/include/positeigen.h
index 4134177..58d302c 100644
--- a/include/positeigen.h
+++ b/include/positeigen.h
@@ -81,6 +81,14 @@ namespace internal {
   template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
       inline typename Posit<T,totalbits,esbits,FT,positspec>::UnpackedT cast(const Posit<T,totalbits,esbits,FT,positspec>& x)
     { return x.unpack(); }
+
+  // what Matrix::cast uses: a plain static_cast from the posit would be ambiguous
+  template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
+  struct cast_impl<Posit<T,totalbits,esbits,FT,positspec>, Unpacked<FT,typename PositTrait<T,totalbits,esbits,positspec>::exponenttype> >
+  {
+    static inline Unpacked<FT,typename PositTrait<T,totalbits,esbits,positspec>::exponenttype> run(const Posit<T,totalbits,esbits,FT,positspec>& x)
+    { return x.unpack(); }
+  };
 }
 
 #if 0
-- 
2.43.0


From 1d5e109b6382eea948c4043f5bd1eaaffa56548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 54/90] fix: the posit lister compiles

---
 src/listposits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/listposits.cpp b/src/listposits.cpp
index 62790c4..9c54664 100644
--- a/src/listposits.cpp
+++ b/src/listposits.cpp
@@ -125,7 +125,7 @@ void print1(std::ostream &ons,X x, const char * format,bool binaryoutput)
                 {
                     case 'i': ons << c<<pt(i) ;  break;
                     case 'o': ons << c<<pt(u) ;  break;
-                    case 'p': ons << c<<posit_formatter<X>(x) ; break;
+                    case 'p': ons << c<<x ; break;
                     case 'b': ons <<c << std::bitset<X::vtotalbits>(i); break;            
                     case 'k': ons << c << std::dec << pt(l.regime) ;  break;
                     case 'r': ons << c << pow(2,PT::POSIT_REG_SCALE*pt(l.regime)) ;  break;
-- 
2.43.0


From 5cbbd68f9876fe9208b29b81fa3045743a0b271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 55/90] fix: the heading of the posit lister shows the
 constants and not integers

---
 src/listposits.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/listposits.cpp b/src/listposits.cpp
index 9c54664..589e69f 100644
--- a/src/listposits.cpp
+++ b/src/listposits.cpp
@@ -258,8 +258,9 @@ int listpositsT(const char * format)
             std::cout << "without signed infinity and NaN" << std::endl;
             std::cout << "infinity "  << (typename printableinttype<typename X::value_t>::type)(X::PT::POSIT_PINF) << " " << std::bitset<sizeof(typename X::value_t)*8>(X::PT::POSIT_PINF)  << std::endl;
         }
-        std::cout   << " half=" << (double)X(X::PT::POSIT_HALF) << " twice=" <<  (double)X(X::PT::POSIT_TWO) <<std::endl;
-        std::cout   << " min=" << (double)X(X::PT::POSIT_MINNEG) << " " << (std::bitset<X::vtotalbits>(X::PT::POSIT_MINNEG)) <<  " max=" << X(X::PT::POSIT_MAXPOS)  <<std::endl;
+        using DI = typename X::DeepInit; // the constants are bit patterns
+        std::cout   << " half=" << (double)X(DI(),X::PT::POSIT_HALF) << " twice=" <<  (double)X(DI(),X::PT::POSIT_TWO) <<std::endl;
+        std::cout   << " min=" << (double)X(DI(),X::PT::POSIT_MINNEG) << " " << (std::bitset<X::vtotalbits>(X::PT::POSIT_MINNEG)) <<  " max=" << X(DI(),X::PT::POSIT_MAXPOS)  <<std::endl;
 
         /*
         {
-- 
2.43.0


From 9565316f5e8abcd83adbe8c1910b3d1004d69d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 56/90] fix: the unsigned column of the posit lister is
 unsigned and has a title

---
 src/listposits.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/listposits.cpp b/src/listposits.cpp
index 589e69f..39a044e 100644
--- a/src/listposits.cpp
+++ b/src/listposits.cpp
@@ -113,7 +113,8 @@ void print1(std::ostream &ons,X x, const char * format,bool binaryoutput)
     using PTS = typename PT::POSIT_STYPE;
     using pt = typename printableinttype<typename X::value_t>::type;
     PTS i = x.v;
-    PTU u = *(PTU*)&i;
+    using ptu = typename printableinttype<PTU>::type;
+    PTU u = (PTU)i & PT::POSIT_MASK; // only the bits of the posit
         auto up(x.unpack()); // unpack it OK
         auto l(x.unpack_low()); // unpack it OK
         if(!binaryoutput)
@@ -124,7 +125,7 @@ void print1(std::ostream &ons,X x, const char * format,bool binaryoutput)
                 switch(*p0)
                 {
                     case 'i': ons << c<<pt(i) ;  break;
-                    case 'o': ons << c<<pt(u) ;  break;
+                    case 'o': ons << c<<ptu(u) ;  break;
                     case 'p': ons << c<<x ; break;
                     case 'b': ons <<c << std::bitset<X::vtotalbits>(i); break;            
                     case 'k': ons << c << std::dec << pt(l.regime) ;  break;
@@ -147,7 +148,7 @@ void print1(std::ostream &ons,X x, const char * format,bool binaryoutput)
                 switch(*p0)
                 {
                     case 'i':                         q = pt(i) ;  break;
-                    case 'o':                         q = pt(u) ;  break;
+                    case 'o':                         q = ptu(u) ;  break;
                     case 'p': q = 0 ; break;
                     case 'b': q=0; break;            
                     case 'k': q= pt(l.regime) ;  break;
@@ -302,6 +303,7 @@ int listpositsT(const char * format)
             switch(*p0)
             {
                 case 'i': std::cout << c<<"signed_int" ;  break;
+                case 'o': std::cout << c<<"unsigned_int" ; break;
                 case 'p': std::cout << c<<"posit" ; break;
                 case 'b': std::cout <<c << "bits"; break;            
                 case 'k': std::cout << c << "k";  break;
-- 
2.43.0


From 295db530c57519b2ffb84be41f9a24a76460b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 57/90] fix: posit8::has_neg_exponent tests the bit below the
 sign

---
 include/posit8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit8.hpp b/include/posit8.hpp
index 63e7389..2ae0491 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -69,7 +69,7 @@ public:
 	explicit posit8(UnpackedT u) : v(FPT(u).v) {}
 
 	bool is_negative() const { return v < 0; }
-	bool has_neg_exponent() const { return (v & 0x80) == 0; }
+	bool has_neg_exponent() const { return (v & 0x40) == 0; }
 	bool is_nan() const { return PT::withnan && v == PT::POSIT_NAN; }
 	bool is_infinity() const { return POSIT8_MODE != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
 	static posit8 max() { return posit8(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
-- 
2.43.0


From 6fcc1c93b0c1b064bd03745529037b7d194de83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 58/90] fix: bitmask of no bits does not shift by the whole
 width

---
 include/bithippop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index e3606fe..396d0ea 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -64,7 +64,7 @@
 template <typename R>
 constexpr R bitmask(unsigned int const onecount)
 {
-	return static_cast<R>(-(onecount != 0)) & (static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
+	return onecount == 0 ? R(0) : static_cast<R>(static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
 }
 
 template <typename T>
-- 
2.43.0


From 5dd64f9b8991ec5b1cb8be5cc7a73a153fc35b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 59/90] fix: bitset_part clears the field it replaces and not
 the lowest bits

---
 include/bithippop.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index 396d0ea..2673a36 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -152,14 +152,14 @@ inline int findbitleftmost(uint32_t input)
 template <class T, class Y, int offset, int size>
 constexpr T bitset_part(T input, Y value)
 {
-	return (input & ~bitmask<T>(size)) | ((value & bitmask<T>(size)) << offset);
+	return (input & ~(bitmask<T>(size) << offset)) | ((value & bitmask<T>(size)) << offset);
 }
 
 template <class T, class Y>
 CONSTEXPR14 T bitset_part(T input, Y value, int offset, int size)
 {
 	auto M = bitmask<T>(size);
-	return (input & ~M) | ((value & M) << offset);
+	return (input & ~(M << offset)) | ((value & M) << offset);
 }
 
 template <class T, int offset, int size>
-- 
2.43.0


From c5debae1dc9dca78dee54b5ba1decc05e79a5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 60/90] fix: bitset_get of 8 and 64 bit words compiles with BMI

---
 include/bithippop.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index 2673a36..2e86194 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -175,12 +175,15 @@ CONSTEXPR14 T bitset_get(T input, int offset, int size)
 	return (input >> offset) & M;
 }
 #if defined(__is_x86_any__) && !defined(FPGAHLS) && defined(__BMI__)
-/* CSIM
 inline uint64_t bitset_gethw(uint64_t input, int offset, int size)
 {
 	return _bextr_u64(input, offset, size);
 }
-*/
+
+inline uint8_t bitset_gethw(uint8_t input, int offset, int size)
+{
+	return _bextr_u32(input, offset, size);
+}
 
 inline uint16_t bitset_gethw(uint16_t input, int offset, int size)
 {
-- 
2.43.0


From 25408fc59ee78d84c98ffdc66572ab9415985584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 61/90] fix: printing an unpacked number leaves the base of the
 stream as it was

---
 include/unpacked.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/unpacked.h b/include/unpacked.h
index 6be8058..b83024a 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -471,6 +471,8 @@ struct Unpacked
     switch (o.type)
     {
     case Unpacked::Regular:
+    {
+      auto af = ons.flags();
       ons << "up(" << (o.negativeSign ? "-" : "+")
           << " exp (dec) = " << std::dec
           << typename printableinttype<const ET>::type(o.exponent)
@@ -478,7 +480,9 @@ struct Unpacked
           << typename printableinttype<const FT>::type(o.fraction)
           << " (bin) = " << std::dec
           << (std::bitset<sizeof(o.fraction) * 8>(o.fraction)) << ")";
+      ons.flags(af);
       break;
+    }
     case Unpacked::Infinity:
       ons << (o.negativeSign ? "up(-infinity)" : "up(+infinity)");
       break;
-- 
2.43.0


From 0b3ffac365580f00f2812554c809f7f2f064a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 62/90] fix: printing a tabulated 8-bit float shows its pattern
 as a number

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index 0c39b52..c9feed4 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -168,6 +168,6 @@ namespace std
 
 inline std::ostream & operator << (std::ostream & ons, const binary8tab & p)
 {
-	ons << "binary8tab(" << p.v << ")" ;
+	ons << "binary8tab(" << p.uu() << ")" ;
 	return ons;
 }
\ No newline at end of file
-- 
2.43.0


From 65bdd66e1a4cb1d3f875e3489cfe903d92058ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:00 +0000
Subject: [PATCH 63/90] fix: binary8.hpp and posit.h can be included together

---
 include/binary8.hpp | 3 ++-
 include/posit.h     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index c9feed4..e63e33d 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -24,7 +24,8 @@
 
 #include "floattraits.hpp"
 
-#ifndef FPGAHLS
+#if !defined(FPGAHLS) && !defined(POSIT_UINT32_TO_FLOAT)
+#define POSIT_UINT32_TO_FLOAT
 inline float uint32_to_float(uint32_t i)
 {
 	union {
diff --git a/include/posit.h b/include/posit.h
index 5616c04..6ee4ca3 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -16,7 +16,8 @@ X::PT::decode_posit_rs(1)
 #pragma once
 #include "unpacked.h"
 
-#ifndef FPGAHLS
+#if !defined(FPGAHLS) && !defined(POSIT_UINT32_TO_FLOAT)
+#define POSIT_UINT32_TO_FLOAT
 inline float uint32_to_float(uint32_t i)
 {
 	union {
-- 
2.43.0


From 3a17dafd0afc41a0dceb2fa4df89ccf5a6a3bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 64/90] fix: punum: rationals are looked up exactly, not
 through a float

---
 scripts/punum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index 146bf77..acc7b47 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -71,7 +71,7 @@ class Alphabet:
             if x < 1 or x <= last:
                 raise Exception("Alphabet should be of monotonic >= 1 got %s before %s" % (last,x))
             last = x
-        self.eexacts = eexacts
+        self.eexacts = [fractions.Fraction(x) if isinstance(x,numbers.Rational) else x for x in eexacts]
         self.n = len(eexacts) 
         self.n2 = (len(eexacts)<<3)  # number of points
         # e.g. for having 32bits we need 2^29 exact points (!) 
@@ -105,7 +105,7 @@ class Alphabet:
         return Pnum(self,x & self.mask) # & self.pnmod(,
     def convert(self,value):
         if isinstance(value,numbers.Rational):
-            return self._searchvalue(float(value))
+            return self._searchvalue(fractions.Fraction(value))
         else:
             if cmath.isinf(value):
                 return self.inf()
-- 
2.43.0


From 9edd8ebf5a32aeab041721e3577e505d4789f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 65/90] fix: punum: the upper end of an open sum or product is
 the interval below it

---
 scripts/punum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index acc7b47..3c01785 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -293,7 +293,7 @@ class Pnum:
         z2 = x2._exacttimes(y2)
         #z1 = (!bothexact && isexact(z1)) ? nextpnum(z1) : z1
         z1 = z1.next() if (not abe and z1.isexact()) else z1
-        z2 = z2.next() if (not abe and z2.isexact()) else z2
+        z2 = z2.prev() if (not abe and z2.isexact()) else z2
         return Pbound(z1,z2)
     def slowtwice(self):
         ai = self.isinf()
@@ -336,7 +336,7 @@ class Pnum:
         z2 = x2._exactplus(y2)
         #z1 = (!bothexact && isexact(z1)) ? nextpnum(z1) : z1
         z1 = z1.next() if (not abe and z1.isexact()) else z1
-        z2 = z2.next() if (not abe and z2.isexact()) else z2
+        z2 = z2.prev() if (not abe and z2.isexact()) else z2
         return Pbound(z1,z2)
     def exactvalue(self):
         # zero, infinity are special
-- 
2.43.0


From 2400a13191b788c95e416e87fd43cb35cdc96502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 66/90] fix: punum: a negative operand swaps the ends of the
 other one in a product

---
 scripts/punum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index 3c01785..0e80cc2 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -285,10 +285,11 @@ class Pnum:
         y = other
         x1,x2 = (x,x) if ae else (x.prev(),x.next())
         y1,y2 = (y,y) if be else (y.prev(),y.next())
+        # a negative operand reverses the order of the other one
         if x.isstrictlynegative():
-            x1,x2 = x2,x1
-        if y.isstrictlynegative():
             y1,y2 = y2,y1
+        if y.isstrictlynegative():
+            x1,x2 = x2,x1
         z1 = x1._exacttimes(y1)
         z2 = x2._exacttimes(y2)
         #z1 = (!bothexact && isexact(z1)) ? nextpnum(z1) : z1
-- 
2.43.0


From 6a30efc7a8117a19d836db563061d9449185f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 67/90] fix: punum: Pnum division under Python 3

---
 scripts/punum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index 0e80cc2..d0fd3cf 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -196,7 +196,7 @@ class Pnum:
         return self.slowtimes(other)
     def __add__(self,other):
         return self.slowplus(other)
-    def __div__(self,other):
+    def __truediv__(self,other):
         return self*(~other)
     def __sub__(self,other):
         return self+(-other)
-- 
2.43.0


From a614557a3b40f1990c4cb85b6db384746b79bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 68/90] fix: punum: a sum with zero is a Pbound like every
 other sum

---
 scripts/punum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index d0fd3cf..e2401f5 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -323,9 +323,9 @@ class Pnum:
         if (ai or bi):
             return Pbound.inf(self.base)
         if self.iszero():
-            return other
+            return Pbound(other)
         if other.iszero():
-            return self
+            return Pbound(self)
         ae = self.isexact()
         be = other.isexact()
         abe = ae and be
-- 
2.43.0


From e6eee337dbf61a7172eb46a44c4b78a637c915a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 69/90] fix: punum: Pbound.iseverything compares values;
 negation and inversion of full and empty bounds

---
 scripts/punum.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index e2401f5..2e7d423 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -482,7 +482,7 @@ class Pbound:
             f = f.next()
             yield f
     def iseverything(self):
-        return self.v[0] == self.v[1].next()
+        return not self.empty and self.v[0].v == self.v[1].next().v
     @property
     def base(self):
         return self.v[0].base
@@ -529,13 +529,13 @@ class Pbound:
                 post = str(self.v[1].next().exactvalue()) + ")"
             return "%s,%s" % (pre,post)
     def __neg__(self):
-        if self.iseverything():
-            return self.everything()
+        if self.empty or self.iseverything():
+            return self
         else:
-            return Pbound(~-elf.v[1],-self.v[1])
+            return Pbound(-self.v[1],-self.v[0])
     def __invert__(self):
-        if self.iseverything():
-            return self.everything()
+        if self.empty or self.iseverything():
+            return self
         else:
             return Pbound(~self.v[1],~self.v[0])
 
-- 
2.43.0


From 224f9ea9e6aa8624ae7b9add92f8b2bdcc324c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 70/90] fix: punum: the p8a and p16a alphabets are in
 increasing order

---
 scripts/punum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index 2e7d423..fc7834a 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -183,10 +183,10 @@ class Alphabet:
     @staticmethod
     def p8a():
         # use scaled by 4
-        return Alphabet([fractions.Fraction(2**n*(4 + m),4) for m in range(0,4) for n in range(0,8)])
+        return Alphabet([fractions.Fraction(2**n*(4 + m),4) for n in range(0,8) for m in range(0,4)])
     @staticmethod
     def p16a():
-        return Alphabet([fractions.Fraction(2**n*(256 + m),256) for m in range(0,256) for n in range(0,32)])
+        return Alphabet([fractions.Fraction(2**n*(256 + m),256) for n in range(0,32) for m in range(0,256)])
 
 class Pnum:
     def __init__(self,base,v):
-- 
2.43.0


From 4554e91a4a63ee28e141cc4100ab6d801e9af08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 71/90] fix: punum: index access of a Pnum goes through its
 alphabet

---
 scripts/punum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/punum.py b/scripts/punum.py
index fc7834a..62ef108 100644
--- a/scripts/punum.py
+++ b/scripts/punum.py
@@ -214,12 +214,12 @@ class Pnum:
         return -self if self.isstrictlynegative() else self
     def fromindex(self,i):
         # generic index 0..n2
-        return self.rawpnum(i)
+        return self.base.rawpnum(i)
     def fromexactsindex(self,i):
         # index 0..len(values)
-        return self.rawpnum((self.n2 >> 2) +  ((i-1)<<1) )
+        return self.base.fromexactsindex(i)
     def exacts(self):
-        return self.eexacts
+        return self.base.eexacts
     def iszero(self):
         return self.v == 0
     def isinf(self):
-- 
2.43.0


From 81faec32d63c8192d0439938d96f0e20dc431884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 72/90] fix: the MATLAB functions for 8-bit posits compile
 again

---
 matlab/p8Tofloat.cpp | 2 +-
 matlab/p8binop.cpp   | 2 +-
 matlab/p8unop.cpp    | 2 +-
 src/floatTop8.cpp    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matlab/p8Tofloat.cpp b/matlab/p8Tofloat.cpp
index 47b75fc..f73f455 100644
--- a/matlab/p8Tofloat.cpp
+++ b/matlab/p8Tofloat.cpp
@@ -3,7 +3,7 @@
 #include "posit.h"
 
 
-using zposit_type = Posit<int8_t,8,0,uint16_t,true>;
+using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
diff --git a/matlab/p8binop.cpp b/matlab/p8binop.cpp
index 9eb0d1d..2a35512 100644
--- a/matlab/p8binop.cpp
+++ b/matlab/p8binop.cpp
@@ -2,7 +2,7 @@
 //#include "zposit8.hpp"
 #include "posit.h"
 #include <stdint.h>
-using zposit_type = Posit<int8_t,8,0,uint16_t,true>;
+using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
diff --git a/matlab/p8unop.cpp b/matlab/p8unop.cpp
index 5a6f382..a57a7c9 100644
--- a/matlab/p8unop.cpp
+++ b/matlab/p8unop.cpp
@@ -2,7 +2,7 @@
 //#include "zposit8.hpp"
 #include "posit.h"
 #include <stdint.h>
-using zposit_type = Posit<int8_t,8,0,uint16_t,true>;
+using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
diff --git a/src/floatTop8.cpp b/src/floatTop8.cpp
index 1121795..22b5490 100644
--- a/src/floatTop8.cpp
+++ b/src/floatTop8.cpp
@@ -2,7 +2,7 @@
 //#include "zposit8.hpp"
 #include "posit.h"
 #include <stdint.h>
-using zposit_type = Posit<int8_t,8,0,uint16_t,true>;
+using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From 383070bc599cde2f6c913a5479d405bfac8bc4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 73/90] fix: the MATLAB functions for 8-bit posits refuse a
 wrong number of arguments

---
 matlab/p8Tofloat.cpp | 2 +-
 matlab/p8binop.cpp   | 2 +-
 matlab/p8unop.cpp    | 2 +-
 src/floatTop8.cpp    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matlab/p8Tofloat.cpp b/matlab/p8Tofloat.cpp
index f73f455..ba0e8cb 100644
--- a/matlab/p8Tofloat.cpp
+++ b/matlab/p8Tofloat.cpp
@@ -7,7 +7,7 @@ using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-    if(nrhs != 2 && nlhs != 1)
+    if(nrhs != 2 || nlhs > 1)
     {
         mexPrintf("zp8Tofloat(input,output template) -> output. Use (unsigned) int 16 for half precision. \n");
         return;
diff --git a/matlab/p8binop.cpp b/matlab/p8binop.cpp
index 2a35512..dc2b5a7 100644
--- a/matlab/p8binop.cpp
+++ b/matlab/p8binop.cpp
@@ -7,7 +7,7 @@ using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-    if(nrhs != 3 && nlhs != 1)
+    if(nrhs != 3 || nlhs > 1)
     {
         mexPrintf("out = zp8binop(a,b,op);\n");
         return;
diff --git a/matlab/p8unop.cpp b/matlab/p8unop.cpp
index a57a7c9..81f3910 100644
--- a/matlab/p8unop.cpp
+++ b/matlab/p8unop.cpp
@@ -7,7 +7,7 @@ using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-    if(nrhs != 2 && nlhs != 1)
+    if(nrhs != 2 || nlhs > 1)
     {
         mexPrintf("out = zp8unop(a,op);\n");
         return;
diff --git a/src/floatTop8.cpp b/src/floatTop8.cpp
index 22b5490..1a50baf 100644
--- a/src/floatTop8.cpp
+++ b/src/floatTop8.cpp
@@ -7,7 +7,7 @@ using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-    if(nrhs != 1 && nlhs != 1)
+    if(nrhs != 1 || nlhs > 1)
     {
         mexPrintf("floatTozp8(input) -> output\n");
         return;
-- 
2.43.0


From ca636cc456b265467c2acceff82f624a661c3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 74/90] fix: ieeehalfprecision works where long has 64 bits

---
 matlab/halfprecision/ieeehalfprecision.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/matlab/halfprecision/ieeehalfprecision.c b/matlab/halfprecision/ieeehalfprecision.c
index 1ad7eb5..eea1e2c 100644
--- a/matlab/halfprecision/ieeehalfprecision.c
+++ b/matlab/halfprecision/ieeehalfprecision.c
@@ -60,13 +60,14 @@
 // Includes -------------------------------------------------------------------
 
 #include <string.h>
+#include <stdint.h>
 
 // Macros ---------------------------------------------------------------------
 
-#define  INT16_TYPE          short
-#define UINT16_TYPE unsigned short
-#define  INT32_TYPE          long
-#define UINT32_TYPE unsigned long
+#define  INT16_TYPE  int16_t
+#define UINT16_TYPE uint16_t
+#define  INT32_TYPE  int32_t
+#define UINT32_TYPE uint32_t
 
 // Prototypes -----------------------------------------------------------------
 
-- 
2.43.0


From 9eac33d3ef979646cfc46252c00c2cfdbc1913a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 75/90] fix: a double NaN whose payload is in its low word
 converts to a half NaN

---
 matlab/halfprecision/halfprecision.c     | 6 +++---
 matlab/halfprecision/ieeehalfprecision.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/matlab/halfprecision/halfprecision.c b/matlab/halfprecision/halfprecision.c
index f14c6a8..7ace3cc 100644
--- a/matlab/halfprecision/halfprecision.c
+++ b/matlab/halfprecision/halfprecision.c
@@ -444,7 +444,7 @@ void doubles2halfp(void *target, void *source, mwSize numel)
     UINT16_TYPE *hp = (UINT16_TYPE *) target; // Type pun output as an unsigned 16-bit int
     UINT32_TYPE *xp = (UINT32_TYPE *) source; // Type pun input as an unsigned 32-bit int
     UINT16_TYPE    hs, he, hm;
-    UINT32_TYPE x, xs, xe, xm;
+    UINT32_TYPE x, xs, xe, xm, xl;
     int hes;
 
     xp += next;  // Little Endian adjustment if necessary
@@ -453,7 +453,7 @@ void doubles2halfp(void *target, void *source, mwSize numel)
         return;
     }
     while( numel-- ) {
-        x = *xp++; xp++; // The extra xp++ is to skip over the remaining 32 bits of the mantissa
+        x = *xp; xl = next ? *(xp-1) : *(xp+1); xp += 2; // xl is the remaining 32 bits of the mantissa
         if( (x & 0x7FFFFFFFu) == 0 ) {  // Signed zero
             *hp++ = (UINT16_TYPE) (x >> 16);  // Return the signed zero
         } else { // Not zero
@@ -463,7 +463,7 @@ void doubles2halfp(void *target, void *source, mwSize numel)
             if( xe == 0 ) {  // Denormal will underflow, return a signed zero
                 *hp++ = (UINT16_TYPE) (xs >> 16);
             } else if( xe == 0x7FF00000u ) {  // Inf or NaN (all the exponent bits are set)
-                if( xm == 0 ) { // If mantissa is zero ...
+                if( (xm | xl) == 0 ) { // If mantissa is zero ...
                     *hp++ = (UINT16_TYPE) ((xs >> 16) | 0x7C00u); // Signed Inf
                 } else {
                     *hp++ = (UINT16_TYPE) 0xFE00u; // NaN, only 1st mantissa bit set
diff --git a/matlab/halfprecision/ieeehalfprecision.c b/matlab/halfprecision/ieeehalfprecision.c
index eea1e2c..e40221b 100644
--- a/matlab/halfprecision/ieeehalfprecision.c
+++ b/matlab/halfprecision/ieeehalfprecision.c
@@ -189,7 +189,7 @@ int doubles2halfp(void *target, void *source, int numel)
     UINT16_TYPE *hp = (UINT16_TYPE *) target; // Type pun output as an unsigned 16-bit int
     UINT32_TYPE *xp = (UINT32_TYPE *) source; // Type pun input as an unsigned 32-bit int
     UINT16_TYPE    hs, he, hm;
-    UINT32_TYPE x, xs, xe, xm;
+    UINT32_TYPE x, xs, xe, xm, xl;
     int hes;
     static int next;  // Little Endian adjustment
     static int checkieee = 1;  // Flag to check for IEEE754, Endian, and word size
@@ -220,7 +220,7 @@ int doubles2halfp(void *target, void *source, int numel)
     }
     
     while( numel-- ) {
-        x = *xp++; xp++; // The extra xp++ is to skip over the remaining 32 bits of the mantissa
+        x = *xp; xl = next ? *(xp-1) : *(xp+1); xp += 2; // xl is the remaining 32 bits of the mantissa
         if( (x & 0x7FFFFFFFu) == 0 ) {  // Signed zero
             *hp++ = (UINT16_TYPE) (x >> 16);  // Return the signed zero
         } else { // Not zero
@@ -230,7 +230,7 @@ int doubles2halfp(void *target, void *source, int numel)
             if( xe == 0 ) {  // Denormal will underflow, return a signed zero
                 *hp++ = (UINT16_TYPE) (xs >> 16);
             } else if( xe == 0x7FF00000u ) {  // Inf or NaN (all the exponent bits are set)
-                if( xm == 0 ) { // If mantissa is zero ...
+                if( (xm | xl) == 0 ) { // If mantissa is zero ...
                     *hp++ = (UINT16_TYPE) ((xs >> 16) | 0x7C00u); // Signed Inf
                 } else {
                     *hp++ = (UINT16_TYPE) 0xFE00u; // NaN, only 1st mantissa bit set
-- 
2.43.0


From fb982f47a08fe4495b341bbc99d7e28d4783c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 76/90] fix: ieeehalfprecision writes the low word of every
 double it converts a half to

---
 matlab/halfprecision/ieeehalfprecision.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matlab/halfprecision/ieeehalfprecision.c b/matlab/halfprecision/ieeehalfprecision.c
index e40221b..f08dae9 100644
--- a/matlab/halfprecision/ieeehalfprecision.c
+++ b/matlab/halfprecision/ieeehalfprecision.c
@@ -432,7 +432,8 @@ int halfp2doubles(void *target, void *source, int numel)
                 *xp++ = (xs | xe | xm); // Combine sign bit, exponent bits, and mantissa bits
             }
         }
-        xp++; // Skip over the remaining 32 bits of the mantissa
+        *(next ? xp-2 : xp) = 0; // The remaining 32 bits of the mantissa are always zero
+        xp++; // Skip over them
     }
     return 0;
 }
-- 
2.43.0


From c44382bba0dde278455e1be637e0c823307c0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:50 +0000
Subject: [PATCH 77/90] fix: an unknown operation on 8-bit posits in MATLAB
 returns nothing instead of an unset array

---
 matlab/p8binop.cpp |  6 ++----
 matlab/p8unop.cpp  | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/matlab/p8binop.cpp b/matlab/p8binop.cpp
index dc2b5a7..8aa035f 100644
--- a/matlab/p8binop.cpp
+++ b/matlab/p8binop.cpp
@@ -2,6 +2,7 @@
 //#include "zposit8.hpp"
 #include "posit.h"
 #include <stdint.h>
+#include <string.h>
 using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 
@@ -38,7 +39,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
      char * opa = mxArrayToString(prhs[2]);
      int n = n1;
-    if(opa[1] !=0 )
+    if(opa[0] == 0 || opa[1] != 0 || strchr("+-*/",opa[0]) == NULL)
     {
         mexPrintf("unknown operation %s\n",opa);
         mxFree((void*)opa);
@@ -78,9 +79,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                 dst[i] = a[i] / b[i];
             }
             break;
-        default:
-            mexPrintf("unknown operation %c\n",op);
-            break;
     }
 
 }
\ No newline at end of file
diff --git a/matlab/p8unop.cpp b/matlab/p8unop.cpp
index 81f3910..e5b380f 100644
--- a/matlab/p8unop.cpp
+++ b/matlab/p8unop.cpp
@@ -2,6 +2,7 @@
 //#include "zposit8.hpp"
 #include "posit.h"
 #include <stdint.h>
+#include <string.h>
 using zposit_type = Posit<int8_t,8,0,uint16_t,PositSpec::WithNan>;
 
 
@@ -29,20 +30,20 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
      char * opa = mxArrayToString(prhs[1]);
      int n = n1;
 
+    if(strcmp(opa,"inv") != 0)
+    {
+        mexPrintf("unknown operation <%s>\n",opa);
+        mxFree((void*)opa);
+        return;
+    }
+
 	plhs[0] = mxCreateUninitNumericArray(ndims,(mwSize*)dimi,mxINT8_CLASS,!complex1 ? mxREAL: mxCOMPLEX);
     const zposit_type * a = (const zposit_type*)mxGetData(prhs[0]);
     zposit_type * dst = (zposit_type*)mxGetData(plhs[0]);
 
-    if(strcmp(opa,"inv") == 0)
-    {
-        for(int i= 0; i < n; i++)
-        {
-            dst[i] = inv(a[i]);
-        }
-    }
-    else
+    for(int i= 0; i < n; i++)
     {
-        mexPrintf("unknown operation <%s>\n",opa);
+        dst[i] = inv(a[i]);
     }
     mxFree((void*)opa);
     
-- 
2.43.0


From 000ba9cefd23f6ef3aa6651753ef5c4a3dd887d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:50 +0000
Subject: [PATCH 78/90] fix: p8binop refuses a real and a complex operand whose
 counts match

---
 matlab/p8binop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/p8binop.cpp b/matlab/p8binop.cpp
index 8aa035f..379d126 100644
--- a/matlab/p8binop.cpp
+++ b/matlab/p8binop.cpp
@@ -32,7 +32,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     bool complex2 = mxIsComplex(prhs[1]);
     int n2 = mxGetNumberOfElements(prhs[1])*(complex2?2:1);
-    if(n1 != n2)
+    if(n1 != n2 || complex1 != complex2)
     {
         mexPrintf("mismatch of items count\n");
         return;                    
-- 
2.43.0


From 55d5e18965eaf71b23b75c1a882b865bc6b92477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 79/90] fix: p8Tofloat compiles: the conversion to half is no
 longer ambiguous

---
 matlab/p8Tofloat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matlab/p8Tofloat.cpp b/matlab/p8Tofloat.cpp
index ba0e8cb..c672ec4 100644
--- a/matlab/p8Tofloat.cpp
+++ b/matlab/p8Tofloat.cpp
@@ -61,7 +61,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                 halffloat * dst = (halffloat*)mxGetData(plhs[0]);
                 for(int i = 0;i < n; i++)
                 {
-                    dst[i] = (halffloat)src[i].unpack(); 
+                    halffloat h = src[i].unpack(); // a cast would be ambiguous with the construction from an integer
+                    dst[i] = h;
                 }                                
             }
     		break;
-- 
2.43.0


From ed9ca20716c7b4d33b4983a16414647a64f7296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:39 +0000
Subject: [PATCH 80/90] fix: the asimd headers include what they use and
 compile

---
 include/simd/asimd_base.h | 8 ++++++--
 include/simd/asimd_d.h    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/simd/asimd_base.h b/include/simd/asimd_base.h
index f9f74fa..aed69e6 100644
--- a/include/simd/asimd_base.h
+++ b/include/simd/asimd_base.h
@@ -16,7 +16,11 @@
  */
 #pragma once
 #include <emmintrin.h>
+#include <stdint.h>
+#include <array>
 #include <initializer_list>
+#include <ostream>
+#include <type_traits>
 
 #if defined(__AVX512F__) && defined(__AVX512VL__)
 #define WITH_AVX512F
@@ -279,7 +283,7 @@ public:
             _mm_prefetch(p0+csize,1);
             cur1.load(p0);            
             auto cmp0 = x[i].cmplt(cur0); // curmax >= cur 
-            auto cmp1 = x[i+1].cmplt(cur); // curmax >= cur 
+            auto cmp1 = x[i+1].cmplt(cur1); // curmax >= cur 
            	x[i].blend(cur0,cmp0); // pick other if 1 at bit
            	x[i+1].blend(cur1,cmp1); // pick other if 1 at bit
             WT::blendindex(curio[i],curi[i],cmp0);    
@@ -290,7 +294,7 @@ public:
             basetype cur0;
             cur0.load(p0);     
             auto cmp0 = x[N-1].cmplt(cur0); // curmax >= cur 
-           	x[i].blend(cur0,cmp0); // pick other if 1 at bit
+           	x[N-1].blend(cur0,cmp0); // pick other if 1 at bit
            	WT::blendindex(curio[N-1],curi[N-1],cmp0);
         }        
     }
diff --git a/include/simd/asimd_d.h b/include/simd/asimd_d.h
index 6fc51c7..fce889f 100644
--- a/include/simd/asimd_d.h
+++ b/include/simd/asimd_d.h
@@ -17,7 +17,7 @@
  * 512bit for f: 8  => int32 simd_i32_8
  */
 #pragma once
-#include "asimd_base.h"
+#include "asimd_32.h"
 
 // TODO: replace AVX2 _mm_i32gather_pd with something when AVX2 is missing
 #ifdef __AVX2__
-- 
2.43.0


From 9cd26fa7f577d088fb28033b29dd15d4b3c5a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:33 +0000
Subject: [PATCH 81/90] fix: the asimd headers compile with gcc: vectors are
 cast explicitly

---
 include/simd/asimd_16.h   |  8 ++++----
 include/simd/asimd_32.h   | 12 ++++++------
 include/simd/asimd_8.h    | 24 ++++++++++++------------
 include/simd/asimd_base.h | 19 +++++++++++++++----
 include/simd/asimd_d.h    |  6 +++---
 include/simd/asimd_f.h    |  4 ++--
 6 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/include/simd/asimd_16.h b/include/simd/asimd_16.h
index 0f9e39d..1a11c3b 100644
--- a/include/simd/asimd_16.h
+++ b/include/simd/asimd_16.h
@@ -210,8 +210,8 @@ inline void simd_i16_16::blendindex(indextype & oindex, indextype other, cmpresu
             _mm_cvtepi16_epi32(_mm_srli_si128(cur,6)) // the next 64bit
             );
 
-    oindex.x[0] = _mm256_blendv_ps(oindex.x[0],other.x[0],mask0);
-    oindex.x[1] = _mm256_blendv_ps(oindex.x[1],other.x[1],mask1);
+    oindex.x[0] = blendv_i32(oindex.x[0],other.x[0],mask0);
+    oindex.x[1] = blendv_i32(oindex.x[1],other.x[1],mask1);
 #endif    
 }
 
@@ -303,8 +303,8 @@ inline void simd_u16_16::blendindex(indextype & oindex, indextype other, cmpresu
             _mm_cvtepi16_epi32(_mm_srli_si128(cur,6)) // the next 64bit
             );
 
-    oindex.x[0] = _mm256_blendv_ps(oindex.x[0],other.x[0],mask0);
-    oindex.x[1] = _mm256_blendv_ps(oindex.x[1],other.x[1],mask1);
+    oindex.x[0] = blendv_i32(oindex.x[0],other.x[0],mask0);
+    oindex.x[1] = blendv_i32(oindex.x[1],other.x[1],mask1);
 #endif
 }
 
diff --git a/include/simd/asimd_32.h b/include/simd/asimd_32.h
index 32adad4..f12b076 100644
--- a/include/simd/asimd_32.h
+++ b/include/simd/asimd_32.h
@@ -76,7 +76,7 @@ public:
 
     inline void blend(self & other, self mask)
     {
-        x = _mm_blendv_ps(x,other.x,mask.x);
+        x = blendv_i32(x,other.x,mask.x);
     }
 
    static inline void blendindex(indextype & oindex, indextype other, self mask);
@@ -131,7 +131,7 @@ public:
 
     inline void blend(self & other, self mask)
     {
-        x = _mm256_blendv_ps(x,other.x,mask.x);
+        x = blendv_i32(x,other.x,mask.x);
     }
 
    static inline void blendindex(indextype & oindex, indextype other, self mask);
@@ -187,7 +187,7 @@ public:
 
     inline void blend(self & other, self mask)
     {
-        x = _mm256_blendv_ps(x,other.x,mask.x);
+        x = blendv_i32(x,other.x,mask.x);
     }
 
    static inline void blendindex(indextype & oindex, indextype other, self mask);
@@ -320,18 +320,18 @@ public:
 
 inline void simd_i32_8::blendindex(indextype & oindex, indextype other, self mask)
 {
-    oindex.x = _mm256_blendv_ps(oindex.x,other.x,mask.x);
+    oindex.x = blendv_i32(oindex.x,other.x,mask.x);
 }
 
 inline void simd_u32_8::blendindex(indextype & oindex, indextype other, self mask)
 {
-    oindex.x = _mm256_blendv_ps(oindex.x,other.x,mask.x);
+    oindex.x = blendv_i32(oindex.x,other.x,mask.x);
 }
 
 
 inline void simd_i32_4::blendindex(indextype & oindex, indextype other, self mask)
 {
-    oindex.x = _mm_blendv_ps(oindex.x,other.x,mask.x);
+    oindex.x = blendv_i32(oindex.x,other.x,mask.x);
 }
 
 
diff --git a/include/simd/asimd_8.h b/include/simd/asimd_8.h
index 166c288..7c2dc73 100644
--- a/include/simd/asimd_8.h
+++ b/include/simd/asimd_8.h
@@ -167,8 +167,8 @@ public:
     inline simd_i8_32() {}
     inline simd_i8_32(type v) : x(_mm256_set1_epi8(v)) {}
     inline simd_i8_32(simdtype v) : x(v) {}
-    inline void load(const type * ptr) { x = _mm256_loadu_ps((const float*)ptr); }
-    inline void store(type * ptr) const { _mm256_storeu_ps((float*)ptr,x); }
+    inline void load(const type * ptr) { x = _mm256_loadu_si256((const simdtype*)ptr); }
+    inline void store(type * ptr) const { _mm256_storeu_si256((simdtype*)ptr,x); }
     inline self max(self & y) const { return self(_mm256_max_epi8(x,y.x)); }
     inline cmpresult cmplt(self & y) const { return  cmpresult(_mm256_cmpgt_epi8(y.x,x)); }
     inline unsigned int size() const { return csize; }    
@@ -220,8 +220,8 @@ public:
     inline simd_u8_32() {}
     inline simd_u8_32(type v) : x(_mm256_set1_epi8(v)) {}
     inline simd_u8_32(simdtype v) : x(v) {}
-    inline void load(const type * ptr) { x = _mm256_loadu_ps((const float*)ptr); }
-    inline void store(type * ptr) const { _mm256_storeu_ps((float*)ptr,x); }
+    inline void load(const type * ptr) { x = _mm256_loadu_si256((const simdtype*)ptr); }
+    inline void store(type * ptr) const { _mm256_storeu_si256((simdtype*)ptr,x); }
     inline self max(self & y) const { return self(_mm256_max_epu8(x,y.x)); }
     inline cmpresult cmplt(self & y) const { return  cmpresult(_mm256_cmpgt_epu8(y.x,x)); }
     inline unsigned int size() const { return csize; }    
@@ -282,10 +282,10 @@ inline void simd_u8_32::blendindex(indextype & oindex, indextype other, self mas
             _mm_cvtepi8_epi32(_mm_srli_si128(cur,12))
             );
 
-    oindex.x[0] = _mm256_blendv_ps(oindex.x[0],other.x[0],mask0);
-    oindex.x[1] = _mm256_blendv_ps(oindex.x[1],other.x[1],mask1);
-    oindex.x[2] = _mm256_blendv_ps(oindex.x[2],other.x[2],mask2);
-    oindex.x[3] = _mm256_blendv_ps(oindex.x[3],other.x[3],mask3);
+    oindex.x[0] = blendv_i32(oindex.x[0],other.x[0],mask0);
+    oindex.x[1] = blendv_i32(oindex.x[1],other.x[1],mask1);
+    oindex.x[2] = blendv_i32(oindex.x[2],other.x[2],mask2);
+    oindex.x[3] = blendv_i32(oindex.x[3],other.x[3],mask3);
 }
 
 // from 1 _mm256 8bit to 4 _mm256 32bit
@@ -315,10 +315,10 @@ inline void simd_i8_32::blendindex(indextype & oindex, indextype other, self mas
             _mm_cvtepi8_epi32(_mm_srli_si128(cur,12))
             );
 
-    oindex.x[0] = _mm256_blendv_ps(oindex.x[0],other.x[0],mask0);
-    oindex.x[1] = _mm256_blendv_ps(oindex.x[1],other.x[1],mask1);
-    oindex.x[2] = _mm256_blendv_ps(oindex.x[2],other.x[2],mask2);
-    oindex.x[3] = _mm256_blendv_ps(oindex.x[3],other.x[3],mask3);
+    oindex.x[0] = blendv_i32(oindex.x[0],other.x[0],mask0);
+    oindex.x[1] = blendv_i32(oindex.x[1],other.x[1],mask1);
+    oindex.x[2] = blendv_i32(oindex.x[2],other.x[2],mask2);
+    oindex.x[3] = blendv_i32(oindex.x[3],other.x[3],mask3);
 }
 
 
diff --git a/include/simd/asimd_base.h b/include/simd/asimd_base.h
index aed69e6..30f0985 100644
--- a/include/simd/asimd_base.h
+++ b/include/simd/asimd_base.h
@@ -34,14 +34,25 @@
 #include <smmintrin.h>
 #include <immintrin.h>
 
-inline __m128 gethigh(__m256 in)
+inline __m128i gethigh(__m256i in)
 {   
-    return _mm256_castsi256_si128(_mm256_permute2f128_ps(in,in,1));
+    return _mm256_castsi256_si128(_mm256_permute2f128_si256(in,in,1));
 }
 
-inline __m256 mergelowhigh(__m128 low, __m128 high)
+inline __m256i mergelowhigh(__m128i low, __m128i high)
 {
-    return _mm256_insertf128_ps(_mm256_castps128_ps256(low),high,1); // first expand from 128 to 256 then insert
+    return _mm256_insertf128_si256(_mm256_castsi128_si256(low),high,1); // first expand from 128 to 256 then insert
+}
+
+// blendv_ps over 32bit integers, with the casts that gcc requires
+inline __m128i blendv_i32(__m128i a, __m128i b, __m128i mask)
+{
+    return _mm_castps_si128(_mm_blendv_ps(_mm_castsi128_ps(a),_mm_castsi128_ps(b),_mm_castsi128_ps(mask)));
+}
+
+inline __m256i blendv_i32(__m256i a, __m256i b, __m256i mask)
+{
+    return _mm256_castps_si256(_mm256_blendv_ps(_mm256_castsi256_ps(a),_mm256_castsi256_ps(b),_mm256_castsi256_ps(mask)));
 }
 
 static inline __m256i
diff --git a/include/simd/asimd_d.h b/include/simd/asimd_d.h
index fce889f..2da5853 100644
--- a/include/simd/asimd_d.h
+++ b/include/simd/asimd_d.h
@@ -72,7 +72,7 @@ public:
         // use low part as in simd_i32_4
         //
         // mm_shuffle_epi32: (0)|(2)<<2|(0)<<4|(2)<<6
-        oindex.x = _mm_blendv_ps(oindex.x,other.x,_mm_shuffle_epi32(mask.x,0x44));
+        oindex.x = blendv_i32(oindex.x,other.x,_mm_shuffle_epi32(_mm_castpd_si128(mask.x),0x44));
     }
 
 
@@ -133,8 +133,8 @@ public:
         // AA BB CC DD => ABCD ABCD (0 2 4 6 0 2 4 6) work in mm128
         // permute and shuffle work by 128bit lane =>  _mm256_permutevar8x32_epi32 is generic and uses indices as bits
         // then _mm256_castsi256_si128 to take lower part
-        __m128i newmask = _mm256_castsi256_si128(_mm256_permutevar8x32_epi32(mask.x,_mm256_setr_epi32(0,2,4,6,0,2,4,6)));
-        oindex.x = _mm_blendv_ps(oindex.x,other.x,newmask);
+        __m128i newmask = _mm256_castsi256_si128(_mm256_permutevar8x32_epi32(_mm256_castpd_si256(mask.x),_mm256_setr_epi32(0,2,4,6,0,2,4,6)));
+        oindex.x = blendv_i32(oindex.x,other.x,newmask);
     }
 
     simdtype x;
diff --git a/include/simd/asimd_f.h b/include/simd/asimd_f.h
index ee9c0ed..c4b9bbc 100644
--- a/include/simd/asimd_f.h
+++ b/include/simd/asimd_f.h
@@ -76,7 +76,7 @@ public:
 
 inline void simd_f_4::blendindex(indextype & oindex, indextype other, self mask)
 {
-    oindex.x = _mm_blendv_ps(oindex.x,other.x,mask.x);
+    oindex.x = blendv_i32(oindex.x,other.x,_mm_castps_si128(mask.x));
 }
 #endif
 
@@ -133,7 +133,7 @@ public:
 
 inline void simd_f_8::blendindex(indextype & oindex, indextype other, self mask)
 {
-    oindex.x = _mm256_blendv_ps(oindex.x,other.x,mask.x);
+    oindex.x = blendv_i32(oindex.x,other.x,_mm256_castps_si256(mask.x));
 }
 
 
-- 
2.43.0


From 223bccc471c12120cda21b4219992b429fb43431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:33 +0000
Subject: [PATCH 82/90] fix: the 16-bit asimd blendindex takes each lane's own
 mask

---
 include/simd/asimd_16.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/simd/asimd_16.h b/include/simd/asimd_16.h
index 1a11c3b..eaed232 100644
--- a/include/simd/asimd_16.h
+++ b/include/simd/asimd_16.h
@@ -201,13 +201,13 @@ inline void simd_i16_16::blendindex(indextype & oindex, indextype other, cmpresu
     __m128i cur = _mm256_castsi256_si128(mask.x);
     __m256i mask0 = mergelowhigh(
             _mm_cvtepi16_epi32(cur), // takes the first 4 16bit (64bit) and expands them into 4 32bit (128bit)
-            _mm_cvtepi16_epi32(_mm_srli_si128(cur,6)) // the next 64bit
+            _mm_cvtepi16_epi32(_mm_srli_si128(cur,8)) // the next 64bit
             );
     cur = gethigh(mask.x); // high part
 
     __m256i mask1 = mergelowhigh(
             _mm_cvtepi16_epi32(cur), // takes the first 4 16bit (64bit) and expands them into 4 32bit (128bit)
-            _mm_cvtepi16_epi32(_mm_srli_si128(cur,6)) // the next 64bit
+            _mm_cvtepi16_epi32(_mm_srli_si128(cur,8)) // the next 64bit
             );
 
     oindex.x[0] = blendv_i32(oindex.x[0],other.x[0],mask0);
@@ -294,13 +294,13 @@ inline void simd_u16_16::blendindex(indextype & oindex, indextype other, cmpresu
     __m128i cur = _mm256_castsi256_si128(mask.x);
     __m256i mask0 = mergelowhigh(
             _mm_cvtepi16_epi32(cur), // takes the first 4 16bit (64bit) and expands them into 4 32bit (128bit)
-            _mm_cvtepi16_epi32(_mm_srli_si128(cur,6)) // the next 64bit
+            _mm_cvtepi16_epi32(_mm_srli_si128(cur,8)) // the next 64bit
             );
     cur = gethigh(mask.x); // high part
 
     __m256i mask1 = mergelowhigh(
             _mm_cvtepi16_epi32(cur), // takes the first 4 16bit (64bit) and expands them into 4 32bit (128bit)
-            _mm_cvtepi16_epi32(_mm_srli_si128(cur,6)) // the next 64bit
+            _mm_cvtepi16_epi32(_mm_srli_si128(cur,8)) // the next 64bit
             );
 
     oindex.x[0] = blendv_i32(oindex.x[0],other.x[0],mask0);
-- 
2.43.0


From 6c5c883d6b97adf862268848919959d6f2f8503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:33 +0000
Subject: [PATCH 83/90] fix: blendindex of two doubles takes each lane's own
 mask

---
 include/simd/asimd_d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simd/asimd_d.h b/include/simd/asimd_d.h
index 2da5853..8a174e4 100644
--- a/include/simd/asimd_d.h
+++ b/include/simd/asimd_d.h
@@ -72,7 +72,7 @@ public:
         // use low part as in simd_i32_4
         //
         // mm_shuffle_epi32: (0)|(2)<<2|(0)<<4|(2)<<6
-        oindex.x = blendv_i32(oindex.x,other.x,_mm_shuffle_epi32(_mm_castpd_si128(mask.x),0x44));
+        oindex.x = blendv_i32(oindex.x,other.x,_mm_shuffle_epi32(_mm_castpd_si128(mask.x),0x88));
     }
 
 
-- 
2.43.0


From cce218bb517fa6713e2fadd52df21cc7a607f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:34 +0000
Subject: [PATCH 84/90] fix: max and cmplt of the scalar asimd wrapper compile

---
 include/simd/asimd_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/simd/asimd_base.h b/include/simd/asimd_base.h
index 30f0985..50f1085 100644
--- a/include/simd/asimd_base.h
+++ b/include/simd/asimd_base.h
@@ -209,8 +209,8 @@ public:
     inline void load(const type * ptr) { x = *ptr; };
     inline void store(type * ptr) const { *ptr = x; }
     
-    inline nonsimd max(nonsimd & y) const { return nonsimd(x.x > y.x? x.x:y.x); }
-    inline nonsimd cmplt(nonsimd & y) const { return  nonsimd(x.x < y.x? 1: 0); }
+    inline nonsimd max(nonsimd & y) const { return nonsimd(x > y.x? x:y.x); }
+    inline nonsimd cmplt(nonsimd & y) const { return  nonsimd(x < y.x? 1: 0); }
     
     inline unsigned int size() const { return csize; }    
     inline type operator[] (unsigned int idx) const
-- 
2.43.0


From e413b03d8badc2250253a339f45d6e2786998fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 85/90] fix: the unsigned asimd gather compiles with
 optimisation

---
 include/simd/asimd_32.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simd/asimd_32.h b/include/simd/asimd_32.h
index f12b076..833321b 100644
--- a/include/simd/asimd_32.h
+++ b/include/simd/asimd_32.h
@@ -159,7 +159,7 @@ public:
     
     inline self max(self & y) const { return self(_mm256_max_epu32(x,y.x)); }
     inline cmpresult cmplt(self & y) const { return  cmpresult(_mm256_cmpgt_epu32(y.x,x)); }
-    inline void gather(const type * ptr, indextype idx) { x = _mm256_i32gather_epi32(ptr, idx.x, 1); }
+    inline void gather(const type * ptr, indextype idx) { x = _mm256_i32gather_epi32((const int*)ptr, idx.x, 1); }
     
     inline unsigned int size() const { return csize; }    
     /*
-- 
2.43.0


From 80439e400dc717c25964827804a56d196fa78008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:02 +0000
Subject: [PATCH 86/90] fix: the asimd headers can be included by several
 files: the stream operators are inline

---
 include/simd/asimd_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/simd/asimd_base.h b/include/simd/asimd_base.h
index 50f1085..3c094ab 100644
--- a/include/simd/asimd_base.h
+++ b/include/simd/asimd_base.h
@@ -382,12 +382,12 @@ std::ostream & printout(std::ostream & ons, const T & x, const char * prefix)
 }
 
 #define DECLAREOSTREAM(xtype,name) \
-    std::ostream &operator << (std::ostream & ons, const xtype & x)\
+    inline std::ostream &operator << (std::ostream & ons, const xtype & x)\
     {\
         return printout<xtype,typename xtype::type>(ons,x,name);\
     }
 #define DECLAREOSTREAMT(type,name,T) \
-    std::ostream &operator << (std::ostream & ons, const type & x)\
+    inline std::ostream &operator << (std::ostream & ons, const type & x)\
     {\
         return printout<type,T>(ons,x,name);\
     }
-- 
2.43.0


From 9e71b9aa34006e2c2aec4414867d1b2ddd79b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 87/90] fix: printing a vector test result restores the
 stream's base

---
 include/simdposit8.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index ec594e7..1b3dbd3 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -128,10 +128,12 @@ inline std::ostream & operator << (std::ostream & ons, const __m256i & p)
 {
 		alignas(__m256i) uint8_t idata1[32];
 		_mm256_store_si256((__m256i*)idata1,p);
+		auto af = ons.flags();
 		ons << "256i(" << std::hex ;
 		for(int i = 0; i < 32; i++)
 			ons << " " << (int)idata1[i];
-		ons << std::dec << ")";
+		ons.flags(af);
+		ons << ")";
 		return ons;
 }
 
-- 
2.43.0


From 5cd13564520a74576e404d126e2cefdc3ca5339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:42 +0000
Subject: [PATCH 88/90] fix: numeric_limits: a posit without infinity does not
 claim to have one

---
 include/posit.h  | 2 +-
 include/positf.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 6ee4ca3..afefa7d 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -962,7 +962,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
diff --git a/include/positf.h b/include/positf.h
index a6bf7da..331ea84 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -266,7 +266,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
-- 
2.43.0


From 818d2fcc05956cdecacaa39f5762da70ae4c190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 89/90] fix: constructing a vector of posits from a number does
 not write to the standard output

---
 src/simdposit8.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/simdposit8.cpp b/src/simdposit8.cpp
index fd24172..76c7ed2 100644
--- a/src/simdposit8.cpp
+++ b/src/simdposit8.cpp
@@ -16,14 +16,12 @@ std::ostream & operator << (std::ostream & ons, const simd_posit8_32 & p)
 simd_posit8_32::simd_posit8_32(int a)
 {
 	auto q = FPT(a).v;
-	std::cout << "initing from integer " << a << " back as " << (float)(FPT(FPT::DeepInit(),q)) << " as dec " << std::dec << (int)q << std::dec <<std::endl;
 	v = _mm256_set1_epi8(q);
 }
 
 simd_posit8_32::simd_posit8_32(float a)
 {
 	auto q = FPT(a).v;
-	std::cout << "initing from float " << a << " back as  " << (float)(FPT(FPT::DeepInit(),q)) << " as dec " << std::dec << (int)q << std::dec <<std::endl;
 	v = _mm256_set1_epi8(q);
 }
 /**
-- 
2.43.0


From 0c6b899769df255ed12e0900aee9984d98699e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:49 +0000
Subject: [PATCH 90/90] fix: the lister uses the format chosen with LISTFORMAT
 when none is given

---
 src/listposits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/listposits.cpp b/src/listposits.cpp
index 39a044e..f07e0ed 100644
--- a/src/listposits.cpp
+++ b/src/listposits.cpp
@@ -397,6 +397,6 @@ void listposits()
 
 int main(int argc, char const *argv[])
 {
-    int failed = listpositsT<XT>(argc == 1 ? DEFAULTLISTFORMAT : argv[1]);
+    int failed = listpositsT<XT>(argc == 1 ? LISTFORMATX : argv[1]);
     return failed ? 5 : 0;
 }
-- 
2.43.0

