From 610dc8a5b235cf9760e375c5c80be84b5b3e580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 01/74] fix: log of positive infinity is positive infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d8c84cf..d43d7d2 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -246,11 +246,16 @@ namespace Log_Series
 e_float ef::log(const e_float& x)
 {
   // Handle special arguments.
-  if(ef::isnan(x) || ef::isneg(x) || ef::isinf(x))
+  if(ef::isnan(x) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return std::numeric_limits<e_float>::infinity();
+  }
+
   if(x.i_have_my_own_log())
   {
     return e_float::my_own_log(x);
-- 
2.43.0


From d858327d2ccfbfc60deb53f06e0be55adf18da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 02/74] fix: rootn and cbrt of zero and of positive infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d43d7d2..82c5e34 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -90,7 +90,7 @@ e_float ef::cbrt(const e_float& x)
 
 e_float ef::rootn(const e_float& x, const std::int32_t p)
 {
-  if(!ef::isfinite(x))
+  if(ef::isnan(x) || (ef::isinf(x) && ef::isneg(x)))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
@@ -104,7 +104,7 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if(p == static_cast<std::int32_t>(1))
+  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x) || ef::isinf(x))
   {
     return x;
   }
-- 
2.43.0


From 54d65c2eb45b22e10738babb7c9e99f4b051d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 03/74] fix: rootn_inverse is the reciprocal of rootn for p =
 1, p < 0, zero and infinity

---
 .../e_float/src/functions/elementary/elementary_trans.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 82c5e34..43941dc 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -125,23 +125,23 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
 
 e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
 {
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return detail::pown_template(x, static_cast<std::int32_t>(-p));
+    return ef::rootn(x, static_cast<std::int32_t>(-p));
   }
 
   if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if(p == static_cast<std::int32_t>(1))
+  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x) || ef::isinf(x))
   {
-    return x;
+    return ef::one() / x;
   }
   else if(p == static_cast<std::int32_t>(2))
   {
-- 
2.43.0


From 92348651e52c138a901ff7f5928eb6bf9298a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 04/74] fix: log1p1m2 of an infinity is NaN

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 43941dc..f0a4d87 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -373,7 +373,7 @@ e_float ef::log1p1m2(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
   if((x <= ef::one_minus()) || (x >= ef::one()))
-- 
2.43.0


From 19b2f6f8886317035c597d2d4d71eac42f200da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 05/74] fix: atanh of an infinity is NaN

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index f0a4d87..79e5d47 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -656,7 +656,7 @@ e_float ef::atanh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
   const e_float xx = ef::fabs(x);
-- 
2.43.0


From 75b96763afc60280d333a025ea9c73af061c0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 06/74] fix: pow with zero, infinite and NaN arguments

---
 .../functions/elementary/elementary_trans.cpp | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 79e5d47..9bf7e99 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -414,21 +414,38 @@ e_float ef::log1p1m2(const e_float& x)
 
 e_float ef::pow(const e_float& x, const e_float& a)
 {
-  if((ef::isfinite(x) == false) || ef::isone(a))
+  if(ef::isnan(x) || ef::isnan(a))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  if(ef::iszero(x))
+  if(ef::isone(a))
   {
-    return ef::one();
+    return x;
   }
-  
+
   if(ef::iszero(a))
   {
     return ef::one();
   }
 
+  if(ef::isinf(a))
+  {
+    const e_float xx = ef::fabs(x);
+
+    if(ef::isone(xx))
+    {
+      return ef::one();
+    }
+
+    return (((xx > ef::one()) != ef::isneg(a)) ? std::numeric_limits<e_float>::infinity() : ef::zero());
+  }
+
+  if(ef::iszero(x))
+  {
+    return ((!ef::isneg(a)) ? ef::zero() : std::numeric_limits<e_float>::infinity());
+  }
+
   const bool bo_a_isint = ef::isint(a);
 
   if(ef::isneg(x) && !bo_a_isint)
@@ -436,6 +453,18 @@ e_float ef::pow(const e_float& x, const e_float& a)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    if(ef::isneg(a))
+    {
+      return ef::zero();
+    }
+
+    const bool bo_a_is_even = ef::iszero(ef::decimal_part(a / static_cast<std::int32_t>(2)));
+
+    return ((ef::isneg(x) && (!bo_a_is_even)) ? x : ef::fabs(x));
+  }
+
   if(a <= ef::one_minus())
   {
     return ef::one() / ef::pow(x, -a);
-- 
2.43.0


From 1d330b30e864c442bc35bd44e4f9f2e4ef5ebe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 07/74] fix: cosh of negative infinity is positive infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 9bf7e99..f2d84ab 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -565,7 +565,7 @@ e_float ef::cosh(const e_float& x)
 
   if(ef::isfinite(x) == false)
   {
-    return x;
+    return ef::fabs(x);
   }
 
   e_float c;
-- 
2.43.0


From b9909fab2a9e775a5d09a436507ad13236b359f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 08/74] fix: sinhcosh sets its results for infinite and NaN
 arguments

---
 .../src/functions/elementary/elementary_trans.cpp  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index f2d84ab..2342732 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -575,11 +575,21 @@ e_float ef::cosh(const e_float& x)
 
 void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh)
 {
-  if((ef::isfinite(x) == false) || ((p_sinh == nullptr) && (p_cosh == nullptr)))
+  if((p_sinh == nullptr) && (p_cosh == nullptr))
   {
     return;
   }
-  
+
+  if(ef::isfinite(x) == false)
+  {
+    const e_float xx = x;
+
+    if(p_sinh != nullptr) { *p_sinh = xx; }
+    if(p_cosh != nullptr) { *p_cosh = ef::fabs(xx); }
+
+    return;
+  }
+
   if(ef::iszero(x))
   {
     if(p_sinh != nullptr)
-- 
2.43.0


From 153fefaa6e27f1bbcdc9f75be47c4248a6bcc6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 09/74] fix: tanh of an infinity, or of an argument whose cosh
 overflows, is one or minus one

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2342732..6b67dec 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -621,6 +621,12 @@ e_float ef::tanh(const e_float& x)
 
   e_float c, s;
   ef::sinhcosh(x, &s, &c);
+
+  if(ef::isinf(c))
+  {
+    return ((!ef::isneg(x)) ? ef::one() : ef::one_minus());
+  }
+
   return s * c.calculate_inv();
 }
 
-- 
2.43.0


From 77f1c9e79c1152848731105fee25f3feadaea826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 10/74] fix: asinh of an infinity is that infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 6b67dec..f9b3b8f 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -639,7 +639,7 @@ e_float ef::asinh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return std::numeric_limits<e_float>::quiet_NaN();
+    return x;
   }
 
   if(ef::iszero(x))
-- 
2.43.0


From a1c6de57b8eb7d2e82af9f7fa04a4fbe7151ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 11/74] fix: acosh of one is zero and acosh of positive
 infinity is positive infinity

---
 .../src/functions/elementary/elementary_trans.cpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index f9b3b8f..0a53a28 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -661,7 +661,7 @@ e_float ef::acosh(const e_float& x)
     return e_float::my_own_acosh(x);
   }
 
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
@@ -673,7 +673,12 @@ e_float ef::acosh(const e_float& x)
 
   if(ef::isone(x))
   {
-    return ef::one();
+    return ef::zero();
+  }
+
+  if(ef::isinf(x))
+  {
+    return x;
   }
 
   const e_float x_minus_one = x - ef::one();
-- 
2.43.0


From 33b2fb69c275f97beb30373a34785bf9ad665014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 12/74] fix: asin of a small negative argument is negative

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c3e2077..4b2cfcd 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -300,10 +300,10 @@ e_float ef::asin(const e_float& x)
   if(ef::small_arg(xx))
   {
     // http://functions.wolfram.com/ElementaryFunctions/ArcSin/26/01/01/
-    const e_float asin_value = x * ef::hypergeometric_2f1(ef::half(),
-                                                          ef::half(),
-                                                          ef::three_half(),
-                                                          (x * x));
+    const e_float asin_value = xx * ef::hypergeometric_2f1(ef::half(),
+                                                           ef::half(),
+                                                           ef::three_half(),
+                                                           (xx * xx));
 
     return !b_neg ? asin_value : -asin_value;
   }
-- 
2.43.0


From 061f5023dfa4d9000ee5db61b968f6583b30b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 13/74] fix: atan of a large negative argument is negative

---
 .../src/functions/elementary/elementary_trig.cpp     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 4b2cfcd..6124801 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -430,15 +430,17 @@ e_float ef::atan(const e_float& x)
     return Atan_Series::AtZero(x);
   }
 
-  if(ef::large_arg(x))
-  {
-    return Atan_Series::AtInfinity(x);
-  }
-
   const bool b_neg = ef::isneg(x);
 
   const e_float xx = ((!b_neg) ? x : -x);
 
+  if(ef::large_arg(xx))
+  {
+    const e_float atan_value = Atan_Series::AtInfinity(xx);
+
+    return ((!b_neg) ? atan_value : -atan_value);
+  }
+
   // Get initial estimate using standard math function atan or a series
   // expansion for rather large arguments having order 3 or larger.
   double       dd;
-- 
2.43.0


From 2f9d8dd37240935af2a821818ae57770a7856d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 14/74] fix: atan of an infinity is plus or minus pi half

---
 .../e_float/src/functions/elementary/elementary_trig.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 6124801..4e9bcd6 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -404,11 +404,16 @@ static e_float Atan_Series::AtInfinity(const e_float& x)
 
 e_float ef::atan(const e_float& x)
 {
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return ef::ispos(x) ? ef::pi_half() : -ef::pi_half();
+  }
+
   if(x.i_have_my_own_atan())
   {
     return e_float::my_own_atan(x);
@@ -416,7 +421,7 @@ e_float ef::atan(const e_float& x)
 
   const std::int64_t order = x.order();
 
-  if(x.isinf() || order > ef::tolerance())
+  if(order > ef::tolerance())
   {
     return ef::ispos(x) ? ef::pi_half() : -ef::pi_half();
   }
-- 
2.43.0


From 3170ded99f43e5107bff644ab309a9fb3dcaf0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 15/74] fix: atan2 of infinite and NaN arguments

---
 .../functions/elementary/elementary_trig.cpp  | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 4e9bcd6..be94f44 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -481,9 +481,34 @@ e_float ef::atan(const e_float& x)
 
 e_float ef::atan2(const e_float& y, const e_float& x)
 {
-  if((ef::isfinite(x) == false) || (ef::isfinite(y) == false))
+  if(ef::isnan(x) || ef::isnan(y))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  // y is infinite
+  if(ef::isinf(y))
+  {
+    e_float atan2_value = ef::pi_half();
+
+    if(ef::isinf(x))
+    {
+      atan2_value = (ef::isneg(x) ? ((ef::pi() * static_cast<std::int32_t>(3)) / static_cast<std::int32_t>(4))
+                                  : (ef::pi_half() / static_cast<std::int32_t>(2)));
+    }
+
+    return (ef::isneg(y) ? -atan2_value : atan2_value);
+  }
+
+  // x is infinite
+  if(ef::isinf(x))
+  {
+    if(ef::isneg(x))
+    {
+      return (ef::isneg(y) ? -ef::pi() : ef::pi());
+    }
+
+    return ef::zero();
   }
 
   // y is zero
@@ -498,15 +523,6 @@ e_float ef::atan2(const e_float& y, const e_float& x)
     return ef::sgn(y) * ef::pi_half();
   }
   
-  // y is infinite
-  if(y.isinf())
-  {
-    const bool b_pos = ((ef::ispos(x) && ef::ispos(y)) || (ef::isneg(x) && ef::isneg(y)));
-
-    return (b_pos ?  std::numeric_limits<e_float>::infinity()
-                  : -std::numeric_limits<e_float>::infinity());
-  }
-
   // Compute atan(y / x), ignoring sign.
   e_float atan_term(ef::atan(y / x));
 
-- 
2.43.0


From a62814218c099f53132384740e8ac3338c50042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 16/74] fix: gamma of negative infinity is NaN

---
 libs/e_float/src/functions/gamma/gamma.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 5d1f60c..ec46683 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -220,6 +220,11 @@ e_float ef::gamma(const e_float& x)
   }
   else
   {
+    if(ef::isinf(x) && ef::isneg(x))
+    {
+      return std::numeric_limits<e_float>::quiet_NaN();
+    }
+
     return GammaTemplate::gamma<e_float, e_float>(x);
   }
 }
-- 
2.43.0


From 2823e729af2b03c18e0ae1efb2d910f3e75b2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 17/74] fix: complex gamma of an argument with integer real
 part and non-zero imaginary part

---
 libs/e_float/src/functions/gamma/gamma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index ec46683..59aa634 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -77,6 +77,7 @@ namespace GammaTemplate
     using ef::exp;
     using ef::log;
     using ef::real;
+    using ef::imag;
     using ef::sin;
     using ef::factorial;
     using ef::bernoulli;
@@ -97,7 +98,7 @@ namespace GammaTemplate
 
     const bool b_neg = isneg(real(x));
 
-    if(isint(real(x)))
+    if(isint(real(x)) && iszero(imag(x)))
     {
       if(b_neg || iszero(real(x)))
       {
-- 
2.43.0


From 794dda2409fbc968893140ef52b5b71bef1dd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 18/74] fix: log1p of arguments outside the disk of convergence
 of its series

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 0a53a28..e219fd7 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -364,7 +364,7 @@ e_float ef::log(const e_float& x)
 
 e_float ef::log10(const e_float& x)                   { return ef::log(x) / ef::ln10(); }
 e_float ef::loga (const e_float& a, const e_float& x) { return ef::log(x) / ef::log(a); }
-e_float ef::log1p(const e_float& x)                   { return Log_Series::AtOne(x); }
+e_float ef::log1p(const e_float& x)                   { return (ef::small_arg(x) ? Log_Series::AtOne(x) : ef::log(ef::one() + x)); }
 
 e_float ef::log1p1m2(const e_float& x)
 {
-- 
2.43.0


From 088c7757ce8e235caeaba80a5bef6dffc933bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 19/74] fix: multiplication of NaN by a signed integer is NaN

---
 libs/e_float/src/e_float/e_float_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..9377d6a 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -128,7 +128,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if(isfinite() && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
-- 
2.43.0


From 80bdcbaa7221c6d2a1b53608c0c36cad4e224974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 20/74] fix: arithmetic with the most negative signed integer
 does not overflow

---
 libs/e_float/src/e_float/e_float_base.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 9377d6a..12a6136 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -100,7 +100,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
   if(n < static_cast<signed long long>(0))
   {
     negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
+    add_unsigned_long_long(0ULL - static_cast<unsigned long long>(n));
     negate();
   }
   else
@@ -113,14 +113,18 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  negate();
+  add_signed_long_long(n);
+  negate();
+
+  return static_cast<e_float&>(*this);
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : (0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
@@ -141,7 +145,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : (0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
-- 
2.43.0


From b37c765ab601335623ec5941f31d124c36da6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 21/74] fix: efx addition of an infinite or NaN operand

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..f85b169 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -419,6 +419,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isnan())
+  {
+    return operator=(v);
+  }
+
   if(isinf())
   {
     if(v.isinf() && (isneg() != v.isneg()))
@@ -429,7 +434,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
-  if(iszero())
+  if(v.isinf() || iszero())
   {
     return operator=(v);
   }
-- 
2.43.0


From 7a6eeb6c4a949a4e18319a40d449cd5864013423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 22/74] fix: efx subtraction of a number from itself

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index f85b169..5062791 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -664,6 +664,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From 41515c53c81a25b1755e82250a0863f7e18a85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 23/74] fix: efx division of operands of equal magnitude: sign
 of the quotient and 0/0

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5062791..ebcdd53 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -806,9 +806,16 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
   if(u_and_v_are_finite_and_identical)
   {
+    if(iszero())
+    {
+      return (*this = std::numeric_limits<e_float>::quiet_NaN());
+    }
+
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From 4250d6dcb5d1dd811ee35a691d1698bb023bdd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 24/74] fix: efx isone recognises one

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index ebcdd53..0899f10 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1319,7 +1319,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
-- 
2.43.0


From 150e3dc4091a3e8c9cc741a57ae1d084c3f3a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 25/74] fix: efx division of a negative number by integer zero
 is negative infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 0899f10..7516e7f 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -945,8 +945,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
     else
     {
-      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
-                          : -std::numeric_limits<e_float>::infinity());
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                        : -std::numeric_limits<e_float>::infinity());
 
       return *this;
     }
-- 
2.43.0


From 13db579109528ab14238167c2bdc8d1258366d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 26/74] fix: efx square root of positive infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7516e7f..1ca2393 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1094,12 +1094,12 @@ efx::e_float& efx::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || (!isfinite()))
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
-  if(iszero() || isone())
+  if(isinf() || iszero() || isone())
   {
     return *this;
   }
-- 
2.43.0


From 8ee08e56a0334c7c1264c49dbbe3999add0796d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 27/74] fix: gmp addition of an infinite or NaN operand

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..e26beeb 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -234,6 +234,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isnan())
+  {
+    return (*this = std::numeric_limits<e_float>::quiet_NaN());
+  }
+
   if(isinf())
   {
     if(v.isinf() && (isneg() != v.isneg()))
@@ -244,6 +249,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isinf())
+  {
+    return (*this = v);
+  }
+
   ::mpf_add(my_rop, my_rop, v.my_rop);
 
   // Check for overflow.
-- 
2.43.0


From 0d8b678656d4102aa85af9c299b5290e82894767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 28/74] fix: gmp subtraction of a number from itself

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index e26beeb..d268963 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -274,6 +274,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From abc0505613a3b714b2a3e62118fe33c655f0db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 29/74] fix: gmp infinities and NaN are neither zero nor
 integer; 1/NaN is NaN and 1/inf is zero

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index d268963..a49a75b 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -586,7 +586,7 @@ std::int32_t gmp::e_float::cmp(const e_float& v) const
 
 bool gmp::e_float::iszero() const
 {
-  return (::mpf_sgn(my_rop) == 0);
+  return (isfinite() && (::mpf_sgn(my_rop) == 0));
 }
 
 bool gmp::e_float::isone() const
@@ -598,7 +598,7 @@ bool gmp::e_float::isone() const
 bool gmp::e_float::isint() const
 {
   // Check if the value of *this is pure integer or very close to pure integer.
-  return (::mpf_integer_p(my_rop) != 0);
+  return (isfinite() && (::mpf_integer_p(my_rop) != 0));
 }
 
 bool gmp::e_float::isneg() const
-- 
2.43.0


From d5ecbddde71adf706dc8f74c0aa450d5decd9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 30/74] fix: gmp square root of positive infinity

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index a49a75b..7cd3c8b 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -513,12 +513,12 @@ gmp::e_float& gmp::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || !isfinite())
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
-  if(iszero() || isone())
+  if(isinf() || iszero() || isone())
   {
     return *this;
   }
-- 
2.43.0


From af89ea8ef7e60813e752a3aca2ff104210205b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 31/74] fix: gmp assignment to a number of reduced precision
 keeps all digits of the source

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 7cd3c8b..47223c7 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -634,8 +634,8 @@ e_float& gmp::e_float::operator=(const e_float& v)
     my_fpclass   = v.my_fpclass;
     my_prec_elem = v.my_prec_elem;
 
-    ::mpf_set         (my_rop, v.my_rop);
     ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+    ::mpf_set         (my_rop, v.my_rop);
   }
 
   return *this;
@@ -647,8 +647,8 @@ e_float& gmp::e_float::operator=(e_float&& v)
   my_fpclass   = v.my_fpclass;
   my_prec_elem = v.my_prec_elem;
 
-  ::mpf_set         (my_rop, v.my_rop);
   ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+  ::mpf_set         (my_rop, v.my_rop);
 
   return *this;
 }
-- 
2.43.0


From 2fe988145c17e120deed4294e6673bcaba20b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 32/74] fix: efx reading text into an infinite, NaN or
 reduced-precision number

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 1ca2393..6b119e4 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1825,6 +1825,10 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  // Reading a number defines its class and its precision.
+  my_fpclass   = ef_finite;
+  my_prec_elem = ef_elem_number;
+
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
 
-- 
2.43.0


From 9b289e365c0065ab51ea5c94c45c108a743ca881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 33/74] fix: gmp reading text into a live number neither leaks
 its handle nor keeps its old class

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 47223c7..b621fa5 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -48,6 +48,8 @@ gmp::e_float::e_float(const char* const s) : my_rop      (),
 {
   init();
 
+  ::mpf_init(my_rop);
+
   static_cast<void>(rd_string(s));
 }
 
@@ -57,6 +59,8 @@ gmp::e_float::e_float(const std::string& str) : my_rop      (),
 {
   init();
 
+  ::mpf_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -151,6 +155,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
   init();
 
+  ::mpf_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -989,6 +995,10 @@ bool gmp::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  // Reading a number defines its class and its precision.
+  my_fpclass   = ef_finite;
+  my_prec_elem = ef_max_digits10;
+
   // Remove spaces and tabs
   static const char spc = static_cast<char>(' ');
   static const char tab = static_cast<char>('\t');
@@ -1057,6 +1067,8 @@ bool gmp::e_float::rd_string(const char* const s)
   }
 
   // Set the e_float value.
+  ::mpf_clear(my_rop);
+
   const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
 
   if(b_negate)
-- 
2.43.0


From 15e936204e95d1ff7eaeacff40c38bd6eed93747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 34/74] fix: mpfr reading text into a live number does not leak
 its handle

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..7505a84 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -29,8 +29,8 @@ namespace local
   }
 }
 
-mpfr::e_float::e_float(const char* s)          { init(); static_cast<void>(rd_string(s)); }
-mpfr::e_float::e_float(const std::string& str) { init(); static_cast<void>(rd_string(str.c_str())); }
+mpfr::e_float::e_float(const char* s)          { init(); ::mpfr_init(my_rop); static_cast<void>(rd_string(s)); }
+mpfr::e_float::e_float(const std::string& str) { init(); ::mpfr_init(my_rop); static_cast<void>(rd_string(str.c_str())); }
 
 mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 {
@@ -109,6 +109,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
   init();
 
+  ::mpfr_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -600,7 +602,7 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
+bool mpfr::e_float::rd_string(const char* const s) { ::mpfr_clear(my_rop); return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 0); }
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
-- 
2.43.0


From 4dc140679c887205432e712ce0c37a23714f19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 35/74] fix: gmp default precision is set once without a data
 race

---
 libs/e_float/src/e_float/gmp/e_float_gmp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 8189b51..577e3c5 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -255,14 +255,14 @@
 
       static void init()
       {
-        static bool precision_is_initialized;
-
-        if(precision_is_initialized == false)
+        static const bool precision_is_initialized = []() -> bool
         {
-          precision_is_initialized = true;
-
           ::mpf_set_default_prec(my_default_prec);
-        }
+
+          return true;
+        }();
+
+        static_cast<void>(precision_is_initialized);
       }
 
       void from_unsigned_long_long(const unsigned long long u);
-- 
2.43.0


From 31d0f4c265afb811277ed1b015f3b653cc25ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 36/74] fix: mpfr default precision is set in every thread

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 907b5d5..125f113 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -253,14 +253,15 @@
 
       static void init()
       {
-        static bool precision_is_initialized;
-
-        if(precision_is_initialized == false)
+        // The default precision of mpfr is held per thread.
+        static thread_local const bool precision_is_initialized = []() -> bool
         {
-          precision_is_initialized = true;
-
           ::mpfr_set_default_prec(my_default_prec);
-        }
+
+          return true;
+        }();
+
+        static_cast<void>(precision_is_initialized);
       }
 
       void from_unsigned_long_long(const unsigned long long);
-- 
2.43.0


From 3716f0a1f1914ac5097014b042e2b6ba3f1c3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 37/74] fix: gmp and mpfr construction from the most negative
 signed integer does not overflow

---
 libs/e_float/src/e_float/gmp/e_float_gmp.h   | 2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 577e3c5..df73bc2 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -85,7 +85,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : (0ULL - static_cast<unsigned long long>(n)));
 
         from_unsigned_long_long(u);
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 125f113..9cc2284 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -62,7 +62,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : (0ULL - static_cast<unsigned long long>(n)));
 
         init();
 
-- 
2.43.0


From 3a152a862b98cb3ac4e307e99301e500fcadb0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 38/74] fix: gmp construction from infinite, NaN and large long
 double values

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index b621fa5..ba24c60 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -186,11 +186,13 @@ void gmp::e_float::from_long_double(const long double l)
 
   using std::isfinite;
 
-  if(isfinite(static_cast<double>(l)) == 0)
+  if(isfinite(l) == 0)
   {
     using std::isnan;
 
-    operator=(isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    ::mpf_init(my_rop);
+
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From 08571679ba49b2c96851ad1ed86f92b8d5571d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 39/74] fix: efx construction from large long double values

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 6b119e4..b95e504 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,12 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  using std::isfinite;
+  using std::isnan;
+
+  if(isfinite(l) == 0)
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From ee7c1535669eb54be9927f8a077ebfc143d14238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 40/74] fix: efx reading the text of the smallest positive
 number

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b95e504..8be5c28 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -2070,24 +2070,10 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  // The minimum value itself does not underflow.
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From d2dedc4d33ec8dac8697e2263ba519071e7b4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 41/74] fix: numeric_limits lowest is the most negative finite
 number

---
 libs/e_float/src/e_float/e_float.cpp | 1 +
 libs/e_float/src/e_float/e_float.h   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float.cpp b/libs/e_float/src/e_float/e_float.cpp
index efb5e53..547d116 100644
--- a/libs/e_float/src/e_float/e_float.cpp
+++ b/libs/e_float/src/e_float/e_float.cpp
@@ -32,6 +32,7 @@ bool operator> (const e_float& u, const e_float& v) { return (u.cmp(v) >  static
 const e_float& ef::value_nan() { static const e_float val = e_float().my_value_nan(); return val; }
 const e_float& ef::value_inf() { static const e_float val = e_float().my_value_inf(); return val; }
 const e_float& ef::value_max() { static const e_float val = e_float().my_value_max(); return val; }
+const e_float& ef::value_lowest() { static const e_float val = -ef::value_max(); return val; }
 const e_float& ef::value_min() { static const e_float val = e_float().my_value_min(); return val; }
 
 const e_float& ef::value_eps()
diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..89520a8 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -37,6 +37,7 @@
     const e_float& half     ();
     const e_float& value_min();
     const e_float& value_max();
+    const e_float& value_lowest();
     const e_float& value_eps();
     const e_float& value_inf();
     const e_float& value_nan();
@@ -75,7 +76,7 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static const e_float& lowest       () noexcept { return ef::value_lowest(); }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
-- 
2.43.0


From 53e10382c75692db1a33c07a84906993794a556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 42/74] fix: hypergeometric series at zero and terminating
 series

---
 .../functions/elementary/elementary_hyper_g.cpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
index f3e3c28..e51a1bd 100644
--- a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
@@ -36,7 +36,7 @@ e_float ef::hypergeometric_0f0(const e_float& x)
     {
       const std::int64_t order_check = static_cast<std::int64_t>(x_pow_n_div_n_fact.order() - H0F0.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(x_pow_n_div_n_fact) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -76,7 +76,7 @@ e_float ef::hypergeometric_0f1(const e_float& b, const e_float& x)
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H0F1.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -117,7 +117,7 @@ e_float ef::hypergeometric_1f0(const e_float& a, const e_float& x)
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F0.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -160,7 +160,7 @@ e_float ef::hypergeometric_1f1(const e_float& a, const e_float& b, const e_float
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F1.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -202,7 +202,7 @@ e_float ef::hypergeometric_2f0(const e_float& a, const e_float& b, const e_float
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F0.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -248,7 +248,7 @@ e_float ef::hypergeometric_2f1(const e_float& a, const e_float& b, const e_float
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
@@ -303,7 +303,7 @@ e_float ef::hypergeometric_pfq(const std::deque<e_float>& a, const  std::deque<e
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - HPFQ.order());
 
-      if(order_check < -ef::tolerance())
+      if(ef::iszero(term) || (order_check < -ef::tolerance()))
       {
         break;
       }
-- 
2.43.0


From f43d4d3ed467223fb9862f8b1e4be97b57ceda84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 43/74] fix: complex conjugate negates the imaginary part

---
 libs/e_float/src/e_float/e_float_complex.h | 29 +++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..3ba9f9a 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1095,7 +1095,7 @@
 
     template<typename T> complex<T> conj(const complex<T>& c__my_z)
     {
-      return complex<T>(-c__my_z.imag(), c__my_z.real());
+      return complex<T>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
@@ -1126,19 +1126,20 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(T(1U) - (c__my_z * c__my_z))));
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<T> __w = log(__iz + sqrt(T(1U) - (c__my_z * c__my_z)));
+
+      return complex<T>(__w.imag(), -__w.real());
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __z_conj = conj(c__my_z);
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
 
-      complex<T> z__result = conj(log(T(1) - __z_conj) - log(T(1) + __z_conj));
-
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      const complex<T> __w = log(T(1) - __iz) - log(T(1) + __iz);
 
-      return z__result;
+      return complex<T>(-__w.imag() / 2U, __w.real() / 2U);
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1687,7 +1688,7 @@
 
     template<> inline complex<e_float> conj(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(-c__my_z.imag(), c__my_z.real());
+      return complex<e_float>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
@@ -1713,14 +1714,18 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(ef::one() - (c__my_z * c__my_z))));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<e_float> c__my_w(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
+
+      return complex<e_float>(c__my_w.imag(), -c__my_w.real());
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_z_conj(conj(c__my_z));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_z_conj) - log(ef::one() + c__my_z_conj));
+      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_iz) - log(ef::one() + c__my_iz));
 
       return complex<e_float>(-c__my_pre_result.imag() / 2U,
                                c__my_pre_result.real() / 2U);
-- 
2.43.0


From e6d7f6d0aef8041e89e49b11505fffd57369d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 44/74] fix: complex projection is the identity on finite
 numbers and maps infinities to one point

---
 libs/e_float/src/e_float/e_float_complex.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 3ba9f9a..3635b20 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1100,10 +1100,14 @@
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
     {
-      const T __denominator_half((norm(c__my_z) + T(1U)) / 2U);
+      using std::isinf;
 
-      return complex<T>(c__my_z.real() / __denominator_half,
-                        c__my_z.imag() / __denominator_half);
+      if(isinf(c__my_z.real()) || isinf(c__my_z.imag()))
+      {
+        return complex<T>(std::numeric_limits<T>::infinity(), T(0));
+      }
+
+      return c__my_z;
     }
 
     template<typename T> complex<T> polar(const T& c__my_rho, const T& c__my_theta)
@@ -1693,10 +1697,12 @@
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
     {
-      const e_float two_over_denom((norm(c__my_z) + ef::one()).calculate_inv() * 2U);
+      if(c__my_z.real().isinf() || c__my_z.imag().isinf())
+      {
+        return complex<e_float>(std::numeric_limits<e_float>::infinity(), ef::zero());
+      }
 
-      return complex<e_float>(c__my_z.real() * two_over_denom,
-                              c__my_z.imag() * two_over_denom);
+      return c__my_z;
     }
 
     template<> inline complex<e_float> polar(const e_float& c__my_rho, const e_float& c__my_theta)
-- 
2.43.0


From cc6a27d570036f016a928b4288a1e1320630ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 45/74] fix: complex square root and norm of zero are zero

---
 libs/e_float/src/e_float/e_float_complex.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 3635b20..05456bb 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1083,6 +1083,11 @@
 
         c__my_result = (c__my_z.imag() * c__my_z.imag()) * (T(1U) + (c__my_a_over_b * c__my_a_over_b));
       }
+      else if(c__my_z.real() == T(0U))
+      {
+        // Both the real as well as the imaginary part are zero.
+        c__my_result = T(0U);
+      }
       else
       {
         const T c__my_b_over_a = c__my_z.imag() / c__my_z.real();
@@ -1306,6 +1311,11 @@
       const T    __real_part_fabs  ((__real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const T    __s_part          (sqrt((__real_part_fabs + abs(c__my_z)) / 2U));
 
+      if(__s_part == T(0U))
+      {
+        return complex<T>(__s_part, c__my_z.imag());
+      }
+
       if(__real_part_is_neg == false)
       {
         return complex<T>(__s_part,
@@ -1858,6 +1868,11 @@
       const e_float c__my_real_part_fabs((c__my_real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const e_float c__my_sqrt_part     (ef::sqrt((c__my_real_part_fabs + abs(c__my_z)) / 2U));
 
+      if(ef::iszero(c__my_sqrt_part))
+      {
+        return complex<e_float>(c__my_sqrt_part, c__my_z.imag());
+      }
+
       if(c__my_real_part_is_neg == false)
       {
         return complex<e_float>(c__my_sqrt_part,
-- 
2.43.0


From 317d3e25b87da7b3ca0aa80bb895709da1f0f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 46/74] fix: compound assignment with a built-in operand
 returns the left operand

---
 libs/e_float/src/e_float/e_float.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index 89520a8..e8b5f56 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -233,80 +233,80 @@
   // Global self add/sub/mul/div of e_float& with all built-in types.
   template<typename SignedIntegralType>
   typename std::enable_if<   (std::is_integral<SignedIntegralType>::value == true)
-                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float>::type operator+=(e_float& u, const SignedIntegralType& n)
+                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float&>::type operator+=(e_float& u, const SignedIntegralType& n)
   {
     return u.add_signed_long_long(n);
   }
 
   template<typename UnsignedIntegralType>
   typename std::enable_if<   (std::is_integral<UnsignedIntegralType>::value == true)
-                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float>::type operator+=(e_float& u, const UnsignedIntegralType& n)
+                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float&>::type operator+=(e_float& u, const UnsignedIntegralType& n)
   {
     return u.add_unsigned_long_long(n);
   }
 
   template<typename FloatingPointType>
-  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float>::type operator+=(e_float& u, const FloatingPointType& f)
+  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float&>::type operator+=(e_float& u, const FloatingPointType& f)
   {
     return u += e_float(f);
   }
 
   template<typename SignedIntegralType>
   typename std::enable_if<   (std::is_integral<SignedIntegralType>::value == true)
-                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float>::type operator-=(e_float& u, const SignedIntegralType& n)
+                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float&>::type operator-=(e_float& u, const SignedIntegralType& n)
   {
     return u.sub_signed_long_long(n);
   }
 
   template<typename UnsignedIntegralType>
   typename std::enable_if<   (std::is_integral<UnsignedIntegralType>::value == true)
-                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float>::type operator-=(e_float& u, const UnsignedIntegralType& n)
+                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float&>::type operator-=(e_float& u, const UnsignedIntegralType& n)
   {
     return u.sub_unsigned_long_long(n);
   }
 
   template<typename FloatingPointType>
-  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float>::type operator-=(e_float& u, const FloatingPointType& f)
+  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float&>::type operator-=(e_float& u, const FloatingPointType& f)
   {
     return u -= e_float(f);
   }
 
   template<typename SignedIntegralType>
   typename std::enable_if<   (std::is_integral<SignedIntegralType>::value == true)
-                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float>::type operator*=(e_float& u, const SignedIntegralType& n)
+                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float&>::type operator*=(e_float& u, const SignedIntegralType& n)
   {
     return u.mul_signed_long_long(n);
   }
 
   template<typename UnsignedIntegralType>
   typename std::enable_if<   (std::is_integral<UnsignedIntegralType>::value == true)
-                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float>::type operator*=(e_float& u, const UnsignedIntegralType& n)
+                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float&>::type operator*=(e_float& u, const UnsignedIntegralType& n)
   {
     return u.mul_unsigned_long_long(n);
   }
 
   template<typename FloatingPointType>
-  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float>::type operator*=(e_float& u, const FloatingPointType& f)
+  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float&>::type operator*=(e_float& u, const FloatingPointType& f)
   {
     return u *= e_float(f);
   }
 
   template<typename SignedIntegralType>
   typename std::enable_if<   (std::is_integral<SignedIntegralType>::value == true)
-                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float>::type operator/=(e_float& u, const SignedIntegralType& n)
+                          && (std::is_unsigned<SignedIntegralType>::value == false), e_float&>::type operator/=(e_float& u, const SignedIntegralType& n)
   {
     return u.div_signed_long_long(n);
   }
 
   template<typename UnsignedIntegralType>
   typename std::enable_if<   (std::is_integral<UnsignedIntegralType>::value == true)
-                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float>::type operator/=(e_float& u, const UnsignedIntegralType& n)
+                          && (std::is_unsigned<UnsignedIntegralType>::value == true), e_float&>::type operator/=(e_float& u, const UnsignedIntegralType& n)
   {
     return u.div_unsigned_long_long(n);
   }
 
   template<typename FloatingPointType>
-  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float>::type operator/=(e_float& u, const FloatingPointType& f)
+  typename std::enable_if<(std::is_floating_point<FloatingPointType>::value == true), e_float&>::type operator/=(e_float& u, const FloatingPointType& f)
   {
     return u /= e_float(f);
   }
-- 
2.43.0


From ad3892b3fb190b5eb89103b8c8da2347b1c6867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 47/74] fix: fmod truncates the quotient towards zero for a
 negative divisor

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..adba537 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -87,7 +87,8 @@ e_float ef::frexp(const e_float& v, int* expon)
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  const e_float q = v1 / v2;
+  const e_float n = (ef::isneg(q) ? ef::ceil(q) : ef::floor(q));
 
   return v1 - (n * v2);
 }
-- 
2.43.0


From 84d7a1c8c6b59d265940642c1bf98638ce6e857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 48/74] fix: assignment of a number to a moved-from number
 allocates its digits

---
 libs/e_float/src/utility/util_dynamic_array.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..6e71996 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -136,9 +136,17 @@
       {
         if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          if(elem_count != other.elem_count)
+          {
+            // The sizes differ (as they do following a move): Use a copy having the size of other.
+            dynamic_array tmp(other);
+
+            swap(tmp);
+          }
+          else
+          {
+            std::copy(other.elems, other.elems + elem_count, elems);
+          }
         }
 
         return *this;
-- 
2.43.0


From 19e074d32ba6eb47f85f930ca351bc0f8b042edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 49/74] fix: move assignment of a number to itself keeps its
 digits

---
 libs/e_float/src/utility/util_dynamic_array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 6e71996..a283cf9 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -155,6 +155,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From 3a38741d413e5e877c1acf724ea6f6358900ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 50/74] fix: sincos gives the right cosine when the sine is
 written over the argument

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index be94f44..3e4ca21 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -246,8 +246,11 @@ e_float ef::cos(const e_float& x)
 
 void ef::sincos(const e_float& x, e_float* const p_sin, e_float* const p_cos)
 {
-  if(p_sin != static_cast<e_float*>(0U)) { *p_sin = ef::sin(x); }
-  if(p_cos != static_cast<e_float*>(0U)) { *p_cos = ef::cos(x); }
+  // Use a copy of the argument since a result might be written to it.
+  const e_float xx(x);
+
+  if(p_sin != static_cast<e_float*>(0U)) { *p_sin = ef::sin(xx); }
+  if(p_cos != static_cast<e_float*>(0U)) { *p_cos = ef::cos(xx); }
 }
 
 e_float ef::tan(const e_float& x)
-- 
2.43.0


From 2b0280e991c18d196c7776526c03ae9fdafb8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 51/74] fix: subtracting or dividing a complex number by itself
 handles zero, infinity and NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 39 +++++-----------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 05456bb..7fe69e1 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -235,16 +235,8 @@
       template<typename X>
       complex& operator-=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
-        {
-          c__my_re = value_type(0);
-          c__my_im = value_type(0);
-        }
-        else
-        {
-          c__my_re -= static_cast<value_type>(c__my_z.c__my_re);
-          c__my_im -= static_cast<value_type>(c__my_z.c__my_im);
-        }
+        c__my_re -= static_cast<value_type>(c__my_z.c__my_re);
+        c__my_im -= static_cast<value_type>(c__my_z.c__my_im);
 
         return *this;
       }
@@ -273,8 +265,7 @@
       {
         if(this == &c__my_z)
         {
-          c__my_re = value_type(1);
-          c__my_im = value_type(0);
+          return operator/=(complex(c__my_z));
         }
         else
         {
@@ -433,8 +424,7 @@
       {
         if(this == &c__my_z)
         {
-          c__my_re = 1.0F;
-          c__my_im = 0.0F;
+          return operator/=(complex(c__my_z));
         }
         else
         {
@@ -597,8 +587,7 @@
       {
         if(this == &c__my_z)
         {
-          c__my_re = 1.0;
-          c__my_im = 0.0;
+          return operator/=(complex(c__my_z));
         }
         else
         {
@@ -761,8 +750,7 @@
       {
         if(this == &c__my_z)
         {
-          c__my_re = 1.0L;
-          c__my_im = 0.0L;
+          return operator/=(complex(c__my_z));
         }
         else
         {
@@ -1511,16 +1499,8 @@
       template<typename X>
       complex& operator-=(const complex<X>& c__my_z)
       {
-        if(this == &c__my_z)
-        {
-          c__my_re = ef::zero();
-          c__my_im = ef::zero();
-        }
-        else
-        {
-          c__my_re -= static_cast<e_float>(c__my_z.c__my_re);
-          c__my_im -= static_cast<e_float>(c__my_z.c__my_im);
-        }
+        c__my_re -= static_cast<e_float>(c__my_z.c__my_re);
+        c__my_im -= static_cast<e_float>(c__my_z.c__my_im);
 
         return *this;
       }
@@ -1549,8 +1529,7 @@
       {
         if(this == &c__my_z)
         {
-          c__my_re = ef::one ();
-          c__my_im = ef::zero();
+          return operator/=(complex(c__my_z));
         }
         else
         {
-- 
2.43.0


From 803b38735e62aa6507f296c9c0af95282e04a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 52/74] fix: roots carry the guard digits of the full working
 precision

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index e219fd7..6c66826 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -75,7 +75,8 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
   
   }
 
-  result.precision(static_cast<std::int32_t>(ef::tolerance()));
+  // Restore the full precision including the guard digits.
+  result.precision(static_cast<std::int32_t>(ef::tolerance() * 2));
 
   return result;
 }
-- 
2.43.0


From 0198812165c2f08fd2332e291cefa8f4794ea03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 53/74] fix: dividing by a small integer keeps the last digit
 group

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 8be5c28..29cd132 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -982,7 +982,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
 
       // Shift result of the division one element to the left.
       std::copy(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
-                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem - 1),
+                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem),
                 my_data.begin());
 
       const array_type::size_type ip = static_cast<array_type::size_type>(my_prec_elem - 1);
-- 
2.43.0


From c6884aace5e41888a9c02853a348f5cfe9c8fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 54/74] fix: gmp and mpfr extraction of signed long long
 reaches the most negative value

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index ba24c60..07e846d 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -787,7 +787,7 @@ signed long long gmp::e_float::extract_signed_long_long() const
   if(nx > ef::signed_long_long_max())
   {
     return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+                     :  (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 7505a84..7edf875 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -413,7 +413,7 @@ signed long long mpfr::e_float::extract_signed_long_long() const
   if(nx > ef::signed_long_long_max())
   {
     return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+                     :  (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
-- 
2.43.0


From 5844e77c5b06edd4b00fdb765a9df9b871003da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 55/74] fix: efx extraction of the most negative signed long
 long does not overflow

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 29cd132..fb5a502 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1563,7 +1563,7 @@ signed long long efx::e_float::extract_signed_long_long() const
     }
   }
 
-  return ((!b_neg) ? static_cast<signed long long>(val) : static_cast<signed long long>(-static_cast<signed long long>(val)));
+  return ((!b_neg) ? static_cast<signed long long>(val) : static_cast<signed long long>(0ULL - val));
 }
 
 unsigned long long efx::e_float::extract_unsigned_long_long() const
-- 
2.43.0


From f6a3b48afd2d356194f22f423bcc41918157d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 56/74] fix: integer powers end for the most negative exponent

---
 .../e_float/src/e_float/detail/e_float_detail_pown_template.h | 2 +-
 libs/e_float/src/e_float/e_float_complex.h                    | 2 +-
 libs/e_float/src/functions/elementary/elementary_trans.cpp    | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
index 31c59eb..c2f02b1 100644
--- a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
+++ b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
@@ -29,7 +29,7 @@
     // Compute the pure power of typename T t^p. Binary splitting of the power is
     // used. The resulting computational complexity is proportional to O[log2(|p|)].
 
-    if     (p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
+    if     (p <  static_cast<std::int64_t>(0)) { return T(1) / (pown_template(t, -(p + 1)) * t); }
     else if(p == static_cast<std::int64_t>(0)) { return T(1); }
     else if(p == static_cast<std::int64_t>(1)) { return t; }
     else if(p == static_cast<std::int64_t>(2)) { return (t * t); }
diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 7fe69e1..7af1906 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1213,7 +1213,7 @@
 
     template<typename T> complex<T> pow(const complex<T>& c__my_z, int c__my_pn)
     {
-      if     (c__my_pn <  0) { return  T(1U) / pow(c__my_z, -c__my_pn); }
+      if     (c__my_pn <  0) { return  T(1U) / (pow(c__my_z, -(c__my_pn + 1)) * c__my_z); }
       else if(c__my_pn == 0) { return  complex<T>(T(1U)); }
       else if(c__my_pn == 1) { return  c__my_z; }
       else if(c__my_pn == 2) { return  c__my_z * c__my_z; }
diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 6c66826..78bbfb7 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -25,7 +25,7 @@ namespace ElementaryTrans_Series
 
 e_float ef::pow2(const std::int64_t p)
 {
-  if     (p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
+  if     (p <  -1) { const e_float half_value( { UINT32_C(50000000) }, -8 ); return ef::pow(half_value, -(p + 1)) * half_value; }
   else if(p == -1) { return e_float( { UINT32_C(50000000) }, -8 ); }
   else if(p ==  0) { return e_float( { UINT32_C(1) } ); }
   else if(p ==  1) { return e_float( { UINT32_C(2) } ); }
@@ -514,7 +514,7 @@ e_float ef::pow(const e_float& b, const std::int64_t p)
 
   floating_point_type result;
 
-  if     (p <  0) { result = 1 / pow(b, -p); }
+  if     (p <  0) { result = 1 / (pow(b, -(p + 1)) * b); }
   else if(p == 0) { result = floating_point_type(1U); }
   else if(p == 1) { result = b; }
   else if(p == 2) { result = b; result *= b; }
-- 
2.43.0


From ff29da936cfec7b5651df4289f8e32958abb7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 57/74] fix: roots of high and of most negative order

---
 .../functions/elementary/elementary_trans.cpp | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 78bbfb7..afcbe22 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -20,7 +20,8 @@
 
 namespace ElementaryTrans_Series
 {
-  static e_float rootn_inv(const e_float& x, const std::int32_t p);
+  static e_float rootn_inv(const e_float& x, const std::uint32_t p);
+  static e_float rootn_pos(const e_float& x, const std::uint32_t p);
 }
 
 e_float ef::pow2(const std::int64_t p)
@@ -32,7 +33,7 @@ e_float ef::pow2(const std::int64_t p)
   else             { return ef::pow(e_float(2U), p); }
 }
 
-static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::int32_t p)
+static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::uint32_t p)
 {
   // Compute the value of [1 / (rootn of x)] with n = p.
 
@@ -44,18 +45,18 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   ef::to_parts(x, dd, ne);
 
-  // Adjust exponent and mantissa such that ne is an even power of p.
-  while(ne % static_cast<std::int64_t>(p))
-  {
-    ++ne;
-    dd /= 10.0;
-  }
-  
-  // Estimate the one over the root using simple manipulations.
-  const double one_over_rtn_d = ::pow(dd, -1.0 / static_cast<double>(p));
+  // Raise the exponent by n_up such that it is an even multiple of p.
+  const std::int64_t p64  = static_cast<std::int64_t>(p);
+  const std::int64_t n_up = (p64 - (ne % p64)) % p64;
+
+  ne += n_up;
+
+  // Estimate the one over the root. The mantissa that belongs to the raised
+  // exponent is (dd / 10^n_up). It is not representable for large p.
+  const double one_over_rtn_d = ::pow(10.0, (static_cast<double>(n_up) - ::log10(dd)) / static_cast<double>(p));
 
   // Set the result equal to the initial guess.
-  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p));
+  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p64));
 
   static const std::int32_t double_digits10_minus_a_few = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(3));
 
@@ -67,7 +68,7 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
     result.precision(new_prec);
 
     // Perform the next iteration.
-    e_float term = (((-ef::detail::pown_template(result, p) * x) + ef::one()) / p) + ef::one();
+    e_float term = (((-ef::detail::pown_template(result, p64) * x) + ef::one()) / p) + ef::one();
 
     term.precision(new_prec);
 
@@ -98,27 +99,32 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return ef::rootn(ef::one() / x, static_cast<std::int32_t>(-p));
+    return ElementaryTrans_Series::rootn_pos(ef::one() / x, static_cast<std::uint32_t>(0U - static_cast<std::uint32_t>(p)));
   }
 
-  if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
+  return ElementaryTrans_Series::rootn_pos(x, static_cast<std::uint32_t>(p));
+}
+
+static e_float ElementaryTrans_Series::rootn_pos(const e_float& x, const std::uint32_t p)
+{
+  if((p == static_cast<std::uint32_t>(0U)) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x) || ef::isinf(x))
+  else if((p == static_cast<std::uint32_t>(1U)) || ef::iszero(x) || ef::isinf(x))
   {
     return x;
   }
-  else if(p == static_cast<std::int32_t>(2))
+  else if(p == static_cast<std::uint32_t>(2U))
   {
     return ef::sqrt(x);
   }
-  else if((p == static_cast<std::int32_t>(3)) && x.i_have_my_own_cbrt())
+  else if((p == static_cast<std::uint32_t>(3U)) && x.i_have_my_own_cbrt())
   {
     return e_float::my_own_cbrt(x);
   }
 
-  const e_float rtn =  (x.i_have_my_own_rootn() ? e_float::my_own_rootn(x, static_cast<std::uint32_t>(p))
+  const e_float rtn =  (x.i_have_my_own_rootn() ? e_float::my_own_rootn(x, p)
                                                 : ElementaryTrans_Series::rootn_inv(x, p).calculate_inv());
 
   return rtn;
@@ -133,7 +139,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return ef::rootn(x, static_cast<std::int32_t>(-p));
+    return ElementaryTrans_Series::rootn_pos(x, static_cast<std::uint32_t>(0U - static_cast<std::uint32_t>(p)));
   }
 
   if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
@@ -150,7 +156,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
   }
 
   const e_float rtn_inv =  (x.i_have_my_own_rootn() ? ef::one() / e_float::my_own_rootn(x, static_cast<std::uint32_t>(p))
-                                                    : ElementaryTrans_Series::rootn_inv(x, p));
+                                                    : ElementaryTrans_Series::rootn_inv(x, static_cast<std::uint32_t>(p)));
 
   return rtn_inv;
 }
-- 
2.43.0


From a7b3b219911282296166ddee75fba398264a9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 58/74] fix: factorials of the largest and double factorials of
 the extreme integers

---
 .../e_float/src/functions/gamma/factorial.cpp |  6 +++---
 .../src/functions/gamma/factorial2.cpp        | 20 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial.cpp b/libs/e_float/src/functions/gamma/factorial.cpp
index e0396e5..515eecf 100644
--- a/libs/e_float/src/functions/gamma/factorial.cpp
+++ b/libs/e_float/src/functions/gamma/factorial.cpp
@@ -16,10 +16,10 @@
 
 namespace Factorial_Series
 {
-  e_float AtInfinity(const std::uint32_t n);
+  e_float AtInfinity(const std::uint64_t n);
 }
 
-e_float Factorial_Series::AtInfinity(const std::uint32_t n)
+e_float Factorial_Series::AtInfinity(const std::uint64_t n)
 {
   const e_float x                              = e_float(n);
         e_float one_over_x_pow_two_n_minus_one = ef::one() / x;
@@ -66,7 +66,7 @@ e_float Factorial_Series::AtInfinity(const std::uint32_t n)
 e_float ef::factorial(const std::uint32_t n)
 {
   return (static_cast<std::size_t>(n) < Tables::A000142().size()) ? Tables::A000142()[n]()
-                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint32_t>(n + static_cast<std::uint32_t>(1U)));
+                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint64_t>(n) + static_cast<std::uint64_t>(1U));
 }
 
 e_float ef::binomial(const std::uint32_t n, const std::uint32_t k)
diff --git a/libs/e_float/src/functions/gamma/factorial2.cpp b/libs/e_float/src/functions/gamma/factorial2.cpp
index 16f8ad6..a592b77 100644
--- a/libs/e_float/src/functions/gamma/factorial2.cpp
+++ b/libs/e_float/src/functions/gamma/factorial2.cpp
@@ -14,12 +14,12 @@
 
 namespace Factorial2_Series
 {
-  e_float AtInfinity(const std::int32_t n);
+  e_float AtInfinity(const std::uint32_t n);
 }
 
-e_float Factorial2_Series::AtInfinity(const std::int32_t n)
+e_float Factorial2_Series::AtInfinity(const std::uint32_t n)
 {
-  const bool n_is_even = static_cast<std::int32_t>(n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0U);
+  const bool n_is_even = static_cast<std::uint32_t>(n % static_cast<std::uint32_t>(2U)) == static_cast<std::uint32_t>(0U);
 
   if(n_is_even)
   {
@@ -29,9 +29,9 @@ e_float Factorial2_Series::AtInfinity(const std::int32_t n)
   }
   else
   {
-    const std::int32_t n_plus_one = static_cast<std::int32_t>(static_cast<std::int32_t>(n) + static_cast<std::int32_t>(1));
+    const std::uint32_t n_plus_one = static_cast<std::uint32_t>(n + static_cast<std::uint32_t>(1U));
 
-    return ef::factorial(static_cast<std::uint32_t>(n_plus_one)) / ef::factorial2(n_plus_one);
+    return ef::factorial(n_plus_one) / Factorial2_Series::AtInfinity(n_plus_one);
   }
 }
 
@@ -42,7 +42,7 @@ e_float ef::factorial2(const std::int32_t n)
   if(!n_is_neg)
   {
     return (static_cast<std::size_t>(n) < Tables::A006882().size()) ? Tables::A006882()[static_cast<std::size_t>(n)]()
-                                                                    : Factorial2_Series::AtInfinity(n);
+                                                                    : Factorial2_Series::AtInfinity(static_cast<std::uint32_t>(n));
   }
   else
   {
@@ -51,8 +51,8 @@ e_float ef::factorial2(const std::int32_t n)
       return ef::one();
     }
 
-    const std::int32_t nn        = (!n_is_neg ? n : static_cast<std::int32_t>(-n));
-    const bool  n_is_even = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0U));
+    const std::uint32_t nn       = static_cast<std::uint32_t>(0U - static_cast<std::uint32_t>(n));
+    const bool  n_is_even = (static_cast<std::uint32_t>(nn % static_cast<std::uint32_t>(2U)) == static_cast<std::uint32_t>(0U));
 
     if(n_is_even)
     {
@@ -61,10 +61,10 @@ e_float ef::factorial2(const std::int32_t n)
     else
     {
       // Double factorial for negative odd integers.
-      const std::int32_t n_minus_one_over_two = static_cast<std::int32_t>(static_cast<std::int32_t>(nn - static_cast<std::int32_t>(1)) / static_cast<std::int32_t>(2));
+      const std::int32_t n_minus_one_over_two = static_cast<std::int32_t>(static_cast<std::uint32_t>(nn - static_cast<std::uint32_t>(1U)) / static_cast<std::uint32_t>(2U));
       const bool  b_negate             = static_cast<std::int32_t>(n_minus_one_over_two % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0);
 
-      const e_float f2 = ef::one() / ef::factorial2(static_cast<std::int32_t>(nn - static_cast<std::int32_t>(2)));
+      const e_float f2 = ef::one() / ef::factorial2(static_cast<std::int32_t>(nn - static_cast<std::uint32_t>(2U)));
 
       return (!b_negate ? f2 : -f2);
     }
-- 
2.43.0


From 1d997ef3e0e22397c94f86872d91888e70103666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 59/74] fix: the zeta function of the most negative integers

---
 libs/e_float/src/functions/zeta/zeta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..a8922f2 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -275,11 +275,11 @@ e_float ef::riemann_zeta(const std::int32_t n)
     {
       if(n < static_cast<std::int32_t>(0))
       {
-        const std::uint32_t two_n = static_cast<std::uint32_t>(static_cast<std::int32_t>(-n) + static_cast<std::int32_t>(1));
+        const std::uint32_t two_n = static_cast<std::uint32_t>(static_cast<std::uint32_t>(1U) - static_cast<std::uint32_t>(n));
 
         const bool is_even = (n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0);
 
-        return is_even ? ef::zero() : -ef::bernoulli(two_n) / static_cast<std::int32_t>(two_n);
+        return is_even ? ef::zero() : -ef::bernoulli(two_n) / two_n;
       }
       else
       {
-- 
2.43.0


From 04ab21d8ab4fffb642168ad0496e1e087a810659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 60/74] fix: gamma_near_n of the most negative integer

---
 libs/e_float/src/functions/gamma/gamma.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 59aa634..5ea9168 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -201,11 +201,9 @@ namespace GammaTemplate
     }
     else
     {
-      const std::int32_t nn = static_cast<std::int32_t>(-n);
+      const bool b_neg = (static_cast<std::int32_t>(n % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0));
 
-      const bool b_neg = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0));
-
-      const T n_minus_x = nn - x;
+      const T n_minus_x = -(n + x);
       const T Gn        = pi() / (GammaTemplate::gamma<T, TR>(n_minus_x + one()) * sin(pi() * x));
 
       return ((!b_neg) ? Gn : -Gn);
-- 
2.43.0


From f102c1639a75da6be8dbd2d3617525023b313348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:04 +0000
Subject: [PATCH 61/74] fix: mpfr extraction of integers truncates before
 taking digits and handles NaN

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 7edf875..571a54d 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -406,9 +406,14 @@ long double mpfr::e_float::extract_long_double() const
 
 signed long long mpfr::e_float::extract_signed_long_long() const
 {
+  if(isnan())
+  {
+    return static_cast<signed long long>(0);
+  }
+
   const bool b_neg = isneg();
 
-  const e_float nx = ef::fabs(*this);
+  const e_float nx = ef::fabs(extract_integer_part());
 
   if(nx > ef::signed_long_long_max())
   {
@@ -455,7 +460,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
     return (std::numeric_limits<unsigned long long>::max)();
   }
 
-  if(*this < ef::one())
+  if(isnan() || (*this < ef::one()))
   {
     return static_cast<unsigned long long>(0U);
   }
@@ -469,7 +474,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, extract_integer_part().my_rop, GMP_RNDN));
 
   std::string str_ull(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
-- 
2.43.0


From 7f223322e6a110387272645144110858c2eb99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 62/74] fix: the table of primes is filled once, also when
 first used by several threads

---
 libs/e_float/src/functions/integer/prime.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/integer/prime.cpp b/libs/e_float/src/functions/integer/prime.cpp
index 8469b58..94fa025 100644
--- a/libs/e_float/src/functions/integer/prime.cpp
+++ b/libs/e_float/src/functions/integer/prime.cpp
@@ -95,10 +95,10 @@ namespace Primes
   std::deque<std::uint32_t>& Data()
   {
     // Create a static data table of primes and return a reference to it.
-    static std::deque<std::uint32_t> primes;
-
-    if(primes.empty())
+    static std::deque<std::uint32_t> primes = []() -> std::deque<std::uint32_t>
     {
+      std::deque<std::uint32_t> primes_init;
+
       // Select a maximum count of prime numbers to be stored
       // in the data table. This number is selected such that
       // the value of the highest prime will slightly exceed
@@ -107,8 +107,10 @@ namespace Primes
       // while computing the prime factors of unsigned 32-bit integers,
       // as done in the subroutine Factors(...).
 
-      Primes::Generator(static_cast<std::uint32_t>(6550U), primes);
-    }
+      Primes::Generator(static_cast<std::uint32_t>(6550U), primes_init);
+
+      return primes_init;
+    }();
 
     return primes;
   }
-- 
2.43.0


From 4256a6bd3dad8b3bfd4a547222a24197eb5e4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 63/74] fix: the table of prime factors is filled once, also
 when first used by several threads

---
 .../src/functions/integer/prime_factor.cpp    | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..ed71339 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -82,17 +82,17 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
   // Factor the input integer into a list of primes. For small inputs less than 10,000
   // use the tabulated prime factors list. Calculate the prime factors for larger inputs
   // above 10,000.
-  static std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list;
-
-  if(prime_factors_list.empty())
+  static const std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list = []() -> std::vector<std::deque<Util::point<std::uint32_t>>>
   {
+    std::vector<std::deque<Util::point<std::uint32_t>>> factors_list;
+
     // Generate a table of the sets of the first 10,000 integer prime factorizations.
-    prime_factors_list.resize(static_cast<std::size_t>(10000U));
+    factors_list.resize(static_cast<std::size_t>(10000U));
 
-    prime_factors_list[static_cast<std::size_t>(0U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(0U), static_cast<std::uint32_t>(1U)));
-    prime_factors_list[static_cast<std::size_t>(1U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(1U), static_cast<std::uint32_t>(1U)));
-    prime_factors_list[static_cast<std::size_t>(2U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(2U), static_cast<std::uint32_t>(1U)));
-    prime_factors_list[static_cast<std::size_t>(3U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(3U), static_cast<std::uint32_t>(1U)));
+    factors_list[static_cast<std::size_t>(0U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(0U), static_cast<std::uint32_t>(1U)));
+    factors_list[static_cast<std::size_t>(1U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(1U), static_cast<std::uint32_t>(1U)));
+    factors_list[static_cast<std::size_t>(2U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(2U), static_cast<std::uint32_t>(1U)));
+    factors_list[static_cast<std::size_t>(3U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(3U), static_cast<std::uint32_t>(1U)));
 
     static const std::uint32_t n_five = static_cast<std::uint32_t>(5U);
 
@@ -101,23 +101,25 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
                 Primes::Data().cend(),
                 n_five);
 
-    for(std::size_t i = static_cast<std::size_t>(4U); i < prime_factors_list.size(); i++)
+    for(std::size_t i = static_cast<std::size_t>(4U); i < factors_list.size(); i++)
     {
       if((it_next_prime != Primes::Data().cend()) && (static_cast<std::uint32_t>(i) == *it_next_prime))
       {
         ++it_next_prime;
 
-        prime_factors_list[i] =
+        factors_list[i] =
           std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U),
                                                  Util::point<std::uint32_t>(static_cast<std::uint32_t>(i),
                                                  static_cast<std::uint32_t>(1U)));
       }
       else
       {
-        Primes::Factors(static_cast<std::uint32_t>(i), prime_factors_list[i]);
+        Primes::Factors(static_cast<std::uint32_t>(i), factors_list[i]);
       }
     }
-  }
+
+    return factors_list;
+  }();
 
   if(static_cast<std::size_t>(n) < prime_factors_list.size())
   {
-- 
2.43.0


From 74049227b1596f959fd565ca030334095ae32ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 64/74] fix: the primes of the zeta function are set up once,
 also when first used by several threads

---
 libs/e_float/src/functions/zeta/zeta.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index a8922f2..64cf7e9 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -122,12 +122,14 @@ namespace Zeta_Series
     std::map<std::uint32_t, T> n_pow_s_prime_factor_map;
 
     // Generate a list of the first 300 prime numbers.
-    static std::deque<std::uint32_t> prime_data;
-
-    if(prime_data.empty())
+    static const std::deque<std::uint32_t> prime_data = []() -> std::deque<std::uint32_t>
     {
-      prime(static_cast<std::uint32_t>(300U), prime_data);
-    }
+      std::deque<std::uint32_t> prime_data_init;
+
+      prime(static_cast<std::uint32_t>(300U), prime_data_init);
+
+      return prime_data_init;
+    }();
 
     static const std::vector<std::uint32_t> primes(prime_data.cbegin(), prime_data.cend());
 
-- 
2.43.0


From dfd7478684820e2bffbba903fc322001943e4fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 65/74] fix: the table of integer logarithms is held per thread

---
 libs/e_float/src/utility/util_power_j_pow_x.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_power_j_pow_x.cpp b/libs/e_float/src/utility/util_power_j_pow_x.cpp
index c77826b..e289374 100644
--- a/libs/e_float/src/utility/util_power_j_pow_x.cpp
+++ b/libs/e_float/src/utility/util_power_j_pow_x.cpp
@@ -19,7 +19,7 @@ namespace Util
 {
   static e_float logn(const std::uint32_t n)
   {
-    static std::map<std::uint32_t, e_float> ln_data;
+    static thread_local std::map<std::uint32_t, e_float> ln_data;
 
     const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
 
-- 
2.43.0


From efae477a0b1db720cffd2b25f210bb2315c753b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 66/74] fix: mpfr reads a number from a stream with full
 precision in every thread

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 571a54d..a694c20 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -607,7 +607,7 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { ::mpfr_clear(my_rop); return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 0); }
+bool mpfr::e_float::rd_string(const char* const s) { init(); ::mpfr_clear(my_rop); return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 0); }
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
-- 
2.43.0


From c067872ad0d92bffde1d01da5b49c10e74384dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 67/74] fix: the iteration for many digits of pi runs once,
 also when first used by several threads

---
 libs/e_float/src/functions/constants/constants.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/constants/constants.cpp b/libs/e_float/src/functions/constants/constants.cpp
index fa8d737..55e6ca5 100644
--- a/libs/e_float/src/functions/constants/constants.cpp
+++ b/libs/e_float/src/functions/constants/constants.cpp
@@ -100,12 +100,9 @@ const e_float& ef::pi()
   }
   else
   {
-    static bool is_initialized = false;
-    static e_float val_pi;
-
-    if(!is_initialized)
+    static const e_float val = []() -> e_float
     {
-      is_initialized = true;
+      e_float val_pi;
 
       e_float a(1U);
       e_float bB("0.5");
@@ -149,9 +146,10 @@ const e_float& ef::pi()
 
       val_pi += bB;
       val_pi *= s.calculate_inv();
-    }
 
-    static const e_float val(val_pi);
+      return val_pi;
+    }();
+
     return val;
   }
 }
-- 
2.43.0


From 6a07007e1f0cc5a609f2da3cdd6f045ff39b4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 68/74] fix: gmp and mpfr print the exponent that belongs to
 the rounded digits, e.g. 9.9996 with four digits was 1.000

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 6 +++---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 07e846d..64d800a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -954,8 +954,6 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -975,11 +973,13 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin(), str.cbegin() + 1U);
   }
 
-  // Erase the exponent.
+  // Get the exponent, which belongs to the rounded digits, and erase it.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
   if(pos_letter_e != std::string::npos)
   {
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index a694c20..e1f01cc 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -559,8 +559,6 @@ std::int64_t mpfr::e_float::get_order_fast() const
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -589,11 +587,13 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
     str.erase(str.cbegin(), str.cbegin() + 1U);
   }
 
-  // Erase the exponent.
+  // Get the exponent, which belongs to the rounded digits, and erase it.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
   if(pos_letter_e != std::string::npos)
   {
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-- 
2.43.0


From 133b5e1ed62f01d1a7211f2b605d15f94be44705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 69/74] fix: gmp and mpfr order of numbers just below a power
 of ten

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 14 +++++++++++++-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 64d800a..d315d61 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -914,7 +914,19 @@ std::int64_t gmp::e_float::get_order_exact() const
 
   static_cast<void>(gmp_sprintf(buf.data(), str_fmt.c_str(), my_rop));
 
-  const std::string str = std::string(buf.data());
+  std::string str = std::string(buf.data());
+
+  if(str.find("1.0000000000e") != std::string::npos)
+  {
+    // These digits may have been rounded up to the next power of ten. Get all of the digits.
+    str_fmt = std::string("%.") + (Util::lexical_cast(static_cast<std::int32_t>(ef_max_digits10)) + "Fe");
+
+    util::dynamic_array<char> buf_all(static_cast<std::size_t>(e_float::ef_max_digits10 + 64));
+
+    static_cast<void>(gmp_sprintf(buf_all.data(), str_fmt.c_str(), my_rop));
+
+    str = std::string(buf_all.data());
+  }
 
   // Extract the base-10 exponent.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e1f01cc..4e11975 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -515,7 +515,8 @@ std::int64_t mpfr::e_float::get_order_exact() const
   // string extraction with 10 decimal digits.
 
   // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10RNe");
+  // Do not round up to the next power of ten.
+  std::string str_fmt = std::string("%.10RZe");
 
   // Get the ten digits.
   util::dynamic_array<char> buf(64U);
-- 
2.43.0


From bd6eeadd6b40f5ebbfc3a2a7ce8182566a860a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 70/74] fix: numbers less than one print all their significant
 digits in the default format, e.g. 0.0007 with one digit was 0.07 or threw

---
 libs/e_float/src/e_float/e_float_base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 12a6136..82f4f03 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -250,10 +250,14 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   // If the float field is not set, reduce the number of digits requested
   // from e_float such that it neither exceeds the ostream's precision
   // nor e_float's max_digits10.
+  // The precision counts the significant digits. These do not include
+  // the leading zeros of a number less than one.
   if(my_float_field == local::os_float_field_none)
   {
     const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+
+    the_number_of_digits_i_want_from_e_float =
+      ((the_exp < static_cast<std::int64_t>(0)) ? max_digits : (std::min)(the_number_of_digits_i_want_from_e_float, max_digits));
   }
 
   // Extract the rounded output string with the desired number of digits.
@@ -399,7 +403,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert((trim_trailing_zeros ? minus_exp_minus_one : (std::min)(minus_exp_minus_one, os_precision)), static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
-- 
2.43.0


From 04db6c402c26561f5538148d1705a7b285ca5e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 71/74] fix: fixed output of numbers below the last place is
 rounded instead of throwing (efx) or printing a stray digit

---
 libs/e_float/src/e_float/e_float_base.cpp | 24 ++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 82f4f03..ac6ce13 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -261,7 +261,29 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   }
 
   // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(the_number_of_digits_i_want_from_e_float > static_cast<std::size_t>(0U))
+  {
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
+  else
+  {
+    // All of the digits lie after the last place of the fixed output.
+    // The number is either rounded to zero or up to one in the last place.
+    const std::int64_t exp_of_last_place = -static_cast<std::int64_t>(os_precision);
+
+    bool b_round_up = false;
+
+    if(the_exp == static_cast<std::int64_t>(exp_of_last_place - 1))
+    {
+      get_output_string(str, the_exp, max10_plus_one);
+
+      b_round_up = (   (the_exp == exp_of_last_place)
+                    || (str.at(static_cast<std::size_t>(0U)) >= static_cast<char>('5')));
+    }
+
+    str     = (b_round_up ? std::string("1") : std::string());
+    the_exp = (b_round_up ? exp_of_last_place : static_cast<std::int64_t>(exp_of_last_place - 1));
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
-- 
2.43.0


From d96801c451678e03ca10feeb19a73588af8f8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 72/74] fix: showpoint output of integer parts longer than the
 precision does not throw

---
 libs/e_float/src/e_float/e_float_base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index ac6ce13..8d9047f 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -536,7 +536,10 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    // There is nothing to extend if the integer part has more digits than the precision.
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+
+    const std::size_t u_pad = ((os_precision > len_digits) ? static_cast<std::size_t>(os_precision - len_digits) : static_cast<std::size_t>(0U));
 
     str.insert(str.cend(), u_pad, static_cast<char>('0'));
   }
-- 
2.43.0


From 33962a8eecc478a0987974ec3275f4d18413809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 73/74] fix: efx construction from an infinite or NaN mantissa
 and exponent does not loop forever

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index fb5a502..4755e5f 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -40,6 +40,13 @@ efx::e_float::e_float(const double mantissa,
   // Create an e_float from mantissa and exponent.
   // This ctor does not maintain the full precision of double.
 
+  if(!(std::isfinite)(mantissa))
+  {
+    // There is no decimal scaling of infinity or NaN.
+    operator=(e_float(mantissa));
+    return;
+  }
+
   const bool mantissa_is_iszero = (::fabs(mantissa) < ((std::numeric_limits<double>::min)() * (1.0 + std::numeric_limits<double>::epsilon())));
 
   if(mantissa_is_iszero)
-- 
2.43.0


From ccbd00a34094103333fb63fcca9be3e7e0b7b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 74/74] fix: prime generator does not loop forever when the
 sieve reaches the upper limit of 32 bits

---
 libs/e_float/src/functions/integer/prime.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/functions/integer/prime.cpp b/libs/e_float/src/functions/integer/prime.cpp
index 94fa025..63f9f20 100644
--- a/libs/e_float/src/functions/integer/prime.cpp
+++ b/libs/e_float/src/functions/integer/prime.cpp
@@ -66,16 +66,16 @@ namespace Primes
 
     std::vector<bool> sieve(static_cast<std::size_t>(limit), false);
 
-    std::uint32_t i = static_cast<std::uint32_t>(Primes::Inserter::start_index);
-    std::uint32_t i2;
+    std::uint64_t i = static_cast<std::uint64_t>(Primes::Inserter::start_index);
+    std::uint64_t i2;
 
-    while((i2 = static_cast<std::uint32_t>(i * i)) < limit)
+    while((i2 = static_cast<std::uint64_t>(i * i)) < limit)
     {
-      if(sieve[i] == false)
+      if(sieve[static_cast<std::size_t>(i)] == false)
       {
-        for(std::uint32_t j = i2; j < limit; j = static_cast<std::uint32_t>(j + i))
+        for(std::uint64_t j = i2; j < limit; j = static_cast<std::uint64_t>(j + i))
         {
-          sieve[j] = true;
+          sieve[static_cast<std::size_t>(j)] = true;
         }
       }
 
-- 
2.43.0

