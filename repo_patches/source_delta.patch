From af36b73f64a56904e8237cdd46a8c68687088d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 01/94] Add verification hooks (guarded by E_FLOAT_VERIF_HOOKS)

---
 libs/e_float/src/e_float/e_float_base.h      | 4 +++-
 libs/e_float/src/e_float/efx/e_float_efx.h   | 8 ++++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.h   | 8 ++++++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h | 8 ++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.h b/libs/e_float/src/e_float/e_float_base.h
index 6f5aea2..bf087cd 100644
--- a/libs/e_float/src/e_float/e_float_base.h
+++ b/libs/e_float/src/e_float/e_float_base.h
@@ -25,7 +25,9 @@
   #define E_FLOAT_TEST_REAL_IMAG_TESTS
   #endif
 
-  #if defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
+  #if defined(E_FLOAT_VERIF_HOOKS) && defined(E_FLOAT_VERIF_DIGITS10)
+  #define E_FLOAT_DIGITS10 E_FLOAT_VERIF_DIGITS10
+  #elif defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
   #define E_FLOAT_DIGITS10 1000001
   #elif defined(E_FLOAT_TEST_REAL_IMAG_TESTS)
   #define E_FLOAT_DIGITS10 101
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.h b/libs/e_float/src/e_float/efx/e_float_efx.h
index 5e5d0c8..f5b62b8 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.h
+++ b/libs/e_float/src/e_float/efx/e_float_efx.h
@@ -23,6 +23,10 @@
   #include <e_float/e_float_base.h>
   #include <e_float/detail/e_float_detail_dynamic_array.h>
 
+  #if defined(E_FLOAT_VERIF_HOOKS)
+  struct e_float_verif_access;
+  #endif
+
   namespace efx
   {
     namespace detail {
@@ -239,6 +243,10 @@
       virtual e_float            extract_decimal_part      () const;
 
     private:
+      #if defined(E_FLOAT_VERIF_HOOKS)
+      friend struct ::e_float_verif_access;
+      #endif
+
       array_type   my_data;
       std::int64_t my_exp;
       bool         my_neg;
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 8189b51..30ec80f 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -25,6 +25,10 @@
   #include <e_float/e_float_base.h>
   #include <e_float/gmp/e_float_gmp_protos.h>
 
+  #if defined(E_FLOAT_VERIF_HOOKS)
+  struct e_float_verif_access;
+  #endif
+
   namespace gmp
   {
     class e_float : public ::e_float_base
@@ -241,6 +245,10 @@
       virtual e_float            extract_decimal_part      () const;
 
     private:
+      #if defined(E_FLOAT_VERIF_HOOKS)
+      friend struct ::e_float_verif_access;
+      #endif
+
       ::mpf_t      my_rop;
       fpclass_type my_fpclass;
       std::int32_t my_prec_elem;
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 907b5d5..88b2038 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -19,6 +19,10 @@
   #include <e_float/e_float_base.h>
   #include <e_float/mpfr/e_float_mpfr_protos.h>
 
+  #if defined(E_FLOAT_VERIF_HOOKS)
+  struct e_float_verif_access;
+  #endif
+
   namespace mpfr
   {
     class e_float : public ::e_float_base
@@ -246,6 +250,10 @@
       virtual bool i_have_my_own_cyl_bessel_yn() const noexcept { return false; }
 
     private:
+      #if defined(E_FLOAT_VERIF_HOOKS)
+      friend struct ::e_float_verif_access;
+      #endif
+
       ::mpfr_t my_rop;
 
       static constexpr mp_prec_t my_default_prec =
-- 
2.43.0


From 968fb449c57481948844406feb4e91dc71adcca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 02/94] fix: assignment of a gmp::e_float keeps the value of
 its source

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..fafb125 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -619,8 +619,8 @@ e_float& gmp::e_float::operator=(const e_float& v)
     my_fpclass   = v.my_fpclass;
     my_prec_elem = v.my_prec_elem;
 
-    ::mpf_set         (my_rop, v.my_rop);
-    ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+    my_rop[0U]._mp_prec = v.my_rop[0U]._mp_prec;
+    ::mpf_set(my_rop, v.my_rop);
   }
 
   return *this;
@@ -632,8 +632,8 @@ e_float& gmp::e_float::operator=(e_float&& v)
   my_fpclass   = v.my_fpclass;
   my_prec_elem = v.my_prec_elem;
 
-  ::mpf_set         (my_rop, v.my_rop);
-  ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+  my_rop[0U]._mp_prec = v.my_rop[0U]._mp_prec;
+  ::mpf_set(my_rop, v.my_rop);
 
   return *this;
 }
-- 
2.43.0


From 8ae87340eecab9e764299f9744850977fb47ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 03/94] fix: efx division of operands of equal magnitude (sign
 of the result, zero over zero)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..b82f90f 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -790,15 +790,18 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 {
   const auto u_and_v_are_finite_and_identical =
     (   isfinite()
+     && (!iszero())
      && (my_fpclass == v.my_fpclass)
      && (my_exp     == v.my_exp)
      && (cmp_data(v.my_data) == static_cast<std::int32_t>(0)));
 
   if(u_and_v_are_finite_and_identical)
   {
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From 9b49af9c64dc0ca634fd4d57d66e015986d0bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 04/94] fix: subtraction of, and conversion from, the most
 negative signed long long

---
 libs/e_float/src/e_float/e_float_base.cpp    | 17 +++++++++++++----
 libs/e_float/src/e_float/gmp/e_float_gmp.h   |  2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..88fdd70 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -100,7 +100,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
   if(n < static_cast<signed long long>(0))
   {
     negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
+    add_unsigned_long_long(0ULL - static_cast<unsigned long long>(n));
     negate();
   }
   else
@@ -113,14 +113,23 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  if(n < static_cast<signed long long>(0))
+  {
+    add_unsigned_long_long(0ULL - static_cast<unsigned long long>(n));
+  }
+  else
+  {
+    sub_unsigned_long_long(static_cast<unsigned long long>(n));
+  }
+
+  return static_cast<e_float&>(*this);
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : (0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
@@ -141,7 +150,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : (0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 30ec80f..6d15525 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -89,7 +89,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : (0ULL - static_cast<unsigned long long>(n)));
 
         from_unsigned_long_long(u);
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 88b2038..4143df3 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -66,7 +66,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : (0ULL - static_cast<unsigned long long>(n)));
 
         init();
 
-- 
2.43.0


From ca489e2d24a16d00f6e6580902f3b5398280989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 05/94] fix: addition of infinity or NaN to a finite value
 (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b82f90f..82f1d42 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -421,7 +421,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
   if(isinf())
   {
-    if(v.isinf() && (isneg() != v.isneg()))
+    if(v.isnan() || (v.isinf() && (isneg() != v.isneg())))
     {
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
@@ -429,7 +429,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
-  if(iszero())
+  if(iszero() || (!v.isfinite()))
   {
     return operator=(v);
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index fafb125..dd7f98e 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -236,7 +236,7 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
   if(isinf())
   {
-    if(v.isinf() && (isneg() != v.isneg()))
+    if(v.isnan() || (v.isinf() && (isneg() != v.isneg())))
     {
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
@@ -244,6 +244,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(!v.isfinite())
+  {
+    return operator=(v);
+  }
+
   ::mpf_add(my_rop, my_rop, v.my_rop);
 
   // Check for overflow.
-- 
2.43.0


From 23d670bb0f3d5602c0eda5f992f1bf082f01f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 06/94] fix: subtraction of a value from itself in place (efx,
 gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 82f1d42..5c3eb7d 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -659,6 +659,12 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  // The negation below would also negate v if it is the same object as *this.
+  if(this == &v)
+  {
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index dd7f98e..49aea19 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -269,6 +269,12 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
+  // The negation below would also negate v if it is the same object as *this.
+  if(this == &v)
+  {
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From 8f493f8aefcb8d39430bf6cc2a0cf30c0ab9618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 07/94] fix: efx isone() recognizes one

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5c3eb7d..5878882 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1311,7 +1311,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
-- 
2.43.0


From 767d35a3c03560e6a9ccfe54c5618f3a22600293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 08/94] fix: copy assignment of dynamic_array takes over the
 size of its source

---
 libs/e_float/src/utility/util_dynamic_array.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..8926696 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -136,9 +136,16 @@
       {
         if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          if(elem_count != other.elem_count)
+          {
+            dynamic_array tmp(other);
+
+            swap(tmp);
+          }
+          else
+          {
+            std::copy(other.elems, other.elems + elem_count, elems);
+          }
         }
 
         return *this;
-- 
2.43.0


From bb0ce23435ce71e5b1812d60b8047753dfd85ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 09/94] fix: efx square root iterates to full precision

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5878882..f50052e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1160,15 +1160,6 @@ efx::e_float& efx::e_float::calculate_sqrt()
     const e_float iteration_term(vi * (-((*this) * (*this)) + x));
 
     *this += iteration_term;
-
-    const std::int64_t order_check = order() - iteration_term.order();
-
-    if(   (digits      > static_cast<std::int32_t>(ef::tolerance() / 4))
-       && (order_check > static_cast<std::int64_t>(ef::tolerance() / 2))
-      )
-    {
-      break;
-    }
   }
 
   my_prec_elem = original_prec_elem;
-- 
2.43.0


From bb7e4c3d63c748f8087384ec6ff72b77ceb5a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 10/94] fix: gmp infinity and NaN are neither zero nor integer

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 49aea19..62c609a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -582,7 +582,7 @@ std::int32_t gmp::e_float::cmp(const e_float& v) const
 
 bool gmp::e_float::iszero() const
 {
-  return (::mpf_sgn(my_rop) == 0);
+  return (isfinite() && (::mpf_sgn(my_rop) == 0));
 }
 
 bool gmp::e_float::isone() const
@@ -594,7 +594,7 @@ bool gmp::e_float::isone() const
 bool gmp::e_float::isint() const
 {
   // Check if the value of *this is pure integer or very close to pure integer.
-  return (::mpf_integer_p(my_rop) != 0);
+  return (isfinite() && (::mpf_integer_p(my_rop) != 0));
 }
 
 bool gmp::e_float::isneg() const
-- 
2.43.0


From a5cb02bdba1ab43d3e280af06309467c9b61041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 11/94] fix: sign of the infinity when efx divides by an
 integer zero

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index f50052e..9924b46 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -937,8 +937,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
     else
     {
-      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
-                          : -std::numeric_limits<e_float>::infinity());
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                        : -std::numeric_limits<e_float>::infinity());
 
       return *this;
     }
-- 
2.43.0


From aab05137819093f2dc8d53908343133d167f086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 12/94] fix: infinity times integer zero is NaN

---
 libs/e_float/src/e_float/e_float_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 88fdd70..bc0f459 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -137,7 +137,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if(isfinite() && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
-- 
2.43.0


From 96053332a9484e3d3f72d5cb239a63410af7b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 13/94] fix: efx parsing of the smallest positive value

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 9924b46..655f5be 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -2046,24 +2046,9 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From b79f33c561c1075aa22b5c8aaa5ae6d61a8c6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 14/94] fix: gmp multiplication with an integer overflows to
 infinity

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 62c609a..ed47e30 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -407,6 +407,19 @@ gmp::e_float& gmp::e_float::mul_unsigned_long_long(const unsigned long long n)
   else
   {
     ::mpf_mul_ui(my_rop, my_rop, static_cast<unsigned long>(n));
+
+    // Check for overflow.
+    long u_exp2_signed;
+    static_cast<void>(::mpf_get_d_2exp(&u_exp2_signed, my_rop));
+
+    if(   (u_exp2_signed   >=  std::numeric_limits<e_float>::max_exponent)
+       && (ef::fabs(*this) >  (std::numeric_limits<e_float>::max)()))
+    {
+      const bool b_result_is_neg = isneg();
+
+      *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                  : -std::numeric_limits<e_float>::infinity());
+    }
   }
 
   return *this;
-- 
2.43.0


From e6b07aabbb2eb8c79784222e88d47f5ea43cde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 15/94] fix: efx multiplication and division with small
 integers respect the exponent range

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 655f5be..d1abb40 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -896,6 +896,16 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
                        my_data.begin()  + static_cast<std::ptrdiff_t>(my_prec_elem));
 
     my_data.front() = static_cast<std::uint32_t>(carry);
+
+    // Check for overflow.
+    if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+       && (*this > (std::numeric_limits<e_float>::max)()))
+    {
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                        : -std::numeric_limits<e_float>::infinity());
+
+      return *this;
+    }
   }
 
   // Set the sign.
@@ -981,7 +991,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
   }
 
   // Check for underflow.
-  if(iszero())
+  if(iszero() || (my_exp < std::numeric_limits<e_float>::min_exponent10))
   {
     return (*this = ef::zero());
   }
-- 
2.43.0


From 5d7882aa1d2eaaf1ae3411d2ef083968a7fbf648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 16/94] fix: efx division by a divisor whose reciprocal is out
 of range

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 32 ++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index d1abb40..4a351c7 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -814,6 +814,38 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
     return *this;
   }
+
+  if(isfinite() && v.isfinite() && (!iszero()) && (!v.iszero()))
+  {
+    // Divide without the exponents. In this way, the inverse of v neither
+    // overflows nor underflows if the magnitude of v is extreme.
+    const std::int64_t the_exp = my_exp - v.my_exp;
+
+    e_float v_inv(v);
+
+    v_inv.my_exp = static_cast<std::int64_t>(0);
+          my_exp = static_cast<std::int64_t>(0);
+
+    operator*=(v_inv.calculate_inv());
+
+    my_exp += the_exp;
+
+    // Check for underflow.
+    if(my_exp < std::numeric_limits<e_float>::min_exponent10)
+    {
+      return (*this = ef::zero());
+    }
+
+    // Check for overflow.
+    if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+       && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)()))
+    {
+      const bool b_result_is_neg = my_neg;
+
+      *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                  : -std::numeric_limits<e_float>::infinity());
+    }
+  }
   else
   {
     operator*=(e_float(v).calculate_inv());
-- 
2.43.0


From 7c4a52991e4051a89bc56fa8faf3fb0acfd6fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 17/94] fix: reading a string into a variable that holds
 infinity or NaN (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 3 +++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 4a351c7..42e10c8 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1850,6 +1850,9 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  // The previous value of *this might be infinity or NaN.
+  my_fpclass = ef_finite;
+
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index ed47e30..70c4543 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -998,6 +998,9 @@ bool gmp::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  // The previous value of *this might be infinity or NaN.
+  my_fpclass = ef_finite;
+
   // Remove spaces and tabs
   static const char spc = static_cast<char>(' ');
   static const char tab = static_cast<char>('\t');
-- 
2.43.0


From db98052f848d562945fc8f83e8d445b342af2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 18/94] fix: gmp reading of a string whose value is out of
 range

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 70c4543..862efdb 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1076,5 +1076,21 @@ bool gmp::e_float::rd_string(const char* const s)
     negate();
   }
 
+  // Check for overflow and underflow.
+  long u_exp2_signed;
+  static_cast<void>(::mpf_get_d_2exp(&u_exp2_signed, my_rop));
+
+  if(u_exp2_signed > static_cast<long>(ef_max_exp))
+  {
+    const bool b_result_is_neg = isneg();
+
+    *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                : -std::numeric_limits<e_float>::infinity());
+  }
+  else if(u_exp2_signed < static_cast<long>(ef_min_exp))
+  {
+    *this = ef::zero();
+  }
+
   return (n_set_result == static_cast<std::int32_t>(0));
 }
-- 
2.43.0


From 6ff50982debd179931a8e90c067b596eca0d02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 19/94] fix: writing a value whose digits all lie beyond the
 last printed position

---
 libs/e_float/src/e_float/e_float_base.cpp | 24 ++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index bc0f459..3fa08a1 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -262,7 +262,29 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   }
 
   // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(the_number_of_digits_i_want_from_e_float != static_cast<std::size_t>(0U))
+  {
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
+  else
+  {
+    // All digits of the number lie beyond the last printed position. The number
+    // rounds to one unit in the last printed position or to zero.
+    const std::int64_t exp_of_last_position = static_cast<std::int64_t>(-static_cast<std::int64_t>(os_precision));
+
+    bool b_round_up = false;
+
+    if(the_exp == static_cast<std::int64_t>(exp_of_last_position - 1))
+    {
+      get_output_string(str, the_exp, max10_plus_one);
+
+      b_round_up = (   (the_exp == exp_of_last_position)
+                    || (str.at(static_cast<std::size_t>(0U)) >= static_cast<char>('5')));
+    }
+
+    str     = (b_round_up ? std::string("1") : std::string());
+    the_exp = exp_of_last_position;
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
-- 
2.43.0


From 0179e6605df7bc59592a222d5bb24cca60714aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 20/94] fix: showpoint in default notation with more integer
 digits than the precision

---
 libs/e_float/src/e_float/e_float_base.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 3fa08a1..d62f04a 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -529,17 +529,25 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
 
       const std::size_t len_non_zero_part = static_cast<std::size_t>(str.cend() - it_non_zero);
 
-      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
+      if(os_precision > len_non_zero_part)
+      {
+        const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
 
-      str.insert(str.cend(), u_pad, static_cast<char>('0'));
+        str.insert(str.cend(), u_pad, static_cast<char>('0'));
+      }
     }
   }
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+
+    if(os_precision > len_digits)
+    {
+      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_digits);
 
-    str.insert(str.cend(), u_pad, static_cast<char>('0'));
+      str.insert(str.cend(), u_pad, static_cast<char>('0'));
+    }
   }
 }
 
-- 
2.43.0


From 0f639410be6851243e40171528b2cc189520818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 21/94] fix: exponent of a written value when rounding carries
 into the next decade (gmp, mpfr)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 20 +++++++++++--------
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp |  8 +++++---
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 862efdb..9defba1 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -904,14 +904,17 @@ gmp::e_float gmp::e_float::extract_decimal_part() const
 
 std::int64_t gmp::e_float::get_order_exact() const
 {
-  // Get the order-10 of the e_float. This is done using a partial
-  // string extraction with 10 decimal digits.
+  // Get the order-10 of the e_float. This is done using a string extraction
+  // with all decimal digits (and a few more) because rounding to a smaller
+  // number of digits can increase the order.
 
-  // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10Fe");
+  // Create a format string for scientific notation.
+  const std::int32_t the_number_of_digits = static_cast<std::int32_t>(e_float::ef_max_digits10 + 32);
 
-  // Get the ten digits.
-  util::dynamic_array<char> buf(64U);
+  const std::string str_fmt = std::string("%.") + (Util::lexical_cast(the_number_of_digits) + "Fe");
+
+  // Get the digits.
+  util::dynamic_array<char> buf(static_cast<std::size_t>(the_number_of_digits + 64));
 
   static_cast<void>(gmp_sprintf(buf.data(), str_fmt.c_str(), my_rop));
 
@@ -955,8 +958,6 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -981,6 +982,9 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
   if(pos_letter_e != std::string::npos)
   {
+    // Rounding to the requested number of digits might have adjusted the exponent.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..0384c12 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -508,7 +508,8 @@ std::int64_t mpfr::e_float::get_order_exact() const
   // string extraction with 10 decimal digits.
 
   // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10RNe");
+  // Use rounding toward zero because rounding up can increase the order.
+  std::string str_fmt = std::string("%.10RZe");
 
   // Get the ten digits.
   util::dynamic_array<char> buf(64U);
@@ -552,8 +553,6 @@ std::int64_t mpfr::e_float::get_order_fast() const
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -587,6 +586,9 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
 
   if(pos_letter_e != std::string::npos)
   {
+    // Rounding to the requested number of digits might have adjusted the exponent.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-- 
2.43.0


From c526988f1e442247d268554fc73600f7c9677e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 22/94] fix: correct rounding of written values (gmp)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 36 ++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 9defba1..8f7f655 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -960,12 +960,15 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
-  const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
+  // Extract more digits than requested because the conversion of GMP
+  // is not correctly rounded. The digits are rounded below.
+  const std::size_t the_number_of_digits            = (std::max)(number_of_digits, static_cast<std::size_t>(1U));
+  const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>(the_number_of_digits + static_cast<std::size_t>(31U));
 
   const std::string str_fmt = std::string("%.") + (Util::lexical_cast(the_number_of_digits_scientific) + "Fe");
 
   // Get the string representation of the e_float in scientific notation (lowercase, noshowpos).
-  util::dynamic_array<char> buf(static_cast<std::size_t>(e_float::ef_max_digits10 + 32));
+  util::dynamic_array<char> buf(static_cast<std::size_t>(the_number_of_digits_scientific + static_cast<std::size_t>(64U)));
 
   static_cast<void>(gmp_sprintf(buf.data(), str_fmt.c_str(), my_rop));
 
@@ -996,6 +999,35 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
               str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
   }
+
+  // Round the digits to the requested number of digits.
+  const bool b_round_up = (str.at(the_number_of_digits) >= static_cast<char>('5'));
+
+  str.resize(the_number_of_digits);
+
+  if(b_round_up)
+  {
+    std::size_t ix = the_number_of_digits;
+
+    while((ix > static_cast<std::size_t>(0U)) && (str.at(ix - 1U) == static_cast<char>('9')))
+    {
+      --ix;
+
+      str.at(ix) = static_cast<char>('0');
+    }
+
+    if(ix > static_cast<std::size_t>(0U))
+    {
+      ++str.at(ix - 1U);
+    }
+    else
+    {
+      // There were nothing but nines.
+      str.at(0U) = static_cast<char>('1');
+
+      ++the_exp;
+    }
+  }
 }
 
 bool gmp::e_float::rd_string(const char* const s)
-- 
2.43.0


From 847f60f24a57f1090bf424425a804ccfa6c5b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 23/94] fix: floor and ceil of values next to an integer

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..c4ffc45 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -44,7 +44,7 @@ e_float ef::floor(const e_float& x)
 {
   if(!ef::isfinite(x) || ef::isint(x)) { return x; }
 
-  return (ef::isneg(x) ? ef::integer_part(x - ef::one())
+  return (ef::isneg(x) ? ef::integer_part(x) - ef::one()
                        : ef::integer_part(x));
 }
 
@@ -53,7 +53,7 @@ e_float ef::ceil(const e_float& x)
   if(!ef::isfinite(x) || ef::isint(x)) { return x; }
 
   return (ef::isneg(x) ? ef::integer_part(x)
-                       : ef::integer_part(x + ef::one()));
+                       : ef::integer_part(x) + ef::one());
 }
 
 std::int32_t ef::sgn(const e_float& x)
-- 
2.43.0


From 06bcfa13f732cb45c949de4b8158fd2c198b0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 24/94] fix: fmod with a negative divisor

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index c4ffc45..df0c5fb 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -87,7 +87,7 @@ e_float ef::frexp(const e_float& v, int* expon)
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  const e_float n = ef::integer_part(v1 / v2);
 
   return v1 - (n * v2);
 }
-- 
2.43.0


From cf40c4713f5df144046449893d0efae1c0515c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 25/94] fix: conversion of the most negative signed long long
 and values below it (gmp, mpfr)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 4 ++--
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 8f7f655..006c5ba 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -787,8 +787,8 @@ signed long long gmp::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 0384c12..363ca7f 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -410,8 +410,8 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
-- 
2.43.0


From 53d8c881d13fe8a0ae3a9f71bb8f7167a00d2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 26/94] fix: conversion to integer truncates (mpfr)

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 363ca7f..cdc15d9 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -406,7 +406,7 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 {
   const bool b_neg = isneg();
 
-  const e_float nx = ef::fabs(*this);
+  const e_float nx = ef::fabs(extract_integer_part());
 
   if(nx > ef::signed_long_long_max())
   {
@@ -448,17 +448,19 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
     return static_cast<unsigned long long>(extract_signed_long_long());
   }
 
-  if(*this > ef::unsigned_long_long_max())
+  const e_float nx = extract_integer_part();
+
+  if(nx > ef::unsigned_long_long_max())
   {
     return (std::numeric_limits<unsigned long long>::max)();
   }
 
-  if(*this < ef::one())
+  if(nx < ef::one())
   {
     return static_cast<unsigned long long>(0U);
   }
 
-  if(isone())
+  if(nx.isone())
   {
     return static_cast<unsigned long long>(1U);
   }
@@ -467,7 +469,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, nx.my_rop, GMP_RNDN));
 
   std::string str_ull(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
-- 
2.43.0


From 43de08ba2aa8fdba56c2a0bb2dd630fcfe52099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 27/94] fix: construction from a long double that exceeds the
 range of double (efx, gmp)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 +++++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 42e10c8..735b13e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,12 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  using std::isfinite;
+  using std::isnan;
+
+  if(!(isfinite)(l))
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=((isnan)(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 006c5ba..e06039e 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -180,11 +180,11 @@ void gmp::e_float::from_long_double(const long double l)
 
   using std::isfinite;
 
-  if(isfinite(static_cast<double>(l)) == 0)
+  if(isfinite(l) == 0)
   {
     using std::isnan;
 
-    operator=(isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From c40eae4f1a6327a24d87d066d81406e4e02948c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 28/94] fix: frexp gives the base-2 exponent and a normalized
 fraction

---
 .../functions/elementary/elementary_math.cpp  | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index df0c5fb..84dafd7 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -75,14 +75,36 @@ e_float ef::ldexp(const e_float& v, int e)
 
 e_float ef::frexp(const e_float& v, int* expon)
 {
+  if(ef::iszero(v) || (!ef::isfinite(v)))
+  {
+    *expon = 0;
+
+    return v;
+  }
+
   double d;
   std::int64_t i;
 
   v.extract_parts(d, i);
 
-  *expon = static_cast<int>(i);
+  // Estimate the base-2 exponent from the base-10 parts.
+  using std::fabs;
+  using std::floor;
+  using std::log;
+
+  const long double ln_of_v = log(static_cast<long double>(fabs(d))) + (static_cast<long double>(i) * log(10.0L));
+
+  std::int64_t n2 = static_cast<std::int64_t>(floor(ln_of_v / log(2.0L))) + static_cast<std::int64_t>(1);
+
+  e_float fraction = v * ef::pow2(static_cast<std::int64_t>(-n2));
+
+  // Correct the estimate, if necessary.
+  while(ef::fabs(fraction) >= ef::one())  { fraction *= ef::half(); ++n2; }
+  while(ef::fabs(fraction) <  ef::half()) { fraction *= ef::two();  --n2; }
+
+  *expon = static_cast<int>(n2);
 
-  return v * ef::pow2(static_cast<std::int64_t>(-i));
+  return fraction;
 }
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
-- 
2.43.0


From 7a22063c06386aafbba8166fa5ba794c1addb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 29/94] fix: to_parts normalizes the mantissa and is accurate
 for large exponents (gmp, mpfr)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 16 ++++++++++------
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index e06039e..424427a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -668,18 +668,22 @@ void gmp::e_float::extract_parts(double& mantissa, std::int64_t& exponent) const
 
   long n2;
   const double d2    = ::mpf_get_d_2exp(&n2, (ef::fabs(*this)).my_rop);
-  const double x_exp = static_cast<double>(static_cast<double>(n2) * local::value_log2);
+  // Use long double since the decimal part of the product is needed.
+  const long double x_exp = static_cast<long double>(n2) * 0.30102999566398119521373889472449302676819L;
 
-  const double  x_exp_integer_part = static_cast<double>(static_cast<long>(x_exp));
-  const double  x_exp_decimal_part = static_cast<double>(x_exp - x_exp_integer_part);
+  const long double x_exp_integer_part = static_cast<long double>(static_cast<long>(x_exp));
+  const double      x_exp_decimal_part = static_cast<double>(x_exp - x_exp_integer_part);
 
   double m = d2 * ::pow(10.0, x_exp_decimal_part);
   std::int64_t  e = static_cast<std::int64_t>(x_exp_integer_part);
 
-  if(m < 1.0)
+  if(m > 0.0)
   {
-    m *= 10.0;
-    e -= static_cast<std::int64_t>(1);
+    while(m < 1.0)
+    {
+      m *= 10.0;
+      e -= static_cast<std::int64_t>(1);
+    }
   }
 
   mantissa = ((!b_neg) ? m : -m);
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index cdc15d9..eccf306 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -306,20 +306,24 @@ void mpfr::e_float::extract_parts(double& mantissa, std::int64_t& exponent) cons
 
   long n2;
   const double d2    = ::mpfr_get_d_2exp(&n2, (ef::fabs(*this)).my_rop, GMP_RNDN);
-  const double x_exp = static_cast<double>(static_cast<double>(n2) * local::d_log2());
+  // Use long double since the decimal part of the product is needed.
+  const long double x_exp = static_cast<long double>(n2) * 0.30102999566398119521373889472449302676819L;
 
-  const double  x_exp_integer_part = static_cast<double>(static_cast<long>(x_exp));
-  const double  x_exp_decimal_part = static_cast<double>(x_exp - x_exp_integer_part);
+  const long double x_exp_integer_part = static_cast<long double>(static_cast<long>(x_exp));
+  const double      x_exp_decimal_part = static_cast<double>(x_exp - x_exp_integer_part);
 
   using std::pow;
 
   double m = d2 * pow(10.0, x_exp_decimal_part);
   std::int64_t  e = static_cast<std::int64_t>(x_exp_integer_part);
 
-  if(m < 1.0)
+  if(m > 0.0)
   {
-    m *= 10.0;
-    e -= static_cast<std::int64_t>(1);
+    while(m < 1.0)
+    {
+      m *= 10.0;
+      e -= static_cast<std::int64_t>(1);
+    }
   }
 
   mantissa = ((!b_neg) ? m : -m);
-- 
2.43.0


From 5f19014fa5a4b0b01fba958f0901130753e85386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 30/94] fix: precision counts significant digits in default
 notation for values below one

---
 libs/e_float/src/e_float/e_float_base.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index d62f04a..f0f8542 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -255,10 +255,15 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   // If the float field is not set, reduce the number of digits requested
   // from e_float such that it neither exceeds the ostream's precision
   // nor e_float's max_digits10.
+  // If the number is less than one, then the leading zeros after the
+  // decimal point are not counted.
   if(my_float_field == local::os_float_field_none)
   {
     const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+
+    the_number_of_digits_i_want_from_e_float = ((use_fixed && (the_exp < static_cast<std::int64_t>(0)))
+                                                 ? max_digits
+                                                 : (std::min)(the_number_of_digits_i_want_from_e_float, max_digits));
   }
 
   // Extract the rounded output string with the desired number of digits.
@@ -426,7 +431,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert((trim_trailing_zeros ? minus_exp_minus_one : (std::min)(minus_exp_minus_one, os_precision)), static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
-- 
2.43.0


From d6d23158144fd301216c87cbe1072cfc14742cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 31/94] fix: rootn and rootn_inverse are accurate for large p
 (efx, gmp)

---
 .../functions/elementary/elementary_trans.cpp | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d8c84cf..9a38fba 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -44,18 +44,23 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   ef::to_parts(x, dd, ne);
 
-  // Adjust exponent and mantissa such that ne is an even power of p.
-  while(ne % static_cast<std::int64_t>(p))
+  // Split the exponent into an even power of p and a non-negative remainder.
+  const std::int64_t np = static_cast<std::int64_t>(p);
+
+  std::int64_t nr = static_cast<std::int64_t>(ne % np);
+
+  if(nr < static_cast<std::int64_t>(0))
   {
-    ++ne;
-    dd /= 10.0;
+    nr += np;
   }
-  
-  // Estimate the one over the root using simple manipulations.
-  const double one_over_rtn_d = ::pow(dd, -1.0 / static_cast<double>(p));
+
+  // Estimate the one over the root using simple manipulations. The remainder
+  // of the exponent is included as a logarithm, since ten raised to the power
+  // of the remainder can be out of the range of double for large values of p.
+  const double one_over_rtn_d = ::pow(10.0, -(::log10(dd) + static_cast<double>(nr)) / static_cast<double>(p));
 
   // Set the result equal to the initial guess.
-  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p));
+  e_float result(one_over_rtn_d, static_cast<std::int64_t>(-(ne - nr) / np));
 
   static const std::int32_t double_digits10_minus_a_few = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(3));
 
-- 
2.43.0


From 582f0286b023e120bf303dc9d67bc174c500f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 32/94] fix: rootn and rootn_inverse with a negative p,
 rootn_inverse with p one

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 9a38fba..ec21023 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -102,7 +102,7 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return ef::rootn(ef::one() / x, static_cast<std::int32_t>(-p));
+    return ef::rootn_inverse(x, static_cast<std::int32_t>(-p));
   }
 
   if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
@@ -137,7 +137,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return detail::pown_template(x, static_cast<std::int32_t>(-p));
+    return ef::rootn(x, static_cast<std::int32_t>(-p));
   }
 
   if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
@@ -146,7 +146,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
   }
   else if(p == static_cast<std::int32_t>(1))
   {
-    return x;
+    return ef::one() / x;
   }
   else if(p == static_cast<std::int32_t>(2))
   {
-- 
2.43.0


From 3b08930824a42b9dcb5ae71e8c2654268e4f3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 33/94] fix: exp covers the whole exponent range (efx)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index ec21023..0e3c410 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -188,7 +188,8 @@ e_float ef::exp(const e_float& x)
   const e_float xx = ((!bo_x_is_neg) ? x : -x);
 
   // Check the range of the argument.
-  static const e_float maximum_arg_for_exp = std::numeric_limits<e_float>::max_exponent;
+  static const e_float maximum_arg_for_exp =
+    e_float((std::numeric_limits<e_float>::radix == 10) ? 2.3025850929940457 : 0.69314718055994531) * std::numeric_limits<e_float>::max_exponent;
 
   if(xx > maximum_arg_for_exp)
   {
-- 
2.43.0


From 3cdd5a21a9d67dcad488bcb9874faf8596690606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 34/94] fix: hypergeometric series with vanishing terms
 converge

---
 .../elementary/elementary_hyper_g.cpp         | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
index f3e3c28..c4f9d0d 100644
--- a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
@@ -32,6 +32,12 @@ e_float ef::hypergeometric_0f0(const e_float& x)
     x_pow_n_div_n_fact *= x;
     x_pow_n_div_n_fact /= n;
 
+    if(ef::iszero(x_pow_n_div_n_fact))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(x_pow_n_div_n_fact.order() - H0F0.order());
@@ -72,6 +78,12 @@ e_float ef::hypergeometric_0f1(const e_float& b, const e_float& x)
 
     const e_float term = x_pow_n_div_n_fact / pochham_b;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H0F1.order());
@@ -113,6 +125,12 @@ e_float ef::hypergeometric_1f0(const e_float& a, const e_float& x)
 
     const e_float term = pochham_a * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F0.order());
@@ -156,6 +174,12 @@ e_float ef::hypergeometric_1f1(const e_float& a, const e_float& b, const e_float
 
     const e_float term = (pochham_a / pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F1.order());
@@ -198,6 +222,12 @@ e_float ef::hypergeometric_2f0(const e_float& a, const e_float& b, const e_float
 
     const e_float term = (pochham_a * pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F0.order());
@@ -244,6 +274,12 @@ e_float ef::hypergeometric_2f1(const e_float& a, const e_float& b, const e_float
 
     const e_float term = ((pochham_a * pochham_b) / pochham_c) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());
@@ -299,6 +335,12 @@ e_float ef::hypergeometric_pfq(const std::deque<e_float>& a, const  std::deque<e
 
     const e_float term = (pochham_a / pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series terminates or its terms are negligibly small.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - HPFQ.order());
-- 
2.43.0


From 7201e3d1710e4524f1b0ec81ca540816db70f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 35/94] fix: log1p converges for arguments that are not small

---
 .../src/functions/elementary/elementary_trans.cpp   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 0e3c410..4cbbaba 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -365,7 +365,18 @@ e_float ef::log(const e_float& x)
 
 e_float ef::log10(const e_float& x)                   { return ef::log(x) / ef::ln10(); }
 e_float ef::loga (const e_float& a, const e_float& x) { return ef::log(x) / ef::log(a); }
-e_float ef::log1p(const e_float& x)                   { return Log_Series::AtOne(x); }
+
+e_float ef::log1p(const e_float& x)
+{
+  if(!ef::isfinite(x))
+  {
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  // The series at one converges rapidly for small arguments only. For all
+  // other arguments the sum of one and the argument preserves the precision.
+  return ((x.order() < static_cast<std::int64_t>(-4)) ? Log_Series::AtOne(x) : ef::log(ef::one() + x));
+}
 
 e_float ef::log1p1m2(const e_float& x)
 {
-- 
2.43.0


From c5fdd08f260bb91df8f20a859b82335bca824207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 36/94] fix: zero raised to a positive power is zero

---
 .../src/functions/elementary/elementary_trans.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 4cbbaba..75b3185 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -431,14 +431,19 @@ e_float ef::pow(const e_float& x, const e_float& a)
     return x;
   }
 
-  if(ef::iszero(x))
+  if(ef::iszero(a))
   {
     return ef::one();
   }
-  
-  if(ef::iszero(a))
+
+  if(ef::iszero(x))
   {
-    return ef::one();
+    if(ef::isnan(a))
+    {
+      return a;
+    }
+
+    return (ef::ispos(a) ? ef::zero() : std::numeric_limits<e_float>::infinity());
   }
 
   const bool bo_a_isint = ef::isint(a);
-- 
2.43.0


From 7f4acd892da884a509013804f554404c1170d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 37/94] fix: sign of asin of a small negative value (efx, gmp)

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c3e2077..4b2cfcd 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -300,10 +300,10 @@ e_float ef::asin(const e_float& x)
   if(ef::small_arg(xx))
   {
     // http://functions.wolfram.com/ElementaryFunctions/ArcSin/26/01/01/
-    const e_float asin_value = x * ef::hypergeometric_2f1(ef::half(),
-                                                          ef::half(),
-                                                          ef::three_half(),
-                                                          (x * x));
+    const e_float asin_value = xx * ef::hypergeometric_2f1(ef::half(),
+                                                           ef::half(),
+                                                           ef::three_half(),
+                                                           (xx * xx));
 
     return !b_neg ? asin_value : -asin_value;
   }
-- 
2.43.0


From 426adf05b42b181275b3648662e3c484bf7997b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 38/94] fix: atan of large negative values (efx, gmp) and of
 infinity

---
 .../functions/elementary/elementary_trig.cpp  | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 4b2cfcd..4e9bcd6 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -404,11 +404,16 @@ static e_float Atan_Series::AtInfinity(const e_float& x)
 
 e_float ef::atan(const e_float& x)
 {
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return ef::ispos(x) ? ef::pi_half() : -ef::pi_half();
+  }
+
   if(x.i_have_my_own_atan())
   {
     return e_float::my_own_atan(x);
@@ -416,7 +421,7 @@ e_float ef::atan(const e_float& x)
 
   const std::int64_t order = x.order();
 
-  if(x.isinf() || order > ef::tolerance())
+  if(order > ef::tolerance())
   {
     return ef::ispos(x) ? ef::pi_half() : -ef::pi_half();
   }
@@ -430,15 +435,17 @@ e_float ef::atan(const e_float& x)
     return Atan_Series::AtZero(x);
   }
 
-  if(ef::large_arg(x))
-  {
-    return Atan_Series::AtInfinity(x);
-  }
-
   const bool b_neg = ef::isneg(x);
 
   const e_float xx = ((!b_neg) ? x : -x);
 
+  if(ef::large_arg(xx))
+  {
+    const e_float atan_value = Atan_Series::AtInfinity(xx);
+
+    return ((!b_neg) ? atan_value : -atan_value);
+  }
+
   // Get initial estimate using standard math function atan or a series
   // expansion for rather large arguments having order 3 or larger.
   double       dd;
-- 
2.43.0


From 4d3ed386fc7a64806cc5a6e335a238d507b39047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 39/94] fix: atan2 propagates NaN and handles infinity

---
 .../functions/elementary/elementary_trig.cpp  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 4e9bcd6..f5574bf 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -481,9 +481,17 @@ e_float ef::atan(const e_float& x)
 
 e_float ef::atan2(const e_float& y, const e_float& x)
 {
-  if((ef::isfinite(x) == false) || (ef::isfinite(y) == false))
+  if(ef::isnan(x) || ef::isnan(y))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  // x and y are both infinite
+  if(ef::isinf(x) && ef::isinf(y))
+  {
+    const e_float atan_value = (ef::isneg(x) ? (ef::pi() * static_cast<std::int32_t>(3)) : ef::pi()) / static_cast<std::int32_t>(4);
+
+    return (ef::isneg(y) ? -atan_value : atan_value);
   }
 
   // y is zero
@@ -499,12 +507,9 @@ e_float ef::atan2(const e_float& y, const e_float& x)
   }
   
   // y is infinite
-  if(y.isinf())
+  if(ef::isinf(y))
   {
-    const bool b_pos = ((ef::ispos(x) && ef::ispos(y)) || (ef::isneg(x) && ef::isneg(y)));
-
-    return (b_pos ?  std::numeric_limits<e_float>::infinity()
-                  : -std::numeric_limits<e_float>::infinity());
+    return ef::sgn(y) * ef::pi_half();
   }
 
   // Compute atan(y / x), ignoring sign.
-- 
2.43.0


From 41d82e3112d62dd2c2c23c97f4a4c555411da0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 40/94] fix: cosh and tanh of large and infinite arguments
 (efx, gmp)

---
 .../src/functions/elementary/elementary_trans.cpp  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 75b3185..a4206b7 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -553,7 +553,7 @@ e_float ef::cosh(const e_float& x)
 
   if(ef::isfinite(x) == false)
   {
-    return x;
+    return ef::fabs(x);
   }
 
   e_float c;
@@ -597,6 +597,18 @@ e_float ef::tanh(const e_float& x)
     return e_float::my_own_tanh(x);
   }
 
+  if(ef::isnan(x))
+  {
+    return x;
+  }
+
+  // The deviation of the absolute value of the result from one
+  // is negligibly small for large arguments.
+  if(ef::fabs(x) > e_float(ef::tolerance() * 2))
+  {
+    return (ef::isneg(x) ? ef::one_minus() : ef::one());
+  }
+
   e_float c, s;
   ef::sinhcosh(x, &s, &c);
   return s * c.calculate_inv();
-- 
2.43.0


From ab037c4723562fe334afdf04822d1b417c701c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 41/94] fix: sinh and tanh of small arguments keep their
 precision (sinhcosh in all back ends)

---
 .../src/functions/elementary/elementary_trans.cpp   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index a4206b7..c1bc27f 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -563,8 +563,11 @@ e_float ef::cosh(const e_float& x)
 
 void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh)
 {
-  if((ef::isfinite(x) == false) || ((p_sinh == nullptr) && (p_cosh == nullptr)))
+  if(ef::isfinite(x) == false)
   {
+    if(p_sinh != nullptr) { *p_sinh = x; }
+    if(p_cosh != nullptr) { *p_cosh = ef::fabs(x); }
+
     return;
   }
   
@@ -586,7 +589,13 @@ void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh
   const e_float e_px = ef::exp(x);
   const e_float e_mx = ef::one() / e_px;
 
-  if(p_sinh != nullptr) { *p_sinh  = (e_px - e_mx) / static_cast<std::int32_t>(2); }
+  if(p_sinh != nullptr)
+  {
+    // Use the series representation for small arguments in order to avoid cancellation.
+    *p_sinh = ((x.order() < static_cast<std::int64_t>(-4)) ? x * ef::hypergeometric_0f1(ef::three_half(), (x * x) / static_cast<std::int32_t>(4))
+                                                           : (e_px - e_mx) / static_cast<std::int32_t>(2));
+  }
+
   if(p_cosh != nullptr) { *p_cosh  = (e_px + e_mx) / static_cast<std::int32_t>(2); }
 }
 
-- 
2.43.0


From cc1f32599b7ce67b9a0743412c9455b5faf1b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 42/94] fix: asinh of small arguments keeps its precision (efx,
 gmp)

---
 .../e_float/src/functions/elementary/elementary_trans.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index c1bc27f..02cd328 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -639,6 +639,14 @@ e_float ef::asinh(const e_float& x)
   {
     return ef::zero();
   }
+  else if(x.order() < static_cast<std::int64_t>(-4))
+  {
+    // Use the series representation for small arguments in order to avoid cancellation.
+    return x * ef::hypergeometric_2f1(ef::half(),
+                                      ef::half(),
+                                      ef::three_half(),
+                                     -(x * x));
+  }
   else
   {
     const e_float value = ef::log(ef::fabs(x) + ef::sqrt((x * x) + ef::one()));
-- 
2.43.0


From 1bdc36729cfe3c93caf3b0f398948fddfe9b21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 43/94] fix: acosh of one is zero (efx, gmp)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 02cd328..e81c419 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -674,7 +674,7 @@ e_float ef::acosh(const e_float& x)
 
   if(ef::isone(x))
   {
-    return ef::one();
+    return ef::zero();
   }
 
   const e_float x_minus_one = x - ef::one();
-- 
2.43.0


From fbb51abe2e6c41e167cf5b7b583d8efc4beef399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 44/94] fix: atanh of small arguments keeps its precision (efx,
 gmp)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index e81c419..cafb4ed 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -712,7 +712,9 @@ e_float ef::atanh(const e_float& x)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  const e_float value = (ef::small_arg(x) ?  ef::log1p1m2(x)
+  // Use the series representation for small arguments in order to avoid cancellation.
+  const e_float value = ((x.order() < static_cast<std::int64_t>(-4))
+                                          ?  ef::log1p1m2(x)
                                           : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
 
   return ((!ef::isneg(xx)) ? value : -value);
-- 
2.43.0


From 92e7885ebc67fbe026b1324b73d7e42a7d43b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 45/94] fix: asin of arguments near one converges to full
 precision (efx, gmp)

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index f5574bf..cc63678 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -307,10 +307,12 @@ e_float ef::asin(const e_float& x)
 
     return !b_neg ? asin_value : -asin_value;
   }
-  else if(ef::near_one(xx))
-  {
-    const e_float dx1 = ef::one() - xx;
 
+  const e_float dx1 = ef::one() - xx;
+
+  if(dx1.order() < static_cast<std::int64_t>(-4))
+  {
+    // The Newton iteration below converges too slowly for arguments near one.
     const e_float asin_value =    ef::pi_half()
                                - (  ef::sqrt(dx1 * static_cast<std::int32_t>(2))
                                   * ef::hypergeometric_2f1(ef::half(),
-- 
2.43.0


From b503f4e2d76d60b1d7f7ed655d8d79499cd0de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 46/94] fix: numeric_limits lowest and denorm_min

---
 libs/e_float/src/e_float/e_float.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..f919373 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -75,13 +75,13 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static const e_float& lowest       () noexcept { static const e_float val = e_float(ef::value_max()).negate(); return val; }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
       static const e_float& quiet_NaN    () noexcept { return ef::value_nan(); }
       static const e_float& signaling_NaN() noexcept { return ef::zero(); }
-      static const e_float& denorm_min   () noexcept { return ef::zero(); }
+      static const e_float& denorm_min   () noexcept { return ef::value_min(); }
     };
   }
 
-- 
2.43.0


From f1582cde59d6e34e8b106d54726a5b93682489cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 47/94] fix: log of arguments near one keeps its precision for
 high digit counts (efx)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index cafb4ed..f8f44e9 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -278,7 +278,8 @@ e_float ef::log(const e_float& x)
   // Compute the delta of the argument compared to one.
   const e_float x_minus_one  = xx - ef::one();
 
-  if(ef::near_one(xx))
+  // Use the series representation near one in order to avoid cancellation.
+  if(x_minus_one.order() < static_cast<std::int64_t>(-4))
   {
     return Log_Series::AtOne(x_minus_one);
   }
-- 
2.43.0


From ab7dcb9e9648fab5a13f3037a32b04c859df8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 48/94] fix: pow of a base between one tenth and nine tenths
 converges for high digit counts

---
 .../functions/elementary/elementary_trans.cpp | 28 +++----------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index f8f44e9..3e747df 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -468,30 +468,10 @@ e_float ef::pow(const e_float& x, const e_float& a)
     return ef::detail::pown_template(x, an);
   }
 
-  static const e_float nine_tenths = ef::nine() / static_cast<std::int32_t>(10);
-
-  if(ef::ispos(x) && (x > ef::tenth()) && (x < nine_tenths))
-  {
-    if(ef::small_arg(a))
-    {
-      // Series expansion for small a.
-      return ef::hypergeometric_0f0(a * ef::log(x));
-    }
-    else
-    {
-      // Series expansion for moderately sized x. Note that for large power of a,
-      // the power of the integer part of a is calculated using the pown function.
-      return ((an != static_cast<std::int64_t>(0)) ? ef::hypergeometric_1f0(-da, ef::one() - x) * ef::detail::pown_template(x, an)
-                                                   : ef::hypergeometric_1f0( -a, ef::one() - x));
-    }
-  }
-  else
-  {
-    // Series expansion for pow(x, a). Note that for large power of a, the power
-    // of the integer part of a is calculated using the pown function.
-    return ((an != static_cast<std::int64_t>(0)) ? ef::exp(da * ef::log(x)) * ef::detail::pown_template(x, an)
-                                                 : ef::exp( a * ef::log(x)));
-  }
+  // Series expansion for pow(x, a). Note that for large power of a, the power
+  // of the integer part of a is calculated using the pown function.
+  return ((an != static_cast<std::int64_t>(0)) ? ef::exp(da * ef::log(x)) * ef::detail::pown_template(x, an)
+                                               : ef::exp( a * ef::log(x)));
 }
 
 e_float ef::pow(const e_float& b, const std::int64_t p)
-- 
2.43.0


From 9bf0a829aedf75f2d83d25125158862068ee29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 49/94] fix: acosh of arguments near one keeps its precision
 for high digit counts (efx)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 3e747df..927d90c 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -660,7 +660,8 @@ e_float ef::acosh(const e_float& x)
 
   const e_float x_minus_one = x - ef::one();
 
-  if(ef::small_arg(x_minus_one))
+  // Use the series representation near one in order to avoid cancellation.
+  if(x_minus_one.order() < static_cast<std::int64_t>(-4))
   {
     return   (ef::sqrt2() * ef::sqrt(x_minus_one))
            *  ef::hypergeometric_2f1( ef::half(),
-- 
2.43.0


From fd0801baaf3c92217d95c09733c9e3b93f1be2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 50/94] fix: prime factors of composite numbers do not list one
 as a prime

---
 libs/e_float/src/functions/integer/prime_factor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..865ade9 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -62,6 +62,11 @@ namespace Primes
         pf.push_back(ip);
       }
 
+      if(np == static_cast<std::uint32_t>(1U))
+      {
+        break;
+      }
+
       if(static_cast<std::uint32_t>(np / p) <= p)
       {
         pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
@@ -69,7 +74,7 @@ namespace Primes
         break;
       }
 
-      if((np == static_cast<std::uint32_t>(1U)) || (p >= sqrt_n))
+      if(p >= sqrt_n)
       {
         break;
       }
-- 
2.43.0


From bc6f37030778913dca01af05ceab19b62b575209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 51/94] fix: a decimal literal with many trailing zeros is read
 exactly (gmp)

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 424427a..5b3b86a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1108,8 +1108,26 @@ bool gmp::e_float::rd_string(const char* const s)
     str += str_exp;
   }
 
-  // Set the e_float value.
-  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
+  // Set the e_float value. The conversion is done with enough precision for
+  // all of the digits in the string. So trailing zeros are harmless.
+  ::mpf_t my_tmp;
+
+  ::mpf_set_default_prec((std::max)(static_cast<unsigned long int>(my_default_prec),
+                                    static_cast<unsigned long int>(str.length() * static_cast<std::size_t>(4U))));
+
+  const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_tmp, str.c_str(), 10));
+
+  ::mpf_set_default_prec(static_cast<unsigned long int>(my_default_prec));
+
+  // Release the memory of a previous value when reading into an existing object.
+  if(my_rop[0U]._mp_d != nullptr)
+  {
+    ::mpf_clear(my_rop);
+  }
+
+  ::mpf_init_set(my_rop, my_tmp);
+
+  ::mpf_clear(my_tmp);
 
   if(b_negate)
   {
-- 
2.43.0


From 294186012d90c544b3e8583f4a630c645eb4766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 52/94] fix: reading into an existing object releases its
 memory (mpfr)

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index eccf306..f253e3e 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -29,8 +29,8 @@ namespace local
   }
 }
 
-mpfr::e_float::e_float(const char* s)          { init(); static_cast<void>(rd_string(s)); }
-mpfr::e_float::e_float(const std::string& str) { init(); static_cast<void>(rd_string(str.c_str())); }
+mpfr::e_float::e_float(const char* s)          : my_rop() { init(); static_cast<void>(rd_string(s)); }
+mpfr::e_float::e_float(const std::string& str) : my_rop() { init(); static_cast<void>(rd_string(str.c_str())); }
 
 mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 {
@@ -62,7 +62,7 @@ mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 
 mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
                        const std::int64_t e,
-                       const bool is_neg)
+                       const bool is_neg) : my_rop()
 {
   std::string str;
 
@@ -608,7 +608,16 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
+bool mpfr::e_float::rd_string(const char* const s)
+{
+  // Release the memory of a previous value when reading into an existing object.
+  if(my_rop[0U]._mpfr_d != nullptr)
+  {
+    ::mpfr_clear(my_rop);
+  }
+
+  return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1);
+}
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
-- 
2.43.0


From 0d0266d0d6223fd5d8809e879bc9bdb7c92135c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 53/94] fix: roots of zero

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 927d90c..71d5c89 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -109,7 +109,7 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if(p == static_cast<std::int32_t>(1))
+  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x))
   {
     return x;
   }
@@ -144,7 +144,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if(p == static_cast<std::int32_t>(1))
+  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x))
   {
     return ef::one() / x;
   }
-- 
2.43.0


From a20180d8a2c3f8802daa49b52246cff6dd99b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 54/94] fix: construction from a non-finite mantissa and an
 exponent terminates (efx)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 735b13e..47e9ae3 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -40,6 +40,12 @@ efx::e_float::e_float(const double mantissa,
   // Create an e_float from mantissa and exponent.
   // This ctor does not maintain the full precision of double.
 
+  if(!std::isfinite(mantissa))
+  {
+    operator=(e_float(mantissa));
+    return;
+  }
+
   const bool mantissa_is_iszero = (::fabs(mantissa) < ((std::numeric_limits<double>::min)() * (1.0 + std::numeric_limits<double>::epsilon())));
 
   if(mantissa_is_iszero)
-- 
2.43.0


From f01177b27cdb2ae566d469f17697e1ebf63f5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 55/94] fix: factorial of the largest argument overflows to
 infinity

---
 libs/e_float/src/functions/gamma/factorial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial.cpp b/libs/e_float/src/functions/gamma/factorial.cpp
index e0396e5..515eecf 100644
--- a/libs/e_float/src/functions/gamma/factorial.cpp
+++ b/libs/e_float/src/functions/gamma/factorial.cpp
@@ -16,10 +16,10 @@
 
 namespace Factorial_Series
 {
-  e_float AtInfinity(const std::uint32_t n);
+  e_float AtInfinity(const std::uint64_t n);
 }
 
-e_float Factorial_Series::AtInfinity(const std::uint32_t n)
+e_float Factorial_Series::AtInfinity(const std::uint64_t n)
 {
   const e_float x                              = e_float(n);
         e_float one_over_x_pow_two_n_minus_one = ef::one() / x;
@@ -66,7 +66,7 @@ e_float Factorial_Series::AtInfinity(const std::uint32_t n)
 e_float ef::factorial(const std::uint32_t n)
 {
   return (static_cast<std::size_t>(n) < Tables::A000142().size()) ? Tables::A000142()[n]()
-                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint32_t>(n + static_cast<std::uint32_t>(1U)));
+                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint64_t>(n) + static_cast<std::uint64_t>(1U));
 }
 
 e_float ef::binomial(const std::uint32_t n, const std::uint32_t k)
-- 
2.43.0


From 2d8396aafc7a218db0bec9c25fc6b9fb9de26eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 56/94] fix: bernoulli_table of zero writes inside its
 containers

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index babc2a0..05ce569 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -80,7 +80,11 @@ void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
   std::vector<e_float> tangent_numbers(static_cast<std::vector<e_float>::size_type>(m + 1));
 
   tangent_numbers[0U] = ef::zero();
-  tangent_numbers[1U] = ef::one();
+
+  if(m > static_cast<std::int32_t>(0))
+  {
+    tangent_numbers[1U] = ef::one();
+  }
 
   for(std::int32_t k = static_cast<std::int32_t>(2); k <= m; k++)
   {
@@ -117,5 +121,9 @@ void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
   }
 
   bn[0U] =  ef::one();
-  bn[1U] = -ef::half();
+
+  if(bn.size() > static_cast<std::vector<e_float>::size_type>(1U))
+  {
+    bn[1U] = -ef::half();
+  }
 }
-- 
2.43.0


From 3166db3a65fa4197afcda131d8d5facc771e1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 57/94] fix: Pochhammer symbol of many factors from a
 non-positive integer

---
 .../src/functions/gamma/pochhammer.cpp        | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libs/e_float/src/functions/gamma/pochhammer.cpp b/libs/e_float/src/functions/gamma/pochhammer.cpp
index ede5a5c..6e0e6e3 100644
--- a/libs/e_float/src/functions/gamma/pochhammer.cpp
+++ b/libs/e_float/src/functions/gamma/pochhammer.cpp
@@ -52,6 +52,30 @@ namespace Pochhammer_Series
       {
         const TR nr(n);
 
+        using ef::imag;
+        using ef::isint;
+        using ef::isneg;
+        using ef::iszero;
+
+        const bool x_is_at_pole = (   iszero(imag(x)) && isint(real(x))
+                                   && (isneg(real(x)) || iszero(real(x))));
+
+        if(x_is_at_pole)
+        {
+          // Both gamma functions have poles for non-positive integers. Here, the
+          // product contains zero or, otherwise, use (x)_n = (-1)^n * (1 - n - x)_n.
+          const T y((one() - nr) - x);
+
+          if(isneg(real(y)) || iszero(real(y)))
+          {
+            return T(0U);
+          }
+
+          const T val(gamma(y + nr) / gamma(y));
+
+          return (((n % static_cast<std::uint32_t>(2U)) == static_cast<std::uint32_t>(0U)) ? val : -val);
+        }
+
         return gamma(x + nr) / gamma(x);
       }
     }
-- 
2.43.0


From 73544e302184db0f2dab0bf48a2430baf7a145a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 58/94] fix: gamma of small arguments keeps the digits of the
 argument

---
 libs/e_float/src/functions/gamma/gamma.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 5d1f60c..47f26a5 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -145,6 +145,9 @@ namespace GammaTemplate
                           : static_cast<std::int32_t>(0));
 
       // Scale the argument up and use downward recursion later for the final result.
+      // Keep the unscaled argument because scaling up loses the digits of small ones.
+      const T x_unscaled(xx);
+
       xx += n_recur;
 
       // Perform the Bernoulli series expansion.
@@ -173,12 +176,12 @@ namespace GammaTemplate
       G = exp(((((xx - half()) * log(xx)) - xx) + half_ln_two_pi) + sum);
 
       // Rescale the result using downward recursion if necessary.
-      for(std::int32_t k = static_cast<std::int32_t>(0); k < n_recur; k++)
+      for(std::int32_t k = n_recur - static_cast<std::int32_t>(1); k >= static_cast<std::int32_t>(0); k--)
       {
-        xx -= TR(1U);
-
-        G /= xx;
+        G /= (x_unscaled + TR(k));
       }
+
+      xx = x_unscaled;
     }
 
     // Return the result, accounting for possible negative arguments.
-- 
2.43.0


From 72e7eace55828206a27e5a2f515c96487ef89c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 59/94] fix: Riemann zeta function of small negative arguments

---
 libs/e_float/src/functions/zeta/zeta.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..e89e988 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -76,7 +76,6 @@ namespace Zeta_Series
     using ef::real;
     using ef::tolerance;
     using ef::prime;
-    using ef::isneg;
     using ef::iszero;
     using ef::isint;
     using ef::to_int32;
@@ -105,10 +104,13 @@ namespace Zeta_Series
       }
     }
 
-    if(isneg(real(s)))
+    // Do not reflect arguments which are close to zero because these
+    // would lose their digits next to the pole at one.
+    static const TR reflection_limit(-one() / static_cast<std::int32_t>(100));
+
+    if(real(s) < reflection_limit)
     {
       // Support negative arguments using the reflection formula.
-      // Support arguments with a real part which is less than 1/2.
       return Zeta_Series::Reflection<T, TR>(s);
     }
 
@@ -141,7 +143,7 @@ namespace Zeta_Series
     static const double td             = static_cast<double>(static_cast<std::int32_t>(tolerance()));
            const double sd             = to_double(real(s));
 
-    if(s_is_pure_real && ((td / sd) < lg10_max_prime))
+    if(s_is_pure_real && (sd > 0.0) && ((td / sd) < lg10_max_prime))
     {
       // Perform the product of primes.
       T product(1U);
-- 
2.43.0


From 26867504453fe8c17f26e6e2f7b2f6859468aaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 60/94] fix: Riemann zeta function of arguments near one

---
 libs/e_float/src/functions/zeta/zeta.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index e89e988..b4e39ef 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -70,10 +70,12 @@ namespace Zeta_Series
   T ZetaTemplate(const T& s)
   {
     using ef::abs;
+    using ef::exp;
     using ef::fabs;
     using ef::imag;
     using ef::pow;
     using ef::real;
+    using ef::sinh;
     using ef::tolerance;
     using ef::prime;
     using ef::iszero;
@@ -234,7 +236,19 @@ namespace Zeta_Series
         }
       }
 
-      const T two_pow_one_minus_s = pow(two(), one() - s);
+      const T one_minus_s = one() - s;
+
+      if(ef::fabs(real(one_minus_s)) + ef::fabs(imag(one_minus_s)) < ef::half())
+      {
+        // Compute 1 - 2^(1-s) without cancellation for arguments near one.
+        const T half_log_two_pow_one_minus_s = one_minus_s * (ef::ln2() / static_cast<std::int32_t>(2));
+
+        const T one_minus_two_pow_one_minus_s = -((exp(half_log_two_pow_one_minus_s) * sinh(half_log_two_pow_one_minus_s)) * two());
+
+        return zs / (dn * one_minus_two_pow_one_minus_s);
+      }
+
+      const T two_pow_one_minus_s = pow(two(), one_minus_s);
 
       return zs / (dn * (one() - two_pow_one_minus_s));
     }
-- 
2.43.0


From c5a1edf7cf823ccb9a4740437595f6c0d2502a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 61/94] fix: conj of a complex value is its conjugate

---
 libs/e_float/src/e_float/e_float_complex.h | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..53e123d 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1095,7 +1095,7 @@
 
     template<typename T> complex<T> conj(const complex<T>& c__my_z)
     {
-      return complex<T>(-c__my_z.imag(), c__my_z.real());
+      return complex<T>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
@@ -1126,19 +1126,21 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(T(1U) - (c__my_z * c__my_z))));
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<T> __log_part = log(__iz + sqrt(T(1U) - (c__my_z * c__my_z)));
+
+      return complex<T>(__log_part.imag(), -__log_part.real());
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __z_conj = conj(c__my_z);
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
 
-      complex<T> z__result = conj(log(T(1) - __z_conj) - log(T(1) + __z_conj));
-
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      const complex<T> __log_part = log(T(1) - __iz) - log(T(1) + __iz);
 
-      return z__result;
+      return complex<T>(-__log_part.imag() / 2U,
+                         __log_part.real() / 2U);
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1687,7 +1689,7 @@
 
     template<> inline complex<e_float> conj(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(-c__my_z.imag(), c__my_z.real());
+      return complex<e_float>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
@@ -1713,14 +1715,18 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(ef::one() - (c__my_z * c__my_z))));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+
+      const complex<e_float> c__my_log_part(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
+
+      return complex<e_float>(c__my_log_part.imag(), -c__my_log_part.real());
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_z_conj(conj(c__my_z));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_z_conj) - log(ef::one() + c__my_z_conj));
+      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_iz) - log(ef::one() + c__my_iz));
 
       return complex<e_float>(-c__my_pre_result.imag() / 2U,
                                c__my_pre_result.real() / 2U);
-- 
2.43.0


From 1b8a7a1cf53c058ebc3c13af5ebc2df42e56f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 62/94] fix: square root of complex zero is zero

---
 libs/e_float/src/e_float/e_float_complex.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 53e123d..d5b0a7c 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1303,6 +1303,11 @@
       const T    __real_part_fabs  ((__real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const T    __s_part          (sqrt((__real_part_fabs + abs(c__my_z)) / 2U));
 
+      if(__s_part == T(0U))
+      {
+        return complex<T>(T(0U), T(0U));
+      }
+
       if(__real_part_is_neg == false)
       {
         return complex<T>(__s_part,
@@ -1853,6 +1858,11 @@
       const e_float c__my_real_part_fabs((c__my_real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const e_float c__my_sqrt_part     (ef::sqrt((c__my_real_part_fabs + abs(c__my_z)) / 2U));
 
+      if(c__my_sqrt_part.iszero())
+      {
+        return complex<e_float>(ef::zero(), ef::zero());
+      }
+
       if(c__my_real_part_is_neg == false)
       {
         return complex<e_float>(c__my_sqrt_part,
-- 
2.43.0


From 32b2ac2c1db3d41edbbb44994609652de5eb482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 63/94] fix: loss of digits in complex asin and asinh of large
 arguments

---
 libs/e_float/src/e_float/e_float_complex.h | 24 ++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index d5b0a7c..b4dec4a 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1126,6 +1126,12 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
+      if((c__my_z.imag() > T(0U)) || ((c__my_z.imag() == T(0U)) && (c__my_z.real() < T(0U))))
+      {
+        // Avoid the cancellation in iz + sqrt(1 - z^2).
+        return -asin(-c__my_z);
+      }
+
       const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
 
       const complex<T> __log_part = log(__iz + sqrt(T(1U) - (c__my_z * c__my_z)));
@@ -1153,6 +1159,12 @@
 
     template<typename T> complex<T> asinh(const complex<T>& c__my_z)
     {
+      if((c__my_z.real() < T(0U)) || ((c__my_z.real() == T(0U)) && (c__my_z.imag() < T(0U))))
+      {
+        // Avoid the cancellation in z + sqrt(z^2 + 1).
+        return -asinh(-c__my_z);
+      }
+
       return log(c__my_z + sqrt(T(1U) + (c__my_z * c__my_z)));
     }
 
@@ -1720,6 +1732,12 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
+      if((c__my_z.imag() > 0U) || ((c__my_z.imag() == 0U) && (c__my_z.real() < 0U)))
+      {
+        // Avoid the cancellation in iz + sqrt(1 - z^2).
+        return -asin(-c__my_z);
+      }
+
       const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
       const complex<e_float> c__my_log_part(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
@@ -1747,6 +1765,12 @@
 
     template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
     {
+      if((c__my_z.real() < 0U) || ((c__my_z.real() == 0U) && (c__my_z.imag() < 0U)))
+      {
+        // Avoid the cancellation in z + sqrt(z^2 + 1).
+        return -asinh(-c__my_z);
+      }
+
       return log(c__my_z + sqrt((c__my_z * c__my_z) + ef::one()));
     }
 
-- 
2.43.0


From c52db5e7a9382122d842b8fa51f127ca1a46c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 64/94] fix: complex acosh of minus one

---
 libs/e_float/src/e_float/e_float_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index b4dec4a..b59c892 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1154,7 +1154,7 @@
       const complex<T> __zp(c__my_z.real() + T(1U), c__my_z.imag());
       const complex<T> __zm(c__my_z.real() - T(1U), c__my_z.imag());
 
-      return log(c__my_z + (__zp * sqrt(__zm / __zp)));
+      return log(c__my_z + (sqrt(__zp) * sqrt(__zm)));
     }
 
     template<typename T> complex<T> asinh(const complex<T>& c__my_z)
@@ -1760,7 +1760,7 @@
       const complex<e_float> c__my_zp = c__my_z + ef::one();
       const complex<e_float> c__my_zm = c__my_z - ef::one();
 
-      return log(c__my_z + (c__my_zp * sqrt(c__my_zm / c__my_zp)));
+      return log(c__my_z + (sqrt(c__my_zp) * sqrt(c__my_zm)));
     }
 
     template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
-- 
2.43.0


From 938df019568a0729841e41f4d50a8db340e0638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 65/94] fix: loss of digits in complex asin and asinh next to
 their branch points

---
 libs/e_float/src/e_float/e_float_complex.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index b59c892..3e3d3cb 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1134,7 +1134,7 @@
 
       const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<T> __log_part = log(__iz + sqrt(T(1U) - (c__my_z * c__my_z)));
+      const complex<T> __log_part = log(__iz + sqrt((T(1U) - c__my_z) * (T(1U) + c__my_z)));
 
       return complex<T>(__log_part.imag(), -__log_part.real());
     }
@@ -1165,7 +1165,9 @@
         return -asinh(-c__my_z);
       }
 
-      return log(c__my_z + sqrt(T(1U) + (c__my_z * c__my_z)));
+      const complex<T> __iz(-c__my_z.imag(), c__my_z.real());
+
+      return log(c__my_z + sqrt((T(1U) - __iz) * (T(1U) + __iz)));
     }
 
     template<typename T> complex<T> atanh(const complex<T>& c__my_z)
@@ -1740,7 +1742,7 @@
 
       const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<e_float> c__my_log_part(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
+      const complex<e_float> c__my_log_part(log(c__my_iz + sqrt((ef::one() - c__my_z) * (ef::one() + c__my_z))));
 
       return complex<e_float>(c__my_log_part.imag(), -c__my_log_part.real());
     }
@@ -1771,7 +1773,9 @@
         return -asinh(-c__my_z);
       }
 
-      return log(c__my_z + sqrt((c__my_z * c__my_z) + ef::one()));
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+
+      return log(c__my_z + sqrt((ef::one() - c__my_iz) * (ef::one() + c__my_iz)));
     }
 
     template<> inline complex<e_float> atanh(const complex<e_float>& c__my_z)
-- 
2.43.0


From 8fb13aa420d4659ce5b2eae92c97e9641c64ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 66/94] fix: reading a complex value accepts text that is not a
 number

---
 libs/e_float/src/e_float/e_float_complex.h | 32 +++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 3e3d3cb..d5f3910 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -908,22 +908,22 @@
       {{
         // A regular expression for an (extended) complex number of the form (u,v).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                   + std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})") // Possible exponent field.
                    + std::string("\\,{1}")                             // One comma character.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                   + std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})") // Possible exponent field.
                    + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form (u).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                   + std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})") // Possible exponent field.
                    + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form u.
-        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)"))    // Possible exponent field.
+        std::regex(  std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")) // Possible exponent field.
       }};
 
       T c__my_real_input(0U);
@@ -1943,22 +1943,22 @@
       {{
         // A regular expression for an (extended) complex number of the form (u,v).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                    + std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})") // Possible exponent field.
                     + std::string("\\,{1}")                             // One comma character.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                    + std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})") // Possible exponent field.
                     + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form (u).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                    + std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})") // Possible exponent field.
                     + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form u.
-        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)"))    // Possible exponent field.
+        std::regex(  std::string("([\\+\\-]{0,1}(?:[0-9]+\\.{0,1}[0-9]*|\\.[0-9]+))") // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")) // Possible exponent field.
       }};
 
       e_float c__my_real_input(0U);
-- 
2.43.0


From b2f8a5d390a5c010f23c2fa40fdb8691a619d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 67/94] fix: a failed read of a complex value restores the
 characters in their order

---
 libs/e_float/src/e_float/e_float_complex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index d5f3910..ecb7039 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1027,8 +1027,8 @@
       {
         // Error case: Restore the characters in the input stream
         // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
+        std::for_each(c__my_input_str.crbegin(),
+                      c__my_input_str.crend(),
                       [&c__my_istream](const char& c__my_c)
                       {
                         c__my_istream.putback(c__my_c);
@@ -2061,8 +2061,8 @@
       {
         // Error case: Restore the characters in the input stream
         // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
+        std::for_each(c__my_input_str.crbegin(),
+                      c__my_input_str.crend(),
                       [&c__my_istream](const char& c__my_c)
                       {
                         c__my_istream.putback(c__my_c);
-- 
2.43.0


From ba95765eaa4656ca0323448d8c0f2f47df2eb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 68/94] fix: gamma of a complex argument with an integer real
 part ignored the imaginary part

---
 libs/e_float/src/functions/gamma/gamma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 47f26a5..0bada0e 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -76,6 +76,7 @@ namespace GammaTemplate
     using ef::tolerance;
     using ef::exp;
     using ef::log;
+    using ef::imag;
     using ef::real;
     using ef::sin;
     using ef::factorial;
@@ -97,7 +98,7 @@ namespace GammaTemplate
 
     const bool b_neg = isneg(real(x));
 
-    if(isint(real(x)))
+    if(isint(real(x)) && iszero(imag(x)))
     {
       if(b_neg || iszero(real(x)))
       {
-- 
2.43.0


From 10c44dc0e5814d2e743ab6e08f56a8d5b99016e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 69/94] fix: the Newton iteration of log had too little working
 precision at digit settings just below its doublings

---
 .../src/functions/elementary/elementary_trans.cpp      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 71d5c89..6989557 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -348,13 +348,15 @@ e_float ef::log(const e_float& x)
                       : x_minus_one);
 
   // Newton-Raphson iteration
-  static const std::int32_t double_digits10_minus_one = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(1));
+  static const std::int32_t double_digits10_minus_a_few = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(3));
 
-  for(std::int32_t digits = double_digits10_minus_one; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
+  for(std::int32_t digits = double_digits10_minus_a_few; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
   {
     // Adjust precision of the terms.
-    log_val.precision(static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)));
-         xx.precision(static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)));
+    const std::int32_t new_prec = static_cast<std::int32_t>(digits * 2) + 10;
+
+    log_val.precision(new_prec);
+         xx.precision(new_prec);
 
     const e_float exp_minus_log = ef::exp(-log_val);
 
-- 
2.43.0


From 8b3c96b2d580ad2bdd6c6073e097f53de27475ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 70/94] fix: conversion of simple floating-point values was
 inexact at low digit settings

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 47e9ae3..9575f5b 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -178,13 +178,24 @@ void efx::e_float::from_long_double(const long double l)
 
   const native_float_parts<long double> ld_parts(my_ld);
 
+  unsigned long long mantissa = ld_parts.get_mantissa();
+  int                p2       = ld_parts.get_exponent() - (std::numeric_limits<long double>::digits - 1);
+
+  // Remove the trailing zero bits of the mantissa. This avoids an unnecessarily
+  // long power of two which would not be exact at low digit counts.
+  while((mantissa % 2U) == 0U)
+  {
+    mantissa /= 2U;
+
+    ++p2;
+  }
+
   // Create an e_float from the fractional part of the
   // mantissa expressed as an unsigned long long.
-  from_unsigned_long_long(ld_parts.get_mantissa());
+  from_unsigned_long_long(mantissa);
 
   // Scale the unsigned long long representation to the fractional
   // part of the long double and multiply with the base-2 exponent.
-  const int p2 = ld_parts.get_exponent() - (std::numeric_limits<long double>::digits - 1);
 
   if(p2 != 0)
   {
-- 
2.43.0


From 2f78ef9e3232eb115c5ca914788f3cd2ee9fad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 71/94] fix: the start values of the root iterations had ten
 digits only for huge exponents

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 13 ++++++++-----
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 5b3b86a..6c5a1c1 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -668,11 +668,14 @@ void gmp::e_float::extract_parts(double& mantissa, std::int64_t& exponent) const
 
   long n2;
   const double d2    = ::mpf_get_d_2exp(&n2, (ef::fabs(*this)).my_rop);
-  // Use long double since the decimal part of the product is needed.
-  const long double x_exp = static_cast<long double>(n2) * 0.30102999566398119521373889472449302676819L;
-
-  const long double x_exp_integer_part = static_cast<long double>(static_cast<long>(x_exp));
-  const double      x_exp_decimal_part = static_cast<double>(x_exp - x_exp_integer_part);
+  // The decimal part of the product of the exponent and log10(2) is needed.
+  // Use long double and split log10(2) such that the product with the leading
+  // 31 bits is exact, because the exponent itself can be large.
+  const long double x_exp_hi = static_cast<long double>(n2) * 0.3010299955494701862335205078125L;
+  const long double x_exp_lo = static_cast<long double>(n2) * 1.1451100898021838691199302676818988146E-10L;
+
+  const long double x_exp_integer_part = static_cast<long double>(static_cast<long>(x_exp_hi + x_exp_lo));
+  const double      x_exp_decimal_part = static_cast<double>((x_exp_hi - x_exp_integer_part) + x_exp_lo);
 
   double m = d2 * ::pow(10.0, x_exp_decimal_part);
   std::int64_t  e = static_cast<std::int64_t>(x_exp_integer_part);
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index f253e3e..bb9599b 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -306,11 +306,14 @@ void mpfr::e_float::extract_parts(double& mantissa, std::int64_t& exponent) cons
 
   long n2;
   const double d2    = ::mpfr_get_d_2exp(&n2, (ef::fabs(*this)).my_rop, GMP_RNDN);
-  // Use long double since the decimal part of the product is needed.
-  const long double x_exp = static_cast<long double>(n2) * 0.30102999566398119521373889472449302676819L;
-
-  const long double x_exp_integer_part = static_cast<long double>(static_cast<long>(x_exp));
-  const double      x_exp_decimal_part = static_cast<double>(x_exp - x_exp_integer_part);
+  // The decimal part of the product of the exponent and log10(2) is needed.
+  // Use long double and split log10(2) such that the product with the leading
+  // 31 bits is exact, because the exponent itself can be large.
+  const long double x_exp_hi = static_cast<long double>(n2) * 0.3010299955494701862335205078125L;
+  const long double x_exp_lo = static_cast<long double>(n2) * 1.1451100898021838691199302676818988146E-10L;
+
+  const long double x_exp_integer_part = static_cast<long double>(static_cast<long>(x_exp_hi + x_exp_lo));
+  const double      x_exp_decimal_part = static_cast<double>((x_exp_hi - x_exp_integer_part) + x_exp_lo);
 
   using std::pow;
 
-- 
2.43.0


From 867a1d0933f9b8c1a11cf740deabc6716b76f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 72/94] fix: dynamic_array: operator< compared only the common
 prefix of arrays of different size

---
 libs/e_float/src/utility/util_dynamic_array.h | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 8926696..601b183 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -289,21 +289,10 @@
       }
       else
       {
-        if(size_of_left_is_zero)
-        {
-          const bool size_of_right_is_zero = (rhs.size() == size_type(0U));
-
-          return (size_of_right_is_zero == false);
-        }
-        else
-        {
-          const size_type count = (std::min)(lhs.size(), rhs.size());
-
-          return std::lexicographical_compare(lhs.cbegin(),
-                                              lhs.cbegin() + count,
-                                              rhs.cbegin(),
-                                              rhs.cbegin() + count);
-        }
+        return std::lexicographical_compare(lhs.cbegin(),
+                                            lhs.cend(),
+                                            rhs.cbegin(),
+                                            rhs.cend());
       }
     }
 
-- 
2.43.0


From 34cea327df1e138fac763f1cd2bf82daeb263126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 73/94] fix: dynamic_array: constructors assigned to elements
 that did not exist yet

---
 libs/e_float/src/utility/util_dynamic_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 601b183..45e2e24 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -69,7 +69,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(other.elems, other.elems + elem_count, elems);
+          std::uninitialized_copy(other.elems, other.elems + elem_count, elems);
         }
       }
 
@@ -86,7 +86,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(first, last, elems);
+          std::uninitialized_copy(first, last, elems);
         }
       }
 
@@ -101,7 +101,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(lst.begin(), lst.end(), elems);
+          std::uninitialized_copy(lst.begin(), lst.end(), elems);
         }
       }
 
-- 
2.43.0


From 5cf6561f8b3f7eaa8031d18063533e056d09dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 74/94] fix: numeric_cast: float and e_float of few digits were
 read as 32-bit integers

---
 libs/e_float/src/utility/util_numeric_cast.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index e4e7443..37aebe5 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -20,8 +20,9 @@
       constexpr bool numeric_cast_is_signed = std::numeric_limits<T>::is_signed;
 
       constexpr bool numeric_cast_is_small_type =
-        (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
-         || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32)));
+        (    std::numeric_limits<T>::is_integer
+         && (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
+             || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32))));
 
       using value_type = typename std::conditional<numeric_cast_is_small_type,
                                                    typename std::conditional<numeric_cast_is_signed,
-- 
2.43.0


From 07d9517774d0810dec224273dcea8b9cfec16d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 75/94] fix: FindRootNewtonRaphson reported success with NaN
 after a zero derivative at a root

---
 libs/e_float/src/utility/util_find_root_newton_raphson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_find_root_newton_raphson.h b/libs/e_float/src/utility/util_find_root_newton_raphson.h
index c0e8b54..43a83b9 100644
--- a/libs/e_float/src/utility/util_find_root_newton_raphson.h
+++ b/libs/e_float/src/utility/util_find_root_newton_raphson.h
@@ -51,7 +51,7 @@
 
           x -= dx;
 
-          if((FindRootBase<T>::xlo - x) * (x - FindRootBase<T>::xhi) < ef::zero())
+          if(!((FindRootBase<T>::xlo - x) * (x - FindRootBase<T>::xhi) >= ef::zero()))
           {
             FunctionOperation<T>::op_ok = false;
             break;
-- 
2.43.0


From 269c15078ddc109da49bed116017eea93d245468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 76/94] fix: FindRootBisect could not be instantiated and
 reported success without a change of sign

---
 libs/e_float/src/utility/util_find_root_bisect.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_bisect.h b/libs/e_float/src/utility/util_find_root_bisect.h
index 1bb0ec3..d72584b 100644
--- a/libs/e_float/src/utility/util_find_root_bisect.h
+++ b/libs/e_float/src/utility/util_find_root_bisect.h
@@ -16,7 +16,7 @@
   namespace Util
   {
     template<typename T>
-    class FindRootBisect final : public FindRootBase<T>
+    class FindRootBisect : public FindRootBase<T>
     {
     public:
       virtual ~FindRootBisect() { }
@@ -38,13 +38,15 @@
         T lo = RangedFunctionOperation<T>::xlo;
         T hi = RangedFunctionOperation<T>::xhi;
 
-        const T f = function(lo);
+        const T f = Function<T>::function(lo);
 
         static const T t_zero = T(0);
 
         // Make sure that there is at least one root in the interval.
-        if(f * function(RangedFunctionOperation<T>::xhi) >= t_zero)
+        if(f * Function<T>::function(hi) >= t_zero)
         {
+          FunctionOperation<T>::op_ok = false;
+
           return t_zero;
         }
 
@@ -69,7 +71,7 @@
           dx /= static_cast<std::int32_t>(2);
 
           const T x_mid = rt + dx;
-          const T f_mid = function(x_mid);
+          const T f_mid = Function<T>::function(x_mid);
 
           if(f_mid <= t_zero)
           {
@@ -79,7 +81,7 @@
           // Check for convergence to within a tolerance.
           const T dx_abs = ((dx < t_zero) ? -dx : dx);
 
-          if(dx_abs < RangedFunctionOperation<T>::eps || ef::iszero(f_mid))
+          if((dx_abs < RangedFunctionOperation<T>::eps) || (f_mid == t_zero))
           {
             // Return root.
             return rt;
-- 
2.43.0


From 7af20b316e35e542ac9610659c811d5caa6288cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 77/94] fix: FunctionDerivative could not be instantiated

---
 libs/e_float/src/utility/util_function_derivative.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/utility/util_function_derivative.h b/libs/e_float/src/utility/util_function_derivative.h
index 5e355c6..447eacb 100644
--- a/libs/e_float/src/utility/util_function_derivative.h
+++ b/libs/e_float/src/utility/util_function_derivative.h
@@ -21,7 +21,7 @@
   namespace Util
   {
     template<typename T>
-    class FunctionDerivative final : public FunctionOperation<T>
+    class FunctionDerivative : public FunctionOperation<T>
     {
     public:
       virtual ~FunctionDerivative() { }
@@ -42,9 +42,9 @@
         const T dx2 = dx1 * static_cast<std::int32_t>(2);
         const T dx3 = dx1 * static_cast<std::int32_t>(3);
 
-        const T m1 = (function(my_x + dx1) - function(my_x - dx1)) / static_cast<std::int32_t>(2);
-        const T m2 = (function(my_x + dx2) - function(my_x - dx2)) / static_cast<std::int32_t>(4);
-        const T m3 = (function(my_x + dx3) - function(my_x - dx3)) / static_cast<std::int32_t>(6);
+        const T m1 = (Function<T>::function(my_x + dx1) - Function<T>::function(my_x - dx1)) / static_cast<std::int32_t>(2);
+        const T m2 = (Function<T>::function(my_x + dx2) - Function<T>::function(my_x - dx2)) / static_cast<std::int32_t>(4);
+        const T m3 = (Function<T>::function(my_x + dx3) - Function<T>::function(my_x - dx3)) / static_cast<std::int32_t>(6);
 
         const T fifteen_m1 = static_cast<std::int32_t>(15) * m1;
         const T six_m2     = static_cast<std::int32_t>( 6) * m2;
-- 
2.43.0


From 81c2a72adfa73c3571416be54046adf683be971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 78/94] fix: the function, root and integration templates did
 not compile: noncopyable was not in their namespace

---
 libs/e_float/src/utility/util_noncopyable.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/utility/util_noncopyable.h b/libs/e_float/src/utility/util_noncopyable.h
index 3dabbaa..a51a9e5 100644
--- a/libs/e_float/src/utility/util_noncopyable.h
+++ b/libs/e_float/src/utility/util_noncopyable.h
@@ -30,4 +30,9 @@
     using noncopyable = my_noncopyable_namespace::noncopyable;
   }
 
+  namespace Util
+  {
+    using util::noncopyable;
+  }
+
 #endif // UTIL_NONCOPYABLE_2008_12_16_H_
-- 
2.43.0


From 393638c380b2f032615976415c7065590ea6d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:26 +0000
Subject: [PATCH 79/94] fix: construction from mantissa and exponent made a
 limb of 10^8 from a mantissa of ten

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 9575f5b..36faf3b 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -59,7 +59,7 @@ efx::e_float::e_float(const double mantissa,
   double d = ((!b_neg) ? mantissa : -mantissa);
   std::int64_t  e = exponent;
 
-  while(d > 10.0) { d /= 10.0; ++e; }
+  while(d >= 10.0) { d /= 10.0; ++e; }
   while(d <  1.0) { d *= 10.0; --e; }
 
   auto shift = static_cast<std::int32_t>(e % static_cast<std::int32_t>(ef_elem_digits10));
-- 
2.43.0


From 663b85d6a8807e24c051b357a5107602327a6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 80/94] fix: integer_part and decimal_part left the fraction of
 numbers just below the resolution at digit settings 8k+1

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 36faf3b..7117c5b 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1667,7 +1667,7 @@ efx::e_float efx::e_float::extract_integer_part() const
     // Thus the integer part is zero.
     return ef::zero();
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10))
   {
     // The number is too large to resolve the integer part.
     // Thus it is already a pure integer part.
@@ -1708,7 +1708,7 @@ efx::e_float efx::e_float::extract_decimal_part() const
     // Thus it is already a pure decimal part.
     return *this;
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10))
   {
     // The number is too large to have a decimal part.
     // Thus the decimal part is zero.
-- 
2.43.0


From b8465cfda77d27d01565609eb20e3f437a271db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 81/94] fix: fmod of the boost binding for exact multiples with
 operands of different sign

---
 libs/math/include/boost/math/bindings/e_float.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index b13adfa..b1e026d 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -532,14 +532,7 @@
       //   |fractional_part| < |y|,
       // and fractional_part has the same sign as x.
 
-      const ::e_float integer_part = ::ef::floor(x.crepresentation() / y.crepresentation());
-
-      result.representation() = x.crepresentation() - (integer_part * y.crepresentation());
-
-      if(x.crepresentation().isneg() != y.crepresentation().isneg())
-      {
-        result.representation() -= y.crepresentation();
-      }
+      result.representation() = ::ef::fmod(x.crepresentation(), y.crepresentation());
     }
   }
 
-- 
2.43.0


From bde030f023692dfb4a68cb17908c1af48203a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 82/94] fix: numeric_limits::lowest of the boost binding is
 minus the largest value

---
 libs/math/include/boost/math/bindings/e_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index b1e026d..ae1043b 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -614,7 +614,7 @@
 
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> (min)        () { return boost::math::ef::e_float(ef::value_min()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> (max)        () { return boost::math::ef::e_float(ef::value_max()); }
-      static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> lowest       () { return boost::math::ef::e_float(ef::zero()); }
+      static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> lowest       () { return boost::math::ef::e_float(-ef::value_max()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> epsilon      () { return boost::math::ef::e_float(ef::value_eps()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> round_error  () { return boost::math::ef::e_float(ef::half()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> infinity     () { return boost::math::ef::e_float(ef::value_inf()); }
-- 
2.43.0


From adb33720a1eb6a3435b7ef3f6ed1dec298556c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 83/94] fix: str() of the boost binding with zero digits gives
 all significant digits

---
 libs/math/include/boost/math/bindings/e_float.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index ae1043b..307ccfc 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -148,7 +148,12 @@
 
       my_stream_str.flags(format_flags);
 
-      static_cast<void>(my_stream_str.precision(number_of_digits));
+      // Zero digits without a float-field format request all significant digits.
+      const bool use_all_digits = (   (number_of_digits == 0)
+                                   && ((format_flags & std::ios::floatfield) == std::ios::fmtflags(0)));
+
+      static_cast<void>(my_stream_str.precision(use_all_digits ? static_cast<std::streamsize>(std::numeric_limits<::e_float>::max_digits10)
+                                                               : number_of_digits));
 
       m_value.wr_string(my_result_str, my_stream_str);
 
-- 
2.43.0


From 202cd6cbc9d45b6728988aa67100c5e2e25bcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 84/94] fix: fmod when the rounded quotient is next to an
 integer

---
 .../src/functions/elementary/elementary_math.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 84dafd7..3ca46c5 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -111,7 +111,21 @@ e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
   const e_float n = ef::integer_part(v1 / v2);
 
-  return v1 - (n * v2);
+  e_float r = v1 - (n * v2);
+
+  // The rounded quotient can be off by one in the neighborhood of an integer.
+  const e_float v2_abs = ef::fabs(v2);
+
+  if(ef::fabs(r) >= v2_abs)
+  {
+    r -= (r.isneg() ? -v2_abs : v2_abs);
+  }
+  else if((!r.iszero()) && (r.isneg() != v1.isneg()))
+  {
+    r += (r.isneg() ? v2_abs : -v2_abs);
+  }
+
+  return r;
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From beb6900fb066b329e602a15c3ebb42d4220a27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 85/94] fix: computations and text input/output independent of
 the grouping and decimal point of the global C++ locale

---
 libs/e_float/src/e_float/e_float_complex.h     | 11 +++++++++++
 libs/e_float/src/e_float/efx/e_float_efx.cpp   |  7 +++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   |  9 +++++++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp |  7 +++++++
 libs/e_float/src/utility/util_lexical_cast.h   |  3 +++
 libs/e_float/src/utility/util_numeric_cast.h   |  3 +++
 6 files changed, 40 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index ecb7039..103219c 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -15,6 +15,7 @@
   #include <array>
   #include <cmath>
   #include <istream>
+  #include <locale>
   #include <ostream>
   #include <regex>
   #include <sstream>
@@ -980,6 +981,8 @@
           {
             std::stringstream c__my_stringstream;
 
+            c__my_stringstream.imbue(std::locale::classic());
+
             c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
             c__my_stringstream >> c__my_real_input;
           }
@@ -988,6 +991,8 @@
           {
             std::stringstream c__my_stringstream;
 
+            c__my_stringstream.imbue(std::locale::classic());
+
             c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
             c__my_stringstream >> c__my_imag_input;
           }
@@ -1016,6 +1021,8 @@
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
 
+          c__my_stringstream.imbue(std::locale::classic());
+
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
 
@@ -2014,6 +2021,8 @@
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
 
+          c__my_stringstream.imbue(std::locale::classic());
+
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
 
@@ -2050,6 +2059,8 @@
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
 
+          c__my_stringstream.imbue(std::locale::classic());
+
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
 
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7117c5b..4abc526 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -21,6 +21,7 @@
 
 #include <cmath>
 #include <iomanip>
+#include <locale>
 
 #include <e_float/e_float_functions.h>
 #include <e_float/detail/e_float_detail_karatsuba.h>
@@ -1509,6 +1510,8 @@ double efx::e_float::extract_double() const
 
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1555,6 +1558,8 @@ long double efx::e_float::extract_long_double() const
 
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
@@ -1815,6 +1820,8 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   {
     std::stringstream ss;
 
+    ss.imbue(std::locale::classic());
+
     ss << std::setw(static_cast<std::streamsize>(ef_elem_digits10))
        << std::setfill(static_cast<char>('0'))
        << my_data[(typename array_type::size_type) i];
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 6c5a1c1..1401e88 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -12,6 +12,7 @@
 #include <cfloat>
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <vector>
 
@@ -119,6 +120,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << *it;
 
     ++it;
@@ -134,6 +137,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     {
       std::stringstream strm;
 
+      strm.imbue(std::locale::classic());
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -144,6 +149,8 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << e;
 
     str += "e" + strm.str();
@@ -768,6 +775,8 @@ long double gmp::e_float::extract_long_double() const
 
   std::stringstream ss;
 
+  ss.imbue(std::locale::classic());
+
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
      << *this;
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index bb9599b..d798167 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -13,6 +13,7 @@
 #include <cstdarg>
 #include <cstdio>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 
 #include <e_float/e_float_functions.h>
@@ -77,6 +78,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << *it;
 
     ++it;
@@ -92,6 +95,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     {
       std::stringstream strm;
 
+      strm.imbue(std::locale::classic());
+
       strm << std::setw(8) << std::setfill('0') << *it;
 
       str += strm.str();
@@ -102,6 +107,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   {
     std::stringstream strm;
 
+    strm.imbue(std::locale::classic());
+
     strm << e;
 
     str += "e" + strm.str();
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 6365266..bbe5bd5 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -11,6 +11,7 @@
 #ifndef UTIL_LEXICAL_CAST_2009_11_24_H_
   #define UTIL_LEXICAL_CAST_2009_11_24_H_
 
+  #include <locale>
   #include <sstream>
   #include <string>
 
@@ -20,6 +21,8 @@
     {
       std::stringstream ss;
 
+      ss.imbue(std::locale::classic());
+
       ss << t;
 
       return ss.str();
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index 37aebe5..4ce6b6d 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -8,6 +8,7 @@
 #ifndef UTIL_NUMERIC_CAST_2009_11_24_H
   #define UTIL_NUMERIC_CAST_2009_11_24_H
 
+  #include <locale>
   #include <sstream>
   #include <string>
   #include <type_traits>
@@ -34,6 +35,8 @@
 
       std::stringstream strm;
 
+      strm.imbue(std::locale::classic());
+
       strm << str;
 
       value_type t;
-- 
2.43.0


From 186ce014ecb312ba19a5301ba7c94dac3bbc8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 86/94] fix: generic_functions constants include the elementary
 templates they use

---
 .../generic_functions/constants/generic_functions_constants.h    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 9f24def..46c0b65 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -12,6 +12,7 @@
   #define GENERIC_FUNCTIONS_CONSTANTS_2011_06_18_H_
 
   #include <e_float/e_float_functions.h>
+  #include <generic_functions/elementary/generic_functions_elementary.h>
 
   namespace generic_functions
   {
-- 
2.43.0


From f03145289e26e6ca2228617d019b0a8fb18f2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 87/94] fix: the generic rootn returns the NaN of its own type

---
 .../elementary/generic_functions_elementary.h                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 9313522..7326be2 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -215,7 +215,7 @@
     {
       if(!generic_functions::isfinite<T>(x))
       {
-        return std::numeric_limits<e_float>::quiet_NaN();
+        return std::numeric_limits<T>::quiet_NaN();
       }
 
       if(p < static_cast<std::int32_t>(0))
@@ -225,7 +225,7 @@
 
       if((p == static_cast<std::int32_t>(0)) || generic_functions::isneg(x))
       {
-        return std::numeric_limits<e_float>::quiet_NaN();
+        return std::numeric_limits<T>::quiet_NaN();
       }
       else if(p == static_cast<std::int32_t>(1))
       {
-- 
2.43.0


From 8aa966ed9d275d02ba30fdca767fcf01fc49fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 88/94] fix: generic rootn of built-in types takes the root
 instead of the power

---
 .../elementary/generic_functions_elementary.h               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 7326be2..750ccfb 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -43,9 +43,9 @@
     template<> long double sqrt<long double>(const long double& x) { return ::sqrt(x); }
     template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
 
-    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, static_cast<float>(p)); }
-    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, static_cast<double>(p)); }
-    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::pow(x, static_cast<long double>(p)); }
+    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
+    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
+    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
     template<> e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
 
     template<> float       log<float>      (const float& x)       { return ::logf(x); }
-- 
2.43.0


From bcf64b42e69c0ead15d2ac857eb442003bc3786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 89/94] fix: the long double specializations of
 generic_functions keep long double precision

---
 .../constants/generic_functions_constants.h                 | 6 +++---
 .../elementary/generic_functions_elementary.h               | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 46c0b65..8f4bc71 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -22,17 +22,17 @@
 
     template<> const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
     template<> const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
-    template<> const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751); return val; }
+    template<> const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751L); return val; }
     template<> const e_float&     pi<e_float>    () { return ef::pi(); }
 
     template<> const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
     template<> const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
-    template<> const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026); return val; }
+    template<> const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026L); return val; }
     template<> const e_float&     ln2<e_float>    () { return ef::ln2(); }
 
     template<> const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
     template<> const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
-    template<> const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992); return val; }
+    template<> const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992L); return val; }
     template<> const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
 
     template<typename T> const T& pi()
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 750ccfb..e31ff48 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -40,7 +40,7 @@
 
     template<> float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
     template<> double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
-    template<> long double sqrt<long double>(const long double& x) { return ::sqrt(x); }
+    template<> long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
     template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
 
     template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
@@ -50,7 +50,7 @@
 
     template<> float       log<float>      (const float& x)       { return ::logf(x); }
     template<> double      log<double>     (const double& x)      { return ::log(x); }
-    template<> long double log<long double>(const long double& x) { return ::log(x); }
+    template<> long double log<long double>(const long double& x) { return ::logl(x); }
     template<> e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
 
     template<typename T>
-- 
2.43.0


From 5fba9a4214a855b0caa9734c2dcfb4a616106c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 90/94] fix: generic_functions specializations are inline, so
 that the headers can be included twice

---
 .../constants/generic_functions_constants.h   | 28 +++++++++----------
 .../elementary/generic_functions_elementary.h | 28 +++++++++----------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 8f4bc71..b29886c 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -20,20 +20,20 @@
     template<typename T> const T& ln2        ();
     template<typename T> const T& euler_gamma();
 
-    template<> const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
-    template<> const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
-    template<> const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751L); return val; }
-    template<> const e_float&     pi<e_float>    () { return ef::pi(); }
-
-    template<> const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
-    template<> const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
-    template<> const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026L); return val; }
-    template<> const e_float&     ln2<e_float>    () { return ef::ln2(); }
-
-    template<> const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
-    template<> const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
-    template<> const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992L); return val; }
-    template<> const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
+    template<> inline const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
+    template<> inline const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
+    template<> inline const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751L); return val; }
+    template<> inline const e_float&     pi<e_float>    () { return ef::pi(); }
+
+    template<> inline const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
+    template<> inline const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
+    template<> inline const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026L); return val; }
+    template<> inline const e_float&     ln2<e_float>    () { return ef::ln2(); }
+
+    template<> inline const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
+    template<> inline const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
+    template<> inline const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992L); return val; }
+    template<> inline const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
 
     template<typename T> const T& pi()
     {
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index e31ff48..f0a14c2 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -38,20 +38,20 @@
     template<typename T> bool isone    (const T& x) { return  generic_functions::iszero<T>(1 - x); }
     template<typename T> bool isfinite (const T& x) { static_cast<void>(x); return true; } // TBD: Devise a sensible test for isfinite.
 
-    template<> float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
-    template<> double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
-    template<> long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
-    template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
-
-    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
-    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
-    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
-    template<> e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
-
-    template<> float       log<float>      (const float& x)       { return ::logf(x); }
-    template<> double      log<double>     (const double& x)      { return ::log(x); }
-    template<> long double log<long double>(const long double& x) { return ::logl(x); }
-    template<> e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
+    template<> inline float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
+    template<> inline double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
+    template<> inline long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
+    template<> inline e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
+
+    template<> inline float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
+    template<> inline double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
+    template<> inline long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
+    template<> inline e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
+
+    template<> inline float       log<float>      (const float& x)       { return ::logf(x); }
+    template<> inline double      log<double>     (const double& x)      { return ::log(x); }
+    template<> inline long double log<long double>(const long double& x) { return ::logl(x); }
+    template<> inline e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
 
     template<typename T>
     double frexp10(const T& x, std::int64_t* ptrexp10)
-- 
2.43.0


From 705da624a05291921ddc7dc8da903c556ec19c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 91/94] fix: the generic functions do not depend on the global
 locale

---
 .../elementary/generic_functions_elementary.h                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index f0a14c2..b0dfe71 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -12,6 +12,7 @@
   #define GENERIC_FUNCTIONS_ELEMENTARY_2011_06_18_H_
 
   #include <cmath>
+  #include <locale>
   #include <regex>
 
   #include <e_float/e_float_functions.h>
@@ -60,6 +61,7 @@
       // Caution: This is slow. It is generic, but has poor performance.
       // Comment: Any dedicated effort to standardize MP would specify a fast kind of frexp.
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
       ss << std::scientific
          << std::showpos
          << std::uppercase
@@ -177,6 +179,7 @@
       const double sqd = ::sqrt(dd);
 
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
 
       // Estimate the square root.
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
@@ -258,6 +261,7 @@
 
       // Estimate the square root.
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
          << one_over_rtn_d
          << 'E'
-- 
2.43.0


From 08e60d172a9821a18ba45ed34956b522065d272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 92/94] fix: the overflow and underflow of the efx back end are
 exact at the ends of the exponent range

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 82 ++++++++++----------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 4abc526..a7e8dda 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -89,6 +89,20 @@ efx::e_float::e_float(const double mantissa,
     d          -= static_cast<double>(n);
     d          *= static_cast<double>(ef_elem_mask);
   }
+
+  // Check for underflow.
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
+  {
+    operator=(ef::zero());
+  }
+
+  // Check for overflow.
+  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+     && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)()))
+  {
+    *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                      : -std::numeric_limits<e_float>::infinity());
+  }
 }
 
 efx::e_float::e_float(const char* const s) : my_data     (),
@@ -662,7 +676,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
   }
 
   // Check for underflow.
-  if(iszero()) { return (*this = ef::zero()); }
+  if(iszero() || (my_exp < std::numeric_limits<e_float>::min_exponent10)) { return (*this = ef::zero()); }
 
   // Check for overflow.
   if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
@@ -725,35 +739,6 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     return (*this = ef::zero());
   }
 
-  // Check for overflow or underflow.
-  const auto u_exp_is_neg = (  my_exp < static_cast<std::int64_t>(0));
-  const auto v_exp_is_neg = (v.my_exp < static_cast<std::int64_t>(0));
-
-  if(u_exp_is_neg == v_exp_is_neg)
-  {
-    // Get the unsigned base-10 exponents of *this and v and...
-    const std::int64_t u_exp = ((!u_exp_is_neg) ?   my_exp : static_cast<std::int64_t>(  -my_exp));
-    const std::int64_t v_exp = ((!v_exp_is_neg) ? v.my_exp : static_cast<std::int64_t>(-v.my_exp));
-
-    // Check the range of the upcoming multiplication.
-    const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));
-
-    if(b_result_is_out_of_range)
-    {
-      if(u_exp_is_neg)
-      {
-        *this = ef::zero();
-      }
-      else
-      {
-        *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
-                                    : -std::numeric_limits<e_float>::infinity());
-      }
-
-      return *this;
-    }
-  }
-
   // Set the exponent of the result.
   my_exp += v.my_exp;
 
@@ -807,9 +792,24 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     }
   }
 
+  // Check for underflow.
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
+  {
+    return (*this = ef::zero());
+  }
+
   // Set the sign of the result.
   my_neg = b_result_is_neg;
 
+  // Check for overflow.
+  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+     && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)())
+    )
+  {
+    *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                : -std::numeric_limits<e_float>::infinity());
+  }
+
   return *this;
 }
 
@@ -949,16 +949,16 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
                        my_data.begin()  + static_cast<std::ptrdiff_t>(my_prec_elem));
 
     my_data.front() = static_cast<std::uint32_t>(carry);
+  }
 
-    // Check for overflow.
-    if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
-       && (*this > (std::numeric_limits<e_float>::max)()))
-    {
-      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
-                        : -std::numeric_limits<e_float>::infinity());
+  // Check for overflow.
+  if(   (my_exp >= std::numeric_limits<e_float>::max_exponent10)
+     && (*this > (std::numeric_limits<e_float>::max)()))
+  {
+    *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                      : -std::numeric_limits<e_float>::infinity());
 
-      return *this;
-    }
+    return *this;
   }
 
   // Set the sign.
@@ -2109,7 +2109,11 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // Check for overflow...
-  if(my_exp > std::numeric_limits<e_float>::max_exponent10)
+  // Here, max_exponent10 is a multiple of ef_elem_digits10 and the largest finite
+  // value has exactly one decimal digit in its first data element.
+  if(    (my_exp >  std::numeric_limits<e_float>::max_exponent10)
+     || (   (my_exp == std::numeric_limits<e_float>::max_exponent10)
+         && (my_data.front() > static_cast<array_type::value_type>(9U))))
   {
     const bool b_result_is_neg = my_neg;
 
-- 
2.43.0


From 2c4d3b76e13ebba63798bf1bd9d547d9aced6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 93/94] fix: scalbn and ilogb of the multiprecision binding for
 zero, the ends of the range and rounded orders

---
 .../include/boost/math/bindings/e_float.hpp   | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index 307ccfc..daf152b 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -372,8 +372,16 @@
       #endif
     }
 
-   // Set the result to base-10 exponent (order) of the value.
-   return val.crepresentation().order();
+    // Set the result to base-10 exponent (order) of the value.
+    // The order of some back ends is rounded to nearest. Correct it if so.
+    std::int64_t the_order = static_cast<std::int64_t>(val.crepresentation().order());
+
+    if(::ef::fabs(val.crepresentation()) < ::e_float(1.0, the_order))
+    {
+      --the_order;
+    }
+
+    return static_cast<e_float::exponent_type>(the_order);
   }
 
   template<typename IntegralType,
@@ -383,9 +391,23 @@
   {
     const std::int64_t my_e = static_cast<std::int64_t>(e);
 
-    const e_float t(::e_float(1.0, my_e));
+    // Zero and the non-finite values remain unchanged.
+    if(val.crepresentation().iszero() || (!(val.crepresentation().isfinite)()))
+    {
+      result = val;
+
+      return;
+    }
+
+    // Scale in two steps such that the power of ten itself
+    // neither overflows nor underflows.
+    const std::int64_t my_e_half = static_cast<std::int64_t>(my_e / 2);
+
+    const e_float t1(::e_float(1.0, my_e_half));
+    const e_float t2(::e_float(1.0, static_cast<std::int64_t>(my_e - my_e_half)));
 
-    eval_multiply(result, val, t);
+    eval_multiply(result, val, t1);
+    eval_multiply(result, t2);
   }
 
   inline void eval_floor(      e_float& result,
-- 
2.43.0


From 62beaea6bfb6b9fa40f80b07cc274151574fee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 94/94] fix: clamp the integer conversions of a double and
 compute its decimal order exactly

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 3ca46c5..787e9f9 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -32,7 +32,7 @@ bool         ef::isone    (const e_float& x) { return x.isone(); }
 bool         ef::iszero   (const double x)   { using std::fabs; return (fabs(x) < (std::numeric_limits<double>::min)() * 2); }
 bool         ef::iszero   (const e_float& x) { return x.iszero(); }
 double       ef::to_double(const double& x)  { return x; }
-std::int64_t ef::order_of (const double x)   { using std::log10; return static_cast<std::int64_t>(static_cast<std::int32_t>(log10(x))); }
+std::int64_t ef::order_of (const double x)   { using std::fabs; using std::floor; using std::log10; return ((fabs(x) > 0.0) ? static_cast<std::int64_t>(floor(log10(fabs(x)))) : static_cast<std::int64_t>(0)); }
 std::int64_t ef::order_of (const e_float& x) { return x.order(); }
 
 e_float ef::fabs(const e_float& x)
@@ -144,7 +144,7 @@ bool ef::isnan(const double x)
 
 double ef::to_double(const e_float& x)              { return x.extract_double(); }
 
-std::int64_t ef::to_int64(const double x)           { return static_cast<std::int64_t>(x); }
+std::int64_t ef::to_int64(const double x)           { return static_cast<std::int64_t>(e_float(x).extract_signed_long_long()); }
 std::int64_t ef::to_int64(const e_float& x)         { return static_cast<std::int64_t>(x.extract_signed_long_long()); }
 
 bool ef::isint(const double x)
-- 
2.43.0

