From f134b9cf0e1b7a5cf29751c9bc826ee177907f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 01/20] fix: quotient of an interval ending at zero by an
 interval starting at zero is not the whole line

[-1,0]/[0,1] returned [-inf,inf]; the smallest interval containing the
division results, which the documentation promises, is [-inf,0].
Likewise [-1,0]/[-1,0] is [0,inf].
---
 include/boost/numeric/interval/detail/division.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index 24fb025..dc0b7a4 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -75,7 +75,7 @@ interval<T, Policies> div_positive(const interval<T, Policies>& x, const T& yu)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
@@ -110,7 +110,7 @@ interval<T, Policies> div_negative(const interval<T, Policies>& x, const T& yl)
   const T& xl = x.lower();
   const T& xu = x.upper();
   typedef typename Policies::checking checking;
-  if (::boost::numeric::interval_lib::user::is_neg(xu))
+  if (!::boost::numeric::interval_lib::user::is_pos(xu))
     return I(rnd.div_down(xu, yl), checking::pos_inf(), true);
   else if (::boost::numeric::interval_lib::user::is_neg(xl))
     return I(checking::neg_inf(), checking::pos_inf(), true);
-- 
2.43.0


From d9ba7d1f245144b63a764369f76cbc0d7222c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 02/20] fix: division_part1 reports two pieces only when the
 quotient set has two pieces

[0,1]/[-1,1] is the whole line, a single interval, but division_part1
returned [-inf,0] and asked for a second part (unlike [-1,0]/[-1,1]).
---
 include/boost/numeric/interval/detail/division.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/division.hpp b/include/boost/numeric/interval/detail/division.hpp
index dc0b7a4..ad93f9d 100644
--- a/include/boost/numeric/interval/detail/division.hpp
+++ b/include/boost/numeric/interval/detail/division.hpp
@@ -166,7 +166,7 @@ interval<T, Policies> div_zero_part1(const interval<T, Policies>& x,
   typedef typename Policies::checking checking;
   if (::boost::numeric::interval_lib::user::is_neg(xu))
     { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
-  else if (::boost::numeric::interval_lib::user::is_neg(xl))
+  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
     { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
   else
     { b = true;  return I(checking::neg_inf(), rnd.div_up(xl, yl), true); }
-- 
2.43.0


From 86718252e7667fa88846e24f026b56b473f734d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 03/20] fix: nth_root protects the rounding mode

nth_root worked with unprotected intervals without creating a rounding
object: it computed in whatever mode the caller was in (losing the
enclosure) and returned with the rounding mode changed.
---
 include/boost/numeric/interval/arith2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index eec87e0..4d25bec 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -273,6 +273,8 @@ interval<T, Policies> nth_root(interval<T, Policies> const &x, int k)
   if (interval_lib::detail::test_input(x)) return I::empty();
   assert(k > 0);
   if (k == 1) return x;
+  typename Policies::rounding rnd;
+  (void)&rnd;
   typedef typename interval_lib::unprotect<I>::type R;
   if (!interval_lib::user::is_pos(x.upper())) {
     if (interval_lib::user::is_zero(x.upper())) {
-- 
2.43.0


From a43f0ea4bfcf7ef2889c8628839b02911611db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 04/20] fix: nth_root of an interval with an infinite bound

The Newton iteration started from an infinite upper bound meets inf-inf:
nth_root([1,inf],2) had a NaN bound with checking_base.
---
 include/boost/numeric/interval/arith2.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 4d25bec..bf989f6 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -258,6 +258,7 @@ typename I::base_type root_aux_up(typename I::base_type const &x, int k)
   typedef typename I::traits_type Policies;
   typename Policies::rounding rnd;
   T one(1);
+  if (x > one && !(x / static_cast<T>(2) < x)) return x; // infinity
   if (x > one) return root_aux<I>(x, k).upper();
   if (x == one) return one;
   return rnd.div_up(one, root_aux<I>(rnd.div_down(one, x), k).lower());
-- 
2.43.0


From 06149398ce1a269e509ebc4e83a7b2f85d1eaa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 05/20] fix: median of large bounds does not overflow

(x + y) / 2 is infinite when x + y overflows, so median was not in the
interval and bisect returned invalid intervals.
---
 .../boost/numeric/interval/rounded_arith.hpp  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index 4bb8691..c774024 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -50,7 +50,6 @@ struct rounded_arith_exact: Rounding {
 template<class T, class Rounding>
 struct rounded_arith_std: Rounding {
 # define BOOST_DN(EXPR) this->downward();   return this->force_rounding(EXPR)
-# define BOOST_NR(EXPR) this->to_nearest(); return this->force_rounding(EXPR)
 # define BOOST_UP(EXPR) this->upward();     return this->force_rounding(EXPR)
   void init() { }
   template<class U> T conv_down(U const &v) { BOOST_DN(v); }
@@ -63,7 +62,12 @@ struct rounded_arith_std: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median(const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median(const T& x, const T& y) {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (!(x <= r && r <= y)) r = this->force_rounding(x / 2 + y / 2); // x + y overflowed
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -71,7 +75,6 @@ struct rounded_arith_std: Rounding {
   T int_down(const T& x) { this->downward(); return this->to_int(x); }
   T int_up  (const T& x) { this->upward();   return this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 };
   
@@ -83,11 +86,6 @@ struct rounded_arith_opp: Rounding {
     T r = this->force_rounding(EXPR); \
     this->upward(); \
     return r
-# define BOOST_NR(EXPR) \
-    this->to_nearest(); \
-    T r = this->force_rounding(EXPR); \
-    this->upward(); \
-    return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
   template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
@@ -100,7 +98,13 @@ struct rounded_arith_opp: Rounding {
   T sub_up  (const T& x, const T& y) { BOOST_UP(x - y); }
   T mul_up  (const T& x, const T& y) { BOOST_UP(x * y); }
   T div_up  (const T& x, const T& y) { BOOST_UP(x / y); }
-  T median  (const T& x, const T& y) { BOOST_NR((x + y) / 2); }
+  T median  (const T& x, const T& y) {
+    this->to_nearest();
+    T r = this->force_rounding((x + y) / 2);
+    if (!(x <= r && r <= y)) r = this->force_rounding(x / 2 + y / 2); // x + y overflowed
+    this->upward();
+    return r;
+  }
   T sqrt_down(const T& x)
   { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
   T sqrt_up  (const T& x)
@@ -108,7 +112,6 @@ struct rounded_arith_opp: Rounding {
   T int_down(const T& x) { return -this->to_int(-x); }
   T int_up  (const T& x) { return  this->to_int(x); }
 # undef BOOST_DN
-# undef BOOST_NR
 # undef BOOST_UP
 # undef BOOST_UP_NEG
 };
-- 
2.43.0


From 076e99c15f96b88ad52830c4d3d14cad3d2b2187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 06/20] fix: rounded_arith_opp::conv_down negates the source
 value in its own type

-v wraps for unsigned types and overflows for the most negative value of a
signed type: interval<double>(5u) was [-4294967291,5].
---
 include/boost/numeric/interval/rounded_arith.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/rounded_arith.hpp b/include/boost/numeric/interval/rounded_arith.hpp
index c774024..ea4bcea 100644
--- a/include/boost/numeric/interval/rounded_arith.hpp
+++ b/include/boost/numeric/interval/rounded_arith.hpp
@@ -88,7 +88,7 @@ struct rounded_arith_opp: Rounding {
     return r
 # define BOOST_UP(EXPR) return this->force_rounding(EXPR)
 # define BOOST_UP_NEG(EXPR) return -this->force_rounding(EXPR)
-  template<class U> T conv_down(U const &v) { BOOST_UP_NEG(-v); }
+  template<class U> T conv_down(U const &v) { BOOST_DN(v); }
   template<class U> T conv_up  (U const &v) { BOOST_UP(v); }
   T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }
   T sub_down(const T& x, const T& y) { BOOST_UP_NEG(y - x); }
-- 
2.43.0


From dea92129a72a8d93479097500c2cc8d9cb29e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 07/20] fix: interval::assign with a reference to the
 interval's own lower bound

x.assign(l, x.lower()) overwrote the lower bound before reading it.
---
 include/boost/numeric/interval/interval.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index e89af48..98d5b40 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -259,8 +259,9 @@ void interval<T, Policies>::assign(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set(const T& l, const T& u)
 {
-  low = l;
+  T tmp(l); // u may refer to low, or l to up
   up  = u;
+  low = tmp;
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From 787c93b012bc781c5af353297cfc95fe01bec7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 08/20] fix: integer rounding of long double does not go
 through double

rounding_control<long double>::to_int called double rint(double), so
int_down, int_up and fmod were wrong beyond 53 bits.
---
 include/boost/numeric/interval/detail/c99_rounding_control.hpp  | 1 +
 .../boost/numeric/interval/detail/c99sub_rounding_control.hpp   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/c99_rounding_control.hpp b/include/boost/numeric/interval/detail/c99_rounding_control.hpp
index 2ba7847..136bf05 100644
--- a/include/boost/numeric/interval/detail/c99_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99_rounding_control.hpp
@@ -39,6 +39,7 @@ struct rounding_control<long double>:
 {
   static long double force_rounding(long double const &r)
   { volatile long double r_ = r; return r_; }
+  static long double to_int(long double const &r) { return detail::rintl(r); }
 };
 
 } // namespace interval_lib
diff --git a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
index a8684df..66fbc82 100644
--- a/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/c99sub_rounding_control.hpp
@@ -18,7 +18,7 @@ namespace numeric {
 namespace interval_lib {
 namespace detail {
 
-extern "C" { double rint(double); }
+extern "C" { double rint(double); long double rintl(long double); }
 
 struct c99_rounding_control
 {
-- 
2.43.0


From a94488d74658c6ca477deaf93f69f9ba4d2b3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 09/20] fix: numeric_limits<interval>::signaling_NaN does not
 compile

---
 include/boost/numeric/interval/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index ce080dd..7004ccc 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -36,7 +36,7 @@ public:
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
   static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
   static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
-  { return I(bl::signaling_NaN(), bl::signaling_Nan()); }
+  { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
 private:
-- 
2.43.0


From 19a635d879252df218b7374f371065f8f890cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 10/20] fix: rounded_transc_opp lower bounds of odd functions
 are rounded down

-(-f(x)) computed upward is an upper bound of f(x); the opposite trick
needs f(-x). acosh, which is not odd, has to switch the mode instead.
---
 include/boost/numeric/interval/rounded_transc.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/rounded_transc.hpp b/include/boost/numeric/interval/rounded_transc.hpp
index ef6e28b..666eac1 100644
--- a/include/boost/numeric/interval/rounded_transc.hpp
+++ b/include/boost/numeric/interval/rounded_transc.hpp
@@ -100,7 +100,7 @@ struct rounded_transc_opp: Rounding
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_math(f); \
       return this->force_rounding(f(x)); }
@@ -119,17 +119,17 @@ struct rounded_transc_opp: Rounding
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(asinh)
-  BOOST_NUMERIC_INTERVAL_new_func(atanh)
+  BOOST_NUMERIC_INTERVAL_new_func(acosh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 # define BOOST_NUMERIC_INTERVAL_new_func(f) \
     T f##_down(const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
-      return -this->force_rounding(-f(x)); } \
+      return -this->force_rounding(f(-x)); } \
     T f##_up  (const T& x) \
     { BOOST_NUMERIC_INTERVAL_using_ahyp(f); \
       return this->force_rounding(f(x)); }
-  BOOST_NUMERIC_INTERVAL_new_func(acosh)
+  BOOST_NUMERIC_INTERVAL_new_func(asinh)
+  BOOST_NUMERIC_INTERVAL_new_func(atanh)
 # undef BOOST_NUMERIC_INTERVAL_new_func
 };
   
-- 
2.43.0


From 0b6f89c3d81acb4a6a639fa70bfa0ca162046150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 11/20] fix: pow with the most negative exponent recursed for
 ever

-pwr overflows for INT_MIN; use the (even) power of the square.
---
 include/boost/numeric/interval/arith2.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index bf989f6..65f796e 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -23,6 +23,7 @@
 #include <boost/numeric/interval/policies.hpp>
 #include <algorithm>
 #include <cassert>
+#include <boost/limits.hpp>
 #include <boost/config/no_tr1/cmath.hpp>
 
 namespace boost {
@@ -171,8 +172,11 @@ interval<T, Policies> pow(const interval<T, Policies>& x, int pwr)
       return I::empty();
     else
       return I(static_cast<T>(1));
-  else if (pwr < 0)
+  else if (pwr < 0) {
+    if (-(pwr + 1) == (std::numeric_limits<int>::max)()) // -pwr overflows
+      return pow(square(x), pwr / 2);
     return interval_lib::multiplicative_inverse(pow(x, -pwr));
+  }
 
   typename Policies::rounding rnd;
   
-- 
2.43.0


From 662d68fb9a31a24354dd608c7ddbc4fafa1930aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 12/20] fix: nth_root of a number whose inverse overflows

---
 include/boost/numeric/interval/arith2.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 65f796e..d4eeb79 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -252,7 +252,9 @@ typename I::base_type root_aux_dn(typename I::base_type const &x, int k)
   T one(1);
   if (x > one) return root_aux<I>(x, k).lower();
   if (x == one) return one;
-  return rnd.div_down(one, root_aux<I>(rnd.div_up(one, x), k).upper());
+  T xi = rnd.div_up(one, x);
+  if (!(xi / static_cast<T>(2) < xi)) return static_cast<T>(0); // the inverse is infinity
+  return rnd.div_down(one, root_aux<I>(xi, k).upper());
 }
 
 template< class I > inline // x is positive and k bigger than one
-- 
2.43.0


From 4c1f38825a892a871b33b82bfab8e95b062bc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 13/20] fix: nth_root with a degree the base type cannot
 represent

---
 include/boost/numeric/interval/arith2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index d4eeb79..1723ab0 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -233,7 +233,7 @@ template< class I > inline
 I root_aux(typename I::base_type const &x, int k) // x and k are bigger than one
 {
   typedef typename I::base_type T;
-  T tk(k);
+  I tk(k);
   I y(static_cast<T>(1), x, true);
   for(;;) {
     T y0 = median(y);
-- 
2.43.0


From a9d1be2d922c87ab9a621074bc837042e228bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 14/20] fix: set comparison <= and >= of intervals with
 different policies

subset only accepted intervals of the same type, so the operators of
interval_lib::compare::set did not compile for the operands they declare.
---
 include/boost/numeric/interval/utility.hpp     | 6 +++---
 include/boost/numeric/interval/utility_fwd.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 8e784b8..7a097b1 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -120,9 +120,9 @@ bool in(const T& x, const interval<T, Policies>& y)
   return y.lower() <= x && x <= y.upper();
 }
 
-template<class T, class Policies> inline
-bool subset(const interval<T, Policies>& x,
-            const interval<T, Policies>& y)
+template<class T, class Policies1, class Policies2> inline
+bool subset(const interval<T, Policies1>& x,
+            const interval<T, Policies2>& y)
 {
   if (empty(x)) return true;
   return !empty(y) && y.lower() <= x.lower() && x.upper() <= y.upper();
diff --git a/include/boost/numeric/interval/utility_fwd.hpp b/include/boost/numeric/interval/utility_fwd.hpp
index 5fce06c..368affd 100644
--- a/include/boost/numeric/interval/utility_fwd.hpp
+++ b/include/boost/numeric/interval/utility_fwd.hpp
@@ -58,11 +58,11 @@ namespace boost { namespace numeric {
     template <class T, class Policies>
     bool in(const T& x, const interval<T,Policies>& y);
 
-    template <class T, class Policies>
+    template <class T, class Policies1, class Policies2>
     bool
         subset(
-            const interval<T,Policies>& x
-          , const interval<T,Policies>& y
+            const interval<T,Policies1>& x
+          , const interval<T,Policies2>& y
         );
 
     template <class T, class Policies1, class Policies2>
-- 
2.43.0


From 6f85d81efe38f1e29d1435b848589b4754e35efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 15/20] fix: widen by an invalid number must go through the
 checking policy

---
 include/boost/numeric/interval/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/utility.hpp b/include/boost/numeric/interval/utility.hpp
index 7a097b1..f2661ff 100644
--- a/include/boost/numeric/interval/utility.hpp
+++ b/include/boost/numeric/interval/utility.hpp
@@ -82,7 +82,7 @@ T median(const interval<T, Policies>& x)
 template<class T, class Policies> inline
 interval<T, Policies> widen(const interval<T, Policies>& x, const T& v)
 {
-  if (interval_lib::detail::test_input(x))
+  if (interval_lib::detail::test_input(x, v))
     return interval<T, Policies>::empty();
   typename Policies::rounding rnd;
   return interval<T, Policies>(rnd.sub_down(x.lower(), v),
-- 
2.43.0


From 912381c5424378a2be465a48261853e5ca0a853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 16/20] fix: emptying an interval does not leave it half
 assigned when the policy throws

---
 include/boost/numeric/interval/interval.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/interval.hpp b/include/boost/numeric/interval/interval.hpp
index 98d5b40..9e1f9e1 100644
--- a/include/boost/numeric/interval/interval.hpp
+++ b/include/boost/numeric/interval/interval.hpp
@@ -267,8 +267,7 @@ void interval<T, Policies>::set(const T& l, const T& u)
 template<class T, class Policies> inline
 void interval<T, Policies>::set_empty()
 {
-  low = checking::empty_lower();
-  up  = checking::empty_upper();
+  set(checking::empty_lower(), checking::empty_upper());
 }
 
 template<class T, class Policies> inline
-- 
2.43.0


From c370c5a03fe8fb1d9a1b32822c068df9756a80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:16 +0000
Subject: [PATCH 17/20] fix: fmod whose quotient overflows does not return a
 degenerate infinite interval

---
 include/boost/numeric/interval/arith2.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index 1723ab0..ea55996 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -39,6 +39,8 @@ interval<T, Policies> fmod(const interval<T, Policies>& x,
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x.lower(), yb));
+  if (std::numeric_limits<T>::has_infinity && n == -std::numeric_limits<T>::infinity())
+    return interval<T, Policies>(static_cast<T>(0), -n, true); // the quotient overflowed
   return (const I&)x - n * (const I&)y;
 }
 
@@ -50,6 +52,8 @@ interval<T, Policies> fmod(const interval<T, Policies>& x, const T& y)
   typename Policies::rounding rnd;
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T n = rnd.int_down(rnd.div_down(x.lower(), y));
+  if (std::numeric_limits<T>::has_infinity && n == -std::numeric_limits<T>::infinity())
+    return interval<T, Policies>(static_cast<T>(0), -n, true); // the quotient overflowed
   return (const I&)x - n * I(y);
 }
 
@@ -62,6 +66,8 @@ interval<T, Policies> fmod(const T& x, const interval<T, Policies>& y)
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x, yb));
+  if (std::numeric_limits<T>::has_infinity && n == -std::numeric_limits<T>::infinity())
+    return interval<T, Policies>(static_cast<T>(0), -n, true); // the quotient overflowed
   return x - n * (const I&)y;
 }
 
-- 
2.43.0


From 3d51810dffc2531f0d2e0ab83a57ff9720266c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 18/20] fix: numeric_limits<interval>::quiet_NaN must not
 terminate the program

With a checking policy that throws on empty intervals (the default one) or
on NaN, the exception left a noexcept function.
---
 include/boost/numeric/interval/limits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/interval/limits.hpp b/include/boost/numeric/interval/limits.hpp
index 7004ccc..e7841aa 100644
--- a/include/boost/numeric/interval/limits.hpp
+++ b/include/boost/numeric/interval/limits.hpp
@@ -34,8 +34,9 @@ public:
   BOOST_STATIC_CONSTANT(bool, is_iec559 = false);
 
   static I infinity () BOOST_NOEXCEPT_OR_NOTHROW { return I::whole(); }
-  static I quiet_NaN() BOOST_NOEXCEPT_OR_NOTHROW { return I::empty(); }
-  static I signaling_NaN() BOOST_NOEXCEPT_OR_NOTHROW
+  // these may throw, if the checking policy forbids empty intervals or NaN
+  static I quiet_NaN() { return I::empty(); }
+  static I signaling_NaN()
   { return I(bl::signaling_NaN(), bl::signaling_NaN()); }
   static I denorm_min() BOOST_NOEXCEPT_OR_NOTHROW
   { return I(bl::denorm_min(), bl::denorm_min()); }
-- 
2.43.0


From 7fc34b4d6de31d880e5a87f6be43fbd4b328c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 19/20] fix: nth_root and fmod ask of the base type only what
 is documented

---
 include/boost/numeric/interval/arith2.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/interval/arith2.hpp b/include/boost/numeric/interval/arith2.hpp
index ea55996..f9e88eb 100644
--- a/include/boost/numeric/interval/arith2.hpp
+++ b/include/boost/numeric/interval/arith2.hpp
@@ -39,7 +39,7 @@ interval<T, Policies> fmod(const interval<T, Policies>& x,
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x.lower()) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x.lower(), yb));
-  if (std::numeric_limits<T>::has_infinity && n == -std::numeric_limits<T>::infinity())
+  if (interval_lib::user::is_neg(n) && !(rnd.div_down(-n, static_cast<T>(2)) < -n))
     return interval<T, Policies>(static_cast<T>(0), -n, true); // the quotient overflowed
   return (const I&)x - n * (const I&)y;
 }
@@ -52,7 +52,7 @@ interval<T, Policies> fmod(const interval<T, Policies>& x, const T& y)
   typename Policies::rounding rnd;
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T n = rnd.int_down(rnd.div_down(x.lower(), y));
-  if (std::numeric_limits<T>::has_infinity && n == -std::numeric_limits<T>::infinity())
+  if (interval_lib::user::is_neg(n) && !(rnd.div_down(-n, static_cast<T>(2)) < -n))
     return interval<T, Policies>(static_cast<T>(0), -n, true); // the quotient overflowed
   return (const I&)x - n * I(y);
 }
@@ -66,7 +66,7 @@ interval<T, Policies> fmod(const T& x, const interval<T, Policies>& y)
   typedef typename interval_lib::unprotect<interval<T, Policies> >::type I;
   T const &yb = interval_lib::user::is_neg(x) ? y.lower() : y.upper();
   T n = rnd.int_down(rnd.div_down(x, yb));
-  if (std::numeric_limits<T>::has_infinity && n == -std::numeric_limits<T>::infinity())
+  if (interval_lib::user::is_neg(n) && !(rnd.div_down(-n, static_cast<T>(2)) < -n))
     return interval<T, Policies>(static_cast<T>(0), -n, true); // the quotient overflowed
   return x - n * (const I&)y;
 }
@@ -259,7 +259,7 @@ typename I::base_type root_aux_dn(typename I::base_type const &x, int k)
   if (x > one) return root_aux<I>(x, k).lower();
   if (x == one) return one;
   T xi = rnd.div_up(one, x);
-  if (!(xi / static_cast<T>(2) < xi)) return static_cast<T>(0); // the inverse is infinity
+  if (!(rnd.div_down(xi, static_cast<T>(2)) < xi)) return static_cast<T>(0); // the inverse is infinity
   return rnd.div_down(one, root_aux<I>(xi, k).upper());
 }
 
@@ -270,7 +270,7 @@ typename I::base_type root_aux_up(typename I::base_type const &x, int k)
   typedef typename I::traits_type Policies;
   typename Policies::rounding rnd;
   T one(1);
-  if (x > one && !(x / static_cast<T>(2) < x)) return x; // infinity
+  if (x > one && !(rnd.div_down(x, static_cast<T>(2)) < x)) return x; // infinity
   if (x > one) return root_aux<I>(x, k).upper();
   if (x == one) return one;
   return rnd.div_up(one, root_aux<I>(rnd.div_down(one, x), k).lower());
-- 
2.43.0


From a66f379a9f95827dd2da955a0a3d6d68eda65fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 20/20] fix: frndint depends on the rounding mode, so it must
 not be merged or moved

---
 .../boost/numeric/interval/detail/x86gcc_rounding_control.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp b/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
index dcdc7e2..f829ec1 100644
--- a/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
+++ b/include/boost/numeric/interval/detail/x86gcc_rounding_control.hpp
@@ -38,7 +38,7 @@ struct x86_rounding
   static T to_int(T r)
   {
     T r_;
-    __asm__ ("frndint" : "=&t"(r_) : "0"(r));
+    __asm__ __volatile__ ("frndint" : "=&t"(r_) : "0"(r));
     return r_;
   }
 };
-- 
2.43.0

