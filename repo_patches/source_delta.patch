From d2ccb9d5e1c3f62add0e348fc3c55dc12b63e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 01/39] fix: uniform_int_distribution lost the lower bound when
 the range is a power of the engine's range

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From 11330ecd9d66ce00d1577b2fd62af4921fcafc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 02/39] fix: generate_canonical could return a value above 1

When the size of the engine's range is not a power of two the accumulated
numerator can round up past the (rounded) denominator, for example with
generate_canonical<double, 53>(ecuyer1988).
---
 include/boost/random/generate_canonical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..2bb2df9 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -81,10 +81,10 @@ RealType generate_canonical(URNG& g)
     RealType result = detail::generate_canonical_impl<RealType, bits>(
         g, boost::random::traits::is_integral<typename URNG::result_type>());
     BOOST_ASSERT(result >= 0);
-    BOOST_ASSERT(result <= 1);
-    if(result == 1) {
-        result -= std::numeric_limits<RealType>::epsilon() / 2;
-        BOOST_ASSERT(result != 1);
+    // rounding can make the result equal to or even slightly larger than 1
+    if(result >= 1) {
+        result = RealType(1) - std::numeric_limits<RealType>::epsilon() / 2;
+        BOOST_ASSERT(result < 1);
     }
     return result;
 }
-- 
2.43.0


From 7269c8e30a4204417bb7ee4eb8bceec0d4665eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 03/39] fix: generate_canonical did not scale the first output
 of a real-valued engine

The first output was used as a fraction while the following ones were
scaled to integers, so a single draw gave a result in [0, 2^-w).
---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 2bb2df9..00fe6a0 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S(floor((RealType(g()) - RealType((g.min)())) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From 430e7fb3c3478aa6e64cd241f27269b9c09ec44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 04/39] fix: uniform_01 miscomputed the range of engines with a
 signed result type

max() - min() does not fit a signed result type in general; use
detail::subtract like the other distributions do.
---
 include/boost/random/detail/signed_unsigned_tools.hpp | 2 +-
 include/boost/random/uniform_01.hpp                   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/detail/signed_unsigned_tools.hpp b/include/boost/random/detail/signed_unsigned_tools.hpp
index 1979908..ad5b2a4 100644
--- a/include/boost/random/detail/signed_unsigned_tools.hpp
+++ b/include/boost/random/detail/signed_unsigned_tools.hpp
@@ -24,7 +24,7 @@ namespace detail {
  * Compute x - y, we know that x >= y, return an unsigned value.
  */
 
-template<class T, bool sgn = std::numeric_limits<T>::is_signed && std::numeric_limits<T>::is_bounded>
+template<class T, bool sgn = std::numeric_limits<T>::is_signed && std::numeric_limits<T>::is_bounded && std::numeric_limits<T>::is_integer>
 struct subtract { };
 
 template<class T>
diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..986080a 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -22,6 +22,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -93,9 +94,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (result_type(boost::random::detail::subtract<base_result>()((eng.max)(), (eng.min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = result_type(boost::random::detail::subtract<base_result>()(eng(), (eng.min)())) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +136,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (result_type(boost::random::detail::subtract<base_result>()((base().max)(), (base().min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +150,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = result_type(boost::random::detail::subtract<base_result>()(base()(), (base().min)())) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From e2e9bc771ca84f9b26815d58416ae9e40c390db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 05/39] fix: detail::mulmod/muldiv lost the carry of the
 partial remainder

When the leading digits of the partial remainder and the modulus are
equal, the digit estimate is the largest digit and the remainder of that
step can exceed one word.  The comparison then used the truncated value
and corrected the quotient digit although it was right.
---
 include/boost/random/detail/large_arithmetic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..cec3606 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -78,13 +78,15 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t high = temp - ::boost::uintmax_t(q) * m_[1];
+
+        ::boost::uintmax_t rem = (high << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
         int error = 0;
-        if(diff > rem) {
+        // if high doesn't fit in a digit, the true remainder is larger than diff
+        if(high <= mask && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From 75f7efefb2a9c99f46b33eaa8f611a348aa42fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 06/39] fix: detail::muldiv with a modulus of 2^64 shifted out
 the operand

shuffle_order_engine over a base engine with the full 64-bit range
passes 0 for the modulus; the operand was shifted left by 63 bits, so only
the lowest bit of the previous output selected the slot.
---
 include/boost/random/detail/large_arithmetic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index cec3606..afc8e0b 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,8 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    // m == 0 stands for 2^digits, which needs no normalization
+    int shift = (m == 0)? 0 : std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From 238e682c7be8e96f42b5867d3ea69480376498d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 07/39] fix: mersenne_twister_engine extraction set failbit at
 the end of the stream

operator>> skipped white space after the last word.  With the engine at
the end of the stream, std::ws found eofbit set and set failbit, although
the state had been read completely.
---
 include/boost/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..ca48e91 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From 94a60608870e07eca92546f0f3fcd4acc145f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 08/39] fix: lagged_fibonacci_engine extraction set failbit at
 the end of the stream

As in mersenne_twister_engine, white space was skipped after the last
word, which sets failbit when the stream ends there.
---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
-- 
2.43.0


From 04111964841fa9600dddfbfb570c73f52781956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 09/39] fix: splitmix64 extraction consumed the whole stream

operator>> collected every digit up to the end of the stream, so
whatever followed the engine was lost or merged into its state, and the
stream was always left with failbit set.
---
 include/boost/random/splitmix64.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..4611bcc 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,17 +154,11 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
+        std::uint64_t state;
+        if (ist >> state)
         {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
+            e.state_ = state;
         }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
 
         return ist;
     }
-- 
2.43.0


From 82f2553353ebe25f041cd8b84d9946daff343d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 10/39] fix: mixmax_engine extraction rejected a state at the
 end of its block

After the last element of the vector has been returned the counter equals
Ndim; operator<< writes that state but operator>> refused it.
---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..aebdfa1 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -145,7 +145,7 @@ public: // SEEDING FUNCTIONS
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 4af2cdb3970ece8677dea378d90bb90439de6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/39] fix: mixmax_engine could return 2^61, above max()

The update added three terms below 2^61 before a single Mersenne
reduction, which maps 2^62-1 to 2^61 instead of 1.  Reduce after each
addition; all other values are unchanged.
---
 include/boost/random/mixmax.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index aebdfa1..5dce80a 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -198,7 +198,7 @@ template <int Ndim, unsigned int SPECIALMUL, boost::int64_t SPECIAL> boost::uint
     boost::uint64_t sumtot = Y[0], ovflow = 0; // will keep a running sum of all new elements
     for (int i=1; i<Ndim; i++){
         boost::uint64_t tempPO = MULWU(tempP);
-        tempV = (tempV+tempPO);
+        tempV = modadd(tempV, tempPO);
         tempP = modadd(tempP, Y[i]);
         tempV = modadd(tempV, tempP); // new Y[i] = old Y[i] + old partial * m
         Y[i] = tempV;
@@ -295,8 +295,7 @@ template <int Ndim, unsigned int SPECIALMUL, boost::int64_t SPECIAL> inline boos
     ah = a>>32;
     al = a & MASK32;
     o = (o & M61) + ((ph*ah)<<3) + ((ah*pl+al*ph + ((al*pl)>>32))>>29) ;
-    o += cum;
-    o = (o & M61) + ((o>>61));
+    o = modadd(MOD_MERSENNE(o), cum);
     return o;
 }
 
-- 
2.43.0


From 5b064d6f494f8e7f680b8fe51a7d2e61c5ca84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 12/39] fix: subtract_with_carry discard skipped the updates of
 a short first block

With the engine at the start of its table and z < long_lag, discard(z)
moved the position without updating any element.
---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From a259a2021d4a80f69ef6ad7ad51dfe815360af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 13/39] fix: subtract_with_carry equality ignored the carry

Two engines with the same lag table but different carries compared equal
and then generated different sequences.
---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From ccd723fca4ada6f539ba0de4dce2df33bbb449d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 14/39] fix: linear_feedback_shift_engine returned values above
 max()

With a word size smaller than the result type the shifted state kept bits
above the word.
---
 include/boost/random/linear_feedback_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..ce35b43 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From c3ab78cafe4a530e672ce9cee0c772e10fe5f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 15/39] fix: linear_feedback_shift_engine seeding shifted an
 int

w - k can be as large as the result type allows; shifting an int by that
much is undefined.
---
 include/boost/random/linear_feedback_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index ce35b43..19d5779 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -91,8 +91,8 @@ public:
         UIntType, s0)
     {
         value = s0 & wordmask();
-        if(value < (1 << (w-k))) {
-            value += 1 << (w-k);
+        if(value < (UIntType(1) << (w-k))) {
+            value += UIntType(1) << (w-k);
         }
     }
     
-- 
2.43.0


From 7505526a6b4d68b6fd1d423ad9d269320afeca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 16/39] fix: xor_combine::max() used the minimum of the first
 generator

---
 include/boost/random/xor_combine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 312fdb8..441d490 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -199,7 +199,7 @@ public:
       : base_type(rng1, rng2) { }
 
     result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::min)((this->base1().min)(), (this->base2().min)()); }
-    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().min)(), (this->base2().max)()); }
+    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().max)(), (this->base2().max)()); }
 };
 
 /// \endcond
-- 
2.43.0


From cdbabbe5ea66d6db7b71974cbc53bbaa6daafe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 17/39] fix: mersenne_twister_engine with r == 0 took the
 feedback bit from the wrong word

---
 include/boost/random/mersenne_twister.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ca48e91..09d0c05 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -546,30 +546,30 @@ mersenne_twister_engine<UIntType,w,n,m,r,a,u,d,s,b,t,c,l,f>::twist()
     {  // extra scope for MSVC brokenness w.r.t. for scope
         for(std::size_t j = 0; j < n-m-unroll_extra1; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j+m] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j+m] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     {
         for(std::size_t j = n-m-unroll_extra1; j < n-m; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j+m] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j+m] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     {
         for(std::size_t j = n-m; j < n-1-unroll_extra2; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     {
         for(std::size_t j = n-1-unroll_extra2; j < n-1; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     // last iteration
     UIntType y = (x[n-1] & upper_mask) | (x[0] & lower_mask);
-    x[n-1] = x[m-1] ^ (y >> 1) ^ ((x[0]&1) * a);
+    x[n-1] = x[m-1] ^ (y >> 1) ^ ((y&1) * a);
     i = 0;
 }
 /// \endcond
-- 
2.43.0


From 355f4a1db668ff2e5d4df9c9132375105453320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 18/39] fix: mersenne_twister_engine with m == 1 normalised and
 rewound its state from unset bits

---
 include/boost/random/mersenne_twister.hpp | 35 ++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 09d0c05..e169a03 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -321,14 +321,19 @@ private:
             y0 = y0 << 1;
         }
         for(std::size_t sz = 0; sz < z; ++sz) {
-            UIntType y1 =
-                rewind_find(last, sz, m-1) ^ rewind_find(last, sz, n-1);
-            if(y1 & (static_cast<UIntType>(1) << (w-1))) {
-                y1 = ((y1 ^ a) << 1) | 1;
-            } else {
-                y1 = y1 << 1;
+            // If m == 1, the low r bits depend on each other,
+            // and each round finds one more of them.
+            *(last - sz) = (y0 & upper_mask);
+            UIntType y1 = 0;
+            for(std::size_t k = 0; k < (m == 1 ? r + 1 : 1); ++k) {
+                y1 = rewind_find(last, sz, m-1) ^ rewind_find(last, sz, n-1);
+                if(y1 & (static_cast<UIntType>(1) << (w-1))) {
+                    y1 = ((y1 ^ a) << 1) | 1;
+                } else {
+                    y1 = y1 << 1;
+                }
+                *(last - sz) = (y0 & upper_mask) | (y1 & lower_mask);
             }
-            *(last - sz) = (y0 & upper_mask) | (y1 & lower_mask);
             y0 = y1;
         }
     }
@@ -347,13 +352,17 @@ private:
     {
         const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
         const UIntType lower_mask = ~upper_mask;
-        UIntType y0 = x[m-1] ^ x[n-1];
-        if(y0 & (static_cast<UIntType>(1) << (w-1))) {
-            y0 = ((y0 ^ a) << 1) | 1;
-        } else {
-            y0 = y0 << 1;
+        // If m == 1, the low r bits depend on each other,
+        // and each round finds one more of them.
+        for(std::size_t k = 0; k < (m == 1 ? r : 1); ++k) {
+            UIntType y0 = x[m-1] ^ x[n-1];
+            if(y0 & (static_cast<UIntType>(1) << (w-1))) {
+                y0 = ((y0 ^ a) << 1) | 1;
+            } else {
+                y0 = y0 << 1;
+            }
+            x[0] = (x[0] & upper_mask) | (y0 & lower_mask);
         }
-        x[0] = (x[0] & upper_mask) | (y0 & lower_mask);
 
         // fix up the state if it's all zeroes.
         for(std::size_t j = 0; j < n; ++j) {
-- 
2.43.0


From abfaf48bd694cc81b3d0d859ba1b1172f1d3d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 19/39] fix: linear_congruential_engine::discard asserted for m
 == 0 when a - 1 is a power of two

---
 include/boost/random/detail/const_mod.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/random/detail/const_mod.hpp b/include/boost/random/detail/const_mod.hpp
index e0a43ab..0e63ae2 100644
--- a/include/boost/random/detail/const_mod.hpp
+++ b/include/boost/random/detail/const_mod.hpp
@@ -178,7 +178,7 @@ private:
     }
   }
 
-  // invert c in the finite field (mod m) (c must be relatively prime to m)
+  // find x such that c * x mod m is the greatest common divisor of c and m
   static IntType invert_euclidian0(IntType c)
   {
     // we are interested in the gcd factor for c, because this is our inverse
@@ -190,7 +190,6 @@ private:
     IntType p = m;
     IntType max = (std::numeric_limits<IntType>::max)();
     IntType q = max / n;
-    BOOST_ASSERT(max % n != n - 1 && "c must be relatively prime to m.");
     l1 += q * l2;
     p = max - q * n + 1;
     for(;;) {
-- 
2.43.0


From 365ea4bfa8d924e5c81bc38fdb9d0070609dc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 20/39] fix: linear_congruential_engine::discard divided by
 zero when a == 1

---
 include/boost/random/linear_congruential.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/random/linear_congruential.hpp b/include/boost/random/linear_congruential.hpp
index 62b05ec..eaa6343 100644
--- a/include/boost/random/linear_congruential.hpp
+++ b/include/boost/random/linear_congruential.hpp
@@ -193,6 +193,13 @@ public:
     void discard(boost::uintmax_t z)
     {
         typedef const_mod<IntType, m> mod_type;
+        if(a == 1) {
+            // every step adds c
+            IntType z_mod_m = static_cast<IntType>(
+                m == 0 ? z : z % (static_cast<boost::uintmax_t>(m) + (m == 0)));
+            _x = mod_type::mult_add(c, z_mod_m, _x);
+            return;
+        }
         IntType b_inv = mod_type::invert(a-1);
         IntType b_gcd = mod_type::mult(a-1, b_inv);
         if(b_gcd == 1) {
-- 
2.43.0


From 8528be196b309548ef0b901e574e9dd90601d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 21/39] fix: linear_congruential_engine::discard was wrong when
 a^z mod m or a is zero

---
 include/boost/random/linear_congruential.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/linear_congruential.hpp b/include/boost/random/linear_congruential.hpp
index eaa6343..4fd3eac 100644
--- a/include/boost/random/linear_congruential.hpp
+++ b/include/boost/random/linear_congruential.hpp
@@ -200,12 +200,13 @@ public:
             _x = mod_type::mult_add(c, z_mod_m, _x);
             return;
         }
-        IntType b_inv = mod_type::invert(a-1);
-        IntType b_gcd = mod_type::mult(a-1, b_inv);
+        const IntType b = mod_type::add(a, m - 1); // a - 1, also when a == 0
+        IntType b_inv = mod_type::invert(b);
+        IntType b_gcd = mod_type::mult(b, b_inv);
         if(b_gcd == 1) {
             IntType a_z = mod_type::pow(a, z);
             _x = mod_type::mult_add(a_z, _x, 
-                mod_type::mult(mod_type::mult(c, b_inv), a_z - 1));
+                mod_type::mult(mod_type::mult(c, b_inv), mod_type::add(a_z, m - 1)));
         } else {
             // compute (a^z - 1)*c % (b_gcd * m) / (b / b_gcd) * inv(b / b_gcd)
             // we're storing the intermediate result / b_gcd
-- 
2.43.0


From 65d9a63afb87b900e6ec2d44d202d406e8d60fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 22/39] fix: Mersenne Twister jump-ahead read and wrote one
 word past its polynomial buffer

---
 include/boost/random/detail/polynomial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/polynomial.hpp b/include/boost/random/detail/polynomial.hpp
index a8c4b26..1ff12c8 100644
--- a/include/boost/random/detail/polynomial.hpp
+++ b/include/boost/random/detail/polynomial.hpp
@@ -50,7 +50,10 @@ public:
             output[i] ^= (tmp << shift) | (prev >> (bits-shift));
             prev = tmp;
         }
-        output[size] ^= (prev >> (bits-shift));
+        // output[size] need not exist when nothing is carried into it
+        if((prev >> (bits-shift)) != 0) {
+            output[size] ^= (prev >> (bits-shift));
+        }
     }
 
     static void multiply_simple(std::size_t size, const digit_t * lhs,
-- 
2.43.0


From 491e38cf84634f660f9af0ad305bc00af553292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 23/39] fix: mersenne_twister_engine with w smaller than its
 word left stray bits in rewound and jumped states

---
 include/boost/random/mersenne_twister.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index e169a03..0f029bf 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -312,8 +312,8 @@ private:
      */
     void rewind(UIntType* last, std::size_t z) const
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType upper_mask = ((~static_cast<UIntType>(0)) << r) & (max)();
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
         UIntType y0 = x[m-1] ^ x[n-1];
         if(y0 & (static_cast<UIntType>(1) << (w-1))) {
             y0 = ((y0 ^ a) << 1) | 1;
@@ -473,8 +473,8 @@ private:
     }
     void reconstruct_state(const detail::polynomial& p)
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType upper_mask = ((~static_cast<UIntType>(0)) << r) & (max)();
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
         const std::size_t num_bits = w*n - r;
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
-- 
2.43.0


From 093d8e71009b30564fe4875569d548341251664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:47 +0000
Subject: [PATCH 24/39] fix: mersenne_twister_engine with m == 1 rewound its
 state through a stale word

---
 include/boost/random/mersenne_twister.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 0f029bf..58bad94 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -380,7 +380,8 @@ private:
     rewind_find(UIntType* last, std::size_t size, std::size_t j) const
     {
         std::size_t index = (j + n - size + n - 1) % n;
-        if(index < n - size) {
+        // The slot itself (j == 0) is already in the rewind array.
+        if(index + 1 < n - size) {
             return x[index];
         } else {
             return *(last - (n - 1 - index));
-- 
2.43.0


From f0e1a4b539d936a8cd8f78d35f8d3e35cfea1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 25/39] fix: discrete_distribution kept alias entries of an
 earlier, larger set of weights

---
 include/boost/random/discrete_distribution.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..ccc043b 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -74,7 +74,8 @@ struct integer_alias_table {
                 }
             }
         }
-        _alias_table.resize(static_cast<std::size_t>(n));
+        _alias_table.assign(static_cast<std::size_t>(n),
+            std::make_pair(static_cast<WeightType>(0), static_cast<IntType>(0)));
         _average = weight_average;
         _excess = excess;
         return weight_average;
@@ -144,7 +145,8 @@ struct real_alias_table {
         std::size_t size = std::distance(first, last);
         WeightType weight_sum =
             std::accumulate(first, last, static_cast<WeightType>(0));
-        _alias_table.resize(size);
+        _alias_table.assign(size,
+            std::make_pair(static_cast<WeightType>(0), static_cast<IntType>(0)));
         return weight_sum / size;
     }
     void init_empty()
-- 
2.43.0


From 80db09034793dfaf988a24521c0bf582b8455fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 26/39] fix: discrete_distribution inverted the overflow test
 of integer weights

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index ccc043b..d1227ae 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -114,7 +114,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From 0f0fe5f436ad7c1bb42d5c83bc44144ac2527021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 27/39] fix: seed_seq::generate gave other values for element
 types wider than 32 bits

---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..7230edd 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -86,7 +86,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -97,7 +97,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From d4651b83db6eb9b8c15430a3d3dcb4e58b58c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 28/39] fix: seed_seq::generate divided by zero for an empty
 range

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index 7230edd..134f92f 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,7 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) return;
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
-- 
2.43.0


From 1b6b3793e4304dc80fcc95fa342006f8277a72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 29/39] fix: generate() wrote one element for an empty range

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..573793a 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -84,6 +84,7 @@ inline T pow2(int n)
 template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     using std::fmod;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From 83795422dd138065a632412068ea8a39fc94d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 30/39] fix: reading a quasi-random engine of another dimension
 kept the old engine's cached point

---
 include/boost/random/detail/qrng_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..d36e2cb 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -159,6 +159,8 @@ public:
       {
         s.lattice.resize(dim);
         s.quasi_state.resize(dim);
+        // The cached point belongs to the old lattice
+        s.derived().seed();
       }
       // Fast-forward to the correct state
       s.derived().seed(seed);
-- 
2.43.0


From d317c8a7fd9e09ca5fb2390a0aa8f0548958e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 31/39] fix: sobol_engine with fewer bits than the polynomial's
 degree wrote past its direction table

---
 include/boost/random/sobol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..128c5be 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,7 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      for (unsigned k = 0; k != degree && k != bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From 480596c2ad69bd7e80c0da526a7e03266db5a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 32/39] fix: poisson_distribution could loop forever for draws
 just below 1

---
 include/boost/random/poisson_distribution.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..40cdf0c 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -324,6 +324,11 @@ private:
         IntType x = 0;
         RealType u = uniform_01<RealType>()(urng);
         while(u > p) {
+            // Round-off can leave u slightly above the total probability.
+            // Stop once the remaining terms are too small to change u.
+            if(u - p == u) {
+                break;
+            }
             u = u - p;
             ++x;
             p = _mean * p / x;
-- 
2.43.0


From 0cf0f4010311e5c66a8286e2d9d8e23cfa8a2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 33/39] fix: binomial_distribution could return t + 1 (or -1)
 for draws just below 1

---
 include/boost/random/binomial_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..ed1852d 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -375,7 +375,8 @@ private:
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-        while(u > r) {
+        // x must not exceed t even if round-off leaves u above the total
+        while(u > r && x < t) {
             u = u - r;
             ++x;
             RealType r1 = ((a/x) - s) * r;
-- 
2.43.0


From 2d29e8f9e31dbd77aa3591b3038f4e0a5c983042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 34/39] fix: binomial_distribution converted an out-of-range
 value to an integer

---
 include/boost/random/binomial_distribution.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index ed1852d..ed2820d 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -318,8 +318,10 @@ private:
             }
 
             RealType us = 0.5 - abs(u);
-            IntType k = static_cast<IntType>(floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c));
-            if(k < 0 || k > _t) continue;
+            // us can be 0, so check the range before converting to IntType
+            RealType kf = floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c);
+            if(!(kf >= 0 && kf <= _t)) continue;
+            IntType k = static_cast<IntType>(kf);
             v = v*_u.btrd.alpha/(_u.btrd.a/(us*us) + _u.btrd.b);
             RealType km = abs(k - m);
             if(km <= 15) {
-- 
2.43.0


From 03f558ff511411c529b1bcca77baa6f0318cfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:10 +0000
Subject: [PATCH 35/39] fix:
 hyperexponential_distribution::param_type(rate_first, rate_last) left its
 probabilities unnormalized

---
 include/boost/random/hyperexponential_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..48c59ea 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -336,6 +336,8 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
+            hyperexp_detail::normalize(probs_);
+
             BOOST_ASSERT(probs_.size() == rates_.size());
         }
 
-- 
2.43.0


From b5098c61b999c2d0a86f237d69009c6d1e981813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:13 +0000
Subject: [PATCH 36/39] fix: discrete_distribution(urng, param) could return an
 index of weight zero for draws just below 1

---
 include/boost/random/discrete_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index d1227ae..8730917 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -454,6 +454,7 @@ public:
             WeightType val = impl_type::generate_in_range(urng, limit);
             WeightType sum = 0;
             std::size_t result = 0;
+            std::size_t last_possible = 0;
             for(typename std::vector<WeightType>::const_iterator
                     iter = parm._probabilities.begin(),
                     end = parm._probabilities.end();
@@ -463,11 +464,14 @@ public:
                 if(sum > val) {
                     return result;
                 }
+                if(*iter > 0) {
+                    last_possible = result;
+                }
             }
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
             // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            return static_cast<IntType>(last_possible);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From b34178577bee5179966f574f89fd42f1e56aec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:13 +0000
Subject: [PATCH 37/39] fix: negative_binomial_distribution failed an assertion
 for k == 0, p == 1 and a zero gamma variate

---
 .../boost/random/negative_binomial_distribution.hpp   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..8c59fc0 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -116,8 +116,17 @@ public:
     template<class URNG>
     IntType operator()(URNG& urng) const
     {
+        // with no successes to wait for, or no failures possible
+        if(_k == 0 || _p == RealType(1)) {
+            return IntType(0);
+        }
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        // poisson_distribution requires a positive mean
+        if(mean <= RealType(0)) {
+            return IntType(0);
+        }
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From 8929d909317aead94553dbec9ff8d73aeaf6402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:43 +0000
Subject: [PATCH 38/39] fix: bernoulli_distribution overflowed the range of
 full-range signed engines

---
 include/boost/random/bernoulli_distribution.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..ee89d87 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +141,12 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+        {
+            // subtract() avoids the overflow of signed differences
+            typedef random::detail::subtract<typename Engine::result_type> subtract;
+            return RealType(subtract()(eng(), (eng.min)()))
+                <= _p * RealType(subtract()((eng.max)(), (eng.min)()));
+        }
     }
 
     /**
-- 
2.43.0


From 41bb4279b79faa200f8c0e0eb6c2042a16654c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:43 +0000
Subject: [PATCH 39/39] fix: linear_congruential and mersenne_twister
 overflowed int when multiplying 16-bit types

---
 include/boost/random/detail/const_mod.hpp | 5 +++--
 include/boost/random/mersenne_twister.hpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/const_mod.hpp b/include/boost/random/detail/const_mod.hpp
index 0e63ae2..fb1079d 100644
--- a/include/boost/random/detail/const_mod.hpp
+++ b/include/boost/random/detail/const_mod.hpp
@@ -57,7 +57,8 @@ public:
   static IntType mult(IntType a, IntType x)
   {
     if(((unsigned_m() - 1) & unsigned_m()) == 0)
-      return unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1);
+      // 1u: types narrower than int would be multiplied as (signed) int
+      return 1u * unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1);
     else if(a == 0)
       return 0;
     else if(a == 1)
@@ -73,7 +74,7 @@ public:
   static IntType mult_add(IntType a, IntType x, IntType c)
   {
     if(((unsigned_m() - 1) & unsigned_m()) == 0)
-      return (unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1);
+      return (1u * unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1);
     else if(a == 0)
       return c;
     else if(m <= (traits::const_max-c)/a) {  // i.e. a*m+c <= max
diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 58bad94..59c0fac 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -149,7 +149,8 @@ public:
         for (i = 1; i < n; i++) {
             // See Knuth "The Art of Computer Programming"
             // Vol. 2, 3rd ed., page 106
-            x[i] = (f * (x[i-1] ^ (x[i-1] >> (w-2))) + i) & mask;
+            // 1u: types narrower than int would be multiplied as (signed) int
+            x[i] = (1u * f * (x[i-1] ^ (x[i-1] >> (w-2))) + i) & mask;
         }
 
         normalize_state();
-- 
2.43.0

