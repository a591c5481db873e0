From 9e9ea1cdd6c0bb546150bd1c400732c1001b1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 01/23] fix: do not divide by -1 in the padding of partially
 filled vectors

The padding elements of the divisor were set to -1 for signed integers (or
kept whatever stale value they held, with the lowest bit set). If the
dividend's padding holds the minimum value the division raises SIGFPE even
though every element of the simd divides without overflow.
---
 experimental/bits/simd_builtin.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..3399d74 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1042,18 +1042,14 @@ template <int _UsedBytes>
 	  {
 	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __implicit_mask
 	      = __vector_bitcast<_Tp>(_S_implicit_mask<_Tp>());
-	    if constexpr (is_integral_v<_Tp>)
-	      return __or(__x, ~__implicit_mask);
-	    else
-	      {
-		_GLIBCXX_SIMD_USE_CONSTEXPR auto __one
-		  = __andnot(__implicit_mask,
-			     __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
-		// it's not enough to return `x | 1_in_padding` because the
-		// padding in x might be inf or nan (independent of
-		// __FINITE_MATH_ONLY__, because it's about padding bits)
-		return __or(__and(__x, __implicit_mask), __one);
-	      }
+	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __one
+	      = __andnot(__implicit_mask,
+			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
+	    // it's not enough to return `x | 1_in_padding` because the
+	    // padding in x might be inf or nan (independent of
+	    // __FINITE_MATH_ONLY__, because it's about padding bits) or, for
+	    // signed integers, -1 in which case the division may overflow
+	    return __or(__and(__x, __implicit_mask), __one);
 	  }
       }
     // }}}
@@ -1194,7 +1190,16 @@ template <int _UsedBytes>
 	  {
 	    constexpr size_t _Np = _S_size<_Tp>;
 	    if constexpr (is_integral_v<typename _TVT::value_type>)
-	      return __x
+	      // the padding of x might be -1, which overflows on division of the
+	      // minimum value
+	      return (__x
+		      & __generate_vector<_Tp, _S_full_size<_Tp>>(
+			[](auto __i) -> _Tp {
+			  if (__i < _Np)
+			    return ~_Tp();
+			  else
+			    return 0;
+			}))
 		     | __generate_vector<_Tp, _S_full_size<_Tp>>(
 		       [](auto __i) -> _Tp {
 			 if (__i < _Np)
-- 
2.43.0


From a99068b235690b2f0dacd2277b726ed5c1e36299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 02/23] fix: left shift of 16-bit elements by 16 or more must
 not affect the neighboring element

---
 experimental/bits/simd_x86.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..dc77bd6 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1758,8 +1758,11 @@ template <typename _Abi>
 		using _Float4 = __vector_type_t<float, 4>;
 		using _Int4 = __vector_type_t<int, 4>;
 		using _UInt4 = __vector_type_t<unsigned, 4>;
-		const _UInt4 __yu
-		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
+		// y > 15 nulls the result: use 0.f instead of 2^y because the latter
+		// would spill over into the neighboring factor
+		const _UInt4 __yu = reinterpret_cast<_UInt4>(
+		  __vector_bitcast<short>(__to_intrin(__y + (0x3f8 >> 3)))
+		  & (__vector_bitcast<short>(__iy) < 16));
 		return __x
 		       * __intrin_bitcast<_V>(
 			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-- 
2.43.0


From 4310e30f1f461494f90bfa7f5fc505c6d009c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 03/23] fix: left shift of 32-bit elements by 31 must not rely
 on an out-of-range conversion

---
 experimental/bits/simd_x86.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index dc77bd6..71ea584 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1776,12 +1776,19 @@ template <typename _Abi>
 	  }
 	else if constexpr (sizeof(_Up) == 4 && sizeof __ix == 16
 			   && !__have_avx2)
-	  // latency is suboptimal, but throughput is at full speedup
-	  return __intrin_bitcast<_V>(
-	    __vector_bitcast<unsigned>(__ix)
-	    * __vector_convert<__vector_type16_t<int>>(
-	      _SimdWrapper<float, 4>(__vector_bitcast<float>(
-		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0x3f80'0000))));
+	  {
+	    // latency is suboptimal, but throughput is at full speedup
+	    // 2^31 cannot be represented as int. Use -2^31, which is equal modulo
+	    // 2^32, because the value of an out-of-range conversion differs
+	    // between constant propagation and execution.
+	    const auto __uy = __vector_bitcast<unsigned>(__iy);
+	    return __intrin_bitcast<_V>(
+	      __vector_bitcast<unsigned>(__ix)
+	      * __vector_convert<__vector_type16_t<int>>(
+		_SimdWrapper<float, 4>(__vector_bitcast<float>(
+		  ((__uy << 23) + 0x3f80'0000)
+		  | (((__uy + 1) << 26) & 0x8000'0000u)))));
+	  }
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
-- 
2.43.0


From 5b35052773896b58b05f433ca3a5ed07242f3beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 04/23] fix: right shift of signed 8- and 16-bit elements
 beyond their width replicates the sign

---
 experimental/bits/simd_x86.h | 39 ++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 71ea584..456e44d 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1991,8 +1991,11 @@ template <typename _Abi>
 	    else if constexpr (__have_sse4_1
 			       && is_signed_v<_Up> && sizeof(__x) > 2)
 	      {
+		// y > 7 is equivalent to y == 7
+		auto __y128 = __vector_bitcast<_Up>(__iy);
+		__y128 |= (__y128 & char(0xf8)) != 0;
 		auto __mask = __vector_bitcast<_UChar>(
-		  __vector_bitcast<_UShort>(__iy) << 5);
+		  __vector_bitcast<_UShort>(__y128) << 5);
 		auto __maskl = [&]() {
 		  return __to_intrin(__vector_bitcast<_UShort>(__mask) << 8);
 		};
@@ -2022,11 +2025,9 @@ template <typename _Abi>
 		  _CommonImplX86::_S_blend_intrin(__maskl(), __to_intrin(__xl),
 						  __to_intrin(__xl1)));
 		return __intrin_bitcast<_V>(
-		  (__vector_bitcast<_Up>((__xh & short(0xff00)))
-		   | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					   >> 8))
-		  & ((__vector_bitcast<_Up>(__iy) & char(0xf8))
-		     == 0)); // y > 7 nulls the result
+		  __vector_bitcast<_Up>((__xh & short(0xff00)))
+		  | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					  >> 8));
 	      }
 	    else if constexpr (is_unsigned_v<_Up> && sizeof(__x) > 2) // SSE2
 	      {
@@ -2049,6 +2050,8 @@ template <typename _Abi>
 	    else if constexpr (sizeof(__x) > 2) // signed SSE2
 	      {
 		static_assert(is_signed_v<_Up>);
+		// y > 7 is equivalent to y == 7
+		__y |= (__y & char(0xf8)) != 0;
 		auto __maskh = __vector_bitcast<_UShort>(__y) << 5;
 		auto __maskl = __vector_bitcast<_UShort>(__y) << (5 + 8);
 		auto __xh = __vector_bitcast<short>(__x);
@@ -2069,11 +2072,9 @@ template <typename _Abi>
 		auto __xl1 = __xl >> 1;
 		__xh = __maskh > 0x7fff ? __xh1 : __xh;
 		__xl = __maskl > 0x7fff ? __xl1 : __xl;
-		__x = __vector_bitcast<_Up>((__xh & short(0xff00)))
-		      | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
-					      >> 8);
-		return __x
-		       & ((__y & char(0xf8)) == 0); // y > 7 nulls the result
+		return __vector_bitcast<_Up>((__xh & short(0xff00)))
+		       | __vector_bitcast<_Up>(__vector_bitcast<_UShort>(__xl)
+					       >> 8);
 	      }
 	    else
 	      return __x >> __y;
@@ -2124,10 +2125,11 @@ template <typename _Abi>
 		auto __x128 = __vector_bitcast<_Up>(__ix);
 		//__mask *= 0x0808;
 		__mask = (__mask << 3) | (__mask << 11);
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __vector_bitcast<_Up>(
-		  _mm_blendv_epi8(__to_intrin(__x128), __m128i(),
-				  __to_intrin(__mask)));
+		// do __x128 = 0 (or all sign bits) where __y[4] is set
+		__x128 = __vector_bitcast<_Up>(_mm_blendv_epi8(
+		  __to_intrin(__x128),
+		  is_signed_v<_Up> ? __to_intrin(__x128 >> 15) : __m128i(),
+		  __to_intrin(__mask)));
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __vector_bitcast<_Up>(
 		  _mm_blendv_epi8(__to_intrin(__x128), __to_intrin(__x128 >> 8),
@@ -2152,8 +2154,11 @@ template <typename _Abi>
 		auto __mask = [](__vector_type16_t<_UShort> __kk) {
 		  return __vector_bitcast<short>(__kk) < 0;
 		};
-		// do __x128 = 0 where __y[4] is set
-		__x128 = __mask(__k) ? decltype(__x128)() : __x128;
+		// do __x128 = 0 (or all sign bits) where __y[4] is set
+		__x128 = __mask(__k)
+			   ? (is_signed_v<_Up> ? __x128 >> 15
+					       : decltype(__x128)())
+			   : __x128;
 		// do __x128 =>> 8 where __y[3] is set
 		__x128 = __mask(__k += __k) ? __x128 >> 8 : __x128;
 		// do __x128 =>> 4 where __y[2] is set
-- 
2.43.0


From 9143b6fd5bf50d8b608dc4079ed8dd629b07ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 05/23] fix: AVX-512 operator!= of integer simd left padding
 bits of the mask set

---
 experimental/bits/simd_x86.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 456e44d..c21ce45 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2332,29 +2332,29 @@ template <typename _Abi>
 		  __assert_unreachable<_Tp>();
 	      }
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 8)
-	      return ~_mm512_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 4)
-	      return ~_mm512_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 2)
-	      return ~_mm512_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 1)
-	      return ~_mm512_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 8)
-	      return ~_mm256_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 4)
-	      return ~_mm256_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 2)
-	      return ~_mm256_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 1)
-	      return ~_mm256_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 8)
-	      return ~_mm_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 4)
-	      return ~_mm_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 2)
-	      return ~_mm_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 1)
-	      return ~_mm_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else
 	      __assert_unreachable<_Tp>();
 	  }                                                   // }}}
-- 
2.43.0


From 6a8fd2ddc70e5a3c35e92e2ce3ce013ea12d4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 06/23] fix: masked assignment of bool to AVX masks of 32- and
 64-bit elements must not require AVX2

---
 experimental/bits/simd_builtin.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 3399d74..6a27cfe 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2887,8 +2887,10 @@ template <typename _Abi>
 	      __lhs = __or(__k, __lhs);
 	    return;
 	  }
-	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+	__lhs = _CommonImpl::_S_blend(
+	  __k, __lhs,
+	  _SimdWrapper<_Tp, _Np>(
+	    __vector_broadcast<_Np>(static_cast<_Tp>(-__rhs))));
       }
 
     //}}}2
-- 
2.43.0


From e0f94e4aa9f9df28b54b656bb157eeaeab4f5e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 07/23] fix: where(k, v) <<= and >>= must call functions that
 exist

---
 experimental/bits/simd.h         | 4 ++--
 experimental/bits/simd_builtin.h | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..da062ac 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3228,8 +3228,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 6a27cfe..6afa633 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2510,8 +2510,9 @@ template <typename _Abi>
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
-	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+	  __lhs = _CommonImpl::_S_blend(
+	    __k, __lhs,
+	    _SimdWrapper<_Tp, _Np>(__op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From a3399d8126593bc69c4744cf6d4246369da25323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 08/23] fix: masked division and shifts must not depend on
 operands of unselected lanes

---
 experimental/bits/simd.h | 41 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index da062ac..260ae84 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3193,6 +3193,25 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_INTRINSIC friend _Tp& __get_lvalue(where_expression& __x)
     { return __x._M_value; }
 
+    // Integral division and shifts must not be undefined because of the value of
+    // an operand that is not selected. Use __identity instead.
+    template <bool _MaskScalars, typename _Up>
+      _GLIBCXX_SIMD_INTRINSIC auto
+      _M_masked_rhs(_Up&& __x, int __identity) const
+      {
+	if constexpr (is_integral_v<value_type>
+		      && (_MaskScalars || is_simd_v<__remove_cvref_t<_Up>>))
+	  {
+	    _Tp __rhs(static_cast<value_type>(__identity));
+	    _Impl::_S_masked_assign(__data(_M_k), __data(__rhs),
+				    __to_value_type_or_member_type<_Tp>(
+				      static_cast<_Up&&>(__x)));
+	    return __data(__rhs);
+	  }
+	else
+	  return __to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x));
+      }
+
   public:
     where_expression(const where_expression&) = delete;
     where_expression& operator=(const where_expression&) = delete;
@@ -3223,13 +3242,27 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(+, _S_plus);
     _GLIBCXX_SIMD_OP_(-, _S_minus);
     _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
+#undef _GLIBCXX_SIMD_OP_
+
+#define _GLIBCXX_SIMD_OP_(__op, __name, __mask_scalars, __identity)            \
+  template <typename _Up>                                                      \
+    _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
+    {                                                                          \
+      _Impl::template _S_masked_cassign(                                       \
+	__data(_M_k), __data(_M_value),                                        \
+	_M_masked_rhs<__mask_scalars>(static_cast<_Up&&>(__x), __identity),    \
+	[](auto __impl, auto __lhs, auto __rhs) constexpr {                    \
+	return __impl.__name(__lhs, __rhs);                                    \
+	});                                                                    \
+    }                                                                          \
+  static_assert(true)
+    _GLIBCXX_SIMD_OP_(/, _S_divides, true, 1);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus, true, 1);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left, false, 0);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right, false, 0);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
-- 
2.43.0


From a49dc69b421ea432f4ebabad6b8c4f1a44bd0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 09/23] fix: conversion of 64-bit integers to float must round
 once

---
 experimental/bits/simd_x86_conversions.h | 64 +++---------------------
 1 file changed, 6 insertions(+), 58 deletions(-)

diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 899d031..ee53325 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -667,9 +667,8 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepi64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepi64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  return __intrin_bitcast<_To>(
-	    _mm512_cvtpd_ps(__convert_x86<__vector_type_t<double, 8>>(__v)));
+	// else use fallback (builtin conversion), because going via double would
+	// round twice
       }
     else if constexpr (__u64_to_f32) //{{{2
       {
@@ -679,15 +678,8 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepu64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepu64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  {
-	    return __intrin_bitcast<_To>(
-	      __lo256(_mm512_cvtepu32_ps(__auto_bitcast(
-		_mm512_cvtepi64_epi32(_mm512_srai_epi64(__intrin, 32)))))
-		* 0x100000000LL
-	      + __lo256(_mm512_cvtepu32_ps(
-		__auto_bitcast(_mm512_cvtepi64_epi32(__intrin)))));
-	  }
+	// else use fallback (builtin conversion), because converting the halves
+	// and adding the results would round twice
       }
     else if constexpr (__s32_to_f32) //{{{2
       {
@@ -1268,25 +1260,6 @@ template <typename _To, typename _V, typename _Traits>
 	  {
 	    if constexpr (__x_to_x)
 	      return __make_wrapper<float>(__v0[0], __v0[1], __v1[0], __v1[1]);
-	    else if constexpr (__y_to_y)
-	      {
-		static_assert(__y_to_y && __have_avx2);
-		const auto __a = _mm256_unpacklo_epi32(__i0, __i1); // aeAE cgCG
-		const auto __b = _mm256_unpackhi_epi32(__i0, __i1); // bfBF dhDH
-		const auto __lo32
-		  = _mm256_unpacklo_epi32(__a, __b); // abef cdgh
-		const auto __hi32 = __vector_bitcast<
-		  conditional_t<is_signed_v<_Tp>, int, _UInt>>(
-		  _mm256_unpackhi_epi32(__a, __b)); // ABEF CDGH
-		const auto __hi
-		  = 0x100000000LL
-		    * __convert_x86<__vector_type_t<float, 8>>(__hi32);
-		const auto __mid
-		  = 0x10000 * _mm256_cvtepi32_ps(_mm256_srli_epi32(__lo32, 16));
-		const auto __lo
-		  = _mm256_cvtepi32_ps(_mm256_set1_epi32(0x0000ffffu) & __lo32);
-		return __xzyw((__hi + __mid) + __lo);
-	      }
 	    else if constexpr (__z_to_z && __have_avx512dq)
 	      {
 		return is_signed_v<_Tp> ? __concat(_mm512_cvtepi64_ps(__i0),
@@ -1294,33 +1267,8 @@ template <typename _To, typename _V, typename _Traits>
 					: __concat(_mm512_cvtepu64_ps(__i0),
 						   _mm512_cvtepu64_ps(__i1));
 	      }
-	    else if constexpr (__z_to_z && is_signed_v<_Tp>)
-	      {
-		const __m512 __hi32 = _mm512_cvtepi32_ps(
-		  __concat(_mm512_cvtepi64_epi32(__to_intrin(__v0 >> 32)),
-			   _mm512_cvtepi64_epi32(__to_intrin(__v1 >> 32))));
-		const __m512i __lo32 = __concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1));
-		// split low 32-bits, because if __hi32 is a small negative
-		// number, the 24-bit mantissa may lose important information if
-		// any of the high 8 bits of __lo32 is set, leading to
-		// catastrophic cancelation in the FMA
-		const __m512 __hi16
-		  = _mm512_cvtepu32_ps(_mm512_set1_epi32(0xffff0000u) & __lo32);
-		const __m512 __lo16
-		  = _mm512_cvtepi32_ps(_mm512_set1_epi32(0x0000ffffu) & __lo32);
-		return (__hi32 * 0x100000000LL + __hi16) + __lo16;
-	      }
-	    else if constexpr (__z_to_z && is_unsigned_v<_Tp>)
-	      {
-		return __intrin_bitcast<_To>(
-		  _mm512_cvtepu32_ps(__concat(
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i0, 32)),
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i1, 32))))
-		    * 0x100000000LL
-		  + _mm512_cvtepu32_ps(__concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1))));
-	      }
+	    // else use concat fallback, because summing up the conversions of
+	    // the high and low bits would round twice
 	  }
 	else if constexpr (__f64_to_s32) //{{{2
 	  {
-- 
2.43.0


From 2575a4127e8ff56037e6d80b8c51f7911c58e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 10/23] fix: masked stores without AVX must not touch memory of
 unselected lanes

_mm_maskmoveu_si128 does not suppress faults: where(m, v).copy_to(p) with SSE2..SSE4
and with 8/16-bit elements on AVX/AVX2 crashed when bytes of unselected elements were not
accessible. Converting stores use the implementation of the ABI of the converted vector.
---
 experimental/bits/simd_builtin.h |  6 +++---
 experimental/bits/simd_x86.h     | 13 ++++---------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 6afa633..a44d44d 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1597,7 +1597,7 @@ template <typename _Abi>
 	    if constexpr (_UW_size == _TV_size) // one convert+store
 	      {
 		const _UW __converted = __convert<_UW>(__v);
-		_SuperImpl::_S_masked_store_nocvt(
+		_UAbi::_SimdImpl::_S_masked_store_nocvt(
 		  __converted, __mem,
 		  _UAbi::_MaskImpl::template _S_convert<
 		    __int_for_sizeof_t<_Up>>(__k));
@@ -1612,7 +1612,7 @@ template <typename _Abi>
 		const array<_UV, _NAllStores> __converted
 		  = __convert_all<_UV, _NAllStores>(__v);
 		__execute_n_times<_NFullStores>([&](auto __i) {
-		  _SuperImpl::_S_masked_store_nocvt(
+		  _UAbi::_SimdImpl::_S_masked_store_nocvt(
 		    _UW(__converted[__i]), __mem + __i * _UW_size,
 		    _UAbi::_MaskImpl::template _S_convert<
 		      __int_for_sizeof_t<_Up>>(
@@ -1620,7 +1620,7 @@ template <typename _Abi>
 		});
 		if constexpr (_NAllStores
 			      > _NFullStores) // one partial at the end
-		  _SuperImpl::_S_masked_store_nocvt(
+		  _UAbi::_SimdImpl::_S_masked_store_nocvt(
 		    _UW(__converted[_NFullStores]),
 		    __mem + _NFullStores * _UW_size,
 		    _UAbi::_MaskImpl::template _S_convert<
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index c21ce45..45368d0 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1187,8 +1187,8 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else
+	      _Base::_S_masked_store_nocvt(__v, __mem, __k);
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1213,8 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else
+	      _Base::_S_masked_store_nocvt(__v, __mem, __k);
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From adb1a4a1580e69c57efc81ff8fb57c3e7325136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 11/23] fix: keep the padding of an inverted partial float mask
 clear on AVX

_S_is_partial was looked up for the mask's integer type, for which a 7 x float or
3 x double ABI is not valid with AVX but without AVX2, so !m set the mask's padding bits
and masked loads and stores went beyond the N elements.
---
 experimental/bits/simd_builtin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index a44d44d..f675b2f 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2816,7 +2816,7 @@ template <typename _Abi>
       _GLIBCXX_SIMD_INTRINSIC static constexpr _SimdWrapper<_Tp, _Np>
       _S_bit_not(const _SimdWrapper<_Tp, _Np>& __x)
       {
-	if constexpr (_Abi::template _S_is_partial<_Tp>)
+	if constexpr (_SimdWrapper<_Tp, _Np>::_S_is_partial)
 	  return __andnot(__x, __wrapper_bitcast<_Tp>(
 				 _Abi::template _S_implicit_mask<_Tp>()));
 	else
-- 
2.43.0


From e25c84c1a21c4e115e596c56dbe6e55e90a2af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 12/23] fix: fixed_size converting constructor must not claim
 vector alignment for a temporary array

---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 260ae84..2d0d5c5 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -4971,7 +4971,7 @@ template <typename _Tp, typename _Abi>
 	       negation<__is_narrowing_conversion<_Up, value_type>>,
 	       __converts_to_higher_integer_rank<_Up, value_type>>::value,
 	     void*> = nullptr)
-      : simd{static_cast<array<_Up, size()>>(__x).data(), vector_aligned} {}
+      : simd{static_cast<array<_Up, size()>>(__x).data(), element_aligned} {}
 
       // explicit type conversion constructor
 #ifdef _GLIBCXX_SIMD_ENABLE_STATIC_CAST
-- 
2.43.0


From e9a7d8d45e034e8125038e33f1a46f8e07023138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 13/23] fix: to_native and to_compatible from fixed_size simd
 and mask

to_native(fixed_size_simd_mask), to_compatible(fixed_size_simd) and
to_compatible(fixed_size_simd_mask) deduced the size as size_t, which never
matches fixed_size<int>, and the mask overloads used a constructor that does
not exist.
---
 experimental/bits/simd.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 2d0d5c5..7830fe7 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3035,16 +3035,17 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    return native_simd_mask<_Tp>(
+      __private_init, [&](auto __i) constexpr { return __x[size_t(__i)]; });
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3053,11 +3054,14 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    return simd_mask<_Tp>(
+      __private_init, [&](auto __i) constexpr { return __x[size_t(__i)]; });
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From fe0371d669e6551143a86fcc8ff5b79ea6ac150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 14/23] fix: initialize the padding bits in
 to_fixed_size(simd_mask)

Setting the elements one by one left the remaining bits of the bitmask
indeterminate; popcount and copy_to of the result read them.
---
 experimental/bits/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 7830fe7..b35645d 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3019,7 +3019,7 @@ template <typename _Tp, typename _Ap>
   to_fixed_size(const simd_mask<_Tp, _Ap>& __x)
   {
     constexpr int _Np = simd_mask<_Tp, _Ap>::size();
-    fixed_size_simd_mask<_Tp, _Np> __r;
+    fixed_size_simd_mask<_Tp, _Np> __r{};
     __execute_n_times<_Np>([&](auto __i) constexpr { __r[__i] = __x[__i]; });
     return __r;
   }
-- 
2.43.0


From 6c3a1dfa4969d9a2ff8aa2b0ca4c55d637b95d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 15/23] fix: resizing_simd_cast of masks must set additional
 elements to false

Widening a mask left the additional elements undefined, and narrowing an
AVX-512 mask left bits above the last element set.
---
 experimental/bits/simd.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index b35645d..d4a356f 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2989,8 +2989,12 @@ template <typename _Tp, typename _Up, typename _Ap>
   enable_if_t<is_simd_mask_v<_Tp>, _Tp>
   resizing_simd_cast(const simd_mask<_Up, _Ap>& __x)
   {
-    return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
-			      typename _Tp::simd_type::value_type>(__x)};
+    if constexpr (_Tp::size() != simd_size_v<_Up, _Ap>)
+      // drops the excess elements and initializes additional ones to false
+      return {__bitset_init, __x.__to_bitset().to_ullong()};
+    else
+      return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
+				typename _Tp::simd_type::value_type>(__x)};
   }
 } // namespace __proposed
 
-- 
2.43.0


From 31e3de33d37d28ced3d63bba8938d7fd6b00c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 16/23] fix: split of a partial AVX mask into two SSE masks

The upper half of the elements does not start at the upper 128 bits of the
register unless the mask fills it.
---
 experimental/bits/simd.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index d4a356f..5c90011 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3825,7 +3825,10 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       // not for partial masks, __lo128 must be _V::size() wide
+		       && (sizeof(typename _V::simd_type::value_type)
+			   * _V::size() == 16))
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0


From aabf75cf39cb879d8329641e3ff93a7b957e5c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:59 +0000
Subject: [PATCH 17/23] fix: hmin and hmax of a where expression must use
 infinity unless -ffinite-math-only

---
 experimental/bits/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 5c90011..c46268b 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3549,7 +3549,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
@@ -3567,7 +3567,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
-- 
2.43.0


From 0683a908cf8edb1cf04a766cd15fa961d0879146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:20 +0000
Subject: [PATCH 18/23] fix: minmax for scalar and fixed_size

---
 experimental/bits/simd_fixed_size.h | 9 ++++++++-
 experimental/bits/simd_scalar.h     | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..ce0c02f 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1482,7 +1482,7 @@ template <int _Np>
 	  }
       }
 
-    // _S_min, _S_max {{{2
+    // _S_min, _S_max, _S_minmax {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
       _S_min(const _SimdTuple<_Tp, _As...>& __a,
@@ -1507,6 +1507,13 @@ template <int _Np>
 	  __b);
       }
 
+    template <typename _Tp, typename... _As>
+      static inline constexpr
+      pair<_SimdTuple<_Tp, _As...>, _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      { return {_S_min(__a, __b), _S_max(__a, __b)}; }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..642533b 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -188,7 +188,7 @@ struct _SimdImplScalar
     _S_reduce(const simd<_Tp, simd_abi::scalar>& __x, const _BinaryOperation&)
     { return __x._M_data; }
 
-  // _S_min, _S_max {{{2
+  // _S_min, _S_max, _S_minmax {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_min(const _Tp __a, const _Tp __b)
     { return std::min(__a, __b); }
@@ -197,6 +197,11 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp>
+    _S_minmax(const _Tp __a, const _Tp __b)
+    { return {_S_min(__a, __b), _S_max(__a, __b)}; }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From ca84f77c354e208a3a9e4b72ad4251efc83d623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:23 +0000
Subject: [PATCH 19/23] fix: masked loads and stores of partial vectors must
 not access the padding

---
 experimental/bits/simd_builtin.h | 4 +++-
 experimental/bits/simd_x86.h     | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f675b2f..04d36eb 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1559,9 +1559,11 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
+      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k0)
 	noexcept
       {
+	// the padding elements of __k0 may be true (e.g. the result of a compare)
+	const _MaskMember<_Tp> __k = _Abi::_S_masked(__k0);
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 45368d0..d06c838 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -853,6 +853,9 @@ template <typename _Abi>
 		     const _Up* __mem) noexcept
       {
 	static_assert(_Np == _S_size<_Tp>);
+	// the padding elements of __k may be true (e.g. the result of a compare)
+	if constexpr (!__is_avx512_abi<_Abi>())
+	  __k = _Abi::_S_masked(__k);
 	if constexpr (is_same_v<_Tp, _Up> || // no conversion
 		      (sizeof(_Tp) == sizeof(_Up)
 		       && is_integral_v<
-- 
2.43.0


From 75cfa47be805d916ad744eb7251a4dd91d6e3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:44 +0000
Subject: [PATCH 20/23] fix: rounding functions must keep the sign of a zero
 result

---
 experimental/bits/simd_builtin.h |  5 ++++-
 experimental/bits/simd_x86.h     | 17 +++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 04d36eb..9846955 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2191,7 +2191,10 @@ template <typename _Abi>
 	= _V() + (1ull << (__digits_v<value_type> - 1));
       const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
       const _V __shifted = _S_plus_minus(__x, __shifter);
-      return __absx < __shifter_abs ? __shifted : __x;
+      // the sign of __x is the sign of a zero result
+      return __absx < __shifter_abs
+	       ? __or(__and(_S_signmask<_V>, __x), __shifted)
+	       : __x;
     }
 
     // _S_rint {{{3
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d06c838..589a3b0 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2681,8 +2681,10 @@ template <typename _Abi>
 	  return _mm_round_pd(__x, 0x3);
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
 	  {
+	    // the conversion to int loses the sign of zero
 	    auto __truncated
-	      = _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x)));
+	      = __or(__and(_S_signmask<__m128>, __to_intrin(__x)),
+		     _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))));
 	    const auto __no_fractional_values
 	      = __vector_bitcast<int>(__vector_bitcast<_UInt>(__to_intrin(__x))
 				      & 0x7f800000u)
@@ -2724,8 +2726,10 @@ template <typename _Abi>
 	  __truncated
 	    = _mm_round_pd(__x._M_data, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 	else if constexpr (__is_sse_ps<_Tp, _Np>())
-	  __truncated = __auto_bitcast(
-	    _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))));
+	  __truncated = __or(
+	    __and(_S_signmask<_V>, __x._M_data),
+	    __vector_bitcast<_Tp, _Np>(_SimdWrapper<_Tp, 4>(
+	      _mm_cvtepi32_ps(_mm_cvttps_epi32(__to_intrin(__x))))));
 	else
 	  return _Base::_S_round(__x);
 
@@ -2734,9 +2738,10 @@ template <typename _Abi>
 
 	const _V __rounded
 	  = __truncated
-	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
-		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
-		 : _V());
+	    + __or(__and(_S_signmask<_V>, __x._M_data),
+		   __and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
+		     ? _V() + 1
+		     : _V());
 	if constexpr (__have_sse4_1)
 	  return __rounded;
 	else // adjust for missing range in cvttps_epi32
-- 
2.43.0


From f61e2fde063dae70c13dafaeaaff2e5eccc35b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 21/23] fix: sph_legendre must not call assoc_legendre

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..1d08f14 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1477,7 +1477,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From 48c7a061fb38617a9621ca863a36ca5ce712a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 22/23] fix: conversions between simd or simd_mask and vector
 registers must compile

---
 experimental/bits/simd_builtin.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 9846955..c2bdcb0 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -829,7 +829,7 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
       }
       explicit operator __vector_type_t<_Tp, _Np>() const
       {
-	return static_cast<const simd<_Tp, _Abi>*>(this)->_M_data.__builtin();
+	return static_cast<const simd<_Tp, _Abi>*>(this)->_M_data._M_data;
       }
     };
 
@@ -849,19 +849,23 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
     {
       explicit operator __intrinsic_type_t<_Tp, _Np>() const
       {
-	return static_cast<const simd_mask<_Tp, _Abi>*>(this)
-	  ->_M_data.__intrin();
+	return __intrin_bitcast<__intrinsic_type_t<_Tp, _Np>>(
+	  static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data._M_data);
       }
       explicit operator __vector_type_t<_Tp, _Np>() const
       {
-	return static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data._M_data;
+	return reinterpret_cast<__vector_type_t<_Tp, _Np>>(
+	  static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data._M_data);
       }
     };
 
     struct _MaskBase1
     {
       explicit operator __intrinsic_type_t<_Tp, _Np>() const
-      { return __data(*static_cast<const simd_mask<_Tp, _Abi>*>(this)); }
+      {
+	return __intrin_bitcast<__intrinsic_type_t<_Tp, _Np>>(
+	  static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data._M_data);
+      }
     };
 
     using _MaskBase = conditional_t<
@@ -878,7 +882,8 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
 
     public:
       _MaskCastType(_Up __x) : _M_data(__x) {}
-      operator _MaskMember() const { return _M_data; }
+      operator _MaskMember() const
+      { return __intrin_bitcast<__vector_type_t<_Mp, _Np>>(_M_data); }
     };
 
     // }}}
@@ -890,7 +895,8 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
       _SimdMember _M_data;
 
     public:
-      _SimdCastType1(_Ap __a) : _M_data(__vector_bitcast<_Tp>(__a)) {}
+      _SimdCastType1(_Ap __a)
+      : _M_data(__intrin_bitcast<__vector_type_t<_Tp, _Np>>(__a)) {}
       operator _SimdMember() const { return _M_data; }
     };
 
@@ -901,7 +907,8 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
       _SimdMember _M_data;
 
     public:
-      _SimdCastType2(_Ap __a) : _M_data(__vector_bitcast<_Tp>(__a)) {}
+      _SimdCastType2(_Ap __a)
+      : _M_data(__intrin_bitcast<__vector_type_t<_Tp, _Np>>(__a)) {}
       _SimdCastType2(_B __b) : _M_data(__b) {}
       operator _SimdMember() const { return _M_data; }
     };
-- 
2.43.0


From da7f22d3f4eb743a64feac8c544554ee8202a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:20 +0000
Subject: [PATCH 23/23] fix: where(mask, v) = -0.0 must not store +0

---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index c2bdcb0..fe25e7a 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2491,7 +2491,8 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 && !__builtin_signbit(static_cast<double>(__rhs)))
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0

