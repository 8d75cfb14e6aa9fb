From 5272e0f6369773d856e6c119dea3df1519a16aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 01/45] fix: AVX2 ZeroIfNegative for 16/32/64-bit integers

blendv_epi8 selects individual bytes by their own MSB, so lanes were only
partially zeroed unless the mask was sign-extended first.
---
 hwy/ops/x86_256-inl.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..e247c59 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1179,15 +1179,22 @@ HWY_API Vec256<T> IfThenZeroElse(Mask256<T> mask, Vec256<T> no) {
   return AndNot(VecFromMask(d, mask), no);
 }
 
-template <typename T>
+template <typename T, HWY_IF_FLOAT_OR_SPECIAL(T)>
 HWY_API Vec256<T> ZeroIfNegative(Vec256<T> v) {
-  static_assert(IsSigned<T>(), "Only for float");
+  static_assert(IsSigned<T>(), "Only for signed/float");
   const DFromV<decltype(v)> d;
   const auto zero = Zero(d);
-  // AVX2 IfThenElse only looks at the MSB for 32/64-bit lanes
+  // AVX2 IfThenElse only looks at the MSB for 32/64-bit float lanes
   return IfThenElse(MaskFromVec(v), zero, v);
 }
 
+// For integers, IfThenElse blends individual bytes, so first extend the sign.
+template <typename T, HWY_IF_NOT_FLOAT_NOR_SPECIAL(T)>
+HWY_API Vec256<T> ZeroIfNegative(Vec256<T> v) {
+  static_assert(IsSigned<T>(), "Only for signed/float");
+  return AndNot(BroadcastSignBit(v), v);
+}
+
 // ------------------------------ Mask logical
 
 template <typename T>
-- 
2.43.0


From ad3933237833e5d3e5828ccc2a557e8d78aa7fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 02/45] fix: EMU128 floating-point division by zero returns
 +/-inf or NaN

It returned 0, unlike a[i] / b[i] as documented and all other targets.
---
 hwy/ops/emu128-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..f5bb41a 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -848,7 +848,7 @@ HWY_API Vec128<T, N> operator*(Vec128<T, N> a, Vec128<T, N> b) {
 template <typename T, size_t N, HWY_IF_FLOAT(T)>
 HWY_API Vec128<T, N> operator/(Vec128<T, N> a, Vec128<T, N> b) {
   for (size_t i = 0; i < N; ++i) {
-    a.raw[i] = (b.raw[i] == T{0}) ? 0 : a.raw[i] / b.raw[i];
+    a.raw[i] /= b.raw[i];
   }
   return a;
 }
-- 
2.43.0


From 601249a4252fa97db6ea6beb774be43f36b1149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 03/45] fix: x86 Ne for floats is true if either input is NaN

AVX2 and AVX3 used the ordered predicate, so Ne(NaN, x) and Not(Eq(NaN, x))
disagreed, unlike a[i] != b[i] as documented and all other targets.
---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..2040b97 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2674,19 +2674,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index e247c59..7f22f9c 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1340,16 +1340,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1567,10 +1567,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From fdcb5a2d8783fc3dd48bc4a64c0ab0971a183f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 04/45] fix: EMU128/SCALAR NearestInt saturates 2^31 and 2^63
 instead of overflowing the cast

---
 hwy/ops/emu128-inl.h | 2 +-
 hwy/ops/scalar-inl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index f5bb41a..ebddabb 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1065,7 +1065,7 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
 
     if (!(abs.raw[i] < MantissaEnd<T>())) {  // Huge or NaN
       // Check if too large to cast or NaN
-      if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+      if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
         ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
         continue;
       }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..5441089 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -858,7 +858,7 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
 
   if (!(abs < MantissaEnd<T>())) {  // Huge or NaN
     // Check if too large to cast or NaN
-    if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
     }
     return Vec1<TI>(ConvertScalarTo<TI>(v.raw));
-- 
2.43.0


From 65efff8e9a6f3ab945d43f5436b37eefb8229661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 05/45] fix: generic CLMulLower/Upper carry between bit groups
 for dense operands

---
 hwy/ops/generic_ops-inl.h | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..07c354d 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -4427,10 +4427,13 @@ HWY_API V CLMulLower(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
-  const auto a0 = And(a, k1);
-  const auto a1 = And(a, k2);
-  const auto a2 = And(a, k4);
-  const auto a3 = And(a, k8);
+  // Each 4-bit group of a product counts up to 16 pairs of set bits, which would
+  // carry into the next group, so handle the lowest nibble of `a` separately.
+  const auto a_hi = AndNot(Set(d, 0xF), a);
+  const auto a0 = And(a_hi, k1);
+  const auto a1 = And(a_hi, k2);
+  const auto a2 = And(a_hi, k4);
+  const auto a3 = And(a_hi, k8);
   const auto b0 = And(b, k1);
   const auto b1 = And(b, k2);
   const auto b2 = And(b, k4);
@@ -4444,7 +4447,13 @@ HWY_API V CLMulLower(V a, V b) {
   m1 = Xor(m1, Xor(MulEven(a2, b3), MulEven(a3, b2)));
   m2 = Xor(m2, Xor(MulEven(a2, b0), MulEven(a3, b3)));
   m3 = Xor(m3, Xor(MulEven(a2, b1), MulEven(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto lo0 = MulEven(And(a, Set(d, 1)), b);
+  const auto lo1 = MulEven(And(a, Set(d, 2)), b);
+  const auto lo2 = MulEven(And(a, Set(d, 4)), b);
+  const auto lo3 = MulEven(And(a, Set(d, 8)), b);
+  const auto lo = Xor(Xor(lo0, lo1), Xor(lo2, lo3));
+  return Xor(lo, Or(Or(And(m0, k1), And(m1, k2)),
+                    Or(And(m2, k4), And(m3, k8))));
 }
 
 template <class V>
@@ -4455,10 +4464,13 @@ HWY_API V CLMulUpper(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
-  const auto a0 = And(a, k1);
-  const auto a1 = And(a, k2);
-  const auto a2 = And(a, k4);
-  const auto a3 = And(a, k8);
+  // Each 4-bit group of a product counts up to 16 pairs of set bits, which would
+  // carry into the next group, so handle the lowest nibble of `a` separately.
+  const auto a_hi = AndNot(Set(d, 0xF), a);
+  const auto a0 = And(a_hi, k1);
+  const auto a1 = And(a_hi, k2);
+  const auto a2 = And(a_hi, k4);
+  const auto a3 = And(a_hi, k8);
   const auto b0 = And(b, k1);
   const auto b1 = And(b, k2);
   const auto b2 = And(b, k4);
@@ -4472,7 +4484,13 @@ HWY_API V CLMulUpper(V a, V b) {
   m1 = Xor(m1, Xor(MulOdd(a2, b3), MulOdd(a3, b2)));
   m2 = Xor(m2, Xor(MulOdd(a2, b0), MulOdd(a3, b3)));
   m3 = Xor(m3, Xor(MulOdd(a2, b1), MulOdd(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto lo0 = MulOdd(And(a, Set(d, 1)), b);
+  const auto lo1 = MulOdd(And(a, Set(d, 2)), b);
+  const auto lo2 = MulOdd(And(a, Set(d, 4)), b);
+  const auto lo3 = MulOdd(And(a, Set(d, 8)), b);
+  const auto lo = Xor(Xor(lo0, lo1), Xor(lo2, lo3));
+  return Xor(lo, Or(Or(And(m0, k1), And(m1, k2)),
+                    Or(And(m2, k4), And(m3, k8))));
 }
 
 #endif  // HWY_NATIVE_AES
-- 
2.43.0


From 715810e0f0e8a7cac22b27a6b4e1301fb54be042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 06/45] fix: generic LoadNOr fills remaining lanes from the
 same lane of no

---
 hwy/ops/generic_ops-inl.h | 148 ++------------------------------------
 1 file changed, 5 insertions(+), 143 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 07c354d..0b1ef13 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2440,13 +2440,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return (num_lanes > 0) ? LoadU(d, p) : Zero(d);
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 1),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  return (num_lanes > 0) ? LoadU(d, p) : no;
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2458,17 +2451,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return detail::LoadNResizeBitCast(d, d1, LoadU(d1, p));
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 1> d1;
-
-  if (num_lanes >= 2) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2485,22 +2467,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return (num_lanes == 2) ? v_lo : InsertLane(v_lo, 2, p[2]);
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 2> d2;
-
-  if (num_lanes >= 4) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  // Two or three lanes.
-  const VFromD<D> v_lo =
-      ConcatUpperLower(d, no, ResizeBitCast(d, LoadU(d2, p)));
-  return (num_lanes == 2) ? v_lo : InsertLane(v_lo, 2, p[2]);
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2537,44 +2503,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 4> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 8) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 4;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    return Combine(d, v_trailing, LoadU(d4, p));
-  } else {
-    return ConcatUpperLower(d, no, ResizeBitCast(d, v_trailing));
-  }
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2621,60 +2549,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 8> d8;
-  const Half<decltype(d8)> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 16) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 12;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    if (leading_len >= 8) {
-      const VFromD<decltype(d8)> v_hi7 =
-          ((leading_len & 4) != 0)
-              ? Combine(d8, v_trailing, LoadU(d4, p + 8))
-              : ConcatUpperLower(d8, ResizeBitCast(d8, no),
-                                 ResizeBitCast(d8, v_trailing));
-      return Combine(d, v_hi7, LoadU(d8, p));
-    } else {
-      return ConcatUpperLower(
-          d, ResizeBitCast(d, no),
-          ResizeBitCast(d, Combine(d8, v_trailing, LoadU(d4, p))));
-    }
-  } else {
-    const Repartition<uint32_t, D> du32;
-    // lowest 4 bytes from v_trailing, next 4 from no.
-    const VFromD<decltype(du32)> lo8 =
-        InterleaveLower(ResizeBitCast(du32, v_trailing), BitCast(du32, no));
-    return ConcatUpperLower(d, ResizeBitCast(d, no), ResizeBitCast(d, lo8));
-  }
-}
-
 #if HWY_MAX_BYTES >= 32
 
 template <class D, HWY_IF_V_SIZE_GT_D(D, 16), HWY_IF_NOT_BF16_D(D)>
@@ -2693,27 +2567,15 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_GT_D(D, 16), HWY_IF_NOT_BF16_D(D)>
+#endif  // HWY_MAX_BYTES >= 32
+
+template <class D, HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  if (num_lanes >= Lanes(d)) return LoadU(d, p);
-
-  const Half<decltype(d)> dh;
-  const size_t half_N = Lanes(dh);
-  const VFromD<decltype(dh)> no_h = LowerHalf(no);
-  if (num_lanes <= half_N) {
-    return ConcatUpperLower(d, no,
-                            ResizeBitCast(d, LoadNOr(no_h, dh, p, num_lanes)));
-  } else {
-    const VFromD<decltype(dh)> v_lo = LoadU(dh, p);
-    const VFromD<decltype(dh)> v_hi =
-        LoadNOr(no_h, dh, p + half_N, num_lanes - half_N);
-    return Combine(d, v_hi, v_lo);
-  }
+  // Lanes not loaded must be those of `no` with the same index.
+  return IfThenElse(FirstN(d, num_lanes), LoadN(d, p, num_lanes), no);
 }
 
-#endif  // HWY_MAX_BYTES >= 32
-
 template <class D, HWY_IF_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
                         size_t num_lanes) {
-- 
2.43.0


From 818c65cbbaf5fb0609cf4211c4cf128fc87ec833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 07/45] fix: 8-bit CompressBitsStore ignores bits past the last
 lane

---
 hwy/ops/generic_ops-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 0b1ef13..3c4ec90 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -5913,10 +5913,12 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
       2, 3, 4, 5, 6, 7, 0, 1, /**/ 0, 2, 3, 4, 5, 6, 7, 1,  //
       1, 2, 3, 4, 5, 6, 7, 0, /**/ 0, 1, 2, 3, 4, 5, 6, 7};
 
+  // Any bits past the last lane must be treated as zero, see LoadMaskBits.
+  const size_t valid_bits = (size_t{1} << HWY_MIN(Lanes(d), 8)) - 1;
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    const size_t bits8 = bits[i / 8] & valid_bits;
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From ab28a37b91637e9572cabc818c0ad8ee0abbfe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 08/45] fix: SCALAR MaskedLoad[Or] do not access memory where
 the mask is false

---
 hwy/ops/scalar-inl.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 5441089..3ff2ded 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1083,14 +1083,14 @@ HWY_API Vec1<T> Load(D /* tag */, const T* HWY_RESTRICT aligned) {
 }
 
 template <class D, typename T = TFromD<D>>
-HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
-  return IfThenElseZero(m, Load(d, aligned));
+HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
+                             const T* HWY_RESTRICT aligned) {
+  return m.bits ? Load(d, aligned) : v;
 }
 
 template <class D, typename T = TFromD<D>>
-HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
-                             const T* HWY_RESTRICT aligned) {
-  return IfThenElse(m, Load(d, aligned), v);
+HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
+  return MaskedLoadOr(Zero(d), m, d, aligned);
 }
 
 template <class D, HWY_IF_LANES_D(D, 1), typename T = TFromD<D>>
-- 
2.43.0


From e797d012d5c5dd8d6cf001715182aceed9559397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 09/45] fix: HeapSort of zero keys and HeapPartialSort of all
 keys stay in bounds

---
 hwy/contrib/sort/vqsort-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 94cedd3..2fefad3 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -161,7 +161,7 @@ template <class Traits, typename T>
 void HeapSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes) {
   constexpr size_t N1 = st.LanesPerKey();
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;
 
   // Build heap.
   for (size_t i = ((num_lanes - N1) / N1 / 2) * N1; i != (~N1 + 1); i -= N1) {
@@ -232,7 +232,8 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
 template <class Traits, typename T>
 void HeapPartialSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
                      const size_t k_lanes) {
-  HeapSelect(st, lanes, num_lanes, k_lanes);
+  // HeapSelect requires the k-th key to exist.
+  if (k_lanes < num_lanes) HeapSelect(st, lanes, num_lanes, k_lanes);
   HeapSort(st, lanes, k_lanes);
 }
 
-- 
2.43.0


From 3b4a67a6c3125d09046820966b24de4e1eb553a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 10/45] fix: VQPartialSort/VQSelect with NaN keys keep all
 other keys

---
 hwy/contrib/sort/vqsort-inl.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 2fefad3..68b0ecf 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -1945,12 +1945,35 @@ HWY_INLINE size_t CountAndReplaceNaN(D d, Traits st, T* HWY_RESTRICT keys,
   return num_nan;
 }
 
+// CountAndReplaceNaN replaced `num_nan` keys with the last value in sort order.
+// Unlike a full sort, selecting only some of the keys does not move them to the
+// back, where the caller will overwrite them with NaN. Hence exchange them with
+// any other keys there; all of these are ordered after the selected keys.
+template <class D, class Traits, typename T, HWY_IF_FLOAT(T)>
+HWY_INLINE void MoveReplacedNaNToBack(D d, Traits st, T* HWY_RESTRICT keys,
+                                      size_t num, size_t num_nan) {
+  const T sentinel = GetLane(st.LastValue(d));
+  size_t pos = num - num_nan;
+  for (size_t i = num - num_nan; i < num; ++i) {
+    if (keys[i] == sentinel) continue;
+    do {
+      HWY_DASSERT(pos != 0);
+      --pos;
+    } while (!(keys[pos] == sentinel));
+    keys[pos] = keys[i];
+  }
+}
+
 // IsNaN is not implemented for non-float, so skip it.
 template <class D, class Traits, typename T, HWY_IF_NOT_FLOAT(T)>
 HWY_INLINE size_t CountAndReplaceNaN(D, Traits, T* HWY_RESTRICT, size_t) {
   return 0;
 }
 
+template <class D, class Traits, typename T, HWY_IF_NOT_FLOAT(T)>
+HWY_INLINE void MoveReplacedNaNToBack(D, Traits, T* HWY_RESTRICT, size_t,
+                                      size_t) {}
+
 }  // namespace detail
 
 // Old interface with user-specified buffer, retained for compatibility. Called
@@ -2037,6 +2060,7 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
+    detail::MoveReplacedNaNToBack(d, st, keys, num, num_nan);
     Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
   }
 }
@@ -2078,6 +2102,7 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
+    detail::MoveReplacedNaNToBack(d, st, keys, num, num_nan);
     Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
   }
 }
-- 
2.43.0


From 3a0defee5b772ee0d8e38f639693b9c768899241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 11/45] fix: VQPartialSort of zero keys does not fail the debug
 assertion in Recurse

---
 hwy/contrib/sort/vqsort-inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 68b0ecf..796331b 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -2047,8 +2047,10 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
     // TODO: optimize to use kLooseSelect
     detail::Recurse<detail::RecurseMode::kSelect>(d, st, keys, num, buf, state,
                                                   max_levels, k);
-    detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
-                                                max_levels);
+    if (k != 0) {
+      detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
+                                                  max_levels);
+    }
   }
 #else   // !VQSORT_ENABLED
   (void)d;
-- 
2.43.0


From b54a6e51dce276b0e759358647ef4083e39948ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 12/45] fix: ThreadPool::Run with end near 2^64 only runs tasks
 in the range

---
 hwy/contrib/thread_pool/thread_pool.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..e9d5c8b 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -454,7 +454,8 @@ class alignas(8) Tasks {
   }
 
   // Assigns workers their share of `[begin, end)`. Called from the main
-  // thread; workers are initializing or spinning for a command.
+  // thread; workers are initializing or spinning for a command. The ranges are
+  // relative to `begin`, so that incrementing them past their end cannot wrap.
   static void DivideRangeAmongWorkers(const uint64_t begin, const uint64_t end,
                                       const Divisor64& div_workers,
                                       Worker* workers) {
@@ -470,13 +471,13 @@ class alignas(8) Tasks {
     const size_t remainder =
         static_cast<size_t>(div_workers.Remainder(num_tasks));
 
-    uint64_t my_begin = begin;
+    uint64_t my_begin = 0;
     for (size_t worker = 0; worker < num_workers; ++worker) {
       const uint64_t my_end = my_begin + min_tasks + (worker < remainder);
       workers[worker].SetRange(my_begin, my_end);
       my_begin = my_end;
     }
-    HWY_DASSERT(my_begin == end);
+    HWY_DASSERT(my_begin == num_tasks);
   }
 
   // Runs the worker's assigned range of tasks, plus work stealing if needed.
@@ -495,12 +496,12 @@ class alignas(8) Tasks {
     const uint64_t end = end_.load(kAcq);
     HWY_DASSERT(begin <= end);
 
-    const uint64_t task = begin + worker;
-    // We might still have more workers than tasks, so check first.
-    if (HWY_LIKELY(task < end)) {
+    // We might still have more workers than tasks, so check first. Avoids
+    // wraparound if `begin + worker` does not fit in 64 bits.
+    if (HWY_LIKELY(worker < end - begin)) {
       const void* opaque = Opaque();
       const RunFunc func = Func();
-      func(opaque, task, worker);
+      func(opaque, begin + worker, worker);
     }
   }
 
@@ -519,6 +520,7 @@ class alignas(8) Tasks {
   HWY_POOL_PROFILE void WorkerRunWithStealing(Worker* worker) const {
     Worker* workers = worker->AllWorkers();
     const size_t index = worker->Index();
+    const uint64_t begin = begin_.load(kAcq);
     const RunFunc func = Func();
     const void* opaque = Opaque();
 
@@ -540,7 +542,7 @@ class alignas(8) Tasks {
         }
         // Pass the index we are actually running on; this is important
         // because it is the TLS index for user code.
-        func(opaque, task, index);
+        func(opaque, begin + task, index);
       }
     }
   }
-- 
2.43.0


From bbdc95b10e97d8a18857961f7256a56291beda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 13/45] fix: ThreadPool barrier counters do not overlap the
 epochs of live workers

---
 hwy/contrib/thread_pool/thread_pool.h | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index e9d5c8b..ccf4b9a 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -86,6 +86,9 @@ static constexpr int kVerbosity = HWY_POOL_VERBOSITY;
 // latency. In that case, this is a generous upper bound.
 static constexpr size_t kMaxThreads = 63;
 
+// Upper bound on `kShards` of `BarrierCounter`.
+static constexpr size_t kMaxBarrierShards = 4;
+
 // Generates a random permutation of [0, size). O(1) storage.
 class ShuffledIota {
  public:
@@ -652,6 +655,7 @@ struct WaitSpinSeparate {
 template <size_t kShards>
 class BarrierCounter {
   static_assert(kShards == 1 || kShards == 2 || kShards == 4, "");  // pow2
+  static_assert(kShards <= kMaxBarrierShards, "");
 
  public:
   BarrierType Type() const {
@@ -663,8 +667,9 @@ class BarrierCounter {
   void Reset(Worker* workers) const {
     for (size_t i = 0; i < kShards; ++i) {
       // Use last worker(s) to avoid contention with other stores to the Worker.
-      // Note that there are kMaxThreads + 1 workers, hence i == 0 is the last.
-      workers[kMaxThreads - i].StoreBarrier(0);
+      // Note that there are at most kMaxThreads threads, hence none of them also
+      // uses this as its `BarrierOrdered` or `BarrierGroup` epoch.
+      workers[kMaxThreads + i].StoreBarrier(0);
     }
   }
 
@@ -673,7 +678,7 @@ class BarrierCounter {
                      uint32_t /*epoch*/) const {
     const size_t shard = worker->Index() & (kShards - 1);
     const auto kAcqRel = std::memory_order_acq_rel;
-    worker->AllWorkers()[kMaxThreads - shard].MutableBarrier().fetch_add(
+    worker->AllWorkers()[kMaxThreads + shard].MutableBarrier().fetch_add(
         1, kAcqRel);
   }
 
@@ -688,8 +693,8 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads + 0].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 1].Barrier().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -697,10 +702,10 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 2].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 3].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads + 0].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 1].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 2].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 3].Barrier().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -1280,8 +1285,11 @@ class alignas(HWY_ALIGNMENT) ThreadPool {
   // Last because it is large. Store inside `ThreadPool` so that callers can
   // bind it to the NUMA node's memory. Not stored inside `WorkerLifecycle`
   // because that class would be initialized after `workers_`.
+  // There are up to kMaxThreads + 1 workers, and `BarrierCounter` uses the last
+  // `kMaxBarrierShards`, which includes the main thread's.
   alignas(HWY_ALIGNMENT) uint8_t
-      worker_bytes_[sizeof(pool::Worker) * (pool::kMaxThreads + 1)];
+      worker_bytes_[sizeof(pool::Worker) *
+                    (pool::kMaxThreads + pool::kMaxBarrierShards)];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 8a08d6ac8bd516c74f70b8d2eaf69aecb79545a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 14/45] fix: BlockUntilDifferent does not fail a debug
 assertion when interrupted by a signal

---
 hwy/contrib/thread_pool/futex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/futex.h b/hwy/contrib/thread_pool/futex.h
index 76d6349..177cff5 100644
--- a/hwy/contrib/thread_pool/futex.h
+++ b/hwy/contrib/thread_pool/futex.h
@@ -155,7 +155,8 @@ static inline uint32_t BlockUntilDifferent(
     // the timespec type is only standardized since C++17 or C11.
     const auto ret = syscall(SYS_futex, address, op, prev, nullptr, nullptr, 0);
     if (ret == -1) {
-      HWY_DASSERT(errno == EAGAIN);  // otherwise an actual error
+      // EINTR is possible if a signal handler ran; otherwise an actual error.
+      HWY_DASSERT(errno == EAGAIN || errno == EINTR);
     }
   }
 
-- 
2.43.0


From 2609d132e053d2b74c0c300af93cfc80cf4c24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 15/45] fix: MakeUniqueAligned[WithAlloc] returns null if the
 allocator does

---
 hwy/aligned_allocator.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index d2f4e84..31d6bb8 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -118,8 +118,10 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter(free, opaque));
+  if (ptr != nullptr) {
+    ptr = new (ptr) T(std::forward<Args>(args)...);
+  }
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter(free, opaque));
 }
 
 // Similar to MakeUniqueAlignedWithAlloc but using the default alloc/free
@@ -127,8 +129,10 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter());
+  if (ptr != nullptr) {
+    ptr = new (ptr) T(std::forward<Args>(args)...);
+  }
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter());
 }
 
 template <class T>
-- 
2.43.0


From 71bbca17972f664106133e6d6e8790e60d357188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 16/45] fix: AlignedAllocator::allocate returns null instead of
 overflowing

---
 hwy/aligned_allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 31d6bb8..e90723e 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -150,8 +150,10 @@ struct AlignedAllocator {
                   "AlignedAllocator only supports integer types");
     static_assert(sizeof(V) <= sizeof(std::size_t),
                   "V n must be smaller or equal size_t to avoid overflow");
+    const std::size_t items = static_cast<std::size_t>(n);
+    if (items > ~std::size_t{0} / sizeof(value_type)) return nullptr;  // overflow
     return static_cast<value_type*>(
-        AllocateAlignedBytes(static_cast<std::size_t>(n) * sizeof(value_type)));
+        AllocateAlignedBytes(items * sizeof(value_type)));
   }
 
   template <class V>
-- 
2.43.0


From 26644d6543c66079c69c7055acade35715f48f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 17/45] fix: Image3 row accessors compile

---
 hwy/contrib/image/image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..3acbbed 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -294,8 +294,8 @@ class Image3 {
     // are all equal. Thus we only need a single multiplication for all planes.
     const size_t row_offset = y * planes_[0].bytes_per_row();
     const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    return const_cast<void*>(static_cast<const void * HWY_RESTRICT>(
+        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT)));
   }
 
  private:
-- 
2.43.0


From 4475b00c11d2e1ab8448421f85940c86d9817a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 18/45] fix: Image constructor does not allocate too little if
 the size overflows

---
 hwy/contrib/image/image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/image/image.cc b/hwy/contrib/image/image.cc
index 75f6528..9f29891 100644
--- a/hwy/contrib/image/image.cc
+++ b/hwy/contrib/image/image.cc
@@ -73,6 +73,7 @@ ImageBase::ImageBase(const size_t xsize, const size_t ysize,
   // if nonzero, because "zero" bytes still have padding/bookkeeping overhead.
   if (xsize != 0 && ysize != 0) {
     bytes_per_row_ = BytesPerRow(xsize, sizeof_t);
+    HWY_ASSERT(bytes_per_row_ <= ~size_t{0} / ysize);  // no overflow
     bytes_ = AllocateAligned<uint8_t>(bytes_per_row_ * ysize);
     HWY_ASSERT(bytes_.get() != nullptr);
     InitializePadding(sizeof_t, Padding::kRoundUp);
-- 
2.43.0


From bfce1a12bc1fb7708b7f54adfdf8fad90f9cf346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 19/45] fix: BitSet4096 has room for capacities that are not a
 multiple of 64

---
 hwy/bit_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/bit_set.h b/hwy/bit_set.h
index f8f921b..ff75856 100644
--- a/hwy/bit_set.h
+++ b/hwy/bit_set.h
@@ -150,7 +150,7 @@ class BitSet4096 {
  private:
   static_assert(kMaxSize <= 64 * 64, "One BitSet64 insufficient");
   BitSet64 nonzero_;
-  BitSet64 bits_[kMaxSize / 64];
+  BitSet64 bits_[(kMaxSize + 63) / 64];  // round up
 };
 
 }  // namespace hwy
-- 
2.43.0


From db3156ad65d0ed9489f7084a4ef29d3d3913d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 20/45] fix: robust_statistics Median and Mode average two
 large values without overflow

---
 hwy/robust_statistics.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hwy/robust_statistics.h b/hwy/robust_statistics.h
index d80a214..2e3e896 100644
--- a/hwy/robust_statistics.h
+++ b/hwy/robust_statistics.h
@@ -97,7 +97,9 @@ T ModeOfSorted(const T* const HWY_RESTRICT sorted, const size_t num_values) {
     return x;
   }
   HWY_ASSERT(half_count == 1);
-  const T average = (x + sorted[idx_begin + 1] + 1) / 2;
+  // Rounds up; avoids overflow of the sum.
+  const T diff = sorted[idx_begin + 1] - x;
+  const T average = x + (diff - diff / 2);
   return average;
 }
 
@@ -123,8 +125,9 @@ T Median(T* values, const size_t num_values) {
   if (num_values % 2) {
     return values[half];
   }
-  // Even count: return average of middle two.
-  return (values[half] + values[half - 1] + 1) / 2;
+  // Even count: return average of middle two (avoids overflow of the sum).
+  const T diff = values[half] - values[half - 1];
+  return values[half - 1] + (diff - diff / 2);
 }
 
 // Returns a robust measure of variability.
-- 
2.43.0


From 764c9b8d8879eca016d339f128c5a7f6f397a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 21/45] fix: SupportedTargets does not make disabled targets
 available to dispatch

---
 hwy/targets.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..b4f4dde 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -794,8 +794,10 @@ HWY_DLLEXPORT int64_t SupportedTargets() {
 
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
     // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
-    GetChosenTarget().Update(targets);
+    // final targets - that will be done by a caller of this function. Exclude
+    // disabled targets because not all callers (or threads) do so.
+    const int64_t enabled = targets & supported_mask_;
+    GetChosenTarget().Update(enabled == 0 ? HWY_STATIC_TARGET : enabled);
   }
 
   targets &= supported_mask_;
-- 
2.43.0


From 66b28c878f3771b80ce5b5f53024e56d96a99fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 22/45] fix: GetThreadAffinity clears its output first

---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..1403d88 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -326,6 +326,7 @@ HWY_CONTRIB_DLLEXPORT bool GetThreadAffinity(LogicalProcessorSet& lps) {
   CPU_ZERO(&set);
   const int err = GetAffinity(&set);
   if (err != 0) return false;
+  lps = LogicalProcessorSet();  // clear all
   for (size_t lp = 0; lp < kMaxLogicalProcessors; ++lp) {
     if (IsSet(lp, &set)) lps.Set(lp);
   }
-- 
2.43.0


From e281cb406aecd6551136aa1ea9d509babfd46fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 23/45] fix: Topology does not abort if a NUMA node has no
 processors

---
 hwy/contrib/thread_pool/topology.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 1403d88..1fd5844 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -571,6 +571,9 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
   constexpr size_t kNotFound = ~size_t{0};
   size_t pos = 0;
 
+  // Empty, for example for NUMA nodes that only have memory.
+  if (list_end == 0 || list[0] == '\0' || list[0] == '\n') return expanded;
+
   // Returns first `found_pos >= pos` where `list[found_pos] == c`, or
   // `kNotFound`.
   const auto find = [list, list_end, &pos](char c) -> size_t {
-- 
2.43.0


From 141c386bbbafe7974da8c1fef2767fee2f06976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 24/45] fix: DataCaches does not abort if the cache size is not
 divisible by the cores sharing it

---
 hwy/contrib/thread_pool/topology.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 1fd5844..b6b21f8 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -1193,8 +1193,12 @@ HWY_MAYBE_UNUSED void ComputeSets(Cache& c) {
   if (c.sets == 0) {
     c.sets = static_cast<uint32_t>(sets);
   } else {
+    // `size_kib` was rounded down by less than 1 KiB, and both numbers of sets
+    // were also rounded down.
+    const size_t max_diff =
+        1 + DivCeil(size_t{1024}, size_t{c.bytes_per_line} * c.associativity);
     const size_t diff = c.sets - sets;
-    if (diff > 1) {
+    if (diff > max_diff) {
       HWY_ABORT("Inconsistent cache sets %u != %zu\n", c.sets, sets);
     }
   }
-- 
2.43.0


From 04c70d9c3b0eee2d6201becb0c2d6c2ec50becbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 25/45] fix: Topology does not overflow its buffer if a sysfs
 list has 200 or more characters

---
 hwy/contrib/thread_pool/topology.cc | 35 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index b6b21f8..43dabfa 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -367,6 +367,9 @@ struct PackageSizes {
 
 #if HWY_OS_LINUX
 
+// Sysfs files have at most one page; also reserve space for a null terminator.
+constexpr size_t kSysfsBytes = 4096 + 1;
+
 class File {
  public:
   explicit File(const char* path) {
@@ -397,14 +400,14 @@ class File {
   }
 
   // Returns number of bytes read or 0 on failure.
-  size_t Read(char* buf200) const {
+  size_t Read(char* buf) const {
     if (fd_ < 0) return 0;
     size_t pos = 0;
     for (;;) {
       // read instead of `pread`, which might not work for sysfs.
-      const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
+      const auto bytes_read = read(fd_, buf + pos, kSysfsBytes - 1 - pos);
       if (bytes_read == 0) {  // EOF: done
-        buf200[pos++] = '\0';
+        buf[pos++] = '\0';
         return pos;
       }
       if (bytes_read == -1) {
@@ -415,7 +418,7 @@ class File {
         return 0;
       }
       pos += static_cast<size_t>(bytes_read);
-      HWY_ASSERT(pos <= 200);
+      HWY_ASSERT(pos <= kSysfsBytes - 1);
     }
   }
 
@@ -424,14 +427,14 @@ class File {
 };
 
 // Returns bytes read, or 0 on failure.
-size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
+size_t ReadSysfs(const char* format, size_t lp, char* buf) {
   char path[200];
   const int bytes_written = snprintf(path, sizeof(path), format, lp);
   HWY_ASSERT(0 < bytes_written &&
              bytes_written < static_cast<int>(sizeof(path) - 1));
 
   const File file(path);
-  return file.Read(buf200);
+  return file.Read(buf);
 }
 
 // Interprets [str + pos, str + end) as base-10 ASCII. Stops when any non-digit
@@ -473,10 +476,10 @@ bool ParseNumberWithOptionalSuffix(const char* str, size_t len, size_t* out) {
 }
 
 bool ReadNumberWithOptionalSuffix(const char* format, size_t lp, size_t* out) {
-  char buf200[200];
-  const size_t pos = ReadSysfs(format, lp, buf200);
+  char buf[kSysfsBytes];
+  const size_t pos = ReadSysfs(format, lp, buf);
   if (pos == 0) return false;
-  return ParseNumberWithOptionalSuffix(buf200, pos, out);
+  return ParseNumberWithOptionalSuffix(buf, pos, out);
 }
 
 const char* kPackage =
@@ -638,11 +641,11 @@ void SetNodes(std::vector<Topology::LP>& lps) {
   // For each NUMA node found via sysfs:
   for (size_t node = 0;; node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
-    char buf200[200];
-    const size_t bytes_read = ReadSysfs(kNode, node, buf200);
+    char buf[kSysfsBytes];
+    const size_t bytes_read = ReadSysfs(kNode, node, buf);
     if (bytes_read == 0) break;
     const std::vector<size_t> list =
-        ExpandList(buf200, bytes_read, lps.size() - 1);
+        ExpandList(buf, bytes_read, lps.size() - 1);
     for (size_t lp : list) {
       lps[lp].node = static_cast<uint8_t>(node);
     }
@@ -901,13 +904,13 @@ using Caches = std::array<Cache, 4>;
 std::string ReadString(const char* name, size_t index) {
   // First CPU is usually a P core.
   const std::string path("/sys/devices/system/cpu/cpu0/cache/index%zu/");
-  char buf200[200];
-  size_t end = ReadSysfs((path + name).c_str(), index, buf200);
+  char buf[kSysfsBytes];
+  size_t end = ReadSysfs((path + name).c_str(), index, buf);
   // Remove trailing newline/null to simplify string comparison.
   for (; end != 0; --end) {
-    if (buf200[end - 1] != '\0' && buf200[end - 1] != '\n') break;
+    if (buf[end - 1] != '\0' && buf[end - 1] != '\n') break;
   }
-  return std::string(buf200, buf200 + end);
+  return std::string(buf, buf + end);
 }
 
 template <typename T>
-- 
2.43.0


From e360e80e9358113ab53421f30fc128ded564e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 26/45] fix: MatVecAdd adds doubles in double precision

---
 hwy/contrib/matvec/matvec-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/matvec/matvec-inl.h b/hwy/contrib/matvec/matvec-inl.h
index a858c9f..1c1d316 100644
--- a/hwy/contrib/matvec/matvec-inl.h
+++ b/hwy/contrib/matvec/matvec-inl.h
@@ -34,8 +34,9 @@ namespace HWY_NAMESPACE {
 
 template <typename TA, typename TB>
 TA AddScalar(TA a, TB b) {
-  return ConvertScalarTo<TA>(ConvertScalarTo<float>(a) +
-                             ConvertScalarTo<float>(b));
+  // float is sufficient for all types except double.
+  using TC = hwy::If<sizeof(TA) == sizeof(double), double, float>;
+  return ConvertScalarTo<TA>(ConvertScalarTo<TC>(a) + ConvertScalarTo<TC>(b));
 }
 
 template <size_t kOuter, size_t kInner, typename T, bool kAdd>
-- 
2.43.0


From 6b6d70a3c55d4f12d3c92e4c59782201091338b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 27/45] fix: Pack16<11>::Unpack only takes the MSB of
 packed8..A for the last vector

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..8c66748 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Shift each MSB into its bit within the top 3-of-11 and mask the others.
+    const VU16 rawF =
+        Or(downF, Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                       And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                       And(ShiftRight<5>(packedA), Set(d, 0x400u))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
-- 
2.43.0


From 93f96d09add26a9e53e238e1fd8048b2d2d5e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 28/45] fix: Pack16<13> packs and unpacks every vector from its
 own remnant

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 8c66748..69dec78 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -2121,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2185,21 +2185,21 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Shift each MSB into its bit within the top 5-of-13 and mask the others.
+    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                         And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                         And(ShiftRight<5>(packedA), Set(d, 0x400u)));
+    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), Set(d, 0x800u)),
+                         And(ShiftRight<3>(packedC), Set(d, 0x1000u)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From 3a9bd0a54c1c2c7e26d89a536fc274a0d9bfe225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 29/45] fix: VectorXoshiro batch calls do not write past the
 end if the count is not a multiple of the lanes

---
 hwy/contrib/random/random-inl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..1c8494a 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -209,7 +209,8 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      // The last vector may be partial.
+      StoreN(next, tag, result.data() + i, n - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -228,7 +229,8 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      // The last vector may be partial.
+      StoreN(next, tag, result.data() + i, N - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -269,7 +271,8 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      // The last vector may be partial.
+      StoreN(uniform, real_tag, result.data() + i, n - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -296,7 +299,8 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      // The last vector may be partial.
+      StoreN(uniform, real_tag, result.data() + i, N - i);
     }
 
     Store(s0, tag, state_[{0}].data());
-- 
2.43.0


From e0c2000d9e2af459d2bb6bb27302279d358bc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 30/45] fix: float SinCos reduces the range with four parts of
 pi/4, so results near multiples of pi are accurate without FMA

---
 hwy/contrib/math/math-inl.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index d741684..a467ce0 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -340,7 +340,7 @@ HWY_NOINLINE V CallTanh(const D d, VecArg<V> x) {
  * The performance should be around the same as calling Sin.
  *
  * Valid Lane Types: float32, float64
- *        Max Error: ULP = 1
+ *        Max Error: ULP = 3 for float32, 1 for float64
  *      Valid Range: [-39000, +39000]
  * @return sine and cosine of 'x'
  */
@@ -1073,8 +1073,8 @@ HWY_INLINE V Log(const D d, V x) {
 
 // Third degree poly
 template <class D, class V>
-HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
-                        V& s, V& c) {
+HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3,
+                        TFromD<D> dp4, V x, V& s, V& c) {
   using T = TFromD<D>;
   using TI = MakeSigned<T>;
   using DI = Rebind<TI, D>;
@@ -1098,6 +1098,7 @@ HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
   const V DP1 = Set(d, dp1);
   const V DP2 = Set(d, dp2);
   const V DP3 = Set(d, dp3);
+  const V DP4 = Set(d, dp4);
 
   V xmm1, xmm2, sign_bit_sin, y;
   VI imm0, imm2, imm4;
@@ -1132,10 +1133,11 @@ HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
   M poly_mask = RebindMask(d, Eq(imm2, ci_0));
 
   /* The magic pass: "Extended precision modular arithmetic"
-  x = ((x - y * DP1) - y * DP2) - y * DP3; */
+  x = (((x - y * DP1) - y * DP2) - y * DP3) - y * DP4; */
   x = MulAdd(y, DP1, x);
   x = MulAdd(y, DP2, x);
   x = MulAdd(y, DP3, x);
+  x = MulAdd(y, DP4, x);
 
   imm4 = Sub(imm4, ci_2);
   imm4 = AndNot(imm4, ci_4);
@@ -1285,8 +1287,10 @@ template <>
 struct SinCosImpl<float> {
   template <class D, class V>
   HWY_INLINE void SinCos(D d, V x, V& s, V& c) {
-    SinCos3(d, -0.78515625f, -2.4187564849853515625e-4f,
-            -3.77489497744594108e-8f, x, s, c);
+    // The first parts have few mantissa bits, so that their products with the
+    // octant are exact even without FMA.
+    SinCos3(d, -0.78515625f, -2.41756439208984375e-4f,
+            -1.569278538227081299e-7f, -3.038550314138355e-11f, x, s, c);
   }
 };
 
-- 
2.43.0


From 50ba055db66dbb664734cc112a66e35a681478bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 31/45] fix: Atan2 of zero and negative zero is +-pi

---
 hwy/contrib/math/math-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index a467ce0..50dddb0 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -144,7 +144,7 @@ HWY_INLINE V Atan2(const D d, V y, V x) {
   const V k0 = Zero(d);
   const M y_0 = Eq(y, k0);
   const M x_0 = Eq(x, k0);
-  const M x_neg = Lt(x, k0);
+  const M x_neg = IsNegative(x);  // also true for -0
   const M y_inf = IsInf(y);
   const M x_inf = IsInf(x);
   const M nan = Or(IsNaN(y), IsNaN(x));
-- 
2.43.0


From 6d94eecd299897497b01847f406ffd9474ef6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 32/45] fix: double SinCos reduces the range with four parts of
 pi/4, so that the documented error holds near multiples of pi

---
 hwy/contrib/math/math-inl.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index 50dddb0..902eb5a 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -1174,8 +1174,8 @@ HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3,
 
 // Sixth degree poly
 template <class D, class V>
-HWY_INLINE void SinCos6(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
-                        V& s, V& c) {
+HWY_INLINE void SinCos6(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3,
+                        TFromD<D> dp4, V x, V& s, V& c) {
   using T = TFromD<D>;
   using TI = MakeSigned<T>;
   using DI = Rebind<TI, D>;
@@ -1206,6 +1206,7 @@ HWY_INLINE void SinCos6(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
   const V DP1 = Set(d, dp1);
   const V DP2 = Set(d, dp2);
   const V DP3 = Set(d, dp3);
+  const V DP4 = Set(d, dp4);
 
   V xmm1, xmm2, sign_bit_sin, y;
   VI imm0, imm2, imm4;
@@ -1240,10 +1241,11 @@ HWY_INLINE void SinCos6(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
   M poly_mask = RebindMask(d, Eq(imm2, ci_0));
 
   /* The magic pass: "Extended precision modular arithmetic"
-    x = ((x - y * DP1) - y * DP2) - y * DP3; */
+    x = (((x - y * DP1) - y * DP2) - y * DP3) - y * DP4; */
   x = MulAdd(y, DP1, x);
   x = MulAdd(y, DP2, x);
   x = MulAdd(y, DP3, x);
+  x = MulAdd(y, DP4, x);
 
   imm4 = Sub(imm4, ci_2);
   imm4 = AndNot(imm4, ci_4);
@@ -1299,8 +1301,8 @@ template <>
 struct SinCosImpl<double> {
   template <class D, class V>
   HWY_INLINE void SinCos(D d, V x, V& s, V& c) {
-    SinCos6(d, -7.85398125648498535156E-1, -3.77489470793079817668E-8,
-            -2.69515142907905952645E-15, x, s, c);
+    SinCos6(d, -0.7853981554508209, -7.946627356147928e-09,
+            -3.061616966026797e-17, -3.184158581755475e-25, x, s, c);
   }
 };
 #endif
-- 
2.43.0


From 935aa3a871cffe6268bd11bc5f0f47570046ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 33/45] fix: print double values from 1E60 in exponent notation
 instead of cutting off their digits

---
 hwy/print.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/print.cc b/hwy/print.cc
index b2c68b1..e2cede9 100644
--- a/hwy/print.cc
+++ b/hwy/print.cc
@@ -82,7 +82,9 @@ HWY_DLLEXPORT void ToString(const TypeInfo& info, const void* ptr,
     if (info.is_float) {
       double value;
       CopyBytes<8>(ptr, &value);
-      const char* fmt = hwy::ScalarAbs(value) < 1E-9 ? "%.18E" : "%.18f";
+      const double abs = hwy::ScalarAbs(value);
+      // Also use %E for large values, whose digits would not fit in string100.
+      const char* fmt = (abs < 1E-9 || abs >= 1E60) ? "%.18E" : "%.18f";
       snprintf(string100, 100, fmt, value);  // NOLINT
     } else {
       const uint8_t* ptr8 = reinterpret_cast<const uint8_t*>(ptr);
-- 
2.43.0


From 4abd63db2a33c472f612ea2556eaf671493bbf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 34/45] fix: TypeName of bfloat16_t is bf16, not i16

---
 hwy/print.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hwy/print.cc b/hwy/print.cc
index e2cede9..f168f5c 100644
--- a/hwy/print.cc
+++ b/hwy/print.cc
@@ -24,15 +24,17 @@ namespace hwy {
 namespace detail {
 
 HWY_DLLEXPORT void TypeName(const TypeInfo& info, size_t N, char* string100) {
-  const char prefix = info.is_float ? 'f' : (info.is_signed ? 'i' : 'u');
+  const char* prefix = info.is_bf16    ? "bf"
+                       : info.is_float ? "f"
+                                       : (info.is_signed ? "i" : "u");
   // Omit the xN suffix for scalars.
   if (N == 1) {
     // NOLINTNEXTLINE
-    snprintf(string100, 64, "%c%d", prefix,
+    snprintf(string100, 64, "%s%d", prefix,
              static_cast<int>(info.sizeof_t * 8));
   } else {
     // NOLINTNEXTLINE
-    snprintf(string100, 64, "%c%dx%d", prefix,
+    snprintf(string100, 64, "%s%dx%d", prefix,
              static_cast<int>(info.sizeof_t * 8), static_cast<int>(N));
   }
 }
-- 
2.43.0


From 7c009fc91454310a4c46b0099c567cdf8221ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 35/45] fix: AVX10.2 targets require the OS to save opmask and
 ZMM state

---
 hwy/targets.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index b4f4dde..1b43aa8 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -405,7 +405,8 @@ static int64_t DetectTargets() {
 #endif
 
     const uint32_t xcr0 = ReadXCR0();
-    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
+    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR |
+                                 HWY_AVX10_2 | HWY_AVX10_2_512;
     // XMM/YMM
     if (!IsBitSet(xcr0, 1) || !IsBitSet(xcr0, 2)) {
       // Clear the AVX2/AVX3 bits if XMM/YMM XSAVE is not enabled
-- 
2.43.0


From 5e9a24d8e48a8be0e82069680afddefef9e6ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 36/45] fix: profiler no longer lists a merged duplicate zone
 again if it was the last one

---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 29f697d..568e987 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -355,9 +355,8 @@ class Results {
         if (!strcmp(name, string_origin + zones_[j].BiasedOffset())) {
           num_calls += zones_[j].NumCalls();
           zones_[i].Add(0, zones_[j].Duration());
-          // j was the last zone, so we are done.
-          if (j == num_zones_ - 1) break;
-          // Replace current zone with the last one, and check it next.
+          // Replace current zone with the last one (possibly itself, in which
+          // case we are done), and check it next.
           zones_[j] = zones_[--num_zones_];
         } else {  // Name differed, try next Accumulator.
           ++j;
-- 
2.43.0


From 02f73edaa61097d9e41ec474d96a76935036557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 37/45] fix: profiler report without any zone no longer
 dereferences null

---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 568e987..28dadef 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -496,6 +496,7 @@ class ThreadList {
   void PrintResults() {
     const auto acq = std::memory_order_acquire;
     const size_t num_threads = num_threads_.load(acq);
+    if (num_threads == 0) return;  // No zone was ever entered.
 
     ThreadSpecific* main = threads_[0].load(acq);
     main->AnalyzeRemainingPackets();
@@ -506,9 +507,7 @@ class ThreadList {
       main->GetResults().Assimilate(ts->GetResults());
     }
 
-    if (num_threads != 0) {
-      main->GetResults().Print();
-    }
+    main->GetResults().Print();
   }
 
  private:
-- 
2.43.0


From 222ca605add15dc05d10676d80fbfa5874e6851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 38/45] fix: PerfCounters::Init returns false if no counter
 could be opened

---
 hwy/perf_counters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/perf_counters.cc b/hwy/perf_counters.cc
index 472d19b..4884d21 100644
--- a/hwy/perf_counters.cc
+++ b/hwy/perf_counters.cc
@@ -290,7 +290,7 @@ class PMU {
       return true;
     } else {
       HWY_WARN("No valid counters found.");
-      return true;
+      return false;
     }
   }
 
-- 
2.43.0


From c7ea5e3d717547ac6cb0ad42f8ec8ee432c0cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 39/45] fix: MakeUniqueAlignedArray constructs every item from
 the same arguments

---
 hwy/aligned_allocator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index e90723e..e2316b9 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -213,7 +213,8 @@ AlignedUniquePtr<T[]> MakeUniqueAlignedArrayWithAlloc(
   T* ptr = detail::AllocateAlignedItems<T>(items, alloc, opaque);
   if (ptr != nullptr) {
     for (size_t i = 0; i < items; i++) {
-      new (ptr + i) T(std::forward<Args>(args)...);
+      // Not forwarded: all items are constructed from the same arguments.
+      new (ptr + i) T(args...);
     }
   }
   return AlignedUniquePtr<T[]>(ptr, AlignedDeleter(free, opaque));
-- 
2.43.0


From db86b6ddd1392d374f6fce831fd4bfcd192e163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 40/45] fix: TableLookupBytes with partial table and 512-bit
 indices compiles if the lane types differ

---
 hwy/ops/x86_512-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index 5429fa9..fd9d68e 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -4840,7 +4840,7 @@ HWY_API Vec256<TI> TableLookupBytes(Vec512<T> bytes, Vec256<TI> from) {
 // Partial table vector
 template <typename T, size_t N, typename TI>
 HWY_API Vec512<TI> TableLookupBytes(Vec128<T, N> bytes, Vec512<TI> from) {
-  const DFromV<decltype(from)> d512;
+  const Full512<T> d512;
   const Half<decltype(d512)> d256;
   const Half<decltype(d256)> d128;
   // First expand to full 128, then 256, then 512.
-- 
2.43.0


From 0c73d9125776fcbdfb551235429a3b0a5ce78a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 41/45] fix: LoadN and LoadNOr of single-lane vectors never
 read past the lane if the count is constant

---
 hwy/ops/x86_128-inl.h | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 2040b97..73ce988 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -3393,10 +3393,11 @@ HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
 #define HWY_NATIVE_LOAD_N
 #endif
 
-// Generic for all vector lengths.
-template <class D, HWY_IF_T_SIZE_ONE_OF_D(
-                       D, (HWY_TARGET <= HWY_AVX3 ? ((1 << 1) | (1 << 2)) : 0) |
-                              (1 << 4) | (1 << 8))>
+// Generic for all vector lengths except single lanes, see below.
+template <class D, HWY_IF_LANES_GT_D(D, 1),
+          HWY_IF_T_SIZE_ONE_OF_D(
+              D, (HWY_TARGET <= HWY_AVX3 ? ((1 << 1) | (1 << 2)) : 0) |
+                     (1 << 4) | (1 << 8))>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
                         size_t num_lanes) {
   const FixedTag<TFromD<D>, HWY_MAX(HWY_MAX_LANES_D(D), 16 / sizeof(TFromD<D>))>
@@ -3404,10 +3405,11 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return ResizeBitCast(d, MaskedLoad(FirstN(d_full, num_lanes), d_full, p));
 }
 
-// Generic for all vector lengths.
-template <class D, HWY_IF_T_SIZE_ONE_OF_D(
-                       D, (HWY_TARGET <= HWY_AVX3 ? ((1 << 1) | (1 << 2)) : 0) |
-                              (1 << 4) | (1 << 8))>
+// Generic for all vector lengths except single lanes, see below.
+template <class D, HWY_IF_LANES_GT_D(D, 1),
+          HWY_IF_T_SIZE_ONE_OF_D(
+              D, (HWY_TARGET <= HWY_AVX3 ? ((1 << 1) | (1 << 2)) : 0) |
+                     (1 << 4) | (1 << 8))>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
   const FixedTag<TFromD<D>, HWY_MAX(HWY_MAX_LANES_D(D), 16 / sizeof(TFromD<D>))>
@@ -3416,6 +3418,26 @@ HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                                        FirstN(d_full, num_lanes), d_full, p));
 }
 
+// Single lane: there is no need for a masked load. This also prevents GCC from
+// replacing it with an unmasked load of the full vector if num_lanes is known.
+template <class D, HWY_IF_LANES_D(D, 1),
+          HWY_IF_T_SIZE_ONE_OF_D(
+              D, (HWY_TARGET <= HWY_AVX3 ? ((1 << 1) | (1 << 2)) : 0) |
+                     (1 << 4) | (1 << 8))>
+HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
+                        size_t num_lanes) {
+  return (num_lanes > 0) ? LoadU(d, p) : Zero(d);
+}
+
+template <class D, HWY_IF_LANES_D(D, 1),
+          HWY_IF_T_SIZE_ONE_OF_D(
+              D, (HWY_TARGET <= HWY_AVX3 ? ((1 << 1) | (1 << 2)) : 0) |
+                     (1 << 4) | (1 << 8))>
+HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
+                          size_t num_lanes) {
+  return (num_lanes > 0) ? LoadU(d, p) : no;
+}
+
 #if HWY_TARGET > HWY_AVX3
 namespace detail {
 
-- 
2.43.0


From 0916d614712f769ab5735ee74abffbc63830cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 42/45] fix: NearestInt of f64 at most half below 2^52 is not
 zero for 256-bit vectors

---
 hwy/ops/x86_128-inl.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 73ce988..635c4a1 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -11960,10 +11960,13 @@ static HWY_INLINE VFromD<DI64> SSE2NearestI64InRange(
   const VI64 shift_int = adj_v_biased_exp + Set(di64, int64_t{-1075});
 
   const VI64 mantissa = BitCast(di64, adj_v) & Set(di64, (1LL << 52) - 1);
-  // Include implicit 1-bit if is_small[i] is 0. NOTE: the shift count may
-  // exceed 63; we rely on x86 returning zero in that case.
-  const VI64 int53 = mantissa | IfThenZeroElse(RebindMask(di64, is_small),
-                                               Set(di64, 1LL << 52));
+  // Include implicit 1-bit if is_small[i] is 0. If is_small[i], the mantissa is
+  // already the integer, unless adj_v[i] was rounded up to 2^53: then it is zero
+  // and shift_int[i] is 1 instead of 0. NOTE: the shift count may exceed 63; we
+  // rely on x86 returning zero in that case.
+  const VI64 int53 =
+      mantissa | IfThenElse(RebindMask(di64, is_small),
+                            ShiftLeft<51>(shift_int), Set(di64, 1LL << 52));
 
   const VI64 sign_mask = BroadcastSignBit(BitCast(di64, v));
   // If the input was negative, negate the integer (two's complement).
-- 
2.43.0


From de75a888acce74afab6617a1aa31861bff305820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:43 +0000
Subject: [PATCH 43/45] fix: EMU128 ReduceSum of signed integers wraps around
 instead of overflowing

Adding signed lanes with += is undefined behaviour when the sum exceeds the
lane type; use the same wraparound addition as Add.
---
 hwy/ops/emu128-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index ebddabb..1d6737d 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -2922,7 +2922,8 @@ template <class D, typename T = TFromD<D>, HWY_IF_REDUCE_D(D)>
 HWY_API T ReduceSum(D d, VFromD<D> v) {
   T sum = T{0};
   for (size_t i = 0; i < MaxLanes(d); ++i) {
-    sum += v.raw[i];
+    // As for `Add`, signed integers wrap around instead of overflowing.
+    sum = AddWithWraparound(sum, v.raw[i]);
   }
   return sum;
 }
-- 
2.43.0


From 0ac89f6dbf1aa1f864b217f30a76dbfc5bd912c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:46 +0000
Subject: [PATCH 44/45] fix: SCALAR ZipLower of signed lanes concatenates the
 bits, also if the lower lane is negative

Adding a sign-extended lower half borrowed from the upper half, and shifting a
negative upper half is undefined behaviour before C++20.
---
 hwy/ops/scalar-inl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 3ff2ded..3353218 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1911,18 +1911,24 @@ HWY_API Vec1<uint64_t> ZipLower(Vec1<uint32_t> a, Vec1<uint32_t> b) {
   return Vec1<uint64_t>((uint64_t{b.raw} << 32) + a.raw);
 }
 HWY_API Vec1<int16_t> ZipLower(Vec1<int8_t> a, Vec1<int8_t> b) {
-  return Vec1<int16_t>(static_cast<int16_t>((int32_t{b.raw} << 8) + a.raw));
+  return Vec1<int16_t>(
+      static_cast<int16_t>((uint32_t{static_cast<uint8_t>(b.raw)} << 8) +
+                           static_cast<uint8_t>(a.raw)));
 }
 HWY_API Vec1<int32_t> ZipLower(Vec1<int16_t> a, Vec1<int16_t> b) {
-  return Vec1<int32_t>((int32_t{b.raw} << 16) + a.raw);
+  return Vec1<int32_t>(
+      static_cast<int32_t>((uint32_t{static_cast<uint16_t>(b.raw)} << 16) +
+                           static_cast<uint16_t>(a.raw)));
 }
 HWY_API Vec1<int64_t> ZipLower(Vec1<int32_t> a, Vec1<int32_t> b) {
-  return Vec1<int64_t>((int64_t{b.raw} << 32) + a.raw);
+  return Vec1<int64_t>(
+      static_cast<int64_t>((uint64_t{static_cast<uint32_t>(b.raw)} << 32) +
+                           static_cast<uint32_t>(a.raw)));
 }
 
 template <class DW, typename TW = TFromD<DW>, typename TN = MakeNarrow<TW>>
 HWY_API Vec1<TW> ZipLower(DW /* tag */, Vec1<TN> a, Vec1<TN> b) {
-  return Vec1<TW>(static_cast<TW>((TW{b.raw} << (sizeof(TN) * 8)) + a.raw));
+  return ZipLower(a, b);
 }
 
 // ================================================== MASK
-- 
2.43.0


From 444a621fca1cb6e31aa57894ea553187c8660f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:46 +0000
Subject: [PATCH 45/45] fix: SCALAR ReorderWidenMulAccumulate of signed lanes
 wraps around instead of overflowing

Adding int32_t with + is undefined behaviour when the sum overflows; the vector
addition wraps around as on other targets.
---
 hwy/ops/scalar-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 3353218..0023f96 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -2148,7 +2148,8 @@ HWY_API Vec1<int32_t> ReorderWidenMulAccumulate(D32 /* tag */, Vec1<int16_t> a,
                                                 Vec1<int16_t> b,
                                                 const Vec1<int32_t> sum0,
                                                 Vec1<int32_t>& /* sum1 */) {
-  return Vec1<int32_t>(a.raw * b.raw + sum0.raw);
+  // As for `Add`, the sum wraps around instead of overflowing.
+  return Vec1<int32_t>(a.raw * b.raw) + sum0;
 }
 
 template <class DU32, HWY_IF_U32_D(DU32)>
-- 
2.43.0

