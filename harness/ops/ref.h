// Scalar reference helpers. Baseline ISA only.
#ifndef VERIF_OPS_REF_H_
#define VERIF_OPS_REF_H_
#include <algorithm>
#include <limits>
#include <float.h>
#include "core.h"
#include "lists.h"
namespace vt {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
using f32 = float; using f64 = double; using f16 = RF16; using bf16 = RBF16;
using i128 = __int128; using u128 = unsigned __int128;
template <typename T> constexpr bool IsF() { return std::is_floating_point<T>::value; }
template <typename T> constexpr bool IsS() { return std::is_signed<T>::value && !IsF<T>(); }
template <typename T> struct WideOf;
template <> struct WideOf<u8> { using T = u16; }; template <> struct WideOf<u16> { using T = u32; };
template <> struct WideOf<u32> { using T = u64; }; template <> struct WideOf<i8> { using T = i16; };
template <> struct WideOf<i16> { using T = i32; }; template <> struct WideOf<i32> { using T = i64; };
template <> struct WideOf<f32> { using T = f64; };
template <typename T> using Wide = typename WideOf<T>::T;
template <typename T> T LMin() { return std::numeric_limits<T>::lowest(); }
template <typename T> T LMax() { return std::numeric_limits<T>::max(); }
template <typename T> T Sat(i128 v) {
  return v < i128(LMin<T>()) ? LMin<T>() : v > i128(LMax<T>()) ? LMax<T>() : T(v);
}
template <typename T> UOf<T> UAdd(T a, T b) { return UOf<T>(UOf<T>(a) + UOf<T>(b)); }
template <typename T> UOf<T> UMul(T a, T b) { return UOf<T>(u64(UOf<T>(a)) * u64(UOf<T>(b))); }

// Wrapping scalar arithmetic for ints, IEEE for floats.
template <typename T> T ad(T a, T b) { if constexpr (IsF<T>()) return a + b; else return T(UAdd(a, b)); }
template <typename T> T sb(T a, T b) { if constexpr (IsF<T>()) return a - b; else return T(UOf<T>(UOf<T>(a) - UOf<T>(b))); }
template <typename T> T ml(T a, T b) { if constexpr (IsF<T>()) return a * b; else return T(UMul(a, b)); }
template <typename T> T ng(T a) { if constexpr (IsF<T>()) return -a; else return T(UOf<T>(0 - UOf<T>(a))); }
template <typename T> T fm(T a, T b, T c) { if constexpr (IsF<T>()) return std::fma(a, b, c); else return ad(ml(a, b), c); }
template <typename T> bool nan_(T a) { if constexpr (IsF<T>()) return a != a; else return false; }

template <typename T> struct In {
  size_t N; const uint8_t* const* in; R& r;
  template <typename X> const X* P(int k) const { return reinterpret_cast<const X*>(in[k]); }
  T a(size_t i) const { return P<T>(0)[i]; }
  T b(size_t i) const { return P<T>(1)[i]; }
  T c(size_t i) const { return P<T>(2)[i]; }
  T e(size_t i) const { return P<T>(3)[i]; }
  bool m(size_t i) const { return P<UOf<T>>(4)[i] & 1; }
  bool m2(size_t i) const { return (P<UOf<T>>(4)[i] >> 1) & 1; }
  size_t BlockLanes() const { return std::min<size_t>(N, 16 / sizeof(T)); }
};

#define ROP(NAME, ...)                                                             \
  struct R_##NAME { template <class T> static void Run(In<T> x) {                  \
      const size_t N = x.N; R& r = x.r; (void)N; (void)r; using TU = UOf<T>;      \
      using TI = typename std::conditional<sizeof(T) == 1, i8, typename std::conditional<sizeof(T) == 2, i16, \
          typename std::conditional<sizeof(T) == 4, i32, i64>::type>::type>::type; (void)sizeof(TU); (void)sizeof(TI); __VA_ARGS__ } };
// Lane-wise: `v = expr` per lane.
#define ROPL(NAME, ...) ROP(NAME, for (size_t i = 0; i < N; ++i) { const T a = x.a(i), b = x.b(i), c = x.c(i), e = x.e(i); \
    const bool m = x.m(i), m2 = x.m2(i); (void)a; (void)b; (void)c; (void)e; (void)m; (void)m2; __VA_ARGS__ })
template <class RR, class T> void RefWrap(size_t N, const uint8_t* const* in, R& r) { RR::Run(In<T>{N, in, r}); }
#define REFX(NAME, TY, GEN) RefCases().push_back({#NAME, TyOf<TY>::v, GEN, false, &RefWrap<R_##NAME, TY>});
}  // namespace vt
#endif
