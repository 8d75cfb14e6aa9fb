#include "hwy/highway.h"
#include "hwy/contrib/math/math-inl.h"
#include "math.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
template <int kFn, class D> static void Run(const void* av, const void* bv, void* ov, size_t n, bool call) {
  const D d; using T = hn::TFromD<D>; using V = hn::Vec<D>; const size_t N = hn::Lanes(d);
  const T* a = static_cast<const T*>(av); const T* b = static_cast<const T*>(bv); T* o = static_cast<T*>(ov);
  for (size_t i = 0; i < n; i += N) {
    const V x = hn::LoadU(d, a + i); V r = x; (void)b;
#define CASE(F) if constexpr (kFn == k##F) r = call ? hn::Call##F(d, x) : hn::F(d, x);
    CASE(Acos) CASE(Acosh) CASE(Asin) CASE(Asinh) CASE(Atan) CASE(Atanh) CASE(Cos) CASE(Exp) CASE(Exp2) CASE(Expm1) CASE(Log) CASE(Log10) CASE(Log1p) CASE(Log2) CASE(Sin) CASE(Sinh) CASE(Tanh)
    if constexpr (kFn == kSinOfSinCos || kFn == kCosOfSinCos) { V s, c; if (call) hn::CallSinCos(d, x, s, c); else hn::SinCos(d, x, s, c); r = kFn == kSinOfSinCos ? s : c; }
#define CASE2(F) if constexpr (kFn == k##F) { const V y = hn::LoadU(d, b + i); r = call ? hn::Call##F(d, x, y) : hn::F(d, x, y); }
    CASE2(Atan2) CASE2(Hypot)
    hn::StoreU(r, d, o + i);
  }
}
template <class D, int... I> static void Reg(D d, bool capped, std::integer_sequence<int, I...>) {
  const int unused[] = {(MathApis().push_back({I, hwy::TargetName(HWY_TARGET), sizeof(hn::TFromD<D>) == 8, hn::Lanes(d), capped, Run<I, D>}), 0)...}; (void)unused;
}
static const int kInit = [] {
  const std::make_integer_sequence<int, kMathFns> all;
  Reg(hn::ScalableTag<float>(), false, all); Reg(hn::CappedTag<float, 2>(), true, all);
#if HWY_HAVE_FLOAT64
  Reg(hn::ScalableTag<double>(), false, all); Reg(hn::CappedTag<double, 1>(), true, all);
#endif
  return 0;
}();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
