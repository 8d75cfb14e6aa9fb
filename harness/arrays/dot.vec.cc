#include "hwy/highway.h"
#include "hwy/contrib/dot/dot-inl.h"
#include "hwy/contrib/matvec/matvec-inl.h"
#include "arr.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
template <class TR> static void Ret(Call& c, TR r) { c.ret = 0; memcpy(&c.ret, &r, sizeof r); }
template <int kA, class D, class TB> struct DotK { static void Fn(Call& c) { using T = hn::TFromD<D>; Ret(c, hn::Dot::Compute<kA>(D(), static_cast<const T*>(c.p[1]), static_cast<const TB*>(c.p[2]), c.n)); } };
template <int kA, class D, class TB> static void RegD(int a, int b, int r, bool capped) {
  ArrFn f{"Dot", hwy::TargetName(HWY_TARGET), a, hn::Lanes(D()), capped, &DotK<kA, D, TB>::Fn}; f.ty2 = b; f.ty3 = r; f.arg = kA; ArrFns().push_back(f);
}
template <class D, class TB> static void RegAll(int a, int b, int r, bool capped) {
  RegD<0, D, TB>(a, b, r, capped); RegD<1, D, TB>(a, b, r, capped); RegD<2, D, TB>(a, b, r, capped); RegD<3, D, TB>(a, b, r, capped);
  RegD<4, D, TB>(a, b, r, capped); RegD<5, D, TB>(a, b, r, capped); RegD<6, D, TB>(a, b, r, capped); RegD<7, D, TB>(a, b, r, capped);
}
template <class T, class TB = T> static void Both(int a, int b, int r) {
  RegAll<hn::ScalableTag<T>, TB>(a, b, r, false);
#if HWY_TARGET != HWY_SCALAR
  RegAll<hn::CappedTag<T, 16 / sizeof(T)>, TB>(a, b, r, true);
#endif
}
template <size_t kO, size_t kI, bool kAdd, class TM, class TV, class TO> struct MV;
template <size_t kO, size_t kI, class T> struct MV<kO, kI, true, T, T, T> { static void Fn(Call& c) { hn::MatVecAdd<kO, kI, T>(static_cast<const T*>(c.p[1]), static_cast<const T*>(c.p[2]), static_cast<const T*>(c.p[3]), static_cast<T*>(c.p[0]), *static_cast<hwy::ThreadPool*>(c.user)); } };
template <size_t kO, size_t kI, class T> struct MV<kO, kI, false, T, T, T> { static void Fn(Call& c) { hn::MatVec<kO, kI, T>(static_cast<const T*>(c.p[1]), static_cast<const T*>(c.p[2]), static_cast<T*>(c.p[0]), *static_cast<hwy::ThreadPool*>(c.user)); } };
#if HWY_TARGET != HWY_SCALAR
template <size_t kO, size_t kI, class TV> struct MV<kO, kI, true, hwy::bfloat16_t, TV, float> { static void Fn(Call& c) { hn::MatVecAdd<kO, kI>(static_cast<const hwy::bfloat16_t*>(c.p[1]), static_cast<const TV*>(c.p[2]), static_cast<const TV*>(c.p[3]), static_cast<float*>(c.p[0]), *static_cast<hwy::ThreadPool*>(c.user)); } };
template <size_t kO, size_t kI, class TV> struct MV<kO, kI, false, hwy::bfloat16_t, TV, float> { static void Fn(Call& c) { hn::MatVec<kO, kI>(static_cast<const hwy::bfloat16_t*>(c.p[1]), static_cast<const TV*>(c.p[2]), static_cast<float*>(c.p[0]), *static_cast<hwy::ThreadPool*>(c.user)); } };
#endif
template <size_t kO, size_t kI, bool kAdd, class TM, class TV, class TO> static void RegMV(int a, int b, int r) {
  ArrFn f{kAdd ? "MatVecAdd" : "MatVec", hwy::TargetName(HWY_TARGET), a, kO, false, &MV<kO, kI, kAdd, TM, TV, TO>::Fn}; f.ty2 = b; f.ty3 = r; f.arg = int(kI); ArrFns().push_back(f);
}
template <class TM, class TV, class TO> static void Shapes(int a, int b, int r) {
  RegMV<1, 1, true, TM, TV, TO>(a, b, r); RegMV<3, 5, false, TM, TV, TO>(a, b, r); RegMV<16, 16, true, TM, TV, TO>(a, b, r); RegMV<17, 3, true, TM, TV, TO>(a, b, r); RegMV<32, 64, false, TM, TV, TO>(a, b, r);
  RegMV<33, 31, true, TM, TV, TO>(a, b, r); RegMV<65, 65, false, TM, TV, TO>(a, b, r); RegMV<100, 129, true, TM, TV, TO>(a, b, r); RegMV<47, 255, false, TM, TV, TO>(a, b, r);
}
static const int kInit = [] {
  Both<float>(F32, F32, F32);
#if HWY_HAVE_FLOAT64
  Both<double>(F64, F64, F64); Shapes<double, double, double>(F64, F64, F64);
#endif
#if HWY_HAVE_FLOAT16
  Both<hwy::float16_t>(F16, F16, F16);
#endif
  Both<float, hwy::bfloat16_t>(F32, BF16, F32); Both<hwy::bfloat16_t>(BF16, BF16, F32); Both<int16_t>(I16, I16, I32);
  Shapes<float, float, float>(F32, F32, F32);
#if HWY_TARGET != HWY_SCALAR
  Shapes<hwy::bfloat16_t, float, float>(BF16, F32, F32); Shapes<hwy::bfloat16_t, hwy::bfloat16_t, float>(BF16, BF16, F32);
#endif
  return 0;
}();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
