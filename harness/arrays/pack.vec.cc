#include "hwy/highway.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "arr.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
// m: 0 = pack p[1] -> p[0], 1 = unpack p[1] -> p[0].
template <template <size_t> class P, size_t kBits, class D> struct Small { static void Fn(Call& c) {
  using T = hn::TFromD<D>; const P<kBits> f; const T* in = static_cast<const T*>(c.p[1]); T* out = static_cast<T*>(c.p[0]);
  if (c.m == 0) f.Pack(D(), in, out); else f.Unpack(D(), in, out);
} };
template <template <size_t> class P, size_t kBits, class D, hn::BlockPackingType kB> struct Large { static void Fn(Call& c) {
  using T = hn::TFromD<D>; const P<kBits> f; const T* in = static_cast<const T*>(c.p[1]); T* out = static_cast<T*>(c.p[0]); const T ref = static_cast<T>(c.bits[0]);
  if (c.m == 0) f.template Pack<D, kB>(D(), in, out, ref); else f.template Unpack<D, kB>(D(), in, out, ref);
} };
static void Add(const char* op, int ty, size_t lanes, bool capped, size_t bits, bool fr, void (*fn)(Call&)) { ArrFn f{op, hwy::TargetName(HWY_TARGET), ty, lanes, capped, fn}; f.ty2 = fr; f.arg = int(bits); ArrFns().push_back(f); }
template <class T> using Cap = hn::CappedTag<T, 16 / sizeof(T)>;
template <template <size_t> class P, class T, size_t kBits> struct RegS { static void Go(const char* op, int ty) {
  RegS<P, T, kBits - 1>::Go(op, ty); using D = hn::ScalableTag<T>; Add(op, ty, hn::Lanes(D()), false, kBits, false, &Small<P, kBits, D>::Fn);
  
#if HWY_TARGET != HWY_SCALAR
  using C = Cap<T>; Add(op, ty, hn::Lanes(C()), true, kBits, false, &Small<P, kBits, C>::Fn);
#endif
 } };
template <template <size_t> class P, class T> struct RegS<P, T, 0> { static void Go(const char*, int) {} };
template <template <size_t> class P, class T, size_t kBits> struct RegL { static void Go(const char* op, int ty) {
  RegL<P, T, kBits - 1>::Go(op, ty); using D = hn::ScalableTag<T>; Add(op, ty, hn::Lanes(D()), false, kBits, false, &Large<P, kBits, D, hn::kBitPacked>::Fn); if constexpr (kBits % 8 == 5 || kBits % 32 <= 1 || kBits % 32 == 31 || kBits == 48) Add(op, ty, hn::Lanes(D()), false, kBits, true, &Large<P, kBits, D, hn::kFoRBitPacked>::Fn);
  if constexpr (HWY_TARGET != HWY_SCALAR && kBits == 21) { using C = Cap<T>; Add(op, ty, hn::Lanes(C()), true, kBits, true, &Large<P, kBits, C, hn::kFoRBitPacked>::Fn); } } };
template <template <size_t> class P, class T> struct RegL<P, T, 0> { static void Go(const char*, int) {} };
static const int kInit = [] {
#if HWY_TARGET != HWY_SCALAR  // uses 16-bit shifts of 8-bit lanes
  RegS<hn::Pack8, uint8_t, 8>::Go("Pack8", U8);
#endif
  RegS<hn::Pack16, uint16_t, 16>::Go("Pack16", U16); RegL<hn::Pack32, uint32_t, 32>::Go("Pack32", U32); RegL<hn::Pack64, uint64_t, 64>::Go("Pack64", U64);
  return 0;
}();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
