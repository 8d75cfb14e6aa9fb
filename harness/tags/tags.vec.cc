#include "hwy/highway.h"
#include "hwy/print-inl.h"
#include "tags.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
static const char* const kT = hwy::TargetName(HWY_TARGET);
template <class T> static constexpr int TyId() {
  return hwy::IsSame<T, hwy::bfloat16_t>() ? BF16 : hwy::IsSame<T, hwy::float16_t>() ? F16 : hwy::IsSame<T, float>() ? F32 : hwy::IsSame<T, double>() ? F64
       : (hwy::IsSigned<T>() ? I8 : U8) + (sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3);
}
alignas(64) static uint8_t buf_a[512], buf_b[512], src[512];
template <class D, bool kU> static long Written() {
  const D d; const hn::RebindToUnsigned<D> du; using TU = hn::TFromD<decltype(du)>; long r = 0; bool hole = false;
  const size_t off = kU ? sizeof(TU) : 0; memset(buf_a, 0x5A, sizeof(buf_a)); memset(buf_b, 0xA5, sizeof(buf_b));
  const auto v = hn::BitCast(d, hn::Set(du, TU(0xC3)));
  if (kU) { hn::StoreU(v, d, reinterpret_cast<hn::TFromD<D>*>(buf_a + off)); hn::StoreU(v, d, reinterpret_cast<hn::TFromD<D>*>(buf_b + off)); }
  else { hn::Store(v, d, reinterpret_cast<hn::TFromD<D>*>(buf_a + off)); hn::Store(v, d, reinterpret_cast<hn::TFromD<D>*>(buf_b + off)); }
  for (size_t i = 0; i < sizeof(buf_a); ++i) { const bool w = buf_a[i] != 0x5A || buf_b[i] != 0xA5; if (w && (hole || i < off)) return -2; if (w) ++r; else if (i >= off) hole = true; }
  return r;
}
// Lanes that a load picks up: everything the vector holds is stored back as bytes and compared with the source.
template <class D> static long Loaded() {
  const D d; for (size_t i = 0; i < sizeof(src); ++i) src[i] = uint8_t(i * 37 + i / 251 * 11 + 1); memset(buf_a, 0, sizeof(buf_a));
  hn::StoreU(hn::LoadU(d, reinterpret_cast<const hn::TFromD<D>*>(src + 8)), d, reinterpret_cast<hn::TFromD<D>*>(buf_a));
  long n = 0; while (size_t(n) < 400 && buf_a[n] == src[n + 8] && buf_a[n]) ++n; return n;
}
template <class D, bool kStore = (D().MaxBytes() <= (HWY_TARGET == HWY_SCALAR ? sizeof(hn::TFromD<D>) : size_t(HWY_MAX_BYTES)))> struct Measure {
  static void Go(TagRow& r) { r.stored = Written<D, false>(); r.stored_u = Written<D, true>(); r.loaded = Loaded<D>(); }
};
template <class D> struct Measure<D, false> { static void Go(TagRow&) {} };
template <class D> static void Rec(int form, long a, int p, int base_ty, size_t base_lanes, int base_pow2, D d) {
  TagRow r{}; r.target = kT; r.form = form; r.ty = TyId<hn::TFromD<D>>(); r.base_ty = base_ty; r.a = a; r.p = p; r.base_lanes = base_lanes; r.base_pow2 = base_pow2;
  r.lanes = hn::Lanes(d); r.max_lanes = hn::MaxLanes(d); r.d_max_lanes = d.MaxLanes(); r.macro_lanes = HWY_MAX_LANES_D(D); r.max_bytes = d.MaxBytes(); r.max_blocks = d.MaxBlocks(); r.pow2 = d.Pow2(); r.stored = r.stored_u = r.loaded = -1;
  Measure<D>::Go(r); const size_t b = r.lanes * sizeof(hn::TFromD<D>); r.aligned_ok = true; using T = hn::TFromD<D>;
  for (size_t o = 0; o < 4 * b && o < 300; o += sizeof(T)) r.aligned_ok &= hn::IsAligned(d, reinterpret_cast<T*>(uintptr_t(4096 + o))) == (o % b == 0);
  TagRows().push_back(r);
}
template <class T2, class D> static void Der(D d) {
  using T = hn::TFromD<D>; const int bt = TyId<T>(); const size_t bl = hn::Lanes(d); const int bp = d.Pow2();
  Rec(kRebind, 0, 0, bt, bl, bp, hn::Rebind<T2, D>()); Rec(kRepartition, 0, 0, bt, bl, bp, hn::Repartition<T2, D>());
}
template <bool kVec> struct FromV { template <class D> static void Go(D d) { using T = hn::TFromD<D>; using V = hn::VFromD<D>; Rec(kFromV, 0, 0, TyId<T>(), hn::Lanes(d), d.Pow2(), hn::DFromV<V>()); } };
template <> struct FromV<false> { template <class D> static void Go(D) {} };
template <class D> static void Derived(D d) {
  using T = hn::TFromD<D>; const int bt = TyId<T>(); const size_t bl = hn::Lanes(d); const int bp = d.Pow2();
  Rec(kHalf, 0, 0, bt, bl, bp, hn::Half<D>()); Rec(kTwice, 0, 0, bt, bl, bp, hn::Twice<D>()); Rec(kTwice, 1, 0, bt, bl, bp, hn::Twice<hn::Half<D>>()); Rec(kBlock, 0, 0, bt, bl, bp, hn::BlockDFromD<D>());
  Der<uint8_t>(d); Der<uint16_t>(d); Der<uint32_t>(d); Der<uint64_t>(d); Der<int8_t>(d); Der<int16_t>(d); Der<int32_t>(d); Der<int64_t>(d); Der<float>(d); Der<hwy::float16_t>(d); Der<hwy::bfloat16_t>(d); Der<double>(d);
  FromV<(D().MaxBytes() <= (HWY_TARGET == HWY_SCALAR ? sizeof(T) : size_t(HWY_MAX_BYTES)))>::Go(d);
}
template <class T, size_t K, int P> static void Capped() { Rec(kCapped, long(K), P, -1, 0, 0, hn::CappedTag<T, K, P>()); Rec(kCappedIfFixed, long(K), P, -1, 0, 0, hn::CappedTagIfFixed<T, K, P>()); if constexpr (P == 0) Derived(hn::CappedTag<T, K, P>()); }
template <class T, int P> static void CappedP() { Capped<T, 1, P>(); Capped<T, 2, P>(); Capped<T, 3, P>(); Capped<T, 4, P>(); Capped<T, 7, P>(); Capped<T, 8, P>(); Capped<T, 16, P>(); Capped<T, 31, P>(); Capped<T, 32, P>(); Capped<T, 64, P>(); Capped<T, 1000, P>(); }
template <class T, int P> static void Scal() { const hn::ScalableTag<T, P> d; Rec(kScalable, 0, P, -1, 0, 0, d); if constexpr (P == 0 || HWY_TARGET != HWY_SCALAR) Derived(d); }
template <class T, size_t K, bool kOk = (K <= HWY_LANES(T))> struct FixedOf { static void Go() { const hn::FixedTag<T, K> d; Rec(kFixed, long(K), 0, -1, 0, 0, d); Derived(d); } };
template <class T, size_t K> struct FixedOf<T, K, false> { static void Go() {} };
template <class T> static void Fulls() {
#if HWY_TARGET != HWY_SCALAR
  if constexpr (sizeof(T) <= 2) Rec(kFull, 2, 0, -1, 0, 0, hn::Full16<T>()); if constexpr (sizeof(T) <= 4) Rec(kFull, 4, 0, -1, 0, 0, hn::Full32<T>()); Rec(kFull, 8, 0, -1, 0, 0, hn::Full64<T>()); Rec(kFull, 16, 0, -1, 0, 0, hn::Full128<T>());
#endif
}
template <class T> static void PrintV(const uint8_t* bytes, const char* caption, size_t lane, size_t max) { const hn::ScalableTag<T> d; hn::Print(d, caption, hn::LoadU(d, reinterpret_cast<const T*>(bytes)), lane, max); }
template <class T> static void Type() {
  Scal<T, -3>(); Scal<T, -2>(); Scal<T, -1>(); Scal<T, 0>(); Scal<T, 1>(); Scal<T, 3>(); CappedP<T, -3>(); CappedP<T, -1>(); CappedP<T, 0>(); CappedP<T, 2>();
  FixedOf<T, 1>::Go(); FixedOf<T, 2>::Go(); FixedOf<T, 4>::Go(); FixedOf<T, 8>::Go(); FixedOf<T, 16>::Go(); FixedOf<T, 32>::Go(); FixedOf<T, 64>::Go(); Fulls<T>();
  TagPrints().push_back({kT, TyId<T>(), hn::Lanes(hn::ScalableTag<T>()), &PrintV<T>});
}
static void Collect() {
  TargetRows().push_back({kT, int64_t(HWY_TARGET), size_t(HWY_MAX_BYTES), hwy::TargetName(HWY_TARGET), HWY_HAVE_FLOAT16, HWY_HAVE_FLOAT64, HWY_HAVE_INTEGER64});
  Type<uint8_t>(); Type<uint16_t>(); Type<uint32_t>(); Type<uint64_t>(); Type<int8_t>(); Type<int16_t>(); Type<int32_t>(); Type<int64_t>(); Type<float>(); Type<double>(); Type<hwy::float16_t>(); Type<hwy::bfloat16_t>();
}
static int reg = (Collectors().push_back({kT, &Collect}), 0);
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
