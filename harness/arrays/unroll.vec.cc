#include "hwy/highway.h"
#include "hwy/contrib/unroller/unroller-inl.h"
#include "arr.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
template <class T> struct TyOf;
#define TY(T, E) template <> struct TyOf<T> { static const int v = E; };
TY(uint8_t, U8) TY(uint16_t, U16) TY(uint32_t, U32) TY(uint64_t, U64) TY(int8_t, I8) TY(int16_t, I16) TY(int32_t, I32) TY(int64_t, I64) TY(float, F32) TY(double, F64)
template <class TO, class D, class V, hwy::EnableIf<(sizeof(TO) > sizeof(hn::TFromD<D>))>* = nullptr> HWY_INLINE hn::Vec<hn::Rebind<TO, D>> Cvt(D, V v) { return hn::PromoteTo(hn::Rebind<TO, D>(), v); }
template <class TO, class D, class V, hwy::EnableIf<(sizeof(TO) < sizeof(hn::TFromD<D>))>* = nullptr> HWY_INLINE hn::Vec<hn::Rebind<TO, D>> Cvt(D, V v) { return hn::DemoteTo(hn::Rebind<TO, D>(), v); }
template <class TO, class D, class V, hwy::EnableIf<(sizeof(TO) == sizeof(hn::TFromD<D>) && !hwy::IsSame<TO, hn::TFromD<D>>())>* = nullptr> HWY_INLINE hn::Vec<hn::Rebind<TO, D>> Cvt(D, V v) { return hn::ConvertTo(hn::Rebind<TO, D>(), v); }
template <class TO, class D, class V, hwy::EnableIf<(hwy::IsSame<TO, hn::TFromD<D>>())>* = nullptr> HWY_INLINE V Cvt(D, V v) { return v; }
// Stores nothing itself: state for reducers.
// y[i] = TO(x[i]) + i
template <class TI, class TO> struct MapU : hn::UnrollerUnit<MapU<TI, TO>, TI, TO> {
  using B = hn::UnrollerUnit<MapU<TI, TO>, TI, TO>; using IT = typename B::IT; using OT = typename B::OT;
  hn::Vec<OT> Func(ptrdiff_t idx, const hn::Vec<IT> x, const hn::Vec<OT>) { OT d; return hn::Add(Cvt<TO>(IT(), x), hn::Iota(d, static_cast<TO>(idx))); }
};
// y[i] = x0[i] - x1[i] + i
template <class TA, class TB, class TO> struct Map2U : hn::UnrollerUnit2D<Map2U<TA, TB, TO>, TA, TB, TO> {
  using B = hn::UnrollerUnit2D<Map2U<TA, TB, TO>, TA, TB, TO>; using OT = typename B::OT; using I0 = typename B::I0T; using I1 = typename B::I1T;
  hn::Vec<OT> Func(ptrdiff_t idx, const hn::Vec<I0> a, const hn::Vec<I1> b, const hn::Vec<OT>) { OT d; return hn::Add(hn::Sub(Cvt<TO>(I0(), a), Cvt<TO>(I1(), b)), hn::Iota(d, static_cast<TO>(idx))); }
};
#define NOSTORE(TO, V)                                                                      \
  bool StoreAndShortCircuitImpl(const ptrdiff_t, TO*, const V) { return true; }             \
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, TO*, const V, const ptrdiff_t) { return 0; }
template <class T> struct SumU : hn::UnrollerUnit<SumU<T>, T, T> {
  using B = hn::UnrollerUnit<SumU<T>, T, T>; using D = typename B::OT; using V = hn::Vec<D>;
  V Func(ptrdiff_t, const V x, const V y) { return hn::Add(x, y); }
  NOSTORE(T, V)
  ptrdiff_t ReduceImpl(const V x, T* to) { *to = hn::ReduceSum(D(), x); return 1; }
  void ReduceImpl(const V a, const V b, const V c, V* y) { *y = hn::Add(hn::Add(*y, a), hn::Add(b, c)); }
};
template <class T> struct MinU : hn::UnrollerUnit<MinU<T>, T, T> {
  using B = hn::UnrollerUnit<MinU<T>, T, T>; using D = typename B::OT; using V = hn::Vec<D>;
  V Func(ptrdiff_t, const V x, const V y) { return hn::Min(x, y); }
  V YInitImpl() { return hn::Set(D(), hwy::HighestValue<T>()); }
  V MaskLoadImpl(const ptrdiff_t idx, const T* from, const ptrdiff_t places) {
    D d; auto m = places < 0 ? hn::Not(hn::FirstN(d, size_t(places + ptrdiff_t(B::ActualLanes())))) : hn::FirstN(d, size_t(places));
    return hn::MaskedLoadOr(YInitImpl(), m, d, from + idx);
  }
  NOSTORE(T, V)
  ptrdiff_t ReduceImpl(const V x, T* to) { *to = hn::ReduceMin(D(), x); return 1; }
  void ReduceImpl(const V a, const V b, const V c, V* y) { *y = hn::Min(hn::Min(*y, a), hn::Min(b, c)); }
};
template <class TA, class TB, class TO> struct DotU : hn::UnrollerUnit2D<DotU<TA, TB, TO>, TA, TB, TO> {
  using B = hn::UnrollerUnit2D<DotU<TA, TB, TO>, TA, TB, TO>; using D = typename B::OT; using V = hn::Vec<D>; using I0 = typename B::I0T; using I1 = typename B::I1T;
  V Func(ptrdiff_t, const hn::Vec<I0> a, const hn::Vec<I1> b, const V y) { return hn::Add(hn::Mul(Cvt<TO>(I0(), a), Cvt<TO>(I1(), b)), y); }
  NOSTORE(TO, V)
  ptrdiff_t ReduceImpl(const V x, TO* to) { *to = hn::ReduceSum(D(), x); return 1; }
  void ReduceImpl(const V a, const V b, const V c, V* y) { *y = hn::Add(hn::Add(*y, a), hn::Add(b, c)); }
};
// Index of the first element equal to |k|, else -1. Stops at the first hit.
template <class TI, class TO> struct FindU : hn::UnrollerUnit<FindU<TI, TO>, TI, TO> {
  using B = hn::UnrollerUnit<FindU<TI, TO>, TI, TO>; using IT = typename B::IT; using OT = typename B::OT; using X = hn::Vec<IT>; using Y = hn::Vec<OT>;
  TI k; size_t calls = 0; explicit FindU(TI kk) : k(kk) {}
  X Other() { return hn::Set(IT(), static_cast<TI>(k + TI(1))); }
  X X0InitImpl() { return Other(); }
  Y YInitImpl() { return hn::Set(OT(), TO(-1)); }
  Y Func(ptrdiff_t idx, const X x, const Y y) { const intptr_t f = hn::FindFirstTrue(IT(), hn::Eq(x, hn::Set(IT(), k))); return f >= 0 ? hn::Set(OT(), static_cast<TO>(idx + f)) : y; }
  X MaskLoadImpl(const ptrdiff_t idx, const TI* from, const ptrdiff_t places) {
    IT d; auto m = places < 0 ? hn::Not(hn::FirstN(d, size_t(places + ptrdiff_t(B::ActualLanes())))) : hn::FirstN(d, size_t(places));
    return hn::IfThenElse(m, hn::MaskedLoad(m, d, from + idx), Other());
  }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, TO* to, const Y y) { to[0] = hn::GetLane(y); return to[0] == TO(-1); }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, TO* to, const Y y, const ptrdiff_t) { to[0] = hn::GetLane(y); return 1; }
};
// Index of the first position where the arrays differ, else -1.
template <class T, class TO> struct MismatchU : hn::UnrollerUnit2D<MismatchU<T, TO>, T, T, TO> {
  using B = hn::UnrollerUnit2D<MismatchU<T, TO>, T, T, TO>; using IT = typename B::I0T; using OT = typename B::OT; using X = hn::Vec<IT>; using Y = hn::Vec<OT>;
  Y YInitImpl() { return hn::Set(OT(), TO(-1)); }
  Y Func(ptrdiff_t idx, const X a, const X b, const Y y) { const intptr_t f = hn::FindFirstTrue(IT(), hn::Ne(a, b)); return f >= 0 ? hn::Set(OT(), static_cast<TO>(idx + f)) : y; }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, TO* to, const Y y) { to[0] = hn::GetLane(y); return to[0] == TO(-1); }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, TO* to, const Y y, const ptrdiff_t) { to[0] = hn::GetLane(y); return 1; }
};
template <class U, class TI, class TO> void Run1(Call& c) { U u; hn::Unroller(u, static_cast<const TI*>(c.p[1]), static_cast<TO*>(c.p[0]), ptrdiff_t(c.n)); }
template <class TI, class TO> void RunFind(Call& c) { FindU<TI, TO> u(static_cast<TI>(int64_t(c.bits[0]))); hn::Unroller(u, static_cast<const TI*>(c.p[1]), static_cast<TO*>(c.p[0]), ptrdiff_t(c.n)); }
template <class U, class TA, class TB, class TO> void Run2(Call& c) { U u; hn::Unroller(u, static_cast<TA*>(c.p[1]), static_cast<TB*>(c.p[2]), static_cast<TO*>(c.p[0]), ptrdiff_t(c.n)); }
static void Add(const char* op, int a, int b, int o, size_t lanes, void (*fn)(Call&)) { ArrFn f{op, hwy::TargetName(HWY_TARGET), a, lanes, false, fn}; f.ty2 = b; f.ty3 = o; ArrFns().push_back(f); }
template <class TI, class TO> static void M1() { using U = MapU<TI, TO>; Add("Map", TyOf<TI>::v, -1, TyOf<TO>::v, U::ActualLanes(), &Run1<U, TI, TO>); }
template <class TA, class TB, class TO> static void M2() { using U = Map2U<TA, TB, TO>; Add("Map2D", TyOf<TA>::v, TyOf<TB>::v, TyOf<TO>::v, U::ActualLanes(), &Run2<U, TA, TB, TO>); }
template <class TA, class TB, class TO> static void Do() { using U = DotU<TA, TB, TO>; Add("Dot2D", TyOf<TA>::v, TyOf<TB>::v, TyOf<TO>::v, U::ActualLanes(), &Run2<U, TA, TB, TO>); }
template <class T> static void Red() { Add("Sum", TyOf<T>::v, -1, TyOf<T>::v, SumU<T>::ActualLanes(), &Run1<SumU<T>, T, T>); Add("Min", TyOf<T>::v, -1, TyOf<T>::v, MinU<T>::ActualLanes(), &Run1<MinU<T>, T, T>); }
template <class T, class TO> static void Srch() {
  Add("Find", TyOf<T>::v, -1, TyOf<TO>::v, FindU<T, TO>::ActualLanes(), &RunFind<T, TO>);
  using U = MismatchU<T, TO>; Add("Mismatch2D", TyOf<T>::v, TyOf<T>::v, TyOf<TO>::v, U::ActualLanes(), &Run2<U, T, T, TO>);
}
static const int kInit = [] {
  M1<uint8_t, uint8_t>(); M1<int8_t, int8_t>(); M1<uint16_t, uint16_t>(); M1<int16_t, int16_t>(); M1<uint32_t, uint32_t>(); M1<int32_t, int32_t>(); M1<uint64_t, uint64_t>(); M1<int64_t, int64_t>(); M1<float, float>(); M1<double, double>();
  M1<float, int32_t>(); M1<int32_t, float>(); M1<float, double>(); M1<double, float>(); M1<uint8_t, int32_t>(); M1<int16_t, int32_t>(); M1<int32_t, int16_t>(); M1<int64_t, int32_t>(); M1<int8_t, int16_t>();
  M2<uint8_t, uint8_t, uint8_t>(); M2<int16_t, int16_t, int16_t>(); M2<int32_t, int32_t, int32_t>(); M2<uint64_t, uint64_t, uint64_t>(); M2<float, float, float>(); M2<double, double, double>(); M2<uint8_t, int32_t, int32_t>(); M2<float, double, double>(); M2<int32_t, int16_t, int16_t>();
  Do<int16_t, int16_t, int16_t>(); Do<int32_t, int32_t, int32_t>(); Do<float, float, float>(); Do<double, double, double>(); Do<uint8_t, int16_t, int32_t>(); Do<float, float, double>();
  Red<uint8_t>(); Red<int8_t>(); Red<int16_t>(); Red<uint16_t>(); Red<int32_t>(); Red<uint32_t>(); Red<int64_t>(); Red<uint64_t>(); Red<float>(); Red<double>();
  Srch<uint8_t, int32_t>(); Srch<int8_t, int16_t>(); Srch<uint16_t, int32_t>(); Srch<int16_t, int16_t>(); Srch<int32_t, int32_t>(); Srch<uint32_t, int32_t>(); Srch<int64_t, int64_t>(); Srch<float, int32_t>(); Srch<double, int64_t>();
  return 0;
}();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
