#include <algorithm>
#include "hwy/highway.h"
#include "vec-inl.h"
#include "conv.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
#define PROM(TO) VOPC(Promote_##TO, !NS || N * sizeof(TO) <= HWY_MAX_BYTES, const Rebind<TO, D> d2; c.Emit(d2, PromoteTo(d2, c.A()));) \
  VOPC(PromoteHalf_##TO, NS && N >= 2, const Repartition<TO, D> d2; c.Emit(d2, PromoteLowerTo(d2, c.A())); c.Emit(d2, PromoteUpperTo(d2, c.A())); c.Emit(d2, PromoteEvenTo(d2, c.A())); c.Emit(d2, PromoteOddTo(d2, c.A()));)
PROM(u16) PROM(i16) PROM(u32) PROM(i32) PROM(u64) PROM(i64) PROM(f32) PROM(f64)
#define PROMR(TO) VOPC(PromoteInRange_##TO, NS && N >= 2, const Repartition<TO, D> d2; const Half<D> dh; c.Emit(d2, PromoteInRangeTo(d2, LowerHalf(dh, c.A()))); c.Emit(d2, PromoteInRangeLowerTo(d2, c.A())); c.Emit(d2, PromoteInRangeUpperTo(d2, c.A())); c.Emit(d2, PromoteInRangeEvenTo(d2, c.A())); c.Emit(d2, PromoteInRangeOddTo(d2, c.A()));)
PROMR(u64) PROMR(i64)
#define DEM(TO) VOP(Demote_##TO, const Rebind<TO, D> d2; c.Emit(d2, DemoteTo(d2, c.A()));)
DEM(u8) DEM(i8) DEM(u16) DEM(i16) DEM(u32) DEM(i32) DEM(f32) DEM(f16) DEM(bf16)
VOP(DemoteInRange_i32, const Rebind<i32, D> d2; c.Emit(d2, DemoteInRangeTo(d2, c.A()));)
VOP(DemoteInRange_u32, const Rebind<u32, D> d2; c.Emit(d2, DemoteInRangeTo(d2, c.A()));)
VOP(DemoteToNearestInt, const Rebind<i32, D> d2; c.Emit(d2, DemoteToNearestInt(d2, c.A()));)
#define TRUNC(TO) VOP(Truncate_##TO, const Rebind<TO, D> d2; c.Emit(d2, TruncateTo(d2, c.A()));)
TRUNC(u8) TRUNC(u16) TRUNC(u32)
VOP(U8FromU32, const Rebind<u8, D> d2; c.Emit(d2, U8FromU32(c.A()));)
#define CONV(TO) VOP(Convert_##TO, const Rebind<TO, D> d2; c.Emit(d2, ConvertTo(d2, c.A())); c.Emit(d2, MaskedConvertTo(RebindMask(d2, c.M()), d2, c.A()));)
CONV(f32) CONV(f64) CONV(i32) CONV(u32) CONV(i64) CONV(u64)
#define CONVR(TO) VOP(ConvertInRange_##TO, const Rebind<TO, D> d2; c.Emit(d2, ConvertInRangeTo(d2, c.A()));)
CONVR(i32) CONVR(u32) CONVR(i64) CONVR(u64)
VOP(NearestInt, c.Emit(di, NearestInt(c.A()));)
VOP(CeilInt, c.Emit(di, CeilInt(c.A()));)
VOP(FloorInt, c.Emit(di, FloorInt(c.A()));)
// f(v) for constant vectors v: all lanes equal, then lanes (in each block) different.
template <class D, class F> HWY_INLINE void ForConst(D d, F f) {
  using T = TFromD<D>;
  ForK<0, kNumConst>([&](auto k) HWY_ATTR {
    constexpr int K = k.value;
    f(Set(d, static_cast<T>(kConst[K])));
    if constexpr (sizeof(T) == 8) f(Dup128VecFromValues(d, static_cast<T>(kConst[K]), static_cast<T>(kConst[(K + 5) % kNumConst])));
    else f(Dup128VecFromValues(d, static_cast<T>(kConst[K]), static_cast<T>(kConst[(K + 5) % kNumConst]), static_cast<T>(kConst[(K + 11) % kNumConst]), static_cast<T>(kConst[(K + 29) % kNumConst])));
  });
}
#define KCONV(TO) VOP(ConstConvert_##TO, const Rebind<TO, D> d2; ForConst(d, [&](auto v) HWY_ATTR { c.Emit(d2, ConvertTo(d2, v)); c.Emit(d2, ConvertInRangeTo(d2, v)); });)
KCONV(i32) KCONV(u32) KCONV(i64) KCONV(u64)
#define KPROM(TO) VOPC(ConstPromote_##TO, !NS || N * 8 <= HWY_MAX_BYTES, const Rebind<TO, D> d2; ForConst(d, [&](auto v) HWY_ATTR { c.Emit(d2, PromoteTo(d2, v)); c.Emit(d2, PromoteInRangeTo(d2, v)); });)
KPROM(i64) KPROM(u64)
#define KDEM(TO) VOP(ConstDemote_##TO, const Rebind<TO, D> d2; ForConst(d, [&](auto v) HWY_ATTR { c.Emit(d2, DemoteTo(d2, v)); c.Emit(d2, DemoteInRangeTo(d2, v)); });)
KDEM(i32) KDEM(u32)
VOP(ConstNearest, ForConst(d, [&](auto v) HWY_ATTR { c.Emit(di, NearestInt(v)); });)
VOP(ConstDemoteNearest, const Rebind<i32, D> d2; ForConst(d, [&](auto v) HWY_ATTR { c.Emit(d2, DemoteToNearestInt(d2, v)); });)
VOP(ConstRound, ForConst(d, [&](auto v) HWY_ATTR { c.Emit(Trunc(v)); });)
template <class D2, class CT, class V> HWY_INLINE void EmitSorted(D2 d2, CT& c, V v) {
  using TU2 = hwy::MakeUnsigned<TFromD<D2>>;
  TU2* p = reinterpret_cast<TU2*>(c.out);
  c.Emit(d2, v);
  std::sort(p, p + MaxLanes(d2));
}
#define DEM2(TO) VOPC(Demote2_##TO, NS, const Repartition<TO, D> d2; c.Emit(d2, OrderedDemote2To(d2, c.A(), c.B())); EmitSorted(d2, c, ReorderDemote2To(d2, c.A(), c.B()));)
DEM2(u8) DEM2(i8) DEM2(u16) DEM2(i16) DEM2(u32) DEM2(i32)
// Reorder form only with exactly representable values (rounding is unspecified).
VOPC(Demote2_bf16, NS, const Repartition<bf16, D> d2; c.Emit(d2, OrderedDemote2To(d2, c.A(), c.B()));
  const auto keep = Set(du, 0xFFFF0000u); const auto a = IfThenElseZero(And(Not(IsNaN(c.A())), RebindMask(d, Ne(And(BitCast(du, c.A()), Set(du, 0x7F800000u)), Zero(du)))), BitCast(d, And(BitCast(du, c.A()), keep))); const auto b = IfThenElseZero(And(Not(IsNaN(c.B())), RebindMask(d, Ne(And(BitCast(du, c.B()), Set(du, 0x7F800000u)), Zero(du)))), BitCast(d, And(BitCast(du, c.B()), keep)));
  EmitSorted(d2, c, ReorderDemote2To(d2, a, b));)
#define TR2(TO) VOPC(Truncate2_##TO, NS, const Repartition<TO, D> d2; c.Emit(d2, OrderedTruncate2To(d2, c.A(), c.B()));)
TR2(u8) TR2(u16) TR2(u32)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
