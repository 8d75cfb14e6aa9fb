#include "hwy/highway.h"
#include "vec-inl.h"
#include "reduce.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
VOP(SumLanes, c.Emit(d, SumOfLanes(d, c.A())); c.EmitS(ReduceSum(d, c.A()));)
VOP(SumLanesF, c.EmitS(ReduceSum(d, c.A())); c.EmitS(GetLane(SumOfLanes(d, c.A())));)
VOP(MinMaxLanes, c.Emit(d, MinOfLanes(d, c.A())); c.Emit(d, MaxOfLanes(d, c.A())); c.EmitS(ReduceMin(d, c.A())); c.EmitS(ReduceMax(d, c.A()));)
VOP(MaskedReduce, c.EmitS(MaskedReduceSum(d, c.M(), c.A())); c.EmitS(MaskedReduceMin(d, c.M(), c.A())); c.EmitS(MaskedReduceMax(d, c.M(), c.A()));)
VOPNS(PairwiseAdd, N >= 2, c.Emit(d, PairwiseAdd(d, c.A(), c.B()));)
VOPNS(PairwiseSub, N >= 2, c.Emit(d, PairwiseSub(d, c.A(), c.B()));)
VOPNS(PairwiseAdd128, N * S >= 16, c.Emit(d, PairwiseAdd128(d, c.A(), c.B()));)
VOPNS(PairwiseSub128, N * S >= 16, c.Emit(d, PairwiseSub128(d, c.A(), c.B()));)
VOPNS(SumsOf2, N >= 2, c.Emit(SumsOf2(c.A()));)
VOPNS(SumsOf4, N >= 4, c.Emit(SumsOf4(c.A()));)
VOPNS(SumsOf8, N >= 8, c.Emit(SumsOf8(c.A()));)
VOPNS(SumsOf8AbsDiff, N >= 8, c.Emit(SumsOf8AbsDiff(c.A(), c.B()));)
VOPNS(SumsOfAdjQuadAbsDiff, N >= 4, c.Emit(SumsOfAdjQuadAbsDiff<0, 0>(c.A(), c.B()));
  if constexpr (N >= 8) { c.Emit(SumsOfAdjQuadAbsDiff<0, 1>(c.A(), c.B())); c.Emit(SumsOfAdjQuadAbsDiff<1, 0>(c.A(), c.B())); c.Emit(SumsOfAdjQuadAbsDiff<1, 1>(c.A(), c.B())); }
  if constexpr (N >= 16) { c.Emit(SumsOfAdjQuadAbsDiff<0, 2>(c.A(), c.B())); c.Emit(SumsOfAdjQuadAbsDiff<0, 3>(c.A(), c.B())); c.Emit(SumsOfAdjQuadAbsDiff<1, 2>(c.A(), c.B())); c.Emit(SumsOfAdjQuadAbsDiff<1, 3>(c.A(), c.B())); })
VOPNS(SumsOfShuffledQuadAbsDiff, N >= 4, c.Emit(SumsOfShuffledQuadAbsDiff<3, 2, 1, 0>(c.A(), c.B()));
  if constexpr (N >= 16) { c.Emit(SumsOfShuffledQuadAbsDiff<0, 1, 2, 3>(c.A(), c.B())); c.Emit(SumsOfShuffledQuadAbsDiff<1, 1, 3, 0>(c.A(), c.B())); c.Emit(SumsOfShuffledQuadAbsDiff<2, 0, 2, 1>(c.A(), c.B())); c.Emit(SumsOfShuffledQuadAbsDiff<0, 3, 0, 3>(c.A(), c.B())); })
#define DW const RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; (void)dw; (void)sizeof(TW);
// A single lane.
VOPSC(ScProducts, using TW = hwy::If<hwy::IsFloat<T>() || hwy::IsSpecialFloat<T>(), float, int32_t>; const Sisd<TW> dw; c.Emit(dw, WidenMulPairwiseAdd(dw, c.A(), c.B()));)
VOPSC(ScReorder, using TW = hwy::If<hwy::IsFloat<T>() || hwy::IsSpecialFloat<T>(), float, hwy::If<hwy::IsSigned<T>(), int32_t, uint32_t>>; const Sisd<TW> dw; auto s1 = Zero(dw); auto s0 = Zero(dw); if (!hwy::IsFloat<TW>()) s0 = c.As(dw, 2); s0 = ReorderWidenMulAccumulate(dw, c.A(), c.B(), s0, s1); c.Emit(dw, RearrangeToOddPlusEven(s0, s1));
  s0 = ReorderWidenMulAccumulate(dw, c.B(), c.E(), s0, s1); c.Emit(dw, RearrangeToOddPlusEven(s0, s1)); s0 = ReorderWidenMulAccumulate(dw, c.A(), c.E(), s0, s1); c.EmitS(ReduceSum(dw, Add(s0, s1)));)
VOPSC(ScSatProduct, const Sisd<i16> dw; c.Emit(dw, SatWidenMulPairwiseAdd(dw, BitCast(du, c.A()), c.B()));)
VOPSC(ScSums8, c.Emit(SumsOf8(c.A()));)
VOPSC(ScSums2, c.Emit(SumsOf2(c.A()));)
VOPNS(WidenMulPairwiseAdd, N >= 2, DW c.Emit(dw, WidenMulPairwiseAdd(dw, c.A(), c.B())); c.Emit(dw, MaskedWidenMulPairwiseAdd(dw, c.MaskBit(dw, 0), c.A(), c.B()));)
VOPNS(WidenMulPairwiseAddF, N >= 2, DW c.Emit(dw, WidenMulPairwiseAdd(dw, c.A(), c.B()));)
VOPNS(SatWidenMulPairwiseAdd, N >= 2, DW c.Emit(dw, SatWidenMulPairwiseAdd(dw, BitCast(du, c.A()), c.B()));)
VOPNS(SatWidenMulPairwiseAccumulate, N >= 2, DW c.Emit(dw, SatWidenMulPairwiseAccumulate(dw, c.A(), c.B(), c.As(dw, 2)));)
VOPC(SatWidenMulAccumFixedPoint, N * 2 * S <= HWY_MAX_BYTES, const Rebind<i32, D> dw; c.Emit(dw, SatWidenMulAccumFixedPoint(dw, c.A(), c.B(), c.As(dw, 2)));)
VOPNS(ReorderWidenMulAccumulate, N >= 2, DW auto s1 = Zero(dw); auto s0 = ReorderWidenMulAccumulate(dw, c.A(), c.B(), c.As(dw, 2), s1);
  c.EmitS(ReduceSum(dw, Add(s0, s1))); s1 = Zero(dw); s0 = Zero(dw);
  s0 = ReorderWidenMulAccumulate(dw, c.A(), c.B(), s0, s1); c.Emit(dw, RearrangeToOddPlusEven(s0, s1));
  s0 = ReorderWidenMulAccumulate(dw, c.B(), c.E(), s0, s1); c.Emit(dw, RearrangeToOddPlusEven(s0, s1)); c.EmitS(ReduceSum(dw, Add(s0, s1)));)
VOPNS(SumOfMulQuad, N >= 4, const RepartitionToWideX2<D> dq; c.Emit(dq, SumOfMulQuadAccumulate(dq, c.A(), c.B(), c.As(dq, 2)));)
VOPNS(SumOfMulQuadUI, N >= 4, const Repartition<i32, D> dq; c.Emit(dq, SumOfMulQuadAccumulate(dq, BitCast(du, c.A()), c.B(), c.As(dq, 2)));)
VOPNS(WidenMulAccumulate, N >= 2, DW auto high = c.As(dw, 2, N / 2); auto low = WidenMulAccumulate(dw, c.A(), c.B(), c.As(dw, 2), high); c.Emit(dw, low); c.Emit(dw, high);)
VOPNS(MulEvenOddAdd, N >= 2, const Repartition<f32, D> dw; const auto s = ConvertTo(dw, BitCast(RebindToSigned<decltype(dw)>(), And(BitCast(RebindToUnsigned<decltype(dw)>(), c.As(dw, 2)), Set(RebindToUnsigned<decltype(dw)>(), 0xFFu))));
  c.Emit(dw, MulEvenAdd(dw, c.A(), c.B(), s)); c.Emit(dw, MulOddAdd(dw, c.A(), c.B(), s));)
VOPNS(AES, N >= 16, c.Emit(d, AESRound(c.A(), c.B())); c.Emit(d, AESLastRound(c.A(), c.B())); c.Emit(d, AESRoundInv(c.A(), c.B())); c.Emit(d, AESLastRoundInv(c.A(), c.B()));
  c.Emit(d, AESInvMixColumns(c.A())); c.Emit(d, AESKeyGenAssist<0>(c.A())); c.Emit(d, AESKeyGenAssist<1>(c.A())); c.Emit(d, AESKeyGenAssist<0x36>(c.A())); c.Emit(d, AESKeyGenAssist<0xFF>(c.A()));)
VOPNS(CLMul, N >= 2, c.Emit(d, CLMulLower(c.A(), c.B())); c.Emit(d, CLMulUpper(c.A(), c.B())); c.Emit(d, CLMulLower(c.A(), Shuffle01(c.B())));)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
