#include "hwy/highway.h"
#include "vec-inl.h"
#include "masks.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
#define CMPV(NAME) VOP(NAME, c.EmitM(d, NAME(c.A(), c.B()));) VOP(Masked##NAME, c.EmitM(d, Masked##NAME(c.M(), c.A(), c.B()));)
CMPV(Eq) CMPV(Ne) CMPV(Lt) CMPV(Gt) CMPV(Le) CMPV(Ge)
VOP(CmpOperators, c.EmitM(d, c.A() == c.B()); c.EmitM(d, c.A() != c.B()); c.EmitM(d, c.A() < c.B()); c.EmitM(d, c.A() > c.B()); c.EmitM(d, c.A() <= c.B()); c.EmitM(d, c.A() >= c.B());)
VOP(IsNegative, c.EmitM(d, IsNegative(c.A()));)
VOP(TestBit, c.EmitM(d, TestBit(c.A(), c.B()));)
VOP(IsNaN, c.EmitM(d, IsNaN(c.A()));)
VOP(IsEitherNaN, c.EmitM(d, IsEitherNaN(c.A(), c.B()));)
VOP(IsInf, c.EmitM(d, IsInf(c.A()));)
VOP(IsFinite, c.EmitM(d, IsFinite(c.A()));)
VOP(MaskedIsNaN, c.EmitM(d, MaskedIsNaN(c.M(), c.A()));)
VOPC(Cmp128, NS && N >= 2, c.EmitM(d, Lt128(d, c.A(), c.B())); c.EmitM(d, Lt128Upper(d, c.A(), c.B())); c.EmitM(d, Eq128(d, c.A(), c.B()));
   c.EmitM(d, Eq128Upper(d, c.A(), c.B())); c.EmitM(d, Ne128(d, c.A(), c.B())); c.EmitM(d, Ne128Upper(d, c.A(), c.B()));)
VOPC(MinMax128, NS && N >= 2, c.Emit(Min128(d, c.A(), c.B())); c.Emit(Max128(d, c.A(), c.B())); c.Emit(Min128Upper(d, c.A(), c.B())); c.Emit(Max128Upper(d, c.A(), c.B()));)
VOP(FirstN, const size_t n = c.in[1][0] % (N + 2); constexpr size_t kMax = static_cast<size_t>(hwy::LimitsMax<hwy::SignedFromSize<(S < 8 ? S : 8)>>());
  c.EmitM(d, FirstN(d, n)); c.EmitM(d, FirstN(d, N)); c.EmitM(d, FirstN(d, N + n)); c.EmitM(d, FirstN(d, kMax)); c.EmitM(d, FirstN(d, kMax - n));)
VOP(FirstNConst, ForK<0, int(N) + 2>([&](auto k) HWY_ATTR { c.EmitM(d, FirstN(d, size_t{k.value})); });)
VOP(MaskedSets, c.Emit(d, MaskedSet(d, c.M(), GetLane(c.A()))); c.Emit(d, MaskedSetOr(c.B(), c.M(), GetLane(c.A())));)
VOP(MaskFromVec, auto v = BitCast(d, IfThenElseZero(RebindMask(du, c.M()), Set(du, hwy::LimitsMax<TU>()))); c.EmitM(d, MaskFromVec(v));)
VOP(VecFromMask, c.Emit(du, BitCast(du, VecFromMask(d, c.M())));)
VOP(LoadMaskBits, c.EmitM(d, LoadMaskBits(d, c.in[1]));)
VOP(StoreMaskBits, uint8_t b[72]; memset(b, 0xA5, sizeof(b)); const size_t n = StoreMaskBits(d, c.M(), b); c.EmitS(uint8_t(n)); for (size_t i = 0; i < (N + 7) / 8; ++i) c.EmitS(b[i]);)
VOP(BitsFromMask, c.EmitS(uint64_t(BitsFromMask(d, c.M())));)
VOP(Dup128MaskFromMaskBits, const unsigned bits = c.in[1][0] | (unsigned(c.in[1][1]) << 8); c.EmitM(d, Dup128MaskFromMaskBits(d, bits));)
VOP(MaskFalse, c.EmitM(d, MaskFalse(d));)
VOP(RebindMask, const RebindToFloat<D> df; c.EmitM(du, RebindMask(du, c.M())); c.EmitM(di, RebindMask(di, c.M())); c.EmitM(df, RebindMask(df, c.M()));)
// SizedAs: integer or float type of the given size and same kind as T.
template <class T, size_t S2> using SizedAs = hwy::If<hwy::IsFloat<T>(), hwy::FloatFromSize<(S2 >= 4 ? S2 : 4)>, hwy::If<hwy::IsSigned<T>(), hwy::SignedFromSize<S2>, hwy::UnsignedFromSize<S2>>>;
#define PMT(NAME, K) VOPC(NAME, S * K <= 8 && (!NS || N * S * K <= HWY_MAX_BYTES), using T2 = SizedAs<T, (S * K <= 8 ? S * K : 8)>; const Rebind<T2, D> d2; c.EmitM(d2, PromoteMaskTo(d2, d, c.M()));)
PMT(PromoteMaskTo, 2) PMT(PromoteMaskTo4, 4) PMT(PromoteMaskTo8, 8)
#define DMT(NAME, K) VOPC(NAME, S / K >= 1 && (!hwy::IsFloat<T>() || S / K >= 4), using T2 = SizedAs<T, (S / K >= 1 ? S / K : 1)>; const Rebind<T2, D> d2; c.EmitM(d2, DemoteMaskTo(d2, d, c.M()));)
DMT(DemoteMaskTo, 2) DMT(DemoteMaskTo4, 4) DMT(DemoteMaskTo8, 8)
VOPC(OrderedDemote2MasksTo, NS && S >= 2 && (!hwy::IsFloat<T>() || S == 8), using T2 = SizedAs<T, (S >= 2 ? S / 2 : 1)>; const Repartition<T2, D> d2; c.EmitM(d2, OrderedDemote2MasksTo(d2, d, c.M(), c.MaskBit(d, 0, N)));)
VOPC(LowerHalfOfMask, N > 1, const Half<D> dh; c.EmitM(dh, LowerHalfOfMask(dh, c.M()));)
VOPC(UpperHalfOfMask, N > 1, const Half<D> dh; c.EmitM(dh, UpperHalfOfMask(dh, c.M()));)
VOPC(CombineMasks, N > 1, const Half<D> dh; c.EmitM(d, CombineMasks(d, c.MaskBit(dh, 0, N / 2), c.MaskBit(dh, 0)));)
VOP(SlideMaskUpLanes, const size_t n = c.in[1][0] % N; c.EmitM(d, SlideMaskUpLanes(d, c.M(), n)); c.EmitM(d, SlideMaskUpLanes(d, c.M(), N / 2)); c.EmitM(d, SlideMaskUpLanes(d, c.M(), N - 1));)
VOP(SlideMaskDownLanes, const size_t n = c.in[1][0] % N; c.EmitM(d, SlideMaskDownLanes(d, c.M(), n)); c.EmitM(d, SlideMaskDownLanes(d, c.M(), N / 2)); c.EmitM(d, SlideMaskDownLanes(d, c.M(), N - 1));)
VOP(SlideMask1, c.EmitM(d, SlideMask1Up(d, c.M())); c.EmitM(d, SlideMask1Down(d, c.M()));)
VOP(TestMask, const auto m = c.M(); c.EmitS(uint8_t(AllTrue(d, m))); c.EmitS(uint8_t(AllFalse(d, m))); c.EmitS(uint8_t(CountTrue(d, m))); c.EmitS(int64_t(FindFirstTrue(d, m))); c.EmitS(int64_t(FindLastTrue(d, m)));
  c.EmitS(AllFalse(d, m) ? int64_t{-1} : int64_t(FindKnownFirstTrue(d, m))); c.EmitS(AllFalse(d, m) ? int64_t{-1} : int64_t(FindKnownLastTrue(d, m)));)
VOP(IfThenElse, c.Emit(du, BitCast(du, IfThenElse(c.M(), c.A(), c.B())));)
VOP(IfThenElseZero, c.Emit(du, BitCast(du, IfThenElseZero(c.M(), c.A())));)
VOP(IfThenZeroElse, c.Emit(du, BitCast(du, IfThenZeroElse(c.M(), c.A())));)
VOP(IfVecThenElse, c.Emit(du, BitCast(du, IfVecThenElse(VecFromMask(d, c.M()), c.A(), c.B())));)
VOP(MaskLogic, const auto a = c.M(); const auto b = c.M2(); c.EmitM(d, Not(a)); c.EmitM(d, And(a, b)); c.EmitM(d, AndNot(a, b)); c.EmitM(d, Or(a, b)); c.EmitM(d, Xor(a, b));
  // Not/AndNot must not leave stray bits visible to the test ops.
  const auto n = Not(a); c.EmitS(uint8_t(CountTrue(d, n))); c.EmitS(uint8_t(AllTrue(d, n))); c.EmitS(uint8_t(AllFalse(d, n))); c.EmitS(int64_t(FindFirstTrue(d, n))); c.EmitS(int64_t(FindLastTrue(d, n)));
  c.EmitS(uint64_t(BitsFromMask(d, n))); c.EmitS(uint64_t(BitsFromMask(d, AndNot(a, b))));)
VOP(ExclusiveNeither, const auto x = ExclusiveNeither(c.M(), c.M2()); c.EmitM(d, x); c.EmitS(uint8_t(CountTrue(d, x))); c.EmitS(uint8_t(AllFalse(d, x)));)
VOP(SetFirst, const auto m = c.M(); c.EmitM(d, SetOnlyFirst(m)); c.EmitM(d, SetBeforeFirst(m)); c.EmitM(d, SetAtOrBeforeFirst(m)); c.EmitM(d, SetAtOrAfterFirst(m));
  c.EmitS(uint8_t(CountTrue(d, SetBeforeFirst(m)))); c.EmitS(uint8_t(CountTrue(d, SetAtOrBeforeFirst(m)))); c.EmitS(uint8_t(CountTrue(d, SetAtOrAfterFirst(m)))); c.EmitS(uint8_t(CountTrue(d, SetOnlyFirst(m))));)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
