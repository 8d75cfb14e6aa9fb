#include "hwy/highway.h"
#include "vec-inl.h"
#include "arith.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
VOP(Add, c.Emit(Add(c.A(), c.B()));)
VOP(Sub, c.Emit(Sub(c.A(), c.B()));)
VOP(Mul, c.Emit(Mul(c.A(), c.B()));)
VOP(Operators, c.Emit(c.A() + c.B()); c.Emit(c.A() - c.B()); c.Emit(c.A() * c.B());
    if constexpr (hwy::IsFloat<T>()) { c.Emit(c.A() / c.B()); }
    auto v = c.A(); v += c.B(); c.Emit(v); v = c.A(); v -= c.B(); c.Emit(v); )
VOP(Min, c.Emit(Min(c.A(), c.B()));)
VOP(Max, c.Emit(Max(c.A(), c.B()));)
VOP(MinMagnitude, c.Emit(MinMagnitude(c.A(), c.B()));)
VOP(MaxMagnitude, c.Emit(MaxMagnitude(c.A(), c.B()));)
VOP(AbsDiff, c.Emit(AbsDiff(c.A(), c.B()));)
VOP(Clamp, c.Emit(Clamp(c.A(), c.B(), c.C()));)
VOP(AddSub, c.Emit(AddSub(c.A(), c.B()));)
VOP(Neg, c.Emit(Neg(c.A()));)
VOP(Abs, c.Emit(Abs(c.A()));)
VOP(SaturatedNeg, c.Emit(SaturatedNeg(c.A()));)
VOP(SaturatedAbs, c.Emit(SaturatedAbs(c.A()));)
VOP(SaturatedAdd, c.Emit(SaturatedAdd(c.A(), c.B()));)
VOP(SaturatedSub, c.Emit(SaturatedSub(c.A(), c.B()));)
VOP(AverageRound, c.Emit(AverageRound(c.A(), c.B()));)
VOP(MulHigh, c.Emit(MulHigh(c.A(), c.B()));)
VOP(MulFixedPoint15, c.Emit(MulFixedPoint15(c.A(), c.B()));)
VOPC(MulEven, NS ? N > 1 : S < 8, c.Emit(MulEven(c.A(), c.B()));)
VOPC(MulOdd, NS && N > 1, c.Emit(MulOdd(c.A(), c.B()));)
VOP(Div, c.Emit(Div(c.A(), c.B()));)
VOP(Mod, c.Emit(Mod(c.A(), c.B()));)
VOP(MulAdd, c.Emit(MulAdd(c.A(), c.B(), c.C()));)
VOP(NegMulAdd, c.Emit(NegMulAdd(c.A(), c.B(), c.C()));)
VOP(MulSub, c.Emit(MulSub(c.A(), c.B(), c.C()));)
VOP(NegMulSub, c.Emit(NegMulSub(c.A(), c.B(), c.C()));)
VOP(MulAddSub, c.Emit(MulAddSub(c.A(), c.B(), c.C()));)
VOP(MulSubAdd, c.Emit(MulSubAdd(c.A(), c.B(), c.C()));)
VOP(Sqrt, c.Emit(Sqrt(c.A()));)
VOP(ApproximateReciprocal, c.Emit(ApproximateReciprocal(c.A()));)
VOP(ApproximateReciprocalSqrt, c.Emit(ApproximateReciprocalSqrt(c.A()));)
VOP(GetExponent, c.Emit(GetExponent(c.A()));)
VOP(GetBiasedExponent, c.Emit(GetBiasedExponent(c.A()));)
VOP(Round, c.Emit(Round(c.A()));)
VOP(Trunc, c.Emit(Trunc(c.A()));)
VOP(Ceil, c.Emit(Ceil(c.A()));)
VOP(Floor, c.Emit(Floor(c.A()));)
VOP(MulRound, c.Emit(MulRound(c.A(), c.B()));)
VOP(MulByPow2, c.Emit(MulByPow2(c.A(), c.As(di, 1)));)
VOP(MulByFloorPow2, c.Emit(MulByFloorPow2(c.A(), c.B()));)
VOPC(ComplexConj, N > 1, c.Emit(ComplexConj(c.A()));)
VOPC(MulComplex, N > 1, c.Emit(MulComplex(c.A(), c.B()));)
VOPC(MulComplexConj, N > 1, c.Emit(MulComplexConj(c.A(), c.B()));)
VOPC(MulComplexAdd, N > 1, c.Emit(MulComplexAdd(c.A(), c.B(), c.C()));)
VOPC(MulComplexConjAdd, N > 1, c.Emit(MulComplexConjAdd(c.A(), c.B(), c.C()));)
VOPC(MaskedMulComplexConjAdd, N > 1, c.Emit(MaskedMulComplexConjAdd(c.M(), c.A(), c.B(), c.C()));)
VOPC(MaskedMulComplexConj, N > 1, c.Emit(MaskedMulComplexConj(c.M(), c.A(), c.B()));)
VOPC(MaskedMulComplexOr, N > 1, c.Emit(MaskedMulComplexOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedMinOr, c.Emit(MaskedMinOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedMaxOr, c.Emit(MaskedMaxOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedAddOr, c.Emit(MaskedAddOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedSubOr, c.Emit(MaskedSubOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedMulOr, c.Emit(MaskedMulOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedDivOr, c.Emit(MaskedDivOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedModOr, c.Emit(MaskedModOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedSatAddOr, c.Emit(MaskedSatAddOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedSatSubOr, c.Emit(MaskedSatSubOr(c.E(), c.M(), c.A(), c.B()));)
VOP(MaskedMulAddOr, c.Emit(MaskedMulAddOr(c.E(), c.M(), c.A(), c.B(), c.C()));)
VOP(MaskedAbsOr, c.Emit(MaskedAbsOr(c.E(), c.M(), c.A()));)
VOP(MaskedAbs, c.Emit(MaskedAbs(c.M(), c.A()));)
VOP(MaskedSqrtOr, c.Emit(MaskedSqrtOr(c.E(), c.M(), c.A()));)
VOP(MaskedSqrt, c.Emit(MaskedSqrt(c.M(), c.A()));)
VOP(MaskedMax, c.Emit(MaskedMax(c.M(), c.A(), c.B()));)
VOP(MaskedAdd, c.Emit(MaskedAdd(c.M(), c.A(), c.B()));)
VOP(MaskedSub, c.Emit(MaskedSub(c.M(), c.A(), c.B()));)
VOP(MaskedMul, c.Emit(MaskedMul(c.M(), c.A(), c.B()));)
VOP(MaskedDiv, c.Emit(MaskedDiv(c.M(), c.A(), c.B()));)
VOP(MaskedSaturatedAdd, c.Emit(MaskedSaturatedAdd(c.M(), c.A(), c.B()));)
VOP(MaskedSaturatedSub, c.Emit(MaskedSaturatedSub(c.M(), c.A(), c.B()));)
VOP(MaskedMulFixedPoint15, c.Emit(MaskedMulFixedPoint15(c.M(), c.A(), c.B()));)
VOP(MaskedMulAdd, c.Emit(MaskedMulAdd(c.M(), c.A(), c.B(), c.C()));)
VOP(MaskedNegMulAdd, c.Emit(MaskedNegMulAdd(c.M(), c.A(), c.B(), c.C()));)
VOP(MaskedApproximateReciprocal, c.Emit(MaskedApproximateReciprocal(c.M(), c.A()));)
VOP(MaskedApproximateReciprocalSqrt, c.Emit(MaskedApproximateReciprocalSqrt(c.M(), c.A()));)
// Constant operands: x86 has compile-time-constant special cases.
VOP(AddConst, c.Emit(Add(c.A(), Set(d, T(1)))); c.Emit(Sub(Zero(d), c.A())); c.Emit(Mul(c.A(), Set(d, T(2))));
    c.Emit(Mul(c.A(), Set(d, T(4)))); c.Emit(Mul(Set(d, T(3)), c.A()));)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
