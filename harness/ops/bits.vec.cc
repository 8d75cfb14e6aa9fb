#include "hwy/highway.h"
#include "vec-inl.h"
#include "bits.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
VOP(And, c.Emit(And(c.A(), c.B()));)
VOP(AndNot, c.Emit(AndNot(c.A(), c.B()));)
VOP(Or, c.Emit(Or(c.A(), c.B()));)
VOP(Xor, c.Emit(Xor(c.A(), c.B()));)
VOP(Not, c.Emit(Not(c.A()));)
VOP(LogicOperators, c.Emit(c.A() & c.B()); c.Emit(c.A() | c.B()); c.Emit(c.A() ^ c.B()); auto v = c.A(); v &= c.B(); c.Emit(v); v = c.A(); v |= c.B(); c.Emit(v); v = c.A(); v ^= c.B(); c.Emit(v);)
VOP(Xor3, c.Emit(Xor3(c.A(), c.B(), c.C()));)
VOP(Or3, c.Emit(Or3(c.A(), c.B(), c.C()));)
VOP(OrAnd, c.Emit(OrAnd(c.A(), c.B(), c.C()));)
VOP(BitwiseIfThenElse, c.Emit(BitwiseIfThenElse(c.A(), c.B(), c.C()));)
VOP(MaskedOr, c.Emit(MaskedOr(c.M(), c.A(), c.B()));)
VOP(PopulationCount, c.Emit(PopulationCount(c.A()));)
VOP(LeadingZeroCount, c.Emit(LeadingZeroCount(c.A()));)
VOP(TrailingZeroCount, c.Emit(TrailingZeroCount(c.A()));)
VOP(MaskedLeadingZeroCount, c.Emit(MaskedLeadingZeroCount(c.M(), c.A()));)
VOP(HighestSetBitIndex, c.Emit(HighestSetBitIndex(c.A()));)
// Vectors that are all ones / zero except possibly one bit.
VOP(AllBits, const auto one = And(c.A(), IfThenElseZero(FirstN(d, 1), c.B()));
    c.EmitS(uint8_t(AllBits0(d, c.A()))); c.EmitS(uint8_t(AllBits1(d, c.A())));
    c.EmitS(uint8_t(AllBits0(d, one))); c.EmitS(uint8_t(AllBits1(d, Not(one))));
    const auto last = IfThenElseZero(Not(FirstN(d, N - 1)), c.B());
    c.EmitS(uint8_t(AllBits0(d, last))); c.EmitS(uint8_t(AllBits1(d, Not(last))));
    c.EmitS(uint8_t(AllBits0(d, Zero(d)))); c.EmitS(uint8_t(AllBits1(d, Not(Zero(d)))));)
VOP(CopySign, c.Emit(CopySign(c.A(), c.B()));)
VOP(CopySignToAbs, c.Emit(CopySignToAbs(Abs(c.A()), c.B()));)
VOP(BroadcastSignBit, c.Emit(BroadcastSignBit(c.A()));)
VOP(ZeroIfNegative, c.Emit(ZeroIfNegative(c.A()));)
VOP(IfNegativeThenElse, c.Emit(IfNegativeThenElse(c.A(), c.B(), c.C()));)
VOP(IfNegativeThenElseZero, c.Emit(IfNegativeThenElseZero(c.A(), c.B()));)
VOP(IfNegativeThenZeroElse, c.Emit(IfNegativeThenZeroElse(c.A(), c.B()));)
VOP(IfNegativeThenNegOrUndefIfZero, c.Emit(IfNegativeThenNegOrUndefIfZero(c.A(), c.B()));)
VOP(ShiftLeft, ForK<0, int(S * 8)>([&](auto k) HWY_ATTR { c.Emit(ShiftLeft<k.value>(c.A())); });)
VOP(ShiftRight, ForK<0, int(S * 8)>([&](auto k) HWY_ATTR { c.Emit(ShiftRight<k.value>(c.A())); });)
VOP(RoundingShiftRight, ForK<0, int(S * 8)>([&](auto k) HWY_ATTR { c.Emit(RoundingShiftRight<k.value>(c.A())); });)
VOP(RotateLeft, ForK<0, int(S * 8)>([&](auto k) HWY_ATTR { c.Emit(RotateLeft<k.value>(c.A())); });)
VOP(RotateRight, ForK<0, int(S * 8)>([&](auto k) HWY_ATTR { c.Emit(RotateRight<k.value>(c.A())); });)
VOP(MaskedShiftLeft, c.Emit(MaskedShiftLeft<0>(c.M(), c.A())); c.Emit(MaskedShiftLeft<1>(c.M(), c.A())); c.Emit(MaskedShiftLeft<S * 4>(c.M(), c.A())); c.Emit(MaskedShiftLeft<S * 8 - 1>(c.M(), c.A()));)
VOP(MaskedShiftRight, c.Emit(MaskedShiftRight<0>(c.M(), c.A())); c.Emit(MaskedShiftRight<1>(c.M(), c.A())); c.Emit(MaskedShiftRight<S * 4>(c.M(), c.A())); c.Emit(MaskedShiftRight<S * 8 - 1>(c.M(), c.A()));)
VOP(MaskedShiftRightOr, c.Emit(MaskedShiftRightOr<0>(c.E(), c.M(), c.A())); c.Emit(MaskedShiftRightOr<1>(c.E(), c.M(), c.A())); c.Emit(MaskedShiftRightOr<S * 4>(c.E(), c.M(), c.A())); c.Emit(MaskedShiftRightOr<S * 8 - 1>(c.E(), c.M(), c.A()));)
VOP(SameShifts, const int k = c.in[1][0]; c.Emit(ShiftLeftSame(c.A(), k)); c.Emit(ShiftRightSame(c.A(), k)); c.Emit(RoundingShiftRightSame(c.A(), k));
    c.Emit(ShiftLeftSame(c.A(), 3)); c.Emit(ShiftRightSame(c.A(), 5)); c.Emit(ShiftRightSame(c.A(), 0)); c.Emit(ShiftLeftSame(c.A(), S * 8 - 1)); c.Emit(ShiftRightSame(c.A(), S * 8 - 1));)
VOP(SameShiftsConst, ForK<0, int(S * 8)>([&](auto k) HWY_ATTR { c.Emit(ShiftLeftSame(c.A(), int{k.value})); c.Emit(ShiftRightSame(c.A(), int{k.value})); c.Emit(RoundingShiftRightSame(c.A(), int{k.value})); c.Emit(RotateLeftSame(c.A(), int{k.value})); c.Emit(RotateRightSame(c.A(), int{k.value})); });)
VOP(SignBit, c.Emit(d, SignBit(d));)
VOP(NegBits, c.Emit(d, Neg(c.A()));)
VOP(RotateSame, const int k = c.in[1][0]; c.Emit(RotateLeftSame(c.A(), k)); c.Emit(RotateRightSame(c.A(), k));
    c.Emit(RotateLeftSame(c.A(), k + int(S) * 8)); c.Emit(RotateRightSame(c.A(), -k));)
VOP(Shl, c.Emit(Shl(c.A(), c.B()));)
VOP(Shr, c.Emit(Shr(c.A(), c.B()));)
VOP(RoundingShr, c.Emit(RoundingShr(c.A(), c.B()));)
VOP(Rol, c.Emit(Rol(c.A(), c.B())); c.Emit(Rol(c.A(), c.C()));)
VOP(Ror, c.Emit(Ror(c.A(), c.B())); c.Emit(Ror(c.A(), c.C()));)
VOP(ShiftOperators, c.Emit(c.A() << c.B()); c.Emit(c.A() >> c.B());)
VOPC(MultiRotateRight, NS, const Repartition<uint8_t, D> d8; const Repartition<int8_t, D> di8; c.Emit(MultiRotateRight(c.A(), c.As(d8, 1))); c.Emit(MultiRotateRight(c.A(), c.As(di8, 1)));)
VOPC(BitShuffle, NS, const Repartition<uint8_t, D> d8; const Repartition<int8_t, D> di8; c.Emit(BitShuffle(c.A(), c.As(d8, 1))); c.Emit(BitShuffle(c.A(), c.As(di8, 1)));)
VOP(MaskedShrOr, c.Emit(MaskedShrOr(c.E(), c.M(), c.A(), c.B()));)
VOP(ReverseBits, c.Emit(ReverseBits(c.A()));)
VOP(ReverseLaneBytes, c.Emit(ReverseLaneBytes(c.A()));)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
