#include "ref.h"
#include "bits.list.h"
namespace vt {
template <typename T> T fu(UOf<T> u) { return FromBits<T>(u); }
#define BW(NAME, EXPR) ROPL(NAME, const TU A = Bits(a), B = Bits(b), C = Bits(c); (void)A; (void)B; (void)C; r.bits<T>(fu<T>(TU(EXPR)));)
BW(And, A & B) BW(AndNot, ~A & B) BW(Or, A | B) BW(Xor, A ^ B) BW(Not, ~A)
ROP(LogicOperators, for (int k = 0; k < 6; ++k) for (size_t i = 0; i < N; ++i) { TU A = TU(x.a(i)), B = TU(x.b(i)); r.eq<T>(T(k % 3 == 0 ? A & B : k % 3 == 1 ? A | B : A ^ B)); })
BW(Xor3, A ^ B ^ C) BW(Or3, A | B | C) BW(OrAnd, A | (B & C)) BW(BitwiseIfThenElse, (A & B) | (~A & C))
BW(MaskedOr, m ? (A | B) : 0)
template <typename T> int popc(T a) { return __builtin_popcountll(u64(UOf<T>(a))); }
template <typename T> int lzc(T a) { UOf<T> u = UOf<T>(a); int n = 0; for (int i = int(sizeof(T)) * 8 - 1; i >= 0 && !((u64(u) >> i) & 1); --i) ++n; return n; }
template <typename T> int tzc(T a) { UOf<T> u = UOf<T>(a); int n = 0; for (int i = 0; i < int(sizeof(T)) * 8 && !((u64(u) >> i) & 1); ++i) ++n; return n; }
ROPL(PopulationCount, r.eq<T>(T(popc(a)));)
ROPL(LeadingZeroCount, r.eq<T>(T(lzc(a)));)
ROPL(TrailingZeroCount, r.eq<T>(T(tzc(a)));)
ROPL(MaskedLeadingZeroCount, r.eq<T>(m ? T(lzc(a)) : T(0));)
ROPL(HighestSetBitIndex, if (a != 0) r.eq<T>(T(int(sizeof(T)) * 8 - 1 - lzc(a))); else if (IsS<T>()) r.range<T>(LMin<T>(), T(-1)); else r.range<T>(T(LMax<T>() / 2 + 1), LMax<T>());)
ROP(AllBits, bool a0 = true; bool a1 = true; for (size_t i = 0; i < N; ++i) { a0 &= TU(x.a(i)) == 0; a1 &= TU(x.a(i)) == TU(~TU(0)); }
  r.eq<u8>(a0); r.eq<u8>(a1); bool o = TU(x.a(0) & x.b(0)) == 0; r.eq<u8>(o); r.eq<u8>(o); bool l = x.b(N - 1) == 0; r.eq<u8>(l); r.eq<u8>(l); r.eq<u8>(1); r.eq<u8>(1);)
ROPL(CopySign, const TU sbit = TU(1) << (sizeof(T) * 8 - 1); r.bits<T>(fu<T>(TU((Bits(a) & ~sbit) | (Bits(b) & sbit))));)
ROPL(CopySignToAbs, const TU sbit = TU(1) << (sizeof(T) * 8 - 1); r.bits<T>(fu<T>(TU((Bits(a) & ~sbit) | (Bits(b) & sbit))));)
ROPL(BroadcastSignBit, r.eq<T>(a < 0 ? T(-1) : T(0));)
// For floats, -0 and NaN may count either way (documented via two inequivalent forms).
template <typename T> void neg_sel(R& r, T v, T yes, T no) {
  if constexpr (IsF<T>()) { if (nan_(v) || v == 0) { r.alt<T>(yes, no); return; } }
  r.bits<T>(v < 0 ? yes : no);
}
ROPL(ZeroIfNegative, if constexpr (IsF<T>()) { if (nan_(a) || a == 0) { r.alt<T>(T(0), a); continue; } } r.bits<T>(a < 0 ? T(0) : a);)
ROPL(IfNegativeThenElse, neg_sel(r, a, b, c);)
ROPL(IfNegativeThenElseZero, neg_sel(r, a, b, T(0));)
ROPL(IfNegativeThenZeroElse, neg_sel(r, a, T(0), b);)
ROPL(IfNegativeThenNegOrUndefIfZero, if (nan_(a)) r.any<T>(); else if (a == 0) { if constexpr (IsF<T>()) r.any<T>(); else r.alt<T>(T(0), b); } else r.eq<T>(a < 0 ? ng(b) : b);)
template <typename T> T shl(T a, int k) { return T(UOf<T>(u64(UOf<T>(a)) << k)); }
template <typename T> T shr(T a, int k) { return T(a >> k); }
template <typename T> T rshr(T a, int k) { return k == 0 ? a : T((shr(a, k - 1) >> 1) + (shr(a, k - 1) & 1)); }
template <typename T> T rol(T a, int k) { const int b = int(sizeof(T)) * 8; k &= b - 1; const UOf<T> u = UOf<T>(a); return k == 0 ? a : T(UOf<T>((u64(u) << k) | (u >> (b - k)))); }
template <typename T> T ror(T a, int k) { return rol(a, int(sizeof(T)) * 8 - (k & (int(sizeof(T)) * 8 - 1))); }
#define MKOP(NAME, EXPR) ROP(NAME, for (int w = 0; w < 4; ++w) for (size_t i = 0; i < N; ++i) { const int S8 = int(sizeof(T)) * 8, k = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? S8 / 2 : S8 - 1; const T a = x.a(i); const bool m = x.m(i); r.eq<T>(EXPR); })
#define KOP(NAME, EXPR) ROP(NAME, for (int k = 0; k < int(sizeof(T)) * 8; ++k) for (size_t i = 0; i < N; ++i) { const T a = x.a(i); const bool m = x.m(i); (void)m; r.eq<T>(EXPR); })
KOP(ShiftLeft, shl(a, k)) KOP(ShiftRight, shr(a, k)) KOP(RoundingShiftRight, rshr(a, k)) KOP(RotateLeft, rol(a, k)) KOP(RotateRight, ror(a, k))
MKOP(MaskedShiftLeft, m ? shl(a, k) : T(0)) MKOP(MaskedShiftRight, m ? shr(a, k) : T(0)) MKOP(MaskedShiftRightOr, m ? shr(a, k) : x.e(i))
ROP(SameShifts, const int k = x.in[1][0]; for (int w = 0; w < 8; ++w) for (size_t i = 0; i < N; ++i) { const T a = x.a(i); const int h = int(sizeof(T)) * 8 - 1;
  r.eq<T>(w == 0 ? shl(a, k) : w == 1 ? shr(a, k) : w == 2 ? rshr(a, k) : w == 3 ? shl(a, 3) : w == 4 ? shr(a, 5) : w == 5 ? a : w == 6 ? shl(a, h) : shr(a, h)); })
ROP(SameShiftsConst, for (int k = 0; k < int(sizeof(T)) * 8; ++k) for (int w = 0; w < 5; ++w) for (size_t i = 0; i < N; ++i) { const T a = x.a(i); r.eq<T>(w == 0 ? shl(a, k) : w == 1 ? shr(a, k) : w == 2 ? rshr(a, k) : w == 3 ? rol(a, k) : ror(a, k)); })
ROPL(SignBit, r.bits<T>(fu<T>(TU(TU(1) << (sizeof(T) * 8 - 1))));)
ROPL(NegBits, r.bits<T>(fu<T>(TU(Bits(a) ^ (TU(1) << (sizeof(T) * 8 - 1)))));)
ROP(RotateSame, const int k = x.in[1][0]; for (int w = 0; w < 4; ++w) for (size_t i = 0; i < N; ++i) { const T a = x.a(i); r.eq<T>(w == 0 || w == 2 ? rol(a, k) : w == 1 ? ror(a, k) : rol(a, k)); })
ROPL(Shl, r.eq<T>(shl(a, int(b)));)
ROPL(Shr, r.eq<T>(shr(a, int(b)));)
ROPL(RoundingShr, r.eq<T>(rshr(a, int(b)));)
ROP(Rol, for (int w = 0; w < 2; ++w) for (size_t i = 0; i < N; ++i) r.eq<T>(rol(x.a(i), int((w ? x.c(i) : x.b(i)) & T(sizeof(T) * 8 - 1))));)
ROP(Ror, for (int w = 0; w < 2; ++w) for (size_t i = 0; i < N; ++i) r.eq<T>(ror(x.a(i), int((w ? x.c(i) : x.b(i)) & T(sizeof(T) * 8 - 1))));)
ROP(ShiftOperators, for (int w = 0; w < 2; ++w) for (size_t i = 0; i < N; ++i) r.eq<T>(w ? shr(x.a(i), int(x.b(i))) : shl(x.a(i), int(x.b(i))));)
ROP(MultiRotateRight, for (int w = 0; w < 2; ++w) for (size_t i = 0; i < N; ++i) { u64 v = u64(x.a(i)), o = 0; for (int j = 0; j < 8; ++j) o |= (u64(ror(v, x.in[1][8 * i + j])) & 0xFF) << (8 * j); r.eq<T>(T(o)); })
ROP(BitShuffle, for (int w = 0; w < 2; ++w) for (size_t i = 0; i < N; ++i) { u64 v = u64(x.a(i)), o = 0; for (int j = 0; j < 8; ++j) o |= ((v >> x.in[1][8 * i + j]) & 1) << j; r.eq<T>(T(o)); })
ROPL(MaskedShrOr, r.eq<T>(m ? shr(a, int(b)) : e);)
ROPL(ReverseBits, TU u = TU(a); TU o = 0; for (int k = 0; k < int(sizeof(T)) * 8; ++k) o = TU(o | (((u64(u) >> k) & 1) << (sizeof(T) * 8 - 1 - k))); r.eq<T>(T(o));)
ROPL(ReverseLaneBytes, TU u = TU(a); TU o = 0; for (int k = 0; k < int(sizeof(T)); ++k) o = TU(o | (((u64(u) >> (8 * k)) & 0xFF) << (8 * (sizeof(T) - 1 - k)))); r.eq<T>(T(o));)
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
