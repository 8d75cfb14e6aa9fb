#include "hwy/highway.h"
#include "vec-inl.h"
#include "perm.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
VOPC(LowerHalf, N > 1, const Half<D> dh; c.Emit(dh, LowerHalf(dh, c.A())); c.Emit(dh, LowerHalf(c.A()));)
VOPC(UpperHalf, N > 1 && NS, const Half<D> dh; c.Emit(dh, UpperHalf(dh, c.A()));)
VOPC(ZeroExtendVector, N > 1 && NS, const Half<D> dh; c.Emit(d, ZeroExtendVector(d, c.As(dh, 0)));)
VOPC(Combine, N > 1 && NS, const Half<D> dh; c.Emit(d, Combine(d, c.As(dh, 0), c.As(dh, 1)));)
VOPC(Concats, N > 1 && NS, c.Emit(ConcatLowerLower(d, c.A(), c.B())); c.Emit(ConcatUpperUpper(d, c.A(), c.B())); c.Emit(ConcatLowerUpper(d, c.A(), c.B())); c.Emit(ConcatUpperLower(d, c.A(), c.B()));)
VOPC(ConcatOddEven, N > 1 && NS, c.Emit(d, ConcatOdd(d, c.A(), c.B())); c.Emit(d, ConcatEven(d, c.A(), c.B()));)
VOPC(InterleaveWhole, N > 1 && NS, c.Emit(InterleaveWholeLower(d, c.A(), c.B())); c.Emit(InterleaveWholeLower(c.A(), c.B())); c.Emit(InterleaveWholeUpper(d, c.A(), c.B()));)
VOPC(InterleaveLower, N > 1 && NS, c.Emit(d, InterleaveLower(d, c.A(), c.B())); c.Emit(d, InterleaveLower(c.A(), c.B()));)
VOPC(InterleaveUpper, N > 1 && NS, c.Emit(d, InterleaveUpper(d, c.A(), c.B()));)
VOPC(InterleaveEven, N > 1 && NS, c.Emit(InterleaveEven(d, c.A(), c.B())); c.Emit(InterleaveEven(c.A(), c.B()));)
VOPC(InterleaveOdd, N > 1 && NS, c.Emit(InterleaveOdd(d, c.A(), c.B()));)
VOPSC(ScZip, using TW = hwy::MakeWide<T>; const Sisd<TW> dw; c.Emit(dw, ZipLower(dw, c.A(), c.B())); c.Emit(dw, ZipLower(c.A(), c.B()));)
VOPSC(ScPass, c.Emit(d, LowerHalf(c.A())); c.Emit(d, LowerHalf(d, c.A())); c.Emit(d, DupEven(c.A())); c.Emit(d, OddEven(c.B(), c.A())); c.Emit(d, SwapAdjacentBlocks(c.A())); c.Emit(d, InterleaveEvenBlocks(d, c.A(), c.B()));
  c.Emit(d, ReverseBlocks(d, c.A())); c.Emit(d, LoadDup128(d, reinterpret_cast<const T*>(c.in[0]))); c.EmitM(d, LowerHalfOfMask(d, c.M()));)
#define SCR(TO) { const Sisd<TO> d2; c.Emit(d2, ResizeBitCast(d2, c.A())); c.Emit(d2, ZeroExtendResizeBitCast(d2, d, c.A())); }
VOPSC(ScResize, SCR(u8) SCR(i8) SCR(u16) SCR(i16) SCR(u32) SCR(i32) SCR(f32) SCR(u64) SCR(i64) SCR(f64))
VOPC(Zip, N > 1 && NS, const RepartitionToWide<D> dw; c.Emit(dw, ZipLower(dw, c.A(), c.B())); c.Emit(dw, ZipLower(c.A(), c.B())); c.Emit(dw, ZipUpper(dw, c.A(), c.B()));)
VOP(Broadcast, ForK<0, int(N < 16 / S ? N : 16 / S)>([&](auto k) HWY_ATTR { c.Emit(Broadcast<k.value>(c.A())); });)
VOPNS(ShiftLeftBytes, NS, ForK<1, int(N * S < 16 ? N * S : 16)>([&](auto k) HWY_ATTR { c.Emit(ShiftLeftBytes<k.value>(d, c.A())); }); )
VOPNS(ShiftRightBytes, NS, ForK<1, int(N * S < 16 ? N * S : 16)>([&](auto k) HWY_ATTR { c.Emit(ShiftRightBytes<k.value>(d, c.A())); }); )
VOPNS(ShiftLanes, NS, ForK<0, int(N < 16 / S ? N : 16 / S)>([&](auto k) HWY_ATTR { c.Emit(ShiftLeftLanes<k.value>(d, c.A())); c.Emit(ShiftRightLanes<k.value>(d, c.A())); }); c.Emit(ShiftLeftLanes<1>(c.A()));)
VOPNS(CombineShiftRightBytes, NS, ForK<1, int(N * S < 16 ? N * S : 16)>([&](auto k) HWY_ATTR { c.Emit(CombineShiftRightBytes<k.value>(d, c.A(), c.B())); }); )
VOPNS(CombineShiftRightLanes, NS && N > 1, ForK<1, int(N < 16 / S ? N : 16 / S)>([&](auto k) HWY_ATTR { c.Emit(CombineShiftRightLanes<k.value>(d, c.A(), c.B())); });)
VOPC(OddEven, N > 1 && NS, c.Emit(d, OddEven(c.A(), c.B()));)
VOPC(DupEven, N > 1 && NS, c.Emit(DupEven(c.A()));)
VOPC(DupOdd, N > 1 && NS, c.Emit(DupOdd(c.A()));)
VOPC(Shuffle32, N >= 4 && NS, c.Emit(Shuffle1032(c.A())); c.Emit(Shuffle0321(c.A())); c.Emit(Shuffle2103(c.A())); c.Emit(Shuffle2301(c.A())); c.Emit(Shuffle0123(c.A()));)
VOPC(Shuffle01, N >= 2 && NS, c.Emit(Shuffle01(c.A()));)
VOP(Reverse, c.Emit(d, Reverse(d, c.A()));)
VOPC(ReverseBlocks, NS, c.Emit(ReverseBlocks(d, c.A()));)
VOPC(Reverse2, N >= 2, c.Emit(d, Reverse2(d, c.A()));)
VOPC(Reverse4, N >= 4, c.Emit(Reverse4(d, c.A()));)
VOPC(Reverse8, N >= 8, c.Emit(Reverse8(d, c.A()));)
VOP(OddEvenBlocks, c.Emit(OddEvenBlocks(c.A(), c.B()));)
VOPC(SwapAdjacentBlocks, NS && N * S >= 32, c.Emit(SwapAdjacentBlocks(c.A()));)
VOPC(InterleaveBlocks, NS && N * S >= 32, c.Emit(InterleaveEvenBlocks(d, c.A(), c.B())); c.Emit(InterleaveOddBlocks(d, c.A(), c.B()));)
VOP(BroadcastBlock, ForK<0, int(N * S < 16 ? 1 : N * S / 16)>([&](auto k) HWY_ATTR { c.Emit(BroadcastBlock<k.value>(c.A())); });)
VOP(BroadcastLane, c.Emit(BroadcastLane<0>(c.A())); c.Emit(BroadcastLane<1 % N>(c.A())); c.Emit(BroadcastLane<N / 2>(c.A())); c.Emit(BroadcastLane<N - 1>(c.A())); c.Emit(BroadcastLane<(N * 3 / 4)>(c.A()));)
VOP(LaneAccess, const size_t k = c.in[1][0] % N; c.EmitS(GetLane(c.A())); c.EmitS(ExtractLane(c.A(), k)); c.EmitS(ExtractLane(c.A(), N - 1)); c.EmitS(ExtractLane(c.A(), 0));
  c.Emit(d, InsertLane(c.A(), k, GetLane(c.C()))); c.Emit(d, InsertLane(c.A(), N - 1, GetLane(c.C()))); c.Emit(d, InsertLane(c.A(), 0, GetLane(c.C())));)
// Compile-time lane indices take separate paths (__builtin_constant_p).
VOP(LaneConst, ForK<0, int(N)>([&](auto k) HWY_ATTR { c.EmitS(ExtractLane(c.A(), size_t{k.value})); c.Emit(d, InsertLane(c.A(), size_t{k.value}, GetLane(c.C()))); });)
VOPNS(BlockAccess, NS, constexpr int NB = int(N * S <= 16 ? 1 : N * S / 16); c.EmitS(uint8_t(Blocks(d)));
  const BlockDFromD<D> db; ForK<0, NB>([&](auto k) HWY_ATTR { c.Emit(db, ExtractBlock<k.value>(c.A())); c.Emit(d, InsertBlock<k.value>(c.A(), c.As(db, 2))); });)
VOP(Tuples, auto t2 = Create2(d, c.A(), c.B()); auto t3 = Create3(d, c.A(), c.B(), c.C()); auto t4 = Create4(d, c.A(), c.B(), c.C(), c.E());
  for (int w = 0; w < 2; ++w) { c.Emit(d, Get2<0>(t2)); c.Emit(d, Get2<1>(t2)); c.Emit(d, Get3<0>(t3)); c.Emit(d, Get3<1>(t3)); c.Emit(d, Get3<2>(t3));
    c.Emit(d, Get4<0>(t4)); c.Emit(d, Get4<1>(t4)); c.Emit(d, Get4<2>(t4)); c.Emit(d, Get4<3>(t4));
    if (w) break; t2 = Set2<0>(t2, c.E()); t2 = Set2<1>(t2, c.C()); t3 = Set3<0>(t3, c.B()); t3 = Set3<1>(t3, c.C()); t3 = Set3<2>(t3, c.E());
    t4 = Set4<0>(t4, c.B()); t4 = Set4<1>(t4, c.C()); t4 = Set4<2>(t4, c.E()); t4 = Set4<3>(t4, c.A()); })
VOP(Init16, c.Emit(d, Zero(d)); c.Emit(d, Set(d, GetLane(c.A()))); const T* p = reinterpret_cast<const T*>(c.in[2]); c.Emit(d, Dup128VecFromValues(d, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]));)
// To and from every vector size.
template <size_t NB, class D, class CT> HWY_INLINE void ResizeTo(D d, CT& c) {
  if constexpr (NB <= HWY_MAX_BYTES) {
    const FixedTag<uint8_t, NB> d8;
    c.Emit(d8, ResizeBitCast(d8, c.A())); c.Emit(d8, ZeroExtendResizeBitCast(d8, d, c.A()));
    const FixedTag<int8_t, NB> di8;
    constexpr size_t kS = NB < sizeof(TFromD<D>) ? 1 : sizeof(TFromD<D>);
    const FixedTag<hwy::UnsignedFromSize<kS>, NB / kS> du2;
    c.Emit(d, ResizeBitCast(d, c.As(d8, 1))); c.Emit(d, ZeroExtendResizeBitCast(d, di8, c.As(di8, 1)));
    c.Emit(du2, ZeroExtendResizeBitCast(du2, d, c.A()));
    if constexpr (NB >= 8) { const FixedTag<double, NB / 8> df; c.Emit(df, ResizeBitCast(df, c.A())); c.Emit(df, ZeroExtendResizeBitCast(df, d, c.A())); c.Emit(d, ZeroExtendResizeBitCast(d, df, c.As(df, 1))); }
    if constexpr (NB >= 4) { const FixedTag<float, NB / 4> df; c.Emit(df, ResizeBitCast(df, c.A())); c.Emit(df, ZeroExtendResizeBitCast(df, d, c.A())); c.Emit(d, ZeroExtendResizeBitCast(d, df, c.As(df, 1))); }
  }
  if constexpr (NB < 64) ResizeTo<NB * 2>(d, c);
}
VOPNS(ResizeAny, NS, c.EmitS(uint8_t(HWY_MAX_BYTES)); ResizeTo<1>(d, c);)
VOP(Init, const T v = GetLane(c.A()); c.Emit(Zero(d)); c.Emit(Set(d, v)); const T s = static_cast<T>(c.in[1][0] % 100); c.Emit(Iota(d, s)); c.Emit(Iota(d, 0));
  const T* p = reinterpret_cast<const T*>(c.in[2]);
  if constexpr (S == 8) { c.Emit(Dup128VecFromValues(d, p[0], p[1])); }
  else if constexpr (S == 4) { c.Emit(Dup128VecFromValues(d, p[0], p[1], p[2], p[3])); }
  else if constexpr (S == 2) { c.Emit(Dup128VecFromValues(d, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])); }
  else { c.Emit(Dup128VecFromValues(d, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15])); }
  c.Emit(And(Undefined(d), Zero(d))); )
// BitCast to every lane size, ResizeBitCast to smaller/larger, ZeroExtendResizeBitCast.
VOPC(BitCastResize, NS, const Repartition<uint8_t, D> d8; c.Emit(d8, BitCast(d8, c.A()));
  if constexpr (N * S >= 8) { const Repartition<uint64_t, D> d64; c.Emit(d64, BitCast(d64, c.A())); const Repartition<double, D> df; c.Emit(df, BitCast(df, c.A())); c.Emit(d, BitCast(d, BitCast(df, c.A()))); }
  if constexpr (N * S >= 4) { const Repartition<float, D> df; c.Emit(df, BitCast(df, c.A())); const Repartition<int16_t, D> d16; c.Emit(d16, BitCast(d16, c.A())); }
  if constexpr (N > 1) { const Half<D> dh; c.Emit(dh, ResizeBitCast(dh, c.A())); const Repartition<uint8_t, Half<D>> dh8; c.Emit(dh8, ResizeBitCast(dh8, c.A())); c.Emit(d, ZeroExtendResizeBitCast(d, dh, c.As(dh, 0))); c.Emit(dh, LowerHalf(dh, ResizeBitCast(d, c.As(dh, 0)))); }
  c.Emit(d, ResizeBitCast(d, c.A())); c.Emit(d, ZeroExtendResizeBitCast(d, d, c.A()));)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
