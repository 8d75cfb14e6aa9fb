#include "hwy/highway.h"
#include "vec-inl.h"
#include "table.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
VOPNS(TableLookupBytes, true, c.Emit(TableLookupBytes(c.A(), c.B()));)
VOPNS(TableLookupBytesOr0, true, c.Emit(TableLookupBytesOr0(c.A(), c.B()));)
// Full 128-bit table with partial index vector.
VOPSC(ScTable, c.Emit(TableLookupBytes(c.A(), c.B()));)
VOPSC(ScTableOr0, c.Emit(TableLookupBytesOr0(c.A(), c.B()));)
VOPNS(TableLookupBytesMix, N <= 16, const FixedTag<uint8_t, 16> d16; c.Emit(TableLookupBytes(c.As(d16, 0), c.B())); c.Emit(TableLookupBytesOr0(c.As(d16, 0), c.B()));)
// Tables of other sizes than the index vector: one block or at least as many blocks.
template <size_t TB, class D, class CT> HWY_INLINE void TableSize(D d, CT& c) {
  constexpr size_t N = MaxLanes(D());
  if constexpr (TB <= HWY_MAX_BYTES) {
    const FixedTag<uint8_t, TB> dt; const Repartition<int8_t, D> di;
    constexpr uint8_t kM = TB < 16 ? TB - 1 : 15;
    const auto idx0 = And(c.B(), Set(d, uint8_t(kM | 0x80))); const auto idx = And(c.B(), Set(d, kM));
    c.Emit(d, TableLookupBytes(c.As(dt, 0), idx)); c.Emit(d, TableLookupBytesOr0(c.As(dt, 0), idx0));
    c.Emit(di, TableLookupBytes(c.As(dt, 0), BitCast(di, idx)));
    if constexpr (TB >= 8 && N >= 8) { const FixedTag<int64_t, TB / 8> dt64; const Repartition<uint64_t, D> d64; c.Emit(d64, TableLookupBytes(c.As(dt64, 0), BitCast(d64, idx))); c.Emit(d64, TableLookupBytesOr0(c.As(dt64, 0), BitCast(d64, idx0))); }
  }
  if constexpr (TB < 64) TableSize<(TB < 16 && N > 16 ? 16 : TB == 16 && N > 16 ? N : TB * 2)>(d, c);
}
VOPNS(TableLookupBytesSizes, true, c.EmitS(uint8_t(HWY_MAX_BYTES)); TableSize<(N > 16 ? 16 : 1)>(d, c);)
VOP(TableLookupLanes, c.Emit(d, TableLookupLanes(c.A(), IndicesFromVec(d, c.As(du, 1)))); using TI_ = TFromD<decltype(di)>; c.Emit(d, TableLookupLanes(c.A(), SetTableIndices(d, reinterpret_cast<const TI_*>(c.in[1]))));)
VOP(TwoTablesLookupLanes, const auto idx = IndicesFromVec(d, c.As(du, 1)); c.Emit(d, TwoTablesLookupLanes(d, c.A(), c.C(), idx)); c.Emit(d, TwoTablesLookupLanes(c.A(), c.C(), idx));)
#define P4(a, b, e, f) c.Emit(Per4LaneBlockShuffle<a, b, e, f>(c.A()));
VOPC(Per4LaneBlockShuffle, NS && N >= 2, if constexpr (N == 2) { P4(0,0,0,0) P4(0,0,0,1) P4(0,0,1,0) P4(0,0,1,1) P4(3,2,1,0) } else {
  P4(0,0,0,0) P4(0,1,0,1) P4(0,1,2,3) P4(0,3,2,1) P4(1,0,1,0) P4(1,0,3,2) P4(1,1,0,0) P4(1,1,1,1) P4(1,1,3,3) P4(2,0,2,0) P4(2,0,3,1) P4(2,1,0,3) P4(2,2,0,0) P4(2,2,2,2) P4(2,3,0,1)
  P4(2,3,2,3) P4(3,0,2,1) P4(3,1,2,0) P4(3,1,3,1) P4(3,2,0,1) P4(3,2,1,0) P4(3,2,3,2) P4(3,3,1,1) P4(3,3,2,2) P4(3,3,3,3) P4(1,3,0,2) })
VOP(SlideUpLanes, for (size_t k = 0; k < N; ++k) c.Emit(SlideUpLanes(d, c.A(), k));)
VOP(SlideDownLanes, for (size_t k = 0; k < N; ++k) c.Emit(SlideDownLanes(d, c.A(), k));)
VOPC(SlideConst, N > 1, ForK<0, int(N)>([&](auto k) HWY_ATTR { c.Emit(SlideUpLanes(d, c.A(), size_t{k.value})); c.Emit(SlideDownLanes(d, c.A(), size_t{k.value})); });)
VOP(Slide1, c.Emit(Slide1Up(d, c.A())); c.Emit(Slide1Down(d, c.A()));)
VOP(SlideBlocks, ForK<0, int(N * S <= 16 ? 1 : N * S / 16)>([&](auto k) HWY_ATTR { c.Emit(SlideUpBlocks<k.value>(d, c.A())); c.Emit(SlideDownBlocks<k.value>(d, c.A())); });)
// Flag: whether upper lanes hold the mask=false lanes (documented guarantee).
VOP(Compress, c.EmitS(uint8_t(CompressIsPartition<T>::value)); c.Emit(d, Compress(c.A(), c.M()));)
VOP(CompressNot, c.EmitS(uint8_t(CompressIsPartition<T>::value)); c.Emit(d, CompressNot(c.A(), c.M()));)
VOPC(CompressBlocksNot, NS && N >= 2, c.Emit(CompressBlocksNot(c.A(), c.M()));)
#define BUF alignas(64) T buf[2 * N]; memset(reinterpret_cast<uint8_t*>(buf), 0xA5, sizeof(buf));
#define EBUF for (size_t i = 0; i < 2 * N; ++i) c.EmitS(buf[i]);
VOP(CompressStore, BUF c.EmitS(uint8_t(CompressStore(c.A(), c.M(), d, buf))); EBUF)
VOP(CompressBlendedStore, BUF c.EmitS(uint8_t(CompressBlendedStore(c.A(), c.M(), d, buf))); EBUF)
VOP(CompressBits, uint8_t bits[16] = {0}; StoreMaskBits(d, c.M(), bits); c.EmitS(uint8_t(CompressIsPartition<T>::value)); c.Emit(CompressBits(c.A(), bits));)
VOP(CompressBitsStore, BUF uint8_t bits[16] = {0}; StoreMaskBits(d, c.M(), bits); c.EmitS(uint8_t(CompressBitsStore(c.A(), bits, d, buf))); EBUF)
VOP(Expand, c.Emit(d, Expand(c.A(), c.M()));)
VOP(LoadExpand, c.Emit(d, LoadExpand(c.M(), d, reinterpret_cast<const T*>(c.in[1])));)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) } } g_reg;
} }
