#include "hwy/highway.h"
#include "hwy/cache_control.h"
#include "mem.h"
#include "vec-inl.h"
#include "mem.list.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
// c.in[]: 0..3 values, 4 mask, 5 src, 6 dst, 7 size_t n, 8 indices/offsets, 9 scratch 8-byte mask bits
#define SRC (reinterpret_cast<const T*>(c.in[5]))
#define DST (reinterpret_cast<T*>(const_cast<uint8_t*>(c.in[6])))
#define NUM (*reinterpret_cast<const size_t*>(c.in[7]))
#define IDX (LoadU(di, reinterpret_cast<const TI*>(c.in[8])))
VOP(Load, c.Emit(d, Load(d, SRC));)
VOP(LoadU, c.Emit(d, LoadU(d, SRC));)
VOPNS(LoadDup128, true, c.Emit(d, LoadDup128(d, SRC));)
VOPNS(InsertIntoUpper, N >= 2, c.Emit(d, InsertIntoUpper(d, DST, c.A()));)
VOP(MaskedLoad, c.Emit(d, MaskedLoad(c.M(), d, SRC));)
VOP(MaskedLoadOr, c.Emit(d, MaskedLoadOr(c.A(), c.M(), d, SRC));)
VOP(LoadN, c.Emit(d, LoadN(d, SRC, NUM));)
VOP(LoadNOr, c.Emit(d, LoadNOr(c.A(), d, SRC, NUM));)
VOP(Store, Store(c.A(), d, DST);)
VOP(StoreU, StoreU(c.A(), d, DST);)
VOP(Stream, Stream(c.A(), d, DST); hwy::FlushStream();)
VOP(BlendedStore, BlendedStore(c.A(), c.M(), d, DST);)
VOP(StoreN, StoreN(c.A(), d, DST, NUM);)
// Compile-time counts take separate paths (__builtin_constant_p).
#define KNUM(...) const size_t num = NUM; if (num > (N <= 8 ? N : 8)) { const size_t K = num; __VA_ARGS__ } else ForK<0, int(N <= 8 ? N : 8) + 1>([&](auto k) HWY_ATTR { constexpr size_t K = k.value; if (num == K) { __VA_ARGS__ } });
VOP(LoadNConst, KNUM(c.Emit(d, LoadN(d, SRC, K));))
VOP(LoadNOrConst, KNUM(c.Emit(d, LoadNOr(c.A(), d, SRC, K));))
VOP(StoreNConst, KNUM(StoreN(c.A(), d, DST, K);))
VOP(SafeFillN, SafeFillN(NUM, GetLane(c.A()), d, DST);)
VOP(SafeCopyN, SafeCopyN(NUM, d, SRC, DST);)
#define TRS(B) TruncateStore(c.A(), d, reinterpret_cast<hwy::UnsignedFromSize<B>*>(DST));
VOPC(TruncateStore1, (S > 1), TRS(1))
VOPC(TruncateStore2, (S > 2), TRS(2))
VOPC(TruncateStore4, (S > 4), TRS(4))
VOP(LoadInterleaved2, Vec<D> v0; Vec<D> v1; LoadInterleaved2(d, SRC, v0, v1); c.Emit(d, v0); c.Emit(d, v1);)
VOP(LoadInterleaved3, Vec<D> v0; Vec<D> v1; Vec<D> v2; LoadInterleaved3(d, SRC, v0, v1, v2); c.Emit(d, v0); c.Emit(d, v1); c.Emit(d, v2);)
VOP(LoadInterleaved4, Vec<D> v0; Vec<D> v1; Vec<D> v2; Vec<D> v3; LoadInterleaved4(d, SRC, v0, v1, v2, v3); c.Emit(d, v0); c.Emit(d, v1); c.Emit(d, v2); c.Emit(d, v3);)
VOP(StoreInterleaved2, StoreInterleaved2(c.A(), c.B(), d, DST);)
VOP(StoreInterleaved3, StoreInterleaved3(c.A(), c.B(), c.C(), d, DST);)
VOP(StoreInterleaved4, StoreInterleaved4(c.A(), c.B(), c.C(), c.E(), d, DST);)
VOP(GatherOffset, c.Emit(d, GatherOffset(d, SRC, IDX));)
VOP(GatherIndex, c.Emit(d, GatherIndex(d, SRC, IDX));)
VOP(GatherIndexN, c.Emit(d, GatherIndexN(d, SRC, IDX, NUM));)
VOP(GatherIndexNOr, c.Emit(d, GatherIndexNOr(c.A(), d, SRC, IDX, NUM));)
VOP(MaskedGatherIndex, c.Emit(d, MaskedGatherIndex(c.M(), d, SRC, IDX));)
VOP(MaskedGatherIndexOr, c.Emit(d, MaskedGatherIndexOr(c.A(), c.M(), d, SRC, IDX));)
VOP(ScatterOffset, ScatterOffset(c.A(), d, DST, IDX);)
VOP(ScatterIndex, ScatterIndex(c.A(), d, DST, IDX);)
VOP(ScatterIndexN, ScatterIndexN(c.A(), d, DST, IDX, NUM);)
VOP(MaskedScatterIndex, MaskedScatterIndex(c.A(), c.M(), d, DST, IDX);)
VOP(CompressStore, c.EmitS(uint64_t(CompressStore(c.A(), c.M(), d, DST)));)
VOP(CompressBlendedStore, c.EmitS(uint64_t(CompressBlendedStore(c.A(), c.M(), d, DST)));)
VOP(CompressBitsStore, c.EmitS(uint64_t(CompressBitsStore(c.A(), c.in[9], d, DST)));)
VOP(LoadExpand, c.Emit(d, LoadExpand(c.M(), d, SRC));)
VOP(LoadMaskBits, c.EmitM(d, LoadMaskBits(d, c.in[5]));)
VOP(StoreMaskBits, c.EmitS(uint64_t(StoreMaskBits(d, c.M(), reinterpret_cast<uint8_t*>(DST))));)
VOP(CacheControl, hwy::Prefetch(SRC + NUM); hwy::LoadFence(); hwy::Pause(); hwy::FlushCacheline(DST); hwy::FlushStream();)
}
}
HWY_AFTER_NAMESPACE();
namespace vt { namespace HWY_NAMESPACE {
struct RegisterAll { RegisterAll() { GROUP_LIST(REGX) MemMightFault()[hwy::TargetName(HWY_TARGET)] = HWY_MEM_OPS_MIGHT_FAULT; } } g_reg;
} }
