#include "ref.h"
#include "perm.list.h"
namespace vt {
template <typename T> T fu(UOf<T> u) { return FromBits<T>(u); }
// Emits lane k of the expected vector for k in [0, n).
#define FORL(n, EXPR) for (size_t i = 0; i < (n); ++i) r.bits<T>(EXPR)
ROP(LowerHalf, for (int w = 0; w < 2; ++w) FORL(N / 2, x.a(i));)
ROP(UpperHalf, FORL(N / 2, x.a(N / 2 + i));)
ROP(ZeroExtendVector, FORL(N, i < N / 2 ? x.a(i) : fu<T>(0));)
ROP(Combine, FORL(N, i < N / 2 ? x.b(i) : x.a(i - N / 2));)
ROP(Concats, const size_t h = N / 2; FORL(N, i < h ? x.b(i) : x.a(i - h)); FORL(N, i < h ? x.b(i + h) : x.a(i)); FORL(N, i < h ? x.b(i + h) : x.a(i - h)); FORL(N, i < h ? x.b(i) : x.a(i));)
ROP(ConcatOddEven, const size_t h = N / 2; FORL(N, i < h ? x.b(2 * i + 1) : x.a(2 * (i - h) + 1)); FORL(N, i < h ? x.b(2 * i) : x.a(2 * (i - h)));)
ROP(InterleaveWhole, for (int w = 0; w < 3; ++w) { const size_t o = w == 2 ? N / 2 : 0; FORL(N, i & 1 ? x.b(o + i / 2) : x.a(o + i / 2)); })
template <typename T> T il(In<T> x, size_t i, bool up) { const size_t L = x.BlockLanes(), blk = i / L, j = i % L; const size_t s = blk * L + (up ? L / 2 : 0) + j / 2; return j & 1 ? x.b(s) : x.a(s); }
ROP(InterleaveLower, for (int w = 0; w < 2; ++w) FORL(N, il(x, i, false));)
ROP(InterleaveUpper, FORL(N, il(x, i, true));)
ROP(InterleaveEven, for (int w = 0; w < 2; ++w) FORL(N, i & 1 ? x.b(i - 1) : x.a(i));)
ROP(InterleaveOdd, FORL(N, i & 1 ? x.b(i) : x.a(i + 1));)
ROP(ScZip, for (int k = 0; k < 2; ++k) { r.bits<T>(x.a(0)); r.bits<T>(x.b(0)); })
ROP(ScPass, for (int k = 0; k < 8; ++k) r.bits<T>(x.a(0)); r.eq<TU>(x.m(0) ? 1 : 0);)
template <typename TO, typename T> void scr(R& r, T v) { u64 b = u64(Bits(v)); for (int k = 0; k < 2; ++k) { if (sizeof(TO) == 1) r.eq<u8>(u8(b)); else if (sizeof(TO) == 2) r.eq<u16>(u16(b)); else if (sizeof(TO) == 4) r.eq<u32>(u32(b)); else r.eq<u64>(b); } }
ROP(ScResize, scr<u8>(r, x.a(0)); scr<i8>(r, x.a(0)); scr<u16>(r, x.a(0)); scr<i16>(r, x.a(0)); scr<u32>(r, x.a(0)); scr<i32>(r, x.a(0)); scr<f32>(r, x.a(0)); scr<u64>(r, x.a(0)); scr<i64>(r, x.a(0)); scr<f64>(r, x.a(0));)
ROP(Zip, for (int w = 0; w < 3; ++w) FORL(N, il(x, i, w == 2));)
ROP(Broadcast, const size_t L = x.BlockLanes(); for (size_t k = 0; k < L; ++k) FORL(N, x.a(i / L * L + k));)
template <typename T> u8 by(In<T> x, int k, size_t j) { return x.in[k][j]; }
#define BYTES(K0, EXPR) const size_t n8 = N * sizeof(T), BB = std::min<size_t>(16, n8); for (size_t k = K0; k < BB; ++k) for (size_t p = 0; p < n8; ++p) { const size_t j = p % BB, base = p - j; (void)base; r.eq<u8>(EXPR); }
ROP(ShiftLeftBytes, BYTES(1, j >= k ? by(x, 0, p - k) : 0))
ROP(ShiftRightBytes, BYTES(1, j + k < BB ? by(x, 0, p + k) : 0))
ROP(CombineShiftRightBytes, BYTES(1, j + k < BB ? by(x, 1, p + k) : by(x, 0, base + j + k - BB)))
ROP(ShiftLanes, const size_t L = x.BlockLanes(); for (size_t k = 0; k < L; ++k) { FORL(N, i % L >= k ? x.a(i - k) : fu<T>(0)); FORL(N, i % L + k < L ? x.a(i + k) : fu<T>(0)); } FORL(N, i % L >= 1 ? x.a(i - 1) : fu<T>(0));)
ROP(CombineShiftRightLanes, const size_t L = x.BlockLanes(); for (size_t k = 1; k < L; ++k) FORL(N, i % L + k < L ? x.b(i + k) : x.a(i + k - L));)
ROP(OddEven, FORL(N, i & 1 ? x.a(i) : x.b(i));)
ROP(DupEven, FORL(N, x.a(i & ~size_t(1)));)
ROP(DupOdd, FORL(N, x.a(i | 1));)
ROP(Shuffle32, static const int t[5][4] = {{2, 3, 0, 1}, {1, 2, 3, 0}, {3, 0, 1, 2}, {1, 0, 3, 2}, {3, 2, 1, 0}}; for (auto& p : t) FORL(N, x.a((i & ~size_t(3)) + p[i & 3]));)
ROP(Shuffle01, FORL(N, x.a(i ^ 1));)
ROP(Reverse, FORL(N, x.a(N - 1 - i));)
ROP(ReverseBlocks, const size_t L = x.BlockLanes(), nb = N / L; FORL(N, x.a((nb - 1 - i / L) * L + i % L));)
ROP(Reverse2, FORL(N, x.a(i ^ 1));)
ROP(Reverse4, FORL(N, x.a(i ^ 3));)
ROP(Reverse8, FORL(N, x.a(i ^ 7));)
ROP(OddEvenBlocks, const size_t L = x.BlockLanes(); FORL(N, (i / L) & 1 ? x.a(i) : x.b(i));)
ROP(SwapAdjacentBlocks, const size_t L = x.BlockLanes(); FORL(N, x.a(i ^ L));)
ROP(InterleaveBlocks, const size_t L = x.BlockLanes(); FORL(N, (i / L) & 1 ? x.b(i - L) : x.a(i)); FORL(N, (i / L) & 1 ? x.b(i) : x.a(i + L));)
ROP(BroadcastBlock, const size_t L = x.BlockLanes(); for (size_t k = 0; k < N / L; ++k) FORL(N, x.a(k * L + i % L));)
ROP(BroadcastLane, const size_t ks[5] = {0, 1 % N, N / 2, N - 1, N * 3 / 4}; for (size_t k : ks) FORL(N, x.a(k));)
ROP(LaneAccess, const size_t k = x.in[1][0] % N; r.bits<T>(x.a(0)); r.bits<T>(x.a(k)); r.bits<T>(x.a(N - 1)); r.bits<T>(x.a(0)); FORL(N, i == k ? x.c(0) : x.a(i)); FORL(N, i == N - 1 ? x.c(0) : x.a(i)); FORL(N, i == 0 ? x.c(0) : x.a(i));)
ROP(LaneConst, for (size_t k = 0; k < N; ++k) { r.bits<T>(x.a(k)); FORL(N, i == k ? x.c(0) : x.a(i)); })
ROP(BlockAccess, const size_t L = x.BlockLanes(), nb = N / L; r.eq<u8>(u8(nb)); for (size_t k = 0; k < nb; ++k) { FORL(L, x.a(k * L + i)); FORL(N, i / L == k ? x.c(i % L) : x.a(i)); })
ROP(Tuples, static const int s[18] = {0, 1, 0, 1, 2, 0, 1, 2, 3, 3, 2, 1, 2, 3, 1, 2, 3, 0}; for (int k : s) FORL(N, x.template P<T>(k)[i]);)
ROP(Init16, FORL(N, fu<T>(0)); FORL(N, x.a(0)); FORL(N, x.c(i % 8));)
// The first element is the largest vector of the target; sizes above it are absent.
ROP(ResizeAny, const size_t n8 = N * sizeof(T); r.any<u8>(); r.limit_sizes = true;
  for (size_t nb = 1; nb <= 64; nb *= 2) { r.size_mark(nb);
    auto res = [&](int k, size_t lim, size_t n, bool zero) { for (size_t p = 0; p < n; ++p) if (p < lim) r.eq<u8>(x.in[k][p]); else if (zero) r.eq<u8>(0); else r.any<u8>(); };
    res(0, n8, nb, false); res(0, n8, nb, true); res(1, nb, n8, false); res(1, nb, n8, true); res(0, n8, nb, true);
    for (size_t s : {8, 4}) if (nb >= s) { res(0, n8, nb, false); res(0, n8, nb, true); res(1, nb, n8, true); } })
ROP(Init, FORL(N, fu<T>(0)); FORL(N, x.a(0)); const T s = T(x.in[1][0] % 100); FORL(N, T(s + T(i))); FORL(N, T(i)); const size_t L = 16 / sizeof(T); FORL(N, x.c(i % L)); FORL(N, fu<T>(0));)
ROP(BitCastResize, const size_t n8 = N * sizeof(T); auto all = [&](size_t lim, size_t n) { for (size_t p = 0; p < n; ++p) r.eq<u8>(p < lim ? x.in[0][p] : 0); };
  all(n8, n8); if (n8 >= 8) { all(n8, n8); all(n8, n8); all(n8, n8); } if (n8 >= 4) { all(n8, n8); all(n8, n8); }
  if (N > 1) { all(n8, n8 / 2); all(n8, n8 / 2); all(n8 / 2, n8); all(n8, n8 / 2); } all(n8, n8); all(n8, n8);)
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
